package h

import (
	"fvh/sym"
	"fvh/vfs"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/types"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage/adapter"
	"github.com/abichinger/fastac/util"
)

// Many rules of fixed values, and a few arbitrary ones: whatever is cut in pieces, cached up to a limit or counted in a
// small type must not show.

// many is the number of rules: more than the usual sizes of pieces, buffers and caches.
func many() int { return pick(1100, 2100) }

// spot is a position at or next to a usual limit.
func spot(name string) int {
	if sym.Thorough() {
		l := []int{0, 1, 7, 8, 9, 10, 15, 16, 19, 20, 31, 32, 49, 50, 63, 64, 99, 100, 127, 128, 199, 200, 255, 256, 499, 500, 511, 512, 999, 1000, 1023, 1024, 1099, 2047, 2048, 2099}
		return l[sym.Choose(name, len(l))]
	}
	l := []int{0, 9, 31, 63, 64, 99, 100, 127, 255, 256, 499, 512, 1000, 1024, 1099}
	return l[sym.Choose(name, len(l))]
}

func val(i int) string { return "v" + itoa(i) }

// tally is a storage which holds rules of one value by their number and counts what it accepted.
type tally struct {
	log    []string
	calls  int
	failAt int
	failed bool
}

func (b *tally) LoadPolicy(m api.IAddRuleBool) error { return nil }
func (b *tally) SavePolicy(m api.IRangeRules) error  { return nil }
func (b *tally) take(sign string, rules ...[]string) error {
	b.calls++
	if b.calls == b.failAt {
		b.failed = true
		return errDown
	}
	for _, r := range rules {
		b.log = append(b.log, sign+r[1])
	}
	return nil
}

type tallySimple struct{ *tally }

func (b tallySimple) AddRule(r []string) error    { return b.take("+", r) }
func (b tallySimple) RemoveRule(r []string) error { return b.take("-", r) }

type tallyBatch struct{ *tally }

func (b tallyBatch) AddRules(rs [][]string) error    { return b.take("+", rs...) }
func (b tallyBatch) RemoveRules(rs [][]string) error { return b.take("-", rs...) }

func sameTexts(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// flushMany queues many changes and flushes them; some call of the adapter fails, if asked for.
func flushMany(fail bool) {
	b := &tally{}
	var ad interface{} = tallySimple{b}
	if sym.Bool("batch adapter") {
		ad = tallyBatch{b}
	}
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), ad)
	sym.Assert(err == nil, "no enforcer")
	n := many()
	want := []string{}
	rules := [][]string{}
	for i := 0; i < n; i++ {
		rules = append(rules, []string{"p", val(i)})
		want = append(want, "+"+val(i))
	}
	sym.Assert(en.AddRules(rules) == nil, "adding many rules fails")
	k, v := spot("removed"), sym.StrIn("v", "ab", 1, 1)
	mustRemove(en, rules[k])
	mustAdd(en, []string{"p", v})
	want = append(want, "-"+val(k), "+"+v)
	if sym.Bool("removed all") {
		rest := append(append([][]string{}, rules[:k]...), rules[k+1:]...)
		sym.Assert(en.RemoveRules(rest) == nil, "removing many rules fails")
		for _, r := range rest {
			want = append(want, "-"+r[1])
		}
	}
	if fail {
		b.failAt = []int{1, 2, 3, 4, 64, 100, 101, 256}[sym.Choose("failing call", 8)]
	}
	err = en.Flush()
	sym.Assert((err != nil) == b.failed, "a failing adapter call is not reported, or an error without one")
	sym.Assert(len(b.log) <= len(want) && sameTexts(b.log, want[:len(b.log)]), "of many changes some are lost, repeated or reordered")
	if fail {
		b.failAt = 0
		sym.Assert(en.Flush() == nil, "flushing to the recovered adapter fails")
	}
	sym.Observe("log", len(b.log))
	sym.Cover("end")
	sym.Assert(sameTexts(b.log, want), "of many changes some are lost, repeated or reordered")
	sym.Assert(en.Flush() == nil && len(b.log) == len(want), "changes are sent again")
}

// C12_many: many pending changes are sent once each in order.
func C12_many() { flushMany(false) }

// C13_many: the same with a failing call in between.
func C13_many() { flushMany(true) }

func defsMany() []def {
	return []def{{'r', "r", "x, y"}, {'p', "p", "a, b, eft"}, {'g', "g", "_, _"}, {'e', "e", noDeny}, {'e', "e2", someAllow}, {'e', "e3", allowDeny},
		{'m', "m", "r.x == p.a"}, {'m', "m2", "r.x == p.a || r.y == p.b"}, {'m', "m3", "g(r.x, p.a) && r.y == p.b"}}
}

// C01_many: one rule of many decides.
func C01_many() {
	en := newEnforcer(newModel(defsMany()...))
	n := many()
	k := spot("deny")
	eft := []string{"allow", "deny", "none"}[sym.Choose("eft", 3)]
	for i := 0; i < n; i++ {
		r := []string{"p", "a", val(i), "none"}
		if i == k {
			r[3] = eft
		}
		mustAdd(en, r)
	}
	x := sym.StrIn("x", "ab", 1, 1)
	e := sym.Choose("effect", 3)
	got := mustEnforce(en, fastac.SetEffector([]string{"e", "e2", "e3"}[e]), x, "z")
	sym.Cover("end")
	want := x == "a" && eft == "allow"
	if e == 0 {
		want = x != "a" || eft != "deny"
	}
	sym.Assert(got == want, "the deciding rule of many is not found")
}

// C02_many: many texts as matchers, twice, with a change in between.
func C02_many() {
	en := newEnforcer(newModel(defsMany()...))
	mustAdd(en, []string{"p", "a", "b", "allow"})
	n := many() / 2
	ask := func(i int, x string) bool {
		return mustEnforce(en, fastac.SetEffector("e2"), fastac.SetMatcher("r.x == p.a && r.y == \""+val(i)+"\""), x, val(i))
	}
	for i := 0; i < n; i++ {
		ask(i, "a")
	}
	v := sym.StrIn("v", "abc", 1, 1)
	add := sym.Bool("add")
	if add {
		mustAdd(en, []string{"p", v, "c", "allow"})
	} else if v == "a" {
		mustRemove(en, []string{"p", "a", "b", "allow"})
	}
	x := sym.StrIn("x", "abc", 1, 1)
	sym.Cover("end")
	want := x == "a" && (add || v != "a") || add && x == v
	for _, i := range []int{0, 1, n / 2, n - 1, n} {
		sym.Assert(ask(i, x) == want, "a matcher asked before does not see the current rules")
		sym.Assert(!mustEnforce(en, fastac.SetEffector("e2"), fastac.SetMatcher("r.x == p.a && r.y == \""+val(i)+"\""), x, "z"), "another matcher decides")
	}
}

// C11_many: a filter over many rules, also with alternatives.
func C11_many() {
	en := newEnforcer(newModel(defsMany()...))
	n := many()
	for i := 0; i < n; i++ {
		mustAdd(en, []string{"p", "a", val(i), ""})
	}
	extra := []string{"p", sym.StrIn("a", "ab", 1, 1), "z", ""}
	mustAdd(en, extra)
	mname := []string{"m", "m2"}[sym.Choose("matcher", 2)]
	x, y := sym.StrIn("x", "ab", 1, 1), []string{"z", val(spot("y"))}[sym.Choose("value", 2)]
	got := mustFilter(en, fastac.SetMatcher(mname), x, y)
	sym.Cover("end")
	seen := map[string]int{}
	for _, r := range got {
		seen[r[2]]++
	}
	for i := 0; i < n; i++ {
		want := 0
		if x == "a" || mname == "m2" && y == val(i) {
			want = 1
		}
		sym.Assert(seen[val(i)] == want, "a filter misses or repeats one of many rules")
	}
	want := 0
	if x == extra[1] || mname == "m2" && y == "z" {
		want = 1
	}
	sym.Assert(seen["z"] == want, "a filter misses or repeats one of many rules")
}

// C03_many: a set of many rules.
func C03_many() {
	m := newModel(defsMany()...)
	n := many()
	for i := 0; i < n; i++ {
		added, err := m.AddRule([]string{"p", "a", val(i), ""})
		sym.Assert(added && err == nil, "a new rule is not added")
	}
	k := spot("k")
	gone := sym.Bool("removed")
	if gone {
		removed, err := m.RemoveRule([]string{"p", "a", val(k), ""})
		sym.Assert(removed && err == nil, "a rule is not removed")
	}
	added, err := m.AddRule([]string{"p", sym.StrIn("v", "ab", 1, 1), val(k), ""})
	sym.Assert(err == nil, "adding fails")
	count := map[string]int{}
	total := 0
	m.RangeRules(func(r []string) bool { count[r[2]]++; total++; return true })
	sym.Cover("end")
	for i := 0; i < n; i++ {
		want := 1
		if i == k && gone {
			want--
		}
		if i == k && added {
			want++
		}
		sym.Assert(count[val(i)] == want, "one of many rules is lost or repeated")
	}
}

// C30_many: a batch of many rules.
func C30_many() {
	m := newModel(defsMany()...)
	en := newEnforcer(m)
	n := many()
	k := spot("odd")
	odd := [][]string{{"p", "a", val(0), ""}, {"p", "a", sym.StrIn("v", "ab", 1, 1), ""}, {"q", "a", "b", ""}, {"p", "a"}}[sym.Choose("kind", 4)]
	rules := [][]string{}
	for i := 0; i < n; i++ {
		if i == k {
			rules = append(rules, odd)
		}
		rules = append(rules, []string{"p", "a", val(i), ""})
	}
	m2 := newModel(defsMany()...)
	one := newEnforcer(m2)
	var want error
	for _, r := range rules {
		if _, want = one.AddRule(r); want != nil {
			break
		}
	}
	err := en.AddRules(rules)
	sym.Cover("end")
	sym.Assert((err != nil) == (want != nil), "a batch of many rules fails where single changes do not, or the other way round")
	compare := func() {
		count := map[string]int{}
		m.RangeRules(func(r []string) bool { count[r[len(r)-1]+"/"+r[2]]++; return true })
		m2.RangeRules(func(r []string) bool { count[r[len(r)-1]+"/"+r[2]]--; return true })
		for _, c := range count {
			sym.Assert(c == 0, "a batch of many rules has another result than single changes")
		}
	}
	if odd[0] == "p" && len(odd) == 2 {
		return
	}
	compare()
	want = nil
	for _, r := range rules {
		if _, want = one.RemoveRule(r); want != nil {
			break
		}
	}
	err = en.RemoveRules(rules)
	sym.Assert((err != nil) == (want != nil), "a batch of many rules fails where single changes do not, or the other way round")
	compare()
}

// C16_many: a policy file with many rules.
func C16_many() {
	vfs.Reset()
	a := adapter.NewFileAdapter("/p.csv")
	n := many()
	rules := [][]string{}
	for i := 0; i < n; i++ {
		rules = append(rules, []string{"p", val(i)})
	}
	vfs.Put("/p.csv", "")
	sym.Assert(a.AddRules(rules) == nil, "adding many rules to a file fails")
	k := spot("removed")
	v := sym.StrIn("v", "a,", 1, 1)
	sym.Assert(a.RemoveRule(rules[k]) == nil && a.AddRule([]string{"p", v}) == nil, "an operation on a large file fails")
	all := sym.Bool("removed all")
	if all {
		sym.Assert(a.RemoveRules(rules) == nil, "removing many rules from a file fails")
	}
	got, ok := onDisk("/p.csv")
	sym.Cover("end")
	count := map[string]int{}
	for _, r := range got {
		count[r[1]]++
	}
	for i := 0; i < n; i++ {
		want := 1
		if i == k || all {
			want = 0
		}
		sym.Assert(count[val(i)] == want, "one of many rules of a file is lost or repeated")
	}
	sym.Assert(ok && count[v] == 1, "a rule added to a large file is lost")
}

// C29_many: listings of many names and domains.
func C29_many() {
	rm := c29manager(10)
	dm := rbac.NewDomainManager(10)
	n := many() / 2
	for i := 0; i < n; i++ {
		_, _ = rm.AddLink(val(i), "r")
		_, _ = rm.AddLink("u", val(i))
		_, _ = dm.AddLink("u", "r", val(i))
	}
	k := []int{0, 99, 100, 127, 128, n - 1}[sym.Choose("k", 6)]
	gone := sym.Bool("removed")
	if gone {
		_, _ = rm.DeleteLink(val(k), "r")
		_, _ = rm.DeleteLink("u", val(k))
		_, _ = dm.DeleteLink("u", "r", val(k))
	}
	v := sym.StrIn("v", "ab", 1, 1)
	_, _ = rm.AddLink(v, "r")
	_, _ = rm.AddLink("u", v)
	_, _ = dm.AddLink("u", "r", v)
	sym.Cover("end")
	for _, list := range [][]string{namesOf(rm.GetUsers("r")), namesOf(rm.GetRoles("u")), namesOf(dm.GetDomains("u")), namesOf(dm.GetAllDomains())} {
		count := map[string]int{}
		for _, x := range list {
			count[x]++
		}
		for i := 0; i < n; i++ {
			want := 1
			if gone && i == k {
				want = 0
			}
			sym.Assert(count[val(i)] == want, "one of many names is missing or repeated")
		}
		sym.Assert(count[v] == 1, "one of many names is missing or repeated")
	}
}

// C06_many: a role with many users and many roles, and roles of these.
func C06_many() {
	rm := rbac.NewRoleManager(10)
	n := many()
	for i := 0; i < n; i++ {
		_, _ = rm.AddLink("u", val(i))
		_, _ = rm.AddLink(val(i), "w"+itoa(i))
	}
	k := []int{0, 99, 100, 127, 128, n - 1}[sym.Choose("k", 6)]
	_, _ = rm.AddLink("w"+itoa(k), sym.StrIn("v", "ab", 1, 1))
	gone := sym.Bool("removed")
	if gone {
		_, _ = rm.DeleteLink("u", val(k))
	}
	x := sym.StrIn("x", "ab", 1, 1)
	sym.Cover("end")
	sym.Assert(hasLink(rm, "w"+itoa(k), x) == hasLink(rm, val(k), x), "a link is lost among many")
	sym.Assert(hasLink(rm, "u", x) == (!gone && hasLink(rm, val(k), x)), "a link is lost among many")
	sym.Assert(hasLink(rm, "u", "w0") == (!gone || k != 0) && hasLink(rm, "u", "w5"), "a link is lost among many")
}

// C31_many: clearing many rules.
func C31_many() {
	m := newModel(defsMany()...)
	en := newEnforcer(m)
	n := many()
	for i := 0; i < n; i++ {
		mustAdd(en, []string{"p", "a", val(i), ""}, []string{"g", val(i), "a"})
	}
	links := sym.Bool("links")
	key := "p"
	if links {
		key = "g"
	}
	sym.Assert(m.ClearPolicy(key) == nil, "clearing fails")
	left := 0
	m.RangeRules(func(r []string) bool {
		sym.Assert(r[0] != key, "a cleared rule is listed")
		left++
		return true
	})
	sym.Assert(left == n, "clearing removes other rules")
	k := spot("k")
	v := sym.StrIn("v", "ab", 1, 1)
	mustAdd(en, []string{"p", "a", v, ""}, []string{"g", v, "a"})
	sym.Cover("end")
	x := sym.StrIn("x", "ab", 1, 1)
	e2 := fastac.SetEffector("e2")
	sym.Assert(mustEnforce(en, e2, "a", val(k)) == true || !links, "clearing links removes rules")
	sym.Assert(mustEnforce(en, e2, fastac.SetMatcher("m3"), val(k), v) == !links, "a cleared link holds, or another is lost")
	sym.Assert(mustEnforce(en, e2, fastac.SetMatcher("m3"), x, v) == (x == v || x == "a"), "a link added after clearing is wrong")
	sym.Assert(mustEnforce(en, e2, fastac.SetMatcher("m3"), "a", val(k)) == links, "a cleared rule decides, or another is lost")
}

// C04_many: the effects of many rules.
func C04_many() {
	text := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	e := effector.NewEffector(defs.NewEffectDef("e", text))
	all := make([]types.Effect, many())
	for i := range all {
		all[i] = eft.Indeterminate
	}
	kinds := []types.Effect{eft.Indeterminate, eft.Allow, eft.Deny}
	all[spot("first")] = kinds[sym.Choose("kind", 3)]
	all[[]int{0, 1, 64, 100, 256, 1001}[sym.Choose("second", 6)]] = kinds[sym.Choose("kind2", 3)]
	matches := make([][]string, len(all))
	for i := range matches {
		matches[i] = []string{itoa(i)}
	}
	res := eft.Indeterminate
	for i := 1; i <= len(all) && res == eft.Indeterminate; i++ {
		var err error
		res, _, err = e.MergeEffects(all[:i], matches[:i], false)
		sym.Assert(err == nil, "merging effects fails")
	}
	if res == eft.Indeterminate {
		var err error
		res, _, err = e.MergeEffects(all, matches, true)
		sym.Assert(err == nil, "merging effects fails")
	}
	sym.Cover("end")
	sym.Assert((res == eft.Allow) == refEffect(text, all), "the effects of many rules are merged wrongly")
}

// C05_many: one rule of many cannot be evaluated.
func C05_many() {
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a, b, eft"}, def{'e', "e", noDeny}, def{'e', "e2", allowDeny}, def{'m', "m", "r.x == p.a && eval(p.b)"}))
	n := many() / 4
	for i := 0; i < n; i++ {
		mustAdd(en, []string{"p", "a", "r.x == \"" + val(i) + "\"", ""})
	}
	k := []int{0, 10, 64, 100, 128, 256, n - 1}[sym.Choose("k", 7)]
	mustRemove(en, []string{"p", "a", "r.x == \"" + val(k) + "\"", ""})
	bad := []string{"r.x ==", "r.nope == r.x", "r.x", "unknown(r.x)"}[sym.Choose("bad", 4)]
	mustAdd(en, []string{"p", sym.StrIn("v", "ab", 1, 1), bad, ""})
	x := sym.StrIn("x", "ab", 1, 1)
	p, _ := en.GetModel().GetPolicy("p")
	hit := false
	p.Range(func(r []string) bool { hit = hit || r[1] == bad && r[0] == x; return true })
	got, err := en.Enforce(fastac.SetEffector([]string{"e", "e2"}[sym.Choose("effect", 2)]), x)
	sym.Cover("end")
	sym.Assert((err != nil) == hit, "the error of one of many rules is lost, or there is one without it")
	sym.Assert(!hit || !got, "an error allows")
}

// C07_many: many domains, each with its own links.
func C07_many() {
	rm := rbac.NewDomainManager(10)
	n := many() / 4
	for i := 0; i < n; i++ {
		_, _ = rm.AddLink("u", "r"+itoa(i), val(i))
		_, _ = rm.AddLink("r"+itoa(i), "s", val(i))
		hasLink(rm, "u", "s", val(i))
	}
	ks := []int{0, 1, 99, 100, 101, 127, 128, n - 1}
	k, l := ks[sym.Choose("k", 8)], ks[sym.Choose("l", 8)]
	v := sym.StrIn("v", "ab", 1, 1)
	_, _ = rm.AddLink("r"+itoa(k), v, val(l))
	gone := sym.Bool("removed")
	if gone {
		_, _ = rm.DeleteLink("r"+itoa(k), "s", val(k))
	}
	x := sym.StrIn("x", "ab", 1, 1)
	sym.Cover("end")
	sym.Assert(hasLink(rm, "u", x, val(l)) == (k == l && x == v), "a link of one of many domains is wrong")
	sym.Assert(hasLink(rm, "u", "s", val(k)) == !gone, "a link of one of many domains is wrong")
	sym.Assert(k == l || hasLink(rm, "u", "s", val(l)), "a link is lost in another domain")
	sym.Assert(!hasLink(rm, "u", "r"+itoa(k), val((k+1)%n)) && !hasLink(rm, "u", "s"), "a link leaks into another domain")
}

// C08_many: many patterns and many names.
func C08_many() {
	rm := rbac.NewRoleManager(10)
	rm.SetMatcher(star{})
	n := many() / 10
	for i := 0; i < n; i++ {
		_, _ = rm.AddLink(val(i)+".*", "r"+itoa(i))
		_, _ = rm.AddLink("n"+itoa(i), "q*")
	}
	ks := []int{0, 50, 99, 100, n - 1}
	k := ks[sym.Choose("k", 5)]
	gone := sym.Bool("removed")
	if gone {
		_, _ = rm.DeleteLink(val(k)+".*", "r"+itoa(k))
	}
	v := sym.StrIn("v", "a.", 0, pick(1, 2))
	l := ks[sym.Choose("l", 2)]
	sym.Cover("end")
	// any name is matched by its own pattern only
	sym.Assert(hasLink(rm, val(k)+"."+v, "r"+itoa(k)) == !gone, "one of many patterns is wrong")
	sym.Assert(hasLink(rm, val(k)+"."+v, "r"+itoa(l)) == (!gone && k == l), "a pattern matches too much")
	sym.Assert(hasLink(rm, "n"+itoa(k), "q"+v) && !hasLink(rm, "n"+itoa(k), "p"+v), "one of many links to a pattern is wrong")
}

// C09_many: many domain patterns and many domains.
func C09_many() {
	rm := rbac.NewDomainManager(10)
	rm.SetDomainMatcher(star{})
	n := many() / 8
	for i := 0; i < n; i++ {
		_, _ = rm.AddLink("u", "r"+itoa(i), val(i)+".*")
		_, _ = rm.AddLink("r"+itoa(i), "s", val(i)+".d")
	}
	ks := []int{0, 1, 49, 50, 99, 100, 127, n - 1}
	k := ks[sym.Choose("k", 8)]
	if sym.Bool("queried") {
		for i := 0; i < n; i++ {
			hasLink(rm, "u", "s", val(i)+".d")
		}
	}
	gone := sym.Bool("removed")
	if gone {
		_, _ = rm.DeleteLink("u", "r"+itoa(k), val(k)+".*")
	}
	v := sym.StrIn("v", "de", 0, 2)
	sym.Cover("end")
	sym.Assert(hasLink(rm, "u", "s", val(k)+"."+v) == (!gone && v == "d"), "one of many domain patterns is wrong")
	sym.Assert(hasLink(rm, "u", "r"+itoa(k), val(k)+"."+v) == !gone, "one of many domain patterns is wrong")
	sym.Assert(!hasLink(rm, "u", "r"+itoa(k), "w."+v), "a domain pattern matches too much")
}

// C14_many: a model with many rules is saved and loaded.
func C14_many() {
	vfs.Reset()
	m := newModel(defsMany()...)
	en := newEnforcer(m)
	n := many() / 2
	for i := 0; i < n; i++ {
		mustAdd(en, []string{"p", "a", val(i), "allow"}, []string{"g", val(i), "a"})
	}
	odd := sym.StrIn("v", "a,\"\n", 1, 2)
	mustAdd(en, []string{"p", odd, odd, "deny"})
	sym.Assert(adapter.NewFileAdapter("/p.csv").SavePolicy(m) == nil, "saving fails")
	m2 := newModel(defsMany()...)
	sym.Assert(adapter.NewFileAdapter("/p.csv").LoadPolicy(m2) == nil, "loading fails")
	count := map[string]int{}
	total := 0
	oddSeen := 0
	m2.RangeRules(func(r []string) bool {
		total++
		if r[0] == "p" && r[3] == "deny" {
			sym.Assert(r[1] == odd && r[2] == odd, "a rule is altered among many")
			oddSeen++
		} else {
			count[r[0]+r[1]+r[2]]++
		}
		return true
	})
	sym.Cover("end")
	sym.Assert(total == 2*n+1 && oddSeen == 1, "of many rules some are lost or repeated")
	for i := 0; i < n; i++ {
		sym.Assert(count["pa"+val(i)] == 1 && count["g"+val(i)+"a"] == 1, "of many rules some are lost or repeated")
	}
}

// C17_many: one bad line in a file of many.
func C17_many() {
	vfs.Reset()
	n := many()
	k := spot("line")
	bad := []string{"q, a, b", "p, \"a", "p, a\"b, c, d", "g, a", ""}[sym.Choose("bad", 5)]
	text := []byte{}
	for i := 0; i < n; i++ {
		if i == k {
			text = append(text, bad+"\n"...)
		}
		text = append(text, "p, a, "+val(i)+", allow\n"...)
	}
	vfs.Put("/p.csv", string(text))
	m := newModel(defsMany()...)
	_, err := fastac.NewEnforcer(m, "/p.csv")
	sym.Cover("end")
	sym.Assert((err != nil) == (bad != ""), "a bad line among many is not reported")
	total := 0
	m.RangeRules(func(r []string) bool { total++; return true })
	sym.Assert(err != nil || total == n, "of many rules some are not loaded")
}

// C19_many: paths of many segments.
func C19_many() {
	n := many() / 8
	k := []int{0, 1, 31, 63, 64, 99, 100, 127, n - 1}[sym.Choose("k", 9)]
	kind := sym.Choose("segment", 3)
	v, w := sym.StrIn("v", "ab", 1, 1), sym.StrIn("w", "ab", 1, 1)
	path, pattern := "", ""
	for i := 0; i < n; i++ {
		if i == k {
			path += "/" + v
			pattern += "/" + []string{w, ":x", "*"}[kind]
			continue
		}
		path += "/s"
		pattern += "/s"
	}
	cut := sym.Bool("longer")
	if cut {
		path += "/s"
	}
	got := util.PathMatch(path, pattern)
	sym.Cover("end")
	// a star takes two segments as well
	want := kind == 2 || (kind == 1 || v == w) && !cut
	sym.Assert(got == want, "a long path is matched wrongly")
}

// C22_many: definitions with many fields.
func C22_many() {
	n := many() / 8
	args := "f0"
	for i := 1; i < n; i++ {
		args += ", f" + itoa(i)
	}
	k := []int{0, 1, 9, 10, 63, 64, 99, 100, 127, n - 1}[sym.Choose("k", 10)]
	l := []int{0, 10, 100, n - 1}[sym.Choose("l", 4)]
	en := newEnforcer(newModel(def{'r', "r", args}, def{'p', "p", args}, def{'e', "e", someAllow}, def{'m', "m", "r.f" + itoa(k) + " == p.f" + itoa(l)}))
	rule, req := []string{"p"}, []interface{}{}
	for i := 0; i < n; i++ {
		rule = append(rule, val(i))
		req = append(req, "q"+itoa(i))
	}
	v, w := sym.StrIn("v", "ab", 1, 1), sym.StrIn("w", "ab", 1, 1)
	rule[1+l], req[k] = v, w
	mustAdd(en, rule)
	sym.Cover("end")
	sym.Assert(mustEnforce(en, req...) == (v == w), "one of many fields means another value")
	_, err := en.Enforce(req[:k]...)
	sym.Assert(err != nil, "a missing field is not reported")
}

// C23_many: a matcher with many alternatives or many conditions.
func C23_many() {
	n := many() / 16
	k := []int{0, 1, 9, 31, 32, 63, 64, n - 1}[sym.Choose("k", 8)]
	text := ""
	and := sym.Bool("and")
	for i := 0; i < n; i++ {
		if i > 0 {
			text += map[bool]string{false: " || ", true: " && "}[and]
		}
		switch {
		case i == k:
			text += "r.x == p.a"
		case and:
			text += "r.x != 'v" + itoa(i) + "'"
		default:
			text += "p.b == 'v" + itoa(i) + "'"
		}
	}
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", text}))
	l := []int{0, 1, 32, 64}[sym.Choose("l", 4)]
	v, x := sym.StrIn("v", "ab", 1, 1), sym.StrIn("x", "ab", 1, 1)
	mustAdd(en, []string{"p", v, val(l)})
	sym.Cover("end")
	sym.Assert(mustEnforce(en, x) == (v == x || !and && l != k), "a condition of many is lost")
	if and {
		sym.Assert(!mustEnforce(en, val(l)), "a condition of many is lost")
	}
}

// C32_many: many functions, and one with many arguments.
func C32_many() {
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", "r.x == p.a"})
	n := many() / 8
	for i := 0; i < n; i++ {
		i := i
		m.SetFunction("fn"+itoa(i), func(args ...interface{}) (interface{}, error) {
			return len(args) == 2 && args[0] == val(i) && args[1] == "a", nil
		})
	}
	count := sym.Choose("arguments", 4)
	many := []int{3, 10, 64, 130}[count]
	m.SetFunction("all", func(args ...interface{}) (interface{}, error) {
		ok := len(args) == many
		for i := range args {
			ok = ok && args[i] == val(i)
		}
		return ok, nil
	})
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "a"})
	k := []int{0, 9, 10, 99, 100, n - 1}[sym.Choose("k", 6)]
	gone := sym.Bool("removed")
	if gone {
		m.RemoveFunction("fn" + itoa((k+1)%n))
	}
	x := sym.StrIn("x", "ab", 1, 1)
	text := "all('v0'"
	for i := 1; i < many; i++ {
		text += ", 'v" + itoa(i) + "'"
	}
	sym.Cover("end")
	sym.Assert(mustEnforce(en, fastac.SetMatcher("fn"+itoa(k)+"('"+val(k)+"', r.x)"), x) == (x == "a"), "one of many functions is not called")
	sym.Assert(mustEnforce(en, fastac.SetMatcher(text+")"), x), "a function does not get many arguments")
	_, err := en.Enforce(fastac.SetMatcher("fn"+itoa((k+1)%n)+"('x', r.x)"), x)
	sym.Assert((err != nil) == gone, "a function which was removed is called, or another was removed")
}

// C32_manyEval: the text of one of many rules is evaluated, whatever the other rules were evaluated to.
func C32_manyEval() {
	form := []string{"eval(p.a)", "p.b != 'z' && eval(p.a)", "p.b == 'z' || eval(p.a)", "p.b != 'z' && eval('eval(p.a)')"}[sym.Choose("form", 4)]
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", form})
	en := newEnforcer(m)
	n := pick(240, 600)
	for i := 0; i < n; i++ {
		mustAdd(en, []string{"p", "r.x == '" + val(i) + "'", val(i)})
	}
	x := []string{val(0), val(99), val(100), val(n - 1), "no"}[sym.Choose("x", 5)]
	y := sym.StrIn("y", "ab", 1, 1)
	if sym.Bool("removed") {
		mustRemove(en, []string{"p", "r.x == '" + val(99) + "'", val(99)})
		mustAdd(en, []string{"p", "r.x == '" + y + "'", "y"})
		sym.Assert(mustEnforce(en, "a") == (y == "a"), "the text of a rule added to many is not evaluated")
		x = y
		sym.Cover("end")
		sym.Assert(mustEnforce(en, x), "the text of a rule added to many is not evaluated for its value")
		return
	}
	sym.Cover("end")
	sym.Assert(mustEnforce(en, x) == (x != "no"), "the text of one of many rules is not evaluated")
	rules, err := en.Filter(x)
	sym.Assert(err == nil, "the text of many rules cannot be evaluated")
	sym.Assert((len(rules) == 1) == (x != "no"), "another number of rules matches by their text")
	for _, r := range rules {
		sym.Assert(r[2] == x, "another rule matches by its text")
	}
}

// C34_many: changes from within an iteration over many rules.
func C34_many() {
	m := newModel(defsMany()...)
	n := many() / 4
	for i := 0; i < n; i++ {
		_, _ = m.AddRule([]string{"p", "a", val(i), ""})
	}
	at := []int{0, 1, 63, 100, 256, n - 1}[sym.Choose("at", 6)]
	v := sym.StrIn("v", "ab", 1, 1)
	op := sym.Choose("op", 3)
	count := map[string]int{}
	i := 0
	m.RangeRules(func(r []string) bool {
		count[r[2]]++
		if i == at || op == 2 {
			switch op {
			case 0, 2:
				removed, err := m.RemoveRule(r)
				sym.Assert(removed && err == nil, "a visited rule cannot be removed")
			case 1:
				added, err := m.AddRule([]string{"p", v, "new", ""})
				sym.Assert(added && err == nil, "a rule cannot be added")
			}
		}
		i++
		return true
	})
	sym.Cover("end")
	for i := 0; i < n; i++ {
		sym.Assert(count[val(i)] == 1, "an iteration with changes misses or repeats one of many rules")
	}
	left := 0
	m.RangeRules(func(r []string) bool { left++; return true })
	sym.Assert(left == []int{n - 1, n + 1, 0}[op], "changes within an iteration over many rules are lost")
}

// C35_many: a text with many definitions, and the text written from it.
func C35_many() {
	n := many() / 16
	secs := []string{"request_definition", "policy_definition", "policy_effect", "role_definition", "matchers"}
	vals := []string{"x, y", "a, b, eft", someAllow, "_, _", ""}
	text := ""
	for i, s := range secs {
		text += "[" + s + "]\n"
		key := string("rpegm"[i])
		text += key + " = " + vals[i]
		if s == "matchers" {
			text += "r.x == p.a"
		}
		text += "\n"
		for j := 2; j <= n; j++ {
			v := vals[i]
			if s == "matchers" {
				v = "r" + itoa(j) + ".x == p" + itoa(j) + ".a"
			}
			text += key + itoa(j) + " = " + v + "\n"
		}
	}
	m := model.NewModel()
	sym.Assert(m.LoadModelFromText(text) == nil, "a text of many definitions is refused")
	if sym.Bool("written") {
		m2 := model.NewModel()
		sym.Assert(m2.LoadModelFromText(m.String()) == nil, "a text of many definitions is refused")
		m = m2
	}
	en := newEnforcer(m)
	k := []int{2, 9, 10, 32, 64, n}[sym.Choose("k", 6)]
	v, x := sym.StrIn("v", "ab", 1, 1), sym.StrIn("x", "ab", 1, 1)
	other := []int{2, 10, 65}[sym.Choose("other", 3)]
	mustAdd(en, []string{"p" + itoa(other), v, "b", ""})
	got := mustEnforce(en, fastac.SetRequestDef("r"+itoa(k)), fastac.SetEffector("e"+itoa(k)), fastac.SetMatcher("m"+itoa(k)), x, "y")
	sym.Cover("end")
	sym.Assert(got == (k == other && v == x), "one of many definitions is lost or taken for another")
}

// C03_long: long values which differ at one place.
func C03_long() {
	n := []int{40, 70, 300, 1100, 5000, 70000}[sym.Choose("length", 6)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	v, w := sym.StrIn("v", "ab", 1, 1), sym.StrIn("w", "ab", 1, 1)
	long := make([]byte, n)
	for i := range long {
		long[i] = 'a'
	}
	mk := func(x string) []string { return []string{"p", string(long[:at]) + x + string(long[at:]), "z", ""} }
	m := newModel(defsMany()...)
	a, b := mk(v), mk(w)
	if sym.Bool("split") {
		// the same letters in two values
		a, b = []string{"p", a[1], string(long), ""}, []string{"p", b[1] + "a", string(long[1:]), ""}
	}
	_, err := m.AddRule(a)
	added, err2 := m.AddRule(b)
	sym.Cover("end")
	sym.Assert(err == nil && err2 == nil && added == !eqRule(a, b), "two different long rules are taken for the same, or equal rules for different")
	removed, err := m.RemoveRule(b)
	sym.Assert(removed && err == nil && hasRule(listed(m), a) == added && !hasRule(listed(m), b), "another rule is removed")
}

// C04_rules: decisions over many rules which match, two of them with an effect.
func C04_rules() {
	en := newEnforcer(newModel(defsMany()...))
	kinds := []string{"none", "allow", "deny"}
	k, l := []int{0, 64, 256, 600, 1099}[sym.Choose("first", 5)], []int{0, 512, 1099}[sym.Choose("second", 3)]
	a, b := kinds[sym.Choose("kind", 3)], kinds[sym.Choose("kind2", 3)]
	for i := 0; i < many(); i++ {
		r := []string{"p", "a", val(i), "none"}
		if i == k {
			r[3] = a
		}
		if i == l {
			r[3] = b
		}
		mustAdd(en, r)
	}
	if k == l {
		a = b
	}
	allow, deny := a == "allow" || b == "allow", a == "deny" || b == "deny"
	sym.Cover("end")
	sym.Assert(mustEnforce(en, fastac.SetEffector("e"), "a", "z") == !deny, "the effects of many rules are merged wrongly")
	sym.Assert(mustEnforce(en, fastac.SetEffector("e2"), "a", "z") == allow, "the effects of many rules are merged wrongly")
	sym.Assert(mustEnforce(en, fastac.SetEffector("e3"), "a", "z") == (allow && !deny), "the effects of many rules are merged wrongly")
}
