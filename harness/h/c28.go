package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model/policy"
)

func c28defs() []def {
	return []def{{'r', "r", "x, y"}, {'p', "p", "a, b, eft"}, {'p', "p2", "a"}, {'g', "g", "_, _"}, {'g', "g2", "_, _, _"}, {'e', "e", allowDeny},
		{'m', "m", "g(r.x, p.a) && r.y == p.b"}, {'m', "m2", "p2.a == r.x || g2(r.x, p2.a, r.y)"}, {'m', "m3", "g.user == r.x && g.role != r.y"}}
}

// scribble overwrites a slice, also beyond its end.
func scribble(r []string) {
	r = r[:cap(r)]
	for i := range r {
		r[i] = "b"
	}
}

func scribbleAll(rs [][]string) {
	for _, r := range rs {
		scribble(r)
	}
	for i := range rs {
		rs[i] = []string{"p", "b", "b", "deny"}
	}
}

// rule28 is an arbitrary rule, in a slice that may have room for more.
func rule28(n string, roomy bool) []string {
	var r []string
	v, w := sym.StrIn("v"+n, "ab", 1, 1), sym.StrIn("w"+n, "ab", 1, 1)
	switch sym.Choose("key"+n, 4) {
	case 0:
		r = []string{"p", v, w, []string{"allow", "deny"}[sym.Choose("eft"+n, 2)]}
	case 1:
		r = []string{"p2", v}
	case 2:
		r = []string{"g", v, w}
	case 3:
		r = []string{"g2", v, "c", w}
	}
	if roomy && sym.Bool("room"+n) {
		r = append(make([]string, 0, 8), r...)
	}
	return r
}

func clone(r []string) []string { return append([]string{}, r...) }

func cloneAll(rs [][]string) [][]string {
	l := [][]string{}
	for _, r := range rs {
		l = append(l, clone(r))
	}
	return l
}

// alike checks that two enforcers have the same rules and decide alike, and that further changes have the same effect.
func alike(en, other *fastac.Enforcer, b, c *backend) {
	sym.Assert(sameRules(listed(en.GetModel()), listed(other.GetModel())), "changing a slice changes the rules")
	x, y := sym.StrIn("x", "abc", 1, 1), "c"
	if sym.Thorough() {
		y = sym.StrIn("y", "abc", 1, 1)
	}
	for _, mm := range []string{"m", "m2", "m3"} {
		f, err := en.Filter(fastac.SetMatcher(mm), x, y)
		g, err2 := other.Filter(fastac.SetMatcher(mm), x, y)
		sym.Assert((err == nil) == (err2 == nil) && sameRules(f, g), "changing a slice changes a filter")
		if mm != "m3" {
			d, err := en.Enforce(fastac.SetMatcher(mm), x, y)
			e, err2 := other.Enforce(fastac.SetMatcher(mm), x, y)
			sym.Assert((err == nil) == (err2 == nil) && d == e, "changing a slice changes a decision")
		}
	}
	if b != nil {
		sym.Assert(sameLog(b.log, c.log), "changing a slice changes what is saved")
		sym.Assert(en.Flush() == nil && other.Flush() == nil, "flush fails")
		sym.Assert(sameLog(b.log, c.log), "changing a slice changes what is saved")
		sym.Assert(en.SavePolicy() == nil && other.SavePolicy() == nil, "saving fails")
		sym.Assert(sameRules(b.rules, c.rules), "changing a slice changes what is saved")
	}
	for _, r := range cloneAll(listed(other.GetModel())) {
		mustRemove(en, r)
	}
	sym.Assert(len(listed(en.GetModel())) == 0, "changing a slice leaves rules which cannot be removed")
	for _, mm := range []string{"m", "m2", "m3"} {
		f, err := en.Filter(fastac.SetMatcher(mm), x, y)
		sym.Assert(err == nil && (len(f) == 0 || len(f) == 1 && emptyRule(f[0])), "changing a slice leaves matches of removed rules")
	}
	sym.Cover("end")
}

func emptyRule(r []string) bool {
	for _, v := range r[1:] {
		if v != "" {
			return false
		}
	}
	return true
}

// pair gives two equal enforcers with their storage.
func pair(auto bool) (en, other *fastac.Enforcer, b, c *backend) {
	b, c = &backend{}, &backend{}
	kind := sym.Choose("adapter", 3)
	var err, err2 error
	en, err = fastac.NewEnforcer(newModel(c28defs()...), newAdapter(b, kind), fastac.OptionAutosave(auto))
	other, err2 = fastac.NewEnforcer(newModel(c28defs()...), newAdapter(c, kind), fastac.OptionAutosave(auto))
	sym.Assert(err == nil && err2 == nil, "no enforcer")
	for _, r := range [][]string{{"p", "a", "c", "allow"}, {"p2", "c"}, {"g", "c", "a"}} {
		mustAdd(en, clone(r))
		mustAdd(other, clone(r))
	}
	return
}

// C28_passed: slices are changed after they were passed to rule operations.
func C28_passed() {
	en, other, b, c := pair(sym.Bool("auto"))
	rs := [][]string{}
	for i := 0; i < pick(1, 2); i++ {
		rs = append(rs, rule28(itoa(i), true))
	}
	rs = append(rs, []string{"p", "a", "b", "deny"}, []string{"g", "b", "c"})
	orig := cloneAll(rs)
	switch sym.Choose("operation", 4) {
	case 0:
		for i, r := range rs {
			x, err := en.AddRule(r)
			y, err2 := other.AddRule(orig[i])
			sym.Assert(x == y && (err == nil) == (err2 == nil), "an operation changes its argument")
			scribble(r)
		}
	case 1:
		err, err2 := en.AddRules(rs), other.AddRules(orig)
		sym.Assert((err == nil) == (err2 == nil), "an operation changes its argument")
		scribbleAll(rs)
	case 2:
		// removals, of rules which were added from the same slice
		_, _ = en.AddRule(rs[0])
		_, _ = other.AddRule(clone(orig[0]))
		x, err := en.RemoveRule(rs[0])
		y, err2 := other.RemoveRule(orig[0])
		sym.Assert(x == y && (err == nil) == (err2 == nil), "an operation changes its argument")
		scribbleAll(rs)
	case 3:
		_, _ = en.AddRule(rs[0])
		_, _ = other.AddRule(clone(orig[0]))
		rs[1] = []string{"p", "a", "c", "allow"}
		orig[1] = []string{"p", "a", "c", "allow"}
		err, err2 := en.RemoveRules(rs), other.RemoveRules(orig)
		sym.Assert((err == nil) == (err2 == nil), "an operation changes its argument")
		scribbleAll(rs)
	}
	alike(en, other, b, c)
}

// C28_arguments: rule operations leave their arguments as they are.
func C28_arguments() {
	en, _, _, _ := pair(sym.Bool("auto"))
	r := rule28("r", true)
	full := r[:cap(r)]
	for i := len(r); i < len(full); i++ {
		full[i] = "rest"
	}
	want := clone(full)
	for i := 0; i < 2; i++ {
		switch sym.Choose("operation"+itoa(i), 4) {
		case 0:
			_, _ = en.AddRule(r)
		case 1:
			_, _ = en.RemoveRule(r)
		case 2:
			_ = en.AddRules([][]string{r, r})
		case 3:
			_ = en.RemoveRules([][]string{r})
		}
	}
	_, _ = en.Enforce("a", "b")
	sym.Cover("end")
	sym.Assert(eqRule(full, want), "an operation changes its argument")
}

// C28_received: slices are changed that queries, filters and listings handed out.
func C28_received() {
	en, other, b, c := pair(false)
	r := []string{[]string{"p", "g"}[sym.Choose("key", 2)], sym.StrIn("v", "ab", 1, 1), "c"}
	if r[0] == "p" {
		r = append(r, "deny")
	}
	mustAdd(en, clone(r), []string{"g2", "a", "c", "d"})
	mustAdd(other, clone(r), []string{"g2", "a", "c", "d"})
	q := sym.StrIn("q", "abc", 1, 1)
	for i := 0; i < pick(1, 2); i++ {
		n := itoa(i)
		mm := []string{"m", "m2", "m3"}[sym.Choose("matcher"+n, 3)]
		switch sym.Choose("query"+n, 8) {
		case 0:
			rs, err := en.Filter(fastac.SetMatcher(mm), q, "c")
			sym.Assert(err == nil, "a filter fails")
			scribbleAll(rs)
		case 1:
			k := 0
			err := en.RangeMatches([]interface{}{fastac.SetMatcher(mm), q, "c"}, func(r []string) bool {
				scribble(r)
				k++
				return k < 2
			})
			sym.Assert(err == nil, "iterating over matches fails")
		case 2:
			en.GetModel().RangeRules(func(r []string) bool {
				scribble(r)
				return true
			})
		case 3:
			key := []string{"p", "p2", "g", "g2"}[sym.Choose("policy"+n, 4)]
			p, ok := en.GetModel().GetPolicy(key)
			sym.Assert(ok, "a policy is missing")
			p.Range(func(r []string) bool {
				scribble(r)
				return true
			})
		case 4:
			p, _ := en.GetModel().GetPolicy([]string{"p", "g2"}[sym.Choose("policy"+n, 2)])
			rs, err := policy.GetDistinct(p, []int{1, 0})
			sym.Assert(err == nil, "distinct values fail")
			scribbleAll(rs)
		case 5:
			rm, ok := en.GetModel().GetRoleManager([]string{"g", "g2"}[sym.Choose("manager"+n, 2)])
			sym.Assert(ok, "a role manager is missing")
			for _, f := range []func(string, ...string) ([]string, error){rm.GetRoles, rm.GetUsers} {
				l, err := f(q)
				sym.Assert(err == nil, "a role query fails")
				scribble(l)
			}
			dm := rm.(interface {
				GetAllDomains() ([]string, error)
				GetDomains(string) ([]string, error)
			})
			l, err := dm.GetAllDomains()
			sym.Assert(err == nil, "a role query fails")
			scribble(l)
			l, err = dm.GetDomains(q)
			sym.Assert(err == nil, "a role query fails")
			scribble(l)
		case 6:
			rm, _ := en.GetModel().GetRoleManager([]string{"g", "g2"}[sym.Choose("manager"+n, 2)])
			rm.Range(func(_, _ string, domain ...string) bool {
				scribble(domain)
				return true
			})
		case 7:
			sym.Assert(policyOf(en, "p").Clear() == nil, "clearing fails")
			sym.Assert(policyOf(other, "p").Clear() == nil, "clearing fails")
		}
	}
	alike(en, other, b, c)
}

func policyOf(en *fastac.Enforcer, key string) policy.IPolicy {
	p, ok := en.GetModel().GetPolicy(key)
	sym.Assert(ok, "a policy is missing")
	return p
}

// reusing is an adapter with one buffer for all rules, which also changes what it gets to save.
type reusing struct{ rules [][]string }

func (a *reusing) LoadPolicy(m api.IAddRuleBool) error {
	buf := make([]string, 0, 8)
	for _, r := range a.rules {
		buf = append(buf[:0], r...)
		if _, err := m.AddRule(buf); err != nil {
			return err
		}
	}
	return nil
}

func (a *reusing) SavePolicy(m api.IRangeRules) error {
	a.rules = nil
	m.RangeRules(func(r []string) bool {
		a.rules = append(a.rules, clone(r))
		scribble(r)
		return true
	})
	return nil
}

// C28_adapter: loading from an adapter which reuses its memory, saving to one which changes what it gets.
func C28_adapter() {
	rules := [][]string{{"p", "a", "c", "allow"}, rule28("0", false), {"g2", "a", "c", "b"}, {"p", "c", "b", "deny"}}
	if sym.Thorough() {
		rules = append(rules, rule28("1", false))
	}
	a := &reusing{cloneAll(rules)}
	en, err := fastac.NewEnforcer(newModel(c28defs()...), a)
	sym.Assert(err == nil && en.LoadPolicy() == nil, "loading fails")
	other := newEnforcer(newModel(c28defs()...))
	for _, r := range rules {
		mustAdd(other, r)
	}
	if sym.Bool("save") {
		sym.Assert(en.SavePolicy() == nil, "saving fails")
		sym.Assert(sameRules(a.rules, distinct(rules)), "saving something else")
	}
	alike(en, other, nil, nil)
}

// C28_queries: values passed to decisions and role queries.
func C28_queries() {
	en, other, b, c := pair(false)
	r := rule28("r", false)
	mustAdd(en, clone(r))
	mustAdd(other, clone(r))
	q := sym.StrIn("q", "abc", 1, 1)
	params := []interface{}{fastac.SetMatcher("m2"), q, "c"}
	_, _ = en.Enforce(params...)
	_ = en.RangeMatches(params, func([]string) bool { return true })
	sym.Assert(len(params) == 3 && params[1] == q && params[2] == "c", "a query changes its argument")
	params[1] = "b"
	rm, _ := en.GetModel().GetRoleManager("g2")
	dom := append(make([]string, 0, 4), "c", "d")
	_, _ = rm.AddLink("a", "b", dom...)
	rm2, _ := other.GetModel().GetRoleManager("g2")
	_, _ = rm2.AddLink("a", "b", "c", "d")
	_, _ = rm.HasLink("a", "b", dom...)
	sym.Assert(dom[0] == "c" && dom[1] == "d", "a role query changes its argument")
	scribble(dom)
	has, err := rm.HasLink("a", "b", "c", "d")
	sym.Assert(err == nil && has, "changing a slice changes links")
	alike(en, other, b, c)
}

// C28_policy: slices are changed after they were passed to a policy itself.
func C28_policy() {
	en, other, b, c := pair(sym.Bool("auto"))
	for i := 0; i < pick(1, 2); i++ {
		r := rule28(itoa(i), true)
		s := clone(r)
		key, v, w := r[0], r[1:], s[1:]
		x, err := policyOf(en, key).AddRule(v)
		y, err2 := policyOf(other, key).AddRule(w)
		sym.Assert(x == y && (err == nil) == (err2 == nil), "an operation changes its argument")
		if sym.Bool("remove" + itoa(i)) {
			x, err = policyOf(en, key).RemoveRule(v)
			y, err2 = policyOf(other, key).RemoveRule(w)
			sym.Assert(x == y && x && err == nil && err2 == nil, "an operation changes its argument")
		}
		scribble(r)
	}
	alike(en, other, b, c)
}
