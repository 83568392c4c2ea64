package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/rbac"
)

// visits records what a callback saw, and what was there meanwhile.
type visits struct {
	seen    [][]string
	always  [][]string // there at the start and never removed since
	ever    [][]string // there at some time
	changed bool
}

// like reports whether the rules visited are possible: everything always there once, nothing that never was.
func (v *visits) ok(match func(r []string) bool) bool {
	for _, r := range v.seen {
		if !hasRule(v.ever, r) || !match(r) {
			return false
		}
	}
	for _, r := range v.always {
		n := 0
		for _, x := range v.seen {
			if eqRule(x, r) {
				n++
			}
		}
		if match(r) && n != 1 {
			return false
		}
	}
	return true
}

func (v *visits) add(s *ref, r []string) bool {
	v.ever = append(v.ever, append([]string{}, r...))
	return s.add(r)
}

func (v *visits) remove(s *ref, r []string) bool {
	res := [][]string{}
	for _, x := range v.always {
		if !eqRule(x, r) {
			res = append(res, x)
		}
	}
	v.always = res
	return s.remove(r)
}

func (v *visits) clear(s *ref, key string) {
	res := [][]string{}
	for _, x := range v.always {
		if x[0] != key {
			res = append(res, x)
		}
	}
	v.always = res
	s.clear(key)
}

// change34 makes one change from within an iteration; visited is the rule the callback got.
func change34(en *fastac.Enforcer, s *ref, v *visits, op int, visited, other []string) {
	switch op {
	case 0:
		removed, err := en.RemoveRule(visited)
		sym.Assert(err == nil && removed == v.remove(s, visited), "a visited rule cannot be removed")
	case 1:
		removed, err := en.RemoveRule(other)
		sym.Assert(err == nil && removed == v.remove(s, other), "another rule cannot be removed")
	case 2:
		added, err := en.AddRule(other)
		sym.Assert(err == nil && added == v.add(s, other), "a rule cannot be added")
	case 3:
		sym.Assert(en.GetModel().ClearPolicy(other[0]) == nil, "a policy cannot be cleared")
		v.clear(s, other[0])
	case 4:
		// every visited rule is replaced by another one
		removed, err := en.RemoveRule(visited)
		sym.Assert(err == nil && removed == v.remove(s, visited), "a visited rule cannot be removed")
		added, err := en.AddRule(other)
		sym.Assert(err == nil && added == v.add(s, other), "a rule cannot be added")
	}
}

func start34(s *ref) *visits {
	return &visits{always: append([][]string{}, s.rules...), ever: append([][]string{}, s.rules...)}
}

// C34_matches: the callback of an iteration over matches changes rules.
func C34_matches() {
	k := sym.Choose("matcher", 4)
	text := []string{"r.x == p.a", "r.x == p.a && r.y == p.b", "r.x == p.a || r.y == p.b", "(r.x == p.a || r.y == p.a) && p.b != r.x"}[k]
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'p', "p2", "a"}, def{'e', "e", someAllow}, def{'m', "m", text}, def{'m', "m2", "r.x == p2.a"}))
	s := &ref{}
	for i := 0; i < pick(2, 3); i++ {
		r := []string{"p", sym.StrIn("a"+itoa(i), "ab", 1, 1), sym.StrIn("b"+itoa(i), "ab", 1, 1)}
		mustAdd(en, r)
		s.add(r)
	}
	mustAdd(en, []string{"p2", "a"})
	s.add([]string{"p2", "a"})
	x, y := sym.StrIn("x", "ab", 1, 1), "b"
	match := func(r []string) bool {
		if r[0] != "p" {
			return false
		}
		a, b := r[1], r[2]
		switch k {
		case 0:
			return x == a
		case 1:
			return x == a && y == b
		case 2:
			return x == a || y == b
		}
		return (x == a || y == a) && b != x
	}
	op, at := sym.Choose("change", 5), sym.Choose("visit", 3)
	other := []string{"p", sym.StrIn("oa", "ab", 1, 1), sym.StrIn("ob", "ac", 1, 1)}
	v := start34(s)
	n := 0
	sym.MapOrder(3)
	err := en.RangeMatches([]interface{}{x, y}, func(r []string) bool {
		v.seen = append(v.seen, append([]string{}, r...))
		if at == 2 || n == at {
			change34(en, s, v, op, r, other)
		}
		n++
		return n < 6
	})
	sym.MapOrder(0)
	sym.Cover("end")
	sym.Assert(err == nil, "an iteration fails because of changes")
	sym.Assert(n == 6 || v.ok(match), "a rule that was there is missed or visited twice, or one is visited that never was")
	sym.Assert(sameRules(listed(en.GetModel()), s.rules), "changes from within an iteration are lost")
	z := sym.StrIn("z", "abc", 1, 1)
	want := false
	for _, r := range s.rules {
		if r[0] == "p" {
			x, y = z, "a"
			want = want || match(r)
		}
	}
	if len(s.of("p")) > 0 {
		sym.Assert(mustEnforce(en, z, "a") == want, "a decision after changes from within an iteration is wrong")
	}
	sym.Assert(mustEnforce(en, fastac.SetMatcher("m2"), z, "a") == (z == "a"), "another policy changes")
}

// C34_rules: the callback of an iteration over all rules changes rules and links.
func C34_rules() {
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a"}, def{'p', "p2", "a"}, def{'g', "g", "_, _"}, def{'g', "g2", "_, _, _"}, def{'e', "e", someAllow}, def{'m', "m", "g(r.x, p.a) && g2(r.x, p.a, r.y)"}))
	s := &ref{}
	rule := func(n string) []string {
		a := sym.StrIn("a"+n, "ab", 1, 1)
		return [][]string{{"p", a}, {"p2", a}, {"g", a, "c"}, {"g2", a, "c", "d"}}[sym.Choose("key"+n, 4)]
	}
	for i := 0; i < pick(2, 3); i++ {
		r := rule(itoa(i))
		mustAdd(en, r)
		s.add(r)
	}
	other := rule("o")
	op, at := sym.Choose("change", 5), sym.Choose("visit", 3)
	v := start34(s)
	n := 0
	sym.MapOrder(2)
	en.GetModel().RangeRules(func(r []string) bool {
		v.seen = append(v.seen, append([]string{}, r...))
		if at == 2 || n == at {
			change34(en, s, v, op, append([]string{}, r...), other)
		}
		n++
		return n < 6
	})
	sym.MapOrder(0)
	sym.Cover("end")
	sym.Assert(n == 6 || v.ok(func([]string) bool { return true }), "a rule that was there is missed or visited twice, or one is visited that never was")
	sym.Assert(sameRules(listed(en.GetModel()), s.rules), "changes from within an iteration are lost")
	x := sym.StrIn("x", "ab", 1, 1)
	if len(s.of("p")) > 0 {
		want := false
		for _, p := range s.of("p") {
			want = want || (x == p[0] || hasRule(s.of("g"), []string{x, p[0]})) && (x == p[0] || hasRule(s.of("g2"), []string{x, p[0], "d"}))
		}
		sym.Assert(mustEnforce(en, x, "d") == want, "a decision after changes from within an iteration is wrong")
	}
}

// C34_links: the callback of an iteration over links changes links, with and without patterns and domains.
func C34_links() {
	var rm rmLike
	var pm patterns = plain{}
	domain := sym.Bool("domain manager")
	pattern := sym.Bool("patterns")
	if domain {
		d := rbac.NewDomainManager(10)
		if pattern {
			d.SetMatcher(caps{})
			d.SetDomainMatcher(caps{})
		}
		rm = d
	} else {
		r := rbac.NewRoleManager(10)
		if pattern {
			r.SetMatcher(caps{})
		}
		rm = r
	}
	if pattern {
		pm = caps{}
	}
	link := func(n string) []string {
		l := []string{sym.StrIn("u"+n, "aA", 1, 1), sym.StrIn("v"+n, "bc", 1, 1)}
		if domain && sym.Bool("in a domain"+n) {
			l = append(l, sym.StrIn("d"+n, "eA", 1, 1))
		}
		return l
	}
	s := &ref{}
	for i := 0; i < 2; i++ {
		l := link(itoa(i))
		_, _ = rm.AddLink(l[0], l[1], l[2:]...)
		s.add(l)
	}
	if sym.Bool("used before") {
		hasLink(rm, "a", "b")
	}
	other := link("o")
	op, at := sym.Choose("change", 4), sym.Choose("visit", 3)
	v := start34(s)
	n := 0
	rm.Range(func(a, b string, d ...string) bool {
		l := append([]string{a, b}, d...)
		v.seen = append(v.seen, l)
		if at == 2 || n == at {
			if op == 0 || op == 3 {
				removed, err := rm.DeleteLink(l[0], l[1], l[2:]...)
				sym.Assert(err == nil && removed == v.remove(s, l), "a visited link cannot be deleted")
			}
			if op == 1 {
				removed, err := rm.DeleteLink(other[0], other[1], other[2:]...)
				sym.Assert(err == nil && removed == v.remove(s, other), "another link cannot be deleted")
			}
			if op == 2 || op == 3 {
				added, err := rm.AddLink(other[0], other[1], other[2:]...)
				sym.Assert(err == nil && added == v.add(s, other), "a link cannot be added")
			}
		}
		n++
		return n < 6
	})
	sym.MapOrder(0)
	sym.Cover("end")
	sym.Assert(n == 6 || v.ok(func([]string) bool { return true }), "a link that was there is missed or visited twice, or one is visited that never was")
	sym.Assert(sameRules(allLinks(rm), s.rules), "changes from within an iteration are lost")
	b := sym.StrIn("b", "bc", 1, 1)
	if domain {
		q := sym.StrIn("q", "ef", 1, 1)
		sym.Assert(hasLink(rm, "a", b, q) == reachPat(inDomain(s.rules, []string{q}, pm), "a", b, pm, 6), "a query after changes from within an iteration is wrong")
	} else {
		sym.Assert(hasLink(rm, "a", b) == reachPat(s.rules, "a", b, pm, 9), "a query after changes from within an iteration is wrong")
	}
}

// C34_within: within the callback decisions, filters and listings follow the rules as they are at that moment.
func C34_within() {
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'p', "p2", "a"}, def{'g', "g", "_, _"}, def{'e', "e", someAllow},
		def{'m', "m", "g(r.x, p.a)"}, def{'m', "m2", "r.x == p2.a"})
	b := &backend{}
	en, err := fastac.NewEnforcer(m, newAdapter(b, sym.Choose("adapter", 2)), fastac.OptionStorage(true), fastac.OptionAutosave(true))
	sym.Assert(err == nil, "no enforcer")
	s := &ref{}
	for _, r := range [][]string{{"p", sym.StrIn("a0", "ab", 1, 1)}, {"p", sym.StrIn("a1", "ab", 1, 1)}, {"g", "c", sym.StrIn("v", "ab", 1, 1)}} {
		mustAdd(en, r)
		s.add(r)
	}
	x := sym.StrIn("x", "abc", 1, 1)
	key := sym.Choose("key", 3)
	other := [][]string{{"p", sym.StrIn("o", "ab", 1, 1)}, {"p2", "a"}, {"g", "c", sym.StrIn("o", "ab", 1, 1)}}[key]
	op := sym.Choose("change", 2)
	n := 0
	err = en.RangeMatches([]interface{}{x}, func(r []string) bool {
		if n == 0 {
			if op == 0 {
				mustAdd(en, other)
				s.add(other)
			} else {
				mustRemove(en, other)
				s.remove(other)
			}
		}
		n++
		if len(s.of("p")) > 0 {
			want := false
			for _, p := range s.of("p") {
				want = want || x == p[0] || hasRule(s.of("g"), []string{x, p[0]})
			}
			sym.Assert(mustEnforce(en, x) == want, "a decision within an iteration does not follow the rules")
			sym.Assert(sameRules(mustFilter(en, fastac.SetMatcher("p.a == \"a\""), x), having34(s, "a")), "a filter within an iteration does not follow the rules")
		}
		sym.Assert(sameRules(listed(m), s.rules), "a listing within an iteration does not follow the rules")
		if len(s.of("p2")) > 0 {
			sym.Assert(mustEnforce(en, fastac.SetMatcher("m2"), x) == (x == "a"), "a decision over another policy does not follow the rules")
		}
		return true
	})
	sym.MapOrder(0)
	sym.Cover("end")
	sym.Assert(err == nil, "an iteration fails because of changes")
	sym.Assert(sameRules(b.rules, s.rules), "the storage misses changes from within an iteration")
}

// having34 lists the rules of p with the given value.
func having34(s *ref, a string) [][]string {
	l := [][]string{}
	for _, r := range s.rules {
		if r[0] == "p" && r[1] == a {
			l = append(l, r)
		}
	}
	return l
}
