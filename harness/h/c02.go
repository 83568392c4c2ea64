package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
)

// c02Matchers are matchers that index rules in different ways.
func c02Matchers() []expr {
	a, b := prEq("a", 0, "x", 0), prEq("b", 1, "y", 1)
	k := pEq("a", 0, "a")
	return []expr{
		a,
		and(a, b),
		or(a, b),
		and(or(a, k), b),
		or(and(a, b), and(k, rEq("y", 1, "b"))),
		and(not(a), b),
		and(rEq("x", 0, "a"), and(a, b)),
		// may hold without any rule
		and(or(rEq("x", 0, "b"), a), or(rEq("y", 1, "b"), b)),
	}
}

// C02_policy: after any history of changes the decision is that of the current rules, with requests in between.
func C02_policy() {
	ms := c02Matchers()
	e := ms[sym.Choose("matcher", len(ms))]
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", e.text})
	en := newEnforcer(m)
	s := &ref{}
	between := sym.Bool("request in between")
	history(en, s, "p", pick(4, 5), true, func(i int) []string {
		return []string{"p", sym.StrIn("a"+itoa(i), "ab", 1, 1), sym.StrIn("b"+itoa(i), "ab", 1, 1)}
	}, func(i int) {
		if between && i == 1 {
			mustEnforce(en, "a", "b")
		}
	})
	req := []string{sym.StrIn("rx", "ab", 1, 1), sym.StrIn("ry", "ab", 1, 1)}
	got := mustEnforce(en, anys(req)...)
	rules := s.of("p")
	if len(rules) == 0 {
		rules = [][]string{{"", ""}}
	}
	sym.Observe("decision", got, len(rules))
	sym.Cover("end")
	sym.Assert(got == decide(e, someAllow, rules, req, allAllow), "the decision does not follow the current rules: "+e.text)
	if len(s.rules) > 0 {
		matching := [][]string{}
		for _, r := range s.rules {
			if e.eval(r[1:], req) {
				matching = append(matching, r)
			}
		}
		sym.Assert(sameRules(mustFilter(en, anys(req)...), matching), "the filter does not follow the current rules: "+e.text)
	}
	sym.Assert(sameRules(listed(m), s.rules), "the listed rules are not the current rules")
}

// C02_effects: rules of different lengths and effects that come and go.
func C02_effects() {
	effect := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	a := prEq("a", 0, "x", 0)
	e := a
	if sym.Bool("two stages") {
		e = and(a, prEq("b", 1, "y", 1))
	}
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b, eft"}, def{'e', "e", effect}, def{'m', "m", e.text})
	en := newEnforcer(m)
	s := &ref{}
	history(en, s, "p", pick(3, 4), false, func(i int) []string {
		r := []string{"p", "k", sym.StrIn("b"+itoa(i), "ab", 1, 1)}
		switch sym.Choose("eft"+itoa(i), 3) {
		case 1:
			r = append(r, "deny")
		case 2:
			r = append(r, "allow")
		}
		return r
	}, nil)
	sym.Assume(len(s.rules) > 0)
	req := []string{"k", sym.StrIn("ry", "ab", 1, 1)}
	got := mustEnforce(en, anys(req)...)
	sym.Observe("decision", got)
	sym.Cover("end")
	want := decide(e, effect, s.of("p"), req, func(r []string) string {
		if len(r) > 2 {
			return r[2]
		}
		return ""
	})
	sym.Assert(got == want, "the decision does not follow the current rules under "+effect)
}

// C02_roles: role links that come and go, queried through a matcher.
func C02_roles() {
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'g', "g", "_, _"}, def{'e', "e", someAllow}, def{'m', "m", "g(r.x, p.a)"})
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "c"})
	s := &ref{}
	history(en, s, "g", pick(3, 4), true, func(i int) []string {
		return []string{"g", sym.StrIn("u"+itoa(i), "abc", 1, 1), sym.StrIn("v"+itoa(i), "abc", 1, 1)}
	}, func(i int) {
		if i == 1 {
			mustEnforce(en, "a")
		}
	})
	x := sym.StrIn("rx", "abcd", 1, 1)
	got := mustEnforce(en, x)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(got == reach(s.of("g"), x, "c", 9), "the decision does not follow the current links")
	sym.Assert(sameRules(listed(m), append(s.rules, []string{"p", "c"})), "the listed rules are not the current rules")
}

// C02_fresh: instances reaching the same rules over different histories answer the same, for every kind of query.
func C02_fresh() {
	build := func() *fastac.Enforcer {
		return newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'g', "g", "_, _, _"}, def{'e', "e", someAllow},
			def{'m', "m", "g(r.x, p.a, r.y) && p.b == r.y || p.a == \"c\""}, def{'m', "m2", "g.user == r.x && g.domain == r.y"}))
	}
	a, b := build(), build()
	s := &ref{}
	mk := func(i int) []string {
		if sym.Choose("kind"+itoa(i), 2) == 0 {
			return []string{"p", sym.StrIn("a"+itoa(i), "ac", 1, 1), sym.StrIn("b"+itoa(i), "de", 1, 1)}
		}
		return []string{"g", sym.StrIn("u"+itoa(i), "ab", 1, 1), sym.StrIn("v"+itoa(i), "ab", 1, 1), sym.StrIn("d"+itoa(i), "de", 1, 1)}
	}
	history(a, s, "p", pick(3, 4), false, mk, nil)
	for i := len(s.rules) - 1; i >= 0; i-- {
		mustAdd(b, s.rules[i])
	}
	x, y := sym.StrIn("rx", "ab", 1, 1), sym.StrIn("ry", "de", 1, 1)
	sym.Cover("end")
	sym.Assert(mustEnforce(a, x, y) == mustEnforce(b, x, y), "a decision depends on the history")
	sym.Assert(sameRules(mustFilter(a, x, y), mustFilter(b, x, y)), "a filter depends on the history")
	if len(s.of("g")) > 0 {
		o := fastac.SetMatcher("m2")
		sym.Assert(sameRules(mustFilter(a, o, x, y), mustFilter(b, o, x, y)), "a filter of role links depends on the history")
	}
	ra, _ := a.GetModel().GetRoleManager("g")
	rb, _ := b.GetModel().GetRoleManager("g")
	la, _ := ra.GetRoles(x, y)
	lb, _ := rb.GetRoles(x, y)
	sym.Assert(sameNames(la, lb), "a role listing depends on the history")
	da, _ := ra.(interface{ GetAllDomains() ([]string, error) }).GetAllDomains()
	db, _ := rb.(interface{ GetAllDomains() ([]string, error) }).GetAllDomains()
	sym.Assert(sameNames(da, db), "the domains depend on the history")
}
