package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/rbac"
)

func matching(e expr, rules [][]string, req []string) [][]string {
	res := [][]string{}
	for _, r := range rules {
		if e.eval(r[1:], req) {
			res = append(res, r)
		}
	}
	return res
}

// C11_policy: every matcher shape over arbitrary rules.
func C11_policy() {
	a, b := prEq("a", 0, "x", 0), prEq("b", 1, "y", 1)
	k := pEq("a", 0, "k")
	ms := []expr{a, not(a), and(a, b), or(a, b), or(or(a, b), k), and(or(a, k), or(b, k)), or(and(a, b), and(k, b)),
		or(and(a, b), not(k)), and(not(and(a, b)), or(k, b)), or(a, or(a, a)), and(a, or(b, and(k, b))), rEq("x", 0, "k"), or(rEq("x", 0, "k"), b)}
	e := ms[sym.Choose("matcher", len(ms))]
	adhoc := sym.Bool("given as text")
	text := e.text
	if adhoc {
		text = "p.b == \"nothing\""
	}
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'p', "p2", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", text}))
	s := &ref{}
	mustAdd(en, []string{"p2", "k", "k"})
	n := pick(2, 3)
	for i := 0; i < n; i++ {
		r := []string{"p", sym.Str("a"+itoa(i), 1, 1), sym.Str("b"+itoa(i), 1, 1)}
		s.add(r)
		mustAdd(en, r)
	}
	req := strs("r", 2, 1, 1)
	params := anys(req)
	if adhoc {
		params = append([]interface{}{fastac.SetMatcher(e.text)}, params...)
	}
	got := mustFilter(en, params...)
	sym.Observe("n", len(got))
	sym.Cover("end")
	sym.Assert(sameRules(got, matching(e, s.rules, req)), "the filter does not return exactly the matching rules: "+e.text)
}

// C11_stop: iteration ends when the callback asks for it.
func C11_stop() {
	e := []string{"p.a == r.x", "p.a == r.x && p.b == r.y", "p.a == r.x || p.b == r.y", "(p.a == r.x || p.a == \"b\") && p.b != \"z\"", "true"}[sym.Choose("matcher", 5)]
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'p', "p2", "a"}, def{'g', "g", "_, _"}, def{'g', "g2", "_, _, _"}, def{'e', "e", someAllow}, def{'m', "m", e}))
	for i := 0; i < 3; i++ {
		mustAdd(en, []string{"p", sym.StrIn("a"+itoa(i), "ab", 1, 1), sym.StrIn("b"+itoa(i), "ab", 1, 1)})
	}
	mustAdd(en, []string{"p2", "a"}, []string{"p2", "b"}, []string{"g", "a", "b"}, []string{"g", "b", "c"}, []string{"g", "a", "c"},
		[]string{"g2", "a", "b", "d"}, []string{"g2", "a", "b", "e"}, []string{"g2", "b", "c", "d"})
	limit := 1 + sym.Choose("limit", 3)
	what := sym.Choose("iteration", 6)
	x, y := sym.StrIn("x", "ab", 1, 1), sym.StrIn("y", "ab", 1, 1)
	all, n := 0, 0
	stop := func([]string) bool { n++; return n < limit }
	count := func([]string) bool { all++; return true }
	switch what {
	case 0:
		sym.Assert(en.RangeMatches([]interface{}{x, y}, count) == nil, "filtering fails")
		sym.Assert(en.RangeMatches([]interface{}{x, y}, stop) == nil, "filtering fails")
	case 1:
		en.GetModel().RangeRules(count)
		en.GetModel().RangeRules(stop)
	case 2:
		p, _ := en.GetModel().GetPolicy("p")
		p.Range(count)
		p.Range(stop)
	case 3, 4:
		g, _ := en.GetModel().GetPolicy([]string{"g", "g2"}[what-3])
		g.Range(count)
		g.Range(stop)
	case 5:
		sym.Assert(en.RangeMatches([]interface{}{fastac.SetMatcher("g2.user == r.x || g2.domain == \"d\""), x, y}, count) == nil, "filtering fails")
		sym.Assert(en.RangeMatches([]interface{}{fastac.SetMatcher("g2.user == r.x || g2.domain == \"d\""), x, y}, stop) == nil, "filtering fails")
	}
	want := all
	if want > limit {
		want = limit
	}
	sym.Cover("end")
	sym.Assert(n == want, "iteration does not end when the callback asks for it")
}

// C11_roles: filtering grouping rules.
func C11_roles() {
	u, ro, d := prEq("user", 0, "x", 0), pEq("role", 1, "b"), prEq("domain", 2, "y", 1)
	ms := []expr{u, and(u, d), or(u, d), and(or(u, ro), d), not(d), or(and(u, ro), d)}
	e := ms[sym.Choose("matcher", len(ms))]
	key := []string{"g", "g2"}[sym.Choose("key", 2)]
	text := replaceAll(e.text, "p.", key+".")
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "user, role, domain"}, def{'g', "g", "_, _, _"}, def{'g', "g2", "_, _, _"}, def{'e', "e", someAllow}, def{'m', "m", text}))
	if sym.Bool("patterns") {
		for _, k := range []string{"g", "g2"} {
			rm, _ := en.GetModel().GetRoleManager(k)
			rm.(*rbac.DomainManager).SetMatcher(star{})
			rm.(*rbac.DomainManager).SetDomainMatcher(star{})
		}
	}
	mustAdd(en, []string{"p", "a", "b", "d"})
	s := &ref{}
	n := 2
	for i := 0; i < n; i++ {
		r := []string{[]string{"g", "g2"}[sym.Choose("k"+itoa(i), 2)], sym.StrIn("u"+itoa(i), "ab*", 1, 1), sym.StrIn("v"+itoa(i), "bc", 1, 1), sym.StrIn("d"+itoa(i), "d*", 1, 1)}
		s.add(r)
		mustAdd(en, r)
	}
	own := [][]string{}
	for _, r := range s.rules {
		if r[0] == key {
			own = append(own, r)
		}
	}
	sym.Assume(len(own) > 0)
	req := []string{sym.StrIn("x", "ab*", 1, 1), sym.StrIn("y", "de", 1, 1)}
	got := mustFilter(en, anys(req)...)
	sym.Cover("end")
	sym.Assert(sameRules(got, matching(e, own, req)), "the filter does not return exactly the matching role rules: "+text)
}

func replaceAll(s, old, new string) string {
	res := ""
	for i := 0; i < len(s); {
		if i+len(old) <= len(s) && s[i:i+len(old)] == old {
			res += new
			i += len(old)
			continue
		}
		res += s[i : i+1]
		i++
	}
	return res
}

// C11_lengths: rules longer or shorter than the definition come back unmodified.
func C11_lengths() {
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a, b, c"}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x"}, def{'m', "m2", "p.a == r.x || p.a == \"b\""}))
	s := &ref{}
	for i := 0; i < 2; i++ {
		r := append([]string{"p", sym.StrIn("a"+itoa(i), "ab", 1, 1)}, values("r"+itoa(i), 0, pick(3, 4), 1)...)
		s.add(r)
		mustAdd(en, r)
	}
	x := sym.StrIn("x", "ab", 1, 1)
	want := [][]string{}
	two := sym.Bool("two stages")
	for _, r := range s.rules {
		if r[1] == x || two && r[1] == "b" {
			want = append(want, r)
		}
	}
	params := []interface{}{x}
	if two {
		params = []interface{}{fastac.SetMatcher("m2"), x}
	}
	got := mustFilter(en, params...)
	sym.Cover("end")
	sym.Assert(sameRules(got, want), "the filter does not return exactly the matching rules")
}

// C11_deep: alternatives at any depth of a matcher, a rule which matches several of them is reported once.
func C11_deep() {
	a, b, c, k := prEq("a", 0, "x", 0), prEq("b", 1, "y", 1), ppEq("a", 0, "b", 1), rEq("x", 0, "a")
	e, most := or(b, c), pick(4, 6)
	if sym.Bool("any shape") {
		e, most = tree("t", []expr{b, c, k, a}, 2), pick(2, 3)
	}
	for i, n := 0, sym.Choose("before", most); i < n; i++ {
		l := expr{"p.b != \"" + itoa(i) + "\"", 3, func(p, r []string) bool { return p[1] != itoa(i) }}
		if sym.Bool("to the right" + itoa(i)) {
			e = and(e, l)
		} else {
			e = and(l, e)
		}
	}
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", e.text}))
	s := &ref{}
	for i := 0; i < 2; i++ {
		r := []string{"p", sym.StrIn("a"+itoa(i), "ab", 1, 1), sym.StrIn("b"+itoa(i), "ab", 1, 1)}
		s.add(r)
		mustAdd(en, r)
	}
	req := []string{sym.StrIn("x", "ab", 1, 1), sym.StrIn("y", "ab", 1, 1)}
	want := matching(e, s.rules, req)
	sym.Cover("end")
	sym.Assert(sameRules(mustFilter(en, anys(req)...), want), "the filter does not return exactly the matching rules: "+e.text)
}
