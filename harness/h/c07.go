package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac/rbac"
)

// domPath is an arbitrary domain path.
func domPath(name string, max int, alphabet string, lo, hi int) []string {
	res := []string{}
	n := sym.Choose(name+".n", max+1)
	for k := 0; k < n; k++ {
		res = append(res, sym.StrIn(name+"."+itoa(k), alphabet, lo, hi))
	}
	return res
}

// C07_history: any history of changes in any domain paths; every query sees its own domain only.
func C07_history() {
	rm := rbac.NewDomainManager(10)
	s := &ref{}
	links(rm, s, pick(3, 3), true, func(i int) []string {
		return append([]string{"a", []string{"b", "c"}[sym.Choose("v"+itoa(i), 2)]}, domPath("d"+itoa(i), 2, "de", 1, 1)...)
	}, nil)
	q := domPath("q", 2, "def", 1, 1)
	b := []string{"b", "c"}[sym.Choose("b", 2)]
	got := hasLink(rm, "a", b, q...)
	sym.Observe("has", got)
	sym.Cover("end")
	own := inDomain(s.rules, q, nil)
	sym.Assert(got == reach(own, "a", b, 6), "a query sees links of another domain or misses its own")
	roles, err := rm.GetRoles("a", q...)
	sym.Assert(err == nil && sameNames(roles, rolesOf(own, "a", nil)), "the roles of another domain are listed")
	users, err := rm.GetUsers(b, q...)
	sym.Assert(err == nil && sameNames(users, usersOf(own, b, nil)), "the users of another domain are listed")
}

// C07_chain: chains never continue through another domain.
func C07_chain() {
	rm := rbac.NewDomainManager(10)
	s := &ref{}
	names := []string{"a", "b", "c", "d"}
	n := pick(2, 3)
	for i := 0; i < n; i++ {
		l := append([]string{names[i], names[i+1]}, domPath("d"+itoa(i), 2, "de", 1, 1)...)
		s.add(l)
		_, _ = rm.AddLink(l[0], l[1], l[2:]...)
	}
	q := domPath("q", 2, "de", 1, 1)
	got := hasLink(rm, "a", names[n], q...)
	sym.Cover("end")
	sym.Assert(got == reach(inDomain(s.rules, q, nil), "a", names[n], 6), "a chain continues through another domain")
}

// C07_names: domains are compared component by component, whatever their names contain.
func C07_names() {
	rm := rbac.NewDomainManager(10)
	mk := func(n string) []string {
		k := 1 + sym.Choose(n+".n", 2)
		d := []string{}
		for i := 0; i < k; i++ {
			d = append(d, sym.StrIn(n+itoa(i), "a/,1R", 0, 2))
		}
		return d
	}
	d, q := mk("d"), mk("q")
	_, _ = rm.AddLink("a", "b", d...)
	got := hasLink(rm, "a", "b", q...)
	sym.Cover("end")
	sym.Assert(got == eqRule(d, q), "two domains are taken for one another")
	removed, err := rm.DeleteLink("a", "b", q...)
	sym.Assert(err == nil && removed == eqRule(d, q), "deleting in one domain deletes in another")
	sym.Assert(hasLink(rm, "a", "b", d...) == !eqRule(d, q), "deleting in one domain deletes in another")
}

// C07_enforce: domains in a matcher.
func C07_enforce() {
	m := newModel(def{'r', "r", "x, d"}, def{'p', "p", "a, d"}, def{'g', "g", "_, _, _"}, def{'e', "e", someAllow},
		def{'m', "m", "g(r.x, p.a, r.d) && p.d == r.d"})
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "b", "d"}, []string{"p", "b", "e"}, []string{"p", "c", "d"})
	s := &ref{}
	history(en, s, "g", pick(3, 4), true, func(i int) []string {
		return []string{"g", sym.StrIn("u"+itoa(i), "ab", 1, 1), sym.StrIn("v"+itoa(i), "bc", 1, 1), sym.StrIn("d"+itoa(i), "de", 1, 1)}
	}, nil)
	x, d := "a", sym.StrIn("d", "def", 1, 1)
	got := mustEnforce(en, x, d)
	own := inDomain(s.of("g"), []string{d}, nil)
	want := d == "d" && (reach(own, x, "b", 6) || reach(own, x, "c", 6)) || d == "e" && reach(own, x, "b", 6)
	sym.Cover("end")
	sym.Assert(got == want, "a decision sees links of another domain")
}

// C07_function: the function of a role definition, called with any domains, the empty one and none included.
func C07_function() {
	exprs := []string{"g(r.x, p.a)", "g(r.x, p.a, r.d)", "g(r.x, p.a, r.d, r.s)"}
	k := sym.Choose("function", 3)
	m := newModel(def{'r', "r", "x, d, s"}, def{'p', "p", "a"}, def{'g', "g", []string{"_, _, _", "_, _, _, _"}[sym.Choose("definition", 2)]}, def{'e', "e", someAllow}, def{'m', "m", exprs[k]})
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "c"})
	s := &ref{}
	for i, l := range [][]string{{"g", "a", "b"}, {"g", "b", "c"}} {
		r := append(l, domPath("d"+itoa(i), 2, "de", 0, 1)...)
		if i == 0 && sym.Bool("one link") {
			r[2] = "c"
			mustAdd(en, r)
			s.add(r)
			break
		}
		mustAdd(en, r)
		s.add(r)
	}
	q := []string{sym.StrIn("q0", "de", 0, 1), sym.StrIn("q1", "de", 0, 1)}
	own := inDomain(s.of("g"), q[:k], nil)
	got := mustEnforce(en, "a", q[0], q[1])
	rm, _ := m.GetRoleManager("g")
	sym.Cover("end")
	sym.Assert(got == reach(own, "a", "c", 6), "a decision sees links of another domain")
	sym.Assert(linkedIn(rm, "a", "c", q[:k]...) == got, "a query sees links of another domain")
	roles, err := rm.GetRoles("a", q[:k]...)
	sym.Assert(err == nil && sameNames(roles, rolesOf(own, "a", nil)), "the roles of another domain are listed")
}

// linkedIn asks any role manager.
func linkedIn(rm rbac.IRoleManager, a, b string, domains ...string) bool {
	has, err := rm.HasLink(a, b, domains...)
	sym.Assert(err == nil, "a query fails")
	return has
}

// C07_joined: domain paths which are the same text when they are joined by anything, asked for one after the other.
func C07_joined() {
	sep := sym.Str("separator", 0, 2)
	paths := [][]string{{"d", "e" + sep + "f"}, {"d" + sep + "e", "f"}, {"d" + sep + "e" + sep + "f"}, {"d", "e", "f"}}
	rm := rbac.NewDomainManager(10)
	var pm patterns
	if sym.Bool("patterns") {
		rm.SetDomainMatcher(star{})
		pm = star{}
	}
	all := [][]string{}
	add := func(a, b string, d []string) {
		_, _ = rm.AddLink(a, b, d...)
		all = append(all, append([]string{a, b}, d...))
	}
	i, j, k := sym.Choose("linked", 4), sym.Choose("first", 4), sym.Choose("second", 4)
	add("a", "b", paths[i])
	if sym.Bool("pattern") {
		// the same domain takes part in a pattern domain
		d := clone(paths[i])
		d[0] = "d*"
		add("b", "c", d)
	}
	b := []string{"b", "c"}[sym.Choose("b", 2)]
	sym.Cover("end")
	for n, q := range [][]string{paths[j], paths[k], paths[j]} {
		own := inDomain(all, q, pm)
		sym.Assert(hasLink(rm, "a", b, q...) == reach(own, "a", b, 6), "a query sees links of another domain or misses its own")
		sym.Assert(sameNames(namesOf(rm.GetRoles("a", q...)), rolesOf(own, "a", nil)), "the roles of another domain are listed")
		if n == 1 {
			add("a", "c", paths[k])
		}
	}
}
