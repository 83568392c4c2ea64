package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac/rbac"
)

func c06manager(level int) rmLike {
	if sym.Bool("domain manager") {
		// without domains the links sit one level below
		return rbac.NewDomainManager(level + 1)
	}
	return rbac.NewRoleManager(level)
}

// C06_history: any history of link changes, queried for any two names.
func C06_history() {
	rm := c06manager(10)
	s := &ref{}
	links(rm, s, pick(4, 5), true, func(i int) []string {
		return []string{sym.StrIn("u"+itoa(i), "abc", 1, 1), sym.StrIn("v"+itoa(i), "abc", 1, 1)}
	}, nil)
	a, b := sym.StrIn("a", "abc", 1, 1), sym.StrIn("b", "abcd", 1, 1)
	got := hasLink(rm, a, b)
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == reach(s.rules, a, b, 9), "a query differs from reachability")
}

// C06_requery: answers stay right when queries and changes alternate.
func C06_requery() {
	rm := c06manager(10)
	s := &ref{}
	a, b := sym.StrIn("a", "abc", 1, 1), sym.StrIn("b", "abc", 1, 1)
	links(rm, s, pick(3, 4), true, func(i int) []string {
		return []string{sym.StrIn("u"+itoa(i), "abc", 1, 1), sym.StrIn("v"+itoa(i), "abc", 1, 1)}
	}, func(i int) {
		sym.Assert(hasLink(rm, a, b) == reach(s.rules, a, b, 9), "a query between changes differs from reachability")
	})
	sym.Cover("end")
}

// C06_graph: every graph over a few names.
func C06_graph() {
	rm := c06manager(10)
	names := []string{"a", "b", "c", "d"}
	all := [][]string{}
	n := pick(4, 5)
	for i := 0; i < n; i++ {
		u, v := sym.StrIn("u"+itoa(i), "abcd", 1, 1), sym.StrIn("v"+itoa(i), "abcd", 1, 1)
		if i < 2 {
			// paths from the first name first, the others follow by renaming
			sym.Assume(u == names[i])
		}
		_, _ = rm.AddLink(u, v)
		all = append(all, []string{u, v})
	}
	got := hasLink(rm, "a", "d")
	sym.Cover("end")
	sym.Assert(got == reach(all, "a", "d", 9), "a query differs from reachability")
}

// C06_level: the hierarchy limit cuts long chains exactly.
func C06_level() {
	level := 1 + sym.Choose("level", pick(6, 12))
	n := 1 + sym.Choose("chain", pick(6, 12))
	var rm rmLike = rbac.NewRoleManager(level)
	all := [][]string{}
	for i := 0; i < n; i++ {
		l := []string{itoa(i), itoa(i + 1)}
		all = append(all, l)
		_, _ = rm.AddLink(l[0], l[1])
	}
	// one more link anywhere: a shortcut, a cycle or a detour
	u, v := itoa(sym.Choose("u", n+1)), itoa(sym.Choose("v", n+1))
	all = append(all, []string{u, v})
	_, _ = rm.AddLink(u, v)
	got := hasLink(rm, "0", itoa(n))
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == reach(all, "0", itoa(n), level-1), "a query ignores or misses the hierarchy limit")
}

// C06_names: names are compared as a whole, whatever they contain.
func C06_names() {
	rm := c06manager(10)
	a, b, c := sym.Str("a", 0, 2), sym.Str("b", 0, 2), sym.Str("c", 0, 2)
	_, _ = rm.AddLink(a, b)
	x, y := sym.Str("x", 0, 2), c
	if sym.Bool("chain") {
		_, _ = rm.AddLink(b, c)
		got := hasLink(rm, x, y)
		sym.Cover("end")
		sym.Assert(got == reach([][]string{{a, b}, {b, c}}, x, y, 9), "a query differs from reachability")
		return
	}
	got := hasLink(rm, x, y)
	sym.Cover("end")
	sym.Assert(got == reach([][]string{{a, b}}, x, y, 9), "a query differs from reachability")
}

// C06_enforce: the role function of a matcher answers as the role manager does.
func C06_enforce() {
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", "a"}, def{'g', "g", "_, _"}, def{'g', "g2", "_, _"}, def{'e', "e", someAllow},
		def{'m', "m", "g(r.x, p.a) && g2(r.y, p.a)"})
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "c"})
	s := &ref{}
	keys := []string{"g", "g2"}
	history(en, s, "g", pick(3, 4), false, func(i int) []string {
		return []string{keys[sym.Choose("key"+itoa(i), 2)], sym.StrIn("u"+itoa(i), "abc", 1, 1), sym.StrIn("v"+itoa(i), "abc", 1, 1)}
	}, nil)
	x, y := sym.StrIn("x", "ac", 1, 1), sym.StrIn("y", "bc", 1, 1)
	got := mustEnforce(en, x, y)
	sym.Cover("end")
	sym.Assert(got == (reach(s.of("g"), x, "c", 9) && reach(s.of("g2"), y, "c", 9)), "the role functions answer wrongly")
}

// C06_joined: names which are the same text when they are joined by anything, asked for one after the other.
func C06_joined() {
	sep := sym.Str("separator", 0, 2)
	rm := c06manager(10)
	names := [][]string{{"a", "b" + sep + "c"}, {"a" + sep + "b", "c"}, {"c", "a" + sep + "b"}}
	i, k := sym.Choose("first", 3), sym.Choose("second", 3)
	all := [][]string{names[sym.Choose("linked", 3)]}
	if sym.Bool("chain") {
		// over a name in between
		l := all[0]
		all = [][]string{{l[0], "x"}, {"x", l[1]}}
	}
	for _, l := range all {
		_, _ = rm.AddLink(l[0], l[1])
	}
	sym.Cover("end")
	for _, q := range [][]string{names[i], names[k]} {
		sym.Assert(hasLink(rm, q[0], q[1]) == reach(all, q[0], q[1], 9), "a query is answered for other names")
		sym.Assert(sameNames(namesOf(rm.GetRoles(q[0])), rolesOf(all, q[0], nil)), "the roles of another name are listed")
	}
	l := all[0]
	_, _ = rm.DeleteLink(l[0], l[1])
	all = all[1:]
	for _, q := range [][]string{names[i], names[k]} {
		sym.Assert(hasLink(rm, q[0], q[1]) == reach(all, q[0], q[1], 9), "a query is answered for other names")
	}
}

// C06_function: the function of a role definition passes names of any text to the role manager as they are.
func C06_function() {
	three := sym.Bool("domain")
	args, call := "_, _", "g(r.x, p.a)"
	if three {
		args, call = "_, _, _", "g(r.x, p.a, r.d)"
	}
	m := newModel(def{'r', "r", "x, d"}, def{'p', "p", "a"}, def{'g', "g", args}, def{'e', "e", someAllow}, def{'m', "m", call})
	en := newEnforcer(m)
	a, b, c := sym.Str("a", 0, 2), sym.Str("b", 0, 2), sym.Str("c", 0, 2)
	x := sym.Str("x", 0, 2)
	d, q := "", ""
	link := []string{"g", a, b}
	want := x == c || x == a && b == c
	if three {
		d, q = sym.Str("d", 0, 1), sym.Str("q", 0, 1)
		link = append(link, d)
		want = x == c || x == a && b == c && d == q
	}
	mustAdd(en, link)
	mustAdd(en, []string{"p", c})
	got := mustEnforce(en, x, q)
	sym.Cover("end")
	sym.Assert(got == want, "the role function is asked for other names")
}
