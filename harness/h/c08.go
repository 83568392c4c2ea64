package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

func c08name(n string) string { return sym.StrIn(n, "ab*", 1, 2) }

// C08_query: two arbitrary links (names or patterns on both ends), the matcher set at any time, any query.
func C08_query() {
	var rm rmLike
	var set func(m util.IMatcher)
	if sym.Bool("domain manager") {
		d := rbac.NewDomainManager(10)
		rm, set = d, d.SetMatcher
	} else {
		r := rbac.NewRoleManager(10)
		rm, set = r, r.SetMatcher
	}
	when := sym.Choose("matcher set", 3)
	all := [][]string{}
	n := 2
	for i := 0; i < n; i++ {
		if when == i {
			set(star{})
		}
		l := []string{c08name("u" + itoa(i)), c08name("v" + itoa(i))}
		_, _ = rm.AddLink(l[0], l[1])
		all = append(all, l)
	}
	if when == n {
		set(star{})
	}
	a, b := sym.StrIn("a", "ab*", 1, pick(1, 2)), sym.StrIn("b", "ab*", 1, pick(1, 2))
	got := hasLink(rm, a, b)
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == reachPat(all, a, b, star{}, 8), "a query differs from reachability with patterns")
	sym.Assert(sameRules(allLinks(rm), distinct(all)), "links are lost, invented or changed by patterns")
}

// C08_history: changes and queries alternate; deleting a link withdraws exactly what it granted.
func C08_history() {
	r := rbac.NewRoleManager(10)
	r.SetMatcher(caps{})
	s := &ref{}
	a, b := sym.StrIn("a", "abc", 1, 1), sym.StrIn("b", "arA*", 1, 1)
	links(r, s, pick(3, 4), false, func(i int) []string {
		return []string{sym.StrIn("u"+itoa(i), "abA*", 1, 1), sym.StrIn("v"+itoa(i), "raA", 1, 1)}
	}, func(i int) {
		if i == 0 {
			hasLink(r, a, "r")
		}
	})
	got := hasLink(r, a, b)
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == reachPat(s.rules, a, b, caps{}, 9), "a query differs from reachability with patterns after changes")
	sym.Assert(sameRules(allLinks(r), s.rules), "links are lost, invented or changed by patterns")
}

// C08_chain: a chain of three links through patterns and names, introduced in any order.
func C08_chain() {
	r := rbac.NewRoleManager(10)
	ls := [][]string{{"a*", "b"}, {"b*", "c"}, {"bc", "d*"}, {"ab", "bc"}}
	n := len(ls)
	k := sym.Choose("start", n)
	rev := sym.Bool("reverse")
	when := sym.Choose("matcher set", n+1)
	drop := sym.Choose("dropped", n+1)
	all := [][]string{}
	for i := 0; i < n; i++ {
		if i == when {
			r.SetMatcher(star{})
		}
		j := (i + k) % n
		if rev {
			j = (k - i + n) % n
		}
		if j == drop {
			continue
		}
		_, _ = r.AddLink(ls[j][0], ls[j][1])
		all = append(all, ls[j])
	}
	if when == n {
		r.SetMatcher(star{})
	}
	a, b := sym.StrIn("a", "abc", 1, 2), sym.StrIn("b", "bcdx", 1, 2)
	got := hasLink(r, a, b)
	sym.Cover("end")
	sym.Assert(got == reachPat(all, a, b, star{}, 9), "a chain through patterns is wrong")
}

// C08_exchange: exchanging or removing the matcher leaves the links and follows the new matcher.
func C08_exchange() {
	r := rbac.NewRoleManager(10)
	none := util.NewMatcher(func(string) bool { return false }, func(a, b string) bool { return a == b })
	path := util.NewMatcher(util.IsPathPattern, util.PathMatch)
	ls := [][]string{{"/a/*", "r"}, {"a*", "r"}, {"/a/b", "q"}}
	x := sym.StrIn("x", "/ab", 1, 4)
	seq := sym.Choose("sequence", 6)
	asked := sym.Choose("asked", len(ls)+1)
	for i := 0; i <= len(ls); i++ {
		if i == 1 {
			r.SetMatcher([]util.IMatcher{star{}, none, path, path, star{}, nobody{}}[seq])
		}
		if i == asked {
			hasLink(r, x, "r")
		}
		if i < len(ls) {
			_, _ = r.AddLink(ls[i][0], ls[i][1])
		}
	}
	last := []util.IMatcher{path, star{}, none, star{}, nobody{}, star{}}[seq]
	r.SetMatcher(last)
	got := hasLink(r, x, "r")
	want := x == "r" || last.IsPattern("/a/*") && last.Match(x, "/a/*") || x == "/a/*" || x == "a*" || last.IsPattern("a*") && last.Match(x, "a*")
	sym.Cover("end")
	sym.Assert(got == want, "a query does not follow the matcher set last")
	sym.Assert(sameRules(allLinks(r), ls), "exchanging the matcher changes links")
}

// C08_withdrawn: taking the matcher away turns patterns back into plain names, giving it again brings them back.
func C08_withdrawn() {
	var rm rmLike
	var set func(m util.IMatcher)
	if sym.Bool("domain manager") {
		d := rbac.NewDomainManager(10)
		rm, set = d, d.SetMatcher
	} else {
		r := rbac.NewRoleManager(10)
		rm, set = r, r.SetMatcher
	}
	ls := [][]string{{"a*", "r"}, {"ab", "b*"}, {"bc", "s"}}
	given := false
	at := sym.Choose("withdrawn", len(ls)+1)
	again := sym.Bool("given again")
	if sym.Bool("given") {
		set(star{})
		given = true
	}
	for i, l := range ls {
		if i == at {
			hasLink(rm, "ab", "s")
			set(nil)
			given = false
		}
		_, _ = rm.AddLink(l[0], l[1])
	}
	if at == len(ls) {
		set(nil)
		given = false
	}
	if again {
		set(star{})
		given = true
	}
	a, b := sym.StrIn("a", "abc*", 1, 2), sym.StrIn("b", "rsb*", 1, 2)
	got := hasLink(rm, a, b)
	sym.Cover("end")
	if given {
		sym.Assert(got == reachPat(ls, a, b, star{}, 9), "patterns are not followed once the matcher is there again")
	} else {
		sym.Assert(got == reach(ls, a, b, 9), "a pattern is followed without a matcher")
	}
	sym.Assert(sameRules(allLinks(rm), ls), "withdrawing the matcher changes links")
}

// C08_odd: empty names, blanks and separators, with a pattern that matches them all.
func C08_odd() {
	rm := rbac.NewRoleManager(10)
	s, q := oddNames(rm, rm.SetMatcher, pick(1, 4))
	b := []string{"", "a", ","}[sym.Choose("b", 3)]
	got := hasLink(rm, q, b)
	sym.Cover("end")
	sym.Assert(got == reachPat(s.rules, q, b, caps{}, 9), "a query differs from reachability with patterns after changes")
	sym.Assert(sameRules(allLinks(rm), s.rules), "links are lost, invented or changed by patterns")
}

// C08_joined: names and patterns which are the same text when they are joined by anything, asked for one after the other.
func C08_joined() {
	sep := sym.Str("separator", 0, 2)
	var rm rmLike
	if sym.Bool("domain manager") {
		d := rbac.NewDomainManager(10)
		d.SetMatcher(star{})
		rm = d
	} else {
		r := rbac.NewRoleManager(10)
		r.SetMatcher(star{})
		rm = r
	}
	// name, pattern: the pattern a* matches a<sep>b in the second pair only
	pairs := [][]string{{"a", "b" + sep + "a*"}, {"a" + sep + "b", "a*"}, {"b", "a*" + sep + "a*"}, {"b" + sep + "a*", "a*"}}
	all := [][]string{{pairs[sym.Choose("linked", 4)][1], "r"}, {pairs[sym.Choose("linked too", 4)][1], "q"}}
	for _, l := range all {
		_, _ = rm.AddLink(l[0], l[1])
	}
	i, k := sym.Choose("first", 4), sym.Choose("second", 4)
	sym.Cover("end")
	for _, n := range []string{pairs[i][0], pairs[k][0]} {
		for _, b := range []string{"r", "q"} {
			sym.Assert(hasLink(rm, n, b) == reachPat(all, n, b, star{}, 8), "a name takes part in the links of a pattern which does not match it")
		}
	}
	for _, q := range [][]string{pairs[i], pairs[k]} {
		sym.Assert(hasLink(rm, q[0], q[1]) == reachPat(all, q[0], q[1], star{}, 8), "a query is answered for other names")
	}
}
