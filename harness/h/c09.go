package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

// C09_query: links under domain names and patterns, the matcher set at any time, domains used before or after.
func C09_query() {
	rm := rbac.NewDomainManager(10)
	when := sym.Choose("matcher set", 3)
	warm := sym.Choose("used before", 3)
	q := sym.StrIn("q", "de*", 1, pick(1, 2))
	s := &ref{}
	for i := 0; i < 2; i++ {
		if when == i {
			rm.SetDomainMatcher(star{})
		}
		if warm == i {
			hasLink(rm, "a", "b", q)
		}
		l := []string{"a", []string{"b", "c"}[sym.Choose("v"+itoa(i), 2)], sym.StrIn("d"+itoa(i), "de*", 1, 2)}
		added, err := rm.AddLink(l[0], l[1], l[2:]...)
		sym.Assert(err == nil && added == s.add(l), "AddLink reports the wrong result")
	}
	if when == 2 {
		rm.SetDomainMatcher(star{})
	}
	b := []string{"b", "c"}[sym.Choose("b", 2)]
	got := hasLink(rm, "a", b, q)
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == reach(inDomain(s.rules, []string{q}, star{}), "a", b, 6), "a link does not hold in exactly the matching domains")
	sym.Assert(sameRules(allLinks(rm), s.rules), "links are lost, invented or changed by domain patterns")
}

// C09_history: changes and queries alternate, the same link granted explicitly and by patterns.
func C09_history() {
	rm := rbac.NewDomainManager(10)
	rm.SetDomainMatcher(caps{})
	s := &ref{}
	q := sym.StrIn("q", "abc", 1, 1)
	between := sym.Bool("query in between")
	links(rm, s, pick(3, 4), true, func(i int) []string {
		return []string{"a", sym.StrIn("v"+itoa(i), "bc", 1, 1), sym.StrIn("d"+itoa(i), "abA*", 1, 1)}
	}, func(i int) {
		if between && i < 2 {
			hasLink(rm, "a", "b", q)
		}
	})
	b := sym.StrIn("b", "bc", 1, 1)
	own := inDomain(s.rules, []string{q}, caps{})
	sym.Cover("end")
	sym.Assert(hasLink(rm, "a", b, q) == reach(own, "a", b, 6), "a link does not hold in exactly the matching domains after changes")
	roles, err := rm.GetRoles("a", q)
	sym.Assert(err == nil && sameNames(roles, rolesOf(own, "a", nil)), "the roles in a domain are wrong")
	sym.Assert(sameRules(allLinks(rm), s.rules), "explicit links are lost or links are invented")
}

// C09_paths: sub-domains match component by component.
func C09_paths() {
	rm := rbac.NewDomainManager(10)
	first := sym.Bool("matcher first")
	if first {
		rm.SetDomainMatcher(star{})
	}
	s := &ref{}
	for i := 0; i < 2; i++ {
		l := append([]string{"a", "b"}, domPath("d"+itoa(i), 2, "d*", 1, pick(1, 2))...)
		if i == 1 {
			l[0], l[1] = "b", "c"
		}
		s.add(l)
		_, _ = rm.AddLink(l[0], l[1], l[2:]...)
	}
	if !first {
		rm.SetDomainMatcher(star{})
	}
	q := domPath("q", 2, "de", 1, 1)
	own := inDomain(s.rules, q, star{})
	sym.Cover("end")
	sym.Assert(hasLink(rm, "a", "b", q...) == reach(own, "a", "b", 6), "a link does not hold in exactly the matching sub-domains")
	sym.Assert(hasLink(rm, "a", "c", q...) == reach(own, "a", "c", 6), "a chain does not hold in exactly the matching sub-domains")
}

// C09_both: role patterns and domain patterns together, the matchers set at any time.
func C09_both() {
	rm := rbac.NewDomainManager(10)
	roleAt, domAt := sym.Choose("matcher set", 3), sym.Choose("domain matcher set", 3)
	s := &ref{}
	set := func(i int) {
		if roleAt == i {
			rm.SetMatcher(caps{})
		}
		if domAt == i {
			rm.SetDomainMatcher(caps{})
		}
	}
	set(0)
	for i := 0; i < 2; i++ {
		l := []string{sym.StrIn("u"+itoa(i), "abA", 1, 1), sym.StrIn("v"+itoa(i), "rbA", 1, 1), sym.StrIn("d"+itoa(i), "aA*", 1, 1)}
		s.add(l)
		_, _ = rm.AddLink(l[0], l[1], l[2])
		set(i + 1)
	}
	a, b, q := sym.StrIn("a", "abc", 1, 1), sym.StrIn("b", "rb", 1, 1), sym.StrIn("q", "abc", 1, 1)
	own := inDomain(s.rules, []string{q}, caps{})
	got := hasLink(rm, a, b, q)
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == reachPat(own, a, b, caps{}, 6), "role and domain patterns together are wrong")
}

// C09_enforce: domain patterns in a decision.
func C09_enforce() {
	m := newModel(def{'r', "r", "x, d"}, def{'p', "p", "a"}, def{'g', "g", "_, _, _"}, def{'e', "e", someAllow}, def{'m', "m", "g(r.x, p.a, r.d)"})
	en := newEnforcer(m)
	rm, _ := m.GetRoleManager("g")
	mustAdd(en, []string{"p", "b"})
	before := sym.Bool("domain used before")
	d := sym.StrIn("d", "/ab", 1, 4)
	if before {
		mustEnforce(en, "a", d)
	}
	rm.(*rbac.DomainManager).SetDomainMatcher(util.NewMatcher(util.IsPathPattern, util.PathMatch))
	mustAdd(en, []string{"g", "a", "b", "/a/*"})
	removed := sym.Bool("removed")
	if removed {
		mustAdd(en, []string{"g", "a", "b", "/a/b"})
		mustRemove(en, []string{"g", "a", "b", "/a/*"})
	}
	got := mustEnforce(en, "a", d)
	sym.Cover("end")
	if removed {
		sym.Assert(got == (d == "/a/b"), "a removed domain pattern still grants")
	} else {
		sym.Assert(got == (d == "/a/*" || util.PathMatch(d, "/a/*")), "a domain pattern does not grant in every matching domain")
	}
}

// plain takes no name for a pattern.
type plain struct{}

func (plain) IsPattern(string) bool  { return false }
func (plain) Match(a, b string) bool { return a == b }

// C09_withdrawn: taking the domain matcher away turns domain patterns back into plain names, giving it again brings them back.
func C09_withdrawn() {
	rm := rbac.NewDomainManager(10)
	at, when := sym.Choose("withdrawn", 3), sym.Choose("given", 3)
	again, warm := sym.Bool("given again"), sym.Bool("used before")
	q := sym.StrIn("q", "de*", 1, 2)
	s := &ref{}
	given := false
	set := func(i int) {
		if i == when {
			rm.SetDomainMatcher(star{})
			given = true
		}
		if i == at {
			rm.SetDomainMatcher(nil)
			given = false
		}
	}
	for i, l := range [][]string{{"a", "b", "d*"}, {"b", "c", "de"}} {
		set(i)
		if warm {
			hasLink(rm, "a", "c", q)
		}
		s.add(l)
		_, _ = rm.AddLink(l[0], l[1], l[2:]...)
	}
	set(2)
	if again {
		if warm {
			hasLink(rm, "a", "c", q)
		}
		rm.SetDomainMatcher(star{})
		given = true
	}
	b := []string{"b", "c"}[sym.Choose("b", 2)]
	got := hasLink(rm, "a", b, q)
	sym.Cover("end")
	var pm patterns = plain{}
	if given {
		pm = star{}
	}
	sym.Assert(got == reach(inDomain(s.rules, []string{q}, pm), "a", b, 6), "a domain pattern is followed without a matcher, or not with one")
	sym.Assert(sameRules(allLinks(rm), s.rules), "withdrawing the domain matcher changes links")
}

// C09_joined: domains and patterns which are the same text when they are joined by anything, asked for one after the other.
func C09_joined() {
	sep := sym.Str("separator", 0, 2)
	rm := rbac.NewDomainManager(10)
	rm.SetDomainMatcher(star{})
	doms := [][]string{{"a" + sep + "b"}, {"a", "b"}, {"a"}, {"b" + sep + "a*"}, {"b"}}
	pats := [][]string{{"a*"}, {"b" + sep + "a*"}, {"a*" + sep + "a*"}, {"a*", "b"}, {"a", "*"}}
	all := [][]string{}
	add := func(a, b string, d []string) {
		_, _ = rm.AddLink(a, b, d...)
		all = append(all, append([]string{a, b}, d...))
	}
	add("u", "r", pats[sym.Choose("linked", 5)])
	add("u", "q", pats[sym.Choose("linked too", 5)])
	i, k := sym.Choose("first", 5), sym.Choose("second", 5)
	sym.Cover("end")
	for _, d := range [][]string{doms[i], doms[k]} {
		for _, b := range []string{"r", "q"} {
			sym.Assert(hasLink(rm, "u", b, d...) == reach(inDomain(all, d, star{}), "u", b, 6), "a pattern applies a link to another domain or misses one")
		}
	}
	d := doms[k]
	add("r", "t", d)
	sym.Assert(hasLink(rm, "u", "t", d...) == reach(inDomain(all, d, star{}), "u", "t", 6), "a pattern applies a link to another domain or misses one")
}
