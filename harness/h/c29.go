package h

import (
	"strings"

	"fvh/sym"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

// c29manager gives a role manager of either kind.
func c29manager(level int) rmLike {
	if sym.Bool("domain manager") {
		return rbac.NewDomainManager(level)
	}
	return rbac.NewRoleManager(level)
}

func namesOf(list []string, err error) []string {
	if err != nil {
		sym.Fail("a listing fails: " + err.Error())
	}
	return list
}

// C29_names: any history of links without domains, then all listings of any name.
func C29_names() {
	rm := c29manager(10)
	s := &ref{}
	q := sym.StrIn("q", "abcd", 1, 1)
	before := sym.Bool("listed before")
	links(rm, s, pick(3, 4), true, func(i int) []string {
		return []string{sym.StrIn("u"+itoa(i), "abc", 1, 1), sym.StrIn("v"+itoa(i), "abc", 1, 1)}
	}, func(i int) {
		if before && i < 2 {
			sym.Assert(sameNames(namesOf(rm.GetUsers(q)), usersOf(s.rules, q, nil)), "the users of a role are wrong")
		}
	})
	sym.Cover("end")
	sym.Assert(sameNames(namesOf(rm.GetRoles(q)), rolesOf(s.rules, q, nil)), "the roles of a name are wrong")
	sym.Assert(sameNames(namesOf(rm.GetUsers(q)), usersOf(s.rules, q, nil)), "the users of a role are wrong")
	sym.Assert(sameRules(allLinks(rm), s.rules), "the links are not listed once each")
	sym.Assert(len(namesOf(rm.GetRoles("nobody"))) == 0 && len(namesOf(rm.GetUsers("nobody"))) == 0, "an unknown name has roles or users")
	sym.Assert(len(namesOf(rm.GetRoles(q, "d"))) == 0 || isRoleManager(rm), "a name has roles in an unknown domain")
	sym.Assert(len(namesOf(rm.GetUsers(q, "d"))) == 0 || isRoleManager(rm), "a name has users in an unknown domain")
}

func isRoleManager(rm rmLike) bool {
	_, ok := rm.(*rbac.RoleManager)
	return ok
}

// C29_patterns: names which are patterns take their matches along in listings, and leave with the last link.
func C29_patterns() {
	rm := c29manager(10)
	set := rm.(interface{ SetMatcher(m util.IMatcher) })
	at := sym.Choose("matcher set", 2)
	if at == 0 {
		set.SetMatcher(caps{})
	}
	s := &ref{}
	q := sym.StrIn("q", "abcA", 1, 1)
	before := sym.Bool("listed before")
	links(rm, s, pick(3, 4), false, func(i int) []string {
		if sym.Thorough() {
			return []string{sym.StrIn("u"+itoa(i), "abA*", 1, 1), sym.StrIn("v"+itoa(i), "raA", 1, 1)}
		}
		return []string{sym.StrIn("u"+itoa(i), "aA*", 1, 1), sym.StrIn("v"+itoa(i), "rA", 1, 1)}
	}, func(i int) {
		if i == 0 && at == 1 {
			set.SetMatcher(caps{})
		}
		if before && i < 2 {
			namesOf(rm.GetRoles(q))
			namesOf(rm.GetUsers("r"))
		}
	})
	sym.Cover("end")
	if sym.Bool("users") {
		u := sym.StrIn("q2", "abrA", 1, 1)
		sym.Assert(sameNames(namesOf(rm.GetUsers(u)), usersOf(s.rules, u, caps{})), "the users of a role are wrong")
	} else {
		sym.Assert(sameNames(namesOf(rm.GetRoles(q)), rolesOf(s.rules, q, caps{})), "the roles of a name are wrong")
	}
	sym.Assert(sameRules(allLinks(rm), s.rules), "the links are not listed once each")
}

// domainsOf lists the domains with links in which a name has roles or users.
func domainsOf(links [][]string, name string, pm, dm patterns) []string {
	res := []string{}
	for _, l := range links {
		own := inDomain(links, l[2:], dm)
		if d := strings.Join(l[2:], "/"); !hasName(res, d) && (len(rolesOf(own, name, pm)) > 0 || len(usersOf(own, name, pm)) > 0) {
			res = append(res, d)
		}
	}
	return res
}

func allDomains(links [][]string) []string {
	res := []string{}
	for _, l := range links {
		if d := strings.Join(l[2:], "/"); !hasName(res, d) {
			res = append(res, d)
		}
	}
	return res
}

// C29_domains: any history of links in domains, then all listings in any domain.
func C29_domains() {
	rm := rbac.NewDomainManager(10)
	s := &ref{}
	q := sym.StrIn("q", "abc", 1, 1)
	before := sym.Bool("listed before")
	links(rm, s, pick(3, 4), true, func(i int) []string {
		return []string{sym.StrIn("u"+itoa(i), "ab", 1, 1), "c", sym.StrIn("d"+itoa(i), "de", 0, 1)}
	}, func(i int) {
		if before && i == 1 {
			namesOf(rm.GetDomains(q))
			namesOf(rm.GetRoles(q, "d"))
		}
	})
	c29domains(rm, s, q, nil, nil)
	d := sym.StrIn("d", "dex", 0, 1)
	own := inDomain(s.rules, []string{d}, nil)
	sym.Assert(sameNames(namesOf(rm.GetRoles(q, d)), rolesOf(own, q, nil)), "the roles in a domain are wrong")
	sym.Assert(sameNames(namesOf(rm.GetUsers(q, d)), usersOf(own, q, nil)), "the users in a domain are wrong")
	sym.Cover("end")
}

func c29domains(rm rmLike, s *ref, q string, pm, dm patterns) {
	sym.Assert(sameNames(namesOf(rm.GetDomains(q)), domainsOf(s.rules, q, pm, dm)), "the domains of a name are wrong")
	sym.Assert(sameNames(namesOf(rm.GetAllDomains()), allDomains(s.rules)), "the list of all domains is wrong")
	sym.Assert(sameRules(allLinks(rm), s.rules), "the links are not listed once each")
}

// C29_paths: links without domain, in domains and in sub-domains side by side.
func C29_paths() {
	rm := rbac.NewDomainManager(10)
	s := &ref{}
	links(rm, s, pick(2, 3), true, func(i int) []string {
		return append([]string{"a", sym.StrIn("v"+itoa(i), "bc", 1, 1)}, domPath("d"+itoa(i), 2, "de", 1, 1)...)
	}, nil)
	q := sym.StrIn("q", "abc", 1, 1)
	c29domains(rm, s, q, nil, nil)
	d := domPath("q", 2, "dex", 1, 1)
	own := inDomain(s.rules, d, nil)
	sym.Assert(sameNames(namesOf(rm.GetRoles(q, d...)), rolesOf(own, q, nil)), "the roles in a sub-domain are wrong")
	sym.Assert(sameNames(namesOf(rm.GetUsers(q, d...)), usersOf(own, q, nil)), "the users in a sub-domain are wrong")
	sym.Cover("end")
}

// C29_domain_patterns: listings in domains which are patterns or matched by patterns.
func C29_domain_patterns() {
	rm := rbac.NewDomainManager(10)
	rm.SetDomainMatcher(caps{})
	if sym.Bool("role patterns") {
		rm.SetMatcher(caps{})
		_, _ = rm.AddLink("A", "r", "b")
		c29pattern(rm, &ref{[][]string{{"A", "r", "b"}}}, caps{})
		return
	}
	c29pattern(rm, &ref{}, nil)
}

func c29pattern(rm *rbac.DomainManager, s *ref, pm patterns) {
	q := sym.StrIn("q", "ar", 1, 1)
	before := sym.Bool("listed before")
	links(rm, s, pick(2, 3), true, func(i int) []string {
		return []string{"a", sym.StrIn("v"+itoa(i), "rs", 1, 1), sym.StrIn("d"+itoa(i), "acA*", 1, 1)}
	}, func(i int) {
		if before && i == 0 {
			namesOf(rm.GetDomains(q))
			namesOf(rm.GetRoles(q, "a"))
		}
	})
	c29domains(rm, s, q, pm, caps{})
	d := sym.StrIn("d", "abc", 1, 1)
	own := inDomain(s.rules, []string{d}, caps{})
	sym.Assert(sameNames(namesOf(rm.GetRoles(q, d)), rolesOf(own, q, pm)), "the roles in a domain are wrong")
	sym.Assert(sameNames(namesOf(rm.GetUsers(q, d)), usersOf(own, q, pm)), "the users in a domain are wrong")
	sym.Cover("end")
}

// stopAt collects what an iteration hands out until it is told to stop.
func stopAt(n int, got *[][]string) func(r []string) bool {
	return func(r []string) bool {
		sym.Assert(len(*got) < n, "an iteration goes on after it was told to stop")
		*got = append(*got, append([]string{}, r...))
		return len(*got) < n
	}
}

func listedUpTo(n int, got, want [][]string) {
	k := n
	if len(want) < n {
		k = len(want)
	}
	sym.Assert(len(got) == k, "an iteration ends early or goes on too long")
	for i, r := range got {
		sym.Assert(hasRule(want, r) && !hasRule(got[:i], r), "an iteration repeats or invents something")
	}
}

// C29_stop: iterations over links stop exactly when asked to.
func C29_stop() {
	var rm rmLike
	s := &ref{}
	if sym.Bool("domain manager") {
		rm = rbac.NewDomainManager(10)
		for i := 0; i < pick(3, 4); i++ {
			l := append([]string{sym.StrIn("u"+itoa(i), "ab", 1, 1), "c"}, domPath("d"+itoa(i), 2, "de", 1, 1)...)
			s.add(l)
			_, _ = rm.AddLink(l[0], l[1], l[2:]...)
		}
	} else {
		rm = rbac.NewRoleManager(10)
		for i := 0; i < pick(3, 4); i++ {
			l := []string{sym.StrIn("u"+itoa(i), "ab", 1, 1), sym.StrIn("v"+itoa(i), "cd", 1, 1)}
			s.add(l)
			_, _ = rm.AddLink(l[0], l[1])
		}
	}
	n := 1 + sym.Choose("stop", 3)
	got := [][]string{}
	f := stopAt(n, &got)
	rm.Range(func(a, b string, d ...string) bool { return f(append([]string{a, b}, d...)) })
	sym.Cover("end")
	listedUpTo(n, got, s.rules)
}

// C29_rules: listings of rules after any history, over all policies and over one, stopped anywhere.
func C29_rules() {
	m := newModel(c28defs()...)
	en := newEnforcer(m)
	s := &ref{}
	for i := 0; i < pick(2, 3); i++ {
		r := rule28(itoa(i), false)
		if sym.Bool("twice" + itoa(i)) {
			r2 := clone(r)
			r2[1] = "z"
			mustAdd(en, r2)
			s.add(r2)
		}
		added, err := en.AddRule(r)
		sym.Assert(err == nil && added == s.add(r), "AddRule reports the wrong result")
	}
	if sym.Bool("remove") {
		r := rule28("gone", false)
		removed, err := en.RemoveRule(r)
		sym.Assert(err == nil && removed == s.remove(r), "RemoveRule reports the wrong result")
	}
	n := []int{100, 1, 2}[sym.Choose("stop", 3)]
	got := [][]string{}
	if sym.Bool("one policy") {
		key := []string{"p", "p2", "g", "g2"}[sym.Choose("policy", 4)]
		policyOf(en, key).Range(stopAt(n, &got))
		listedUpTo(n, got, s.of(key))
	} else {
		m.RangeRules(stopAt(n, &got))
		listedUpTo(n, got, s.rules)
	}
	sym.Cover("end")
}

// C29_distinct: distinct values of columns, and the policies and role managers that exist.
func C29_distinct() {
	m := newModel(c28defs()...)
	en := newEnforcer(m)
	s := &ref{}
	for i := 0; i < pick(2, 3); i++ {
		r := []string{"p", sym.StrIn("a"+itoa(i), "xy", 1, 1), sym.StrIn("b"+itoa(i), "xy", 0, 1), "allow"}
		_, err := en.AddRule(r)
		sym.Assert(err == nil, "AddRule fails")
		s.add(r)
	}
	cols := [][]int{{0}, {1}, {0, 1}, {1, 0}, {2}, {1, 1}, {}}[sym.Choose("columns", 7)]
	got, err := policyOf(en, "p").(interface {
		GetDistinct(columns []int) ([][]string, error)
	}).GetDistinct(cols)
	sym.Assert(err == nil, "listing distinct values fails")
	want := &ref{}
	for _, r := range s.of("p") {
		v := []string{}
		for _, c := range cols {
			v = append(v, r[c])
		}
		want.add(v)
	}
	sym.Cover("end")
	sym.Assert(sameRules(got, want.rules), "the distinct values are wrong")
}

// oddNames is a history of links whose names are empty, blank or made of separators, with a matcher for which only "*" is a pattern.
func oddNames(rm rmLike, set func(m util.IMatcher), kinds int) (*ref, string) {
	words := []string{"", "a", "*", []string{"1,a", " ", ",", "/"}[sym.Choose("word", kinds)]}
	set(caps{})
	s := &ref{}
	links(rm, s, 3, false, func(i int) []string {
		return []string{words[sym.Choose("u"+itoa(i), 4)], words[[]int{0, 1, 3}[sym.Choose("v"+itoa(i), 3)]]}
	}, nil)
	return s, words[sym.Choose("q", 4)]
}

// C29_odd: listings of empty names, blanks and separators, with a pattern that matches them all.
func C29_odd() {
	rm := c29manager(10)
	s, q := oddNames(rm, rm.(interface{ SetMatcher(m util.IMatcher) }).SetMatcher, pick(2, 4))
	sym.Cover("end")
	sym.Assert(sameNames(namesOf(rm.GetUsers(q)), usersOf(s.rules, q, caps{})), "the users of a role are wrong")
	sym.Assert(sameNames(namesOf(rm.GetRoles(q)), rolesOf(s.rules, q, caps{})), "the roles of a name are wrong")
	sym.Assert(sameRules(allLinks(rm), s.rules), "the links are not listed once each")
}
