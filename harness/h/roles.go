package h

import "fvh/sym"

// sameNames reports whether got lists exactly the distinct names of want, once each.
func sameNames(got, want []string) bool {
	for i, g := range got {
		if !hasName(want, g) || hasName(got[:i], g) {
			return false
		}
	}
	for _, w := range want {
		if !hasName(got, w) {
			return false
		}
	}
	return true
}

func hasName(names []string, name string) bool {
	for _, n := range names {
		if n == name {
			return true
		}
	}
	return false
}

// reach is reachability over links {user, role} in at most max steps.
func reach(links [][]string, from, to string, max int) bool {
	cur := []string{from}
	for i := 0; ; i++ {
		if hasName(cur, to) {
			return true
		}
		if i == max {
			return false
		}
		next := append([]string{}, cur...)
		for _, l := range links {
			if hasName(cur, l[0]) && !hasName(next, l[1]) {
				next = append(next, l[1])
			}
		}
		if len(next) == len(cur) {
			return false
		}
		cur = next
	}
}

// star treats names ending in a star as patterns for everything with that prefix.
type star struct{}

func (star) IsPattern(s string) bool { return len(s) > 0 && s[len(s)-1] == '*' }

func (star) Match(s, pattern string) bool {
	p := pattern[:len(pattern)-1]
	return len(s) >= len(p) && s[:len(p)] == p
}

// caps knows two patterns of one byte: A stands for a and b, and * for every name.
type caps struct{}

func (caps) IsPattern(s string) bool { return s == "A" || s == "*" }

func (caps) Match(s, pattern string) bool {
	return pattern == "*" || pattern == "A" && (s == "a" || s == "b")
}

// patterns is what a harness uses as role or domain matcher (nil: none).
type patterns interface {
	IsPattern(s string) bool
	Match(s, pattern string) bool
}

// below reports whether name takes part in the links of u.
func below(name, u string, pm patterns) bool {
	return name == u || pm != nil && pm.IsPattern(u) && pm.Match(name, u)
}

// reachPat is reachability over links {user, role} where names take part in the links of matching patterns.
func reachPat(links [][]string, from, to string, pm patterns, max int) bool {
	names := []string{to}
	for _, l := range links {
		names = append(names, l[0], l[1])
	}
	cur := []string{from}
	for i := 0; ; i++ {
		for _, c := range cur {
			if below(c, to, pm) {
				return true
			}
		}
		if i == max {
			return false
		}
		next := append([]string{}, cur...)
		for _, c := range cur {
			for _, l := range links {
				if !below(c, l[0], pm) {
					continue
				}
				for _, y := range names {
					if below(y, l[1], pm) && !hasName(next, y) {
						next = append(next, y)
					}
				}
			}
		}
		if len(next) == len(cur) {
			return false
		}
		cur = next
	}
}

// rolesOf lists the direct roles of a name, usersOf the direct users.
func rolesOf(links [][]string, name string, pm patterns) []string {
	res := []string{}
	for _, l := range links {
		if !below(name, l[0], pm) {
			continue
		}
		for _, y := range linkNames(links) {
			if below(y, l[1], pm) && !hasName(res, y) {
				res = append(res, y)
			}
		}
	}
	return res
}

func usersOf(links [][]string, name string, pm patterns) []string {
	res := []string{}
	for _, l := range links {
		if !below(name, l[1], pm) {
			continue
		}
		for _, y := range linkNames(links) {
			if below(y, l[0], pm) && !hasName(res, y) {
				res = append(res, y)
			}
		}
	}
	return res
}

func linkNames(links [][]string) []string {
	res := []string{}
	for _, l := range links {
		res = append(res, l[0], l[1])
	}
	return res
}

// inDomain keeps the links {user, role, domain...} which hold in a domain.
func inDomain(links [][]string, doms []string, pm patterns) [][]string {
	res := [][]string{}
	for _, l := range links {
		d := l[2:]
		if len(d) != len(doms) {
			continue
		}
		ok := true
		for i := range d {
			ok = ok && below(doms[i], d[i], pm)
		}
		if ok {
			res = append(res, l[:2])
		}
	}
	return res
}

// rmLike is the common interface of the role managers.
type rmLike interface {
	AddLink(a, b string, d ...string) (bool, error)
	DeleteLink(a, b string, d ...string) (bool, error)
	HasLink(a, b string, d ...string) (bool, error)
	GetRoles(a string, d ...string) ([]string, error)
	GetUsers(a string, d ...string) ([]string, error)
	GetDomains(a string) ([]string, error)
	GetAllDomains() ([]string, error)
	Range(fn func(a, b string, d ...string) bool)
	Clear() error
}

func allLinks(rm rmLike) [][]string {
	res := [][]string{}
	rm.Range(func(a, b string, d ...string) bool {
		res = append(res, append([]string{a, b}, d...))
		return true
	})
	return res
}

// links runs an arbitrary history of link changes; after runs behind every step.
func links(rm rmLike, s *ref, n int, clear bool, mk func(i int) []string, after func(i int)) {
	ops := 2
	if clear {
		ops = 3
	}
	for i := 0; i < n; i++ {
		op := 0
		if i > 0 {
			op = sym.Choose("op"+itoa(i), ops)
		}
		switch op {
		case 0:
			l := mk(i)
			added, err := rm.AddLink(l[0], l[1], l[2:]...)
			sym.Assert(err == nil, "adding a link fails")
			sym.Assert(added == s.add(l), "AddLink reports the wrong result")
		case 1:
			l := mk(i)
			removed, err := rm.DeleteLink(l[0], l[1], l[2:]...)
			sym.Assert(err == nil, "deleting a link fails")
			sym.Assert(removed == s.remove(l), "DeleteLink reports the wrong result")
		case 2:
			sym.Assert(rm.Clear() == nil, "clearing fails")
			s.rules = nil
		}
		if after != nil {
			after(i)
		}
	}
}

func hasLink(rm rmLike, a, b string, d ...string) bool {
	ok, err := rm.HasLink(a, b, d...)
	if err != nil {
		sym.Fail("a role query fails: " + err.Error())
	}
	return ok
}
