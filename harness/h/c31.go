package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/rbac"
)

// clear31 clears one policy or role definition in one of the possible ways.
func clear31(en *fastac.Enforcer, key string, way int) {
	var err error
	switch way {
	case 0:
		err = en.GetModel().ClearPolicy(key)
	default:
		err = policyOf(en, key).Clear()
	}
	sym.Assert(err == nil, "clearing fails")
}

// fresh31 is a new instance with the rules of the reference.
func fresh31(defs []def, s *ref) *fastac.Enforcer {
	en := newEnforcer(newModel(defs...))
	for _, r := range s.rules {
		mustAdd(en, clone(r))
	}
	return en
}

// like31 compares listings, decisions, filters and role queries with those of a fresh instance.
func like31(en *fastac.Enforcer, s *ref, defs []def, x string) {
	other := fresh31(defs, s)
	sym.Assert(sameRules(listed(en.GetModel()), s.rules), "clearing leaves rules or removes others")
	for _, key := range []string{"p", "p2", "g", "g2"} {
		got := [][]string{}
		policyOf(en, key).Range(func(r []string) bool {
			got = append(got, clone(r))
			return true
		})
		sym.Assert(sameRules(got, s.of(key)), "clearing leaves rules or removes others")
	}
	for _, mm := range []string{"m", "m2", "m3", "m4"} {
		f, err := en.Filter(fastac.SetMatcher(mm), x, "c")
		g, err2 := other.Filter(fastac.SetMatcher(mm), x, "c")
		sym.Assert((err == nil) == (err2 == nil) && sameRules(f, g), "a filter after clearing differs from a fresh instance")
		if mm != "m3" {
			d, err := en.Enforce(fastac.SetMatcher(mm), x, "c")
			e, err2 := other.Enforce(fastac.SetMatcher(mm), x, "c")
			sym.Assert((err == nil) == (err2 == nil) && d == e, "a decision after clearing differs from a fresh instance")
		}
	}
	for _, g := range []string{"g", "g2"} {
		rm, _ := en.GetModel().GetRoleManager(g)
		rm2, _ := other.GetModel().GetRoleManager(g)
		d := []string{}
		if g == "g2" {
			d = append(d, "c")
		}
		sym.Assert(hasLink(rm.(rmLike), x, "c", d...) == hasLink(rm2.(rmLike), x, "c", d...), "a role query after clearing differs from a fresh instance")
		sym.Assert(sameNames(namesOf(rm.GetRoles(x, d...)), namesOf(rm2.GetRoles(x, d...))), "the roles after clearing differ from a fresh instance")
		sym.Assert(sameNames(namesOf(rm.GetUsers("c", d...)), namesOf(rm2.GetUsers("c", d...))), "the users after clearing differ from a fresh instance")
		sym.Assert(sameNames(namesOf(rm.(rmLike).GetAllDomains()), namesOf(rm2.(rmLike).GetAllDomains())), "the domains after clearing differ from a fresh instance")
		sym.Assert(sameNames(namesOf(rm.(rmLike).GetDomains(x)), namesOf(rm2.(rmLike).GetDomains(x))), "the domains after clearing differ from a fresh instance")
	}
}

func c31defs() []def {
	return append(c28defs(), def{'m', "m4", "(p.a == r.x || p.b == r.x) && g(r.x, p.b)"})
}

// rule31 is an arbitrary rule.
func rule31(n string) []string {
	v := sym.StrIn("v"+n, "ab", 1, 1)
	switch sym.Choose("key"+n, 4) {
	case 0:
		return []string{"p", v, "c", "allow"}
	case 1:
		return []string{"p2", v}
	case 2:
		return []string{"g", v, "c"}
	}
	return []string{"g2", v, "c", "c"}
}

// C31_clear: any rules, any of the policies cleared in any way, and rules added and removed afterwards.
func C31_clear() {
	en := newEnforcer(newModel(c31defs()...))
	s := &ref{}
	for _, r := range [][]string{{"p", "a", "c", "allow"}, {"p2", "c"}, {"g", "a", "c"}, {"g2", "b", "c", "c"}} {
		mustAdd(en, clone(r))
		s.add(r)
	}
	for i := 0; i < pick(1, 2); i++ {
		r := rule31(itoa(i))
		_, _ = en.AddRule(clone(r))
		s.add(r)
	}
	x := sym.StrIn("x", "abc", 1, 1)
	warm := sym.Bool("warm")
	if warm {
		_, _ = en.Enforce(x, "c")
		_, _ = en.Enforce(fastac.SetMatcher("m2"), x, "c")
	}
	key := []string{"p", "p2", "g", "g2"}[sym.Choose("cleared", 4)]
	way := 0
	if sym.Thorough() {
		way = sym.Choose("way", 2)
	}
	clear31(en, key, way)
	gone := s.of(key)
	s.clear(key)
	for i := 0; i < pick(1, 2); i++ {
		switch sym.Choose("then"+itoa(i), 4) {
		case 0:
		case 1:
			r := rule31("t" + itoa(i))
			added, err := en.AddRule(clone(r))
			sym.Assert(err == nil && added == s.add(r), "AddRule after clearing reports the wrong result")
		case 2:
			r := rule31("t" + itoa(i))
			removed, err := en.RemoveRule(clone(r))
			sym.Assert(err == nil && removed == s.remove(r), "RemoveRule after clearing reports the wrong result")
		case 3:
			// the cleared rules come back
			for _, r := range gone {
				r = withKey(key, r)
				added, err := en.AddRule(clone(r))
				sym.Assert(err == nil && added == s.add(r), "AddRule after clearing reports the wrong result")
			}
		}
	}
	sym.Cover("end")
	like31(en, s, c31defs(), x)
}

// C31_patterns: clearing role definitions whose names or domains are patterns; the matchers stay.
func C31_patterns() {
	defs := []def{{'r', "r", "x, d"}, {'p', "p", "a"}, {'g', "g", "_, _"}, {'g', "g2", "_, _, _"}, {'e', "e", someAllow},
		{'m', "m", "g(r.x, p.a) || g2(r.x, p.a, r.d)"}}
	m := newModel(defs...)
	en := newEnforcer(m)
	rm, _ := m.GetRoleManager("g")
	rm.(*rbac.RoleManager).SetMatcher(caps{})
	dm, _ := m.GetRoleManager("g2")
	dm.(*rbac.DomainManager).SetMatcher(caps{})
	dm.(*rbac.DomainManager).SetDomainMatcher(caps{})
	mustAdd(en, []string{"p", "r"}, []string{"g", "A", "r"}, []string{"g2", "A", "r", "A"}, []string{"g2", "c", "r", "*"})
	x, d := sym.StrIn("x", "abc", 1, 1), sym.StrIn("d", "abc", 1, 1)
	if sym.Bool("warm") {
		mustEnforce(en, x, d)
	}
	g, g2 := [][]string{{"A", "r"}}, [][]string{{"A", "r", "A"}, {"c", "r", "*"}}
	switch sym.Choose("cleared", 4) {
	case 0:
		sym.Assert(m.ClearPolicy("g") == nil, "clearing fails")
		g = nil
	case 1:
		sym.Assert(m.ClearPolicy("g2") == nil, "clearing fails")
		g2 = nil
	case 2:
		sym.Assert(rm.Clear() == nil, "clearing fails")
		g = nil
	case 3:
		sym.Assert(dm.Clear() == nil, "clearing fails")
		g2 = nil
	}
	agree := func() {
		want := reachPat(g, x, "r", caps{}, 9) || reachPat(inDomain(g2, []string{d}, caps{}), x, "r", caps{}, 7)
		sym.Assert(mustEnforce(en, x, d) == want, "a decision after clearing is wrong")
	}
	agree()
	u := sym.StrIn("u", "abcA*", 1, 1)
	if sym.Bool("to g") {
		mustAdd(en, []string{"g", u, "r"})
		g = append(g, []string{u, "r"})
	} else {
		w := sym.StrIn("w", "abA", 1, 1)
		mustAdd(en, []string{"g2", u, "r", w})
		g2 = append(g2, []string{u, "r", w})
	}
	sym.Cover("end")
	agree()
}

// C31_unknown: clearing what does not exist is an error and changes nothing; so does clearing nothing twice.
func C31_unknown() {
	en := newEnforcer(newModel(c31defs()...))
	s := &ref{}
	for _, r := range [][]string{{"p", "a", "c", "allow"}, {"p2", "c"}, {"g", "a", "c"}, {"g2", "b", "c", "c"}} {
		mustAdd(en, clone(r))
		s.add(r)
	}
	key := sym.StrIn("key", "pg2rem", 0, 2)
	err := en.GetModel().ClearPolicy(key)
	known := key == "p" || key == "p2" || key == "g" || key == "g2"
	sym.Assert((err == nil) == known, "clearing reports the wrong result")
	if known {
		s.clear(key)
		sym.Assert(en.GetModel().ClearPolicy(key) == nil, "clearing twice fails")
	}
	sym.Cover("end")
	sym.Assert(sameRules(listed(en.GetModel()), s.rules), "clearing leaves rules or removes others")
}

// C31_storage: clearing sends nothing to the storage by itself; saving afterwards stores what is left, loading restores.
func C31_storage() {
	b := &backend{}
	en, err := fastac.NewEnforcer(newModel(c31defs()...), newAdapter(b, sym.Choose("adapter", 3)), fastac.OptionAutosave(true))
	sym.Assert(err == nil, "no enforcer")
	s := &ref{}
	for _, r := range [][]string{{"p", "a", "c", "allow"}, {"g", "a", "c"}, rule31("0"), {"g2", "a", "c", "c"}} {
		_, _ = en.AddRule(clone(r))
		s.add(r)
	}
	all := s.rules
	key := []string{"p", "p2", "g", "g2"}[sym.Choose("cleared", 4)]
	clear31(en, key, sym.Choose("way", 2))
	s.clear(key)
	x := sym.StrIn("x", "abc", 1, 1)
	if sym.Bool("save") {
		sym.Assert(en.SavePolicy() == nil, "saving fails")
		sym.Assert(sameRules(b.rules, s.rules), "saving after clearing stores something else")
	} else {
		sym.Assert(en.LoadPolicy() == nil, "loading fails")
		s.rules = all
	}
	sym.Cover("end")
	like31(en, s, c31defs(), x)
}

// C31_domains: links in domains of no, one or two components, cleared and partly added again.
func C31_domains() {
	rm := rbac.NewDomainManager(10)
	old := [][]string{}
	for i := 0; i < pick(2, 3); i++ {
		l := append([]string{"a", []string{"b", "c"}[sym.Choose("v"+itoa(i), 2)]}, domPath("d"+itoa(i), 2, "de", 1, 1)...)
		_, err := rm.AddLink(l[0], l[1], l[2:]...)
		sym.Assert(err == nil, "a link cannot be added")
		old = append(old, l)
	}
	q := domPath("q", 2, "def", 1, 1)
	if sym.Bool("warm") {
		_ = hasLink(rm, "a", "b", q...)
	}
	sym.Assert(rm.Clear() == nil, "clearing fails")
	s := &ref{}
	other := rbac.NewDomainManager(10)
	again := func(l []string) {
		added, err := rm.AddLink(l[0], l[1], l[2:]...)
		sym.Assert(err == nil && added == s.add(l), "AddLink after clearing reports the wrong result")
		_, _ = other.AddLink(l[0], l[1], l[2:]...)
	}
	switch sym.Choose("then", 4) {
	case 1:
		again(old[sym.Choose("again", len(old))])
	case 2:
		again(append([]string{"b", "c"}, domPath("n", 2, "de", 1, 1)...))
	case 3:
		l := old[sym.Choose("again", len(old))]
		removed, _ := rm.DeleteLink(l[0], l[1], l[2:]...)
		sym.Assert(!removed, "a cleared link is still there")
	}
	sym.Cover("end")
	sameLinks31(rm, other, s, q)
}

// sameLinks31 compares a cleared role manager with a fresh one.
func sameLinks31(rm, other rmLike, s *ref, q []string) {
	sym.Assert(sameRules(allLinks(rm), s.rules), "clearing leaves links or removes others")
	for _, b := range []string{"b", "c"} {
		sym.Assert(hasLink(rm, "a", b, q...) == hasLink(other, "a", b, q...), "a role query after clearing differs from a fresh instance")
		sym.Assert(sameNames(namesOf(rm.GetUsers(b, q...)), namesOf(other.GetUsers(b, q...))), "the users after clearing differ from a fresh instance")
	}
	sym.Assert(sameNames(namesOf(rm.GetRoles("a", q...)), namesOf(other.GetRoles("a", q...))), "the roles after clearing differ from a fresh instance")
	sym.Assert(sameNames(namesOf(rm.GetAllDomains()), namesOf(other.GetAllDomains())), "the domains after clearing differ from a fresh instance")
	sym.Assert(sameNames(namesOf(rm.GetDomains("a")), namesOf(other.GetDomains("a"))), "the domains after clearing differ from a fresh instance")
}

// C31_deep: role definitions with two domain arguments, cleared through the model or the policy.
func C31_deep() {
	defs := []def{{'r', "r", "x, d, e"}, {'p', "p", "a"}, {'g', "g", "_, _, _, _"}, {'e', "e", someAllow}, {'m', "m", "g(r.x, p.a, r.d, r.e)"}}
	en, s := newEnforcer(newModel(defs...)), &ref{}
	add := func(r []string) {
		added, err := en.AddRule(clone(r))
		sym.Assert(err == nil && added == s.add(r), "AddRule reports the wrong result")
	}
	add([]string{"p", "b"})
	for i := 0; i < 2; i++ {
		add([]string{"g", "a", []string{"b", "c"}[sym.Choose("v"+itoa(i), 2)], sym.StrIn("d"+itoa(i), "de", 1, 1), sym.StrIn("e"+itoa(i), "de", 1, 1)})
	}
	d, e := sym.StrIn("d", "de", 1, 1), sym.StrIn("e", "de", 1, 1)
	if sym.Bool("warm") {
		mustEnforce(en, "a", d, e)
	}
	clear31(en, "g", sym.Choose("way", 2))
	gone := s.of("g")
	s.clear("g")
	if sym.Bool("again") {
		add(withKey("g", gone[sym.Choose("which", len(gone))]))
	}
	sym.Cover("end")
	other := fresh31(defs, s)
	sym.Assert(mustEnforce(en, "a", d, e) == mustEnforce(other, "a", d, e), "a decision after clearing differs from a fresh instance")
	rm, _ := en.GetModel().GetRoleManager("g")
	rm2, _ := other.GetModel().GetRoleManager("g")
	links := &ref{}
	for _, l := range s.of("g") {
		links.add(l)
	}
	sameLinks31(rm.(rmLike), rm2.(rmLike), links, []string{d, e})
}

// C31_odd: rules with empty, blank and unusual values, whichever of them remain when the policy is cleared.
func C31_odd() {
	values := []string{"", " ", "#", "a,b", "p", "*", "\x00", "é"}
	value := func(n string) string {
		if sym.Bool("odd" + n) {
			return values[sym.Choose("value"+n, pick(4, len(values)))]
		}
		return sym.Str("byte"+n, 0, 1)
	}
	defs := []def{{'r', "r", "x, y"}, {'p', "p", "a, b"}, {'p', "p2", "a, b"}, {'g', "g", "_, _"}, {'g', "g2", "_, _, _"}, {'e', "e", someAllow},
		{'m', "m", "p.a == r.x && p.b == r.y"}, {'m', "m2", "p2.a == r.x && p2.b == r.y || p2.a == r.x && g(r.x, r.y)"}, {'m', "m3", "g2.user == r.x && g2.role == r.y"}}
	en := newEnforcer(newModel(defs...))
	v, w := value("v"), value("w")
	rules := [][]string{}
	key := []string{"p", "p2", "g", "g2"}[sym.Choose("key", 4)]
	rules = append(rules, []string{key, v, w})
	if key == "g2" && sym.Bool("domain") {
		rules[0] = append(rules[0], v)
	}
	if sym.Bool("second") {
		rules = append(rules, []string{key, w, v})
	}
	mustAdd(en, cloneAll(rules)...)
	mustAdd(en, []string{"p", "x", "x"}, []string{"p2", "x", "x"}, []string{"g", "x", "y"}, []string{"g2", "x", "y"})
	rest := [][]string{}
	for _, r := range [][]string{{"p", "x", "x"}, {"p2", "x", "x"}, {"g", "x", "y"}, {"g2", "x", "y"}} {
		if r[0] != key {
			rest = append(rest, r)
		} else {
			_, err := en.RemoveRule(r)
			sym.Assert(err == nil, "RemoveRule fails")
		}
	}
	clear31(en, key, 0)
	sym.Cover("end")
	sym.Assert(sameRules(listed(en.GetModel()), rest), "clearing leaves rules or removes others")
	m := map[string]string{"p": "m", "p2": "m2", "g2": "m3"}[key]
	if m != "" {
		got, err := en.Filter(fastac.SetMatcher(m), v, w)
		sym.Assert(err == nil && len(distinctNonEmpty(got)) == 0, "a cleared rule still matches")
	}
	if key == "p" || key == "p2" {
		sym.Assert(!mustEnforce(en, fastac.SetMatcher(m), v, w) || v == "" && w == "", "a cleared rule still allows")
	}
	if key[0] == 'g' && v != w && v+w != "xy" {
		rm, _ := en.GetModel().GetRoleManager(key)
		sym.Assert(!hasLink(rm.(rmLike), v, w), "a cleared link still holds")
	}
	added, err := en.AddRule(clone(rules[0]))
	sym.Assert(err == nil && added, "a cleared rule cannot be added again")
}

// distinctNonEmpty drops the rule without values which a filter of an empty policy may report.
func distinctNonEmpty(rules [][]string) [][]string {
	out := [][]string{}
	for _, r := range rules {
		empty := true
		for _, v := range r[1:] {
			empty = empty && v == ""
		}
		if !empty {
			out = append(out, r)
		}
	}
	return out
}

// C31_limit: the limit of chains is the same after clearing, however many links, domains and clears there were.
func C31_limit() {
	domains := sym.Bool("domains")
	var rm, other rmLike = rbac.NewRoleManager(6), rbac.NewRoleManager(6)
	if domains {
		rm, other = rbac.NewDomainManager(6), rbac.NewDomainManager(6)
	}
	for i, n := 0, sym.Choose("clears", pick(3, 5)); i < n; i++ {
		for k, links := 0, sym.Choose("links", 4); k < links; k++ {
			l := []string{"u" + itoa(k), "u" + itoa(k+1)}
			if domains {
				l = append(l, "d"+itoa(k))
			}
			_, _ = rm.AddLink(l[0], l[1], l[2:]...)
		}
		sym.Assert(rm.Clear() == nil, "clearing fails")
	}
	d := []string{}
	if domains {
		d = []string{"d", "e"}[:sym.Choose("depth", 3)]
	}
	n := 1 + sym.Choose("chain", 7)
	for i := 0; i < n; i++ {
		_, _ = rm.AddLink("c"+itoa(i), "c"+itoa(i+1), d...)
		_, _ = other.AddLink("c"+itoa(i), "c"+itoa(i+1), d...)
	}
	sym.Cover("end")
	sym.Assert(hasLink(rm, "c0", "c"+itoa(n), d...) == hasLink(other, "c0", "c"+itoa(n), d...), "the limit of chains differs after clearing")
	sym.Assert(hasLink(rm, "c0", "c1", d...), "a link is missing after clearing")
}
