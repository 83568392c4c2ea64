package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
)

// state27 is what the definitions and rules should be.
type state27 struct {
	defs  map[string]string
	rules ref
	stale bool // matchers have to be rebuilt
}

// variants of every definition; "" is no definition.
func variants27(key string) []string {
	switch key {
	case "r":
		return []string{"x, y", "y, x", ""}
	case "p":
		return []string{"a, b", "b, a, eft", "eft, b, a", ""}
	case "p2":
		return []string{"a", "b, a", ""}
	case "g", "g2":
		return []string{"_, _", "_, _, _", ""}
	case "e":
		return []string{someAllow, noDeny, allowDeny, ""}
	case "m":
		return []string{"p.a == r.x && p.b == r.y", "g(r.x, p.a)", "p.b == r.x || p2.a == r.x", "r.x == p2.a", ""}
	}
	return []string{"g2(r.y, p2.a) && p2.a != r.x", "p2.a == r.x && r.y != \"c\"", "g.user == r.x", ""}
}

var keys27 = [...]string{"r", "p", "p2", "g", "g2", "e", "m", "m2"}

// keyed lists the rules under a key.
func (s *state27) keyed(key string) [][]string {
	l := [][]string{}
	for _, r := range s.rules.rules {
		if r[0] == key {
			l = append(l, r)
		}
	}
	return l
}

// set27 gives a definition another text or removes it.
func set27(m *model.Model, s *state27, key, text string) {
	s.stale = true
	before := s.keyed(key)
	if text == "" {
		sym.Assert(m.RemoveDef(key[0], key) == nil, "a definition cannot be removed")
	} else {
		sym.Assert(m.SetDef(key[0], key, text) == nil, "a definition cannot be set")
	}
	s.defs[key] = text
	if len(before) > 0 {
		// the rules under the key itself may go
		s.rules.clear(key)
		for _, r := range listed(m) {
			if r[0] == key {
				sym.Assert(text != "" && hasRule(before, r), "a definition has rules out of nowhere")
				s.rules.add(r)
			}
		}
	}
}

// rule27 is a rule that fits the definition of the key.
func rule27(s *state27, key, n string) []string {
	v := func(c string) string { return sym.StrIn(c+n, "ab", 1, 1) }
	switch key + s.defs[key] {
	case "pa, b":
		return []string{"p", v("v"), v("w")}
	case "pb, a, eft":
		return []string{"p", v("v"), v("w"), "deny"}
	case "peft, b, a":
		return []string{"p", "allow", v("v"), v("w")}
	case "p2a":
		return []string{"p2", v("v")}
	case "p2b, a":
		return []string{"p2", "b", v("v")}
	case "g_, _", "g2_, _":
		return []string{key, v("v"), v("w")}
	}
	return []string{key, v("v"), v("w"), "d"}
}

// build27 rebuilds the matchers.
func build27(m *model.Model, s *state27) {
	if !s.stale {
		return
	}
	s.stale = false
	fails := false
	for _, k := range []string{"m", "m2"} {
		fails = fails || (s.defs[k] != "" && !s.builds(k))
	}
	err := m.BuildMatchers()
	sym.Assert((err != nil) == fails, "rebuilding the matchers reports the wrong result")
}

// builds says if a matcher has all it needs.
func (s *state27) builds(k string) bool {
	t := s.defs[k]
	switch {
	case t == "":
		return false
	case t[0] == 'g' && t[1] == '.':
		return s.defs["g"] != ""
	case t[0] == 'g' && t[1] == '2':
		return s.defs["g2"] != "" && s.defs["p2"] != ""
	case t[0] == 'g':
		return s.defs["g"] != "" && s.defs["p"] != ""
	case s.policy(k) == "p2":
		return s.defs["p2"] != ""
	}
	return s.defs["p"] != ""
}

// policy gives the policy key of a matcher.
func (s *state27) policy(k string) string {
	t := s.defs[k]
	for i := 0; i+1 < len(t); i++ {
		if t[i] == 'p' && (i == 0 || t[i-1] == ' ') {
			if t[i+1] == '2' {
				return "p2"
			}
			return "p"
		}
	}
	return "g"
}

// field gives a value of a rule.
func (s *state27) field(r []string, f string) string {
	args := split(s.defs[r[0]], ',')
	for i, a := range args {
		if trimSpaces(a) == f && i+1 < len(r) {
			return r[i+1]
		}
	}
	return ""
}

// decide gives the decision and the matches by matcher k; ok is false if something is missing.
func (s *state27) decide(k, x, y string) (want bool, matches [][]string, ok bool) {
	t := s.defs[k]
	if !s.builds(k) || s.defs["r"] == "" {
		return false, nil, false
	}
	if s.defs["r"] == "y, x" {
		x, y = y, x
	}
	linked := func(g, a, b string) bool {
		return a == b || s.defs[g] == "_, _" && hasRule(s.rules.rules, []string{g, a, b})
	}
	allow, deny := false, false
	key := s.policy(k)
	for _, r := range s.rules.rules {
		if r[0] != key {
			continue
		}
		a, b := s.field(r, "a"), s.field(r, "b")
		hit := false
		switch t {
		case "p.a == r.x && p.b == r.y":
			hit = a == x && b == y
		case "g(r.x, p.a)":
			hit = linked("g", x, a)
		case "p.b == r.x || p2.a == r.x":
			hit = b == x
		case "r.x == p2.a":
			hit = a == x
		case "g2(r.y, p2.a) && p2.a != r.x":
			hit = linked("g2", y, a) && a != x
		case "p2.a == r.x && r.y != \"c\"":
			hit = a == x
		case "g.user == r.x":
			hit = r[1] == x
		}
		if hit {
			matches = append(matches, r)
			e := s.field(r, "eft")
			allow = allow || e != "deny"
			deny = deny || e == "deny"
		}
	}
	switch s.defs["e"] {
	case someAllow:
		want = allow
	case noDeny:
		want = !deny
	default:
		want = allow && !deny
	}
	return want, matches, true
}

// mixed says if the matcher uses two policies: a rule that needs the other one fails.
func (s *state27) mixed(k string) bool { return s.defs[k] == "p.b == r.x || p2.a == r.x" }

// check27 compares decisions and listings.
func check27(en *fastac.Enforcer, s *state27) {
	sym.Assert(sameRules(listed(en.GetModel()), s.rules.rules), "changing a definition changes rules under other keys")
	x, y := sym.StrIn("x", "ab", 1, 1), sym.StrIn("y", "ab", 1, 1)
	for _, k := range []string{"m", "m2"} {
		want, matches, ok := s.decide(k, x, y)
		rs, ferr := en.Filter(fastac.SetMatcher(k), x, y)
		got, err := en.Enforce(fastac.SetMatcher(k), x, y)
		if k == "m" {
			// the matcher a request without options uses
			got2, err2 := en.Enforce(x, y)
			rs2, ferr2 := en.Filter(x, y)
			sym.Assert((err2 == nil) == (err == nil) && got2 == got, "a request without options decides differently")
			sym.Assert((ferr2 == nil) == (ferr == nil) && sameRules(rs2, rs), "a request without options filters differently")
		}
		if s.mixed(k) && ok {
			if ferr == nil {
				sym.Assert(sameRules(rs, matches), "a filter does not follow the new definitions")
			}
			continue
		}
		if s.policy(k) == "g" {
			sym.Assert(err != nil, "a matcher without policy decides")
		} else {
			// without an effect there is no context
			sym.Assert((err == nil) == (ok && s.defs["e"] != ""), "using a removed definition gives no error, or another one does")
			sym.Assert(err != nil || got == want, "a decision does not follow the new definitions")
		}
		// a filter has no use for the effect
		sym.Assert((ferr == nil) == ok || ferr != nil && s.defs["e"] == "", "using a removed definition gives no error, or another one does")
		sym.Assert(ferr != nil || sameRules(rs, matches), "a filter does not follow the new definitions")
	}
}

func start27(m0, m20 int) (*fastac.Enforcer, *state27) {
	s := &state27{defs: map[string]string{}}
	m := model.NewModel()
	for _, k := range keys27 {
		v := variants27(k)
		t := v[0]
		if k == "m" {
			t = v[m0]
		}
		if k == "m2" {
			t = v[m20]
		}
		s.defs[k] = t
		sym.Assert(m.SetDef(k[0], k, t) == nil, "a definition cannot be set")
	}
	sym.Assert(m.BuildMatchers() == nil, "the matchers cannot be built")
	en := newEnforcer(m)
	for _, r := range [][]string{{"p", "a", "b"}, {"p2", "b"}, {"g", "b", "a"}, {"g2", "b", "a"}} {
		mustAdd(en, r)
		s.rules.add(r)
	}
	return en, s
}

// C27_change: one definition is set again or removed, with rules added before and after.
func C27_change() {
	en, s := start27(sym.Choose("matcher", 4), sym.Choose("matcher2", 3))
	m := en.GetModel().(*model.Model)
	if sym.Bool("decide first") {
		_, _ = en.Enforce("a", "b")
		_, _ = en.Filter(fastac.SetMatcher("m2"), "a", "b")
	}
	key := keys27[sym.Choose("definition", len(keys27))]
	vs := variants27(key)
	set27(m, s, key, vs[sym.Choose("variant", len(vs))])
	build27(m, s)
	k := []string{"p", "p2", "g", "g2"}[sym.Choose("rule", 4)]
	if s.defs[k] != "" {
		r := rule27(s, k, "1")
		mustAdd(en, r)
		s.rules.add(r)
	} else {
		_, err := en.AddRule([]string{k, "a", "b"})
		sym.Assert(err != nil, "a rule is added to a removed definition")
	}
	sym.Cover("end")
	noChains(s.rules.rules)
	check27(en, s)
}

// C27_history: sequences of changes of definitions and rules.
func C27_history() {
	en, s := start27(sym.Choose("matcher", 2), 0)
	m := en.GetModel().(*model.Model)
	for i := 0; i < 2; i++ {
		n := itoa(i)
		key := keys27[sym.Choose("definition"+n, len(keys27))]
		vs := variants27(key)
		if !sym.Thorough() {
			vs = vs[len(vs)-2:]
		}
		set27(m, s, key, vs[sym.Choose("variant"+n, len(vs))])
		if i == 0 && sym.Bool("rebuild") {
			build27(m, s)
		}
		if key == "m" || key == "m2" || i == 0 && !sym.Thorough() || !sym.Bool("rule"+n) {
			continue
		}
		k := key
		if key == "r" || key == "e" {
			k = "p"
		}
		if s.defs[k] == "" {
			continue
		}
		r := rule27(s, k, n)
		mustAdd(en, r)
		s.rules.add(r)
	}
	build27(m, s)
	sym.Cover("end")
	noChains(s.rules.rules)
	check27(en, s)
}

// C27_again: a definition is removed and set again.
func C27_again() {
	en, s := start27(sym.Choose("matcher", 4), sym.Choose("matcher2", 3))
	m := en.GetModel().(*model.Model)
	key := keys27[sym.Choose("definition", len(keys27))]
	set27(m, s, key, "")
	if sym.Bool("rebuild") {
		build27(m, s)
		check27(en, s)
	}
	vs := variants27(key)
	set27(m, s, key, vs[sym.Choose("variant", len(vs)-1)])
	build27(m, s)
	for i, k := range []string{"p", "g", "p2", "g2"} {
		if k == key {
			r := rule27(s, k, itoa(i))
			mustAdd(en, r)
			s.rules.add(r)
		}
	}
	sym.Cover("end")
	noChains(s.rules.rules)
	check27(en, s)
}

// C27_remove: rules are removed after a change of definitions.
func C27_remove() {
	en, s := start27(sym.Choose("matcher", 4), sym.Choose("matcher2", 3))
	m := en.GetModel().(*model.Model)
	key := keys27[sym.Choose("definition", len(keys27))]
	vs := variants27(key)
	set27(m, s, key, vs[sym.Choose("variant", len(vs))])
	early := sym.Bool("rebuild first")
	if early {
		build27(m, s)
	}
	k := []string{"p", "p2", "g", "g2"}[sym.Choose("rule", 4)]
	switch rs := s.keyed(k); {
	case s.defs[k] == "":
	case sym.Bool("clear"):
		sym.Assert(m.ClearPolicy(k) == nil, "clearing fails")
		s.rules.clear(k)
	case len(rs) > 0:
		mustRemove(en, rs[0])
		s.rules.remove(rs[0])
	}
	build27(m, s)
	sym.Cover("end")
	check27(en, s)
}

// C27_sections: keys and sections that do not exist.
func C27_sections() {
	en, s := start27(0, 0)
	m := en.GetModel().(*model.Model)
	sec := []byte{'r', 'p', 'g', 'e', 'm', 'x', 0}[sym.Choose("section", 7)]
	key := sym.StrIn("key", "prgem2x", 0, 2)
	if sym.Bool("remove") {
		if _, ok := s.defs[key]; ok && len(key) > 0 && sec == key[0] {
			sym.Stop()
		}
		err := m.RemoveDef(sec, key)
		sym.Assert(sec != 'x' && sec != 0 || err != nil, "a definition of an unknown section is removed")
	} else {
		if len(key) > 0 && sec == key[0] {
			sym.Stop()
		}
		err := m.SetDef(sec, key, "a, b")
		sym.Assert(err != nil, "a definition of another section is set")
	}
	s.stale = true
	build27(m, s)
	sym.Cover("end")
	check27(en, s)
}

// C27_selected: a definition under a further key is removed, set again or left, and selected by its name afterwards.
func C27_selected() {
	m := newModel(def{'r', "r", "x, y"}, def{'r', "r2", "y, x"}, def{'p', "p", "a"}, def{'p', "p2", "a"}, def{'g', "g", "_, _"}, def{'g', "g2", "_, _"},
		def{'e', "e", someAllow}, def{'e', "e2", noDeny}, def{'m', "m", "p.a == r.x"}, def{'m', "m2", "p2.a == r.x"}, def{'m', "m3", "g2(r.x, p.a)"},
		def{'m', "m4", "p.a == r2.x"}, def{'m', "m5", "p.a == \"b\""})
	en := newEnforcer(m)
	a, b := sym.StrIn("a", "ab", 1, 1), sym.StrIn("b", "ab", 1, 1)
	mustAdd(en, []string{"p", a}, []string{"p2", b}, []string{"g2", "b", a})
	keys := []string{"r", "r2", "p", "p2", "g2", "e", "e2", "m", "m2", "m3"}
	key := keys[sym.Choose("definition", len(keys))]
	gone := true
	sym.Assert(m.RemoveDef(key[0], key) == nil, "a definition cannot be removed")
	rebuilt := sym.Choose("rebuilt", 3)
	if rebuilt > 0 {
		_ = m.BuildMatchers()
	}
	if rebuilt == 2 {
		d, _ := map[string]string{"r": "x, y", "r2": "y, x", "p": "a", "p2": "a", "g2": "_, _", "e": someAllow, "e2": noDeny, "m": "p.a == r.x", "m2": "p2.a == r.x", "m3": "g2(r.x, p.a)"}[key]
		sym.Assert(m.SetDef(key[0], key, d) == nil, "a definition cannot be set again")
		sym.Assert(m.BuildMatchers() == nil, "the matchers cannot be rebuilt")
		gone = false
		mustAdd(en, []string{"p", a}, []string{"p2", b}, []string{"g2", "b", a})
	}
	r, e, mk := []string{"r", "r2"}[sym.Choose("request", 2)], []string{"e", "e2"}[sym.Choose("effect", 2)], []string{"m", "m2", "m3", "m4", "m5"}[sym.Choose("matcher", 5)]
	sym.Assume(mk == "m5" || (mk == "m4") == (r == "r2"))
	x, y := sym.StrIn("x", "abc", 1, 1), sym.StrIn("y", "abc", 1, 1)
	opts := []interface{}{fastac.SetRequestDef(r), fastac.SetEffector(e), fastac.SetMatcher(mk), x, y}
	got, err := en.Enforce(opts...)
	rs, ferr := en.Filter(opts...)
	needs := []string{r, mk, map[string]string{"m": "p", "m2": "p2", "m3": "p", "m4": "p", "m5": "p"}[mk]}
	if mk == "m3" {
		needs = append(needs, "g2")
	}
	sym.Cover("end")
	if gone && mk != key && rebuilt == 0 && (key == "p" || key == "p2" || key == "g2") && hasName(needs, key) {
		return // the matchers are to be rebuilt first
	}
	if gone && hasName(needs, key) {
		sym.Assert(err != nil && !got && ferr != nil, "using a removed definition gives no error")
		return
	}
	if gone && key == e {
		sym.Assert(err != nil || !got, "a removed effect allows")
		return
	}
	want := map[string]bool{"m": x == a, "m2": x == b, "m3": x == a || x == "b", "m4": y == a, "m5": a == "b"}[mk]
	sym.Assert(err == nil && ferr == nil, "removing a definition breaks another one")
	sym.Assert(got == (want || e == "e2") && len(rs) == btoi(want), "a decision does not follow the definitions")
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C27_text: matchers and effects given as text are read anew by every request.
func C27_text() {
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'p', "p2", "a"}, def{'g', "g", "_, _"}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x"})
	en := newEnforcer(m)
	m.SetFunction("same", func(args ...interface{}) (interface{}, error) { return args[0] == args[1], nil })
	texts := []string{"p.a == r.x", "p2.a == r.x", "g(r.x, p.a)", "same(r.x, p.a)"}
	k := sym.Choose("matcher", len(texts))
	a, b := sym.StrIn("a", "ab", 1, 1), sym.StrIn("b", "ab", 1, 1)
	fill := func() {
		mustAdd(en, []string{"p", a, b}, []string{"p2", a})
		if _, ok := m.GetRoleManager("g"); ok {
			mustAdd(en, []string{"g", "b", a})
		}
	}
	way := sym.Choose("way", 3)
	mdef := defs.NewMatcherDef("own", texts[k])
	opt := func() fastac.ContextOption {
		if way == 1 {
			return fastac.SetMatcher(mdef)
		}
		if way == 2 {
			return fastac.SetMatcher(defs.NewMatcherDef("", texts[k]))
		}
		return fastac.SetMatcher(texts[k])
	}
	fill()
	x, y := sym.StrIn("x", "abc", 1, 1), sym.StrIn("y", "abc", 1, 1)
	if sym.Bool("decide first") {
		got, err := en.Enforce(opt(), x, y)
		sym.Assert(err == nil && got == (x == a || k == 2 && x == "b"), "a decision by a matcher text is wrong")
	}
	swapped, gone, unlike, unlinked := false, false, false, false
	rx := x
	switch sym.Choose("change", 9) {
	case 1:
		sym.Assert(m.SetDef('p', "p", "b, a") == nil, "a definition cannot be set")
		fill()
		swapped = true
	case 2:
		sym.Assert(m.SetDef('r', "r", "y, x") == nil, "a definition cannot be set")
		rx = y
	case 3:
		m.SetFunction("same", func(args ...interface{}) (interface{}, error) { return args[0] != args[1], nil })
		unlike = k == 3
	case 4:
		m.RemoveFunction("same")
		gone = k == 3
	case 5:
		sym.Assert(m.RemoveDef('p', "p") == nil, "a definition cannot be removed")
		gone = k != 1
	case 6:
		sym.Assert(m.RemoveDef('g', "g") == nil, "a definition cannot be removed")
		gone = k == 2
	case 7:
		sym.Assert(m.SetDef('g', "g", "_, _") == nil, "a definition cannot be set")
		rm, _ := m.GetRoleManager("g")
		unlinked = !linkedIn(rm, "b", a)
	case 8:
		sym.Assert(m.SetDef('m', texts[k], "r.x == r.x") != nil, "a matcher is set under a key of another section")
	}
	got, err := en.Enforce(opt(), x, y)
	rs, ferr := en.Filter(opt(), x, y)
	sym.Cover("end")
	if gone {
		sym.Assert(err != nil && !got && ferr != nil, "using a removed definition gives no error")
		return
	}
	// a definition that is set again may keep its rules
	hits := 0
	for _, r := range listed(m) {
		if (k == 1) != (r[0] == "p2") || r[0] == "g" {
			continue
		}
		v := r[1]
		if swapped && r[0] == "p" {
			v = r[2]
		}
		hit := rx == v
		if unlike {
			hit = !hit
		}
		if k == 2 && !unlinked && rx == "b" && v == a {
			hit = true
		}
		hits += btoi(hit)
	}
	sym.Assert(err == nil && ferr == nil, "changing a definition breaks a matcher text")
	sym.Assert(got == (hits > 0) && len(rs) == hits, "a decision by a matcher text does not follow the definitions")
}
