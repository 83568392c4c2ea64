package h

import (
	"fvh/sym"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
)

// c26defs has several definitions of each kind; the fields of equal name are at different positions.
func c26defs() []def {
	return []def{{'r', "r", "x, y"}, {'r', "r2", "y, x"}, {'r', "r22", "z, x, y"},
		{'p', "p", "a, b, eft"}, {'p', "p2", "eft, b, a"}, {'p', "p22", "b, a"}, {'g', "g", "_, _"}, {'g', "g2", "_, _"}, {'g', "g22", "_, _, _"},
		{'e', "e", someAllow}, {'e', "e2", noDeny}, {'e', "e22", allowDeny},
		{'m', "m", "g(r.x, p.a) && r.y == p.b"}, {'m', "m2", "r2.y == p2.b && g2(r2.x, p2.a)"}, {'m', "m22", "r22.x == p22.a || g22(r22.y, p22.b, r22.z)"},
		{'m', "m3", "r.x == p2.a"}, {'m', "m4", "r2.x == p.a && p.b != \"z\""}}
}

// c26rule is an arbitrary rule or link under the given key.
func c26rule(key, n string) []string {
	v, w := sym.StrIn("v"+n, "ab", 1, 1), sym.StrIn("w"+n, "ab", 1, 1)
	switch key {
	case "p":
		return []string{"p", v, w, []string{"allow", "deny", "none"}[sym.Choose("eft"+n, 3)]}
	case "p2":
		return []string{"p2", []string{"allow", "deny", "none"}[sym.Choose("eft"+n, 3)], v, w}
	case "g22":
		return []string{key, v, "b", w}
	}
	return []string{key, v, w}
}

var keys26 = [...]string{"p", "p2", "p22", "g", "g2", "g22"}

// choice is what a decision uses.
type choice struct{ r, m, e string }

// decide26 is the meaning of the selected definitions; ok is false if the matcher uses another request definition.
func decide26(c choice, rules [][]string, req []string) (want bool, matches [][]string, ok bool) {
	names := map[string]string{"r": "xy", "r2": "yx", "r22": "zxy"}[c.r]
	uses := map[string]string{"m": "r", "m2": "r2", "m22": "r22", "m3": "r", "m4": "r2"}[c.m]
	if uses != c.r {
		return false, nil, false
	}
	x, y, z := "", "", ""
	for i := range names {
		switch names[i] {
		case 'x':
			x = req[i]
		case 'y':
			y = req[i]
		case 'z':
			z = req[i]
		}
	}
	linked := func(link ...string) bool { return link[1] == link[2] || hasRule(rules, link) }
	allow, deny := false, false
	for _, r := range rules {
		hit, eft := false, "allow"
		switch c.m + r[0] {
		case "mp":
			hit, eft = linked("g", x, r[1]) && y == r[2], r[3]
		case "m2p2":
			hit, eft = y == r[2] && linked("g2", x, r[3]), r[1]
		case "m22p22":
			hit = x == r[2] || linked("g22", y, r[1], z)
		case "m3p2":
			hit, eft = x == r[3], r[1]
		case "m4p":
			hit, eft = x == r[1] && r[2] != "z", r[3]
		}
		if hit {
			matches = append(matches, r)
			allow = allow || eft == "allow"
			deny = deny || eft == "deny"
		}
	}
	switch c.e {
	case "e":
		want = allow
	case "e2":
		want = !deny
	default:
		want = allow && !deny
	}
	return want, matches, true
}

// request26 has the values of the request definition.
func request26(r string) []string {
	req := []string{sym.StrIn("q0", "ab", 1, 1), sym.StrIn("q1", "ab", 1, 1)}
	if r == "r22" {
		req = append([]string{sym.StrIn("q2", "ab", 1, 1)}, req...)
	}
	return req
}

// links in one step only: chains are C06
func noChains(rules [][]string) {
	for _, a := range rules {
		for _, b := range rules {
			if a[0][0] == 'g' && a[0] == b[0] && a[2] == b[1] && a[1] != b[2] && a[1] != a[2] && b[1] != b[2] {
				sym.Stop()
			}
		}
	}
}

// select26 chooses definitions and the way of selecting them.
func select26(m *model.Model) (choice, []fastac.ContextOption) {
	c := choice{"r", "m", "e"}
	opts := []fastac.ContextOption{}
	switch k := sym.Choose("request definition", 4); k {
	case 1, 2:
		c.r = []string{"r2", "r22"}[k-1]
		if sym.Bool("request by name") {
			opts = append(opts, fastac.SetRequestDef(c.r))
		} else {
			d, ok := m.GetRequestDef(c.r)
			sym.Assert(ok, "a definition is missing")
			opts = append(opts, fastac.SetRequestDef(d))
		}
	case 3:
		opts = append(opts, fastac.SetRequestDef("r"))
	}
	switch k := sym.Choose("effect", 4); k {
	case 1, 2:
		c.e = []string{"e2", "e22"}[k-1]
		switch sym.Choose("effect by", 4) {
		case 0:
			opts = append(opts, fastac.SetEffector(c.e))
		case 1:
			opts = append(opts, fastac.SetEffector([]string{noDeny, allowDeny}[k-1]))
		case 2:
			opts = append(opts, fastac.SetEffector(defs.NewEffectDef("x", []string{noDeny, allowDeny}[k-1])))
		case 3:
			opts = append(opts, fastac.SetEffector(effector.NewEffector(defs.NewEffectDef("e", []string{noDeny, allowDeny}[k-1]))))
		}
	case 3:
		opts = append(opts, fastac.SetEffector(""))
	}
	switch k := sym.Choose("matcher", 6); k {
	case 1, 2, 3, 4:
		c.m = []string{"m2", "m22", "m3", "m4"}[k-1]
		d := c26defs()[12+k]
		switch sym.Choose("matcher by", 4) {
		case 0:
			opts = append(opts, fastac.SetMatcher(c.m))
		case 1:
			opts = append(opts, fastac.SetMatcher(d.val))
		case 2:
			opts = append(opts, fastac.SetMatcher(defs.NewMatcherDef("x", d.val)))
		case 3:
			mm, ok := m.GetMatcher(c.m)
			sym.Assert(ok, "a matcher is missing")
			opts = append(opts, fastac.SetMatcher(mm))
		}
	case 5:
		opts = append(opts, fastac.SetMatcher(nil))
	}
	return c, opts
}

// ask26 puts the options somewhere among the request values.
func ask26(en *fastac.Enforcer, opts []fastac.ContextOption, req []string) (bool, [][]string, error) {
	at := sym.Choose("options at", 3)
	params := []interface{}{}
	for i, v := range req {
		for k, o := range opts {
			if i == 0 && at == 0 || i == 1 && at == 1 && k == 0 {
				params = append(params, o)
			}
		}
		params = append(params, v)
	}
	for k, o := range opts {
		if at == 2 || at == 1 && k > 0 {
			params = append(params, o)
		}
	}
	ok, err := en.Enforce(params...)
	rs, ferr := en.Filter(params...)
	sym.Assert((err == nil) == (ferr == nil), "Enforce and Filter disagree on errors")
	return ok, rs, err
}

// C26_select: a decision uses the selected request definition, matcher, effect and policy, the defaults otherwise.
func C26_select() {
	m := newModel(c26defs()...)
	en := newEnforcer(m)
	c, opts := select26(m)
	key := map[string]string{"m": "p", "m2": "p2", "m22": "p22", "m3": "p2", "m4": "p"}[c.m]
	rules := [][]string{{"p", "a", "c", "deny"}, {"p2", "deny", "c", "b"}, {"p22", "c", "c"}, {"g", "u", "v"}}
	mustAdd(en, rules...)
	for i := 0; i < pick(1, 2); i++ {
		r := c26rule(key, itoa(i))
		mustAdd(en, r)
		rules = append(rules, r)
	}
	rules = distinct(rules)
	req := request26(c.r)
	want, matches, ok := decide26(c, rules, req)
	got, list, err := ask26(en, opts, req)
	sym.Observe("decision", got)
	sym.Cover("end")
	if !ok {
		sym.Assert(err != nil, "a matcher on another request definition decides")
		return
	}
	sym.Assert(err == nil, "a selection fails")
	sym.Assert(got == want, "a decision uses other definitions than the selected ones")
	sym.Assert(sameRules(list, matches), "a filter uses other definitions than the selected ones")
}

// consistent chooses definitions that fit.
func consistent() (choice, []interface{}) {
	cs := []choice{{"r", "m", "e"}, {"r2", "m2", "e2"}, {"r22", "m22", "e22"}, {"r", "m3", "e22"}, {"r2", "m4", "e2"}, {"r2", "m4", "e"}}
	c := cs[sym.Choose("selection", len(cs))]
	return c, []interface{}{fastac.SetMatcher(c.m), fastac.SetRequestDef(c.r), fastac.SetEffector(c.e)}
}

func params26(opts []interface{}, req []string) []interface{} {
	l := append([]interface{}{}, opts...)
	for _, v := range req {
		l = append(l, v)
	}
	return l
}

// C26_keys: rules and links under all keys.
func C26_keys() {
	en := newEnforcer(newModel(c26defs()...))
	c, opts := consistent()
	rules := [][]string{}
	for i := 0; i < pick(2, 3); i++ {
		n := itoa(i)
		r := c26rule(keys26[sym.Choose("key"+n, len(keys26))], n)
		mustAdd(en, r)
		rules = append(rules, r)
	}
	rules = distinct(rules)
	noChains(rules)
	req := request26(c.r)
	want, matches, _ := decide26(c, rules, req)
	got, err := en.Enforce(params26(opts, req)...)
	sym.Assert(err == nil, "a selection fails")
	list, err := en.Filter(params26(opts, req)...)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(err == nil, "a selection fails")
	sym.Assert(got == want, "rules or links under other keys influence a decision")
	sym.Assert(sameRules(list, matches), "rules or links under other keys influence a filter")
}

// C26_history: the same after rules and links under other keys have come and gone.
func C26_history() {
	en := newEnforcer(newModel(c26defs()...))
	c, opts := consistent()
	s := &ref{}
	for _, r := range [][]string{{"p", "a", "b", "allow"}, {"p2", "deny", "b", "a"}, {"p22", "b", "a"}, {"g", "b", "a"}, {"g2", "b", "a"}, {"g22", "a", "b", "b"}} {
		mustAdd(en, r)
		s.add(r)
	}
	req := request26(c.r)
	if sym.Bool("warm") {
		_, _ = en.Enforce(params26(opts, req)...)
	}
	for i := 0; i < pick(1, 2); i++ {
		n := itoa(i)
		key := keys26[sym.Choose("key"+n, len(keys26))]
		switch sym.Choose("operation"+n, 3) {
		case 0:
			r := c26rule(key, n)
			mustAdd(en, r)
			s.add(r)
		case 1:
			r := c26rule(key, n)
			mustRemove(en, r)
			s.remove(r)
		case 2:
			sym.Assert(en.GetModel().ClearPolicy(key) == nil, "clearing fails")
			s.clear(key)
		}
	}
	noChains(s.rules)
	want, matches, _ := decide26(c, s.rules, req)
	got, err := en.Enforce(params26(opts, req)...)
	sym.Assert(err == nil, "a selection fails")
	list, err := en.Filter(params26(opts, req)...)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(err == nil, "a selection fails")
	sym.Assert(got == want, "rules or links under other keys influence a decision")
	sym.Assert(sameRules(list, matches), "rules or links under other keys influence a filter")
}

// C26_context: a context keeps its selection, whatever is selected for other decisions.
func C26_context() {
	m := newModel(c26defs()...)
	en := newEnforcer(m)
	rules := [][]string{{"p", "a", "b", "allow"}, {"p2", "deny", "b", "a"}, {"p22", "b", "a"}, {"g2", "b", "a"}}
	mustAdd(en, rules...)
	cs := []choice{{"r", "m", "e"}, {"r2", "m2", "e2"}, {"r22", "m22", "e22"}, {"r", "m3", "e22"}, {"r2", "m4", "e2"}}
	var ctx [2]*fastac.Context
	var c [2]choice
	for i := range c {
		c[i] = cs[sym.Choose("selection"+itoa(i), len(cs))]
		var err error
		opts := []fastac.ContextOption{fastac.SetEffector(c[i].e), fastac.SetRequestDef(c[i].r), fastac.SetMatcher(c[i].m)}
		if sym.Bool("twice" + itoa(i)) {
			// the later selection counts
			opts = append([]fastac.ContextOption{fastac.SetMatcher("m3"), fastac.SetRequestDef("r22"), fastac.SetEffector("e2")}, opts...)
		}
		ctx[i], err = fastac.NewContext(m, opts...)
		sym.Assert(err == nil, "a selection fails")
	}
	r := c26rule([]string{"p", "p2", "p22", "g", "g2"}[sym.Choose("key", 5)], "r")
	mustAdd(en, r)
	rules = distinct(append(rules, r))
	noChains(rules)
	for _, i := range []int{0, 1, 0} {
		req := []string{sym.StrIn("q0"+itoa(i), "ab", 1, 1), "b", "a"}
		if c[i].r != "r22" {
			req = req[:2]
		}
		l := []interface{}{}
		for _, v := range req {
			l = append(l, v)
		}
		want, matches, _ := decide26(c[i], rules, req)
		got, err := en.EnforceWithContext(ctx[i], l...)
		list, ferr := en.FilterWithContext(ctx[i], l...)
		sym.Assert(err == nil && ferr == nil, "a context fails")
		sym.Assert(got == want && sameRules(list, matches), "a context decides by another selection")
	}
	sym.Cover("end")
}

// C26_open: several options for the same part; an empty one selects nothing, of the others the last one counts.
func C26_open() {
	m := newModel(c26defs()...)
	en := newEnforcer(m)
	s := &ref{}
	for i := 0; i < pick(1, 2); i++ {
		r := c26rule(keys26[sym.Choose("key"+itoa(i), len(keys26))], itoa(i))
		mustAdd(en, r)
		s.add(r)
	}
	noChains(s.rules)
	c := choice{"r", "m", "e"}
	opts := []fastac.ContextOption{}
	kind := sym.Choose("part", 3)
	for i := 0; i < pick(2, 3); i++ {
		k := sym.Choose("option"+itoa(i), 4)
		switch kind {
		case 0:
			opts = append(opts, []fastac.ContextOption{fastac.SetRequestDef(""), fastac.SetRequestDef(nil), fastac.SetRequestDef("r"), fastac.SetRequestDef("r2")}[k])
			c.r = []string{c.r, c.r, "r", "r2"}[k]
		case 1:
			opts = append(opts, []fastac.ContextOption{fastac.SetEffector(""), fastac.SetEffector(nil), fastac.SetEffector("e22"), fastac.SetEffector(noDeny)}[k])
			c.e = []string{c.e, c.e, "e22", "e2"}[k]
		case 2:
			opts = append(opts, []fastac.ContextOption{fastac.SetMatcher(""), fastac.SetMatcher(nil), fastac.SetMatcher("m3"), fastac.SetMatcher("r2.x == p.a && p.b != \"z\"")}[k])
			c.m = []string{c.m, c.m, "m3", "m4"}[k]
		}
	}
	if c.m == "m4" && kind == 2 {
		opts = append(opts, fastac.SetRequestDef("r2"))
		c.r = "r2"
	} else if c.r == "r2" && kind == 0 {
		opts = append([]fastac.ContextOption{fastac.SetMatcher("m4")}, opts...)
		c.m = "m4"
	}
	req := request26(c.r)
	want, matches, ok := decide26(c, s.rules, req)
	sym.Assert(ok, "the harness selects definitions which do not fit")
	got, rs, err := ask26(en, opts, req)
	sym.Cover("end")
	sym.Assert(err == nil, "a decision fails")
	if len(s.of(en26policy(c.m))) == 0 {
		return
	}
	sym.Assert(got == want, "a decision does not use what is selected")
	sym.Assert(sameRules(rs, matches), "a filter does not use what is selected")
}

// en26policy is the policy a matcher refers to.
func en26policy(m string) string {
	return map[string]string{"m": "p", "m2": "p2", "m22": "p22", "m3": "p2", "m4": "p"}[m]
}

// C26_names: a name selects the definition with exactly this name; any other text never selects one.
func C26_names() {
	en := newEnforcer(newModel(c26defs()...))
	rules := [][]string{}
	for i, key := range []string{"p", "p2", "g"} {
		r := c26rule(key, itoa(i))
		mustAdd(en, r)
		rules = append(rules, r)
	}
	c := choice{"r", "m", "e"}
	var opt fastac.ContextOption
	known := false
	name := ""
	part := sym.Choose("part", 3)
	switch part {
	case 0:
		name = sym.StrIn("name", " r2R", 1, pick(2, 3))
		known = name == "r" || name == "r2" || name == "r22"
		opt = fastac.SetRequestDef(name)
		c.r = name
		if name == "r2" {
			c.m = "m4"
		}
	case 1:
		name = sym.StrIn("name", " m34M", 1, pick(2, 3))
		known = name == "m" || name == "m3" || name == "m4"
		opt = fastac.SetMatcher(name)
		c.m = name
		if name == "m4" {
			c.r = "r2"
		}
	case 2:
		name = sym.StrIn("name", " e2E", 1, pick(2, 3))
		known = name == "e" || name == "e2" || name == "e22"
		opt = fastac.SetEffector(name)
		c.e = name
	}
	sym.Observe("name", name)
	opts := []fastac.ContextOption{opt}
	if c.r == "r2" && c.m == "m4" {
		opts = append(opts, fastac.SetRequestDef("r2"), fastac.SetMatcher("m4"))
	}
	if known && c.r == "r22" {
		// no matcher on it here
		sym.Stop()
	}
	req := request26(c.r)
	got, err := en.Enforce(params26(optsOf26(opts), req)...)
	sym.Cover("end")
	if !known {
		// a number is a matcher which never holds
		number := part == 1 && !strings.ContainsAny(name, "mM")
		sym.Assert(!got && (err != nil || number), "a text that is no name selects a definition")
		return
	}
	want, matches, ok := decide26(c, rules, req)
	sym.Assert(ok, "the harness selects definitions which do not fit")
	list, ferr := en.Filter(params26(optsOf26(opts), req)...)
	sym.Assert(err == nil && ferr == nil, "a selection by name fails")
	sym.Assert(got == want && sameRules(list, matches), "a name selects another definition")
}

func optsOf26(opts []fastac.ContextOption) []interface{} {
	l := []interface{}{}
	for _, o := range opts {
		l = append(l, o)
	}
	return l
}
