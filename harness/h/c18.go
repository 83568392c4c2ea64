package h

import (
	"errors"

	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/rbac"
)

type subject struct {
	Name   string
	Age    int
	Parent *subject
	hidden string
}

func (s subject) Is(name string) bool { return s.Name == name }
func (s *subject) Fail() string       { panic(errors.New("broken")) }

// anyValue is a request value of any type, the first ones are the usual ones.
func anyValue(name string, kinds int) interface{} {
	switch sym.Choose(name+".type", kinds) {
	case 0:
		return sym.StrIn(name, "ab1(", 0, 1)
	case 1:
		return subject{Name: sym.StrIn(name, "ab", 1, 1), hidden: "h"}
	case 2:
		return 1
	case 3:
		return sym.Bool(name + ".b")
	case 4:
		return nil
	case 5:
		return -0.5
	case 6:
		return []string{"a"}
	case 7:
		return map[string]interface{}{"Name": "a", "none": nil, "Fn": func(a string) string { return a }}
	case 8:
		return sym.StrIn(name, "r.x=(", 2, 2)
	case 9:
		return &subject{Name: "a", Parent: &subject{Name: "b"}}
	case 10:
		return (*subject)(nil)
	case 11:
		return func() {}
	case 12:
		return errDown
	case 13:
		return []interface{}{"a", 1, nil}
	case 14:
		return uint8(7)
	case 15:
		return map[int]string{1: "a"}
	case 16:
		return map[string]interface{}{"Name": nil}
	case 17:
		return []string(nil)
	case 18:
		return "eval(r.x)"
	}
	return "127.0.0.1/8"
}

func readers() (texts []string, reads []int) {
	for _, m := range []struct {
		text string
		n    int
	}{
		{"p.a == r.x && p.b == r.y", 1}, {"p.a == r.x || r.y == p.b", 1}, {"r.x.Name == p.a", 1}, {"r.x == p.a || g(r.x, p.a)", 1},
		{"r.x > 1 && p.a == r.y", 1}, {"r.x in (p.a, 'z')", 1}, {"p.a in r.x", 1}, {"eval(r.x)", 1}, {"!r.x", 1}, {"r.x", 1}, {"-r.x == r.y", 2},
		{"r.x + r.y == 'aa'", 2}, {"r.x ? p.a == 'a' : r.y", 1}, {"r.x =~ r.y", 2}, {"r.x.Is(r.y)", 2}, {"r.x.Parent.Name == 'b' && true", 1},
		{"r.x.Fail() == 'b'", 1}, {"r.x.Missing.More == r.y", 2}, {"r.x.Fn(r.y) == 'a'", 2}, {"r.x ?? r.y", 1},
		{"(r.x && r.y) || p.a == 'a'", 1}, {"r.x << r.y == 1 || r.x % r.y > 2", 2}, {"r.x && r.y", 1}, {"r.x == r.y", 2}, {"r.x >= r.y", 2},
	} {
		texts = append(texts, m.text)
		reads = append(reads, m.n)
	}
	return
}

func calls() []string {
	return []string{"g(r.x, r.y)", "g2(r.x, p.a, r.y)", "eval(r.x) || eval(r.y)", "pathMatch(r.x, r.y)", "pathMatch2(r.x, r.y)", "globMatch(r.x, r.y)",
		"g(r.x)", "eval(r.x, r.y)", "g2(r.x, r.y)", "pathMatch(r.x, r.y, 'a')"}
}

// ask decides and filters a request; none of it may panic.
func ask(en *fastac.Enforcer, params ...interface{}) (bool, error) {
	got, err := en.Enforce(params...)
	sym.Assert(err == nil || !got, "an error comes with allow")
	rules, ferr := en.Filter(params...)
	sym.Assert(err != nil || ferr == nil, "filtering fails where deciding does not")
	sym.Assert(ferr == nil || len(rules) == 0 || err != nil, "a failing filter does not fail the decision")
	return got, err
}

func malformedModel(text string) *fastac.Enforcer {
	m := newModel(malformedDefs()...)
	sym.Assert(m.SetDef('m', "m", text) == nil && m.BuildMatchers() == nil, "building the matcher fails: "+text)
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "a", "b"}, []string{"p2", "a"}, []string{"g", "a", "b"}, []string{"g2", "a", "b", "d"})
	return en
}

// C18_values: request values of any type in every kind of matcher.
func C18_values() {
	texts, reads := readers()
	i := sym.Choose("matcher", len(texts))
	en := malformedModel(texts[i])
	req := []interface{}{}
	for k, n := 0, sym.Choose("n", pick(3, 4)); k < n; k++ {
		req = append(req, anyValue("v"+itoa(k), []int{20, pick(7, 20), 5}[k]))
	}
	got, err := ask(en, req...)
	sym.Observe("decision", got, err != nil)
	sym.Cover("end")
	if len(req) < reads[i] {
		sym.Assert(!got && err != nil, "a request with too few values is not reported: "+texts[i])
	}
}

// C18_calls: request values of any type as arguments of functions.
func C18_calls() {
	texts := calls()
	text := texts[sym.Choose("matcher", len(texts))]
	en := malformedModel(text)
	req := []interface{}{}
	for k, n := 0, sym.Choose("n", 3); k < n; k++ {
		req = append(req, anyValue("v"+itoa(k), []int{20, pick(7, 20)}[k]))
	}
	got, err := ask(en, req...)
	sym.Observe("decision", got, err != nil)
	sym.Cover("end")
	if len(req) == 0 {
		sym.Assert(!got && err != nil, "a request with too few values is not reported: "+text)
	}
	for _, v := range req {
		if _, ok := v.(string); !ok && (text[0] == 'g' || text[0] == 'p') {
			sym.Assert(!got && err != nil, "a value that is no string is not reported: "+text)
		}
	}
}

// C18_count: any number of values for any number of fields, with and without the key.
func C18_count() {
	n := 1 + sym.Choose("fields", pick(3, 4))
	names := []string{"x", "y", "z", "w"}[:n]
	list, text := "", ""
	for i, f := range names {
		if i > 0 {
			list += ", "
			text += " && "
		}
		list += f
		text += "r." + f + " != p.a"
	}
	en := newEnforcer(newModel(def{'r', "r", list}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", text}))
	mustAdd(en, []string{"p", "a"})
	req := []interface{}{}
	k := sym.Choose("values", n+3)
	for i := 0; i < k; i++ {
		req = append(req, sym.StrIn("v"+itoa(i), "rb", 1, 1))
	}
	got, err := ask(en, req...)
	sym.Observe("decision", got, err != nil)
	sym.Cover("end")
	sym.Assert((err != nil) == (k < n), "too few values are not reported, or enough values are")
	sym.Assert(got == (k >= n), "a request with too few values is allowed, or a full one is not")
}

// C18_names: names of request definitions, matchers and effects that may not exist.
func C18_names() {
	en := malformedModel("p.a == r.x")
	opts := []interface{}{}
	name := func(n string) string {
		names := []string{"m", "m2", "r", "e", "", "zz", "r9", "m9", "e9"}
		i := sym.Choose(n, len(names)+2)
		if i < len(names) {
			return names[i]
		}
		if i == len(names) {
			return sym.Str(n+".s", 1, 1)
		}
		return sym.StrIn(n+".t", "prm.a&'(", 2, pick(2, 3))
	}
	what := sym.Choose("option", 4)
	text := ""
	switch what {
	case 0:
		text = name("matcher")
		opts = append(opts, fastac.SetMatcher(text))
	case 1:
		text = name("request")
		opts = append(opts, fastac.SetRequestDef(text))
	case 2:
		text = name("effect")
		opts = append(opts, fastac.SetEffector(text))
	case 3:
		v := anyOption("value")
		opts = append(opts, []interface{}{fastac.SetMatcher(v), fastac.SetRequestDef(v), fastac.SetEffector(v)}[sym.Choose("of", 3)])
		_, err := en.Enforce(append(opts, "b", "c")...)
		sym.Cover("end")
		sym.Assert(v == nil || err != nil, "an option of an unsupported type is ignored")
		return
	}
	got, err := ask(en, append(opts, "b", "c")...)
	sym.Observe("decision", got, err != nil)
	sym.Cover("end")
	if what == 1 && text != "r" && text != "" {
		sym.Assert(err != nil, "an unknown request definition is accepted")
	}
	if what == 2 && text != "e" && text != "" {
		sym.Assert(err != nil, "an unknown effect is accepted")
	}
	if what == 0 && hasName([]string{"zz", "r9", "m9", "e9"}, text) {
		sym.Assert(err != nil, "an unknown matcher is accepted")
	}
}

func anyOption(name string) interface{} {
	switch sym.Choose(name, 5) {
	case 0:
		return nil
	case 1:
		return 42
	case 2:
		return []string{"m"}
	case 3:
		return def{}
	}
	return true
}

// C18_text: matchers put together from arbitrary pieces.
func C18_text() {
	pieces := []string{"p.a", "r.x", "==", "&&", "||", "!", "(", ")", "'a'", ",", "1", "true", "g", "?", ":", "-", "r.x.Name", "eval"}
	text := ""
	n := 1 + sym.Choose("n", pick(3, 4))
	for i := 0; i < n; i++ {
		text += pieces[sym.Choose("piece"+itoa(i), len(pieces))] + " "
	}
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'g', "g", "_, _"}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x"}))
	mustAdd(en, []string{"p", "a"})
	got, err := ask(en, fastac.SetMatcher(text), "b")
	sym.Observe("decision", got, err != nil)
	sym.Cover("end")
}

// C18_chars: matchers of arbitrary characters.
func C18_chars() {
	text := sym.StrIn("text", "prx.=&!'([1", 1, pick(2, 3))
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x"}))
	mustAdd(en, []string{"p", "a"})
	ask(en, fastac.SetMatcher(text), "b")
	// the same as a definition and as the text of a rule
	m := en.GetModel().(*model.Model)
	if m.SetDef('m', "m2", text) == nil && m.BuildMatchers() == nil {
		ask(en, fastac.SetMatcher("m2"), "b")
	}
	ask(en, fastac.SetMatcher("eval(r.x)"), text)
	ask(en, fastac.SetMatcher(defs.NewMatcherDef("m3", text)), "b")
	sym.Cover("end")
}

// C18_missing: models without some of their definitions.
func C18_missing() {
	m := model.NewModel()
	have := []bool{}
	for _, d := range malformedDefs() {
		h := sym.Bool(string(d.sec) + d.key)
		have = append(have, h)
		if h {
			sym.Assert(m.SetDef(d.sec, d.key, d.val) == nil, "setting a definition fails")
		}
	}
	built := m.BuildMatchers()
	en, err := fastac.NewEnforcer(m, nil)
	sym.Assert(err == nil, "no enforcer")
	for _, r := range [][]string{{"p", "a", "b"}, {"p2", "a"}, {"g", "a", "b"}, {"g2", "a", "b", "d"}} {
		_, _ = en.AddRule(r)
	}
	params := []interface{}{"a", "b"}
	switch sym.Choose("matcher", 4) {
	case 1:
		params = append(params, fastac.SetMatcher("m2"))
	case 2:
		params = append(params, fastac.SetMatcher("p2.a == r.x"))
	case 3:
		params = append(params, fastac.SetMatcher("p.a == r.x"), fastac.SetEffector("e"), fastac.SetRequestDef("r"))
	}
	got, err := ask(en, params...)
	sym.Observe("decision", got, err != nil, built != nil)
	sym.Cover("end")
	if !have[0] || !have[5] {
		sym.Assert(err != nil, "a missing definition is not reported")
	}
	_ = en.GetModel().(*model.Model).String()
	_ = listed(m)
	_, _ = en.RemoveRule([]string{"p", "a", "b"})
	_ = m.ClearPolicy("p")
	_ = m.ClearPolicy("g")
}

// C18_nested: expressions that evaluate themselves.
func C18_nested() {
	texts := []string{"eval(r.x)", "eval(r.x) || eval(r.x)", "!eval(r.x)", "eval(p.a)", "eval(r.y)", "p.a == 'z' || eval(r.x)"}
	a, b := texts[sym.Choose("x", len(texts))], texts[sym.Choose("a", pick(2, len(texts)))]
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", "eval(r.x)"}))
	mustAdd(en, []string{"p", b})
	y := []string{"true", "false", "eval(r.x)"}[sym.Choose("y", pick(2, 3))]
	got, err := ask(en, a, y)
	sym.Observe("decision", got, err != nil)
	sym.Cover("end")
}

// C18_options: malformed options anywhere among others and the values of a request.
func C18_options() {
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'r', "r2", "x, y"}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x"}, def{'m', "m2", "p.a == r.x && r.y == 'b'"}))
	mustAdd(en, []string{"p", "a"})
	good := []fastac.ContextOption{fastac.SetMatcher("m2"), fastac.SetRequestDef("r"), fastac.SetEffector("e"), fastac.SetMatcher("p.a == r.x && r.y != 'c'"), fastac.SetMatcher(nil), fastac.SetEffector("")}
	bad := []fastac.ContextOption{fastac.SetMatcher("p.a =="), fastac.SetMatcher(42), fastac.SetRequestDef("zz"), fastac.SetRequestDef(1.5), fastac.SetEffector(true), fastac.SetMatcher(defs.NewMatcherDef("m", "(p.a")), fastac.SetMatcher("g(r.x, p.a)"), fastac.SetMatcher("p9.a == r.x")}
	params, opts, fails := []interface{}{}, []fastac.ContextOption{}, false
	k := sym.Choose("values first", 3)
	for i := 0; i < pick(2, 3); i++ {
		if i == k {
			params = append(params, "a", "b")
		}
		c := sym.Choose("option"+itoa(i), len(good)+len(bad)+1)
		switch {
		case c < len(good):
			opts = append(opts, good[c])
		case c < len(good)+len(bad):
			opts = append(opts, bad[c-len(good)])
			fails = true
		default:
			continue
		}
		params = append(params, opts[len(opts)-1])
	}
	if k >= pick(2, 3) {
		params = append(params, "a", "b")
	}
	got, err := ask(en, params...)
	sym.Observe("decision", got, err != nil)
	sym.Cover("end")
	sym.Assert((err != nil) == fails, "a malformed option is not reported, or another one is")
	sym.Assert(got == !fails, "a request with a malformed option is allowed, or another one is not")
	ctx, cerr := fastac.NewContext(en.GetModel(), opts...)
	sym.Assert((cerr != nil) == fails && (ctx == nil) == fails, "a malformed option is not reported, or another one is")
	err = en.RangeMatches(params, func([]string) bool { return true })
	sym.Assert((err != nil) == fails, "a malformed option is not reported, or another one is")
}

// C18_gfunction: the function behind g() is called with arguments of any number and type.
func C18_gfunction() {
	rm := rbac.NewRoleManager(10)
	_, _ = rm.AddLink("a", "b")
	dm := rbac.NewDomainManager(10)
	_, _ = dm.AddLink("a", "b", "d")
	var none rbac.IRoleManager
	f := rbac.GenerateGFunction([]rbac.IRoleManager{rm, dm, none}[sym.Choose("manager", 3)])
	args := []interface{}{}
	for i, n := 0, sym.Choose("count", pick(5, 6)); i < n; i++ {
		v := "v" + itoa(i)
		switch sym.Choose("kind"+itoa(i), pick(4, 6)) {
		case 0:
			args = append(args, sym.StrIn(v, "abd", 0, 1))
		case 1:
			args = append(args, nil)
		case 2:
			args = append(args, 1.5)
		case 3:
			args = append(args, []string{"a"})
		case 4:
			args = append(args, true)
		case 5:
			args = append(args, &struct{ Name string }{"a"})
		}
	}
	res, err := f(args...)
	_, isBool := res.(bool)
	sym.Assert(err != nil || isBool, "g() answers with something else than true or false")
	sym.Observe("answer", err != nil, res == true)
	sym.Cover("end")
}
