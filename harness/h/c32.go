package h

import (
	"errors"

	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/fm"
	"github.com/abichinger/fastac/rbac"
)

// call32 is one call of a custom function.
type call32 struct{ args []interface{} }

// log32 records the calls of a custom function with a given result.
type log32 struct {
	calls []call32
	res   func(args []interface{}) (interface{}, error)
}

func (l *log32) fn(args ...interface{}) (interface{}, error) {
	l.calls = append(l.calls, call32{append([]interface{}{}, args...)})
	return l.res(args)
}

// called reports whether there was a call with these arguments.
func called(l *log32, args []interface{}) bool {
	for _, c := range l.calls {
		if sameArgs(c.args, args) {
			return true
		}
	}
	return false
}

func sameArgs(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func yes(args []interface{}) (interface{}, error) { return true, nil }

// use32 is a way to call f with the values it should get for a rule p.a = a, p.b = b and a request r.x = x.
type use32 struct {
	text string
	args func(a, b, x string) []interface{}
}

func uses() []use32 {
	return []use32{
		{"f(r.x)", func(a, b, x string) []interface{} { return []interface{}{x} }},
		{"f(p.a, r.x)", func(a, b, x string) []interface{} { return []interface{}{a, x} }},
		{"f(r.x, p.b, p.a)", func(a, b, x string) []interface{} { return []interface{}{x, b, a} }},
		{"f()", func(a, b, x string) []interface{} { return []interface{}{} }},
		{"f(p.b, 'p.a', 2)", func(a, b, x string) []interface{} { return []interface{}{b, "p.a", 2.0} }},
		{"f(p.a == r.x, p.a + p.b)", func(a, b, x string) []interface{} { return []interface{}{a == x, a + b} }},
		{"f(twice(p.a), r.x)", func(a, b, x string) []interface{} { return []interface{}{a + a, x} }},
		{"f(twice(twice(r.x)))", func(a, b, x string) []interface{} { return []interface{}{x + x + x + x} }},
		{"f(1 + 2 * 3, -1, r.x != p.b && true)", func(a, b, x string) []interface{} { return []interface{}{7.0, -1.0, x != b} }},
		{"f((p.a), ((r.x)))", func(a, b, x string) []interface{} { return []interface{}{a, x} }},
		{"f(p.a == 'a' ? r.x : p.b, 'z')", func(a, b, x string) []interface{} {
			if a == "a" {
				return []interface{}{x, "z"}
			}
			return []interface{}{b, "z"}
		}},
		{"f(true, false)", func(a, b, x string) []interface{} { return []interface{}{true, false} }},
	}
}

func twice(args ...interface{}) (interface{}, error) {
	s, ok := args[0].(string)
	if !ok || len(args) != 1 {
		return nil, errors.New("twice: wrong arguments")
	}
	return s + s, nil
}

// model32 is a model with two functions.
func model32(l *log32, matcher string) *model.Model {
	m := model.NewModel()
	m.SetFunction("f", l.fn)
	m.SetFunction("twice", twice)
	for _, d := range []def{{'r', "r", "x"}, {'p', "p", "a, b"}, {'e', "e", someAllow}, {'m', "m", matcher}} {
		sym.Assert(m.SetDef(d.sec, d.key, d.val) == nil, "a definition is rejected")
	}
	sym.Assert(m.BuildMatchers() == nil, "a matcher which uses a custom function is rejected")
	return m
}

// C32_arguments: every use of a function gets exactly the evaluated arguments, wherever it stands in the matcher.
func C32_arguments() {
	us := uses()
	u := us[sym.Choose("use", len(us))]
	l := &log32{res: yes}
	forms := []string{"%", "% && p.b != 'z'", "p.a != 'z' && %", "p.a == 'z' || %", "!(!%)", "% == true", "(p.a != 'z' && p.b != 'z') && (p.a == 'z' || %)"}
	text := forms[sym.Choose("place", len(forms))]
	en := newEnforcer(model32(l, replaceAll(text, "%", u.text)))
	rules := [][]string{{"p", sym.StrIn("a0", "ab", 1, 1), sym.StrIn("b0", "ab", 1, 1)}, {"p", "a", "b"}}
	mustAdd(en, rules[0])
	if !eqRule(rules[0], rules[1]) {
		mustAdd(en, rules[1])
	}
	x := sym.StrIn("x", "ab", 1, 1)
	got := mustFilter(en, x)
	sym.Cover("end")
	sym.Assert(sameRules(got, distinct(rules)), "the result of a function is not used")
	for _, r := range rules {
		sym.Assert(called(l, u.args(r[1], r[2], x)), "a function is not called with the arguments of its use")
	}
	for _, c := range l.calls {
		sym.Assert(sameArgs(c.args, u.args(rules[0][1], rules[0][2], x)) || sameArgs(c.args, u.args(rules[1][1], rules[1][2], x)), "a function gets other arguments")
	}
	l.calls = nil
	sym.Assert(mustEnforce(en, x), "the result of a function is not used")
	for _, c := range l.calls {
		sym.Assert(sameArgs(c.args, u.args(rules[0][1], rules[0][2], x)) || sameArgs(c.args, u.args(rules[1][1], rules[1][2], x)), "a function gets other arguments")
	}
}

// C32_values: request values of any type reach the function as they are.
func C32_values() {
	type thing struct{ Name string }
	v := []interface{}{"s", true, false, 1.5, nil, &thing{"n"}}[sym.Choose("value", 6)]
	l := &log32{res: yes}
	k := sym.Choose("matcher", 3)
	if v == nil && k != 2 {
		sym.Stop() // govaluate calls a function without arguments if the only one is nil
	}
	en := newEnforcer(model32(l, []string{"f(r.x)", "p.a == 'a' && f(r.x)", "f(r.x, p.a)"}[k]))
	mustAdd(en, []string{"p", "a", "b"})
	sym.Assert(mustEnforce(en, v), "the result of a function is not used")
	sym.Cover("end")
	sym.Assert(len(l.calls) > 0, "a function is not called")
	for _, c := range l.calls {
		sym.Assert(len(c.args) > 0 && c.args[0] == v, "a function gets other arguments")
	}
}

// C32_results: whatever a function returns is the value of the call, and an error fails the request.
func C32_results() {
	k := sym.Choose("result", 7)
	errF := errors.New("f failed")
	l := &log32{res: func(args []interface{}) (interface{}, error) {
		switch k {
		case 0:
			return true, nil
		case 1:
			return false, nil
		case 2:
			return "a", nil
		case 3:
			return 1.0, nil
		case 4:
			return nil, errF
		case 5:
			return true, errF
		}
		return args[0], nil
	}}
	a, x := sym.StrIn("a", "ab", 1, 1), sym.StrIn("x", "ab", 1, 1)
	texts := []string{"f(r.x) == p.a", "f(r.x) == 1", "f(r.x) == true", "f(r.x) && p.b == 'b'", "p.b == 'b' && !f(r.x)", "f(r.x) in ('a', 1)", "f(r.x) ? p.a == 'a' : p.a == 'b'", "p.b == 'b' || f(r.x)", "p.b == 'c' || f(r.x)", "p.b == 'c' && f(r.x)"}
	i := sym.Choose("matcher", len(texts))
	en := newEnforcer(model32(l, texts[i]))
	mustAdd(en, []string{"p", a, "b"})
	got, err := en.Enforce(x)
	sym.Cover("end")
	fails := k == 4 || k == 5
	isBool := k < 2
	switch i {
	case 0, 1, 2, 5:
		sym.Assert((err != nil) == fails, "the error of a function is not reported, or an error without one")
		if fails {
			break
		}
		want := false
		switch {
		case i == 0:
			want = k == 2 && a == "a" || k == 6 && x == a
		case i == 1:
			want = k == 3
		case i == 2:
			want = k == 0
		case i == 5:
			want = k == 2 || k == 3 || k == 6 && x == "a"
		}
		sym.Assert(got == want, "the result of a function is not used")
	case 3, 4, 6, 8:
		sym.Assert((err != nil) == !isBool, "a function which returns no bool, or fails, is not reported")
		if isBool {
			want := k == 0
			if i == 4 {
				want = k == 1
			} else if i == 6 {
				want = (k == 0) == (a == "a")
			}
			sym.Assert(got == want, "the result of a function is not used")
		}
	case 7:
		sym.Assert(err != nil || got, "an alternative is lost")
		sym.Assert(err == nil || !isBool, "an error without a failing function")
	case 9:
		sym.Assert(!got, "the result of a function is not used")
		sym.Assert(err == nil || !isBool, "an error without a failing function")
	}
	sym.Assert(err != errF || fails, "an error without a failing function")
	sym.Assert(!got || err == nil, "a request is allowed although it failed")
}

// give is a function with a fixed result.
func give(b bool) func(args ...interface{}) (interface{}, error) {
	return func(args ...interface{}) (interface{}, error) { return b, nil }
}

// C32_registration: registering, replacing and removing functions on two models, for matchers built before or after, and matchers in requests.
func C32_registration() {
	name := []string{"f", "g2", "pathMatch", "isOwner"}[sym.Choose("name", 4)]
	text := name + "(r.x, p.a)"
	state := [2]int{0, 0} // 0 false, 1 true, 2 removed
	var ms [2]*model.Model
	var ens [2]*fastac.Enforcer
	for i := range ms {
		m := model.NewModel()
		m.SetFunction(name, give(false))
		for _, d := range []def{{'r', "r", "x"}, {'p', "p", "a"}, {'e', "e", someAllow}, {'m', "m", text}, {'m', "m2", "p.a == r.x && (p.a == 'z' || " + text + ")"}} {
			sym.Assert(m.SetDef(d.sec, d.key, d.val) == nil, "a definition is rejected")
		}
		sym.Assert(m.BuildMatchers() == nil, "a matcher which uses a custom function is rejected")
		ms[i], ens[i] = m, newEnforcer(m)
		mustAdd(ens[i], []string{"p", "a"})
	}
	for i := 0; i < pick(2, 3); i++ {
		n := itoa(i)
		k := sym.Choose("model"+n, 2)
		switch sym.Choose("operation"+n, 4) {
		case 0:
			ms[k].SetFunction(name, give(true))
			state[k] = 1
		case 1:
			ms[k].SetFunction(name, give(false))
			state[k] = 0
		case 2:
			sym.Assert(ms[k].RemoveFunction(name) == (state[k] != 2), "RemoveFunction reports the wrong result")
			sym.Assert(!ms[k].RemoveFunction("nothing"), "RemoveFunction reports the wrong result")
			state[k] = 2
		case 3:
			err := ms[k].BuildMatchers()
			sym.Assert((err != nil) == (state[k] == 2), "building a matcher reports the wrong result")
			if err != nil {
				sym.Stop()
			}
		}
		if sym.Bool("use" + n) {
			_, _ = ens[k].Enforce("a")
		}
	}
	for k, en := range ens {
		for _, mm := range []string{"m", "m2", text} {
			got, err := en.Enforce(fastac.SetMatcher(mm), "a")
			sym.Assert((err != nil) == (state[k] == 2), "a matcher uses a function that was removed, or misses one")
			sym.Assert(got == (state[k] == 1), "a matcher does not use the function registered on its model")
		}
	}
	sym.Cover("end")
}

// C32_rule_text: text evaluated from a rule field means what it means as part of the matcher.
func C32_rule_text() {
	l := &log32{res: func(args []interface{}) (interface{}, error) {
		if len(args) == 2 && args[0] == "e" {
			return nil, errors.New("f failed")
		}
		return len(args) == 2 && args[0] == args[1], nil
	}}
	texts := []string{"f(r.x, p.b)", "p.b == r.x", "!f(r.x, 'a')", "f(twice(r.x), twice(p.b)) || r.x == 'b'", "f(p.b, r.x) && p.b != 'b'", "unknown(r.x)", "r.z == 'a'", "r.x", "p.b ==", "p.b in ('a', r.x)", "f(r.x, 'p.b')", "pathMatch(r.x, p.b)"}
	text := texts[sym.Choose("text", len(texts))]
	form := []string{"eval(p.a)", "p.b != 'z' && eval(p.a)", "p.b == 'z' || eval(p.a)", "eval(p.a) && p.b != 'z'", "(p.b == 'z' || eval(p.a)) && true"}[sym.Choose("form", 5)]
	b, x := sym.StrIn("b", "ab", 1, 1), sym.StrIn("x", "abe", 1, 1)
	en := newEnforcer(model32(l, form))
	mustAdd(en, []string{"p", text, b})
	got, err := en.Enforce(x)
	direct := model.NewModel()
	direct.SetFunction("f", l.fn)
	direct.SetFunction("twice", twice)
	for _, d := range []def{{'r', "r", "x"}, {'p', "p", "a, b"}, {'e', "e", someAllow}} {
		sym.Assert(direct.SetDef(d.sec, d.key, d.val) == nil, "a definition is rejected")
	}
	en2 := newEnforcer(direct)
	mustAdd(en2, []string{"p", text, b})
	want, err2 := en2.Enforce(fastac.SetMatcher("("+text+") && true"), x)
	sym.Observe("decision", got)
	sym.Cover("end")
	if text == "r.x" && form == "eval(p.a)" {
		// a matcher which is no bool matches nothing
		sym.Assert(err == nil && !got, "a matcher which is no bool matches")
		return
	}
	sym.Assert((err == nil) == (err2 == nil), "rule text fails, or does not, unlike the same text in a matcher: "+text)
	sym.Assert(got == want, "rule text means something else than the same text in a matcher: "+text)
}

// C32_rule_texts: each rule is decided by its own text, and functions are those registered at the time.
func C32_rule_texts() {
	l := &log32{res: func(args []interface{}) (interface{}, error) { return args[0] == args[1], nil }}
	m := model32(l, []string{"eval(p.a)", "eval(p.a) && p.b != 'z'", "p.b == 'z' || eval(p.a)"}[sym.Choose("form", 3)])
	en := newEnforcer(m)
	texts := []string{"f(r.x, p.b)", "h(r.x)", "r.x == 'c'", "eval('f(r.x, p.b)')"}
	rules := [][]string{}
	for i := 0; i < pick(2, 3); i++ {
		r := []string{"p", texts[sym.Choose("text"+itoa(i), len(texts))], sym.StrIn("b"+itoa(i), "ab", 1, 1)}
		rules = append(rules, r)
		_, err := en.AddRule(r)
		sym.Assert(err == nil, "AddRule fails")
	}
	x := sym.StrIn("x", "abc", 1, 1)
	h := sym.Bool("h")
	if h {
		m.SetFunction("h", give(true))
	}
	got, err := en.Filter(x)
	sym.Cover("end")
	want, fails := [][]string{}, false
	for _, r := range distinct(rules) {
		switch r[1] {
		case texts[0], texts[3]:
			if r[2] == x {
				want = append(want, r)
			}
		case texts[1]:
			fails = fails || !h
			want = append(want, r)
		case texts[2]:
			if x == "c" {
				want = append(want, r)
			}
		}
	}
	sym.Assert((err != nil) == fails, "an unknown function in rule text is not reported, or an error without one")
	if !fails {
		sym.Assert(sameRules(got, want), "a rule is decided by something else than its text")
	}
}

// C32_nested: a function which asks the enforcer itself does not disturb the request it is called in.
func C32_nested() {
	m := model.NewModel()
	var en *fastac.Enforcer
	m.SetFunction("allowed", func(args ...interface{}) (interface{}, error) {
		return en.Enforce(fastac.SetMatcher("m2"), args[0])
	})
	forms := []string{"allowed(p.a) && p.b == r.x", "p.b == r.x && allowed(p.a)", "p.b == r.x && (p.a == 'z' || allowed(p.a))"}
	for _, d := range []def{{'r', "r", "x"}, {'p', "p", "a, b"}, {'p', "p2", "c"}, {'e', "e", someAllow}, {'m', "m", forms[sym.Choose("form", len(forms))]}, {'m', "m2", "p2.c == r.x && eval('r.x == p2.c')"}} {
		sym.Assert(m.SetDef(d.sec, d.key, d.val) == nil, "a definition is rejected")
	}
	sym.Assert(m.BuildMatchers() == nil, "a matcher which uses a custom function is rejected")
	en = newEnforcer(m)
	rules := [][]string{{"p", sym.StrIn("a0", "cd", 1, 1), sym.StrIn("b0", "ab", 1, 1)}, {"p", "d", "b"}}
	c := sym.StrIn("c", "cd", 1, 1)
	for _, r := range distinct(rules) {
		mustAdd(en, r)
	}
	mustAdd(en, []string{"p2", c})
	x := sym.StrIn("x", "ab", 1, 1)
	want := [][]string{}
	for _, r := range distinct(rules) {
		if r[1] == c && r[2] == x {
			want = append(want, r)
		}
	}
	got := mustFilter(en, x)
	sym.Cover("end")
	sym.Assert(sameRules(got, want), "a function which makes a request disturbs the request it is called in")
	sym.Assert(mustEnforce(en, x) == (len(want) > 0), "a function which makes a request disturbs the request it is called in")
}

// C32_global: a function registered for all models is in those created afterwards.
func C32_global() {
	fm.SetFunction("everywhere", give(true))
	m := model.NewModel()
	fm.SetFunction("everywhere", give(false))
	m2 := model.NewModel()
	local := sym.Bool("local")
	if local {
		m2.SetFunction("everywhere", give(true))
	}
	removed := sym.Bool("removed")
	if removed {
		m.RemoveFunction("everywhere")
	}
	m3 := model.NewModel()
	for i, mm := range []*model.Model{m, m2, m3} {
		for _, d := range []def{{'r', "r", "x"}, {'p', "p", "a"}, {'e', "e", someAllow}} {
			sym.Assert(mm.SetDef(d.sec, d.key, d.val) == nil, "a definition is rejected")
		}
		en := newEnforcer(mm)
		mustAdd(en, []string{"p", "a"})
		got, err := en.Enforce(fastac.SetMatcher("everywhere() && p.a == r.x"), "a")
		sym.Assert((err != nil) == (i == 0 && removed), "a function registered for all models is missing")
		sym.Assert(got == (err == nil && (i == 0 || i == 1 && local)), "a model uses another function than the one it was created with")
	}
	sym.Cover("end")
}

// C32_eval_registration: rule text uses the functions of its model at the time of the decision, whatever was decided before.
func C32_eval_registration() {
	form := []string{"eval(p.a)", "p.b == r.x && eval(p.a)", "eval(p.a) || r.x == 'z'", "eval(p.a) && p.b == r.x"}[sym.Choose("form", 4)]
	text := []string{"f(r.x, p.b)", "f(p.b, 'a') && r.x != 'z'", "eval('f(r.x)')"}[sym.Choose("text", 3)]
	m := model.NewModel()
	m.SetFunction("f", give(true))
	for _, d := range []def{{'r', "r", "x"}, {'p', "p", "a, b"}, {'e', "e", someAllow}, {'m', "m", form}} {
		sym.Assert(m.SetDef(d.sec, d.key, d.val) == nil, "a definition is rejected")
	}
	sym.Assert(m.BuildMatchers() == nil, "a matcher is rejected")
	en := newEnforcer(m)
	mustAdd(en, []string{"p", text, "a"})
	state := 1 // 0 false, 1 true, 2 removed, 3 an error
	errF := errors.New("f failed")
	ask := func() {
		by := []interface{}{"a"}
		if sym.Bool("text of the request") {
			by = []interface{}{fastac.SetMatcher(form), "a"}
		}
		got, err := en.Enforce(by...)
		sym.Assert((err != nil) == (state >= 2), "rule text uses a function that was removed, or misses one: "+form)
		sym.Assert(got == (state == 1), "rule text does not use the function registered on its model: "+form)
	}
	for i := 0; i < pick(2, 3); i++ {
		ask()
		switch sym.Choose("operation"+itoa(i), 5) {
		case 0:
			m.SetFunction("f", give(true))
			state = 1
		case 1:
			m.SetFunction("f", give(false))
			state = 0
		case 2:
			m.RemoveFunction("f")
			state = 2
		case 3:
			m.SetFunction("f", func(args ...interface{}) (interface{}, error) { return nil, errF })
			state = 3
		case 4:
			en.RemoveRule([]string{"p", text, "a"})
			mustAdd(en, []string{"p", text, "a"})
		}
	}
	ask()
	sym.Cover("end")
}

// C32_eval_links: rule text asks the links of the role manager in use, as they are at the time of the decision.
func C32_eval_links() {
	form := []string{"eval(p.a)", "p.b == 'b' && eval(p.a)"}[sym.Choose("form", 2)]
	text := []string{"g(r.x, p.b)", "g(p.b, r.x)", "r.x == 'z' || g(r.x, p.b)"}[sym.Choose("text", 3)]
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a, b"}, def{'g', "g", "_, _"}, def{'e', "e", someAllow}, def{'m', "m", form})
	en := newEnforcer(m)
	mustAdd(en, []string{"p", text, "b"})
	links := map[string]bool{}
	ask := func() {
		x := sym.StrIn("x", "ab", 1, 1)
		want := x == "b" || links[x+"b"]
		if text == "g(p.b, r.x)" {
			want = x == "b" || links["b"+x]
		}
		sym.Assert(mustEnforce(en, x) == want, "rule text does not follow the links: "+form)
	}
	for i := 0; i < pick(2, 3); i++ {
		ask()
		switch sym.Choose("operation"+itoa(i), 4) {
		case 0:
			mustAdd(en, []string{"g", "a", "b"})
			links["ab"] = true
		case 1:
			mustAdd(en, []string{"g", "b", "a"})
			links["ba"] = true
		case 2:
			_, err := en.RemoveRule([]string{"g", "a", "b"})
			sym.Assert(err == nil, "RemoveRule fails")
			delete(links, "ab")
		case 3:
			m.SetRoleManager("g", rbac.NewRoleManager(10))
			links = map[string]bool{}
			sym.Assert(m.BuildMatchers() == nil, "the matchers cannot be built again")
		}
	}
	ask()
	sym.Cover("end")
}
