package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
)

// staged gives the forms in which an expression is divided into stages and alternatives.
func staged(x string) []string {
	return []string{"(" + x + ") && true", "true && (" + x + ")", "(" + x + ") || false", "false || (" + x + ")",
		"((" + x + ") && p.a != 'zz') || false", "(true && (" + x + ")) && (true || r.x == 'zz')", "p.a == 'zz' || (p.a != 'zz' && (" + x + "))"}
}

// form chooses one of them.
func form(x string) string {
	fs := staged(x)
	if !sym.Thorough() {
		fs = []string{fs[0], fs[3], fs[6]}
	}
	return fs[sym.Choose("form", len(fs))]
}

// literalEnforcer decides requests x, y against one rule with field a.
func literalEnforcer(text, a string) *fastac.Enforcer {
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", text}))
	mustAdd(en, []string{"p", a})
	return en
}

// means checks that an expression holds exactly if want says so, as a whole and in stages.
func means(x, a string, want bool, req ...interface{}) {
	text := x
	if sym.Bool("staged") {
		text = form(x)
	}
	en := literalEnforcer(text, a)
	got, err := en.Enforce(req...)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(err == nil, "a well-formed matcher fails: "+text)
	sym.Assert(got == want, "the matcher means something else: "+text)
}

// C23_literal: string literals which look like fields, keys, operators or anything else.
func C23_literal() {
	lit := sym.StrIn("literal", []string{"pr.2_a", "g.a[ ]", "&|?:()", "01-:. "}[sym.Choose("characters", 4)], 0, pick(3, 4))
	quote := []string{"'", "\""}[sym.Choose("quote", 2)]
	v := lit
	if sym.Bool("other") {
		v = []string{"r_x", "p_a", "p.a", "true"}[sym.Choose("value", 4)]
	}
	means("r.x == "+quote+lit+quote, "b", v == lit, v, "c")
}

// C23_fields: literals which are the text of fields, in the company of these fields.
func C23_fields() {
	lits := []string{"p.a", "p_a", "r.x", "r_x", "[p.a]", "r.y == b", "g.user", "p2.a", "p.a == r.x"}
	lit := lits[sym.Choose("literal", len(lits))]
	a, x := sym.StrIn("a", "ab", 1, 1), sym.StrIn("x", "ab", 1, 1)
	v := lit
	if sym.Bool("underscore") {
		v = "r_y"
	}
	switch sym.Choose("matcher", 4) {
	case 0:
		means("r.y == '"+lit+"' && p.a == r.x", a, v == lit && a == x, x, v)
	case 1:
		means("p.a == r.x && \""+lit+"\" != r.y", a, v != lit && a == x, x, v)
	case 2:
		means("p.a == '"+lit+"' || r.y == p.a", a, a == v, x, v)
	case 3:
		means("r.y in ('"+lit+"', p.a, \"z\")", a, v == lit || v == a, x, v)
	}
}

// C23_escapes: quotes, backslashes and line breaks in literals.
func C23_escapes() {
	v := sym.StrIn("value", "a'\"\\\nn", 0, pick(2, 3))
	text := ""
	for i := 0; i < len(v); i++ {
		if v[i] == '\'' || v[i] == '"' || v[i] == '\\' || sym.Bool("escape"+itoa(i)) {
			text += "\\"
		}
		text += v[i : i+1]
	}
	x := v
	if sym.Bool("other") {
		x = sym.StrIn("x", "a'\"\\\n", 0, 2)
	}
	quote := []string{"'", "\""}[sym.Choose("quote", 2)]
	means("r.x == "+quote+text+quote, "b", x == v, x, "")
}

// C23_bytes: any byte in a literal.
func C23_bytes() {
	v := sym.Str("v", 0, pick(1, 2))
	for i := 0; i < len(v); i++ {
		sym.Assume(v[i] != '\'' && v[i] != '"' && v[i] != '\\' && v[i] < 0x80)
	}
	x := sym.Str("x", 0, pick(1, 2))
	means("r.x == '"+v+"' && p.a == 'b'", "b", x == v, x, "")
}

// C23_unicode: literals and values beyond ASCII.
func C23_unicode() {
	words := []string{"é", "日本", "p.é", "\u2028", "🙂", "r.日", "e\u0301", "\u00a0", "ß'"[:2]}
	v, x := words[sym.Choose("v", len(words))], words[sym.Choose("x", len(words))]
	means("r.x == '"+v+"' && p.a == \"日\"", "日", x == v, x, "")
}

// C23_dates: literals that look like dates mean in stages what they mean in the whole text.
func C23_dates() {
	dates := []string{"2014-01-02", "2014-01-02 10:20", "2014-01-02 10:20:30", "2014-01-02T10:20:30Z", "Jan  2 10:20:30", "Monday, 02-Jan-06 15:04:05 MST",
		"3:04PM", "2014", "10:20", "2014-13-40", "02 Jan 06 15:04 MST", "2014-01-02 10:20:30-0700", "2014-01-02 10"}
	d := dates[sym.Choose("date", len(dates))]
	var x interface{} = d
	switch sym.Choose("value", 4) {
	case 1:
		x = float64(1388620800)
	case 2:
		x = "2014-01-02"
	case 3:
		x = 1e12
	}
	ops := []string{"==", "!=", "<", ">="}
	op := ops[sym.Choose("operator", len(ops))]
	same("r.x "+op+" '"+d+"'", x, "2014-01-03")
}

// same checks that an expression means in stages what it means as a whole.
func same(x string, req ...interface{}) {
	// a conditional is not divided
	whole, werr := literalEnforcerFails("("+x+") ? true : false", "b")
	split, serr := literalEnforcerFails(form(x), "b")
	if werr != nil {
		return // not an expression
	}
	sym.Assert(serr == nil, "an expression cannot be divided: "+x)
	want, err := whole.Enforce(req...)
	got, err2 := split.Enforce(req...)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert((err == nil) == (err2 == nil), "an expression fails only as a whole or only in stages: "+x)
	if err == nil {
		sym.Assert(got == want, "an expression means something else in stages: "+x)
	}
}

func literalEnforcerFails(text, a string) (*fastac.Enforcer, error) {
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", "a"}, def{'e', "e", someAllow})
	if err := m.SetDef('m', "m", text); err != nil {
		return nil, err
	}
	if err := m.BuildMatchers(); err != nil {
		return nil, err
	}
	en := newEnforcer(m)
	mustAdd(en, []string{"p", a})
	return en, nil
}

// C23_numbers: number literals of every form.
func C23_numbers() {
	num := sym.StrIn("number", "0x1f.", 1, pick(4, 5))
	vals := []interface{}{0.0, 1.0, 1, 15.0, 0.1, 31, 1.1}
	same("r.x == "+num, vals[sym.Choose("value", len(vals))], "")
}

// C23_large: large, small and exact numbers.
func C23_large() {
	nums := []string{"1000000", "123456789", "9007199254740993", "1000000000000000000000000", "0.0000001", "0.1", "0.30000000000000004", "-1.5", "0xFFFFFFFF", "1.", ".5", "00", "- 3", "-0"}
	vals := []interface{}{1000000, 123456789.0, 9007199254740993.0, 1e24, 1e-7, 0.1, 0.30000000000000004, -1.5, 4294967295.0, 1.0, 0.5, 0, -3}
	v := vals[sym.Choose("value", len(vals))]
	same("r.x "+[]string{"==", "<", ">="}[sym.Choose("operator", 3)]+" "+nums[sym.Choose("number", len(nums))], v, "")
}

// C23_operators: every operator between every kind of operands.
func C23_operators() {
	ops := []string{"+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "=~", "!~", "??", "in"}
	op := ops[sym.Choose("operator", len(ops))]
	vals := []interface{}{2.0, 3, "a", true, "3"}
	x, y := vals[sym.Choose("x", len(vals))], vals[sym.Choose("y", len(vals))]
	e := "r.x " + op + " r.y"
	switch op {
	case "in":
		e = "r.x in (r.y, 2, 'a')"
	case "==", "!=", "<", ">", "<=", ">=", "=~", "!~":
	default:
		e = []string{"(" + e + ") == 5", "8 == " + e, "r.x == (" + e + ")", e + " != 'aa'"}[sym.Choose("result", 4)]
	}
	same(e, x, y)
}

// C23_prefixes: prefix operators and conditionals.
func C23_prefixes() {
	es := []string{"-r.x == r.y", "-2 == r.x", "r.x - -r.y == 4", "!(r.x == r.y)", "!r.x", "~r.x == -3", "!!r.x", "!(!(r.x == r.y))", "-(r.x + r.y) < 0", "r.x -r.y == 0", "r.x ? r.y : false",
		"(r.x == 2 ? r.y : 3) == 2", "true ? false : true", "(r.x ?? r.y) == 2", "r.x == 2 ? (r.y == 2 ? true : false) : true", "!false", "(r.x ? 'p.a' : \"r.x\") == 'p.a'", "[r.x] == [r.y]", "[r.x]==2", "r.x=='p.a'"}
	vals := []interface{}{2.0, 2, true, "p.a", false}
	x, y := vals[sym.Choose("x", len(vals))], vals[sym.Choose("y", len(vals))]
	same(es[sym.Choose("expression", len(es))], x, y)
}

type inner struct {
	Name string
	P2   string
	R    *inner
}

func (i *inner) Get(s string) string { return i.Name + s }

type outer struct {
	P   inner
	R   *inner
	G   string
	X_a string
	P_a string
}

func (o outer) P_b(a, b string) string { return b + a }

// C23_attributes: nested attributes and methods whose names look like fields.
func C23_attributes() {
	v := sym.StrIn("v", "ab", 1, 1)
	deep := &inner{Name: sym.StrIn("d", "ab", 1, 1), P2: "d2"}
	o := outer{P: inner{Name: "n", P2: v}, R: &inner{Name: v, P2: "q", R: deep}, G: v, X_a: v, P_a: "x"}
	a := sym.StrIn("a", "ab", 1, 1)
	for _, c := range []struct {
		text string
		want bool
	}{
		{"r.x.P.P2 == p.a", v == a}, {"p.a == r.x.R.Name", v == a}, {"r.x.R.R.Name == p.a && r.x.P.Name == 'n'", deep.Name == a}, {"r.x.G == p.a", v == a},
		{"r.x.X_a == p.a", v == a}, {"r.x.P_a == 'x' && p.a == 'a'", a == "a"}, {"'aa' == r.x.R.Get(p.a) && true", v == "a" && a == "a"},
		{"(r.x.P_b(p.a, r.y)) == 'ya'", a == "a"}, {"r.y == 'y' && (r.x.R.P2 == 'q' || false) && 'r.yp.a' == r.x.P_b('p.a', \"r.y\")", true},
	} {
		for i, text := range append([]string{c.text}, staged(c.text)[:4]...) {
			got, err := literalEnforcer(text, a).Enforce(o, "y")
			if err != nil {
				sym.Fail("a well-formed matcher fails: " + text + ": " + err.Error())
			}
			sym.Assert(got == c.want, "an attribute means something else: "+text+itoa(i))
		}
	}
	sym.Cover("end")
}

// C23_functions: functions of any name.
func C23_functions() {
	name := []string{"p", "r", "g", "f", "R2"}[sym.Choose("first", 5)] + sym.StrIn("name", "pr2_g", 0, pick(2, 3))
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", "a"}, def{'e', "e", someAllow})
	var got []interface{}
	m.SetFunction(name, func(args ...interface{}) (interface{}, error) {
		got = args
		return args[0] == args[1], nil
	})
	calls := []string{name + "(p.a, r.x)", name + "(r.x, p.a) && " + name + "(p.a, r.x)", "r.y == '" + name + "(p.a' && " + name + "(p.a, r.x)", "(" + name + " (p.a,r.x) || false) && true"}
	k := sym.Choose("call", len(calls))
	sym.Assert(m.SetDef('m', "m", calls[k]) == nil && m.BuildMatchers() == nil, "a matcher with a function cannot be built: "+calls[k])
	en := newEnforcer(m)
	a, x := sym.StrIn("a", "ab", 1, 1), sym.StrIn("x", "ab", 1, 1)
	mustAdd(en, []string{"p", a})
	ok, err := en.Enforce(x, name+"(p.a")
	sym.Cover("end")
	sym.Assert(err == nil, "a well-formed matcher fails: "+calls[k])
	sym.Assert(ok == (a == x), "a function means something else: "+calls[k])
	if k == 1 && a != x {
		a, x = x, a // only the first call is made
	}
	sym.Assert(len(got) == 2 && got[0] == a && got[1] == x, "a function gets other arguments")
}

// C23_words: literals made of words and signs that mean something elsewhere: in other languages, in model texts, in matchers.
func C23_words() {
	words := []string{"or", "and", "not", "in", "nil", "null", "true", "false", "AND", "eq", "is", "like", "&&", "||", "==", "=", "!=", "=~", "??", "? 1 : 2", "!", ",", "p.a", "r.x", "r", "p_", "g(r.x, p.a)", "eval(p.a)",
		"p.a == r.x", "//", "/*", "*/", "--", "#", ";", "#x", "%s", "%(a)s", "%", "$a", "${a}", "{", "}", "[p.a]", "[r", "]", "m", "[matchers]", "allow", "some(where (p.eft == allow))", "keyMatch", "\t", "  ", "<", ">", "&lt;", "%20", "+", "\\\\", "\\'"}
	n := pick(44, len(words))
	w := words[sym.Choose("word", n)]
	lit := w
	switch sym.Choose("around", 4) {
	case 0:
		lit = sym.StrIn("before", []string{" (", " ax("}[pick(0, 1)], 1, 1) + w + sym.StrIn("after", []string{" )", " ax)"}[pick(0, 1)], 1, 1)
	case 1:
		lit = "a " + w + " b"
	case 2:
		lit = " " + w + words[sym.Choose("second", pick(4, n))]
	}
	quote := []string{"'", "\""}[sym.Choose("quote", 2)]
	v := lit
	if w == "\\\\" || w == "\\'" {
		return // C23_escapes
	}
	if sym.Bool("other") {
		v = []string{w, "a  b", "b", "a && b"}[sym.Choose("value", 4)]
	}
	means("r.x == "+quote+lit+quote, "b", v == lit, v, "c")
}
