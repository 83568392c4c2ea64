package h

import (
	"fvh/sym"
	"strings"

	"github.com/abichinger/fastac/model"
)

// relisted prints a model, loads the text into a new model and compares what both print.
func relisted(m *model.Model) *model.Model {
	text := m.String()
	m2 := model.NewModel()
	if err := m2.LoadModelFromText(text); err != nil {
		sym.Fail("the printed model cannot be loaded: " + err.Error())
	}
	sym.Assert(m2.String() == text, "printing the loaded model gives another text")
	return m2
}

func literalModel(v string) *model.Model {
	return newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", "r.x == '" + v + "'"})
}

// sameDecision compares the decisions of two models about a request.
func sameDecision(m, m2 *model.Model, params ...interface{}) {
	ok, err := newEnforcer(m).Enforce(params...)
	ok2, err2 := newEnforcer(m2).Enforce(params...)
	sym.Observe("allowed", ok)
	sym.Cover("decided")
	sym.Assert((err == nil) == (err2 == nil) && ok == ok2, "the loaded model decides otherwise")
}

// C21_byte: an arbitrary byte in a literal of a matcher.
func C21_byte() {
	v := sym.Str("v", 0, pick(1, 2))
	for i := 0; i < len(v); i++ {
		sym.Assume(v[i] != '\'' && v[i] != '"' && v[i] != '\\')
	}
	m := literalModel(v)
	sameDecision(m, relisted(m), sym.Str("x", 0, 2))
}

// C21_literal: literals with the characters that have a meaning in model files.
func C21_literal() {
	v := sym.StrIn("v", "#;`\n =", 0, pick(3, 4))
	m := literalModel(v)
	m2 := relisted(m)
	sameDecision(m, m2, v)
	sameDecision(m, m2, sym.StrIn("x", "#`\n ", 0, 2))
}

// C21_variable: literals with references to other keys, as the ini format has them.
func C21_variable() {
	v := "%" + sym.StrIn("v", "%(x)s", pick(2, 3), pick(4, 5))
	m := literalModel(v)
	m2 := relisted(m)
	sameDecision(m, m2, v)
	sameDecision(m, m2, sym.StrIn("x", "%(x", 0, 2))
}

// C21_start: matchers which start or end with what the ini format takes for quotes or continuations.
func C21_start() {
	a, b := sym.StrIn("a", "ab", 0, 2), sym.StrIn("b", "#;` b", 0, 2)
	lit := func(s string) string { return "'" + s + "'" }
	if sym.Bool("double") {
		lit = func(s string) string { return "\"" + s + "\"" }
	}
	exprs := []string{
		lit(b) + " == r.x && r.x != " + lit(a),
		lit(a) + " == r.x || r.x == " + lit(b),
		"(r.x == " + lit(b) + ")",
		"  r.x == " + lit(b) + "  ",
		lit(b) + "==r.x",
		"!(r.x == " + lit(b) + ")",
		"r.x == " + lit(b) + " ? true : r.x == " + lit(a),
		"r.x == " + lit(b) + "\n&& p.a == 'a'",
		"r.x ==\n" + lit(b),
		"r.x in ('a', " + lit(b) + ")",
		"r.x =~ " + lit("[") + " || true",
	}
	k := sym.Choose("expression", len(exprs)-1)
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", exprs[k]})
	m2 := relisted(m)
	_, _ = m.AddRule([]string{"p", "a"})
	_, _ = m2.AddRule([]string{"p", "a"})
	sameDecision(m, m2, sym.StrIn("x", "a#` b", 0, 2))
}

// argsOf returns the fields of a policy definition.
func argsOf(m *model.Model, key string) []string {
	p, ok := m.GetPolicy(key)
	if !ok {
		sym.Fail("a policy definition is lost")
	}
	return p.(interface{ GetArgs() []string }).GetArgs()
}

// C21_args: arbitrary names in the argument lists of policies and requests.
func C21_args() {
	a, b := sym.Str("a", 0, 1), sym.StrIn("b", "a#;`\"'=%.", 0, 2)
	if sym.Bool("swap") {
		a, b = b, a
	}
	m := model.NewModel()
	list := a + ", " + b
	switch sym.Choose("shape", 3) {
	case 1:
		list = "x," + a + "," + b + ",y"
	case 2:
		list = b
	}
	sec, key := byte('p'), "p"
	if sym.Bool("request") {
		sec, key = 'r', "r"
	}
	sym.Assume(m.SetDef(sec, key, list) == nil)
	m2 := relisted(m)
	sym.Cover("end")
	if sec == 'p' {
		sym.Assert(eqRule(argsOf(m, key), argsOf(m2, key)), "fields of a policy definition are changed")
		return
	}
	d, ok := m.GetRequestDef(key)
	d2, ok2 := m2.GetRequestDef(key)
	sym.Assert(ok && ok2, "a request definition is lost")
	vals := []interface{}{0, 1, 2, 3}
	for _, name := range []string{a, b, "x", "y"} {
		for _, n := range strings.Split(strings.ReplaceAll(name, " ", ""), ",") {
			v, err := d.GetParameter(vals, "r_"+n)
			v2, err2 := d2.GetParameter(vals, "r_"+n)
			sym.Assert((err == nil) == (err2 == nil) && v == v2, "fields of a request definition are changed")
		}
	}
}

// C21_sections: any number of definitions in every section, under any keys.
func C21_sections() {
	m := model.NewModel()
	n := pick(3, 4)
	type set struct {
		sec byte
		key string
	}
	seen := []set{}
	for i := 0; i < n; i++ {
		k := sym.Choose("section"+itoa(i), 5)
		sec := []byte{'r', 'p', 'g', 'e', 'm'}[k]
		key := string(sec) + sym.StrIn("key"+itoa(i), "2A_", 0, pick(1, 2))
		val := [][]string{{"x", "y, z"}, {"a", "b, eft"}, {"_, _", "_, _, _"}, {someAllow, allowDeny}, {"true", "1 == 2"}}[k][sym.Choose("value"+itoa(i), 2)]
		sym.Assert(m.SetDef(sec, key, val) == nil, "a definition is refused")
		seen = append(seen, set{sec, key})
	}
	if sym.Bool("remove") {
		sym.Assert(m.RemoveDef(seen[0].sec, seen[0].key) == nil, "removing a definition fails")
	}
	m2 := model.NewModel()
	text := m.String()
	_ = m2.LoadModelFromText(text) // a matcher without its policy is reported, the definitions are set nevertheless
	sym.Cover("end")
	sym.Assert(m2.String() == text, "printing the loaded model gives another text")
	for _, d := range seen {
		x, ok := m.GetDef(d.sec, d.key)
		y, ok2 := m2.GetDef(d.sec, d.key)
		sym.Assert(ok == ok2, "definitions are lost or invented")
		if ok && ok2 {
			sym.Assert(x.String() == y.String() && x.GetKey() == y.GetKey(), "a definition is changed")
		}
	}
}

// C21_decides: a loaded model decides requests with roles, effects and several policies the same way.
func C21_decides() {
	effects := []string{someAllow, noDeny, allowDeny, "some(where (p.eft == allow)) && !some(where (p.eft == deny))"}
	m := newModel(
		def{'r', "r", "sub, obj"}, def{'r', "r2", "x"},
		def{'p', "p", "sub, obj, eft"}, def{'p', "p2", "y"},
		def{'g', "g", []string{"_, _", "_,_", " _ , _ "}[sym.Choose("role definition", 3)]},
		def{'e', "e", effects[sym.Choose("effect", len(effects))]},
		def{'m', "m", []string{"g(r.sub, p.sub) && r.obj == p.obj", "(r.sub == p.sub || p.sub == '*')\n && r.obj == p.obj", "r.obj == p.obj # 'x"}[sym.Choose("matcher", 2)]},
		def{'m', "m2", "r2.x == p2.y"})
	m2 := relisted(m)
	rules := [][]string{{"p", sym.StrIn("s", "ab*", 1, 1), "o", []string{"allow", "deny", ""}[sym.Choose("eft", 3)]}, {"p2", "o"}, {"g", "c", "a"}}
	for _, r := range rules {
		_, err := m.AddRule(r)
		_, err2 := m2.AddRule(r)
		sym.Assert(err == nil && err2 == nil, "a rule is refused")
	}
	sameDecision(m, m2, sym.StrIn("sub", "abc", 1, 1), sym.StrIn("obj", "op", 1, 1))
}

// C21_roles: role definitions with any names for their arguments.
func C21_roles() {
	k := 1 + sym.Choose("arguments", 4)
	text := ""
	for i := 0; i < k; i++ {
		if i > 0 {
			text += ","
		}
		text += sym.StrIn("v"+itoa(i), "_a ", 0, pick(1, 2))
	}
	m := model.NewModel()
	sym.Assert(m.SetDef('g', "g", text) == nil, "a role definition is refused")
	m2 := relisted(m)
	sym.Cover("end")
	for _, x := range []*model.Model{m, m2} {
		d, ok := x.GetDef('g', "g")
		sym.Assert(ok && d.(interface{ NArgs() int }).NArgs() == k, "a role definition has another number of arguments")
		added, err := x.AddRule([]string{"g", "a", "b", "d"})
		sym.Assert(added && err == nil, "a link cannot be added")
		rm, _ := x.GetRoleManager("g")
		sym.Assert(linkedIn(rm, "a", "b", "d") && linkedIn(rm, "a", "b") == (k == 2), "links have domains where they should not, or the other way round")
	}
}
