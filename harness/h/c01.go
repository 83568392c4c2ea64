package h

import (
	"fvh/sym"
	"strconv"
	"strings"

	"github.com/abichinger/govaluate"
)

// decide is the reference decision: the whole expression on every rule, merged by the effect.
func decide(e expr, effect string, rules [][]string, req []string, eft func(rule []string) string) bool {
	allow, deny := false, false
	for _, rule := range rules {
		if !e.eval(rule, req) {
			continue
		}
		switch eft(rule) {
		case "", "allow":
			allow = true
		case "deny":
			deny = true
		}
	}
	switch effect {
	case someAllow:
		return allow
	case noDeny:
		return !deny
	}
	return allow && !deny
}

func allAllow([]string) string { return "allow" }

// distinct drops rules equal to an earlier one.
func distinct(rules [][]string) [][]string {
	res := [][]string{}
	for _, r := range rules {
		if !hasRule(res, r) {
			res = append(res, r)
		}
	}
	return res
}

func c01(e expr, rules [][]string, req []string) {
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", e.text})
	en := newEnforcer(m)
	for _, r := range rules {
		if _, err := en.AddRule(withKey("p", r)); err != nil {
			sym.Fail("adding a rule: " + err.Error())
		}
	}
	got, err := en.Enforce(anys(req)...)
	sym.Assert(err == nil, "a well-formed request fails")
	if len(rules) == 0 {
		rules = [][]string{{"", ""}}
	}
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(got == decide(e, someAllow, rules, req, allAllow), "the decision differs from the matcher evaluated on every rule: "+e.text)
}

// C01_shapes: every nesting of and, or, negation and equality over three clauses.
func C01_shapes() {
	leaves := []expr{prEq("a", 0, "x", 0), prEq("b", 1, "y", 1), ppEq("a", 0, "b", 1)}
	e := tree("t", leaves, 7)
	n := 1
	if sym.Thorough() {
		n = 2
	}
	rules := [][]string{}
	for i := 0; i < n; i++ {
		rules = append(rules, strs("p"+strconv.Itoa(i), 2, 1, 1))
	}
	c01(e, rules, strs("r", 2, 1, 1))
}

// C01_shared: and/or over clauses of single fields, rules which may share some or all values.
func C01_shared() {
	leaves := []expr{prEq("a", 0, "x", 0), prEq("b", 1, "y", 1), pEq("a", 0, "k")}
	e := tree("t", leaves, 4)
	rules := [][]string{strs("p0", 2, 1, 1), strs("p1", 2, 1, 1)}
	c01(e, rules, strs("r", 2, 1, 1))
}

// C01_four: and/or over four clauses.
func C01_four() {
	ways := 2
	if sym.Thorough() {
		ways = 4
	}
	leaves := []expr{prEq("a", 0, "x", 0), prEq("b", 1, "y", 1), prNe("a", 0, "y", 1), rEq("x", 0, "k")}
	e := tree("t", leaves, ways)
	c01(e, [][]string{strs("p0", 2, 1, 1)}, strs("r", 2, 1, 1))
}

// C01_conditional: conditionals, bare and nested, next to and/or.
func C01_conditional() {
	a, b, c, d := prEq("a", 0, "x", 0), prEq("b", 1, "y", 1), ppEq("a", 0, "b", 1), rEq("y", 1, "k")
	var e expr
	switch sym.Choose("shape", 10) {
	case 0:
		e = cond(a, b, c)
	case 1:
		e = expr{a.text + " && " + b.text + " ? " + c.text + " : " + d.text, 0, cond(and(a, b), c, d).eval}
	case 2:
		e = expr{a.text + " ? " + b.text + " : " + c.text + " && " + d.text, 0, cond(a, b, and(c, d)).eval}
	case 3:
		e = expr{a.text + " || " + b.text + " ? " + c.text + " || " + d.text + " : " + a.text, 0, cond(or(a, b), or(c, d), a).eval}
	case 4:
		e = and(d, paren(cond(a, b, c)))
	case 5:
		e = or(paren(cond(a, b, c)), d)
	case 6:
		e = not(cond(a, and(b, d), c))
	case 7:
		e = iff(and(a, b), or(c, d))
	case 8:
		e = andRight(not(iff(a, b)), or(c, d))
	case 9:
		e = and(or(and(a, b), c), or(d, and(b, c)))
	}
	rules := [][]string{strs("p0", 2, 1, 1)}
	c01(e, rules, strs("r", 2, 1, 1))
}

// C01_empty: without rules the matcher is evaluated on empty values.
func C01_empty() {
	leaves := []expr{prEq("a", 0, "x", 0), pEq("b", 1, ""), rEq("y", 1, "k")}
	c01(tree("t", leaves, 7), nil, strs("r", 2, 0, 1))
}

// C01_effects: rules with an effect field, every effect expression, rules matching one or several alternatives.
func C01_effects() {
	var e expr
	a, b := prEq("a", 0, "x", 0), pEq("a", 0, "k")
	switch sym.Choose("matcher", 4) {
	case 0:
		e = a
	case 1:
		e = or(a, b)
	case 2:
		e = and(a, b)
	case 3:
		e = and(or(a, b), rEq("x", 0, "k"))
	}
	effect := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	efts := []string{"allow", "deny", "x", ""}
	rules := [][]string{
		{sym.Str("p0", 1, 1), efts[sym.Choose("eft0", 4)]},
		{sym.Str("p1", 1, 1), efts[sym.Choose("eft1", 4)]},
	}
	if sym.Thorough() {
		rules = append(rules, []string{sym.Str("p2", 1, 1), efts[sym.Choose("eft2", 3)]})
	}
	req := strs("r", 1, 1, 1)
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a, eft"}, def{'e', "e", effect}, def{'m', "m", e.text})
	en := newEnforcer(m)
	for _, r := range rules {
		_, _ = en.AddRule(withKey("p", r))
	}
	got, err := en.Enforce(anys(req)...)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(err == nil, "a well-formed request fails")
	sym.Assert(got == decide(e, effect, rules, req, func(r []string) string { return r[1] }), "wrong decision under "+effect)
}

// C01_three: three rules, three fields, and/or matchers with shared prefixes.
func C01_three() {
	a, b, c := prEq("a", 0, "x", 0), prEq("b", 1, "y", 1), pEq("c", 2, "k")
	var e expr
	switch sym.Choose("matcher", 6) {
	case 0:
		e = and(and(a, b), c)
	case 1:
		e = or(and(a, b), c)
	case 2:
		e = and(or(a, b), c)
	case 3:
		e = and(c, or(b, a))
	case 4:
		e = or(and(c, a), and(c, b))
	case 5:
		e = and(not(a), or(b, c))
	}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	rules := [][]string{}
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		rules = append(rules, []string{sym.StrIn("pa"+k, "ab", 1, 1), sym.StrIn("pb"+k, "ab", 1, 1), sym.StrIn("pc"+k, "kl", 1, 1)})
	}
	req := []string{sym.StrIn("rx", "ab", 1, 1), sym.StrIn("ry", "ab", 1, 1)}
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b, c"}, def{'e', "e", someAllow}, def{'m', "m", e.text})
	en := newEnforcer(m)
	for _, r := range rules {
		_, _ = en.AddRule(withKey("p", r))
	}
	got, err := en.Enforce(anys(req)...)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(err == nil, "a well-formed request fails")
	sym.Assert(got == decide(e, someAllow, rules, req, allAllow), "wrong decision: "+e.text)
}

// C01_names: clauses that read several fields of a rule, whatever the fields are called.
func C01_names() {
	sets := [][]string{{"a", "b", "c"}, {"a", "a_b", "a_b_c"}, {"a1", "a", "aa"}, {"p_p", "p", "r_x"}, {"_", "__", "_1"}, {"r", "g_user", "pr"}, {"A", "a", "eft2"}, {"p2_a", "2", "p"}}
	f := sets[sym.Choose("fields", len(sets))]
	k := sym.Choose("turn", 3)
	order := []string{f[k], f[(k+1)%3], f[(k+2)%3]}
	pk := []string{"p", "p2"}[sym.Choose("key", 2)]
	sep := []string{".", "_"}[sym.Choose("separator", 2)]
	p := func(i int) string { return pk + sep + order[i] }
	var text string
	var hit func(v []string, x, y string) bool
	switch sym.Choose("shape", 5) {
	case 0:
		text = p(0) + " + " + p(1) + " == r.x && " + p(2) + " == r.y"
		hit = func(v []string, x, y string) bool { return v[0]+v[1] == x && v[2] == y }
	case 1:
		text = p(0) + " == " + p(1) + " && " + p(2) + " == r.y"
		hit = func(v []string, x, y string) bool { return v[0] == v[1] && v[2] == y }
	case 2:
		text = "(" + p(0) + " == r.y || " + p(1) + " == r.x) && " + p(1) + " != " + p(2)
		hit = func(v []string, x, y string) bool { return (v[0] == y || v[1] == x) && v[1] != v[2] }
	case 3:
		text = p(0) + " in (" + p(1) + ", r.y) && " + p(2) + " != " + p(0) + " || " + p(1) + " == r.x"
		hit = func(v []string, x, y string) bool { return (v[0] == v[1] || v[0] == y) && v[2] != v[0] || v[1] == x }
	case 4:
		text = "globMatch(" + p(0) + ", " + p(1) + ") && " + p(2) + " == r.y"
		hit = func(v []string, x, y string) bool { return v[0] == v[1] && v[2] == y }
	}
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', pk, order[0] + ", " + order[1] + ", " + order[2]}, def{'e', "e", someAllow}, def{'m', "m", text}))
	rules := [][]string{strsIn("v", 3, "ab"), strsIn("w", 3, "ab")}
	for _, r := range rules {
		mustAdd(en, withKey(pk, r))
	}
	x, y := sym.StrIn("x", "ab", 1, 2), sym.StrIn("y", "ab", 1, 1)
	got, err := en.Enforce(x, y)
	sym.Cover("end")
	sym.Assert(err == nil && got == (hit(rules[0], x, y) || hit(rules[1], x, y)), "the decision differs from the matcher evaluated on every rule: "+text)
}

// strsIn makes n values of one byte each.
func strsIn(name string, n int, alphabet string) []string {
	res := make([]string, n)
	for i := range res {
		res[i] = sym.StrIn(name+strconv.Itoa(i), alphabet, 1, 1)
	}
	return res
}

type title string

type namedText struct{ Name string }

func (n namedText) String() string { return n.Name }

// C01_types: request values of any type are compared with rule values as the expression library compares them, which evaluates
// the whole expression on every rule here.
func C01_types() {
	text := []string{"p.a == r.x", "r.x == p.a && p.b == r.y", "p.a != r.x", "p.a == r.x || p.b == r.y", "r.x in (p.a, p.b)", "!(p.a == r.x) && r.y == p.b", "r.x == r.y && p.a == p.b",
		"(r.x == p.a || r.x == 1) && p.b == r.y", "r.x == true || p.a == r.y", "p.a == r.x && p.a == r.y", "r.x == nil || p.b == r.x"}[sym.Choose("matcher", 11)]
	a, b := []string{"a", "1", "true", ""}[sym.Choose("a", 4)], []string{"a", "1"}[sym.Choose("b", pick(1, 2))]
	if sym.Thorough() && sym.Bool("any") {
		a = sym.StrIn("any a", "a1", 1, 1)
	}
	value := func(n string, k int) interface{} {
		s := "a"
		return []interface{}{"a", "1", 1, title("a"), true, 1.0, nil, namedText{"a"}, int8(1), uint64(1), "true", 1.5, []string{"a"}, &s, &namedText{"a"}, title("1"), "", errText("a"), 'a', []byte("a"), float32(1), false}[sym.Choose(n, k)]
	}
	x, y := value("x", pick(16, 22)), value("y", pick(3, 8))
	rules := [][]string{{a, b}, {"a", a}}
	one := sym.Bool("one")
	if one {
		rules = rules[:1]
	}
	want := false
	whole := text
	for _, f := range []string{"p.a", "p.b", "r.x", "r.y"} {
		whole = strings.ReplaceAll(whole, f, f[:1]+"_"+f[2:])
	}
	e, err := govaluate.NewEvaluableExpression(whole)
	if err != nil {
		return // nil is no literal
	}
	for _, r := range rules {
		got, err := e.Evaluate(map[string]interface{}{"p_a": r[0], "p_b": r[1], "r_x": x, "r_y": y})
		if err != nil {
			return
		}
		want = want || got == true
	}
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", text}))
	for _, r := range distinct(rules) {
		mustAdd(en, withKey("p", r))
	}
	if !one || sym.Thorough() && sym.Bool("asked before") {
		_, _ = en.Enforce("a", "1")
	}
	got, err := en.Enforce(x, y)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(err == nil, "a well-formed request fails")
	sym.Assert(got == want, "the decision differs from the matcher evaluated on every rule: "+text)
}

type errText string

func (e errText) Error() string { return string(e) }

// C01_bare: operands without an operator of their own, a request value, a literal or a call, anywhere next to and/or.
func C01_bare() {
	is := func(text string, prec int, f func(p, r []string) bool) expr { return expr{text, prec, f} }
	all := []expr{
		is("r.x", 4, func(p, r []string) bool { return r[0] == "true" }),
		is("true", 4, func(p, r []string) bool { return true }),
		is("false", 4, func(p, r []string) bool { return false }),
		is("!r.x", 4, func(p, r []string) bool { return r[0] != "true" }),
		is("pathMatch(r.y, p.b)", 4, func(p, r []string) bool { return p[1] == r[1] }),
		is("(r.x)", 4, func(p, r []string) bool { return r[0] == "true" }),
	}
	k := sym.Choose("bare", len(all))
	leaves := []expr{all[k], prEq("a", 0, "y", 1), prEq("b", 1, "y", 1)}
	if sym.Bool("two") {
		leaves[2] = all[(k+3)%len(all)]
	}
	switch sym.Choose("at", 3) {
	case 1:
		leaves[0], leaves[1] = leaves[1], leaves[0]
	case 2:
		leaves[0], leaves[2] = leaves[2], leaves[0]
	}
	if sym.Bool("four") {
		leaves = append(leaves, pEq("a", 0, "a"))
	}
	e := tree("t", leaves, pick(2, 4))
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", e.text}))
	rule := []string{sym.StrIn("a", "ab", 1, 1), sym.StrIn("b", "ab", 1, 1)}
	mustAdd(en, withKey("p", rule))
	x, y := sym.Bool("x"), sym.StrIn("y", "ab", 1, 1)
	req := []string{"false", y}
	if x {
		req[0] = "true"
	}
	got, err := en.Enforce(x, y)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(err == nil, "a well-formed request fails")
	sym.Assert(got == e.eval(rule, req), "the decision differs from the matcher evaluated on every rule: "+e.text)
}

// C01_joined: rules whose values join to the same text, read together by one operand of the matcher.
func C01_joined() {
	first := []expr{
		not(or(prEq("a", 0, "x", 0), prEq("b", 1, "y", 1))),
		iff(prEq("a", 0, "x", 0), prEq("b", 1, "y", 1)),
		paren(cond(prEq("a", 0, "x", 0), prEq("b", 1, "y", 1), ppEq("a", 0, "b", 1))),
		ppEq("a", 0, "b", 1),
	}[sym.Choose("operand", 4)]
	e := and(first, expr{"p.c != \"z\"", 3, func(p, r []string) bool { return true }})
	if sym.Bool("after") {
		e = and(expr{"p.c == \"c\"", 3, func(p, r []string) bool { return true }}, e)
	}
	sep := sym.Str("separator", 1, 1)
	rules := [][]string{}
	for i := 0; i < 2; i++ {
		// the parts around the separator belong to the one or to the other value
		l, m, r := []string{"", "a"}[sym.Choose("l"+itoa(i), 2)], []string{"", "b"}[sym.Choose("m"+itoa(i), 2)], []string{"", "c"}[sym.Choose("r"+itoa(i), 2)]
		if sym.Bool("left" + itoa(i)) {
			rules = append(rules, []string{l + sep + m, r, "c"})
		} else {
			rules = append(rules, []string{l, m + sep + r, "c"})
		}
	}
	en := newEnforcer(newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b, c"}, def{'e', "e", someAllow}, def{'m', "m", e.text}))
	for _, r := range distinct(rules) {
		mustAdd(en, withKey("p", r))
	}
	k := sym.Choose("like", 2)
	req := []string{rules[k][0], []string{rules[k][1], "no"}[sym.Choose("y", 2)]}
	want := false
	for _, r := range rules {
		want = want || e.eval(r, req)
	}
	got, err := en.Enforce(anys(req)...)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(err == nil, "a well-formed request fails")
	sym.Assert(got == want, "the decision differs from the matcher evaluated on every rule: "+e.text)
}
