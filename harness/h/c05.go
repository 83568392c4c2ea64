package h

import (
	"errors"
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
)

// outcome of evaluating an expression on one rule: 0 false, 1 true, 2 error.
type tri int

// terr is an expression with its meaning including failures.
type terr struct {
	text string
	eval func(p, r []string) tri
}

func tand(a, b terr) terr {
	return terr{"(" + a.text + " && " + b.text + ")", func(p, r []string) tri {
		if x := a.eval(p, r); x != 1 {
			return x
		}
		return b.eval(p, r)
	}}
}

func tor(a, b terr) terr {
	return terr{"(" + a.text + " || " + b.text + ")", func(p, r []string) tri {
		if x := a.eval(p, r); x != 0 {
			return x
		}
		return b.eval(p, r)
	}}
}

func tnot(a terr) terr {
	return terr{"!(" + a.text + ")", func(p, r []string) tri {
		x := a.eval(p, r)
		if x == 2 {
			return 2
		}
		return 1 - x
	}}
}

func tri1(b bool) tri {
	if b {
		return 1
	}
	return 0
}

// fails is the function f: an error for the argument "e", otherwise whether the argument is "t".
func setFails(m *model.Model) {
	m.SetFunction("f", func(args ...interface{}) (interface{}, error) {
		if len(args) != 1 || args[0] == "e" {
			return nil, errors.New("f failed")
		}
		return args[0] == "t", nil
	})
}

func fTri(s string) tri {
	if s == "e" {
		return 2
	}
	return tri1(s == "t")
}

func decideTri(e terr, effect string, rules [][]string, req []string, eftAt int) (allow bool, mustFail, mayFail bool) {
	some, deny, firstAllow := false, false, false
	for _, r := range rules {
		switch e.eval(r, req) {
		case 2:
			mayFail = true
		case 1:
			switch r[eftAt] {
			case "allow":
				some = true
				firstAllow = true
			case "deny":
				deny = true
			}
		}
	}
	switch effect {
	case someAllow:
		// an allowing rule decides, whatever the other rules would have done
		return some, mayFail && !firstAllow, mayFail
	case noDeny:
		return !deny, mayFail && !deny, mayFail
	}
	return some && !deny, mayFail && !deny, mayFail
}

// C05_function: a failing function at any place of the matcher, on any rule, under any effect.
func C05_function() {
	fa := terr{"f(p.a)", func(p, r []string) tri { return fTri(p[0]) }}
	fb := terr{"f(p.b)", func(p, r []string) tri { return fTri(p[1]) }}
	fx := terr{"f(r.x)", func(p, r []string) tri { return fTri(r[0]) }}
	bx := terr{"p.b == \"t\"", func(p, r []string) tri { return tri1(p[1] == "t") }}
	shapes := []terr{
		fa, tand(fa, fb), tand(fx, fa), tor(fa, fb), tand(bx, fa), tor(bx, fa), tand(tor(fa, bx), fb), tand(fa, tor(bx, fx)),
		tnot(fa), tand(tnot(fb), fa), tor(tand(fx, bx), fa), tnot(tor(fa, fb)),
	}
	e := shapes[sym.Choose("matcher", len(shapes))]
	effect := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	m := model.NewModel()
	setFails(m)
	for _, d := range []def{{'r', "r", "x"}, {'p', "p", "a, b, eft"}, {'e', "e", effect}, {'m', "m", e.text}} {
		_ = m.SetDef(d.sec, d.key, d.val)
	}
	sym.Assert(m.BuildMatchers() == nil, "building fails")
	en := newEnforcer(m)
	efts := []string{"allow", "deny"}
	rules := [][]string{}
	n := pick(1, 2)
	if n == 1 && sym.Bool("two rules") {
		n = 2
	}
	for i := 0; i < n; i++ {
		r := []string{sym.StrIn("a"+itoa(i), "etz", 1, 1), sym.StrIn("b"+itoa(i), "etz", 1, 1), efts[sym.Choose("eft"+itoa(i), 2)]}
		rules = append(rules, r)
		mustAdd(en, withKey("p", r))
	}
	req := []string{sym.StrIn("x", "etz", 1, 1)}
	sym.MapOrder(2)
	got, err := en.Enforce(req[0])
	want, must, may := decideTri(e, effect, distinct(rules), req, 2)
	sym.Observe("decision", got, err != nil)
	sym.Cover("end")
	if err != nil {
		sym.Assert(!got, "an error comes with allow")
		sym.Assert(may, "an error although nothing failed: "+e.text)
		return
	}
	sym.Assert(!must, "a failing function is not reported: "+e.text+" under "+effect)
	sym.Assert(got == want, "wrong decision next to a failure: "+e.text+" under "+effect)
}

// C05_builtin: failures of the expression itself: missing fields, unknown names, type errors, eval of broken text.
func C05_builtin() {
	bad := []string{
		"p.zz == r.x", "r.zz == p.a", "p.b == r.x", "r.y == p.a", "q_a == r.x", "r.x.Name == p.a",
		"eval(p.a)", "r.x > 1", "p.a - 1 == 1", "r.x =~ '('", "regexMatch(r.x, '(')", "ipMatch(r.x, 'zz')",
		"g(r.x)", "nofn", "p.a + r.x", "1", "\"s\"", "f()", "p.a ? true : false",
	}
	b := bad[sym.Choose("bad", len(bad))]
	good := "p.a == r.x"
	shape := sym.Choose("shape", 8)
	text := []string{b, good + " && (" + b + ")", "(" + b + ") && " + good, good + " || (" + b + ")", "(" + b + ") || " + good,
		"(" + good + " || " + good + ") && (" + b + ")", "!(" + b + ")", "true && (" + b + ")"}[shape]
	if shape == 0 && (b == "1" || b == "\"s\"" || b == "p.a + r.x") {
		// a matcher that is no condition at all: it must not allow
		text = b
	}
	effect := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	m := model.NewModel()
	setFails(m)
	for _, d := range []def{{'r', "r", "x, y"}, {'p', "p", "a, b"}, {'g', "g", "_, _"}, {'e', "e", effect}, {'m', "m", text}} {
		_ = m.SetDef(d.sec, d.key, d.val)
	}
	x := sym.StrIn("x", "a(", 1, 1)
	buildErr := m.BuildMatchers()
	en := newEnforcer(m)
	mustAdd(en, []string{"p", sym.StrIn("a", "a(", 1, 1)})
	got, err := en.Enforce(x)
	sym.Observe("decision", got, err != nil, buildErr != nil)
	sym.Cover("end")
	sym.Assert(err == nil || !got, "an error comes with allow")
	if err != nil {
		return
	}
	// no error: allowed only when the good part decides alone
	r, _ := en.GetModel().GetPolicy("p")
	same := false
	r.Range(func(rule []string) bool { same = rule[0] == x; return true })
	switch shape {
	case 0, 2, 4, 6, 7:
		if b == "1" || b == "\"s\"" || b == "p.a + r.x" {
			// a value that is not a condition
			if shape == 0 {
				sym.Assert(effect == noDeny || !got, "a matcher that is no condition allows")
				return
			}
		}
		sym.Fail("a failing matcher reports no error: " + text)
	case 1, 5:
		sym.Assert(!same, "a failing clause reports no error: "+text)
	case 3:
		sym.Assert(same, "a failing clause reports no error: "+text)
	}
}

// C05_effect: an effect expression that is not supported is an error, never allow.
func C05_effect() {
	effect := sym.StrIn("effect", "ap!=", 0, 3)
	switch sym.Choose("form", 3) {
	case 1:
		effect = someAllow + effect
		sym.Assume(effect != someAllow)
	case 2:
		effect = "!" + someAllow + effect
	}
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a, eft"}, def{'e', "e", effect}, def{'m', "m", "p.a == r.x"})
	en := newEnforcer(m)
	n := sym.Choose("rules", 3)
	efts := []string{"allow", "deny", "other"}
	for i := 0; i < n; i++ {
		mustAdd(en, []string{"p", []string{"a", "b"}[i], efts[sym.Choose("eft"+itoa(i), 3)]})
	}
	got, err := en.Enforce(sym.StrIn("x", "abc", 1, 1))
	sym.Cover("end")
	sym.Assert(err != nil && !got, "an unsupported effect is not reported")
}

// C05_near: an expression which differs from a supported one by a single character is not supported.
func C05_near() {
	near := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	at := sym.Choose("at", len(near)+1)
	c := sym.Str("c", 1, 1)
	sym.Assume(c > " " && c < "\x7f")
	rest := near[at:]
	if len(rest) > 0 && sym.Bool("replaced") {
		sym.Assume(c != rest[:1])
		rest = rest[1:]
	}
	effect := near[:at] + c + rest
	given := sym.Bool("given with the request")
	params := []interface{}{"a"}
	d := effect
	if given {
		d = someAllow
		params = append(params, fastac.SetEffector(effect))
	}
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a, eft"}, def{'e', "e", d}, def{'m', "m", "p.a == r.x"}))
	mustAdd(en, []string{"p", []string{"a", "b"}[sym.Choose("rule", 2)], "allow"})
	got, err := en.Enforce(params...)
	sym.Cover("end")
	sym.Assert(err != nil && !got, "an unsupported effect is not reported")
}
