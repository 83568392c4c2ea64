package h

import (
	"fvh/sym"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model/defs"
)

// fieldNames makes n different field names, which overlap in any way.
func fieldNames(name string, n, max int) []string {
	res := make([]string, n)
	for i := range res {
		res[i] = sym.StrIn(name+itoa(i), "ap2_", 1, max)
		for j := 0; j < i; j++ {
			sym.Assume(res[i] != res[j])
		}
	}
	return res
}

// valued decides a request by the model and compares with want; want nil: must be an error.
func valued(en *fastac.Enforcer, want *bool, what string, params ...interface{}) {
	got, err := en.Enforce(params...)
	sym.Observe("decision", got)
	if want == nil {
		sym.Assert(err != nil, "an error is expected: "+what)
		return
	}
	sym.Assert(err == nil, "a request fails: "+what)
	sym.Assert(got == *want, "a field means another value: "+what)
}

// C22_matcher: fields of any name under any key, compared in a matcher.
func C22_matcher() {
	pk := "p" + []string{"", "2", "22"}[sym.Choose("policy key", 3)]
	rk := "r" + pk[1:]
	pf := fieldNames("p", 2, pick(2, 3))
	rf := [][]string{{"a", "aa"}, {"p", "r"}, {"_a", "a_"}, {pf[1], pf[0]}}[sym.Choose("request fields", 4)]
	i, j := sym.Choose("field of the rule", 2), sym.Choose("field of the request", 2)
	sep := []string{".", "_"}[sym.Choose("separator", 2)]
	m := newModel(def{'r', rk, strings.Join(rf, ", ")}, def{'p', pk, strings.Join(pf, ",")}, def{'p', "p9", pf[0]}, def{'e', "e", someAllow},
		def{'m', "m", pk + sep + pf[i] + " == " + rk + sep + rf[j]})
	en := newEnforcer(m)
	rule := []string{pk, sym.StrIn("v0", "ab", 0, 1), sym.StrIn("v1", "ab", 0, 1)}
	mustAdd(en, rule)
	req := []interface{}{sym.StrIn("x0", "ab", 0, 1), sym.StrIn("x1", "ab", 0, 1)}
	want := rule[1+i] == req[j]
	sym.Cover("end")
	valued(en, &want, "matcher", append([]interface{}{fastac.SetRequestDef(rk), fastac.SetMatcher("m")}, req...)...)
}

// C22_request: fields of a request of any name, read one by one and together.
func C22_request() {
	rk := []string{"r", "r2"}[sym.Choose("key", 2)]
	rf := make([]string, 2)
	for i := range rf {
		rf[i] = sym.StrIn("f"+itoa(i), "ar_", 1, pick(2, 3))
	}
	sym.Assume(rf[0] != rf[1])
	// another field before them or between them, perhaps one without a name
	extra := sym.Choose("third field", 4)
	args := []string{rf[0] + ", " + rf[1], "z, " + rf[0] + ", " + rf[1], ", " + rf[0] + "," + rf[1], rf[0] + ", ," + rf[1]}[extra]
	i, j := sym.Choose("field", 2), sym.Choose("other field", 2)
	sep := []string{".", "_"}[sym.Choose("separator", 2)]
	text := "p.a == " + rk + sep + rf[i] + " && p.b == " + rk + sep + rf[j]
	en := newEnforcer(newModel(def{'r', rk, args}, def{'p', "p", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", text}))
	rule := []string{"p", sym.StrIn("v0", "ab", 1, 1), sym.StrIn("v1", "ab", 1, 1)}
	mustAdd(en, rule)
	x := []string{sym.StrIn("x0", "ab", 1, 1), sym.StrIn("x1", "ab", 1, 1)}
	req := []interface{}{x[0], x[1]}
	switch extra {
	case 1, 2:
		req = []interface{}{"z", x[0], x[1]}
	case 3:
		req = []interface{}{x[0], "z", x[1]}
	}
	want := rule[1] == x[i] && rule[2] == x[j]
	sym.Cover("end")
	valued(en, &want, text, append([]interface{}{fastac.SetRequestDef(rk)}, req...)...)
}

// C22_stages: fields compared in several stages and alternatives of a matcher.
func C22_stages() {
	pf := fieldNames("p", 3, 1)
	a, b, c := sym.Choose("a", 3), sym.Choose("b", 3), sym.Choose("c", 3)
	or := sym.Bool("or")
	text := "p." + pf[a] + " == r.x && p." + pf[b] + " == r.y && p." + pf[c] + " == r.x"
	if or {
		text = "p." + pf[a] + " == r.x && (p." + pf[b] + " == r.y || p." + pf[c] + " == r.x)"
	}
	m := newModel(def{'r', "r", "x,y"}, def{'p', "p", strings.Join(pf, ",")}, def{'e', "e", someAllow}, def{'m', "m", text})
	en := newEnforcer(m)
	r1 := []string{"p", sym.StrIn("v0", "ab", 1, 1), sym.StrIn("v1", "ab", 1, 1), sym.StrIn("v2", "ab", 1, 1)}
	r2 := []string{"p", "a", sym.StrIn("w1", "ab", 1, 1), "b"}
	mustAdd(en, r1, r2)
	x, y := sym.StrIn("x", "ab", 1, 1), sym.StrIn("y", "ab", 1, 1)
	want := false
	for _, r := range [][]string{r1, r2} {
		if or {
			want = want || r[1+a] == x && (r[1+b] == y || r[1+c] == x)
		} else {
			want = want || r[1+a] == x && r[1+b] == y && r[1+c] == x
		}
	}
	sym.Cover("end")
	valued(en, &want, text, x, y)
}

// C22_effect: the effect field at any position; a missing or empty effect counts as allow.
func C22_effect() {
	n := 1 + sym.Choose("fields", 3)
	at := sym.Choose("position", n+1) // n: no effect field
	names := []string{"a", "b", "c"}[:n]
	like := []string{"eft2", "xeft", "Eft", "p_eft"}[sym.Choose("similar name", 4)]
	names[(at+1)%n] = like
	if at < n {
		names[at] = "eft"
	}
	pk := "p" + []string{"", "2"}[sym.Choose("key", 2)]
	m := newModel(def{'r', "r", "x"}, def{'p', pk, strings.Join(names, ", ")}, def{'e', "e", someAllow}, def{'e', "e2", noDeny}, def{'e', "e3", allowDeny},
		def{'m', "m", pk + "." + names[0] + " == r.x || true"})
	en := newEnforcer(m)
	rule := []string{}
	k := sym.Choose("values", n+1)
	for i := 0; i < k; i++ {
		rule = append(rule, []string{"allow", "deny", "", "x", "Allow"}[sym.Choose("value"+itoa(i), 5)])
	}
	if k == 0 {
		return // nothing to store
	}
	mustAdd(en, withKey(pk, rule))
	eft := "allow"
	if at < len(rule) && rule[at] != "" {
		eft = rule[at]
	}
	for i, e := range []string{"e", "e2", "e3"} {
		got, err := en.Enforce(fastac.SetEffector(e), "y")
		sym.Assert(err == nil, "a well-formed request fails")
		want := []bool{eft == "allow", eft != "deny", eft == "allow"}[i]
		sym.Assert(got == want, "the effect of a rule is not the value of its effect field")
	}
	sym.Cover("end")
}

// C22_filter: fields in filters of policies and role definitions.
func C22_filter() {
	pf := fieldNames("p", 2, 2)
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "q"}, def{'p', "p2", strings.Join(pf, ",")}, def{'g', "g", "_, _, _"}, def{'e', "e", someAllow}, def{'m', "m", "p.q == r.x"})
	en := newEnforcer(m)
	v := sym.StrIn("v", "ab", 1, 1)
	all := [][]string{{"p2", "a", sym.StrIn("v1", "ab", 1, 1)}, {"p2", sym.StrIn("v2", "bc", 1, 1), "a"}, {"p", "a"}}
	gs := [][]string{{"g", "a", sym.StrIn("w1", "ab", 1, 1), "c"}, {"g", "b", "c", sym.StrIn("w2", "ac", 1, 1)}}
	mustAdd(en, all...)
	mustAdd(en, gs...)
	key, k := "p2", sym.Choose("field", 2)
	text := "p2." + pf[k]
	if sym.Bool("roles") {
		k = sym.Choose("role field", 3)
		key, text, all = "g", "g."+[]string{"user", "role", "domain"}[k], gs
	}
	want := [][]string{}
	for _, r := range distinct(all) {
		if r[0] == key && r[1+k] == v {
			want = append(want, r)
		}
	}
	var got [][]string
	switch sym.Choose("form", 3) {
	case 0:
		got = mustFilter(en, fastac.SetMatcher(text+" == \""+v+"\""), "ignored")
	case 1:
		got = mustFilter(en, fastac.SetMatcher(text+" == r.x"), v)
	case 2:
		got = mustFilter(en, fastac.SetMatcher("r.x == "+text+" && true"), v)
	}
	sym.Cover("end")
	sym.Assert(sameRules(got, want), "a filter takes a field for another value")
}

// C22_absent: fields which are not defined or have no value are errors.
func C22_absent() {
	pf := fieldNames("p", 2, 2)
	f := sym.StrIn("field", "ap2_", 1, 2)
	sym.Assume(f != pf[0] && f != pf[1])
	var text, what string
	rule, req := []string{"p", "a", "b"}, []interface{}{"a", "b"}
	switch sym.Choose("case", 6) {
	case 0:
		text, what = "p."+f+" == r.x", "unknown field of the rule"
	case 1:
		text, what = "p."+pf[0]+" == r."+f, "unknown field of the request"
		sym.Assume(f != "x" && f != "y")
	case 2:
		text, what = "p."+pf[1]+" == r.x", "field without value"
		rule = rule[:2]
	case 3:
		text, what = "p."+pf[0]+" == r.y", "request field without value"
		req = req[:1]
	case 4:
		text, what = "p2."+pf[0]+" == r.x || p."+pf[0]+" == r.x", "field of another policy"
	case 5:
		text, what = "p."+pf[0]+" == r2.x", "field of another request"
	}
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", strings.Join(pf, ",")}, def{'p', "p2", "c"}, def{'r', "r2", "x"}, def{'e', "e", someAllow}, def{'m', "m", text})
	en := newEnforcer(m)
	mustAdd(en, rule, []string{"p2", "z"})
	sym.Cover("end")
	valued(en, nil, what, req...)
	_, err := en.Filter(append([]interface{}{fastac.SetMatcher(text)}, req...)...)
	sym.Assert(err != nil, "an error is expected from the filter: "+what)
}

// C22_values: values of any form, among them the keys themselves and more values than fields.
func C22_values() {
	m := newModel(def{'r', "r", "x, y"}, def{'p', "p", "a, b"}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x && p.b == r.y"}, def{'m', "m2", "p.b == r.y"})
	en := newEnforcer(m)
	word := func(name string) string { return []string{"p", "r", "a", ""}[sym.Choose(name, 4)] }
	rule := []string{"p", word("v0"), word("v1")}
	if sym.Bool("more values") {
		rule = append(rule, word("v2"))
	}
	mustAdd(en, rule)
	x, y := word("x"), word("y")
	matcher := "m"
	want := rule[1] == x && rule[2] == y
	if sym.Bool("second matcher") {
		matcher, want = "m2", rule[2] == y
	}
	sym.Cover("end")
	if sym.Bool("with key") {
		valued(en, &want, "request with key", fastac.SetMatcher(matcher), "r", x, y)
	} else {
		valued(en, &want, "request", fastac.SetMatcher(matcher), x, y)
	}
}

// C22_lookup: the definitions on their own.
func C22_lookup() {
	pf := fieldNames("p", 3, pick(2, 3))
	key := "p" + sym.StrIn("key", "2_", 0, 1)
	d := defs.NewPolicyDef(key, strings.Join(pf, []string{",", ", ", " , "}[sym.Choose("separator", 3)]))
	rule := []string{"0", "1", "2"}[:1+sym.Choose("values", 3)]
	f := sym.StrIn("field", "ap2_", 1, 2)
	name := key + "_" + f
	at := -1
	for i, n := range pf {
		if n == f {
			at = i
		}
	}
	v, err := d.GetParameter(rule, name)
	v2, err2 := d.GetValue(rule, name)
	v3, err3 := d.GetParameter(append([]string{key}, rule...), name)
	sym.Cover("end")
	sym.Assert(d.Has(name) == (at >= 0), "a field is lost or invented")
	if at < 0 || at >= len(rule) {
		sym.Assert(err != nil && err2 != nil, "a field without value has one")
		return
	}
	sym.Assert(err == nil && v == rule[at] && err2 == nil && v2 == rule[at], "a field means another value")
	if len(rule) == len(pf) {
		sym.Assert(err3 == nil && v3 == rule[at], "a field of a rule with key means another value")
	}
	d2 := defs.NewRequestDef("r", strings.Join(pf, ","))
	vals := []interface{}{"0", 1, nil}[:len(rule)]
	w, err := d2.GetParameter(vals, "r_"+f)
	sym.Assert(err == nil && w == vals[at], "a field of a request means another value")
	ws, err := d2.GetParameters(vals, []string{"r_" + f, "r_" + pf[0]})
	sym.Assert(err == nil && len(ws) == 2 && ws[0] == vals[at] && ws[1] == vals[0], "fields of a request mean other values")
}
