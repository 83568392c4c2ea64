package h

import (
	"strings"
	"unicode"

	"fvh/sym"
	"fvh/vfs"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage/adapter"
)

func malformedDefs() []def {
	return []def{{'r', "r", "x, y"}, {'p', "p", "a, b"}, {'p', "p2", "a, eft"}, {'g', "g", "_, _"}, {'g', "g2", "_, _, _"}, {'e', "e", someAllow},
		{'m', "m", "p.a == r.x && p.b == r.y"}, {'m', "m2", "g(r.x, p.a) || g2(r.x, p.a, r.y)"}}
}

// snapshot is everything a model answers about rules and links.
func snapshot(m *model.Model) [][]string {
	res := listed(m)
	for _, k := range []string{"g", "g2"} {
		rm, ok := m.GetRoleManager(k)
		sym.Assert(ok, "no role manager")
		if all, ok := rm.(interface{ GetAllDomains() ([]string, error) }); ok {
			ds, err := all.GetAllDomains()
			sym.Assert(err == nil, "listing domains fails")
			for _, d := range ds {
				res = append(res, []string{k, "domain " + d})
			}
		}
		rm.Range(func(a, b string, dom ...string) bool {
			res = append(res, append([]string{k, "link", a, b}, dom...))
			return true
		})
	}
	return res
}

// looseRule is an arbitrary list of strings, the first of which is often a key.
func looseRule(name string, max int) []string {
	n := sym.Choose(name+".n", max+1)
	r := make([]string, 0, n)
	for i := 0; i < n; i++ {
		if i == 0 {
			r = append(r, []string{"p", "p2", "g", "g2", "", "m", "g3", sym.Str(name+".key", 1, 2)}[sym.Choose(name+".key", 8)])
		} else {
			r = append(r, sym.Str(name+"."+itoa(i), 0, 1))
		}
	}
	return r
}

// C17_rule: adding and removing an arbitrary list of strings.
func C17_rule() {
	m := newModel(malformedDefs()...)
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "a", "b"}, []string{"g", "a", "b"}, []string{"g2", "a", "b", "d"})
	before := snapshot(m)
	r := looseRule("r", 4)
	kept := append([]string{}, r...)
	var changed bool
	var err error
	add := true
	switch sym.Choose("operation", 6) {
	case 0:
		changed, err = en.AddRule(r)
	case 1:
		changed, err = m.AddRule(r)
	case 2:
		err = en.AddRules([][]string{r})
	case 3:
		changed, err = en.RemoveRule(r)
		add = false
	case 4:
		changed, err = m.RemoveRule(r)
		add = false
	case 5:
		err = en.RemoveRules([][]string{r})
		add = false
	}
	after := snapshot(m)
	sym.Observe("err", err != nil)
	sym.Cover("end")
	sym.Assert(eqRule(kept, r), "the rule passed is changed")
	if err != nil {
		sym.Assert(!changed, "a rejected rule is reported as a change")
		sym.Assert(sameRules(after, before), "a rejected rule changes rules or links")
		return
	}
	sym.Assert(len(r) > 0, "an empty rule is accepted")
	known := hasName([]string{"p", "p2", "g", "g2"}, r[0])
	sym.Assert(known, "a rule with an unknown key is accepted")
	rules := listed(m)
	if r[0] == "g" {
		sym.Assert(len(r) >= 3, "a role rule with too few values is accepted")
		r = r[:3]
	}
	if r[0] == "g2" {
		sym.Assert(len(r) >= 3, "a role rule with too few values is accepted")
	}
	sym.Assert(hasRule(rules, r) == add, "an accepted rule has no effect")
	for _, x := range [][]string{{"p", "a", "b"}, {"g", "a", "b"}, {"g2", "a", "b", "d"}} {
		sym.Assert(hasRule(rules, x) || !add && eqRule(x, r), "another rule is lost")
	}
}

// C17_managers: role managers used directly.
func C17_managers() {
	var rm rbac.IRoleManager = rbac.NewRoleManager(10)
	if sym.Bool("domains") {
		rm = rbac.NewDomainManager(10)
	}
	p := rbac.NewRolePolicy(rm)
	r := []string{}
	for i := sym.Choose("n", 5); i > 0; i-- {
		r = append(r, sym.Str("v"+itoa(i), 0, 1))
	}
	_, err := p.AddRule([]string{"a", "b"})
	sym.Assert(err == nil, "adding a link fails")
	links := func() [][]string {
		res := [][]string{}
		p.Range(func(r []string) bool { res = append(res, r); return true })
		return res
	}
	before := links()
	if sym.Bool("remove") {
		_, err = p.RemoveRule(r)
	} else {
		_, err = p.AddRule(r)
	}
	sym.Cover("end")
	sym.Assert((err != nil) == (len(r) < 2), "a role rule with too few values is accepted, or another one rejected")
	if err != nil {
		sym.Assert(sameRules(links(), before), "a rejected rule changes links")
	}
	cols := []int{sym.Int("column", -2, 4)}
	_, _ = p.GetDistinct(cols)
}

// C17_distinct: distinct values of arbitrary columns.
func C17_distinct() {
	m := newModel(malformedDefs()...)
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "a", "b"}, []string{"p", "a", "c"}, []string{"p", sym.StrIn("v", "ab", 1, 1)}, []string{"p2", "a"}, []string{"g", "a", "b"})
	p, _ := m.GetPolicy([]string{"p", "p2", "g"}[sym.Choose("policy", 3)])
	cols := []int{}
	for i := sym.Choose("n", 3); i > 0; i-- {
		cols = append(cols, sym.Int("column"+itoa(i), -2, 3))
	}
	got, err := policy.GetDistinct(p, cols)
	sym.Cover("end")
	s := &ref{}
	bad := false
	p.Range(func(r []string) bool {
		row := []string{}
		for _, c := range cols {
			if c < 0 || c >= len(r) {
				bad = true
				return true
			}
			row = append(row, r[c])
		}
		s.add(row)
		return true
	})
	sym.Assert((err != nil) == bad, "a missing column is not reported, or an error without one")
	if !bad {
		sym.Assert(sameRules(got, s.rules), "the distinct values are wrong")
	}
}

// parsed is the meaning of policy text without quotes.
func parsed(text string) [][]string {
	res := [][]string{}
	for _, line := range strings.Split(text, "\n") {
		if len(line) > 0 && line[len(line)-1] == '\r' {
			line = line[:len(line)-1]
		}
		if line == "" || line[0] == '#' {
			continue
		}
		r := []string{}
		for _, v := range strings.Split(line, ",") {
			r = append(r, strings.TrimLeftFunc(v, unicode.IsSpace))
		}
		res = append(res, r)
	}
	return res
}

// loaded checks the outcome of loading text, part of which is arbitrary.
func loaded(text string) {
	vfs.Reset()
	vfs.Put("/p.csv", text)
	m := newModel(malformedDefs()...)
	en, err := fastac.NewEnforcer(m, "/p.csv")
	sym.Observe("err", err != nil)
	sym.Cover("end")
	sym.Assert(vfs.Handles == 0, "a file is left open")
	if err != nil {
		sym.Assert(en == nil, "an enforcer in spite of an error")
		return
	}
	s := &ref{}
	for _, r := range parsed(text) {
		s.add(r)
	}
	if strings.Contains(text, "\"") {
		return
	}
	sym.Assert(sameRules(listed(m), stores(s.rules)), "loading drops or alters a line")
}

// stores are rules as the model keeps them.
func stores(rs [][]string) [][]string {
	s := &ref{}
	for _, r := range rs {
		s.add(stored(r))
	}
	return s.rules
}

// C17_bytes: any bytes as a policy file.
func C17_bytes() { loaded(sym.Str("text", 0, pick(2, 3))) }

// C17_text: any text of characters that matter.
func C17_text() { loaded(sym.StrIn("text", "pg,\n\r# 2", 0, pick(5, 6))) }

// C17_quotes: the same with quotes, and well-formed lines around it.
func C17_quotes() {
	text := sym.StrIn("text", "p,\"\n a", 0, pick(5, 6))
	vfs.Reset()
	vfs.Put("/p.csv", "p, first, b\n"+text+"\np, \"la, st\", b\n")
	m := newModel(malformedDefs()...)
	err := adapter.NewFileAdapter("/p.csv").LoadPolicy(m)
	sym.Cover("end")
	rules := listed(m)
	sym.Assert(hasRule(rules, []string{"p", "first", "b"}), "a well-formed line is dropped")
	if err == nil && !strings.Contains(text, "\"") {
		sym.Assert(hasRule(rules, []string{"p", "la, st", "b"}), "a well-formed line is dropped")
	}
}

// records is the meaning of policy text with quotes, ok is false if a line is malformed.
func records(text string) (res [][]string, ok bool) {
	norm := ""
	for i := 0; i < len(text); i++ {
		// line ends are line feeds
		if text[i] == '\r' && (i+1 == len(text) || text[i+1] == '\n') {
			continue
		}
		norm += text[i : i+1]
	}
	for i := 0; i < len(norm); {
		if norm[i] == '\n' {
			i++
			continue
		}
		if norm[i] == '#' {
			for i < len(norm) && norm[i] != '\n' {
				i++
			}
			continue
		}
		r := []string{}
		for more := true; more; {
			for i < len(norm) && (norm[i] == ' ' || norm[i] == '\t' || norm[i] == '\r') {
				i++
			}
			v := ""
			if i < len(norm) && norm[i] == '"' {
				for i++; ; i++ {
					if i >= len(norm) {
						return res, false
					}
					if norm[i] == '"' {
						if i++; i >= len(norm) || norm[i] != '"' {
							break
						}
					}
					v += norm[i : i+1]
				}
				if i < len(norm) && norm[i] != ',' && norm[i] != '\n' {
					return res, false
				}
			} else {
				for i < len(norm) && norm[i] != ',' && norm[i] != '\n' {
					if norm[i] == '"' {
						return res, false
					}
					v += norm[i : i+1]
					i++
				}
			}
			r = append(r, v)
			more = i < len(norm) && norm[i] == ','
			i++
		}
		res = append(res, r)
	}
	return res, true
}

// C17_records: any text with quotes is read as the records it says, and malformed lines are errors.
func C17_records() {
	text := sym.StrIn("text", "a,\"\n #\r", 0, pick(6, 7))
	want, ok := records(text)
	vfs.Reset()
	vfs.Put("/p.csv", text)
	rs := adapter.NewRuleSet()
	err := adapter.NewFileAdapter("/p.csv").LoadPolicy(rs)
	sym.Cover("end")
	sym.Assert((err == nil) == ok, "a malformed line is not reported, or a well-formed one is")
	s := &ref{}
	for _, r := range want {
		s.add(r)
	}
	sym.Assert(sameRules(rs.Rules(), s.rules), "loading drops or alters a line")
	if !strings.ContainsAny(text, "\r\n") {
		rs = adapter.NewRuleSet()
		err = adapter.LoadPolicyLine(text, rs)
		sym.Assert((err == nil) == ok || len(want) == 0, "a malformed line is not reported, or a well-formed one is")
		sym.Assert(err != nil || sameRules(rs.Rules(), s.rules), "loading drops or alters a line")
	}
}

// C17_around: an arbitrary line between well-formed ones.
func C17_around() {
	line := sym.StrIn("line", "pg2,# a", 0, pick(6, 7))
	eol := []string{"\n", "\r\n"}[sym.Choose("eol", 2)]
	loaded("p, a, b" + eol + line + eol + "# comment" + eol + eol + "g, a, b" + eol + "p2,x" + []string{"", eol}[sym.Choose("last", 2)])
}

// C17_line: single lines.
func C17_line() {
	line := sym.StrIn("line", "p,\"# a\r\n", 0, pick(4, 5))
	m := newModel(malformedDefs()...)
	err := adapter.LoadPolicyLine(line, m)
	sym.Cover("end")
	rules := listed(m)
	sym.Assert(len(rules) <= 1, "a line adds several rules")
	if err == nil && !strings.ContainsAny(line, "\"\r\n") {
		want := parsed(line)
		sym.Assert(sameRules(rules, want), "loading drops or alters a line")
	}
	if err != nil {
		sym.Assert(len(rules) == 0, "a rejected line adds a rule")
	}
}
