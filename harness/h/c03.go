package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/storage/adapter"
)

// values are lo..hi symbolic values of at most max bytes.
func values(name string, lo, hi, max int) []string {
	n := lo
	if hi > lo {
		n += sym.Choose(name+".n", hi-lo+1)
	}
	res := make([]string, n)
	for i := range res {
		res[i] = sym.Str(name+"."+itoa(i), 0, max)
	}
	return res
}

// C03_pair: two arbitrary rules are the same rule exactly when they are equal value by value.
func C03_pair() {
	a := values("a", 0, 3, pick(3, 4))
	b := values("b", 0, 3, pick(3, 4))
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x"}))
	mustAdd(en, withKey("p", a))
	same := eqRule(a, b)
	removed, err := en.RemoveRule(withKey("p", b))
	sym.Cover("end")
	sym.Assert(err == nil && removed == same, "removing another rule than the one added")
	added, err := en.AddRule(withKey("p", b))
	sym.Assert(err == nil && added, "a rule not stored cannot be added")
	want := [][]string{withKey("p", b)}
	if !same {
		want = append(want, withKey("p", a))
	}
	sym.Assert(sameRules(listed(en.GetModel()), want), "the listed rules are not those added and not removed")
	added, err = en.AddRule(withKey("p", a))
	sym.Assert(err == nil && !added, "a stored rule is added again")
}

// C03_bytes: rules, links and columns of one value of arbitrary bytes.
func C03_bytes() {
	n := pick(2, 3)
	a, b := sym.Str("a", 0, n), sym.Str("b", 0, n)
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'g', "g", "_, _"}, def{'g', "g2", "_, _, _"}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x"})
	var ra, rb []string
	switch sym.Choose("kind", 4) {
	case 0:
		ra, rb = []string{"p", a}, []string{"p", b}
	case 1:
		ra, rb = []string{"g", "u", a}, []string{"g", "u", b}
	case 2:
		ra, rb = []string{"g2", "u", "v", a}, []string{"g2", "u", "v", b}
	case 3:
		ra, rb = []string{"g2", a, "v", "d"}, []string{"g2", b, "v", "d"}
	}
	added, err := m.AddRule(ra)
	sym.Assert(added && err == nil, "a rule not stored cannot be added")
	added, err = m.AddRule(rb)
	sym.Cover("end")
	sym.Assert(added == (a != b) && err == nil, "two different rules are taken for the same, or equal rules for different")
	want := [][]string{ra}
	if a != b {
		want = append(want, rb)
	}
	sym.Assert(sameRules(listed(m), want), "the listed rules are not those added")
	if ra[0] == "p" {
		p, _ := m.GetPolicy("p")
		got, err := policy.GetDistinct(p, []int{0})
		sym.Assert(err == nil && len(got) == len(want), "wrong distinct values")
	}
}

// C03_separators: values made of the characters an implementation may use to join values.
func C03_separators() {
	mk := func(n string) []string {
		k := 1 + sym.Choose(n+".n", 3)
		res := make([]string, k)
		for i := range res {
			res[i] = sym.StrIn(n+"."+itoa(i), ",1\x00|", 0, pick(3, 4))
		}
		return res
	}
	a, b := mk("a"), mk("b")
	rs := adapter.NewRuleSet()
	_, _ = rs.AddRule(a)
	added, err := rs.AddRule(b)
	sym.Cover("end")
	sym.Assert(err == nil && added == !eqRule(a, b), "two different rules are taken for the same, or equal rules for different")
}

// C03_history: any history over rules of differing lengths.
func C03_history() {
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'p', "p2", "a"}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x"}))
	s := &ref{}
	keys := []string{"p", "p2"}
	history(en, s, "p", pick(4, 5), true, func(i int) []string {
		k := keys[sym.Choose("key"+itoa(i), 2)]
		r := []string{k, sym.StrIn("a"+itoa(i), "ab", 1, 1), "a"}
		return r[:1+sym.Choose("length"+itoa(i), 3)]
	}, nil)
	sym.Cover("end")
	sym.Assert(sameRules(listed(en.GetModel()), s.rules), "the listed rules are not those added and not removed")
	for _, k := range keys {
		p, _ := en.GetModel().GetPolicy(k)
		got := [][]string{}
		p.Range(func(r []string) bool { got = append(got, r); return true })
		sym.Assert(sameRules(got, s.of(k)), "the policy lists other rules than those stored")
	}
}

// C03_roles: role links are a set as well, with and without domains.
func C03_roles() {
	args := []string{"_, _", "_, _, _", "_, _, _, _"}
	n := sym.Choose("kind", 3)
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'g', "g", args[n]}, def{'e', "e", someAllow}, def{'m', "m", "p.a == r.x"}))
	s := &ref{}
	history(en, s, "g", pick(3, 4), true, func(i int) []string {
		r := []string{"g", sym.StrIn("u"+itoa(i), "ab", 1, 1), sym.StrIn("v"+itoa(i), "ab", 1, 1)}
		for k := 0; k < n; k++ {
			r = append(r, sym.StrIn("d"+itoa(i)+itoa(k), "a/", 0, 1))
		}
		return r
	}, nil)
	sym.Cover("end")
	sym.Assert(sameRules(listed(en.GetModel()), s.rules), "the listed links are not those added and not removed")
}

// C03_distinct: the distinct values of columns are exactly those of the stored rules.
func C03_distinct() {
	p := policy.NewPolicy(defs.NewPolicyDef("p", "a, b, c"))
	rules := [][]string{}
	for i := 0; i < 3; i++ {
		r := []string{sym.StrIn("a"+itoa(i), "a,", 0, 2), sym.StrIn("b"+itoa(i), "a,", 0, 2), itoa(i)}
		rules = append(rules, r)
		_, _ = p.AddRule(r)
	}
	cols := [][]int{{0, 1}, {1, 0}, {0}, {1}}[sym.Choose("columns", pick(3, 4))]
	want := [][]string{}
	for _, r := range rules {
		v := []string{}
		for _, c := range cols {
			v = append(v, r[c])
		}
		if !hasRule(want, v) {
			want = append(want, v)
		}
	}
	got, err := p.GetDistinct(cols)
	sym.Cover("end")
	sym.Assert(err == nil && sameRules(got, want), "wrong distinct values")
}
