package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
)

// rule30 is an arbitrary rule of a batch, which may be rejected.
func rule30(n string, bad bool) []string {
	k := 4
	if bad {
		k = 9
	}
	v, w := sym.StrIn("v"+n, "ab", 1, 1), "c"
	if sym.Thorough() {
		w = sym.StrIn("w"+n, "ac", 1, 1)
	}
	switch sym.Choose("key"+n, k) {
	case 0:
		return []string{"p", v, w, "allow"}
	case 1:
		return []string{"g", v, w}
	case 2:
		return []string{"g2", v, "c", w}
	case 3:
		return []string{"p2", v}
	case 4:
		return []string{"p3", v}
	case 5:
		return []string{"p"}
	case 6:
		return []string{"g", v}
	case 7:
		return nil
	}
	// a plain role link keeps two values only
	return []string{"g", v, w, "d"}
}

// equal30 checks that two enforcers hold, decide and list the same.
func equal30(en, other *fastac.Enforcer) {
	sym.Assert(sameRules(listed(en.GetModel()), listed(other.GetModel())), "a batch leaves other rules than the single changes")
	x := sym.StrIn("x", "ab", 1, 1)
	for _, mm := range []string{"m", "m2", "m3"} {
		f, err := en.Filter(fastac.SetMatcher(mm), x, "c")
		g, err2 := other.Filter(fastac.SetMatcher(mm), x, "c")
		sym.Assert((err == nil) == (err2 == nil), "a batch leaves other matches than the single changes")
		if err != nil {
			// how far it gets depends on the order of the rules
			continue
		}
		sym.Assert(sameRules(f, g), "a batch leaves other matches than the single changes")
		if mm != "m3" {
			d, err := en.Enforce(fastac.SetMatcher(mm), x, "c")
			e, err2 := other.Enforce(fastac.SetMatcher(mm), x, "c")
			sym.Assert((err == nil) == (err2 == nil) && d == e, "a batch leads to other decisions than the single changes")
		}
	}
	for _, g := range []string{"g", "g2"} {
		rm, _ := en.GetModel().GetRoleManager(g)
		rm2, _ := other.GetModel().GetRoleManager(g)
		sym.Assert(sameRules(allLinks(rm.(rmLike)), allLinks(rm2.(rmLike))), "a batch leaves other links than the single changes")
	}
}

// each makes the changes of a batch one by one, up to the first that is rejected.
func each(en *fastac.Enforcer, add bool, rs [][]string) error {
	for _, r := range rs {
		var err error
		if add {
			_, err = en.AddRule(r)
		} else {
			_, err = en.RemoveRule(r)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func together(en *fastac.Enforcer, add bool, rs [][]string) error {
	if add {
		return en.AddRules(rs)
	}
	return en.RemoveRules(rs)
}

// C30_batch: an arbitrary batch on arbitrary rules, with rejected rules anywhere.
func C30_batch() {
	auto := sym.Bool("auto")
	en, other, b, c := pair30(auto)
	add := sym.Bool("add")
	rs := [][]string{}
	for i := 0; i < pick(2, 3); i++ {
		rs = append(rs, rule30(itoa(i), true))
	}
	err, err2 := together(en, add, cloneAll(rs)), each(other, add, rs)
	sym.Assert((err == nil) == (err2 == nil), "a batch reports another result than the single changes")
	sym.Assert(sameLog(b.log, c.log), "a batch sends something else to the storage than the single changes")
	if err != nil {
		// the rest of the batch
		rs = [][]string{{"p", "b", "c", "allow"}, {"g", "a", "c"}}
		err, err2 = together(en, add, rs), each(other, add, rs)
		sym.Assert(err == nil && err2 == nil, "a batch fails after one that was rejected")
	}
	sym.Assert(en.GetStorageController().AutosaveEnabled() == auto, "a batch changes the autosave setting")
	sym.Assert(sameLog(b.log, c.log), "a batch sends something else to the storage than the single changes")
	equal30(en, other)
	sym.Assert(en.Flush() == nil && other.Flush() == nil, "flush fails")
	sym.Cover("end")
	sym.Assert(sameLog(b.log, c.log), "a batch sends something else to the storage than the single changes")
}

// pair30 gives two equal enforcers with some rules, possibly used before.
func pair30(auto bool) (en, other *fastac.Enforcer, b, c *backend) {
	b, c = &backend{}, &backend{}
	kind := sym.Choose("adapter", 3)
	var err, err2 error
	en, err = fastac.NewEnforcer(newModel(c28defs()...), newAdapter(b, kind), fastac.OptionAutosave(auto))
	other, err2 = fastac.NewEnforcer(newModel(c28defs()...), newAdapter(c, kind), fastac.OptionAutosave(auto))
	sym.Assert(err == nil && err2 == nil, "no enforcer")
	for _, r := range [][]string{{"p", "a", "c", "allow"}, {"p2", "a"}, {"g", "b", "c"}, {"g2", "a", "c", "c"}} {
		mustAdd(en, clone(r))
		mustAdd(other, clone(r))
	}
	return
}

// C30_sequence: batches and single changes alternate, without rejected rules, compared with the reference.
func C30_sequence() {
	b := &backend{}
	auto := sym.Bool("auto")
	en, err := fastac.NewEnforcer(newModel(c28defs()...), newAdapter(b, sym.Choose("adapter", 3)), fastac.OptionAutosave(auto))
	sym.Assert(err == nil, "no enforcer")
	s := &ref{}
	want := []change{}
	for i := 0; i < pick(2, 3); i++ {
		n := itoa(i)
		add := i == 0 || sym.Bool("add"+n)
		rs := [][]string{rule30(n+"a", false), {"p2", "a"}, rule30(n+"b", false)}
		sym.Assert(together(en, add, rs) == nil, "a batch fails")
		for _, r := range rs {
			if add && s.add(r) || !add && s.remove(r) {
				want = append(want, change{add, r})
			}
		}
		if auto {
			sym.Assert(sameLog(b.log, want), "a batch does not reach the storage")
		} else {
			sym.Assert(len(b.log) == 0, "a batch reaches the storage before the next flush")
		}
		sym.Assert(sameRules(listed(en.GetModel()), s.rules), "a batch leaves other rules than the single changes")
	}
	sym.Assert(en.Flush() == nil, "flush fails")
	sym.Cover("end")
	sym.Assert(sameLog(b.log, want), "a batch does not reach the storage")
}

// C30_settings: batches with storage switched off, without adapter, or empty.
func C30_settings() {
	b := &backend{}
	var a interface{}
	if sym.Bool("adapter") {
		a = newAdapter(b, sym.Choose("kind", 3))
	}
	auto, on := sym.Bool("auto"), sym.Bool("on")
	en, err := fastac.NewEnforcer(newModel(c28defs()...), a, fastac.OptionAutosave(auto), fastac.OptionStorage(on))
	sym.Assert(err == nil, "no enforcer")
	s := &ref{}
	for i := 0; i < 2; i++ {
		rs := [][]string{}
		for j := sym.Choose("size"+itoa(i), 3); j > 0; j-- {
			rs = append(rs, rule30(itoa(i)+itoa(j), false))
		}
		add := sym.Bool("add" + itoa(i))
		sym.Assert(together(en, add, rs) == nil, "a batch fails")
		for _, r := range rs {
			if add {
				s.add(r)
			} else {
				s.remove(r)
			}
		}
		sym.Assert(sameRules(listed(en.GetModel()), s.rules), "a batch leaves other rules than the single changes")
		sym.Assert(en.GetStorageController().AutosaveEnabled() == auto && en.GetStorageController().Enabled() == on, "a batch changes the settings")
	}
	sym.Cover("end")
	if !on {
		sym.Assert(len(b.log) == 0, "a batch reaches a storage which is switched off")
	} else if a != nil && auto {
		sym.Assert(sameRules(b.rules, s.rules), "a batch does not reach the storage")
	}
}

// C30_index: a batch changes rules behind a matcher whose index has been built before or not.
func C30_index() {
	defs := []def{{'r', "r", "x, y"}, {'p', "p", "a, b"}, {'g', "g", "_, _"}, {'e', "e", someAllow}, {'m', "m", "r.x == p.a && g(r.y, p.b)"}}
	en, other := newEnforcer(newModel(defs...)), newEnforcer(newModel(defs...))
	for _, e := range []*fastac.Enforcer{en, other} {
		mustAdd(e, []string{"p", "a", "b"}, []string{"p", "b", "c"})
	}
	if sym.Bool("warm") {
		_, _ = en.Enforce("a", "b")
	}
	add := sym.Bool("add")
	rs := [][]string{}
	for i := 0; i < pick(2, 3); i++ {
		v, w := sym.StrIn("v"+itoa(i), "ab", 1, 1), sym.StrIn("w"+itoa(i), "bc", 1, 1)
		rs = append(rs, []string{[]string{"p", "g"}[sym.Choose("key"+itoa(i), 2)], v, w})
	}
	sym.Assert(together(en, add, cloneAll(rs)) == nil && each(other, add, rs) == nil, "a batch fails")
	x, y := sym.StrIn("x", "ab", 1, 1), sym.StrIn("y", "abc", 1, 1)
	sym.Assert(mustEnforce(en, x, y) == mustEnforce(other, x, y), "a batch leads to other decisions than the single changes")
	sym.Assert(sameRules(mustFilter(en, x, y), mustFilter(other, x, y)), "a batch leaves other matches than the single changes")
	sym.Cover("end")
}
