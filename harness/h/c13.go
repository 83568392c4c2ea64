package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
)

// C13_flush: an arbitrary adapter call fails during flushes; later flushes bring everything to the storage.
func C13_flush() {
	b := &backend{}
	ad := newAdapter(b, sym.Choose("adapter", 3))
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), ad)
	sym.Assert(err == nil, "no enforcer")
	b.failAt = sym.Choose("failing call", pick(4, 5))
	s := &ref{}
	want := []change{}
	for i := 0; i < pick(4, 5); i++ {
		r := []string{"p", sym.StrIn("a"+itoa(i), "ab", 1, 1)}
		if i == 0 || sym.Bool("add"+itoa(i)) {
			added, err := en.AddRule(r)
			sym.Assert(err == nil && added == s.add(r), "AddRule reports the wrong result")
			if added {
				want = append(want, change{true, r})
			}
		} else {
			removed, err := en.RemoveRule(r)
			sym.Assert(err == nil && removed == s.remove(r), "RemoveRule reports the wrong result")
			if removed {
				want = append(want, change{false, r})
			}
		}
		if sym.Bool("flush" + itoa(i)) {
			b.failed = false
			err := en.Flush()
			sym.Assert((err != nil) == b.failed, "a failing adapter call is not reported, or an error without one")
			if err == nil {
				sym.Assert(sameLog(b.log, want), "a successful flush does not send the pending changes once each in order")
			}
		}
		sym.Assert(len(b.log) <= len(want) && sameLog(b.log, want[:len(b.log)]), "changes are lost, repeated or reordered")
	}
	b.failed = false
	err = en.Flush()
	sym.Assert((err != nil) == b.failed, "a failing adapter call is not reported, or an error without one")
	b.failAt = 0
	sym.Assert(en.Flush() == nil, "flushing to the recovered adapter fails")
	sym.Observe("log", len(b.log))
	sym.Cover("end")
	sym.Assert(sameLog(b.log, want), "changes are lost, repeated or reordered")
	sym.Assert(sameRules(b.rules, s.rules), "the storage does not hold the current rules")
}

// C13_down: the adapter is down for a while, and changes go on.
func C13_down() {
	b := &backend{}
	ad := newAdapter(b, sym.Choose("adapter", 3))
	auto := sym.Bool("autosave")
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), ad, fastac.OptionAutosave(auto))
	sym.Assert(err == nil, "no enforcer")
	s := &ref{}
	want := []change{}
	from, to := sym.Choose("down from", 3), 1+sym.Choose("down to", 3)
	for i := 0; i < 3; i++ {
		b.down = i >= from && i < to
		b.failed = false
		var changed bool
		var err error
		r := storeRule(i)
		if i == 0 || sym.Bool("add"+itoa(i)) {
			changed, err = en.AddRule(r)
			sym.Assert(changed == s.add(stored(r)), "AddRule reports the wrong result")
			if changed {
				want = append(want, change{true, stored(r)})
			}
		} else {
			changed, err = en.RemoveRule(r)
			sym.Assert(changed == s.remove(stored(r)), "RemoveRule reports the wrong result")
			if changed {
				want = append(want, change{false, stored(r)})
			}
		}
		sym.Assert((err != nil) == b.failed, "a failing adapter call is not reported, or an error without one")
		sym.Assert(len(b.log) <= len(want) && sameLog(b.log, want[:len(b.log)]), "changes are lost, repeated or reordered")
		if auto && changed && !b.down {
			sym.Assert(sameLog(b.log, want), "autosave does not send the pending changes")
		}
	}
	b.down = false
	sym.Assert(en.Flush() == nil, "flushing to the recovered adapter fails")
	sym.Cover("end")
	sym.Assert(sameLog(b.log, want), "changes are lost, repeated or reordered")
	sym.Assert(sameRules(b.rules, s.rules), "the storage does not hold the current rules")
}

// C13_batch: a failure while a batch of changes is saved automatically.
func C13_batch() {
	b := &backend{}
	ad := newAdapter(b, sym.Choose("adapter", 3))
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), ad, fastac.OptionAutosave(true))
	sym.Assert(err == nil, "no enforcer")
	mustAdd(en, []string{"p", "a"}, []string{"p", "b"})
	s := &ref{listed(en.GetModel())}
	want := append([]change{}, b.log...)
	b.calls, b.failAt = 0, sym.Choose("failing call", 4)
	add := sym.Bool("add")
	rs := [][]string{{"p", sym.StrIn("a0", "abc", 1, 1)}, {"g", "u", sym.StrIn("a1", "ab", 1, 1)}, {"p", sym.StrIn("a2", "abc", 1, 1)}}
	var e error
	if add {
		e = en.AddRules(rs)
	} else {
		e = en.RemoveRules(rs)
	}
	for _, r := range rs {
		if add && s.add(r) || !add && s.remove(r) {
			want = append(want, change{add, r})
		}
	}
	sym.Assert((e != nil) == b.failed, "a failing adapter call is not reported, or an error without one")
	sym.Assert(len(b.log) <= len(want) && sameLog(b.log, want[:len(b.log)]), "changes are lost, repeated or reordered")
	sym.Assert(en.GetStorageController().AutosaveEnabled(), "autosave is switched off by a failure")
	b.failAt = 0
	if sym.Bool("next change") {
		mustAdd(en, []string{"p", "z"})
		want = append(want, change{true, []string{"p", "z"}})
		s.add([]string{"p", "z"})
	} else {
		sym.Assert(en.Flush() == nil, "flushing to the recovered adapter fails")
	}
	sym.Cover("end")
	sym.Assert(sameLog(b.log, want), "changes are lost, repeated or reordered")
	sym.Assert(sameRules(b.rules, s.rules), "the storage does not hold the current rules")
}

// C13_calls: saving fails or succeeds between changes and flushes; what is pending stays pending until it is stored.
func C13_calls() {
	b := &backend{}
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), newAdapter(b, sym.Choose("adapter", 3)))
	sym.Assert(err == nil, "no enforcer")
	b.failAt = sym.Choose("failing call", pick(4, 5))
	s := &ref{}
	want := []change{}
	saved := false
	for i := 0; i < pick(5, 6); i++ {
		what := 0
		if i > 0 {
			what = sym.Choose("call"+itoa(i), 5)
		}
		b.failed = false
		var err error
		switch what {
		case 0, 1:
			r := []string{"p", sym.StrIn("a"+itoa(i), "ab", 1, 1)}
			var changed bool
			if what == 0 {
				changed, err = en.AddRule(r)
				sym.Assert(changed == s.add(r), "AddRule reports the wrong result")
			} else {
				changed, err = en.RemoveRule(r)
				sym.Assert(changed == s.remove(r), "RemoveRule reports the wrong result")
			}
			if changed {
				want = append(want, change{what == 0, r})
			}
		case 2:
			err = en.Flush()
			sym.Assert(err != nil || sameRules(b.rules, s.rules), "a successful flush does not bring the storage up to date")
		case 3:
			err = en.SavePolicy()
			sym.Assert(err != nil || sameRules(b.rules, s.rules), "saving does not store the current rules")
			saved = saved || err == nil
		case 4:
			b.down = !b.down
		}
		sym.Assert((err != nil) == b.failed, "a failing adapter call is not reported, or an error without one")
		if !saved {
			sym.Assert(len(b.log) <= len(want) && sameLog(b.log, want[:len(b.log)]), "changes are lost, repeated or reordered")
		}
	}
	b.failAt, b.down = 0, false
	sym.Assert(en.Flush() == nil, "flushing to the recovered adapter fails")
	sym.Cover("end")
	sym.Assert(saved || sameLog(b.log, want), "changes are lost, repeated or reordered")
	sym.Assert(sameRules(b.rules, s.rules), "the storage does not hold the current rules")
}
