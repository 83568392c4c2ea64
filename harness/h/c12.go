package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage"
)

// C12_history: rule changes, flushes and switches of the saving mode in any order; a final flush.
func C12_history() {
	b := &backend{}
	ad := newAdapter(b, sym.Choose("adapter", 3))
	auto := sym.Bool("autosave")
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), ad, fastac.OptionAutosave(auto))
	sym.Assert(err == nil, "no enforcer")
	s := &ref{}
	want := []change{}
	n := pick(4, 5)
	for i := 0; i < n; i++ {
		switch sym.Choose("op"+itoa(i), 4) {
		case 0:
			r := storeRule(i)
			added, err := en.AddRule(r)
			k := s.add(stored(r))
			sym.Assert(err == nil && added == k, "AddRule reports the wrong result")
			if k {
				want = append(want, change{true, stored(r)})
			}
		case 1:
			r := storeRule(i)
			removed, err := en.RemoveRule(r)
			k := s.remove(stored(r))
			sym.Assert(err == nil && removed == k, "RemoveRule reports the wrong result")
			if k {
				want = append(want, change{false, stored(r)})
			}
		case 2:
			sym.Assert(en.Flush() == nil, "flushing fails")
			sym.Assert(sameLog(b.log, want), "a flush does not send the changes once each in order")
		case 3:
			auto = !auto
			sym.Assert(en.SetOption(fastac.OptionAutosave(auto)) == nil, "switching autosave fails")
		}
		sym.Assert(len(b.log) <= len(want) && sameLog(b.log, want[:len(b.log)]), "changes are not sent once each in order")
	}
	sym.Assert(en.Flush() == nil, "flushing fails")
	sym.Observe("log", len(b.log))
	sym.Cover("end")
	sym.Assert(sameLog(b.log, want), "the changes are not sent once each in order")
	sym.Assert(sameRules(b.rules, listed(en.GetModel())), "the storage does not hold the model's rules")
	sym.Assert(sameRules(b.rules, s.rules), "the storage does not hold the current rules")
}

// C12_batches: batches of changes next to single ones.
func C12_batches() {
	b := &backend{}
	ad := newAdapter(b, sym.Choose("adapter", 3))
	auto := sym.Bool("autosave")
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), ad, fastac.OptionAutosave(auto))
	sym.Assert(err == nil, "no enforcer")
	s := &ref{}
	want := []change{}
	rule := func(n string) []string {
		if sym.Bool("role" + n) {
			return []string{"g", "u", sym.StrIn("v"+n, "ab", 1, 1)}
		}
		return []string{"p", sym.StrIn("a"+n, "ab", 1, 1)}
	}
	for i := 0; i < pick(2, 3); i++ {
		rs := [][]string{rule(itoa(i) + "x"), rule(itoa(i) + "y")}
		add := i == 0 || sym.Bool("add"+itoa(i))
		if add {
			sym.Assert(en.AddRules(rs) == nil, "adding rules fails")
		} else {
			sym.Assert(en.RemoveRules(rs) == nil, "removing rules fails")
		}
		for _, r := range rs {
			if add && s.add(r) || !add && s.remove(r) {
				want = append(want, change{add, r})
			}
		}
		if auto {
			sym.Assert(sameLog(b.log, want), "a batch is not saved automatically")
		}
	}
	sym.Assert(en.Flush() == nil, "flushing fails")
	sym.Cover("end")
	sym.Assert(sameLog(b.log, want), "the changes are not sent once each in order")
	sym.Assert(sameRules(b.rules, s.rules), "the storage does not hold the current rules")
}

// C12_loaded: rules loaded first and changed afterwards.
func C12_loaded() {
	b := &backend{rules: [][]string{{"p", "a"}, {"g", "u", "a"}, {"g2", "u", "v", "a"}}}
	ad := newAdapter(b, sym.Choose("adapter", 3))
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), ad, fastac.OptionAutosave(sym.Bool("autosave")))
	sym.Assert(err == nil && en.LoadPolicy() == nil, "loading fails")
	for i := 0; i < 2; i++ {
		r := storeRule(i)
		if sym.Bool("add" + itoa(i)) {
			mustAdd(en, r)
		} else {
			mustRemove(en, r)
		}
	}
	sym.Assert(en.Flush() == nil, "flushing fails")
	sym.Cover("end")
	sym.Assert(sameRules(b.rules, listed(en.GetModel())), "the storage does not hold the model's rules")
}

// C12_held: a storage controller of its own; changes are held back, its adapter and the model it listens to are exchanged.
func C12_held() {
	type side struct {
		b  *backend
		ad storage.Adapter
		m  *model.Model
		s  *ref
	}
	sides := []*side{}
	for i := 0; i < 2; i++ {
		b := &backend{}
		kind := 1
		if i == 0 {
			kind = sym.Choose("adapter", 3)
		}
		sides = append(sides, &side{b, newAdapter(b, kind).(storage.Adapter), newModel(def{'p', "p", "a"}), &ref{}})
	}
	auto := sym.Bool("autosave")
	sc := storage.NewStorageController(sides[0].m, sides[0].ad, auto)
	pending, want := []change{}, [2][]change{}
	wait, ad, em := 0, 0, 0
	flush := func() {
		want[ad] = append(want[ad], pending...)
		pending, wait = nil, 0
	}
	n := pick(4, 5)
	for i := 0; i < n; i++ {
		op := 0
		if i < n-1 {
			op = sym.Choose("op"+itoa(i), 6)
		}
		switch op {
		case 0:
			at := 0
			if em == 1 {
				at = sym.Choose("model"+itoa(i), 2)
			}
			r := []string{"p", sym.StrIn("a"+itoa(i), "ab", 1, 1)}
			s, add := sides[at], sym.Bool("add"+itoa(i))
			changed := false
			if add {
				ok, err := s.m.AddRule(r)
				changed = s.s.add(r)
				sym.Assert(err == nil && ok == changed, "AddRule reports the wrong result")
			} else {
				ok, err := s.m.RemoveRule(r)
				changed = s.s.remove(r)
				sym.Assert(err == nil && ok == changed, "RemoveRule reports the wrong result")
			}
			if changed && at == em {
				pending = append(pending, change{add, r})
				if auto {
					wait--
					if wait <= 0 {
						flush()
					}
				}
			}
		case 1:
			w := 1 + sym.Choose("wait"+itoa(i), 3)
			sc.AddWait(w)
			wait += w
		case 2:
			sym.Assert(sc.Flush() == nil, "flushing fails")
			flush()
		case 3:
			auto = !auto
			if auto {
				sc.EnableAutosave()
			} else {
				sc.DisableAutosave()
			}
			sym.Assert(sc.AutosaveEnabled() == auto, "the saving mode is not switched")
		case 4:
			ad = 1 - ad
			sc.SetAdapter(sides[ad].ad)
		case 5:
			em = 1 - em
			sc.SetEmitter(sides[em].m)
		}
		for k, s := range sides {
			sym.Assert(sameLog(s.b.log, want[k]), "changes are not sent when they are due, once each, in order")
		}
		sym.Assert(sc.Enabled() && sc.AutosaveError() == nil, "the controller is disabled, or reports an error that did not happen")
	}
	sym.Assert(sc.Flush() == nil, "flushing fails")
	flush()
	sym.Cover("end")
	for k, s := range sides {
		sym.Assert(sameLog(s.b.log, want[k]), "changes are not sent once each, in order")
	}
}
