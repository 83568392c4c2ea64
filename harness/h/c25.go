package h

import (
	"fvh/sym"
	"fvh/vfs"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/storage/adapter"
)

// settings is what the storage of an enforcer should do.
type settings struct {
	on, auto bool
	queue    []change // accepted by no adapter yet
	sent     []change // of the current adapter
	rules    ref
	maybe    bool // a batch without changes may have sent the pending changes
}

// changed notes a rule change of the model.
func (s *settings) changed(c change) {
	if !s.on {
		return
	}
	s.queue = append(s.queue, c)
	if s.auto {
		s.flush()
	}
}

func (s *settings) flush() {
	s.sent = append(s.sent, s.queue...)
	s.queue = nil
}

// agree checks the settings and what the adapter got.
func (s *settings) agree(en *fastac.Enforcer, b *backend) {
	sc := en.GetStorageController()
	sym.Assert(sc.Enabled() == s.on, "the storage setting is something else")
	sym.Assert(sc.AutosaveEnabled() == s.auto, "the autosave setting is something else")
	if s.maybe && len(b.log) > len(s.sent) {
		s.flush()
	}
	s.maybe = false
	sym.Assert(sameLog(b.log, s.sent), "the adapter gets something else")
	sym.Assert(sameRules(listed(en.GetModel()), s.rules.rules), "the rules are something else")
}

// c25step is an arbitrary operation.
func c25step(i int, en *fastac.Enforcer, s *settings, b *backend) *backend {
	n := itoa(i)
	r := []string{"p", sym.StrIn("a"+n, "ab", 1, 1)}
	switch sym.Choose("operation"+n, 10) {
	case 0:
		mustAddOnce(en, s, r)
	case 1:
		changed, err := en.RemoveRule(r)
		sym.Assert(err == nil && changed == s.rules.remove(r), "RemoveRule reports the wrong result")
		if changed {
			s.changed(change{false, r})
		}
	case 2:
		s.on = sym.Bool("on" + n)
		sym.Assert(en.SetOption(fastac.OptionStorage(s.on)) == nil, "an option fails")
	case 3:
		s.auto = sym.Bool("auto" + n)
		sym.Assert(en.SetOption(fastac.OptionAutosave(s.auto)) == nil, "an option fails")
	case 4:
		if !s.on {
			sym.Stop()
		}
		sym.Assert(en.Flush() == nil, "flush fails")
		s.flush()
	case 5:
		before := len(b.log)
		sym.Assert(en.LoadPolicy() == nil, "load fails")
		for _, x := range b.rules {
			s.rules.add(x)
		}
		sym.Assert(len(b.log) == before, "loaded rules are sent back")
	case 6:
		sym.Assert(en.SavePolicy() == nil, "save fails")
	case 7:
		next := &backend{rules: [][]string{{"p", "c"}}}
		en.SetAdapter(newAdapter(next, sym.Choose("adapter"+n, 3)).(storage.Adapter))
		s.sent = nil
		return next
	case 8:
		s.maybe = s.auto
		var batch [][]string
		batch = append(batch, []string{"p", "d"}, r)
		if sym.Bool("add" + n) {
			sym.Assert(en.AddRules(batch) == nil, "AddRules fails")
			for _, x := range batch {
				if s.rules.add(x) {
					s.changed(change{true, x})
				}
			}
		} else {
			sym.Assert(en.RemoveRules(batch) == nil, "RemoveRules fails")
			for _, x := range batch {
				if s.rules.remove(x) {
					s.changed(change{false, x})
				}
			}
		}
	case 9:
		// a change of the model itself
		changed, err := en.GetModel().AddRule(r)
		sym.Assert(err == nil && changed == s.rules.add(r), "AddRule reports the wrong result")
		if changed {
			s.changed(change{true, r})
		}
	}
	return b
}

func mustAddOnce(en *fastac.Enforcer, s *settings, r []string) {
	changed, err := en.AddRule(r)
	sym.Assert(err == nil && changed == s.rules.add(r), "AddRule reports the wrong result")
	if changed {
		s.changed(change{true, r})
	}
}

// C25_history: any sequence of settings, exchanges, loads, saves and changes.
func C25_history() {
	b := &backend{rules: [][]string{{"p", "b"}, {"g", "u", "v"}}}
	s := &settings{on: true}
	opts := []fastac.Option{}
	if sym.Bool("start") {
		s.auto = true
		opts = append(opts, fastac.OptionAutosave(true))
	}
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), newAdapter(b, sym.Choose("adapter", 3)), opts...)
	sym.Assert(err == nil, "no enforcer")
	for i := 0; i < pick(3, 4); i++ {
		b = c25step(i, en, s, b)
		s.agree(en, b)
	}
	// everything that is pending reaches the storage in the end
	s.on = true
	sym.Assert(en.SetOption(fastac.OptionStorage(true)) == nil && en.Flush() == nil, "flush fails")
	s.flush()
	sym.Cover("end")
	s.agree(en, b)
}

// C25_pending: pending changes and settings survive switching storage off and on, loads, saves and a new adapter.
func C25_pending() {
	b := &backend{rules: [][]string{{"p", "b"}}}
	s := &settings{on: true}
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), newAdapter(b, sym.Choose("adapter", 3)))
	sym.Assert(err == nil, "no enforcer")
	mustAddOnce(en, s, []string{"p", sym.StrIn("x", "ab", 1, 1)})
	mustAddOnce(en, s, []string{"g", "u", "w"})
	for i := 0; i < pick(3, 4); i++ {
		switch sym.Choose("step"+itoa(i), 6) {
		case 0:
			s.on = !s.on
			_ = en.SetOption(fastac.OptionStorage(s.on))
		case 1:
			s.auto = !s.auto
			_ = en.SetOption(fastac.OptionAutosave(s.auto))
		case 2:
			sym.Assert(en.LoadPolicy() == nil, "load fails")
			for _, x := range b.rules {
				s.rules.add(x)
			}
		case 3:
			b, s.sent = &backend{}, nil
			en.SetAdapter(newAdapter(b, sym.Choose("next"+itoa(i), 3)).(storage.Adapter))
		case 4:
			mustAddOnce(en, s, []string{"p", "n" + itoa(i)})
		case 5:
			m := newModel(storeDefs()...)
			_, _ = m.AddRule([]string{"p", "m"})
			old := en.GetModel()
			en.SetModel(m)
			s.rules = ref{[][]string{{"p", "m"}}}
			_, _ = old.AddRule([]string{"p", "old"})
		}
		s.agree(en, b)
	}
	if s.on {
		mustAddOnce(en, s, []string{"p", "last"})
		sym.Assert(en.Flush() == nil, "flush fails")
		s.flush()
	}
	sym.Cover("end")
	s.agree(en, b)
}

// C25_options: the options at construction, with and without an adapter.
func C25_options() {
	s := &settings{on: true}
	b := &backend{}
	var a interface{}
	given := sym.Bool("adapter")
	if given {
		a = newAdapter(b, sym.Choose("kind", 3))
	} else {
		s.on = false
	}
	chosen := false
	opts := []fastac.Option{}
	for i := 0; i < 3; i++ {
		v := sym.Bool("value" + itoa(i))
		switch sym.Choose("option"+itoa(i), 3) {
		case 1:
			opts = append(opts, fastac.OptionAutosave(v))
			s.auto = v
		case 2:
			opts = append(opts, fastac.OptionStorage(v))
			s.on, chosen = v, true
		}
	}
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), a, opts...)
	sym.Assert(err == nil, "no enforcer")
	s.agree(en, b)
	if !given && s.on {
		// without an adapter there is no storage the changes could reach
		sym.Cover("none")
		mustAddOnce(en, s, []string{"p", "a"})
		sym.Assert(en.Flush() == nil && en.SavePolicy() == nil && en.LoadPolicy() == nil, "an operation without adapter fails")
		return
	}
	if !given || sym.Bool("exchange") {
		b = &backend{}
		en.SetAdapter(newAdapter(b, sym.Choose("next", 3)).(storage.Adapter))
		if !given && !chosen {
			s.on = true
		}
		s.agree(en, b)
	}
	if sym.Bool("again") {
		s.on = sym.Bool("on")
		sym.Assert(en.SetOption(fastac.OptionStorage(s.on)) == nil, "an option fails")
	}
	mustAddOnce(en, s, []string{"p", "a"})
	mustAddOnce(en, s, []string{"g", "a", "b"})
	s.agree(en, b)
	if s.on {
		sym.Assert(en.Flush() == nil, "flush fails")
		s.flush()
	}
	sym.Cover("end")
	s.agree(en, b)
}

// C25_load: loading is not echoed, whatever the settings are and also if it fails.
func C25_load() {
	b := &backend{rules: [][]string{{"p", sym.StrIn("x", "ab", 1, 1)}, {"zz", "a"}, {"g", "u", "v"}}}
	bad := sym.Bool("fails")
	if !bad {
		b.rules[1] = []string{"p", "c"}
	}
	s := &settings{on: sym.Bool("on"), auto: sym.Bool("auto")}
	en, err := fastac.NewEnforcer(newModel(storeDefs()...), newAdapter(b, sym.Choose("adapter", 3)), fastac.OptionStorage(s.on), fastac.OptionAutosave(s.auto))
	sym.Assert(err == nil, "no enforcer")
	mustAddOnce(en, s, []string{"p", "a"})
	for i := 0; i < 2; i++ {
		err = en.LoadPolicy()
		sym.Assert((err != nil) == bad, "loading reports the wrong result")
		// the rules before the rejected one may or may not be loaded
		s.rules.rules = listed(en.GetModel())
		s.agree(en, b)
	}
	mustAddOnce(en, s, []string{"p", "d"})
	s.agree(en, b)
	if s.on {
		sym.Assert(en.Flush() == nil, "flush fails")
		s.flush()
	}
	sym.Cover("end")
	s.agree(en, b)
}

// C25_file: a file name given as adapter is the file adapter for this file, with its rules loaded.
func C25_file() {
	vfs.Reset()
	text := sym.StrIn("text", "p,a\n", 0, pick(5, 6)) + "\n"
	vfs.Put("/a.csv", text)
	vfs.Put("/b.csv", text)
	auto := sym.Bool("auto")
	named, err := fastac.NewEnforcer(newModel(storeDefs()...), "/a.csv", fastac.OptionAutosave(auto))
	given, gerr := fastac.NewEnforcer(newModel(storeDefs()...), adapter.NewFileAdapter("/b.csv"), fastac.OptionAutosave(auto))
	sym.Assert(gerr == nil, "no enforcer for the file adapter")
	lerr := given.LoadPolicy()
	sym.Assert((err == nil) == (lerr == nil), "a file name loads something else than the file adapter")
	sym.Cover("start")
	if err != nil {
		return
	}
	same := func() {
		sym.Assert(sameRules(listed(named.GetModel()), listed(given.GetModel())), "a file name loads something else than the file adapter")
		x, _ := vfs.Get("/a.csv")
		y, _ := vfs.Get("/b.csv")
		sym.Assert(sortedText(split(x, '\n')) == sortedText(split(y, '\n')), "a file name stores something else than the file adapter")
		sym.Assert(named.GetStorageController().Enabled() == given.GetStorageController().Enabled(), "a file name has other settings than the file adapter")
		sym.Assert(named.GetStorageController().AutosaveEnabled() == given.GetStorageController().AutosaveEnabled(), "a file name has other settings than the file adapter")
	}
	same()
	for i := 0; i < 2; i++ {
		n := itoa(i)
		op := sym.Choose("operation"+n, 5)
		r := []string{"p", sym.StrIn("v"+n, "ac", 1, 1)}
		var res [2]bool
		var errs [2]error
		for k, en := range []*fastac.Enforcer{named, given} {
			switch op {
			case 0:
				res[k], errs[k] = en.AddRule(r)
			case 1:
				res[k], errs[k] = en.RemoveRule(r)
			case 2:
				errs[k] = en.Flush()
			case 3:
				errs[k] = en.SavePolicy()
			case 4:
				errs[k] = en.LoadPolicy()
			}
		}
		sym.Assert(res[0] == res[1] && (errs[0] == nil) == (errs[1] == nil), "a file name behaves differently than the file adapter")
		same()
	}
	sym.Cover("end")
	_, ok := named.GetAdapter().(*adapter.FileAdapter)
	sym.Assert(ok, "a file name is no file adapter")
	sym.Assert(vfs.Handles == 0, "a file stays open")
}
