package h

import (
	"fvh/sym"
	"fvh/vfs"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/storage/adapter"
)

// onDisk is the rule set in a policy file; ok is false if the file can't be loaded.
func onDisk(path string) (rules [][]string, ok bool) {
	rs := adapter.NewRuleSet()
	if adapter.NewFileAdapter(path).LoadPolicy(rs) != nil {
		return nil, false
	}
	return rs.Rules(), true
}

// crashing runs fn and reports whether the machine stopped in it.
func crashing(fn func() error) (err error, crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vfs.Crashed); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	err = fn()
	return
}

// plan chooses what goes wrong: nothing, one failing call, everything from one call on, or a crash.
func plan(max int) {
	kind := sym.Choose("fault", 4)
	if kind == 0 {
		return
	}
	at := 1 + sym.Choose("at", max)
	switch kind {
	case 1:
		vfs.FailAt = at
	case 2:
		vfs.FailFrom = at
	case 3:
		vfs.CrashAt = at
	}
}

// saved checks the file against the rules before and after an operation.
func saved(path string, before, after [][]string, err error, crashed bool) {
	failed, op := vfs.Failed, vfs.FailedOp
	vfs.Recover()
	got, ok := onDisk(path)
	sym.Cover("end")
	sym.Assert(ok, "the policy file can't be loaded anymore")
	sym.Assert(sameRules(got, before) || sameRules(got, after), "the policy file holds neither the previous nor the new rules")
	if !crashed && err == nil {
		sym.Assert(sameRules(got, after), "success is reported, but the new rules are not stored")
		sym.Assert(!failed || op == "close" || op == "remove", "a failed file operation is not reported")
	}
	if !crashed && err != nil {
		sym.Assert(failed, "an error without a failure")
	}
}

// C15_adapter: every way of changing a policy file through the adapter.
func C15_adapter() {
	vfs.Reset()
	a := adapter.NewFileAdapter("/p.csv")
	v := sym.StrIn("v", "a\"\n", 1, 2)
	before := [][]string{{"p", v, "x"}, {"p", "b", "y"}, {"g", "u", "v"}}[:[]int{3, 1, 0}[sym.Choose("rules", 3)]]
	rs := adapter.NewRuleSet()
	for _, r := range before {
		rs.AddRule(r)
	}
	sym.Assert(a.SavePolicy(rs) == nil, "saving fails")
	if sym.Bool("leftover") {
		vfs.Put("/p.csv.tmp", "p, left, over\np, left, over2\np, left, over3\np, left, over4\np, left, over5\np, left, over6\n")
	}
	vfs.Steps = 0
	s := &ref{append([][]string{}, before...)}
	op := sym.Choose("operation", 5)
	plan(pick(14, 18))
	err, crashed := crashing(func() error {
		switch op {
		case 0:
			s.rules = [][]string{{"p", "new", v}, {"p2", "z"}}
			n := adapter.NewRuleSet()
			for _, r := range s.rules {
				n.AddRule(r)
			}
			return a.SavePolicy(n)
		case 1:
			r := []string{"p", "c", v}
			if len(before) == 1 {
				r = []string{"p", sym.StrIn("again", "a\"\n", 1, 2), "x"}
			}
			s.add(r)
			return a.AddRule(r)
		case 2:
			r := []string{"p", v, "x"}
			if len(before) == 1 {
				r = []string{"p", "c"}
			}
			s.remove(r)
			return a.RemoveRule(r)
		case 3:
			s.add([]string{"p", "c"})
			s.add([]string{"g", v, "w"})
			return a.AddRules([][]string{{"p", "c"}, {"g", v, "w"}})
		}
		s.remove([]string{"p", v, "x"})
		s.remove([]string{"g", "u", "v"})
		return a.RemoveRules([][]string{{"p", v, "x"}, {"g", "u", "v"}})
	})
	saved("/p.csv", before, s.rules, err, crashed)
	sym.Assert(crashed || vfs.Handles == 0, "a file is left open")
	// the next save is not disturbed by what is left over
	n := adapter.NewRuleSet()
	n.AddRule([]string{"p", "only"})
	sym.Assert(a.SavePolicy(n) == nil, "saving fails after a failure")
	got, ok := onDisk("/p.csv")
	sym.Assert(ok && sameRules(got, [][]string{{"p", "only"}}), "the rules saved after a failure are not stored")
}

// C15_enforcer: saving and flushing through the enforcer, several failures in a row.
func C15_enforcer() {
	ds := fileDefs()
	en := fileEnforcer(ds)
	auto := sym.Bool("autosave")
	if auto {
		sym.Assert(en.SetOption(fastac.OptionAutosave(true)) == nil, "setting an option fails")
	}
	r1, r2 := []string{"p", "a", "x"}, []string{"g", "u", "v"}
	mustAdd(en, r1)
	if !auto {
		sym.Assert(en.Flush() == nil, "flushing fails")
	}
	before := [][]string{r1}
	if auto {
		// the failing change
		vfs.Steps = 0
		plan(pick(12, 16))
		var changed bool
		err, crashed := crashing(func() (err error) { changed, err = en.AddRule(r2); return })
		sym.Assert(crashed || changed, "a new rule is not added")
		saved("/p.csv", before, [][]string{r1, r2}, err, crashed)
		return
	}
	mustAdd(en, r2)
	mustRemove(en, r1)
	full := sym.Bool("save the whole policy")
	vfs.Steps = 0
	plan(pick(12, 22))
	err, crashed := crashing(func() error {
		if full {
			return en.SavePolicy()
		}
		return en.Flush()
	})
	if full || crashed || err == nil {
		mid := [][]string{r2}
		if !full {
			// two changes, two calls of the adapter
			vfsFailed := vfs.Failed
			vfs.Recover()
			got, ok := onDisk("/p.csv")
			sym.Cover("flush")
			sym.Assert(ok && (sameRules(got, before) || sameRules(got, [][]string{r1, r2}) || sameRules(got, mid)), "the policy file holds none of the states it went through")
			if !crashed {
				sym.Assert(sameRules(got, mid), "success is reported, but the new rules are not stored")
			}
			_ = vfsFailed
			return
		}
		saved("/p.csv", before, mid, err, crashed)
		return
	}
	vfs.Recover()
	got, ok := onDisk("/p.csv")
	sym.Assert(ok && (sameRules(got, before) || sameRules(got, [][]string{r1, r2})), "the policy file holds none of the states it went through")
	sym.Assert(en.Flush() == nil, "flushing after a failure fails")
	got, ok = onDisk("/p.csv")
	sym.Cover("recovered")
	sym.Assert(ok && sameRules(got, [][]string{r2}), "a change is lost after a failure")
}

// C15_load: a failure while loading is reported.
func C15_load() {
	vfs.Reset()
	long := make([]byte, 5000)
	for i := range long {
		long[i] = 'v'
	}
	text := "p, a, b\np, " + string(long) + ", x\np2, " + sym.StrIn("v", "a ", 1, 2) + "\n"
	vfs.Put("/p.csv", text)
	plan(8)
	m := newModel(fileDefs()...)
	var en *fastac.Enforcer
	err, crashed := crashing(func() (err error) { en, err = fastac.NewEnforcer(m, "/p.csv"); return })
	failed, op := vfs.Failed, vfs.FailedOp
	sym.Cover("end")
	if !crashed && err == nil {
		sym.Assert(!failed || op == "close", "a failed file operation is not reported")
		sym.Assert(len(listed(en.GetModel())) == 3, "rules are missing after loading")
	}
	sym.Assert(crashed || err == nil || failed, "an error without a failure")
	vfs.Recover()
	now, have := vfs.Get("/p.csv")
	sym.Assert(have && now == text, "loading changes the file")
}

// C15_big: saves that take several writes.
func C15_big() {
	vfs.Reset()
	a := adapter.NewFileAdapter("/p.csv")
	long := make([]byte, 3000)
	for i := range long {
		long[i] = 'v'
	}
	before := [][]string{{"p", string(long), "x"}, {"p", string(long), sym.StrIn("v", "ab", 1, 1)}, {"p", string(long[:2000]), "z"}}
	rs := adapter.NewRuleSet()
	for _, r := range before {
		rs.AddRule(r)
	}
	sym.Assert(a.SavePolicy(rs) == nil, "saving fails")
	_ = vfs.Chmod("/p.csv", 0640)
	vfs.Steps = 0
	s := &ref{append([][]string{}, before...)}
	n := adapter.NewRuleSet()
	op := sym.Choose("operation", 3)
	plan(18)
	err, crashed := crashing(func() error {
		switch op {
		case 0:
			s.remove(before[1])
			for _, r := range s.rules {
				n.AddRule(r)
			}
			return a.SavePolicy(n)
		case 1:
			s.add([]string{"p", "c", string(long)})
			return a.AddRule([]string{"p", "c", string(long)})
		}
		s.remove(before[1])
		return a.RemoveRules([][]string{before[1]})
	})
	saved("/p.csv", before, s.rules, err, crashed)
	info, serr := vfs.Stat("/p.csv")
	sym.Assert(serr == nil && info.Mode().Perm() == 0640, "the policy file has other permissions")
}
