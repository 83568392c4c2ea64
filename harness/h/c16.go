package h

import (
	"fvh/sym"
	"fvh/vfs"

	"github.com/abichinger/fastac/storage/adapter"
)

// fileRule is an arbitrary rule for a policy file.
func fileRule(name string) []string {
	switch sym.Choose(name+".kind", 3) {
	case 0:
		return []string{"p", sym.StrIn(name, "a,\"", 1, 1)}
	case 1:
		return []string{"p", sym.StrIn(name, "a ", 1, 1), "x"}
	}
	return []string{"g", "a", sym.StrIn(name, "ax#", 1, 1)}
}

// C16_ops: operations on a file with arbitrary rules, singly and in batches.
func C16_ops() {
	vfs.Reset()
	a := adapter.NewFileAdapter("/p.csv")
	s := &ref{}
	vfs.Put("/p.csv", "# rules\np, a\n\np, a, x\ng, a, x")
	for _, r := range [][]string{{"p", "a"}, {"p", "a", "x"}, {"g", "a", "x"}} {
		s.add(r)
	}
	n := pick(2, 3)
	for i := 0; i < n; i++ {
		op := sym.Choose("op"+itoa(i), 4)
		rs := [][]string{fileRule("r" + itoa(i))}
		if op > 1 {
			for j := sym.Choose("n"+itoa(i), pick(2, 3)); j > 0; j-- {
				rs = append(rs, fileRule("r"+itoa(i)+itoa(j)))
			}
		}
		var err error
		switch op {
		case 0:
			err = a.AddRule(rs[0])
		case 1:
			err = a.RemoveRule(rs[0])
		case 2:
			err = a.AddRules(rs)
		case 3:
			err = a.RemoveRules(rs)
		}
		for _, r := range rs {
			if op%2 == 0 {
				s.add(r)
			} else {
				s.remove(r)
			}
		}
		sym.Assert(err == nil, "an operation on a policy file fails")
	}
	got, ok := onDisk("/p.csv")
	sym.Observe("n", len(got))
	sym.Cover("end")
	sym.Assert(ok && sameRules(got, s.rules), "the file does not hold the previous rules plus or minus the given ones")
	sym.Assert(vfs.Handles == 0, "a file is left open")
}

// C16_values: arbitrary values.
func C16_values() {
	vfs.Reset()
	a := adapter.NewFileAdapter("/p.csv")
	vfs.Put("/p.csv", "p, a, b\n")
	v := sym.Str("v", 0, pick(1, 3))
	r := []string{"p", v}
	if sym.Bool("two values") {
		r = append(r, sym.StrIn("w", "b,\" ", 0, 1))
	}
	batch := sym.Bool("batch")
	if batch {
		sym.Assert(a.AddRules([][]string{r, {"p2", v}, r}) == nil, "adding fails")
	} else {
		sym.Assert(a.AddRule(r) == nil && a.AddRule([]string{"p2", v}) == nil && a.AddRule(r) == nil, "adding fails")
	}
	s := &ref{}
	s.add([]string{"p", "a", "b"})
	s.add(r)
	s.add([]string{"p2", v})
	got, ok := onDisk("/p.csv")
	sym.Cover("end")
	sym.Assert(ok && sameRules(got, s.rules), "the file does not hold the previous rules plus the given ones")
	if batch {
		sym.Assert(a.RemoveRules([][]string{r, {"p2", "none", v}}) == nil, "removing fails")
	} else {
		sym.Assert(a.RemoveRule(r) == nil && a.RemoveRule([]string{"p2", "none", v}) == nil, "removing fails")
	}
	s.remove(r)
	got, ok = onDisk("/p.csv")
	sym.Assert(ok && sameRules(got, s.rules), "the file does not hold the previous rules minus the given ones")
}

// C16_special: longer values of the characters with a meaning in policy files.
func C16_special() {
	vfs.Reset()
	a := adapter.NewFileAdapter("/p.csv")
	v := sym.StrIn("v", "a,\"\n\r# ", 0, pick(3, 4))
	vfs.Put("/p.csv", "p, a, b\n")
	sym.Assert(a.AddRule([]string{"p", v}) == nil && a.AddRules([][]string{{"p", v}, {"p", v, "x"}}) == nil, "adding fails")
	got, ok := onDisk("/p.csv")
	sym.Cover("end")
	sym.Assert(ok && sameRules(got, [][]string{{"p", "a", "b"}, {"p", v}, {"p", v, "x"}}), "the file does not hold the previous rules plus the given ones")
	sym.Assert(a.RemoveRules([][]string{{"p", v, "x"}, {"p", "a", "b"}}) == nil && a.RemoveRule([]string{"p", "a", "b"}) == nil, "removing fails")
	got, ok = onDisk("/p.csv")
	sym.Assert(ok && sameRules(got, [][]string{{"p", v}}), "the file does not hold the previous rules minus the given ones")
}

// C16_rejected: a batch with a rule that can't be stored is rejected as a whole.
func C16_rejected() {
	vfs.Reset()
	a := adapter.NewFileAdapter("/p.csv")
	vfs.Put("/p.csv", "p, a\n")
	bad := sym.Choose("position", 3)
	rs := [][]string{{"p", "b"}, {"p", "c"}, {"p", "d"}}
	rs[bad] = []string{}
	err := a.AddRules(rs)
	got, ok := onDisk("/p.csv")
	sym.Cover("end")
	sym.Assert(err != nil, "an empty rule is accepted")
	sym.Assert(ok && sameRules(got, [][]string{{"p", "a"}}), "a rejected batch changes the file")
	sym.Assert(a.AddRule(nil) != nil, "an empty rule is accepted")
}

// C16_mixed: single and batched changes through two adapters of one file, saved policies, and a file changed from outside.
func C16_mixed() {
	vfs.Reset()
	as := []*adapter.FileAdapter{adapter.NewFileAdapter("/p.csv"), adapter.NewFileAdapter("/p.csv")}
	vfs.Put("/p.csv", "p, a\np, b\n")
	s := &ref{}
	s.add([]string{"p", "a"})
	s.add([]string{"p", "b"})
	n := pick(3, 4)
	for i := 0; i < n; i++ {
		k := itoa(i)
		a := as[0]
		if i > 0 && sym.Bool("second"+k) {
			a = as[1]
		}
		r := []string{"p", sym.StrIn("r"+k, "abc", 1, 1)}
		var err error
		switch sym.Choose("op"+k, 7) {
		case 0:
			err = a.AddRule(r)
			s.add(r)
		case 1:
			err = a.RemoveRule(r)
			s.remove(r)
		case 2:
			err = a.AddRules([][]string{r, {"p", "d"}})
			s.add(r)
			s.add([]string{"p", "d"})
		case 3:
			err = a.RemoveRules([][]string{r, {"p", "d"}})
			s.remove(r)
			s.remove([]string{"p", "d"})
		case 4:
			// a policy with as many characters
			rs := adapter.NewRuleSet()
			_, _ = rs.AddRule(r)
			_, _ = rs.AddRule([]string{"p", "e"})
			err = a.SavePolicy(rs)
			s = &ref{}
			s.add(r)
			s.add([]string{"p", "e"})
		case 5:
			vfs.Put("/p.csv", "p, "+r[1]+"\np, f\n")
			s = &ref{}
			s.add(r)
			s.add([]string{"p", "f"})
		case 6:
			// reading changes nothing
			rs := adapter.NewRuleSet()
			err = a.LoadPolicy(rs)
			sym.Assert(sameRules(rs.Rules(), s.rules), "an adapter reads other rules than those of the file")
		}
		sym.Assert(err == nil, "an operation on a policy file fails")
	}
	got, ok := onDisk("/p.csv")
	sym.Observe("n", len(got))
	sym.Cover("end")
	sym.Assert(ok && sameRules(got, s.rules), "the file does not hold the previous rules plus or minus the given ones")
	sym.Assert(vfs.Handles == 0, "a file is left open")
}
