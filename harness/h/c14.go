package h

import (
	"fvh/sym"
	"fvh/vfs"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage/adapter"
)

func fileDefs() []def {
	return []def{{'r', "r", "x"}, {'p', "p", "a, b"}, {'p', "p2", "a"}, {'g', "g", "_, _"}, {'g', "g2", "_, _, _"}, {'e', "e", someAllow}, {'m', "m", "p.a == r.x"}}
}

// reload saves the rules of a model with the given definitions to a file and loads it into a new model.
func reload(en *fastac.Enforcer, ds []def) [][]string {
	sym.Assert(en.SavePolicy() == nil, "saving fails")
	sym.Assert(vfs.Handles == 0, "saving leaves the file open")
	m := newModel(ds...)
	en2, err := fastac.NewEnforcer(m, "/p.csv")
	sym.Assert(err == nil, "loading the saved file fails")
	sym.Assert(vfs.Handles == 0, "loading leaves the file open")
	return listed(en2.GetModel())
}

func fileEnforcer(ds []def) *fastac.Enforcer {
	vfs.Reset()
	vfs.Put("/p.csv", "")
	en, err := fastac.NewEnforcer(newModel(ds...), "/p.csv")
	sym.Assert(err == nil, "no enforcer for an empty policy file")
	return en
}

// C14_value: one arbitrary value in every position.
func C14_value() {
	ds := fileDefs()
	en := fileEnforcer(ds)
	var r []string
	pos := sym.Choose("position", 4)
	max := pick(2, 3)
	if pos == 1 {
		max = 3
	}
	v := sym.Str("v", 0, max)
	switch pos {
	case 0:
		r = []string{"p2", v}
	case 1:
		r = []string{"p", v, "x"}
	case 2:
		r = []string{"p", "x", v}
	case 3:
		r = []string{"g", v, "x"}
	}
	mustAdd(en, r)
	got := reload(en, ds)
	sym.Observe("n", len(got))
	sym.Cover("end")
	sym.Assert(sameRules(got, [][]string{r}), "a rule is altered by saving and loading")
}

// special is a list of lo..hi values of at most one character, among them those with a meaning in policy files.
func special(name string, lo, hi int) []string {
	res := make([]string, lo+sym.Choose(name+".n", hi-lo+1))
	for i := range res {
		res[i] = sym.StrIn(name+"."+itoa(i), "a,\"\n# ", 0, 1)
	}
	return res
}

// C14_rules: several rules of every kind.
func C14_rules() {
	ds := fileDefs()
	en := fileEnforcer(ds)
	s := &ref{}
	n := 2
	for i := 0; i < n; i++ {
		var r []string
		switch sym.Choose("kind"+itoa(i), 4) {
		case 0:
			r = append([]string{"p"}, special("p"+itoa(i), 1, pick(1+i, 3))...)
		case 1:
			r = append([]string{"p2"}, special("q"+itoa(i), 1, 1)...)
		case 2:
			r = append([]string{"g"}, special("g"+itoa(i), 2, 2)...)
		case 3:
			r = append([]string{"g2", "u", "v"}, special("h"+itoa(i), 1, 1)...)
		}
		s.add(r)
		mustAdd(en, r)
	}
	got := reload(en, ds)
	sym.Cover("end")
	sym.Assert(sameRules(got, s.rules), "the rules loaded are not the rules saved")
}

// C14_special: two values of several bytes out of the characters with a meaning in policy files.
func C14_special() {
	ds := fileDefs()
	en := fileEnforcer(ds)
	k := pick(3, 5)
	r := []string{"p", sym.StrIn("a", ",\"\n\r# \t\\a", 0, k), sym.StrIn("b", ",\"\n\r# \t\\a", 0, pick(2, 3))}
	q := []string{"p2", "z"}
	mustAdd(en, r, q)
	got := reload(en, ds)
	sym.Cover("end")
	sym.Assert(sameRules(got, [][]string{r, q}), "the rules loaded are not the rules saved")
}

// C14_long: values around the sizes of the buffers used for reading and writing.
func C14_long() {
	ds := fileDefs()
	en := fileEnforcer(ds)
	base := []int{500, 4085, 4090, 8180, 65530, 66000}
	n := base[sym.Choose("size", len(base))]
	long := make([]byte, n)
	for i := range long {
		long[i] = 'v'
	}
	mid := sym.StrIn("mid", "a,\"\n ", 1, 2)
	v := string(long) + mid
	if sym.Bool("more") {
		v += string(long[:7])
	}
	r, q := []string{"p", v, "x"}, []string{"p", "y", v}
	mustAdd(en, r, q)
	got := reload(en, ds)
	sym.Cover("end")
	sym.Assert(sameRules(got, [][]string{r, q}), "a long rule is altered by saving and loading")
}

// C14_keys: rules of definitions with unusual keys.
func C14_keys() {
	k := "p" + sym.StrIn("k", "2_,\"# =", 0, pick(2, 3))
	ds := []def{{'r', "r", "x"}, {'p', "p", "a, b"}, {'e', "e", someAllow}, {'m', "m", "p.a == r.x"}}
	if k != "p" {
		m := model.NewModel()
		if m.SetDef('p', k, "a") != nil {
			sym.Stop()
		}
		ds = append(ds, def{'p', k, "a"})
	}
	en := fileEnforcer(ds)
	r := []string{k, sym.StrIn("v", "a#\",", 0, 2)}
	mustAdd(en, r)
	got := reload(en, ds)
	sym.Cover("end")
	sym.Assert(sameRules(got, [][]string{r}), "a rule is altered by saving and loading")
}

// C14_again: saving twice, with and without rules, over a longer file.
func C14_again() {
	ds := fileDefs()
	en := fileEnforcer(ds)
	mustAdd(en, []string{"p", "some", "rule"}, []string{"p2", "other"}, []string{"g", "a", "b"})
	sym.Assert(sameRules(reload(en, ds), listed(en.GetModel())), "the rules loaded are not the rules saved")
	if sym.Bool("remove all") {
		mustRemove(en, []string{"p", "some", "rule"}, []string{"p2", "other"}, []string{"g", "a", "b"})
	} else {
		mustRemove(en, []string{"p", "some", "rule"})
	}
	if sym.Bool("add") {
		mustAdd(en, []string{"p2", sym.StrIn("v", "a \"", 0, 2)})
	}
	sym.Cover("end")
	sym.Assert(sameRules(reload(en, ds), listed(en.GetModel())), "the rules loaded are not the rules saved")
	// a model may also be saved through the adapter itself
	a := adapter.NewFileAdapter("/q.csv")
	sym.Assert(a.SavePolicy(en.GetModel()) == nil, "saving to a new file fails")
	m := newModel(ds...)
	sym.Assert(a.LoadPolicy(m) == nil, "loading fails")
	sym.Assert(sameRules(listed(m), listed(en.GetModel())), "the rules loaded are not the rules saved")
}
