package h

import (
	"fvh/sym"
	"fvh/vfs"
	"os"
	"path/filepath"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
)

// modelFile writes a model file and returns its path.
func modelFile(text string) (path string, done func()) {
	if sym.Symbolic() {
		vfs.Put("model.conf", text)
		return "model.conf", func() {}
	}
	dir, err := os.MkdirTemp("", "fvh-model")
	if err != nil {
		sym.Fail("no scratch directory")
	}
	path = filepath.Join(dir, "model.conf")
	if err := os.WriteFile(path, []byte(text), 0600); err != nil {
		sym.Fail("no scratch file")
	}
	vfs.Put(path, text)
	return path, func() { _ = os.RemoveAll(dir) }
}

// secs35 are the sections of a model file, in the order of the letters.
var secs35 = [...]struct {
	sec  byte
	name string
}{{'r', "request_definition"}, {'p', "policy_definition"}, {'g', "role_definition"}, {'e', "policy_effect"}, {'m', "matchers"}}

func defs35() []def {
	return []def{{'r', "r", "x, y"}, {'p', "p", "a, b, eft"}, {'p', "p2", "b"}, {'g', "g", "_, _"}, {'e', "e", allowDeny},
		{'m', "m", "g(r.x, p.a) && r.y == p.b"}, {'m', "m2", "r.x == p2.b || r.y == 'c'"}}
}

// says35 compares a loaded model with the definitions it was written from, also in what it decides.
func says35(m *model.Model, ds []def, msg string) {
	sym.Assert(m.String() == newModel(ds...).String(), msg+" has other definitions than its text")
	en, other := newEnforcer(m), newEnforcer(newModel(ds...))
	for _, e := range []*fastac.Enforcer{en, other} {
		mustAdd(e, []string{"p", "b", "c", "allow"}, []string{"g", "a", "b"})
	}
	x, y := sym.StrIn("x", "abc", 1, 1), sym.StrIn("y", "bc", 1, 1)
	ok, err := en.Enforce(x, y)
	ok2, err2 := other.Enforce(x, y)
	sym.Cover("end")
	sym.Assert((err == nil) == (err2 == nil) && ok == ok2, msg+" decides otherwise")
}

// C35_layout: spaces, blank lines, comments, line ends, unknown sections, and sections and keys in any order do not matter.
func C35_layout() {
	ds := defs35()
	nl := []string{"\n", "\r\n"}[sym.Choose("line end", 2)]
	eq := []string{"=", " = ", "\t=\t", ":"}[sym.Choose("equals", 4)]
	noise, at := "", 0
	start, back, indent, unknown := 0, false, "", 0
	switch sym.Choose("variation", 3) {
	case 0:
		noise = []string{nl, "# comment" + nl, "; p = z" + nl, "  " + nl}[sym.Choose("noise", 4)]
		at = sym.Choose("noise at", 3)
	case 1:
		start, back = sym.Choose("first section", len(secs35)), sym.Bool("backwards")
	case 2:
		indent = []string{"", " ", "\t"}[sym.Choose("indent", 3)]
		unknown = sym.Choose("unknown section", 3)
	}
	text := ""
	if unknown == 1 {
		text += "[unknown]" + nl + "p" + eq + "z" + nl + "q" + eq + "z" + nl
	}
	for i := range secs35 {
		k := (start + i) % len(secs35)
		if back {
			k = (start - i + len(secs35)) % len(secs35)
		}
		if at == 0 {
			text += noise
		}
		text += "[" + secs35[k].name + "]" + nl
		for _, d := range ds {
			if d.sec == secs35[k].sec {
				if at == 1 {
					text += noise
				}
				text += indent + d.key + eq + d.val + nl
			}
		}
		if at == 2 {
			text += noise
		}
		if unknown == 2 && i == 1 {
			text += "[Matchers]" + nl + "m" + eq + "true" + nl
		}
	}
	m := model.NewModel()
	sym.Assert(m.LoadModelFromText(text) == nil, "a model text is refused")
	says35(m, ds, "a model")
}

// C35_split: the same section twice adds up, and of a key given twice the last one counts.
func C35_split() {
	i := sym.Choose("section", len(secs35))
	s := secs35[i]
	again := map[byte][]def{'r': {{'r', "r2", "y, x"}, {'r', "r", "y, x"}}, 'p': {{'p', "p3", "a"}, {'p', "p", "b, a"}}, 'g': {{'g', "g2", "_, _"}, {'g', "g", "_, _, _"}},
		'e': {{'e', "e2", noDeny}, {'e', "e", someAllow}}, 'm': {{'m', "m3", "r.x == 'a'"}, {'m', "m", "r.x == p.b"}}}[s.sec][sym.Choose("definition", 2)]
	same := sym.Bool("same section")
	twice := sym.Bool("loaded twice")
	text, more := "", "["+s.name+"]\n"+again.key+" = "+again.val+"\n"
	ds := []def{}
	for _, sec := range secs35 {
		text += "[" + sec.name + "]\n"
		for _, d := range defs35() {
			if d.sec == sec.sec {
				text += d.key + " = " + d.val + "\n"
				if d.key != again.key {
					ds = append(ds, d)
				}
			}
		}
		if same && sec.sec == s.sec {
			text += again.key + " = " + again.val + "\n"
		}
	}
	ds = append(ds, again)
	m := model.NewModel()
	if !same && !twice {
		text += more
	}
	sym.Assert(m.LoadModelFromText(text) == nil, "a model text is refused")
	if !same && twice {
		sym.Assert(m.LoadModelFromText(more) == nil, "a further model text is refused")
	}
	if again.key == "g" {
		// another number of arguments: the links have domains from now on
		sym.Assert(m.String() == newModel(ds...).String(), "a model has other definitions than its text")
		rm, _ := m.GetRoleManager("g")
		_, err := rm.AddLink("a", "b", "d")
		has, _ := rm.HasLink("a", "b")
		sym.Cover("end")
		sym.Assert(err == nil && !has, "the last definition does not count")
		return
	}
	says35(m, ds, "a model")
}

// C35_wrong: keys in the wrong section and matchers that cannot be built are errors.
func C35_wrong() {
	key := sym.StrIn("key", "rpgemx2", 1, 2)
	k := sym.Choose("section", len(secs35))
	s := secs35[k]
	val := map[byte]string{'r': "x, y", 'p': "a, b", 'g': "_, _", 'e': someAllow, 'm': []string{"r.x == p.a", "r.x == p9.a", "r.x == (p.a", "g7(r.x, p.a) && p.a == ''"}[sym.Choose("matcher", 4)]}[s.sec]
	text := ""
	for _, d := range defs35() {
		if d.sec != s.sec {
			text += "[" + map[byte]string{'r': "request_definition", 'p': "policy_definition", 'g': "role_definition", 'e': "policy_effect", 'm': "matchers"}[d.sec] + "]\n" + d.key + " = " + d.val + "\n"
		}
	}
	if s.sec == 'p' {
		text += "[policy_definition]\np = a, b, eft\np2 = b\n"
	}
	if s.sec == 'g' {
		text += "[role_definition]\ng = _, _\n"
	}
	text += "[" + s.name + "]\n" + key + " = " + val + "\n"
	m := model.NewModel()
	err := m.LoadModelFromText(text)
	sym.Cover("end")
	bad := key[0] != s.sec || s.sec == 'm' && (val == "r.x == p9.a" || val == "r.x == (p.a")
	if bad {
		sym.Assert(err != nil, "a wrong model text is accepted")
	} else if s.sec != 'm' || val == "r.x == p.a" {
		sym.Assert(err == nil, "a model text is refused")
		d, ok := m.GetDef(s.sec, key)
		sym.Assert(ok && d.GetKey() == key, "a definition is missing")
	}
}

// C35_broken: a line that cannot be read makes a text and a file an error, wherever it stands.
func C35_broken() {
	lines := []string{"[request_definition]", "r = x", "[policy_definition]", "p = a", "[policy_effect]", "e = " + someAllow, "[matchers]", "m = r.x == p.a"}
	var bad string
	kind := sym.Choose("kind", 3)
	at := 1 + sym.Choose("at", len(lines))
	switch kind {
	case 0: // no delimiter
		bad = sym.StrIn("line", "ar ,_.", 1, pick(3, 4))
		blank := true
		for i := 0; i < len(bad); i++ {
			if bad[i] != ' ' {
				blank = false
			}
		}
		sym.Assume(!blank)
	case 1:
		bad = []string{"[matchers", "[]", "= x", ": x", "\"r2 = x", "`r2 = x", "\"\"\"r2 = x", "=", " = "}[sym.Choose("line", 9)]
	case 2: // never closed
		bad = lines[len(lines)-1] + "\nm2 = " + []string{"`r.x == p.a", "\"\"\"r.x == p.a"}[sym.Choose("quote", 2)]
		at = len(lines)
	}
	text := ""
	for i, line := range lines {
		if i == at {
			text += bad + "\n"
		}
		text += line + "\n"
	}
	if at == len(lines) {
		text += bad
		if sym.Bool("line end") {
			text += "\n"
		}
	}
	m := model.NewModel()
	var err error
	switch sym.Choose("way", 4) {
	case 0:
		err = m.LoadModelFromText(text)
	case 1:
		path, done := modelFile(text)
		err = m.LoadModel(path)
		done()
	case 2:
		path, done := modelFile(text)
		m, err = model.NewModelFromFile(path)
		done()
		sym.Assert(m == nil || err == nil, "a model and an error")
	case 3:
		path, done := modelFile(text)
		_, err = fastac.NewEnforcer(path, nil)
		done()
	}
	sym.Observe("error", err != nil)
	sym.Cover("end")
	sym.Assert(err != nil, "a text that cannot be read is accepted")
}

// C35_bytes: any text is loaded or refused.
func C35_bytes() {
	pre := []string{"", "[", "[matchers]\nm", "[matchers]\nm = ", "[policy_definition]\np = ", "[role_definition]\ng = ", "[policy_effect]\ne = "}[sym.Choose("before", 7)]
	text := pre + sym.Str("text", 0, pick(2, 3))
	m := model.NewModel()
	err := m.LoadModelFromText(text)
	sym.Observe("error", err != nil)
	sym.Cover("end")
	if err == nil {
		m2 := model.NewModel()
		sym.Assert(m2.LoadModelFromText(m.String()) == nil, "a loaded model prints a text that is refused")
	}
	_, _ = fastac.NewEnforcer(m, nil)
}

// C35_chars: any text of the characters with a meaning.
func C35_chars() {
	pre := []string{"", "[matchers]\nm = ", "[request_definition]\nr = x\n"}[sym.Choose("before", 3)]
	text := pre + sym.StrIn("text", "[]=rm\n\"'`\\#", 0, pick(3, 4))
	m := model.NewModel()
	err := m.LoadModelFromText(text)
	sym.Observe("error", err != nil)
	sym.Cover("end")
}

// C35_file: a file gives the model its text gives, and a missing or unreadable file is an error.
func C35_file() {
	rule := "r.x == p.a || r.x == "
	if q := sym.Choose("quotes", 6); q == 0 {
		rule += "'" + sym.Str("v", 0, pick(1, 2)) + "'"
	} else {
		quote := []string{"\"", "'", "`", "\"\"\"", "'''"}[q-1]
		val := sym.StrIn("w", "a'\"`\\#;", 0, pick(1, 2))
		rule = quote + []string{rule + "\"" + val + "\"", rule + "'" + val + "'", "r.x == p.a" + val}[sym.Choose("inside", 3)] + quote
	}
	text := "[request_definition]\nr = x\n[policy_definition]\np = a\n[policy_effect]\ne = " + someAllow + "\n[matchers]\nm = " + rule + "\n"
	path, done := modelFile(text)
	defer done()
	way := sym.Choose("way", 3)
	m := model.NewModel()
	var err error
	switch way {
	case 0:
		err = m.LoadModel(path)
	case 1:
		m, err = model.NewModelFromFile(path)
	case 2:
		m, err = model.NewModelFromFile(path + "x")
		sym.Assert(err != nil && m == nil, "a missing file gives a model")
		en, err := fastac.NewEnforcer(path+"x", nil)
		sym.Cover("missing")
		sym.Assert(err != nil && en == nil, "a missing file gives an enforcer")
		return
	}
	m2 := model.NewModel()
	err2 := m2.LoadModelFromText(text)
	sym.Cover("end")
	sym.Assert((err == nil) == (err2 == nil), "a file is refused and its text is not, or the other way round")
	if err == nil {
		sym.Assert(m.String() == m2.String(), "a file gives another model than its text")
		en, err := fastac.NewEnforcer(path, nil)
		sym.Assert(err == nil && en.GetModel().String() == m2.String(), "a file name given as model gives another model than its text")
		x := sym.Str("x", 0, 1)
		ok, err := en.Enforce(x)
		ok2, err2 := newEnforcer(m2).Enforce(x)
		sym.Assert((err == nil) == (err2 == nil) && ok == ok2, "a model of a file decides otherwise")
	} else {
		if way == 1 {
			sym.Assert(m == nil, "a refused file gives a model")
		}
		en, err := fastac.NewEnforcer(path, nil)
		sym.Assert(err != nil && en == nil, "a refused file gives an enforcer")
	}
}

// C35_keys: keys of any letters, digits and underscores, in a text or a file.
func C35_keys() {
	i := sym.Choose("section", len(secs35))
	s := secs35[i]
	key := string(s.sec) + sym.StrIn("key", "Aa_2rm-", 0, pick(2, 3))
	other := string(s.sec) + sym.StrIn("other", "Aa2", 0, 1)
	vals := map[byte][]string{'r': {"X, y_1", "x"}, 'p': {"A, b", "a"}, 'g': {"_, _", "_, _, _"}, 'e': {noDeny, someAllow}, 'm': {"'A' == 'a'", "true"}}[s.sec]
	text := "[" + s.name + "]\n" + key + " = " + vals[0] + "\n" + other + " = " + vals[1] + "\n"
	if s.sec == 'm' {
		text = "[policy_definition]\np = a\n" + text
	}
	m := model.NewModel()
	if sym.Bool("file") {
		path, done := modelFile(text)
		defer done()
		sym.Assert(m.LoadModel(path) == nil, "a model file is refused")
	} else {
		sym.Assert(m.LoadModelFromText(text) == nil, "a model text is refused")
	}
	want := []def{{s.sec, key, vals[0]}, {s.sec, other, vals[1]}}
	if s.sec == 'm' {
		want = append([]def{{'p', "p", "a"}}, want...)
	}
	sym.Cover("end")
	sym.Assert(m.String() == newModel(want...).String(), "a model has other definitions than its text")
	for _, d := range want {
		x, ok := m.GetDef(d.sec, d.key)
		sym.Assert(ok && x.GetKey() == d.key, "a definition is missing")
	}
}
