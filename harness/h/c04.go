package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/types"
)

func refEffect(effect string, efts []types.Effect) bool {
	allow, deny := false, false
	for _, e := range efts {
		switch e {
		case eft.Allow:
			allow = true
		case eft.Deny:
			deny = true
		}
	}
	switch effect {
	case someAllow:
		return allow
	case noDeny:
		return !deny
	}
	return allow && !deny
}

// C04_effector: the effector merges every list of effects as declared, fed one effect after the other.
func C04_effector() {
	effect := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	n := sym.Choose("n", pick(7, 9))
	e := effector.NewEffector(defs.NewEffectDef("e", effect))
	effects := []types.Effect{}
	matches := [][]string{}
	all := []types.Effect{}
	for i := 0; i < n; i++ {
		v := sym.Int("eft"+itoa(i), 0, 2)
		x := eft.Indeterminate
		if v == 0 {
			x = eft.Allow
		} else if v == 1 {
			x = eft.Deny
		}
		all = append(all, x)
	}
	res := eft.Indeterminate
	var match []string
	for i, x := range all {
		effects = append(effects, x)
		matches = append(matches, []string{itoa(i)})
		var err error
		res, match, err = e.MergeEffects(effects, matches, false)
		sym.Assert(err == nil, "merging effects fails")
		if res != eft.Indeterminate {
			break
		}
	}
	if res == eft.Indeterminate {
		var err error
		res, match, err = e.MergeEffects(effects, matches, true)
		sym.Assert(err == nil, "merging effects fails")
	}
	sym.Observe("effect", int(res), len(match))
	sym.Cover("end")
	sym.Assert(res != eft.Indeterminate, "no outcome")
	sym.Assert((res == eft.Allow) == refEffect(effect, all), "wrong outcome under "+effect)
}

// C04_enforce: arbitrary effect texts, positions of the effect field and orders of the rules.
func C04_enforce() {
	effect := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	if sym.Bool("spaces") {
		effect = " " + effect[:4] + " " + effect[4:]
	}
	front := sym.Bool("effect first")
	args := "a, eft"
	if front {
		args = "eft, a"
	}
	matcher := []string{"p.a == r.x", "p.a == r.x && p.a != \"z\"", "p.a == r.x || p.a == \"c\""}[sym.Choose("matcher", 3)]
	sym.MapOrder(3)
	m := newModel(def{'r', "r", "x"}, def{'p', "p", args}, def{'e', "e", effect}, def{'m', "m", matcher})
	en := newEnforcer(m)
	efts := []string{"allow", "deny", "other", ""}
	rules := [][]string{}
	n := pick(2, 3)
	for i := 0; i < n; i++ {
		a, t := sym.StrIn("a"+itoa(i), "bcd", 1, 1), efts[sym.Choose("eft"+itoa(i), 4)]
		r := []string{"p", a, t}
		if front {
			r = []string{"p", t, a}
		}
		mustAdd(en, r)
		rules = append(rules, []string{a, t})
	}
	got := mustEnforce(en, "b")
	match := []types.Effect{}
	for _, r := range distinct(rules) {
		if r[0] == "b" || r[0] == "c" && matcher[len(matcher)-3:] == "\"c\"" {
			switch r[1] {
			case "allow", "":
				match = append(match, eft.Allow)
			case "deny":
				match = append(match, eft.Deny)
			}
		}
	}
	base := []string{someAllow, noDeny, allowDeny}
	want := false
	for _, b := range base {
		if trimSpaces(effect) == b {
			want = refEffect(b, match)
		}
	}
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(got == want, "wrong outcome under "+effect)
}

func trimSpaces(s string) string {
	res := ""
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' {
			res += s[i : i+1]
		}
	}
	return res
}

// C04_text: an effect value is allow or deny only when it is exactly that text (or empty, which is allow).
func C04_text() {
	effect := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	t := sym.Str("eft", 0, 5)
	other := []string{"", "allow", "deny"}[sym.Choose("other", 3)]
	m := newModel(def{'r', "r", "x"}, def{'p', "p", "a, eft"}, def{'e', "e", effect}, def{'m', "m", "p.a == r.x || p.a == \"o\""})
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "a", t})
	match := []types.Effect{}
	if other != "" {
		mustAdd(en, []string{"p", "o", other})
		if other == "allow" {
			match = append(match, eft.Allow)
		} else {
			match = append(match, eft.Deny)
		}
	}
	if t == "" || t == "allow" {
		match = append(match, eft.Allow)
	} else if t == "deny" {
		match = append(match, eft.Deny)
	}
	got := mustEnforce(en, "a")
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert(got == refEffect(effect, match), "wrong outcome under "+effect)
}

// C04_noeft: rules of a policy without effect field, or too short to have one, allow.
func C04_noeft() {
	effect := []string{someAllow, noDeny, allowDeny}[sym.Choose("effect", 3)]
	args := []string{"a", "a, b", "a, eft", "a, b, eft", "a, eft2, b"}[sym.Choose("args", 5)]
	m := newModel(def{'r', "r", "x"}, def{'p', "p", args}, def{'e', "e", effect}, def{'m', "m", "p.a == r.x"})
	en := newEnforcer(m)
	r := []string{"p", "a"}
	if args != "a" && args != "a, eft" {
		r = append(r, "deny")
	}
	mustAdd(en, r)
	x := sym.Str("x", 1, 1)
	got := mustEnforce(en, x)
	sym.Cover("end")
	want := effect == noDeny || x == "a"
	sym.Assert(got == want, "a rule without effect value does not allow")
}
