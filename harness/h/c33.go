package h

import (
	"errors"
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/fm"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/model/types"
	"github.com/abichinger/fastac/rbac"
	em "github.com/vansante/go-event-emitter"
)

var errForeign = errors.New("foreign part fails")

// policy33 is a foreign policy: it keeps its rules in a list and refuses rules whose last value is "!".
type policy33 struct {
	*em.Emitter
	s ref
}

func (p *policy33) AddRule(rule []string) (bool, error) {
	if rule[len(rule)-1] == "!" {
		return false, errForeign
	}
	if !p.s.add(rule) {
		return false, nil
	}
	p.EmitEvent(policy.EVT_RULE_ADDED, append([]string{}, rule...))
	return true, nil
}

func (p *policy33) RemoveRule(rule []string) (bool, error) {
	if rule[len(rule)-1] == "!" {
		return false, errForeign
	}
	if !p.s.remove(rule) {
		return false, nil
	}
	p.EmitEvent(policy.EVT_RULE_REMOVED, append([]string{}, rule...))
	return true, nil
}

func (p *policy33) Range(fn func(rule []string) bool) {
	for _, r := range p.s.rules {
		if !fn(append([]string{}, r...)) {
			return
		}
	}
}

func (p *policy33) Clear() error {
	p.s.rules = nil
	p.EmitEvent(policy.EVT_CLEARED)
	return nil
}

func defs33() []def {
	return []def{{'r', "r", "x, y"}, {'r', "r2", "y, x"}, {'p', "p", "a, b, eft"}, {'p', "p2", "a, b, eft"}, {'g', "g", "_, _"}, {'g', "g2", "_, _"},
		{'e', "e", someAllow}, {'m', "m", "r.x == p.a && r.y == p.b"}, {'m', "m2", "g(r.x, p2.a) && r.y == p2.b"},
		{'m', "mg", "r.x == g.user"}, {'m', "mg2", "r.x == g2.user"}}
}

// keyed33 lists the rules of a reference under a key, with the key.
func keyed33(s *ref, key string) [][]string {
	l := [][]string{}
	for _, r := range s.rules {
		if r[0] == key {
			l = append(l, r)
		}
	}
	return l
}

// C33_policy: a foreign policy takes over one key: its rules decide, changes reach it, its refusals are errors, and nothing else changes.
func C33_policy() {
	m := newModel(defs33()...)
	b := &backend{}
	en, err := fastac.NewEnforcer(m, newAdapter(b, 1), fastac.OptionAutosave(true), fastac.OptionStorage(true))
	sym.Assert(err == nil, "no enforcer")
	s := &ref{}
	v := func(n string) string { return sym.StrIn(n, "ab", 1, 1) }
	for _, r := range [][]string{{"p", v("u"), "z"}, {"p2", v("v"), "z"}, {"g", "a", "b"}} {
		mustAdd(en, r)
		s.add(r)
	}
	f := &policy33{Emitter: em.NewEmitter(false)}
	own := []string{v("w"), "z"}
	empty := sym.Bool("empty")
	if !empty {
		f.s.add(own)
	}
	m.SetPolicy("p", f)
	sym.Assert(m.BuildMatchers() == nil, "matchers cannot be built over a foreign policy")
	got, ok := m.GetPolicy("p")
	sym.Assert(ok && got == policy.IPolicy(f), "another policy is there than the one set")
	s.clear("p")
	if !empty {
		s.add([]string{"p", own[0], own[1]})
	}
	log := append([]change{}, b.log...)
	for i := 0; i < pick(2, 3); i++ {
		r := []string{[]string{"p", "p2"}[sym.Choose("key"+itoa(i), 2)], v("a" + itoa(i)), sym.StrIn("b"+itoa(i), "z!", 1, 1)}
		bad := r[0] == "p" && r[2] == "!"
		var changed, want bool
		var err error
		if sym.Bool("remove" + itoa(i)) {
			changed, err = en.RemoveRule(r)
			want = !bad && s.remove(r)
		} else {
			changed, err = en.AddRule(r)
			want = !bad && s.add(r)
		}
		sym.Assert((err != nil) == bad, "the error of a foreign policy is lost, or there is one without it")
		sym.Assert(changed == want, "a change reports the wrong result")
		if want {
			log = append(log, change{hasRule(s.rules, r), r})
		}
	}
	cleared := sym.Bool("cleared")
	if cleared {
		sym.Assert(m.ClearPolicy("p") == nil, "a foreign policy cannot be cleared")
		s.clear("p")
	}
	sym.Cover("end")
	sym.Assert(sameLog(b.log, log), "the storage does not get exactly the changes")
	sym.Assert(sameRules(listed(m), s.rules), "the rules listed are not those of the foreign policy and the others")
	sym.Assert(sameRules(f.s.rules, s.of("p")), "the foreign policy does not hold the rules")
	x := sym.StrIn("x", "ab", 1, 1)
	sym.Assert(mustEnforce(en, x, "z") == hasRule(s.rules, []string{"p", x, "z"}), "a decision does not follow the foreign policy")
	sym.Assert(sameRules(mustFilter(en, fastac.SetMatcher("p.b == \"z\"")), keyedWith33(s, "p")), "a filter does not follow the foreign policy")
	want2 := hasRule(s.rules, []string{"p2", x, "z"}) || x == "a" && hasRule(s.rules, []string{"p2", "b", "z"})
	sym.Assert(mustEnforce(en, fastac.SetMatcher("m2"), x, "z") == want2, "a decision over another policy changes")
}

// C33_new: a policy and a role manager under keys which have no definition: changes, clears and listings reach them.
func C33_new() {
	m := newModel(defs33()...)
	b := &backend{}
	en, err := fastac.NewEnforcer(m, newAdapter(b, 1), fastac.OptionAutosave(true), fastac.OptionStorage(true))
	sym.Assert(err == nil, "no enforcer")
	f := &policy33{Emitter: em.NewEmitter(false)}
	rm := &roles33{}
	if sym.Bool("own") {
		m.SetPolicy("p7", f)
		m.SetRoleManager("g7", rm)
	} else {
		m.SetPolicy("p7", policy.NewPolicy(defs.NewPolicyDef("p7", "a, b")))
		m.SetRoleManager("g7", rbac.NewRoleManager(10))
	}
	if sym.Bool("rebuilt") {
		sym.Assert(m.BuildMatchers() == nil, "matchers cannot be built")
	}
	s := &ref{}
	log := []change{}
	for i := 0; i < pick(3, 4); i++ {
		key := []string{"p7", "g7"}[sym.Choose("key"+itoa(i), 2)]
		r := []string{key, sym.StrIn("a"+itoa(i), "ab", 1, 1), "z"}
		var changed, want bool
		switch sym.Choose("change"+itoa(i), 3) {
		case 0:
			changed, err = en.AddRule(r)
			want = s.add(r)
		case 1:
			changed, err = en.RemoveRule(r)
			want = s.remove(r)
		case 2:
			err = m.ClearPolicy(key)
			s.clear(key)
		}
		sym.Assert(err == nil, "a change of a part set under a new key fails")
		sym.Assert(changed == want, "a change reports the wrong result")
		if want {
			log = append(log, change{hasRule(s.rules, r), r})
		}
	}
	sym.Cover("end")
	sym.Assert(sameLog(b.log, log), "the storage does not get exactly the changes")
	sym.Assert(sameRules(listed(m), s.rules), "the rules listed are not those of the parts set")
	x := sym.StrIn("x", "ab", 1, 1)
	got, err := en.Filter(fastac.SetMatcher("g7.user == \""+x+"\""), "q", "q")
	sym.Assert(err == nil, "a filter over the links of a new key fails")
	want := [][]string{}
	for _, r := range keyed33(s, "g7") {
		if r[1] == x {
			want = append(want, r)
		}
	}
	sym.Assert(sameRules(got, want), "a filter over the links of a new key does not follow them")
}

// keyedWith33 lists the rules under a key with "z" as second value.
func keyedWith33(s *ref, key string) [][]string {
	l := [][]string{}
	for _, r := range keyed33(s, key) {
		if r[2] == "z" {
			l = append(l, r)
		}
	}
	return l
}

// roles33 is a foreign role manager: links hold in both directions, never through others, and names with "!" fail.
type roles33 struct {
	s     ref
	calls [][]string
}

func (m *roles33) bad(a, b string) bool { return a == "!" || b == "!" }

func (m *roles33) AddLink(a, b string, domain ...string) (bool, error) {
	if m.bad(a, b) {
		return false, errForeign
	}
	return m.s.add(append([]string{a, b}, domain...)), nil
}

func (m *roles33) DeleteLink(a, b string, domain ...string) (bool, error) {
	if m.bad(a, b) {
		return false, errForeign
	}
	return m.s.remove(append([]string{a, b}, domain...)), nil
}

func (m *roles33) HasLink(a, b string, domain ...string) (bool, error) {
	m.calls = append(m.calls, append([]string{a, b}, domain...))
	if m.bad(a, b) {
		return true, errForeign
	}
	return hasRule(m.s.rules, append([]string{a, b}, domain...)) || hasRule(m.s.rules, append([]string{b, a}, domain...)), nil
}

func (m *roles33) GetRoles(name string, domain ...string) ([]string, error) { return nil, nil }
func (m *roles33) GetUsers(name string, domain ...string) ([]string, error) { return nil, nil }
func (m *roles33) Clear() error {
	m.s.rules = nil
	return nil
}

func (m *roles33) Range(fn func(a, b string, domain ...string) bool) {
	for _, r := range m.s.rules {
		if !fn(r[0], r[1], r[2:]...) {
			return
		}
	}
}

// C33_roles: a foreign role manager takes over one key: the role function asks it, link changes reach it with all their values, its errors surface.
func C33_roles() {
	m := newModel(append(defs33(), def{'m', "md", "g(r.x, p.a, r.y)"})...)
	b := &backend{}
	en, err := fastac.NewEnforcer(m, newAdapter(b, 0), fastac.OptionAutosave(true), fastac.OptionStorage(true))
	sym.Assert(err == nil, "no enforcer")
	mustAdd(en, []string{"p2", "b", "z"}, []string{"p", "b", "z"}, []string{"g", "a", "b"}, []string{"g2", "c", "b"})
	if sym.Bool("used before") {
		mustEnforce(en, fastac.SetMatcher("m2"), "a", "z")
	}
	f := &roles33{}
	m.SetRoleManager("g", f)
	got, ok := m.GetRoleManager("g")
	sym.Assert(ok && got == rbac.IRoleManager(f), "another role manager is there than the one set")
	rebuilt := sym.Bool("rebuilt")
	if rebuilt {
		sym.Assert(m.BuildMatchers() == nil, "matchers cannot be built over a foreign role manager")
	}
	s := &ref{}
	log := append([]change{}, b.log...)
	for i := 0; i < pick(2, 3); i++ {
		r := []string{"g", sym.StrIn("u"+itoa(i), "ab!", 1, 1), sym.StrIn("v"+itoa(i), "bc", 1, 1)}
		if sym.Bool("domain" + itoa(i)) {
			r = append(r, "z")
		}
		bad := r[1] == "!"
		var changed, want bool
		var err error
		if i > 0 && sym.Bool("remove"+itoa(i)) {
			changed, err = en.RemoveRule(r)
			want = !bad && s.remove(r)
		} else {
			changed, err = en.AddRule(r)
			want = !bad && s.add(r)
		}
		sym.Assert((err != nil) == bad, "the error of a foreign role manager is lost, or there is one without it")
		sym.Assert(changed == want, "a change reports the wrong result")
		if want {
			log = append(log, change{hasRule(s.rules, r), r})
		}
	}
	if sym.Bool("cleared") {
		sym.Assert(m.ClearPolicy("g") == nil, "a foreign role manager cannot be cleared")
		s.clear("g")
	}
	sym.Cover("end")
	sym.Assert(sameLog(b.log, log), "the storage does not get exactly the changes")
	sym.Assert(sameRules(f.s.rules, s.of("g")), "the foreign role manager does not hold the links")
	sym.Assert(sameRules(listed(m), append([][]string{{"p", "b", "z"}, {"p2", "b", "z"}, {"g2", "c", "b"}}, s.rules...)), "the rules listed are not those of the foreign role manager and the others")
	linked := func(l ...string) bool { return hasRule(s.rules, l) }
	x := sym.StrIn("x", "abc!", 1, 1)
	f.calls = nil
	allowed, err := en.Enforce(fastac.SetMatcher("m2"), x, "z")
	sym.Assert((err != nil) == (x == "!"), "the error of a foreign role manager does not surface in the decision")
	sym.Assert(allowed == (x != "!" && (linked("g", x, "b") || linked("g", "b", x))), "a decision does not follow the foreign role manager")
	sym.Assert(sameRules(f.calls, [][]string{{x, "b"}}), "the foreign role manager is not asked what the matcher asks")
	allowed, err = en.Enforce(fastac.SetMatcher("md"), x, "z")
	sym.Assert((err != nil) == (x == "!"), "the error of a foreign role manager does not surface in the decision")
	sym.Assert(allowed == (x != "!" && (linked("g", x, "b", "z") || linked("g", "b", x, "z"))), "domains do not reach the foreign role manager")
	if rebuilt {
		want := [][]string{}
		for _, l := range s.rules {
			if l[1] == x {
				want = append(want, l)
			}
		}
		sym.Assert(sameRules(mustFilter(en, fastac.SetMatcher("mg"), x, "z"), want), "a matcher over links does not follow the foreign role manager")
	}
	sym.Assert(sameRules(mustFilter(en, fastac.SetMatcher("mg2"), "c", "z"), [][]string{{"g2", "c", "b"}}), "links under another key change")
}

// C33_limit: a role manager with its own hierarchy limit and links of its own is used as it is.
func C33_limit() {
	m := newModel(defs33()...)
	en := newEnforcer(m)
	level := 1 + sym.Choose("level", 4)
	var rm rbac.IRoleManager
	domain := sym.Bool("domain manager")
	if domain {
		rm = rbac.NewDomainManager(level)
	} else {
		rm = rbac.NewRoleManager(level)
	}
	before := sym.Choose("links before", 4)
	names := []string{"a", "b", "c", "d"}
	ls := [][]string{}
	add := func(i int) {
		_, err := rm.AddLink(names[i], names[i+1])
		sym.Assert(err == nil, "a link cannot be added")
		ls = append(ls, []string{names[i], names[i+1]})
	}
	for i := 0; i < before; i++ {
		add(i)
	}
	m.SetRoleManager("g", rm)
	sym.Assert(m.BuildMatchers() == nil, "matchers cannot be built")
	for i := before; i < 3; i++ {
		if sym.Bool("by rule") {
			mustAdd(en, []string{"g", names[i], names[i+1]})
			ls = append(ls, []string{names[i], names[i+1]})
		} else {
			add(i)
		}
	}
	x, y := sym.StrIn("x", "abcd", 1, 1), sym.StrIn("y", "abcd", 1, 1)
	mustAdd(en, []string{"p2", y, "z"})
	got := mustEnforce(en, fastac.SetMatcher("m2"), x, "z")
	sym.Observe("got", got)
	max := level - 1
	if domain && max > 0 {
		max-- // every domain level costs one, also the empty domain path
	}
	sym.Cover("end")
	sym.Assert(got == reach(ls, x, y, max), "the hierarchy limit of the role manager does not hold")
	want := [][]string{{"p2", y, "z"}}
	for _, l := range ls {
		want = append(want, append([]string{"g"}, l...))
	}
	sym.Assert(sameRules(listed(m), want), "the links of a role manager are not listed")
}

// matcher33 is a foreign matcher over some rules of its own: the first value is compared with the first request value.
type matcher33 struct {
	key   string
	rules [][]string
	fail  int // after how many matches it fails (-1: never)
	rvals []interface{}
	rkey  string
	fns   fm.FunctionMap
}

func (m *matcher33) GetPolicyKey() string { return m.key }

func (m *matcher33) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap fm.FunctionMap, fn func(rule []string) bool) error {
	m.rvals, m.rkey, m.fns = rvals, rDef.GetKey(), fMap
	n := 0
	for _, r := range m.rules {
		if n == m.fail {
			return errForeign
		}
		if len(rvals) > 0 && rvals[0] == r[0] {
			n++
			if !fn(append([]string{}, r...)) {
				return nil
			}
		}
	}
	if n == m.fail {
		return errForeign
	}
	return nil
}

// C33_matcher: a foreign matcher decides, by key or given with the request; its matches get the key of its policy, its error is the decision's.
func C33_matcher() {
	m := newModel(append(defs33(), def{'e', "e2", noDeny})...)
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "a", "z"}, []string{"p2", "b", "z"})
	f := &matcher33{key: []string{"p", "p2"}[sym.Choose("policy", 2)], fail: sym.Choose("fail", 4) - 1}
	efts := []string{"allow", "deny", "none"}
	for i := 0; i < 2; i++ {
		f.rules = append(f.rules, []string{sym.StrIn("u"+itoa(i), "ab", 1, 1), "z", efts[sym.Choose("eft"+itoa(i), 3)]})
	}
	x := sym.StrIn("x", "ab", 1, 1)
	params := []interface{}{x, "z"}
	way := sym.Choose("way", 3)
	switch way {
	case 0:
		m.SetMatcher("m", f)
	case 1:
		m.SetMatcher("m3", f)
		params = append(params, fastac.SetMatcher("m3"))
	case 2:
		params = append(params, fastac.SetMatcher(f))
	}
	key := "r"
	if sym.Bool("other request definition") {
		params = append(params, fastac.SetRequestDef("r2"))
		key = "r2"
	}
	deny := sym.Bool("deny overrides")
	if deny {
		params = append(params, fastac.SetEffector("e2"))
	}
	// what the effect makes of the matches, one after the other
	want, settled, matches, err := deny, false, [][]string{}, false
	n := 0
	for _, r := range f.rules {
		if n == f.fail {
			err = true
			break
		}
		if r[0] != x {
			continue
		}
		n++
		matches = append(matches, append([]string{f.key}, r...))
		if !settled && r[2] == "allow" && !deny {
			want, settled = true, true
		}
		if !settled && r[2] == "deny" && deny {
			want, settled = false, true
		}
		if settled {
			break
		}
	}
	if !settled && n == f.fail {
		err = true
	}
	got, e := en.Enforce(params...)
	sym.Cover("end")
	sym.Assert((e != nil) == err, "the error of a foreign matcher is lost, or there is one without it")
	sym.Assert(got == (!err && want), "a decision does not follow the foreign matcher")
	sym.Assert(f.rkey == key && len(f.rvals) == 2 && f.rvals[0] == x && f.rvals[1] == "z", "the foreign matcher gets another request")
	_, has := f.fns.GetFunctions()["g"]
	sym.Assert(has, "the foreign matcher does not get the functions")
	rules := mustListed33(en, params)
	all := [][]string{}
	for _, r := range f.rules {
		if len(all) == f.fail {
			break
		}
		if r[0] == x {
			all = append(all, append([]string{f.key}, r...))
		}
	}
	sym.Assert(len(rules) == len(all), "a filter does not follow the foreign matcher")
	for i := range all {
		sym.Assert(eqRule(rules[i], all[i]), "a filter changes the rules of a foreign matcher")
	}
	if way > 0 {
		sym.Assert(mustEnforce(en, x, "z") == (x == "a"), "another matcher changes")
	}
}

// mustListed33 collects the matches until the matcher ends or fails.
func mustListed33(en *fastac.Enforcer, params []interface{}) [][]string {
	res := [][]string{}
	_ = en.RangeMatches(params, func(r []string) bool {
		res = append(res, r)
		return true
	})
	return res
}

// effector33 is a foreign effector: the decision settles after a number of calls, or at the end.
type effector33 struct {
	after  int // number of matches after which it settles
	early  types.Effect
	last   types.Effect
	fail   int // the call that fails (0: none)
	calls  int
	wrong  string
	effs   []types.Effect
	rules  [][]string
	ended  bool
	ending bool // the complete call has been made
}

func (f *effector33) MergeEffects(effects []types.Effect, matches [][]string, complete bool) (types.Effect, []string, error) {
	f.calls++
	if f.ended {
		f.wrong = "called after the decision settled"
	}
	if len(effects) != len(matches) {
		f.wrong = "effects and matches of different length"
		return f.early, nil, nil
	}
	n := len(f.effs)
	if complete {
		f.ending = true
		if len(effects) != n {
			f.wrong = "the complete call has other effects than the calls before"
		}
	} else if len(effects) != n+1 {
		f.wrong = "a match is left out or told twice"
	}
	for i := range f.effs {
		if i < len(effects) && (effects[i] != f.effs[i] || !eqRule(matches[i], f.rules[i])) {
			f.wrong = "former effects change"
		}
	}
	f.effs = append([]types.Effect{}, effects...)
	f.rules = append([][]string{}, matches...)
	if f.calls == f.fail {
		f.ended = true
		return eft.Allow, nil, errForeign
	}
	if complete {
		f.ended = true
		return f.last, nil, nil
	}
	if len(effects) == f.after {
		f.ended = true
		return f.early, nil, nil
	}
	return eft.Indeterminate, nil, nil
}

// C33_effector: a foreign effector is asked after every match and once at the end, and its outcome is the decision.
func C33_effector() {
	m := newModel(defs33()...)
	en := newEnforcer(m)
	efts := []string{"allow", "deny", "none", ""}
	x := sym.StrIn("x", "ab", 1, 1)
	n := 0
	want := [][]string{}
	for i := 0; i < pick(2, 3); i++ {
		r := []string{"p", sym.StrIn("u"+itoa(i), "ab", 1, 1), "z", efts[sym.Choose("eft"+itoa(i), 4)]}
		if i == 2 {
			r[2] = "y"
		}
		added, _ := en.AddRule(r)
		if added && r[1] == x && r[2] == "z" {
			n++
			want = append(want, r)
		}
	}
	outcomes := []types.Effect{eft.Allow, eft.Deny, eft.Indeterminate}
	f := &effector33{after: sym.Choose("settles after", 4), early: outcomes[sym.Choose("early", 2)], last: outcomes[sym.Choose("last", 3)], fail: sym.Choose("fail", 4)}
	params := []interface{}{x, "z"}
	way := sym.Choose("way", 3)
	switch way {
	case 0:
		m.SetEffector("e", f)
	case 1:
		m.SetEffector("e2", f)
		params = append(params, fastac.SetEffector("e2"))
	case 2:
		params = append(params, fastac.SetEffector(f))
	}
	got, err := en.Enforce(params...)
	early := f.after > 0 && f.after <= n
	calls := n + 1
	if early {
		calls = f.after
	}
	failed := f.fail > 0 && f.fail <= calls
	if failed {
		calls = f.fail
	}
	sym.Cover("end")
	sym.Assert(f.wrong == "", "the effector is called in the wrong way")
	sym.Assert(f.calls == calls, "the effector is called too often or not often enough")
	sym.Assert((err != nil) == failed, "the error of a foreign effector is lost, or there is one without it")
	out := f.last
	if early {
		out = f.early
	}
	sym.Assert(got == (!failed && out == eft.Allow), "the decision is not the outcome of the effector")
	for i, r := range f.rules {
		sym.Assert(hasRule(want, r) && !hasRule(f.rules[:i], r), "the effector gets rules that do not match")
		wantEft := types.Effect(eft.Indeterminate)
		switch r[3] {
		case "allow", "":
			wantEft = eft.Allow
		case "deny":
			wantEft = eft.Deny
		}
		sym.Assert(f.effs[i] == wantEft, "the effector gets the effect of another rule")
	}
	if way > 0 {
		sym.Assert(mustEnforce(en, x, "z") == allows33(want), "another effector changes")
	}
}

func allows33(rules [][]string) bool {
	for _, r := range rules {
		if r[3] == "allow" || r[3] == "" {
			return true
		}
	}
	return false
}

// C33_request: a request definition set as an object, under a new key or an old one, or given with the request.
func C33_request() {
	m := newModel(defs33()...)
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "a", "b"})
	args := []string{"x, y", "y, x", "y, z, x", "x"}[sym.Choose("fields", 4)]
	key := []string{"r", "r3"}[sym.Choose("key", 2)]
	d := defs.NewRequestDef("r", args)
	way := sym.Choose("way", 2)
	v, w := sym.StrIn("v", "ab", 1, 1), sym.StrIn("w", "ab", 1, 1)
	params := []interface{}{v, w}
	if args == "y, z, x" {
		params = []interface{}{v, "z", w}
	}
	values := append([]interface{}{}, params...)
	if way == 0 {
		m.SetRequestDef(key, d)
		got, ok := m.GetRequestDef(key)
		sym.Assert(ok && got == d, "another request definition is there than the one set")
		if key != "r" || sym.Bool("named") {
			params = append(params, fastac.SetRequestDef(key))
		}
	} else {
		params = append(params, fastac.SetRequestDef(d))
	}
	got, err := en.Enforce(params...)
	sym.Cover("end")
	switch args {
	case "x, y":
		sym.Assert(err == nil && got == (v == "a" && w == "b"), "a decision does not follow the request definition")
	case "y, x", "y, z, x":
		sym.Assert(err == nil && got == (w == "a" && v == "b"), "a decision does not follow the request definition")
	default:
		if v == "a" {
			sym.Assert(err != nil && !got, "a field that is not defined has a value")
		}
		sym.Assert(!got, "a field that is not defined has a value")
	}
	if way == 1 || key != "r" {
		if len(values) == 2 {
			sym.Assert(mustEnforce(en, values...) == (v == "a" && w == "b"), "the default request definition changes")
		}
	}
}

var _ model.IModel = (*model.Model)(nil)
