package h

import (
	"errors"
	"fvh/sym"

	"github.com/abichinger/fastac/api"
)

// change is one rule change an adapter accepted.
type change struct {
	add  bool
	rule []string
}

// backend is the storage behind the adapters: it holds rules, logs what it accepted and can be made to fail.
type backend struct {
	rules  [][]string
	log    []change
	calls  int
	failAt int  // number of the call that fails (0: none)
	down   bool // every call fails
	failed bool
}

var errDown = errors.New("storage is down")

func (b *backend) call() error {
	b.calls++
	if b.down || b.calls == b.failAt {
		b.failed = true
		return errDown
	}
	return nil
}

func (b *backend) apply(add bool, rule []string) {
	b.log = append(b.log, change{add, append([]string{}, rule...)})
	s := &ref{b.rules}
	if add {
		s.add(rule)
	} else {
		s.remove(rule)
	}
	b.rules = s.rules
}

func (b *backend) LoadPolicy(m api.IAddRuleBool) error {
	for _, r := range b.rules {
		if _, err := m.AddRule(append([]string{}, r...)); err != nil {
			return err
		}
	}
	return nil
}

func (b *backend) SavePolicy(m api.IRangeRules) error {
	if err := b.call(); err != nil {
		return err
	}
	b.rules = nil
	m.RangeRules(func(r []string) bool {
		b.rules = append(b.rules, append([]string{}, r...))
		return true
	})
	return nil
}

// simple takes single rules.
type simple struct{ *backend }

func (a simple) AddRule(rule []string) error {
	if err := a.call(); err != nil {
		return err
	}
	a.apply(true, rule)
	return nil
}

func (a simple) RemoveRule(rule []string) error {
	if err := a.call(); err != nil {
		return err
	}
	a.apply(false, rule)
	return nil
}

// batch takes several rules at once: all of them or none.
type batch struct{ *backend }

func (a batch) AddRules(rules [][]string) error {
	if err := a.call(); err != nil {
		return err
	}
	for _, r := range rules {
		a.apply(true, r)
	}
	return nil
}

func (a batch) RemoveRules(rules [][]string) error {
	if err := a.call(); err != nil {
		return err
	}
	for _, r := range rules {
		a.apply(false, r)
	}
	return nil
}

func newAdapter(b *backend, kind int) interface{} {
	switch kind {
	case 0:
		return simple{b}
	case 1:
		return batch{b}
	}
	return bothAdapter{b}
}

// bothAdapter takes single rules and batches.
type bothAdapter struct{ *backend }

func (a bothAdapter) AddRule(rule []string) error        { return simple{a.backend}.AddRule(rule) }
func (a bothAdapter) RemoveRule(rule []string) error     { return simple{a.backend}.RemoveRule(rule) }
func (a bothAdapter) AddRules(rules [][]string) error    { return batch{a.backend}.AddRules(rules) }
func (a bothAdapter) RemoveRules(rules [][]string) error { return batch{a.backend}.RemoveRules(rules) }

func sameLog(a, b []change) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].add != b[i].add || !eqRule(a[i].rule, b[i].rule) {
			return false
		}
	}
	return true
}

// storeDefs is a model with policy rules, plain roles and roles with domains.
func storeDefs() []def {
	return []def{{'r', "r", "x"}, {'p', "p", "a"}, {'g', "g", "_, _"}, {'g', "g2", "_, _, _"}, {'e', "e", someAllow}, {'m', "m", "p.a == r.x"}}
}

// storeRule is an arbitrary rule of it.
func storeRule(i int) []string {
	n := itoa(i)
	switch sym.Choose("kind"+n, 3) {
	case 0:
		return []string{"p", sym.StrIn("a"+n, "ab", 1, 1)}
	case 1:
		// a plain role link keeps two values only
		r := []string{"g", "u", sym.StrIn("v"+n, "ab", 1, 1)}
		if sym.Bool("long" + n) {
			r = append(r, "d")
		}
		return r
	}
	return []string{"g2", "u", "v", sym.StrIn("d"+n, "ab", 1, 1)}
}

// stored is the form in which a rule is kept.
func stored(r []string) []string {
	if r[0] == "g" && len(r) > 3 {
		return r[:3]
	}
	return r
}
