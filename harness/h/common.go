package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
)

// def is one line of a model definition.
type def struct {
	sec      byte
	key, val string
}

// newModel builds a model from definitions, matchers last.
func newModel(ds ...def) *model.Model {
	m := model.NewModel()
	for _, d := range ds {
		if err := m.SetDef(d.sec, d.key, d.val); err != nil {
			sym.Fail("setting definition " + d.key + ": " + err.Error())
		}
	}
	if err := m.BuildMatchers(); err != nil {
		sym.Fail("building matchers: " + err.Error())
	}
	return m
}

func newEnforcer(m *model.Model) *fastac.Enforcer {
	e, err := fastac.NewEnforcer(m, nil)
	if err != nil {
		sym.Fail("new enforcer: " + err.Error())
	}
	return e
}

const (
	someAllow = "some(where(p.eft==allow))"
	noDeny    = "!some(where(p.eft==deny))"
	allowDeny = "some(where(p.eft==allow))&&!some(where(p.eft==deny))"
)

func eqRule(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func hasRule(rs [][]string, r []string) bool {
	for _, x := range rs {
		if eqRule(x, r) {
			return true
		}
	}
	return false
}

// sameRules reports whether got lists exactly the distinct rules of want, once each.
func sameRules(got, want [][]string) bool {
	if len(got) != len(want) {
		return false
	}
	for _, w := range want {
		if !hasRule(got, w) {
			return false
		}
	}
	for i, g := range got {
		if !hasRule(want, g) || hasRule(got[:i], g) {
			return false
		}
	}
	return true
}
