package h

import (
	"fvh/sym"
	"strconv"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
)

// ref is the reference set of rules, keys included.
type ref struct {
	rules [][]string
}

func (s *ref) add(r []string) bool {
	if hasRule(s.rules, r) {
		return false
	}
	s.rules = append(append([][]string{}, s.rules...), append([]string{}, r...))
	return true
}

func (s *ref) remove(r []string) bool {
	res := [][]string{}
	for _, x := range s.rules {
		if !eqRule(x, r) {
			res = append(res, x)
		}
	}
	found := len(res) != len(s.rules)
	s.rules = res
	return found
}

func (s *ref) clear(key string) {
	res := [][]string{}
	for _, x := range s.rules {
		if x[0] != key {
			res = append(res, x)
		}
	}
	s.rules = res
}

// of lists the rules of one key without the key.
func (s *ref) of(key string) [][]string {
	res := [][]string{}
	for _, x := range s.rules {
		if x[0] == key {
			res = append(res, x[1:])
		}
	}
	return res
}

// listed collects the rules a model reports.
func listed(m model.IModel) [][]string {
	res := [][]string{}
	m.RangeRules(func(r []string) bool {
		res = append(res, append([]string{}, r...))
		return true
	})
	return res
}

// mustEnforce decides a well-formed request.
func mustEnforce(e *fastac.Enforcer, params ...interface{}) bool {
	ok, err := e.Enforce(params...)
	if err != nil {
		sym.Fail("a well-formed request fails: " + err.Error())
	}
	return ok
}

func mustFilter(e *fastac.Enforcer, params ...interface{}) [][]string {
	rs, err := e.Filter(params...)
	if err != nil {
		sym.Fail("a well-formed filter fails: " + err.Error())
	}
	return rs
}

func mustAdd(e *fastac.Enforcer, rules ...[]string) {
	for _, r := range rules {
		if _, err := e.AddRule(r); err != nil {
			sym.Fail("adding a rule fails: " + err.Error())
		}
	}
}

func mustRemove(e *fastac.Enforcer, rules ...[]string) {
	for _, r := range rules {
		if _, err := e.RemoveRule(r); err != nil {
			sym.Fail("removing a rule fails: " + err.Error())
		}
	}
}

// pick is n under the quick tier and m under the thorough tier.
func pick(n, m int) int {
	if sym.Thorough() {
		return m
	}
	return n
}

func itoa(i int) string { return strconv.Itoa(i) }

// history applies n arbitrary additions, removals and clears of key; make returns the rule of step i. The result
// of every change is compared with the reference.
func history(e *fastac.Enforcer, s *ref, key string, n int, clear bool, mk func(i int) []string, after func(i int)) {
	ops := 2
	if clear {
		ops = 3
	}
	for i := 0; i < n; i++ {
		op := 0
		if i > 0 {
			op = sym.Choose("op"+itoa(i), ops)
		}
		switch op {
		case 0:
			r := mk(i)
			added, err := e.AddRule(r)
			sym.Assert(err == nil, "adding a rule fails")
			sym.Assert(added == s.add(r), "AddRule reports the wrong result")
		case 1:
			r := mk(i)
			removed, err := e.RemoveRule(r)
			sym.Assert(err == nil, "removing a rule fails")
			sym.Assert(removed == s.remove(r), "RemoveRule reports the wrong result")
		case 2:
			sym.Assert(e.GetModel().(*model.Model).ClearPolicy(key) == nil, "clearing fails")
			s.clear(key)
		}
		if after != nil {
			after(i)
		}
	}
}
