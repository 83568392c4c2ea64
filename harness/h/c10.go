package h

import (
	"errors"
	"fvh/sym"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

// c10model has policies, roles, domains and matchers of every kind.
func c10model() *fastac.Enforcer {
	m := model.NewModel()
	m.SetFunction("fn", func(args ...interface{}) (interface{}, error) {
		if len(args) != 1 || args[0] == "e" {
			return nil, errors.New("fn failed")
		}
		return args[0] == "a", nil
	})
	for _, d := range []def{
		{'r', "r", "x, y"}, {'r', "r2", "x"}, {'p', "p", "a, b"}, {'p', "p2", "a, eft"}, {'g', "g", "_, _"}, {'g', "g2", "_, _, _"},
		{'e', "e", someAllow}, {'e', "e2", allowDeny},
		{'m', "m", "g(r.x, p.a) && p.b == r.y"},
		{'m', "m2", "r2.x == p2.a || p2.a == \"*\""},
		{'m', "m3", "g2(r.x, p.a, r.y)"},
		{'m', "m4", "p.a == r.x && eval(p.b)"},
		{'m', "m5", "pathMatch(r.x, p.a) || fn(r.y)"},
		{'m', "m6", "g.user == r.x"},
		{'m', "m7", "p.c == r.x"},
	} {
		if err := m.SetDef(d.sec, d.key, d.val); err != nil {
			sym.Fail("setting definition " + d.key + ": " + err.Error())
		}
	}
	if err := m.BuildMatchers(); err != nil {
		sym.Fail("building matchers: " + err.Error())
	}
	rm, _ := m.GetRoleManager("g")
	rm.(*rbac.RoleManager).SetMatcher(star{})
	dm, _ := m.GetRoleManager("g2")
	dm.(*rbac.DomainManager).SetDomainMatcher(util.NewMatcher(star{}.IsPattern, star{}.Match))
	en := newEnforcer(m)
	mustAdd(en, []string{"p", "a", "r.y == \"b\""}, []string{"p", "b", "b"}, []string{"p2", "a", "deny"}, []string{"p2", "*"},
		[]string{"g", "a", "b"}, []string{"g", "c*", "b"}, []string{"g2", "a", "b", "d"}, []string{"g2", "a", "b", "d*"}, []string{"g2", "b", "c", "e"})
	return en
}

const c10queries = 18

// c10query runs one query and renders its answer.
func c10query(en *fastac.Enforcer, k int, x, y string) string {
	render := func(ok bool, err error) string {
		if err != nil {
			return "error"
		}
		if ok {
			return "yes"
		}
		return "no"
	}
	list := func(l []string, err error) string {
		if err != nil {
			return "error"
		}
		return sortedText(l)
	}
	rules := func(rs [][]string, err error) string {
		if err != nil {
			return "error"
		}
		l := []string{}
		for _, r := range rs {
			l = append(l, util.Hash(r))
		}
		return sortedText(l)
	}
	g, _ := en.GetModel().GetRoleManager("g")
	g2, _ := en.GetModel().GetRoleManager("g2")
	dm := g2.(rmLike)
	switch k {
	case 0:
		return render(en.Enforce(x, y))
	case 1:
		return render(en.Enforce(fastac.SetMatcher("m2"), fastac.SetRequestDef("r2"), fastac.SetEffector("e2"), x))
	case 2:
		return render(en.Enforce(fastac.SetMatcher("m3"), x, y))
	case 3:
		// an error of one rule decides if no other rule allows before, so all rules are evaluated first
		if _, err := en.Filter(fastac.SetMatcher("m4"), x, y); err != nil {
			return "error"
		}
		return render(en.Enforce(fastac.SetMatcher("m4"), x, y))
	case 4:
		return render(en.Enforce(fastac.SetMatcher("m5"), x, y))
	case 5:
		return rules(en.Filter(fastac.SetMatcher("m6"), x, y))
	case 6:
		return render(en.Enforce(fastac.SetMatcher("m7"), x, y))
	case 7:
		return rules(en.Filter(x, y))
	case 8:
		n := 0
		err := en.RangeMatches([]interface{}{x, y}, func([]string) bool { n++; return false })
		return render(n > 0, err)
	case 9:
		return render(g.HasLink(x, y))
	case 10:
		return render(g2.HasLink(x, y, "d"))
	case 11:
		return render(g2.HasLink(x, "b", y))
	case 12:
		return list(g.GetRoles(x)) + list(g.GetUsers(y))
	case 13:
		return list(g2.GetRoles(x, y)) + list(g2.GetUsers(x, y, x))
	case 14:
		return list(dm.GetDomains(x)) + list(dm.GetAllDomains())
	case 15:
		return rules(listed(en.GetModel()), nil)
	case 16:
		return render(en.Enforce(x))
	case 17:
		_, _ = en.Enforce(fastac.SetMatcher("zz"), x, y)
		_, err := en.Filter(fastac.SetRequestDef("r9"), x)
		return render(false, err)
	}
	return en.GetModel().String()
}

func sortedText(l []string) string {
	l = append([]string{}, l...)
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	res := ""
	for _, s := range l {
		res += s + ";"
	}
	return res
}

// C10_race: two arbitrary queries, for arbitrary names, may run at the same time.
func C10_race() {
	en := c10model()
	x, y := sym.StrIn("x", "abcde", 1, 1), sym.StrIn("y", "abde", 1, 1)
	k := sym.Choose("query", c10queries+len(c10texts)+1)
	l := sym.Choose("other", c10queries+len(c10texts)+1)
	if l > k {
		sym.Stop()
	}
	// a definition made once and used by several requests
	shared, effect := defs.NewMatcherDef("m", c10texts[0]), defs.NewEffectDef("e", noDeny)
	ask := func(k int, x, y string) {
		switch i := k - c10queries; {
		case i < 0:
			c10query(en, k, x, y)
		case i == 0:
			_, _ = en.Enforce(fastac.SetMatcher(shared), fastac.SetEffector(effect), x, y)
		default:
			_, _ = en.Enforce(fastac.SetMatcher(c10texts[i-1]), fastac.SetEffector(noDeny), x, y)
		}
	}
	sym.Cover("end")
	parallel(func() { ask(k, x, y) }, func() { ask(l, y, x) })
}

var c10texts = [3]string{"p.a == r.x && (p.b == r.y || eval(p.b))", "g(r.x, p.a) && p2.a == r.x", "p.b == r.x ||"}

// C10_adhoc: deciding with matchers given as text leaves every answer as it was.
func C10_adhoc() {
	en, other := c10model(), c10model()
	texts := []string{"p.a == r.x", "p.b == r.x || r.y == \"b\"", "p.zz == r.x", "((", "g(r.x, p.b)", "q.a == r.x", "p2.a == r.x && p2.eft == r.y", "g.user == r.x"}
	t := texts[sym.Choose("matcher", len(texts))]
	x, y := sym.StrIn("x", "abcde", 1, 1), sym.StrIn("y", "abde", 1, 1)
	if sym.Bool("filter") {
		_, _ = en.Filter(fastac.SetMatcher(t), x, y)
	} else {
		_, _ = en.Enforce(fastac.SetMatcher(t), fastac.SetEffector([]string{"e", "e2", noDeny, "zz"}[sym.Choose("effect", 4)]), x, y)
	}
	k := sym.Choose("query", c10queries)
	u := sym.StrIn("u", "ab", 1, 1)
	sym.Cover("end")
	sym.Assert(c10query(en, k, u, y) == c10query(other, k, u, y), "a query changes a later answer")
	sym.Assert(en.GetModel().String() == other.GetModel().String(), "a query changes the definitions")
	sym.Assert(sameRules(listed(en.GetModel()), listed(other.GetModel())), "a query changes the rules")
}

// C10_answers: no query changes a later answer, also across a change of the rules in between.
func C10_answers() {
	en, other := c10model(), c10model()
	x, y := sym.StrIn("x", "abcd", 1, 1), sym.StrIn("y", "abd", 1, 1)
	k := sym.Choose("query", c10queries)
	c10query(en, k, x, y)
	switch sym.Choose("change", 4) {
	case 1:
		for _, e := range []*fastac.Enforcer{en, other} {
			mustAdd(e, []string{"g", x, "b"}, []string{"p", x, "b"}, []string{"g2", x, "b", y})
		}
	case 2:
		for _, e := range []*fastac.Enforcer{en, other} {
			mustRemove(e, []string{"g", "a", "b"}, []string{"p", "b", "b"}, []string{"g2", "a", "b", "d*"}, []string{"p2", "*"})
		}
	case 3:
		for _, e := range []*fastac.Enforcer{en, other} {
			mustRemove(e, []string{"g", "c*", "b"}, []string{"g2", "a", "b", "d"})
			mustAdd(e, []string{"g", "*", "a"}, []string{"g2", x, y, "*"})
		}
	}
	l := sym.Choose("later", c10queries)
	u := sym.StrIn("u", "ab", 1, 1)
	sym.Cover("end")
	sym.Assert(c10query(en, l, u, y) == c10query(other, l, u, y), "a query changes a later answer")
	sym.Assert(sameRules(listed(en.GetModel()), listed(other.GetModel())), "a query changes the rules")
	sym.Assert(en.GetModel().String() == other.GetModel().String(), "a query changes the definitions")
}

// C10_nested: a query that runs in the middle of another one (from a registered function, at every call of it)
// influences neither result.
func C10_nested() {
	x, y := sym.StrIn("x", "ab", 1, 1), sym.StrIn("y", "abd", 1, 1)
	k := sym.Choose("inner", c10queries)
	outer := []string{"m", "hook(r.x) && p.a == r.x && hook(p.b)", "p.a == r.x && hook(r.x) && eval(p.b)", "g(r.x, p.a) && hook(r.y) || p.b == r.y", "hook(r.x) && g.user == r.x"}[sym.Choose("outer", 5)]
	run := func(inner bool) (string, string) {
		en := c10model()
		got := ""
		en.GetModel().SetFunction("hook", func(args ...interface{}) (interface{}, error) {
			if inner {
				got = c10query(en, k, y, x)
			}
			return true, nil
		})
		res := ""
		rs, err := en.Filter(fastac.SetMatcher(outer), x, y)
		if err != nil {
			res = "error"
		}
		l := []string{}
		for _, r := range rs {
			l = append(l, util.Hash(r))
		}
		ok, err := en.Enforce(fastac.SetMatcher(outer), x, y)
		if ok {
			res += "yes"
		}
		if err != nil {
			res += "error"
		}
		if !inner {
			got = c10query(en, k, y, x)
		}
		return res + sortedText(l), got
	}
	a, i := run(true)
	b, j := run(false)
	sym.Cover("end")
	sym.Assert(a == b, "a query is influenced by a query that runs at the same time")
	sym.Assert(i == "" || i == j, "a query is influenced by a query that runs at the same time")
}

// C10_range: queries from within the iteration over matches.
func C10_range() {
	x, y := sym.StrIn("x", "ab", 1, 1), sym.StrIn("y", "abd", 1, 1)
	k := sym.Choose("inner", c10queries)
	en, other := c10model(), c10model()
	collect := func(e *fastac.Enforcer, fn func()) string {
		l := []string{}
		err := e.RangeMatches([]interface{}{fastac.SetMatcher("m5"), x, "a"}, func(r []string) bool {
			l = append(l, util.Hash(r))
			fn()
			return true
		})
		if err != nil {
			return "error"
		}
		return sortedText(l)
	}
	a := collect(en, func() { c10query(en, k, y, x) })
	b := collect(other, func() {})
	sym.Cover("end")
	sym.Assert(a == b, "iterating over matches is influenced by a query that runs at the same time")
}
