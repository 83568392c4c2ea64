package h

import (
	"fvh/sym"
	"strconv"
)

// expr is a matcher expression together with its meaning on one rule.
type expr struct {
	text string
	prec int // 0 conditional, 1 or, 2 and, 3 comparison, 4 prefix or atom
	eval func(p, r []string) bool
}

func (e expr) at(prec int) string {
	if e.prec < prec {
		return "(" + e.text + ")"
	}
	return e.text
}

func paren(e expr) expr {
	return expr{"(" + e.text + ")", 4, e.eval}
}

func and(a, b expr) expr {
	return expr{a.at(2) + " && " + b.at(3), 2, func(p, r []string) bool { return a.eval(p, r) && b.eval(p, r) }}
}

func andRight(a, b expr) expr {
	return expr{a.at(3) + " && " + b.at(2), 2, func(p, r []string) bool { return a.eval(p, r) && b.eval(p, r) }}
}

func or(a, b expr) expr {
	return expr{a.at(1) + " || " + b.at(2), 1, func(p, r []string) bool { return a.eval(p, r) || b.eval(p, r) }}
}

func orRight(a, b expr) expr {
	return expr{a.at(2) + " || " + b.at(1), 1, func(p, r []string) bool { return a.eval(p, r) || b.eval(p, r) }}
}

func not(a expr) expr {
	return expr{"!(" + a.text + ")", 4, func(p, r []string) bool { return !a.eval(p, r) }}
}

func cond(c, a, b expr) expr {
	return expr{"(" + c.text + ") ? (" + a.text + ") : (" + b.text + ")", 0, func(p, r []string) bool {
		if c.eval(p, r) {
			return a.eval(p, r)
		}
		return b.eval(p, r)
	}}
}

func iff(a, b expr) expr {
	return expr{"(" + a.text + ") == (" + b.text + ")", 3, func(p, r []string) bool { return a.eval(p, r) == b.eval(p, r) }}
}

// combine joins two expressions in one of the ways the matcher language offers.
func combine(name string, a, b expr, ways int) expr {
	switch sym.Choose(name, ways) {
	case 0:
		return and(a, b)
	case 1:
		return or(a, b)
	case 2:
		return andRight(a, paren(b))
	case 3:
		return orRight(paren(a), b)
	case 4:
		return not(and(a, b))
	case 5:
		return not(or(a, b))
	default:
		return iff(a, b)
	}
}

// tree builds every expression over the leaves in the given order.
func tree(name string, leaves []expr, ways int) expr {
	if len(leaves) == 1 {
		return leaves[0]
	}
	k := 1
	if len(leaves) > 2 {
		k = 1 + sym.Choose(name+".split", len(leaves)-1)
	}
	return combine(name, tree(name+"l", leaves[:k], ways), tree(name+"r", leaves[k:], ways), ways)
}

// leaf compares field i of the rule with the constant text.
func pEq(field string, i int, c string) expr {
	return expr{"p." + field + " == " + strconv.Quote(c), 3, func(p, r []string) bool { return p[i] == c }}
}

func prEq(pf string, i int, rf string, j int) expr {
	return expr{"p." + pf + " == r." + rf, 3, func(p, r []string) bool { return p[i] == r[j] }}
}

func prNe(pf string, i int, rf string, j int) expr {
	return expr{"r." + rf + " != p." + pf, 3, func(p, r []string) bool { return p[i] != r[j] }}
}

func ppEq(f string, i int, g string, j int) expr {
	return expr{"p." + f + " == p." + g, 3, func(p, r []string) bool { return p[i] == p[j] }}
}

func rEq(f string, j int, c string) expr {
	return expr{"r." + f + " == '" + c + "'", 3, func(p, r []string) bool { return r[j] == c }}
}

// strs are n symbolic strings.
func strs(name string, n, lo, hi int) []string {
	res := make([]string, n)
	for i := range res {
		res[i] = sym.Str(name+strconv.Itoa(i), lo, hi)
	}
	return res
}

func withKey(key string, rule []string) []string { return append([]string{key}, rule...) }

func anys(s []string) []interface{} {
	res := make([]interface{}, len(s))
	for i := range s {
		res[i] = s[i]
	}
	return res
}
