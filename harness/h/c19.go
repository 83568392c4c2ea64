package h

import (
	"fvh/sym"
	"strings"

	"github.com/abichinger/fastac/util"
)

// refPath is the segment-wise definition of path matching.
func refPath(p, q []string, dyn func(string) bool) bool {
	if len(q) == 0 {
		return len(p) == 0
	}
	if q[0] == "*" {
		if len(q) == 1 {
			return len(p) > 0
		}
		for k := 1; k <= len(p); k++ {
			if refPath(p[k:], q[1:], dyn) {
				return true
			}
		}
		return false
	}
	if len(p) == 0 {
		return false
	}
	if dyn(q[0]) {
		return refPath(p[1:], q[1:], dyn)
	}
	return p[0] == q[0] && refPath(p[1:], q[1:], dyn)
}

func colon(s string) bool { return strings.HasPrefix(s, ":") }

func braces(s string) bool {
	return len(s) > 1 && strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}")
}

// C19_path: path patterns with named segments of the form :name.
func C19_path() {
	p := sym.StrIn("path", "ab/*:", 0, pick(6, 7))
	q := sym.StrIn("pattern", "ab/*:", 0, pick(6, 7))
	got := util.PathMatch(p, q)
	want := refPath(strings.Split(p, "/"), strings.Split(q, "/"), colon)
	sym.Observe("match", got)
	sym.Cover("end")
	sym.Assert(got == want, "path match")
}

// C19_path2: path patterns with named segments of the form {name}.
func C19_path2() {
	p := sym.StrIn("path", "a/*{}", 0, pick(6, 7))
	q := sym.StrIn("pattern", "a/*{}", 0, pick(6, 7))
	got := util.PathMatch2(p, q)
	want := refPath(strings.Split(p, "/"), strings.Split(q, "/"), braces)
	sym.Observe("match", got)
	sym.Cover("end")
	sym.Assert(got == want, "path match with braces")
}

// C19_bytes: arbitrary bytes in names and patterns.
func C19_bytes() {
	p := sym.Str("path", 0, pick(6, 7))
	q := sym.Str("pattern", 0, pick(6, 7))
	two := sym.Bool("braces")
	var got, want bool
	if two {
		got = util.PathMatcher2.Match(p, q)
		want = refPath(strings.Split(p, "/"), strings.Split(q, "/"), braces)
	} else {
		got = util.PathMatcher.Match(p, q)
		want = refPath(strings.Split(p, "/"), strings.Split(q, "/"), colon)
	}
	sym.Cover("end")
	sym.Assert(got == want, "path match of arbitrary bytes")
}

// C19_segments: longer paths made of segments, stars and named segments anywhere.
func C19_segments() {
	n, m := 1+sym.Choose("path segments", pick(4, 5)), 1+sym.Choose("pattern segments", pick(6, 7))
	p, q := []string{}, []string{}
	for i := 0; i < n; i++ {
		p = append(p, sym.StrIn("p"+itoa(i), "ab*", 1, 1))
	}
	for i := 0; i < m; i++ {
		q = append(q, sym.StrIn("q"+itoa(i), "ab*:", 1, 1))
	}
	got := util.PathMatch(strings.Join(p, "/"), strings.Join(q, "/"))
	sym.Observe("match", got)
	sym.Cover("end")
	sym.Assert(got == refPath(p, q, colon), "path match of longer paths")
}

// C19_helper: other separators, prefixes and suffixes.
func C19_helper() {
	p := sym.StrIn("path", "a-<>*", 0, pick(6, 7))
	q := sym.StrIn("pattern", "a-<>*", 0, pick(6, 7))
	sep := []string{"-", "--"}[sym.Choose("separator", 2)]
	var prefix, suffix byte
	if sym.Bool("prefix") {
		prefix = '<'
	}
	if sym.Bool("suffix") {
		suffix = '>'
	}
	dyn := func(s string) bool {
		return s != "" && (prefix == 0 || s[0] == prefix) && (suffix == 0 || s[len(s)-1] == suffix)
	}
	got := util.PathMatchHelper(p, q, sep, prefix, suffix)
	sym.Observe("match", got)
	sym.Cover("end")
	sym.Assert(got == refPath(strings.Split(p, sep), strings.Split(q, sep), dyn), "path match with another syntax")
	is := util.IsPathPatternHelper(q, sep, prefix, suffix)
	want := false
	for _, s := range strings.Split(q, sep) {
		want = want || s == "*" || dyn(s)
	}
	sym.Assert(is == want, "pattern detection with another syntax")
}

// C19_detect: a string is a pattern exactly when a segment is a star or named.
func C19_detect() {
	q := sym.Str("pattern", 0, pick(6, 7))
	want, want2 := false, false
	for _, s := range strings.Split(q, "/") {
		want = want || s == "*" || colon(s)
		want2 = want2 || s == "*" || braces(s)
	}
	sym.Cover("end")
	sym.Assert(util.IsPathPattern(q) == want && util.PathMatcher.IsPattern(q) == want, "pattern detection")
	sym.Assert(util.IsPathPattern2(q) == want2 && util.PathMatcher2.IsPattern(q) == want2, "pattern detection with braces")
}

// C19_plain: a string that is no pattern matches only itself, and a role manager using the matcher agrees.
func C19_plain() {
	p := sym.StrIn("path", "ab/*:", 0, 4)
	q := sym.StrIn("pattern", "ab/*:", 0, 4)
	if !util.IsPathPattern(q) {
		sym.Cover("plain")
		sym.Assert(util.PathMatch(p, q) == (p == q), "a plain path matches another path")
	} else {
		sym.Cover("pattern")
		f, err := util.PathMatchFunc(p, q)
		sym.Assert(err == nil && f == util.PathMatch(p, q), "the matcher function differs from the path match")
	}
}

// C19_calls: a match does not depend on the matches asked before, also if their arguments join to the same text.
func C19_calls() {
	a, b, c := sym.StrIn("a", "a/*:", 0, 1), sym.StrIn("b", "a/*", 0, pick(1, 2)), sym.StrIn("c", "a/*:", 0, pick(1, 2))
	sep := sym.StrIn("separator", "a, |:/\x00", 0, 1)
	calls := [][2]string{{a, b + sep + c}, {a + sep + b, c}, {c, a}, {a, c}}
	i, k := sym.Choose("first", 4), sym.Choose("second", 4)
	for n, x := range [][2]string{calls[i], calls[k]} {
		got, want := false, refPath(strings.Split(x[0], "/"), strings.Split(x[1], "/"), colon)
		switch sym.Choose("route", 2) {
		case 0:
			r, err := util.PathMatchFunc(x[0], x[1])
			sym.Assert(err == nil, "a path match fails")
			got = r == true
		case 1:
			got = util.PathMatch(x[0], x[1])
		}
		sym.Observe("match"+itoa(n), got)
		sym.Cover("end")
		sym.Assert(got == want, "a path match depends on the matches before it")
	}
	r, err := util.PathMatchFunc2(calls[k][0], calls[k][1])
	want := refPath(strings.Split(calls[k][0], "/"), strings.Split(calls[k][1], "/"), braces)
	sym.Assert(err == nil && r == want, "a path match depends on matches of another syntax")
}
