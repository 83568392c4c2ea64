package h

import (
	"fvh/sym"
	"regexp"
	"unicode/utf8"

	"github.com/abichinger/fastac/model/fm"
	"github.com/abichinger/fastac/util"
)

// builtin calls a function that every model has.
func builtin(name string, args ...interface{}) (bool, error) {
	f := fm.DefaultFunctionMap().GetFunctions()[name]
	if f == nil {
		sym.Fail("no function " + name)
	}
	r, err := f(args...)
	b, ok := r.(bool)
	sym.Assert(ok || err != nil, "a built-in function gives no decision: "+name)
	sym.Assert(!(b && err != nil), "a match and an error: "+name)
	return b, err
}

// decided asks the same through a matcher.
func decided(name, x, pattern string) (bool, error) {
	en := newEnforcer(newModel(def{'r', "r", "x"}, def{'p', "p", "a"}, def{'e', "e", someAllow}, def{'m', "m", name + "(r.x, p.a)"}))
	mustAdd(en, []string{"p", pattern})
	return en.Enforce(x)
}

// number reads a decimal of the text, without leading zeros.
func number(s string, max int) (int, bool) {
	if s == "" || len(s) > 3 || (len(s) > 1 && s[0] == '0') {
		return 0, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, n <= max
}

func split(s string, sep byte) []string {
	l, k := []string{}, 0
	for i := 0; i < len(s); i++ {
		if s[i] == sep {
			l = append(l, s[k:i])
			k = i + 1
		}
	}
	return append(l, s[k:])
}

// address gives the four bytes of an IPv4 or the sixteen of an IPv6 address, nil for anything else.
func address(s string) []int {
	if indexByte(s, ':') < 0 {
		l := split(s, '.')
		if len(l) != 4 {
			return nil
		}
		b := []int{}
		for _, x := range l {
			n, ok := number(x, 255)
			if !ok {
				return nil
			}
			b = append(b, n)
		}
		return b
	}
	// groups before and after the gap
	var parts [2][]int
	side, l := 0, split(s, ':')
	for i := 0; i < len(l); i++ {
		g := l[i]
		if g == "" {
			// "::" gives one empty group inside, two at an end, three alone
			if side == 1 {
				return nil
			}
			side = 1
			if i == 0 {
				if len(l) < 2 || l[1] != "" {
					return nil
				}
				i++
			}
			if i == len(l)-2 && l[i+1] == "" {
				i++
			} else if i == len(l)-1 {
				return nil
			}
			continue
		}
		if i == len(l)-1 && indexByte(g, '.') >= 0 {
			v4 := address(g)
			if v4 == nil {
				return nil
			}
			parts[side] = append(parts[side], v4...)
			continue
		}
		if len(g) > 4 {
			return nil
		}
		n := 0
		for k := 0; k < len(g); k++ {
			c := g[k]
			switch {
			case c >= '0' && c <= '9':
				n = n*16 + int(c-'0')
			case c >= 'a' && c <= 'f':
				n = n*16 + int(c-'a') + 10
			case c >= 'A' && c <= 'F':
				n = n*16 + int(c-'A') + 10
			default:
				return nil
			}
		}
		parts[side] = append(parts[side], n/256, n%256)
	}
	n := len(parts[0]) + len(parts[1])
	if (side == 0 && n != 16) || (side == 1 && n > 14) {
		return nil
	}
	b := append([]int{}, parts[0]...)
	for ; n < 16; n++ {
		b = append(b, 0)
	}
	return append(b, parts[1]...)
}

func indexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

// short gives the four bytes of an IPv4 address in either notation.
func short(b []int) []int {
	if len(b) != 16 || b[10] != 255 || b[11] != 255 {
		return b
	}
	for i := 0; i < 10; i++ {
		if b[i] != 0 {
			return b
		}
	}
	return b[12:]
}

// inside says if an address equals another or lies in a range; ok is false if one of them is none.
func inside(x, y string) (match, ok bool) {
	a := address(x)
	if a == nil {
		return false, false
	}
	bits := -1
	if k := indexByte(y, '/'); k >= 0 {
		base := address(y[:k])
		t := y[k+1:]
		for len(t) > 1 && t[0] == '0' {
			t = t[1:]
		}
		n, ok := number(t, len(base)*8)
		if base == nil || !ok {
			return false, false
		}
		bits, y = n, y[:k]
	}
	b := address(y)
	if b == nil {
		return false, false
	}
	full := len(b) * 8
	if len(short(b)) != len(b) && bits >= 96 {
		bits -= 96
	} else if len(short(b)) != len(b) && bits >= 0 {
		return len(a) == 16 && len(short(a)) == 16 && prefix(a, b, bits), true
	}
	a, b = short(a), short(b)
	if bits < 0 {
		bits = full
	}
	return len(a) == len(b) && prefix(a, b, bits), true
}

func prefix(a, b []int, bits int) bool {
	for i := range a {
		n := bits - 8*i
		switch {
		case n <= 0:
		case n >= 8:
			if a[i] != b[i] {
				return false
			}
		default:
			if a[i]>>uint(8-n) != b[i]>>uint(8-n) {
				return false
			}
		}
	}
	return true
}

func checkIP(x, y string) {
	got, err := builtin("ipMatch", x, y)
	want, ok := inside(x, y)
	sym.Observe("match", got)
	sym.Observe("error", err != nil)
	sym.Cover("end")
	sym.Assert((err == nil) == ok, "malformed addresses are errors, others are not")
	sym.Assert(got == (ok && want), "an address matches exactly itself and the ranges it lies in")
}

// C24_ip4: IPv4 addresses, all bits of one byte.
func C24_ip4() {
	x := "10.1." + sym.StrIn("x", "0123456789", 1, 3) + ".7"
	y := []string{"10.1.", "10.", "0."}[sym.Choose("form", 3)]
	b := sym.StrIn("y", "0123456789", 1, 3)
	switch y {
	case "10.1.":
		y += b + ".7"
		if sym.Bool("range") {
			y += "/" + itoa(16+sym.Choose("bits", 18))
		}
	case "10.":
		y += "1." + b + ".0/" + []string{"22", "0", "8", "24", "021", "-1", "33", "", "x", "2 "}[sym.Choose("prefix", 10)]
	default:
		y += "1." + b + ".0/" + itoa(sym.Choose("bits", 33))
	}
	checkIP(x, y)
}

// C24_ipText: every short text as address.
func C24_ipText() {
	t := sym.StrIn("text", "012.:/f", 0, pick(5, 6))
	switch sym.Choose("side", 4) {
	case 0:
		checkIP(t, "0.0.0.0/0")
	case 1:
		checkIP("1.2.2.1", "1.2."+t)
	case 2:
		checkIP("1:2::"+t, "::1:2:0:0:0:1/"+itoa(sym.Choose("bits", 2)))
	case 3:
		checkIP("::1", ":"+t)
	}
}

// C24_ipEnds: any characters in front of and behind an address or range.
func C24_ipEnds() {
	a := []string{"1.2.3.4", "::2"}[sym.Choose("address", 2)]
	x, y := a, a
	n := 1
	if sym.Bool("both ends") {
		a = sym.Str("front", 1, 1) + a + sym.Str("end", 1, 1)
	} else {
		n = pick(1, 2)
		if sym.Bool("in front") {
			a = sym.Str("front", 1, n) + a
		} else {
			a += sym.Str("end", 1, n)
		}
	}
	switch sym.Choose("side", 3) {
	case 0:
		x = a
	case 1:
		y = a
	case 2:
		y = a + "/24"
	}
	checkIP(x, y)
}

// C24_ip6: IPv6 addresses and ranges.
func C24_ip6() {
	h := sym.StrIn("h", "07fF", 1, 1) + sym.StrIn("l", "08e", 1, 1)
	x := []string{"2001:db8::" + h + ":1", "2001:0db8:0:0:0:0:" + h + ":1", "::ffff:10.0.0.1", "10.0.0.1", "::10.0.0.1", "fe80::1%eth0", "1::2::3", "::ffff:a00:1", "1:2:3:4:5:6:7:8:9"}[sym.Choose("x", 9)]
	y := []string{"2001:db8::" + h + ":1", "2001:db8::70:1", "2001:db8::70:0/" + itoa(96+sym.Choose("bits", 34)), "10.0.0.1", "::ffff:10.0.0.1", "10.0.0.0/8", "::ffff:10.0.0.0/104", "::/0", "0.0.0.0/0", "2001:db8::/129", "::ffff:0:0/96", "::ffff:0:0/90", "g::", "::/"}[sym.Choose("y", 14)]
	checkIP(x, y)
}

// globs is the definition of the glob match: * any part without a slash, ? one character that is no slash,
// [lo-hi] one character of the ranges ([^..] not of them), \c the character c. ok is false if the pattern is malformed.
func globs(s, p string) (match, ok bool) {
	if p == "" {
		return s == "", true
	}
	one := func(m bool, rest string) (bool, bool) {
		if s == "" || !m {
			_, ok := globs("", rest)
			return false, ok
		}
		_, n := utf8.DecodeRuneInString(s)
		return globs(s[n:], rest)
	}
	c, n := utf8.DecodeRuneInString(s)
	d, pn := utf8.DecodeRuneInString(p)
	switch p[0] {
	case '*':
		for i := 0; ; i++ {
			m, ok := globs(s[i:], p[1:])
			if !ok || m {
				return m, ok
			}
			if i == len(s) || s[i] == '/' {
				return false, true
			}
		}
	case '?':
		return one(n > 0 && c != '/', p[1:])
	case '\\':
		if len(p) == 1 {
			return false, false
		}
		d, pn = utf8.DecodeRuneInString(p[1:])
		return one(c == d, p[1+pn:])
	case '[':
		p = p[1:]
		not := len(p) > 0 && p[0] == '^'
		if not {
			p = p[1:]
		}
		in := false
		for k := 0; ; k++ {
			if k > 0 && p != "" && p[0] == ']' {
				return one(in != not, p[1:])
			}
			lo, rest, ok := globChar(p)
			if !ok {
				return false, false
			}
			hi := lo
			if rest != "" && rest[0] == '-' {
				if hi, rest, ok = globChar(rest[1:]); !ok {
					return false, false
				}
			}
			in = in || (lo <= c && c <= hi)
			p = rest
		}
	}
	return one(c == d, p[pn:])
}

func globChar(p string) (rune, string, bool) {
	if p == "" || p[0] == '-' || p[0] == ']' {
		return 0, "", false
	}
	if p[0] == '\\' {
		if p = p[1:]; p == "" {
			return 0, "", false
		}
	}
	c, n := utf8.DecodeRuneInString(p)
	// a class has to end
	return c, p[n:], p[n:] != ""
}

// C24_glob: the glob function is the glob match.
func C24_glob() {
	s := sym.StrIn("text", "ab/*", 0, pick(3, 4))
	p := sym.StrIn("pattern", []string{"a/*?", "ab[^]", "a-[]*", "a\\*[]"}[sym.Choose("characters", 4)], 0, pick(4, 5))
	got, err := builtin("globMatch", s, p)
	want, ok := globs(s, p)
	sym.Observe("match", got)
	sym.Observe("error", err != nil)
	sym.Cover("end")
	sym.Assert((err == nil) == ok, "malformed patterns are errors, others are not")
	sym.Assert(got == (ok && want), "the glob function is the glob match")
}

// C24_globBytes: the glob function on any bytes.
func C24_globBytes() {
	s := sym.Str("text", 0, 2)
	p := []string{"?", "*", "??", "[^a]", "[a-z]?", "a*", "*/*", "\\a?", "[!a]", "é?", "[é-日]"}[sym.Choose("pattern", 11)]
	got, err := builtin("globMatch", s, p)
	want, ok := globs(s, p)
	sym.Observe("match", got)
	sym.Cover("end")
	sym.Assert(err == nil && ok, "the pattern is well-formed")
	sym.Assert(got == want, "the glob function is the glob match")
}

// re is a regular expression: its text and the ends of its matches from a position.
type re struct {
	text string
	ends func(s string, i int) []int
}

func addEnd(l []int, k int) []int {
	for _, x := range l {
		if x == k {
			return l
		}
	}
	return append(l, k)
}

func reAtom(name string) re {
	switch sym.Choose(name, 6) {
	case 0:
		c := sym.StrIn(name+"c", "ab", 1, 1)
		return re{c, func(s string, i int) []int {
			if i < len(s) && s[i] == c[0] {
				return []int{i + 1}
			}
			return nil
		}}
	case 1:
		return re{".", func(s string, i int) []int {
			if i < len(s) && s[i] != '\n' {
				return []int{i + 1}
			}
			return nil
		}}
	case 2:
		return re{"[^a]", func(s string, i int) []int {
			if i < len(s) && s[i] != 'a' {
				return []int{i + 1}
			}
			return nil
		}}
	case 3:
		return re{"^", func(s string, i int) []int {
			if i == 0 {
				return []int{i}
			}
			return nil
		}}
	case 4:
		return re{"$", func(s string, i int) []int {
			if i == len(s) {
				return []int{i}
			}
			return nil
		}}
	}
	return re{`\.`, func(s string, i int) []int {
		if i < len(s) && s[i] == '.' {
			return []int{i + 1}
		}
		return nil
	}}
}

func reSeq(x, y re) re {
	return re{x.text + y.text, func(s string, i int) []int {
		l := []int{}
		for _, k := range x.ends(s, i) {
			for _, e := range y.ends(s, k) {
				l = addEnd(l, e)
			}
		}
		return l
	}}
}

func reAlt(x, y re) re {
	return re{"(" + x.text + "|" + y.text + ")", func(s string, i int) []int {
		l := append([]int{}, x.ends(s, i)...)
		for _, e := range y.ends(s, i) {
			l = addEnd(l, e)
		}
		return l
	}}
}

func reMany(x re, least int, suffix string) re {
	return re{"(?:" + x.text + ")" + suffix, func(s string, i int) []int {
		l := []int{i}
		for n := 0; n < len(l); n++ {
			for _, e := range x.ends(s, l[n]) {
				l = addEnd(l, e)
			}
		}
		if least == 0 {
			return l
		}
		r := []int{}
		for _, k := range l {
			for _, e := range x.ends(s, k) {
				r = addEnd(r, e)
			}
		}
		return r
	}}
}

func reOf(name string, depth int) re {
	if depth == 0 {
		return reAtom(name)
	}
	switch sym.Choose(name+"op", 4) {
	case 0:
		return reSeq(reOf(name+"l", depth-1), reAtom(name+"r"))
	case 1:
		return reAlt(reOf(name+"l", depth-1), reAtom(name+"r"))
	case 2:
		return reMany(reOf(name+"l", depth-1), 0, "*")
	}
	return reMany(reOf(name+"l", depth-1), 1, "+")
}

// C24_regex: the regular expression function searches the text for the expression.
func C24_regex() {
	e := reOf("e", pick(2, 3))
	s := sym.StrIn("text", "ab.\n", 0, 3)
	want := false
	for i := 0; i <= len(s); i++ {
		if len(e.ends(s, i)) > 0 {
			want = true
		}
	}
	got, err := builtin("regexMatch", s, e.text)
	sym.Observe("match", got)
	sym.Cover("end")
	sym.Assert(err == nil, "a well-formed expression is an error: "+e.text)
	sym.Assert(got == want, "the regular expression function searches the text: "+e.text)
}

// C24_regexText: every short text as expression.
func C24_regexText() {
	p := sym.StrIn("pattern", []string{"a(|)?", "[^a-]", "a{1,}", "\\dpQ.", "(?i:A"}[sym.Choose("characters", 5)], 0, pick(3, 5))
	s := sym.StrIn("text", "aA1", 0, 2)
	got, err := builtin("regexMatch", s, p)
	want, werr := regexp.MatchString(p, s)
	sym.Observe("match", got)
	sym.Observe("error", err != nil)
	sym.Cover("end")
	sym.Assert((err == nil) == (werr == nil), "malformed expressions are errors, others are not")
	sym.Assert(got == (werr == nil && want), "the regular expression function searches the text")
	sym.Assert(util.RegexMatcher.Match(s, "p'"+p) == (werr == nil && want), "the matcher of regular expressions searches the text")
}

// C24_matcher: the same functions in matchers.
func C24_matcher() {
	var name, x, p string
	switch sym.Choose("function", 3) {
	case 0:
		name, x, p = "ipMatch", "10.0.0."+sym.StrIn("x", "0129", 1, 2), "10.0.0."+sym.StrIn("y", "012/", 1, 3)
	case 1:
		name, x, p = "globMatch", sym.StrIn("x", "ab/", 0, 2), sym.StrIn("y", "a*?[]", 1, 3)
	case 2:
		name, x, p = "regexMatch", sym.StrIn("x", "ab", 0, 2), sym.StrIn("y", "a*(^", 1, 3)
	}
	want, werr := builtin(name, x, p)
	got, err := decided(name, x, p)
	sym.Observe("decision", got)
	sym.Cover("end")
	sym.Assert((err == nil) == (werr == nil), "an error of a built-in function is an error of the decision")
	sym.Assert(got == want, "a built-in function decides")
}

type word string

// C24_arguments: arguments of any number and type.
func C24_arguments() {
	names := []string{"ipMatch", "globMatch", "regexMatch", "pathMatch", "pathMatch2"}
	name := names[sym.Choose("function", len(names))]
	args := []interface{}{}
	strings := 0
	n := sym.Choose("count", pick(4, 5))
	for i := 0; i < n; i++ {
		var v interface{}
		switch sym.Choose("type"+itoa(i), 10) {
		case 0:
			v = "::1"
			strings++
		case 1:
			v = 1
		case 2:
			v = nil
		case 3:
			v = true
		case 4:
			v = []byte("::1")
		case 5:
			v = word("::1")
		case 6:
			s := "::1"
			v = &s
		case 7:
			v = []string{"::1"}
		case 8:
			v = 1.5
		case 9:
			v = ""
			strings++
		}
		args = append(args, v)
	}
	got, err := builtin(name, args...)
	sym.Cover("end")
	sym.Observe("error", err != nil)
	if n != 2 || strings != 2 {
		sym.Assert(err != nil && !got, "arguments that are no two strings are an error: "+name)
	} else if name != "ipMatch" {
		sym.Assert(err == nil, "two strings are no error: "+name)
		sym.Assert(got || args[0] != args[1], "equal strings match: "+name)
	}
}

// C24_panics: the exported functions give no match on malformed arguments either.
func C24_panics() {
	x, y := sym.StrIn("x", "1.:", 0, pick(3, 4)), sym.StrIn("y", "1.:/", 0, pick(3, 4))
	if sym.Bool("one") {
		x = "1.1.1.1"
	}
	got := false
	func() {
		defer func() { _ = recover() }()
		got = util.IPMatch(x, y)
	}()
	want, ok := inside(x, y)
	sym.Observe("match", got)
	sym.Cover("end")
	sym.Assert(got == (ok && want), "an address matches exactly itself and the ranges it lies in")
}

// C24_calls: a call of a built-in function does not depend on the calls before it, also if their arguments join to the same text.
func C24_calls() {
	name := []string{"ipMatch", "globMatch", "regexMatch"}[sym.Choose("function", 3)]
	part := func(k string) string {
		switch name {
		case "globMatch":
			return sym.StrIn(k, "a*", 0, pick(1, 2))
		case "regexMatch":
			return sym.StrIn(k, "a$", 0, pick(1, 2))
		}
		return []string{"1.1.1.1", "1", "1.1.1.1/8", "1.1.1.11"}[sym.Choose(k, 4)]
	}
	a, b, c := part("a"), part("b"), part("c")
	// two divisions of a text
	sep := sym.StrIn("separator", "a, |:/\x00", 0, 1)
	calls := [][2]string{{a, b + sep + c}, {a + sep + b, c}, {b, a}, {a, b}}
	i, k := sym.Choose("first", 4), sym.Choose("second", 4)
	f := fm.DefaultFunctionMap().GetFunctions()[name]
	for n, x := range [][2]string{calls[i], calls[k]} {
		r, err := f(x[0], x[1])
		got, _ := r.(bool)
		want, ok := false, false
		switch name {
		case "ipMatch":
			want, ok = inside(x[0], x[1])
		case "globMatch":
			want, ok = globs(x[0], x[1])
		case "regexMatch":
			w, err := regexp.MatchString(x[1], x[0])
			want, ok = w, err == nil
		}
		sym.Observe("match"+itoa(n), got)
		sym.Cover("end")
		sym.Assert((err == nil) == ok, "a call of a built-in function depends on the calls before it: "+name)
		sym.Assert(got == (ok && want), "a call of a built-in function depends on the calls before it: "+name)
	}
}
