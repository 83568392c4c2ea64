package shim

import (
	"regexp"
	"unicode/utf8"
)

// Regular expressions over symbolic text: the compiled program of the expression is run by backtracking with
// the leftmost-first rule of package regexp. Calls with concrete arguments go to package regexp itself.

// reInst is one instruction of a compiled expression.
type reInst struct {
	op   int // see the constants
	out  int
	arg  int
	runs []rune // lo, hi pairs
}

const (
	reAlt = iota
	reCapture
	reEmpty
	reMatch
	reFail
	reNop
	reRune
)

// reProg is made by the engine: instructions, start and number of capture slots.
func reProg(re *regexp.Regexp) ([]reInst, int, int) { panic("engine only") }

// inRanges is made by the engine: one condition for all ranges.
func inRanges(r rune, runs []rune) bool { panic("engine only") }

type machine struct {
	prog    []reInst
	s       string
	visited []bool
}

func isWord(s string, i int) bool {
	if i < 0 || i >= len(s) {
		return false
	}
	return inRanges(rune(s[i]), []rune{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'})
}

func (m *machine) empty(flags, pos int) bool {
	if flags&1 != 0 && pos != 0 && m.s[pos-1] != '\n' {
		return false
	}
	if flags&2 != 0 && pos != len(m.s) && m.s[pos] != '\n' {
		return false
	}
	if flags&4 != 0 && pos != 0 || flags&8 != 0 && pos != len(m.s) {
		return false
	}
	if flags&(16|32) != 0 {
		boundary := isWord(m.s, pos-1) != isWord(m.s, pos)
		if flags&16 != 0 && !boundary || flags&32 != 0 && boundary {
			return false
		}
	}
	return true
}

func (m *machine) run(pc, pos int, caps []int) bool {
	for {
		k := pc*(len(m.s)+1) + pos
		if m.visited[k] {
			return false
		}
		m.visited[k] = true
		in := &m.prog[pc]
		switch in.op {
		case reMatch:
			caps[1] = pos
			return true
		case reFail:
			return false
		case reNop:
			pc = in.out
		case reCapture:
			if in.arg < len(caps) {
				old := caps[in.arg]
				caps[in.arg] = pos
				if m.run(in.out, pos, caps) {
					return true
				}
				caps[in.arg] = old
				return false
			}
			pc = in.out
		case reEmpty:
			if !m.empty(in.arg, pos) {
				return false
			}
			pc = in.out
		case reAlt:
			if m.run(in.out, pos, caps) {
				return true
			}
			pc = in.arg
		case reRune:
			if pos >= len(m.s) {
				return false
			}
			r, w := rune(m.s[pos]), 1
			if r >= utf8.RuneSelf {
				r, w = utf8.DecodeRuneInString(m.s[pos:])
			}
			if !inRanges(r, in.runs) {
				return false
			}
			pos += w
			pc = in.out
		}
	}
}

// exec returns the positions of the leftmost match at or after pos.
func exec(re *regexp.Regexp, s string, pos int) []int {
	prog, start, ncap := reProg(re)
	m := &machine{prog: prog, s: s, visited: make([]bool, len(prog)*(len(s)+1))}
	for i := pos; i <= len(s); i++ {
		caps := make([]int, ncap)
		for j := range caps {
			caps[j] = -1
		}
		caps[0] = i
		if m.run(start, i, caps) {
			return caps
		}
		if i < len(s) && s[i] >= utf8.RuneSelf {
			_, w := utf8.DecodeRuneInString(s[i:])
			i += w - 1
		}
	}
	return nil
}

func runeWidth(s string, pos int) int {
	if pos >= len(s) {
		return 0
	}
	if s[pos] < utf8.RuneSelf {
		return 1
	}
	_, w := utf8.DecodeRuneInString(s[pos:])
	return w
}

func execAll(re *regexp.Regexp, s string, n int) [][]int {
	if n < 0 {
		n = len(s) + 1
	}
	var res [][]int
	prevEnd := -1
	for pos := 0; len(res) < n && pos <= len(s); {
		m := exec(re, s, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prevEnd {
				accept = false
			}
			if w := runeWidth(s, pos); w > 0 {
				pos += w
			} else {
				pos = len(s) + 1
			}
		} else {
			pos = m[1]
		}
		prevEnd = m[1]
		if accept {
			res = append(res, m)
		}
	}
	return res
}

func replaceAll(re *regexp.Regexp, src string, repl func(m []int) string) string {
	out := ""
	last, pos := 0, 0
	for pos <= len(src) {
		m := exec(re, src, pos)
		if m == nil {
			break
		}
		out += src[last:m[0]]
		if m[1] > last || m[0] == 0 {
			out += repl(m)
		}
		last = m[1]
		w := runeWidth(src, pos)
		if pos+w > m[1] {
			pos += w
		} else if pos+1 > m[1] {
			pos++
		} else {
			pos = m[1]
		}
	}
	if last == 0 && out == "" {
		return src
	}
	return out + src[last:]
}

func pieces(s string, m []int) []string {
	res := make([]string, len(m)/2)
	for i := range res {
		if m[2*i] >= 0 {
			res[i] = s[m[2*i]:m[2*i+1]]
		}
	}
	return res
}

//shim:regexp.MatchString
func reMatchStr(pattern, s string) (bool, error) {
	re, err := regexp.Compile(pattern)
	if err != nil {
		return false, err
	}
	return re.MatchString(s), nil
}

//shim:(*regexp.Regexp).MatchString
func reMatchString(re *regexp.Regexp, s string) bool { return exec(re, s, 0) != nil }

//shim:(*regexp.Regexp).FindStringIndex
func reFindStringIndex(re *regexp.Regexp, s string) []int {
	m := exec(re, s, 0)
	if m == nil {
		return nil
	}
	return m[:2]
}

//shim:(*regexp.Regexp).FindString
func reFindString(re *regexp.Regexp, s string) string {
	m := exec(re, s, 0)
	if m == nil {
		return ""
	}
	return s[m[0]:m[1]]
}

//shim:(*regexp.Regexp).FindStringSubmatchIndex
func reFindStringSubmatchIndex(re *regexp.Regexp, s string) []int { return exec(re, s, 0) }

//shim:(*regexp.Regexp).FindStringSubmatch
func reFindStringSubmatch(re *regexp.Regexp, s string) []string {
	m := exec(re, s, 0)
	if m == nil {
		return nil
	}
	return pieces(s, m)
}

//shim:(*regexp.Regexp).FindAllStringIndex
func reFindAllStringIndex(re *regexp.Regexp, s string, n int) [][]int {
	var res [][]int
	for _, m := range execAll(re, s, n) {
		res = append(res, m[:2])
	}
	return res
}

//shim:(*regexp.Regexp).FindAllStringSubmatchIndex
func reFindAllStringSubmatchIndex(re *regexp.Regexp, s string, n int) [][]int {
	return execAll(re, s, n)
}

//shim:(*regexp.Regexp).FindAllString
func reFindAllString(re *regexp.Regexp, s string, n int) []string {
	var res []string
	for _, m := range execAll(re, s, n) {
		res = append(res, s[m[0]:m[1]])
	}
	return res
}

//shim:(*regexp.Regexp).FindAllStringSubmatch
func reFindAllStringSubmatch(re *regexp.Regexp, s string, n int) [][]string {
	var res [][]string
	for _, m := range execAll(re, s, n) {
		res = append(res, pieces(s, m))
	}
	return res
}

//shim:(*regexp.Regexp).ReplaceAllLiteralString
func reReplaceAllLiteral(re *regexp.Regexp, src, repl string) string {
	return replaceAll(re, src, func(m []int) string { return repl })
}

//shim:(*regexp.Regexp).ReplaceAllStringFunc
func reReplaceFunc(re *regexp.Regexp, src string, repl func(string) string) string {
	return replaceAll(re, src, func(m []int) string { return repl(src[m[0]:m[1]]) })
}

//shim:(*regexp.Regexp).ReplaceAllString
func reReplaceAllString(re *regexp.Regexp, src, repl string) string {
	return replaceAll(re, src, func(m []int) string { return expand(src, m, repl) })
}

// expand replaces $n and ${n}; names of groups are not supported.
func expand(src string, m []int, repl string) string {
	out := ""
	for i := 0; i < len(repl); i++ {
		if repl[i] != '$' || i+1 >= len(repl) {
			out += repl[i : i+1]
			continue
		}
		j := i + 1
		brace := repl[j] == '{'
		if repl[j] == '$' {
			out += "$"
			i++
			continue
		}
		if brace {
			j++
		}
		n, k := 0, j
		for k < len(repl) && repl[k] >= '0' && repl[k] <= '9' {
			n = n*10 + int(repl[k]-'0')
			k++
		}
		if k == j || brace && (k >= len(repl) || repl[k] != '}') || !brace && k < len(repl) && (repl[k] == '_' || repl[k] >= 'A') {
			panic(RuntimeError{"regular expression template not supported: " + repl})
		}
		if 2*n+1 < len(m) && m[2*n] >= 0 {
			out += src[m[2*n]:m[2*n+1]]
		}
		if !brace {
			k--
		}
		i = k
	}
	return out
}
