package main

import (
	"regexp/syntax"
	"unicode"
)

// regexProg compiles an expression for the matcher in the shim: instructions, start, number of capture slots.
func regexProg(in *Interp, expr string) Value {
	if v, ok := in.regexes[expr]; ok {
		return v
	}
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		in.unsupported("regular expression " + expr)
	}
	ncap := 2 * (re.MaxCap() + 1)
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		in.unsupported("regular expression " + expr)
	}
	insts := make([]Value, len(prog.Inst))
	for i, x := range prog.Inst {
		var op, arg uint64
		var runs []rune
		switch x.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			op, arg = 0, uint64(x.Arg)
		case syntax.InstCapture:
			op, arg = 1, uint64(x.Arg)
		case syntax.InstEmptyWidth:
			op, arg = 2, uint64(x.Arg)
		case syntax.InstMatch:
			op = 3
		case syntax.InstFail:
			op = 4
		case syntax.InstNop:
			op = 5
		case syntax.InstRuneAny:
			op, runs = 6, []rune{0, unicode.MaxRune}
		case syntax.InstRuneAnyNotNL:
			op, runs = 6, []rune{0, '\n' - 1, '\n' + 1, unicode.MaxRune}
		case syntax.InstRune, syntax.InstRune1:
			op = 6
			if len(x.Rune) == 1 {
				r := x.Rune[0]
				runs = []rune{r, r}
				if syntax.Flags(x.Arg)&syntax.FoldCase != 0 {
					for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
						runs = append(runs, f, f)
					}
				}
			} else {
				runs = x.Rune
			}
		}
		rv := make([]Value, len(runs))
		for j, r := range runs {
			rv[j] = Value{N: uint64(uint32(r))}
		}
		insts[i] = Value{O: &Agg{[]Value{{N: op}, {N: uint64(x.Out)}, {N: arg}, {O: &Slice{rv}}}}}
	}
	v := Value{O: []Value{{O: &Slice{insts}}, {N: uint64(prog.Start)}, {N: uint64(ncap)}}}
	if in.regexes == nil {
		in.regexes = map[string]Value{}
	}
	in.regexes[expr] = v
	return v
}
