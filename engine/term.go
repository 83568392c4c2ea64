package main

import (
	"fmt"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OpConst Op = iota // val, w (0 = bool)
	OpVar             // vidx, w
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // low bits [w-1:0] of a, shifted by val
)

// Term is a hash-consed SMT term over bit-vectors (w > 0) and booleans (w == 0).
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	id      int32
	defined bool // sent to the solver
	// evaluation memo
	ev    uint64
	evGen uint32
	vs    []*Term // variables, once asked for
	mark  uint32
	size  uint32 // of the term as a tree, saturating
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

// TermPool hash-conses terms; one per worker.
type TermPool struct {
	m     map[termKey]*Term
	list  []*Term
	gen   uint32
	mark  uint32
	sets  map[*Term]*valueSet
	True  *Term
	False *Term
	vars  []*Term
	vname []string
}

func newTermPool() *TermPool {
	p := &TermPool{m: map[termKey]*Term{}, gen: 1, sets: map[*Term]*valueSet{}}
	p.True = p.mk(OpConst, 0, nil, nil, nil, 1)
	p.False = p.mk(OpConst, 0, nil, nil, nil, 0)
	return p
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (p *TermPool) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val}
	if t, ok := p.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: int32(len(p.list)), size: 1}
	for _, x := range []*Term{a, b, c} {
		if x != nil && t.size < 1<<30 {
			t.size += x.size
		}
	}
	p.list = append(p.list, t)
	p.m[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (p *TermPool) Const(w uint8, v uint64) *Term { return p.mk(OpConst, w, nil, nil, nil, v&mask(w)) }
func (p *TermPool) Bool(b bool) *Term {
	if b {
		return p.True
	}
	return p.False
}

// NewVar returns the idx-th solver variable of width w (0 = bool). Variables are reused across paths.
func (p *TermPool) NewVar(idx int, w uint8) *Term {
	t := p.mk(OpVar, w, nil, nil, nil, uint64(idx))
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (p *TermPool) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return p.Bool(a.val == 0)
	case OpNot:
		return a.a
	}
	return p.mk(OpNot, 0, a, nil, nil, 0)
}

func (p *TermPool) And(a, b *Term) *Term {
	if a == p.False || b == p.False {
		return p.False
	}
	if a == p.True {
		return b
	}
	if b == p.True || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return p.False
	}
	return p.mk(OpAnd, 0, a, b, nil, 0)
}

func (p *TermPool) Or(a, b *Term) *Term {
	if a == p.True || b == p.True {
		return p.True
	}
	if a == p.False {
		return b
	}
	if b == p.False || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return p.True
	}
	return p.mk(OpOr, 0, a, b, nil, 0)
}

func (p *TermPool) Ite(c, a, b *Term) *Term {
	if c == p.True || a == b {
		return a
	}
	if c == p.False {
		return b
	}
	if a.w == 0 {
		return p.Or(p.And(c, a), p.And(p.Not(c), b))
	}
	return p.mk(OpIte, a.w, c, a, b, 0)
}

func (p *TermPool) Eq(a, b *Term) *Term {
	if a == b {
		return p.True
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return p.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return p.mk(OpEq, 0, a, b, nil, 0)
	}
	if b.isConst() {
		switch a.op {
		case OpZext:
			if b.val&^mask(a.a.w) != 0 {
				return p.False
			}
			return p.Eq(a.a, p.Const(a.a.w, b.val))
		case OpSext:
			lo := b.val & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.val {
				return p.False
			}
			return p.Eq(a.a, p.Const(a.a.w, lo))
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return p.True
				case x:
					return a.a
				case y:
					return p.Not(a.a)
				default:
					return p.False
				}
			}
			if a.b.isConst() || a.c.isConst() {
				return p.Or(p.And(a.a, p.Eq(a.b, b)), p.And(p.Not(a.a), p.Eq(a.c, b)))
			}
		case OpAdd:
			if a.b.isConst() {
				return p.Eq(a.a, p.Const(a.w, b.val-a.b.val))
			}
		case OpSub:
			if a.b.isConst() {
				return p.Eq(a.a, p.Const(a.w, b.val+a.b.val))
			}
		}
		return p.mk(OpEq, 0, a, b, nil, 0)
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return p.Eq(a.a, b.a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OpEq, 0, a, b, nil, 0)
}

// Bin builds a bit-vector binary operation or comparison.
func (p *TermPool) Bin(op Op, a, b *Term) *Term {
	w := a.w
	cmp := op == OpUlt || op == OpUle || op == OpSlt || op == OpSle
	if a.isConst() && b.isConst() {
		v, ok := foldBin(op, w, a.val, b.val)
		if ok {
			if cmp {
				return p.Bool(v == 1)
			}
			return p.Const(w, v)
		}
	}
	if cmp {
		if a == b {
			return p.Bool(op == OpUle || op == OpSle)
		}
		// zext operands: reduce to the narrow width
		if x, y, ok := p.narrow(a, b); ok {
			switch op {
			case OpUlt, OpSlt:
				return p.Bin(OpUlt, x, y)
			case OpUle, OpSle:
				return p.Bin(OpUle, x, y)
			}
		}
		if a.op == OpZext && b.isConst() {
			// constant outside the narrow range
			signed := op == OpSlt || op == OpSle
			if signed && sext(b.val, w) < 0 {
				return p.False
			}
			return p.True // b.val > max(a)
		}
		if b.op == OpZext && a.isConst() {
			signed := op == OpSlt || op == OpSle
			if signed && sext(a.val, w) < 0 {
				return p.True
			}
			return p.False
		}
		if op == OpUlt && b.isConst() && b.val == 0 {
			return p.False
		}
		if op == OpUle && a.isConst() && a.val == 0 {
			return p.True
		}
		return p.mk(op, 0, a, b, nil, 0)
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && a.op == OpAdd && a.b.isConst() {
			return p.Bin(OpAdd, a.a, p.Const(w, a.b.val+b.val))
		}
		if b.isConst() && a.op == OpSub && a.b.isConst() {
			return p.Bin(OpAdd, a.a, p.Const(w, b.val-a.b.val))
		}
	case OpSub:
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return p.Const(w, 0)
		}
		if b.isConst() {
			return p.Bin(OpAdd, a, p.Const(w, -b.val))
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && b.val == 0 {
			return b
		}
	case OpBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OpZext && b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if op != OpShl && op != OpLshr && op != OpAshr && a.isConst() && a.val == 0 {
			return b
		}
	}
	return p.mk(op, w, a, b, nil, 0)
}

func (p *TermPool) narrow(a, b *Term) (x, y *Term, ok bool) {
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return a.a, b.a, true
	}
	if a.op == OpZext && b.isConst() && b.val&^mask(a.a.w) == 0 {
		return a.a, p.Const(a.a.w, b.val), true
	}
	if b.op == OpZext && a.isConst() && a.val&^mask(b.a.w) == 0 {
		return p.Const(b.a.w, a.val), b.a, true
	}
	return nil, nil, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpUlt:
		return b2u(x < y), true
	case OpUle:
		return b2u(x <= y), true
	case OpSlt:
		return b2u(sext(x, w) < sext(y, w)), true
	case OpSle:
		return b2u(sext(x, w) <= sext(y, w)), true
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func (p *TermPool) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return p.Const(w, a.val)
	}
	if a.op == OpZext {
		return p.Zext(a.a, w)
	}
	return p.mk(OpZext, w, a, nil, nil, 0)
}

func (p *TermPool) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return p.Const(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OpZext {
		return p.Zext(a.a, w)
	}
	return p.mk(OpSext, w, a, nil, nil, 0)
}

// Trunc keeps the low w bits.
func (p *TermPool) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return p.Const(w, a.val)
	}
	if a.op == OpZext || a.op == OpSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return p.Trunc(a.a, w)
		}
		if a.op == OpZext {
			return p.Zext(a.a, w)
		}
		return p.Sext(a.a, w)
	}
	return p.mk(OpExtract, w, a, nil, nil, 0)
}

// Eval evaluates t under a model (missing variables are 0). Bump p.gen when the model changes.
func (p *TermPool) Eval(t *Term, model []uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evGen == p.gen {
		return t.ev
	}
	var v uint64
	switch t.op {
	case OpVar:
		if int(t.val) < len(model) {
			v = model[t.val] & mask(t.w)
			if t.w == 0 {
				v = model[t.val] & 1
			}
		}
	case OpNot:
		v = 1 - p.Eval(t.a, model)
	case OpAnd:
		v = p.Eval(t.a, model)
		if v == 1 {
			v = p.Eval(t.b, model)
		}
	case OpOr:
		v = p.Eval(t.a, model)
		if v == 0 {
			v = p.Eval(t.b, model)
		}
	case OpEq:
		v = b2u(p.Eval(t.a, model) == p.Eval(t.b, model))
	case OpIte:
		if p.Eval(t.a, model) == 1 {
			v = p.Eval(t.b, model)
		} else {
			v = p.Eval(t.c, model)
		}
	case OpZext:
		v = p.Eval(t.a, model)
	case OpSext:
		v = uint64(sext(p.Eval(t.a, model), t.a.w)) & mask(t.w)
	case OpExtract:
		v = p.Eval(t.a, model) & mask(t.w)
	default:
		w := t.a.w
		r, ok := foldBin(t.op, w, p.Eval(t.a, model), p.Eval(t.b, model))
		if !ok {
			panic("eval: bad op")
		}
		v = r
	}
	t.ev, t.evGen = v, p.gen
	return v
}

var opSMT = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv",
	OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OpVar:
		return fmt.Sprintf("v%d_%d", t.val, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

// compact returns an equivalent of a big term over one variable of at most 8 bits that lists the values of the
// variable for each value of the term, or "" when that is not shorter.
func (p *TermPool) compact(t *Term) string {
	if t.size < 24 || t.w > 64 {
		return ""
	}
	vs := p.varsOf(t)
	if len(vs) != 1 || vs[0].w == 0 || vs[0].w > 8 {
		return ""
	}
	v := vs[0]
	n := 1 << v.w
	type run struct{ lo, hi int }
	groups := map[uint64][]run{}
	var order []uint64
	m := make([]uint64, v.val+1)
	var last uint64
	runs := 0
	for x := 0; x < n; x++ {
		m[v.val] = uint64(x)
		p.gen++
		r := p.Eval(t, m)
		g := groups[r]
		if x > 0 && r == last {
			g[len(g)-1].hi = x
			continue
		}
		if len(g) == 0 {
			order = append(order, r)
		}
		groups[r] = append(g, run{x, x})
		last = r
		runs++
	}
	p.gen++
	if runs > 64 {
		return ""
	}
	most := order[0]
	for _, r := range order {
		if len(groups[r]) > len(groups[most]) {
			most = r
		}
	}
	lit := func(r uint64) string {
		if t.w == 0 {
			return map[uint64]string{0: "false", 1: "true"}[r]
		}
		return fmt.Sprintf("(_ bv%d %d)", r, t.w)
	}
	body := lit(most)
	for _, r := range order {
		if r == most {
			continue
		}
		var c strings.Builder
		for _, g := range groups[r] {
			switch {
			case g.lo == g.hi:
				fmt.Fprintf(&c, " (= %s (_ bv%d %d))", v.ref(), g.lo, v.w)
			case g.lo == 0:
				fmt.Fprintf(&c, " (bvule %s (_ bv%d %d))", v.ref(), g.hi, v.w)
			case g.hi == n-1:
				fmt.Fprintf(&c, " (bvule (_ bv%d %d) %s)", g.lo, v.w, v.ref())
			default:
				fmt.Fprintf(&c, " (and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d)))", g.lo, v.w, v.ref(), v.ref(), g.hi, v.w)
			}
		}
		cond := c.String()[1:]
		if len(groups[r]) > 1 {
			cond = "(or " + cond + ")"
		}
		body = fmt.Sprintf("(ite %s %s %s)", cond, lit(r), body)
	}
	return body
}

// define emits declarations for t and its sub-terms (once each).
func (p *TermPool) define(t *Term, sb *strings.Builder) {
	if t.defined || t.op == OpConst {
		return
	}
	t.defined = true
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.ref(), sortName(t.w))
		return
	}
	if body := p.compact(t); body != "" {
		p.define(p.varsOf(t)[0], sb)
		fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", t.ref(), sortName(t.w), body)
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			p.define(x, sb)
		}
	}
	var body string
	switch t.op {
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a.ref())
	case OpNot:
		body = fmt.Sprintf("(not %s)", t.a.ref())
	case OpIte:
		body = fmt.Sprintf("(ite %s %s %s)", t.a.ref(), t.b.ref(), t.c.ref())
	default:
		body = fmt.Sprintf("(%s %s %s)", opSMT[t.op], t.a.ref(), t.b.ref())
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", t.ref(), sortName(t.w), body)
}
