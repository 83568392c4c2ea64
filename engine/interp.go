package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	fn   *Closure
	args []Value
	nm   string // builtin name
	in   *Inst
	next *deferRec
}

// PanicRec is an active panic. recovered is a slot so that backtracking restores it.
type PanicRec struct {
	val       Value // interface value
	recovered Value
	trace     string
}

const (
	mNormal = iota
	mRunDefer
	mUnwindDefer
	mBase
)

// Frame is one activation. Frames below a choice point are shared and cloned before they change.
type Frame struct {
	fi     *FnInfo
	regs   []Value
	caller *Frame
	defers *deferRec
	pan    *PanicRec // panic this frame is unwinding
	defOf  *PanicRec // panic of the frame that runs this deferred call
	blk    int32
	prev   int32
	pc     int32
	dst    int32
	mode   uint8
	shared bool
	depth  int32
	wrap   func(in *Interp, v Value) Value // converts the result
}

func (f *Frame) clone() *Frame {
	g := *f
	g.shared = false
	g.regs = append([]Value(nil), f.regs...)
	return &g
}

type trailEnt struct {
	p   *Value
	old Value
	fn  func()
}

// Dec is one recorded decision.
type Dec struct {
	K uint8 // 0 branch, 1 choose, 2 concretise
	V uint64
	B bool
}

type alt struct {
	d    Dec
	cond *Term
}

type choicePoint struct {
	frame   *Frame
	trail   int
	pcLen   int
	factLen int
	decLen  int
	inLen   int
	obsLen  int
	nvars   int
	steps   int64
	local   []Dec
	alts    []alt
	excl    int
	shrd    int
	frameN  int
}

type inputRec struct {
	Name string
	Kind string // str, byte, bool, int, choose
	S    *Str
	V    Value
	W    uint8
	Hi   uint64
}

type obsRec struct {
	label string
	vals  []obsVal
}

type obsVal struct {
	kind string
	v    Value
	s    *Str
	list []obsVal
}

type pathEnd struct{ why string }
type targetPanic struct{ v Value }

// Interp is one worker's symbolic machine.
type Interp struct {
	p      *Program
	pool   *TermPool
	solver *Solver
	cur    *Frame

	globals   []*Value
	globSkip  []bool
	trail     []trailEnt
	locks     map[*Value]int
	trailOn   bool
	startMark int // trail position at the start of the current instruction

	pc      []*Term
	facts   map[*Term]bool
	factLst []*Term
	model   []uint64

	vars      []*Term
	qcache    map[string]*queryRes
	sliceIn   []bool
	regexes   map[string]Value
	claimed   map[string]bool
	claims    [][]*Term
	inputs    []inputRec
	obs       []obsRec
	decisions []Dec
	local     []Dec
	localPos  int
	prefix    []Dec
	prefPos   int
	replaying bool

	cps   []*choicePoint
	steps int64
	maxSt int64

	ex       *Explorer
	hs       *harnessState
	mapOrder int
	excl     int // exclusive locks held
	shrd     int
	frameOn  bool
	fresh    map[*Value]bool
	freshM   map[*Map]bool
	frameW   []frameEv
	initing  bool
	deadline time.Time
	tier     string
	covered  map[*FnInfo]bool
	conc     bool // concrete mode: forks are errors (package initialisation)
	panTrace string
	sites    map[*Inst]int64
	noFork   bool
}

func newInterp(p *Program) (*Interp, error) {
	in := &Interp{p: p, locks: map[*Value]int{}, pool: newTermPool(), facts: map[*Term]bool{}, maxSt: 30_000_000, covered: map[*FnInfo]bool{}, sites: map[*Inst]int64{}}
	s, err := newSolver(in.pool)
	if err != nil {
		return nil, err
	}
	in.solver = s
	return in, nil
}

func (in *Interp) unsupported(msg string) {
	panic(pathEnd{"unsupported: " + msg + " @ " + in.where()})
}

func (in *Interp) where() string {
	f := in.cur
	var p []string
	for i := 0; f != nil && i < 6; i++ {
		pos := ""
		if int(f.blk) < len(f.fi.blocks) && int(f.pc) < len(f.fi.blocks[f.blk].insts) {
			if src := f.fi.blocks[f.blk].insts[f.pc].src; src != nil && src.Pos().IsValid() {
				ps := in.p.prog.Fset.Position(src.Pos())
				pos = fmt.Sprintf(":%d", ps.Line)
			}
		}
		p = append(p, f.fi.name+pos)
		f = f.caller
	}
	return strings.Join(p, " < ")
}

func (in *Interp) throw(v Value) { panic(targetPanic{v}) }

func (in *Interp) throwRuntime(msg string) {
	// runtime errors are values of shim.RuntimeError
	v := Value{O: &Iface{T: in.p.rtErr, V: Value{O: &Agg{[]Value{mkStr("runtime error: " + msg)}}}}}
	panic(targetPanic{v})
}

// --- trail ---

func (in *Interp) set(p *Value, v Value) {
	in.trail = append(in.trail, trailEnt{p: p, old: *p})
	if in.frameOn {
		in.noteWrite(p)
	}
	*p = v
}

func (in *Interp) trailFn(f func()) { in.trail = append(in.trail, trailEnt{fn: f}) }

func (in *Interp) undoTo(n int) {
	for i := len(in.trail) - 1; i >= n; i-- {
		e := &in.trail[i]
		if e.fn != nil {
			e.fn()
			e.fn = nil
		} else {
			*e.p = e.old
		}
		e.p = nil
		e.old = Value{}
	}
	in.trail = in.trail[:n]
}

// store writes v into slot p, elementwise for aggregates so that inner slots keep their identity.
func (in *Interp) store(p *Value, v Value) {
	if a, ok := v.O.(*Agg); ok {
		if b, ok := p.O.(*Agg); ok && len(a.F) == len(b.F) {
			if a == b {
				return
			}
			for i := range a.F {
				if _, ok := a.F[i].O.(*Agg); ok {
					in.store(&b.F[i], a.F[i])
				} else {
					in.set(&b.F[i], a.F[i])
				}
			}
			return
		}
		in.set(p, copyVal(v))
		return
	}
	in.set(p, v)
}

// frameEv is an access to memory older than the frame.
type frameEv struct {
	kind uint8 // 0 write without lock, 1 write under a lock, 2 read without lock
	p    *Value
	m    *Map
	at   string
}

func (in *Interp) noteWrite(p *Value) {
	if in.fresh[p] || in.offFrame() {
		return
	}
	in.frameW = append(in.frameW, frameEv{in.writeKind(), p, nil, "write @ " + in.where()})
}

// offFrame is true in code that is not under test.
func (in *Interp) offFrame() bool {
	return in.cur == nil || in.cur.fi.shim || strings.HasPrefix(in.cur.fi.pkg, "fvh/")
}

// writeKind is 3 (ignored) inside sync.Once, whose callers are all synchronised with the writes.
func (in *Interp) writeKind() uint8 {
	if in.excl <= 0 {
		return 0
	}
	for f := in.cur; f != nil; f = f.caller {
		if f.fi.pkg == "sync" {
			return 3
		}
	}
	return 1
}

func (in *Interp) noteMapWrite(m *Map) {
	if !in.frameOn || in.freshM[m] || in.offFrame() {
		return
	}
	in.frameW = append(in.frameW, frameEv{in.writeKind(), nil, m, "map write @ " + in.where()})
}

func (in *Interp) noteRead(p *Value) {
	if in.excl > 0 || in.shrd > 0 || in.offFrame() {
		return
	}
	if a, ok := p.O.(*Agg); ok {
		for i := range a.F {
			in.noteRead(&a.F[i])
		}
		return
	}
	if !in.fresh[p] {
		in.frameW = append(in.frameW, frameEv{kind: 2, p: p})
	}
}

func (in *Interp) noteMapRead(m *Map) {
	if !in.frameOn || in.freshM[m] || in.excl > 0 || in.shrd > 0 || in.offFrame() {
		return
	}
	in.frameW = append(in.frameW, frameEv{kind: 2, m: m})
}

// frameReport lists the writes without lock, and those under a lock to memory also read without one.
func (in *Interp) frameReport() []string {
	rp, rm := map[*Value]bool{}, map[*Map]bool{}
	for _, e := range in.frameW {
		if e.kind == 2 {
			if e.p != nil {
				rp[e.p] = true
			} else {
				rm[e.m] = true
			}
		}
	}
	var out []string
	for _, e := range in.frameW {
		switch {
		case e.kind == 0:
			out = append(out, e.at)
		case e.kind == 1 && (e.p != nil && rp[e.p] || e.m != nil && rm[e.m]):
			out = append(out, "locked "+e.at+" to memory read without lock")
		}
	}
	return out
}

func (in *Interp) markFresh(p *Value) {
	if !in.frameOn {
		return
	}
	in.fresh[p] = true
	if a, ok := p.O.(*Agg); ok {
		for i := range a.F {
			in.markFresh(&a.F[i])
		}
	}
}

func (in *Interp) newSlot(v Value) *Value {
	p := new(Value)
	*p = v
	in.markFresh(p)
	return p
}

func (in *Interp) newSliceVals(a []Value) Value {
	if in.frameOn {
		full := a[:cap(a)]
		for i := range full {
			in.markFresh(&full[i])
		}
	}
	return Value{O: &Slice{a}}
}

// --- decisions ---

func (in *Interp) addPC(c *Term) {
	if c == in.pool.True {
		return
	}
	in.pc = append(in.pc, c)
	in.addFact(c)
}

func (in *Interp) addFact(c *Term) {
	if _, ok := in.facts[c]; ok {
		return
	}
	in.facts[c] = true
	in.factLst = append(in.factLst, c)
	switch c.op {
	case OpAnd:
		in.addFact(c.a)
		in.addFact(c.b)
	case OpNot:
		if c.a.op == OpOr {
			in.addFact(in.pool.Not(c.a.a))
			in.addFact(in.pool.Not(c.a.b))
		}
	}
}

func (in *Interp) undoFacts(n int) {
	for i := len(in.factLst) - 1; i >= n; i-- {
		delete(in.facts, in.factLst[i])
	}
	in.factLst = in.factLst[:n]
}

// known evaluates c with the facts of the path.
func (in *Interp) known(c *Term, d int) *Term {
	if c.isConst() {
		return c
	}
	if in.facts[c] {
		return in.pool.True
	}
	if in.facts[in.pool.Not(c)] {
		return in.pool.False
	}
	if d == 0 {
		return c
	}
	switch c.op {
	case OpNot:
		return in.pool.Not(in.known(c.a, d-1))
	case OpAnd:
		return in.pool.And(in.known(c.a, d-1), in.known(c.b, d-1))
	case OpOr:
		return in.pool.Or(in.known(c.a, d-1), in.known(c.b, d-1))
	}
	return c
}

// nextDecision yields a recorded decision when re-executing.
func (in *Interp) nextDecision() (Dec, bool, bool) {
	if in.localPos < len(in.local) {
		d := in.local[in.localPos]
		in.localPos++
		return d, true, false
	}
	if in.prefPos < len(in.prefix) {
		d := in.prefix[in.prefPos]
		in.prefPos++
		in.record(d)
		return d, true, true
	}
	return Dec{}, false, true
}

func (in *Interp) record(d Dec) {
	in.decisions = append(in.decisions, d)
	in.local = append(in.local, d)
	in.localPos = len(in.local)
}

// pushCP records the open alternatives of the decision being taken.
func (in *Interp) pushCP(alts []alt) {
	if in.noFork {
		in.unsupported("choice while unwinding")
	}
	if in.ex != nil && in.hs != nil {
		in.hs.mu.Lock()
		in.hs.transitions++
		in.hs.mu.Unlock()
	}
	f := in.cur.clone()
	for g := in.cur.caller; g != nil && !g.shared; g = g.caller {
		g.shared = true
	}
	cp := &choicePoint{frame: f, trail: in.startMark, pcLen: len(in.pc), factLen: len(in.factLst), decLen: len(in.decisions),
		inLen: len(in.inputs), obsLen: len(in.obs), nvars: len(in.vars), steps: in.steps,
		local: append([]Dec(nil), in.local...), alts: alts, excl: in.excl, shrd: in.shrd, frameN: len(in.frameW)}
	in.cps = append(in.cps, cp)
}

func (in *Interp) leavePrefix() {
	if !in.replaying || in.prefPos < len(in.prefix) {
		return
	}
	in.replaying = false
	r, m := in.check(nil)
	switch r {
	case rUnsat:
		panic(pathEnd{"infeasible"})
	case rUnknown:
		panic(pathEnd{"unknown: prefix feasibility"})
	}
	in.setModel(m)
}

func (in *Interp) check(extra *Term) (satResult, []uint64) {
	return in.solver.check(in.pc, extra, in.vars)
}

func (in *Interp) setModel(m []uint64) {
	in.model = m
	in.pool.gen++
}

func (in *Interp) eval(t *Term) uint64 { return in.pool.Eval(t, in.model) }

// branch decides a condition, forking when both sides may be possible.
func (in *Interp) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if c.op == OpNot {
		return !in.branch(c.a)
	}
	if in.localPos < len(in.local) {
		d := in.local[in.localPos]
		in.localPos++
		return d.B
	}
	c = in.known(c, 3)
	if c.isConst() {
		// implied by the path: remembered only for the re-execution of this instruction
		in.local = append(in.local, Dec{B: c.val == 1})
		in.localPos = len(in.local)
		return c.val == 1
	}
	flip := false
	if c.op == OpNot {
		c, flip = c.a, true
	}
	if in.conc {
		in.unsupported("symbolic branch in concrete mode")
	}
	if d, ok, first := in.nextDecision(); ok {
		if first {
			in.constrain(c, d.B != flip)
		}
		return d.B
	}
	in.leavePrefix()
	v := in.eval(c) == 1
	other := c
	if v {
		other = in.pool.Not(c)
	}
	in.pushCP([]alt{{Dec{K: 0, B: v == flip}, other}})
	in.record(Dec{K: 0, B: v != flip})
	in.constrain(c, v)
	return v != flip
}

func (in *Interp) constrain(c *Term, v bool) {
	if v {
		in.addPC(c)
	} else {
		in.addPC(in.pool.Not(c))
	}
}

// choose forks n ways unconditionally.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.conc {
		in.unsupported("choice in concrete mode")
	}
	if d, ok, _ := in.nextDecision(); ok {
		return int(d.V)
	}
	in.leavePrefix()
	alts := make([]alt, 0, n-1)
	for i := 1; i < n; i++ {
		alts = append(alts, alt{Dec{K: 1, V: uint64(i)}, nil})
	}
	in.pushCP(alts)
	in.record(Dec{K: 1})
	return 0
}

// concretise forks over the possible values of t.
func (in *Interp) concretise(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		if n > 600 {
			in.unsupported("too many values to concretise")
		}
		// a single remaining value?
		if d, ok, first := in.nextDecision(); ok {
			c := in.pool.Eq(t, in.pool.Const(t.w, d.V))
			if first {
				in.constrain(c, d.B)
			}
			if d.B {
				return d.V
			}
			continue
		}
		in.leavePrefix()
		v := in.eval(t)
		c := in.pool.Eq(t, in.pool.Const(t.w, v))
		in.pushCP([]alt{{Dec{K: 2, V: v, B: false}, in.pool.Not(c)}})
		in.record(Dec{K: 2, V: v, B: true})
		in.addPC(c)
		return v
	}
}

// assume restricts the path.
func (in *Interp) assume(c *Term) {
	c = in.known(c, 3)
	if c == in.pool.True {
		return
	}
	if c == in.pool.False {
		panic(pathEnd{"infeasible"})
	}
	in.leavePrefix()
	in.addPC(c)
	if in.replaying || in.localPos < len(in.local) {
		return
	}
	if in.eval(c) == 1 {
		return
	}
	in.pc = in.pc[:len(in.pc)-1]
	r, m := in.decide(c, true)
	in.pc = append(in.pc, c)
	switch r {
	case rUnsat:
		panic(pathEnd{"infeasible"})
	case rUnknown:
		panic(pathEnd{"unknown: assume"})
	}
	in.setModel(m)
}

// newVar makes a fresh solver variable whose model value starts at init.
func (in *Interp) newVar(w uint8, init uint64) *Term {
	idx := len(in.vars)
	t := in.pool.NewVar(idx, w)
	in.vars = append(in.vars, t)
	for len(in.model) <= idx {
		in.model = append(in.model, 0)
	}
	in.model[idx] = init
	in.pool.gen++
	return t
}

// --- execution ---

func (in *Interp) get(f *Frame, o *opnd) Value {
	switch o.kind {
	case 1:
		return f.regs[o.reg]
	case 0:
		return o.k
	case 2:
		return Value{O: in.global(o.reg)}
	default:
		return Value{O: &Closure{Fn: o.fn}}
	}
}

func (in *Interp) global(i int32) *Value {
	for int(i) >= len(in.globals) {
		in.globals = append(in.globals, nil)
	}
	g := in.globals[i]
	if g == nil {
		sg := in.p.globList[i]
		g = new(Value)
		*g = zero(sg.Type().Underlying().(*types.Pointer).Elem())
		in.globals[i] = g
		if in.p.skipInit(sg.Pkg.Pkg.Path()) {
			nm := sg.Pkg.Pkg.Path() + "." + sg.Name()
			if f, ok := globalInit[nm]; ok {
				*g = f(in)
			} else if !strings.HasPrefix(sg.Name(), "init$") && !zeroGlobals[nm] {
				in.globals[i] = nil
				in.unsupported("global of uninitialised package: " + nm)
			}
		}
	}
	return g
}

func (in *Interp) pushFrame(fi *FnInfo, args []Value, env []Value, dst int32, mode uint8) {
	if fi.err != "" {
		in.unsupported(fi.err)
	}
	depth := int32(0)
	if in.cur != nil {
		depth = in.cur.depth + 1
	}
	if depth > 2000 {
		in.unsupported("call depth")
	}
	f := &Frame{fi: fi, caller: in.cur, dst: dst, mode: mode, prev: -1, depth: depth}
	f.regs = make([]Value, fi.nregs)
	copy(f.regs, args)
	copy(f.regs[fi.freeOff:], env)
	in.cur = f
	if fi.target && !in.covered[fi] {
		in.covered[fi] = true
	}
}

// callFn starts a call; natives complete at once. Returns true when a frame was pushed.
func (in *Interp) callFn(c *Closure, args []Value, dst int32, mode uint8, inst *Inst) bool {
	if c == nil {
		in.throwRuntime("invalid memory address or nil pointer dereference")
	}
	if c.Rcv != nil {
		args = append(append([]Value(nil), c.Rcv...), args...)
	}
	if c.Nat != nil {
		in.retNative(c.Nat.fn(in, args, inst), dst, mode)
		return false
	}
	fi := in.p.ready(c.Fn)
	if fi.redir != nil {
		if fi.nat != nil && fi.nat.fallback {
			if v, ok := fi.nat.try(in, args, fi); ok {
				in.retNative(v, dst, mode)
				return false
			}
		}
		fi = in.p.ready(fi.redir)
	}
	if fi.name == "(reflect.Value).Call" {
		return in.reflectCall(args, dst, mode, inst)
	}
	if fi.nat != nil {
		if fi.nat.fallback {
			if v, ok := fi.nat.try(in, args, fi); ok {
				in.retNative(v, dst, mode)
				return false
			}
		} else {
			in.retNative(fi.nat.fn(in, args, inst), dst, mode)
			return false
		}
	}
	if fi.fn.Name() == "init" && fi.fn.Signature.Recv() == nil && fi.fn.Parent() == nil && fi.fn.Synthetic != "" && in.p.skipInit(fi.pkg) {
		in.retNative(Value{}, dst, mode)
		return false
	}
	if in.cur != nil {
		in.own()
	}
	in.pushFrame(fi, args, c.Env, dst, mode)
	return true
}

// reflectCall is reflect.Value.Call.
func (in *Interp) reflectCall(args []Value, dst int32, mode uint8, inst *Inst) bool {
	r := in.rv(args[0])
	if r == nil {
		in.throw(in.plainError("reflect: call of reflect.Value.Call on zero Value"))
	}
	sig, ok := r.T.Underlying().(*types.Signature)
	c, _ := r.V.O.(*Closure)
	if !ok || sig.Variadic() {
		in.unsupported("reflect call of " + r.T.String())
	}
	if c == nil {
		in.throw(Value{O: &Iface{T: canon(types.Typ[types.String]), V: mkStr("reflect: call of nil function")}})
	}
	var given, vals []Value
	if args[1].O != nil {
		given = args[1].O.(*Slice).A
	}
	if len(given) != sig.Params().Len() {
		in.throw(Value{O: &Iface{T: canon(types.Typ[types.String]), V: mkStr("reflect: Call with wrong number of input arguments")}})
	}
	for i, g := range given {
		p := in.rv(g)
		pt := sig.Params().At(i).Type()
		if p == nil {
			in.throw(Value{O: &Iface{T: canon(types.Typ[types.String]), V: mkStr("reflect: Call using zero Value argument")}})
		}
		switch {
		case infoOf(pt).k == kIface && infoOf(p.T).k != kIface:
			if !types.AssignableTo(p.T, pt) {
				in.throw(Value{O: &Iface{T: canon(types.Typ[types.String]), V: mkStr("reflect: Call using " + p.T.String() + " as type " + pt.String())}})
			}
			vals = append(vals, Value{O: &Iface{T: p.T, V: p.V}})
		case !types.AssignableTo(p.T, pt):
			in.throw(Value{O: &Iface{T: canon(types.Typ[types.String]), V: mkStr("reflect: Call using " + p.T.String() + " as type " + pt.String())}})
		default:
			vals = append(vals, copyVal(p.V))
		}
	}
	if c.Nat != nil || c.Fn != nil && in.p.ready(c.Fn).nat != nil {
		in.unsupported("reflect call of a native function")
	}
	if !in.callFn(c, vals, dst, mode, inst) {
		in.unsupported("reflect call without a frame")
	}
	in.cur.wrap = func(in *Interp, v Value) Value {
		res := sig.Results()
		out := []Value{}
		for i := 0; i < res.Len(); i++ {
			x := v
			if res.Len() > 1 {
				x = v.O.(*Agg).F[i]
			}
			out = append(out, Value{O: &RValue{T: canon(res.At(i).Type()), V: x}})
		}
		return in.newSliceVals(out)
	}
	return true
}

func (in *Interp) retNative(v Value, dst int32, mode uint8) {
	switch mode {
	case mNormal:
		f := in.own()
		if dst >= 0 {
			f.regs[dst] = v
		}
		f.pc++
	case mRunDefer:
		// stay at RunDefers
	case mUnwindDefer:
	}
}

// own makes the current frame private.
func (in *Interp) own() *Frame {
	if in.cur.shared {
		in.cur = in.cur.clone()
	}
	return in.cur
}

// startPanic begins unwinding the current frame.
func (in *Interp) startPanic(v Value) {
	if in.panTrace == "" || true {
		in.panTrace = in.where()
	}
	f := in.own()
	f.pan = &PanicRec{val: v, trace: in.panTrace}
	in.unwind()
}

// unwind continues the panic of the current frame.
func (in *Interp) unwind() {
	in.noFork = true
	defer func() { in.noFork = false }()
	for {
		f := in.own()
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			if d.nm != "" {
				in.builtinCall(d.nm, d.in, d.args)
				continue
			}
			if in.startDefer(d, mUnwindDefer, f.pan) {
				return
			}
			continue
		}
		p := f.pan
		if p.recovered.N == 1 {
			f.pan = nil
			if f.fi.recover >= 0 {
				f.prev = f.blk
				f.blk = f.fi.recover
				f.pc = 0
				return
			}
			res := f.fi.res
			var v Value
			switch res.Len() {
			case 0:
			case 1:
				v = zero(res.At(0).Type())
			default:
				v = zero(res)
			}
			in.doReturn(v)
			return
		}
		if f.mode == mBase || f.caller == nil {
			panic(pathEnd{"panic: " + in.panicText(p.val) + " @ " + p.trace})
		}
		in.cur = f.caller
		g := in.own()
		// a deferred call that panics replaces the panic being unwound
		g.pan = p
	}
}

func (in *Interp) startDefer(d *deferRec, mode uint8, pan *PanicRec) bool {
	if d.fn == nil {
		in.throwRuntime("invalid memory address or nil pointer dereference")
	}
	cur := in.cur
	if in.callFn(d.fn, d.args, -1, mode, d.in) {
		if in.cur != cur {
			in.cur.defOf = pan
		}
		return true
	}
	return false
}

func (in *Interp) panicText(v Value) string {
	if v.O == nil {
		return "nil"
	}
	i := v.O.(*Iface)
	switch o := i.V.O.(type) {
	case *Str:
		return in.showStr(o)
	}
	if i.T == in.p.rtErr {
		return strOf(i.V.O.(*Agg).F[0]).c
	}
	if i.V.O == nil && infoOf(i.T).k == kString {
		return `""`
	}
	return i.T.String() + in.show(i.V)
}

// doReturn pops the current frame delivering v.
func (in *Interp) doReturn(v Value) {
	f := in.cur
	if f.mode == mBase || f.caller == nil {
		panic(pathEnd{"complete"})
	}
	in.cur = f.caller
	if f.wrap != nil {
		v = f.wrap(in, v)
	}
	switch f.mode {
	case mNormal:
		g := in.own()
		if f.dst >= 0 {
			g.regs[f.dst] = v
		}
		g.pc++
	case mRunDefer:
		// caller re-executes RunDefers
	case mUnwindDefer:
		in.unwind()
	}
}

// run executes until the path ends; it returns the reason.
func (in *Interp) run() (why string) {
	for {
		w, again := in.runGuard()
		if !again {
			return w
		}
	}
}

func (in *Interp) runGuard() (why string, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				why, again = x.why, false
			case targetPanic:
				// handled below in a fresh guard, unwinding may end the path
				why, again = in.guardedPanic(x.v)
			default:
				panic(r)
			}
		}
	}()
	in.loop()
	return "complete", false
}

func (in *Interp) guardedPanic(v Value) (why string, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				why, again = x.why, false
			case targetPanic:
				why, again = in.guardedPanic(x.v)
			default:
				panic(r)
			}
		}
	}()
	in.noFork = false
	in.startPanic(v)
	if in.localPos < len(in.local) {
		panic("engine: unconsumed local decisions at panic in " + in.where())
	}
	in.local = in.local[:0]
	in.localPos = 0
	return "", true
}

func (in *Interp) jump(f *Frame, b int32) {
	f.prev = f.blk
	f.blk = b
	f.pc = 0
	bi := &f.fi.blocks[b]
	if len(bi.phis) > 0 {
		e := 0
		for i, p := range bi.preds {
			if p == f.prev {
				e = i
				break
			}
		}
		if len(bi.phis) == 1 {
			f.regs[bi.phis[0].dst] = in.get(f, &bi.phis[0].edges[e])
			return
		}
		var buf [8]Value
		tmp := buf[:0]
		for i := range bi.phis {
			tmp = append(tmp, in.get(f, &bi.phis[i].edges[e]))
		}
		for i := range bi.phis {
			f.regs[bi.phis[i].dst] = tmp[i]
		}
	}
}

func (in *Interp) loop() {
	for {
		f := in.cur
		if f.shared {
			f = in.own()
		}
		ins := &f.fi.blocks[f.blk].insts[f.pc]
		in.steps++
		if in.steps > in.maxSt {
			panic(pathEnd{"budget: step limit @ " + in.where()})
		}
		if in.steps&0xfffff == 0 && !in.deadline.IsZero() && time.Now().After(in.deadline) {
			panic(pathEnd{"budget: time"})
		}
		in.startMark = len(in.trail)
		in.step(f, ins)
		// next instruction: forget local decisions
		if len(in.local) > 0 {
			if in.localPos < len(in.local) {
				panic("engine: unconsumed local decisions in " + in.where())
			}
			in.local = in.local[:0]
			in.localPos = 0
		}
	}
}

func nilDeref(in *Interp) { in.throwRuntime("invalid memory address or nil pointer dereference") }

func (in *Interp) slot(v Value) *Value {
	switch p := v.O.(type) {
	case *Value:
		return p
	case nil:
		nilDeref(in)
	case *ElemPtr:
		if len(p.a) > 0 {
			return &p.a[0]
		}
		if p.s != nil && len(p.s.c) > 0 {
			x := p.s.at(0)
			return &x
		}
		in.unsupported("pointer past end")
	}
	in.unsupported(fmt.Sprintf("pointer kind %T", v.O))
	return nil
}

type symElem struct {
	a   []Value
	idx *Term
}

func (in *Interp) step(f *Frame, ins *Inst) {
	switch ins.op {
	case iAlloc:
		f.regs[ins.dst] = Value{O: in.newSlot(zero(ins.t))}
	case iBin:
		x, y := in.get(f, &ins.x), in.get(f, &ins.y)
		f.regs[ins.dst] = in.binop(ins, x, y)
	case iLoad:
		x := in.get(f, &ins.x)
		p, ok := x.O.(*Value)
		if !ok {
			if se, ok := x.O.(*symElem); ok {
				f.regs[ins.dst] = in.loadSym(se, ins.ti)
				break
			}
			p = in.slot(x)
		}
		if in.frameOn {
			in.noteRead(p)
		}
		v := *p
		if _, ok := v.O.(*Agg); ok {
			v = copyVal(v)
		} else if ins.ti.k == kString {
			if s, ok := v.O.(*Slice); ok {
				v = strVal(bytesToStr(s.A))
			}
		}
		f.regs[ins.dst] = v
	case iNeg:
		x := in.get(f, &ins.x)
		switch ins.ti.k {
		case kInt:
			if x.O == nil {
				f.regs[ins.dst] = Value{N: (-x.N) & mask(ins.ti.w)}
			} else {
				f.regs[ins.dst] = in.fromTerm(in.pool.Bin(OpSub, in.pool.Const(ins.ti.w, 0), in.term(x, ins.ti.w)))
			}
		case kFloat:
			if x.O != nil {
				in.unsupported("symbolic float")
			}
			f.regs[ins.dst] = Value{N: math.Float64bits(-math.Float64frombits(x.N))}
		default:
			in.unsupported("neg")
		}
	case iNot:
		x := in.get(f, &ins.x)
		if x.O == nil {
			f.regs[ins.dst] = Value{N: x.N ^ 1}
		} else {
			f.regs[ins.dst] = in.fromTerm(in.pool.Not(in.term(x, 0)))
		}
	case iCompl:
		x := in.get(f, &ins.x)
		w := ins.ti.w
		if x.O == nil {
			f.regs[ins.dst] = Value{N: ^x.N & mask(w)}
		} else {
			f.regs[ins.dst] = in.fromTerm(in.pool.Bin(OpBXor, in.term(x, w), in.pool.Const(w, mask(w))))
		}
	case iCall:
		in.callInst(f, ins)
		return
	case iMove:
		f.regs[ins.dst] = in.get(f, &ins.x)
	case iConvert:
		f.regs[ins.dst] = in.convert(ins, in.get(f, &ins.x))
	case iDefer:
		d := &deferRec{in: ins, next: f.defers}
		if ins.z.kind == 1 {
			in.unsupported("defer stack")
		}
		switch ins.mode {
		case 0:
			d.fn = &Closure{Fn: ins.callee}
		case 1:
			d.fn, _ = in.get(f, &ins.x).O.(*Closure)
		case 2:
			d.fn, d.args = in.bindMethod(in.get(f, &ins.x), ins.method)
		case 3:
			d.nm = ins.name
		}
		for i := range ins.args {
			d.args = append(d.args, in.get(f, &ins.args[i]))
		}
		f.defers = d
	case iExtract:
		t := in.get(f, &ins.x)
		f.regs[ins.dst] = t.O.([]Value)[ins.n]
	case iField:
		f.regs[ins.dst] = in.get(f, &ins.x).O.(*Agg).F[ins.n]
	case iFieldAddr:
		x := in.get(f, &ins.x)
		p := in.slot(x)
		a, ok := p.O.(*Agg)
		if !ok {
			in.unsupported(fmt.Sprintf("field of %T", p.O))
		}
		f.regs[ins.dst] = Value{O: &a.F[ins.n]}
	case iIf:
		x := in.get(f, &ins.x)
		var b bool
		if x.O == nil {
			b = x.N != 0
		} else {
			b = in.branch(in.term(x, 0))
			f = in.own()
		}
		if b {
			in.jump(f, ins.b1)
		} else {
			in.jump(f, ins.b2)
		}
		return
	case iJump:
		in.jump(f, ins.b1)
		return
	case iIndex:
		x := in.get(f, &ins.x)
		var a []Value
		if ins.ti.k == kString {
			s := strOf(x)
			i := in.get(f, &ins.y)
			if i.O == nil {
				if i.N >= uint64(len(s.c)) {
					in.boundsPanic(i, ins.ti2, len(s.c))
				}
				f.regs[ins.dst] = s.at(int(i.N))
				break
			}
			a = strToBytes(s)
		} else {
			a = x.O.(*Agg).F
		}
		i := in.get(f, &ins.y)
		f.regs[ins.dst] = in.indexRead(a, i, ins.ti2, infoOf(ins.t))
	case iIndexAddr:
		x := in.get(f, &ins.x)
		var a []Value
		if ins.ti.k == kSlice {
			if x.O != nil {
				a = x.O.(*Slice).A
			}
		} else {
			p := in.slot(x)
			a = p.O.(*Agg).F
		}
		i := in.get(f, &ins.y)
		if i.O == nil {
			if i.N >= uint64(len(a)) {
				in.boundsPanic(i, ins.ti2, len(a))
			}
			f.regs[ins.dst] = Value{O: &a[i.N]}
			break
		}
		t := in.idx64(i, ins.ti2)
		if !in.branch(in.pool.Bin(OpUlt, t, in.pool.Const(64, uint64(len(a))))) {
			in.boundsPanic(i, ins.ti2, len(a))
		}
		if ins.deref && len(a) <= 300 && simpleElems(a, infoOf(ins.t)) {
			f = in.own()
			f.regs[ins.dst] = Value{O: &symElem{a, t}}
			break
		}
		n := in.concretise(t)
		f = in.own()
		f.regs[ins.dst] = Value{O: &a[n]}
	case iLookup:
		x := in.get(f, &ins.x)
		if ins.ti.k == kString {
			v := in.indexRead(strToBytes(strOf(x)), in.get(f, &ins.y), ins.ti2, typeInfo{kInt, 8, false})
			f = in.own()
			f.regs[ins.dst] = v
			break
		}
		var e *mapEntry
		k := in.get(f, &ins.y)
		if x.O != nil {
			in.noteMapRead(x.O.(*Map))
			e = in.mapFind(x.O.(*Map), k)
		} else {
			in.hashable(ins.src.(*ssa.Lookup).Index.Type(), k)
		}
		f = in.own()
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(ins.t)
		}
		if ins.commaOk {
			f.regs[ins.dst] = Value{O: []Value{v, {N: b2u(e != nil)}}}
		} else {
			f.regs[ins.dst] = v
		}
	case iMakeClosure:
		c := &Closure{Fn: ins.callee}
		for i := range ins.args {
			c.Env = append(c.Env, in.get(f, &ins.args[i]))
		}
		f.regs[ins.dst] = Value{O: c}
	case iMakeIface:
		f.regs[ins.dst] = Value{O: &Iface{T: ins.t, V: in.get(f, &ins.x)}}
	case iMakeMap:
		m := newMap(ins.t)
		if in.frameOn {
			in.freshM[m] = true
		}
		f.regs[ins.dst] = Value{O: m}
	case iMakeSlice:
		n := in.intArg(in.get(f, &ins.x), ins.ti)
		c := in.intArg(in.get(f, &ins.y), ins.ti2)
		f = in.own()
		if n < 0 || n > 1<<24 {
			in.throwRuntime("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			in.throwRuntime("makeslice: cap out of range")
		}
		a := make([]Value, c)
		switch infoOf(ins.t).k {
		case kStruct, kArray:
			for i := range a {
				a[i] = zero(ins.t)
			}
		}
		f.regs[ins.dst] = in.newSliceVals(a[:n])
	case iMapUpdate:
		m := in.get(f, &ins.x)
		if m.O == nil {
			in.throw(in.plainError("assignment to entry in nil map"))
		}
		in.mapSet(m.O.(*Map), in.get(f, &ins.y), copyVal(in.get(f, &ins.z)))
		f = in.own()
	case iNext:
		v := in.next(ins, in.get(f, &ins.x))
		f = in.own()
		f.regs[ins.dst] = v
	case iPanic:
		in.throw(in.get(f, &ins.x))
	case iRange:
		x := in.get(f, &ins.x)
		it := &iter{}
		if ins.ti.k == kString {
			it.s = strOf(x)
		} else if x.O != nil {
			it.m = x.O.(*Map)
			in.noteMapRead(it.m)
			if in.mapOrder > 0 && it.m.n > 1 && it.m.n <= in.mapOrder && in.orderScope() {
				it.perm = true
			}
		}
		f.regs[ins.dst] = Value{O: it}
	case iReturn:
		var v Value
		switch len(ins.args) {
		case 0:
		case 1:
			v = in.get(f, &ins.args[0])
		default:
			t := make([]Value, len(ins.args))
			for i := range ins.args {
				t[i] = in.get(f, &ins.args[i])
			}
			v = Value{O: t}
		}
		in.doReturn(v)
		return
	case iRunDefers:
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			in.noFork = true
			defer func() { in.noFork = false }()
			if d.nm != "" {
				in.builtinCall(d.nm, d.in, d.args)
				return
			}
			in.startDefer(d, mRunDefer, nil)
			return
		}
	case iSlice:
		v := in.sliceOp(f, ins)
		f = in.own()
		f.regs[ins.dst] = v
	case iStore:
		p := in.get(f, &ins.x)
		in.store(in.slot(p), in.get(f, &ins.y))
	case iTypeAssert:
		f.regs[ins.dst] = in.typeAssert(ins, in.get(f, &ins.x))
	case iSliceToArr:
		x := in.get(f, &ins.x)
		in.unsupported(fmt.Sprintf("slice to array pointer %T", x.O))
	case iUnsup:
		in.unsupported("instruction " + ins.name + " " + ins.src.String())
	default:
		in.unsupported(fmt.Sprintf("opcode %d", ins.op))
	}
	in.cur.pc++
}

// orderScope: only iterations in the code under test (or the sync.Map shim) are order-nondeterministic.
func (in *Interp) orderScope() bool {
	return in.cur.fi.target || in.cur.fi.shim
}

func (in *Interp) plainError(msg string) Value {
	return Value{O: &Iface{T: in.p.rtErr, V: Value{O: &Agg{[]Value{mkStr(msg)}}}}}
}

func (in *Interp) hashable(t types.Type, v Value) {
	if i, ok := v.O.(*Iface); ok {
		if !types.Comparable(i.T) {
			in.throwRuntime("hash of unhashable type " + i.T.String())
		}
	}
}

func simpleElems(a []Value, ti typeInfo) bool {
	if ti.k != kInt && ti.k != kBool {
		return false
	}
	return true
}

func (in *Interp) loadSym(se *symElem, ti typeInfo) Value {
	w := ti.w
	if ti.k == kBool {
		w = 0
	}
	// group concrete values
	groups := map[uint64]*Term{}
	var order []uint64
	cnt := map[uint64]int{}
	for _, v := range se.a {
		if v.O == nil {
			if cnt[v.N] == 0 {
				order = append(order, v.N)
			}
			cnt[v.N]++
		}
	}
	var def uint64
	best := -1
	for _, k := range order {
		if cnt[k] > best {
			best, def = cnt[k], k
		}
	}
	_ = groups
	var r *Term
	mkc := func(n uint64) *Term {
		if w == 0 {
			return in.pool.Bool(n != 0)
		}
		return in.pool.Const(w, n)
	}
	r = mkc(def)
	for i, v := range se.a {
		if v.O == nil && v.N == def {
			continue
		}
		c := in.pool.Eq(se.idx, in.pool.Const(64, uint64(i)))
		if c == in.pool.False {
			continue
		}
		var e *Term
		if v.O == nil {
			e = mkc(v.N)
		} else {
			e = in.term(v, w)
		}
		r = in.pool.Ite(c, e, r)
	}
	return in.fromTerm(r)
}

func (in *Interp) idx64(i Value, ti typeInfo) *Term {
	t := in.term(i, ti.w)
	if ti.signed {
		return in.pool.Sext(t, 64)
	}
	return in.pool.Zext(t, 64)
}

func (in *Interp) boundsPanic(i Value, ti typeInfo, n int) {
	if i.O == nil {
		if ti.signed {
			in.throwRuntime(fmt.Sprintf("index out of range [%d] with length %d", sext(i.N, ti.w), n))
		}
		in.throwRuntime(fmt.Sprintf("index out of range [%d] with length %d", i.N, n))
	}
	in.throwRuntime(fmt.Sprintf("index out of range with length %d", n))
}

func (in *Interp) indexRead(a []Value, i Value, ti typeInfo, eti typeInfo) Value {
	if i.O == nil {
		n := uint64(sext(i.N, ti.w))
		if !ti.signed {
			n = i.N
		}
		if n >= uint64(len(a)) {
			in.boundsPanic(i, ti, len(a))
		}
		return a[n]
	}
	t := in.idx64(i, ti)
	if !in.branch(in.pool.Bin(OpUlt, t, in.pool.Const(64, uint64(len(a))))) {
		in.boundsPanic(i, ti, len(a))
	}
	if len(a) <= 300 && simpleElems(a, eti) {
		return in.loadSym(&symElem{a, t}, eti)
	}
	return a[in.concretise(t)]
}

// intArg returns a concrete signed integer.
func (in *Interp) intArg(v Value, ti typeInfo) int64 {
	n := v.N
	if v.O != nil {
		n = in.concretise(in.term(v, ti.w))
	}
	if ti.signed {
		return sext(n, ti.w)
	}
	return int64(n)
}

func (in *Interp) sliceOp(f *Frame, ins *Inst) Value {
	x := in.get(f, &ins.x)
	var b [3]int64
	for i := 0; i < 3; i++ {
		if ins.n&(1<<i) != 0 {
			b[i] = in.intArg(in.get(f, &ins.args[i]), typeInfo{kInt, 64, true})
		}
	}
	if ins.ti.k == kString {
		s := strOf(x)
		lo, hi := b[0], int64(len(s.c))
		if ins.n&2 != 0 {
			hi = b[1]
		}
		if hi < 0 || hi > int64(len(s.c)) {
			in.throwRuntime(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, len(s.c)))
		}
		if lo < 0 || lo > hi {
			in.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strVal(s.sub(int(lo), int(hi)))
	}
	var a []Value
	isNil := false
	switch ins.ti.k {
	case kSlice:
		if x.O == nil {
			isNil = true
		} else {
			a = x.O.(*Slice).A
		}
	case kPtr: // *array
		a = in.slot(x).O.(*Agg).F
	default:
		in.unsupported("slice of kind")
	}
	lo, hi, mx := b[0], int64(len(a)), int64(cap(a))
	if ins.n&2 != 0 {
		hi = b[1]
	}
	if ins.n&4 != 0 {
		mx = b[2]
	}
	if mx < 0 || mx > int64(cap(a)) {
		in.throwRuntime(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, cap(a)))
	}
	if hi < 0 || hi > mx {
		in.throwRuntime(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
	}
	if lo < 0 || lo > hi {
		in.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if isNil {
		return Value{}
	}
	return Value{O: &Slice{a[lo:hi:mx]}}
}

type iter struct {
	m    *Map
	s    *Str
	pos  int
	perm bool
	done map[*mapEntry]bool
}

func (in *Interp) next(ins *Inst, x Value) Value {
	it := x.O.(*iter)
	if ins.commaOk { // string
		old := it.pos
		if it.pos >= len(it.s.c) {
			return Value{O: []Value{{N: 0}, {}, {}}}
		}
		r, n := in.decodeRune(it.s, it.pos)
		it.pos += n
		in.trailFn(func() { it.pos = old })
		return Value{O: []Value{{N: 1}, {N: uint64(old)}, r}}
	}
	tt := ins.t.(*types.Tuple)
	end := func() Value {
		return Value{O: []Value{{N: 0}, zeroSafe(tt.At(1).Type()), zeroSafe(tt.At(2).Type())}}
	}
	if it.m == nil {
		return end()
	}
	if it.perm {
		var live []*mapEntry
		for _, e := range it.m.ents {
			if !e.deleted && !it.done[e] {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			return end()
		}
		i := in.choose(len(live))
		in.bound("map iteration", "any order")
		in.inputs = append(in.inputs, inputRec{Kind: "order"})
		e := live[i]
		od := it.done
		nd := map[*mapEntry]bool{e: true}
		for k := range od {
			nd[k] = true
		}
		it.done = nd
		in.trailFn(func() { it.done = od })
		return Value{O: []Value{{N: 1}, e.k, copyVal(e.v)}}
	}
	old := it.pos
	for it.pos < len(it.m.ents) && it.m.ents[it.pos].deleted {
		it.pos++
	}
	in.trailFn(func() { it.pos = old })
	if it.pos >= len(it.m.ents) {
		return end()
	}
	e := it.m.ents[it.pos]
	it.pos++
	return Value{O: []Value{{N: 1}, e.k, copyVal(e.v)}}
}

func zeroSafe(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return zero(t)
}

// decodeRune decodes the rune at byte i, forking over the encoding form of symbolic bytes.
func (in *Interp) decodeRune(s *Str, i int) (Value, int) {
	b0 := s.at(i)
	P := in.pool
	t0 := in.term(b0, 8)
	ult := func(t *Term, v uint64) bool { return in.branch(P.Bin(OpUlt, t, P.Const(8, v))) }
	if ult(t0, 0x80) {
		return in.fromTerm(P.Zext(t0, 32)), 1
	}
	bad := Value{N: 0xFFFD}
	if ult(t0, 0xC2) || !ult(t0, 0xF5) {
		return bad, 1
	}
	need := 1
	if !ult(t0, 0xE0) {
		need = 2
		if !ult(t0, 0xF0) {
			need = 3
		}
	}
	if i+1 >= len(s.c) {
		return bad, 1
	}
	t1 := in.term(s.at(i+1), 8)
	// range of the second byte
	lo, hi := P.Const(8, 0x80), P.Const(8, 0xBF)
	if need == 2 {
		lo = P.Ite(P.Eq(t0, P.Const(8, 0xE0)), P.Const(8, 0xA0), lo)
		hi = P.Ite(P.Eq(t0, P.Const(8, 0xED)), P.Const(8, 0x9F), hi)
	} else if need == 3 {
		lo = P.Ite(P.Eq(t0, P.Const(8, 0xF0)), P.Const(8, 0x90), lo)
		hi = P.Ite(P.Eq(t0, P.Const(8, 0xF4)), P.Const(8, 0x8F), hi)
	}
	if !in.branch(P.And(P.Bin(OpUle, lo, t1), P.Bin(OpUle, t1, hi))) {
		return bad, 1
	}
	cont := []*Term{t1}
	for k := 2; k <= need; k++ {
		if i+k >= len(s.c) {
			return bad, 1
		}
		t := in.term(s.at(i+k), 8)
		if !in.branch(P.And(P.Bin(OpUle, P.Const(8, 0x80), t), P.Bin(OpUle, t, P.Const(8, 0xBF)))) {
			return bad, 1
		}
		cont = append(cont, t)
	}
	m := []uint64{0x1F, 0x0F, 0x07}[need-1]
	r := P.Bin(OpBAnd, P.Zext(t0, 32), P.Const(32, m))
	for _, t := range cont {
		r = P.Bin(OpShl, r, P.Const(32, 6))
		r = P.Bin(OpBOr, r, P.Bin(OpBAnd, P.Zext(t, 32), P.Const(32, 0x3F)))
	}
	return in.fromTerm(r), need + 1
}

func (in *Interp) typeAssert(ins *Inst, x Value) Value {
	ok := false
	var v Value
	if x.O != nil {
		i, isI := x.O.(*Iface)
		if !isI {
			in.unsupported(fmt.Sprintf("type assertion on %T", x.O))
		}
		if ins.ti.k == kIface {
			if in.p.implements(i.T, ins.t) {
				ok, v = true, x
			}
		} else if i.T == ins.t {
			ok, v = true, i.V
		}
	}
	if ins.commaOk {
		if !ok {
			v = zero(ins.t2)
		}
		return Value{O: []Value{v, {N: b2u(ok)}}}
	}
	if !ok {
		if x.O == nil {
			in.throwRuntime("interface conversion: interface is nil, not " + ins.t.String())
		}
		in.throwRuntime("interface conversion: interface is " + x.O.(*Iface).T.String() + ", not " + ins.t.String())
	}
	return v
}

type implKey struct{ t, i types.Type }

func (p *Program) implements(t, it types.Type) bool {
	k := implKey{t, it}
	if v, ok := p.impl.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	p.impl.Store(k, r)
	return r
}

type methodKey struct {
	t types.Type
	m *types.Func
}

func (p *Program) method(t types.Type, m *types.Func) *FnInfo {
	k := methodKey{t, m}
	if v, ok := p.methods.Load(k); ok {
		return v.(*FnInfo)
	}
	fn := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		return nil
	}
	fi := p.info(fn)
	p.methods.Store(k, fi)
	return fi
}

// bindMethod resolves an interface method call.
func (in *Interp) bindMethod(recv Value, m *types.Func) (*Closure, []Value) {
	if recv.O == nil {
		nilDeref(in)
	}
	i, ok := recv.O.(*Iface)
	if !ok {
		in.unsupported(fmt.Sprintf("invoke on %T", recv.O))
	}
	if i.T == rtypeT {
		return &Closure{Nat: reflectTypeMethod(m.Name())}, []Value{i.V}
	}
	fi := in.p.method(i.T, m)
	if fi == nil {
		in.unsupported("method " + m.Name() + " of " + i.T.String())
	}
	return &Closure{Fn: fi}, []Value{i.V}
}

func (in *Interp) callInst(f *Frame, ins *Inst) {
	var c *Closure
	var args []Value
	switch ins.mode {
	case 0:
		args = make([]Value, len(ins.args))
		for i := range ins.args {
			args[i] = in.get(f, &ins.args[i])
		}
		c = &Closure{Fn: ins.callee}
	case 1:
		fv := in.get(f, &ins.x)
		c, _ = fv.O.(*Closure)
		args = make([]Value, len(ins.args))
		for i := range ins.args {
			args[i] = in.get(f, &ins.args[i])
		}
	case 2:
		c, args = in.bindMethod(in.get(f, &ins.x), ins.method)
		for i := range ins.args {
			args = append(args, in.get(f, &ins.args[i]))
		}
	case 3:
		args = make([]Value, len(ins.args))
		for i := range ins.args {
			args[i] = in.get(f, &ins.args[i])
		}
		v := in.builtinCall(ins.name, ins, args)
		g := in.own()
		if ins.dst >= 0 {
			g.regs[ins.dst] = v
		}
		g.pc++
		return
	}
	in.callFn(c, args, ins.dst, mNormal, ins)
}

func (in *Interp) builtinCall(name string, ins *Inst, args []Value) Value {
	switch name {
	case "len":
		switch ins.ti.k {
		case kString:
			return Value{N: uint64(len(strOf(args[0]).c))}
		case kSlice:
			if args[0].O == nil {
				return Value{}
			}
			return Value{N: uint64(len(args[0].O.(*Slice).A))}
		case kMap:
			if args[0].O == nil {
				return Value{}
			}
			in.noteMapRead(args[0].O.(*Map))
			return Value{N: uint64(args[0].O.(*Map).n)}
		case kArray:
			return Value{N: uint64(len(args[0].O.(*Agg).F))}
		case kPtr:
			return Value{N: uint64(ins.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
		case kChan:
			return Value{}
		}
	case "cap":
		switch ins.ti.k {
		case kSlice:
			if args[0].O == nil {
				return Value{}
			}
			return Value{N: uint64(cap(args[0].O.(*Slice).A))}
		case kArray:
			return Value{N: uint64(len(args[0].O.(*Agg).F))}
		}
	case "append":
		var a []Value
		if args[0].O != nil {
			a = args[0].O.(*Slice).A
		}
		var b []Value
		if args[1].O != nil {
			switch o := args[1].O.(type) {
			case *Slice:
				b = o.A
			case *Str:
				b = strToBytes(o)
			}
		}
		if args[0].O == nil && len(b) == 0 {
			return Value{}
		}
		return in.appendVals(a, b)
	case "copy":
		var src []Value
		if args[1].O != nil {
			switch o := args[1].O.(type) {
			case *Slice:
				src = o.A
			case *Str:
				src = strToBytes(o)
			}
		}
		if args[0].O == nil {
			return Value{}
		}
		dst := args[0].O.(*Slice).A
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			in.store(&dst[i], tmp[i])
		}
		return Value{N: uint64(n)}
	case "delete":
		if args[0].O != nil {
			in.mapDelete(args[0].O.(*Map), args[1])
		}
		return Value{}
	case "clear":
		switch o := args[0].O.(type) {
		case *Map:
			for _, e := range append([]*mapEntry(nil), o.ents...) {
				if !e.deleted {
					in.mapDelete(o, e.k)
				}
			}
		case *Slice:
			et := ins.t.Underlying().(*types.Slice).Elem()
			for i := range o.A {
				in.store(&o.A[i], zero(et))
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		f := in.cur
		if f.defOf != nil && f.defOf.recovered.N == 0 {
			in.set(&f.defOf.recovered, Value{N: 1})
			return f.defOf.val
		}
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].O == nil {
			nilDeref(in)
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var lt *Term
			switch ins.ti.k {
			case kInt:
				op := OpUlt
				if ins.ti.signed {
					op = OpSlt
				}
				lt = in.pool.Bin(op, in.term(a, ins.ti.w), in.term(r, ins.ti.w))
			case kFloat:
				lt = in.pool.Bool(math.Float64frombits(a.N) < math.Float64frombits(r.N))
			case kString:
				lt = in.ltStr(strOf(a), strOf(r))
			}
			if in.branch(lt) == (name == "min") {
				r = a
			}
		}
		return r
	case "String": // unsafe.String(ptr, len)
		n := in.intArg(args[1], typeInfo{kInt, 64, true})
		if n == 0 {
			return Value{}
		}
		switch p := args[0].O.(type) {
		case *ElemPtr:
			if p.s != nil {
				return strVal(p.s.sub(0, int(n)))
			}
			return strVal(bytesToStr(p.a[:n]))
		}
		in.unsupported("unsafe.String")
	case "StringData":
		return Value{O: &ElemPtr{s: strOf(args[0])}}
	case "SliceData":
		if args[0].O == nil {
			return Value{}
		}
		a := args[0].O.(*Slice).A
		return Value{O: &ElemPtr{a: a[:cap(a)]}}
	case "Slice": // unsafe.Slice(ptr, len)
		n := in.intArg(args[1], typeInfo{kInt, 64, true})
		switch p := args[0].O.(type) {
		case *ElemPtr:
			if p.s != nil {
				return Value{O: &Slice{strToBytes(p.s)[:n]}}
			}
			return Value{O: &Slice{p.a[:n]}}
		case nil:
			return Value{}
		}
		in.unsupported("unsafe.Slice")
	}
	in.unsupported("builtin " + name)
	return Value{}
}

// appendVals implements append with Go's aliasing: in place when capacity allows.
func (in *Interp) appendVals(a, b []Value) Value {
	n := len(a) + len(b)
	if n <= cap(a) {
		r := a[:n]
		for i, v := range b {
			p := &r[len(a)+i]
			// the slot may hold an aggregate of a previous life; replace it whole
			in.set(p, copyVal(v))
		}
		return Value{O: &Slice{r}}
	}
	c := growCap(cap(a), n)
	r := make([]Value, n, c)
	for i, v := range a {
		r[i] = copyVal(v)
	}
	for i, v := range b {
		r[len(a)+i] = copyVal(v)
	}
	return in.newSliceVals(r)
}

// growCap mirrors the runtime's growth for 8/16-byte elements closely enough: doubling to size classes.
func growCap(old, need int) int {
	c := old * 2
	if need > c {
		c = need
	}
	if c < 4 && c > 2 {
		c = 4
	}
	return c
}

func (in *Interp) convert(ins *Inst, x Value) Value {
	to, from := ins.ti, ins.ti2
	switch {
	case to.k == kInt && from.k == kInt:
		if x.O == nil {
			if from.signed {
				return Value{N: uint64(sext(x.N, from.w)) & mask(to.w)}
			}
			return Value{N: x.N & mask(to.w)}
		}
		t := in.term(x, from.w)
		if to.w <= from.w {
			return in.fromTerm(in.pool.Trunc(t, to.w))
		}
		if from.signed {
			return in.fromTerm(in.pool.Sext(t, to.w))
		}
		return in.fromTerm(in.pool.Zext(t, to.w))
	case to.k == kFloat && from.k == kInt:
		n := x.N
		if x.O != nil {
			n = in.concretise(in.term(x, from.w))
		}
		var f float64
		if from.signed {
			f = float64(sext(n, from.w))
		} else {
			f = float64(n)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return Value{N: math.Float64bits(f)}
	case to.k == kInt && from.k == kFloat:
		f := math.Float64frombits(x.N)
		if to.signed {
			return Value{N: uint64(int64(f)) & mask(to.w)}
		}
		return Value{N: uint64(f) & mask(to.w)}
	case to.k == kFloat && from.k == kFloat:
		if to.w == 32 {
			return Value{N: math.Float64bits(float64(float32(math.Float64frombits(x.N))))}
		}
		return x
	case to.k == kString && from.k == kInt:
		if x.O != nil {
			t := in.term(x, from.w)
			return in.runeStr(in.pool.Zext(t, 64))
		}
		v := sext(x.N, from.w)
		if v > 0x10FFFF || v < 0 {
			v = 0xFFFD
		}
		return mkStr(string(rune(v)))
	case to.k == kString && from.k == kSlice:
		if x.O == nil {
			return Value{}
		}
		a := x.O.(*Slice).A
		if infoOf(ins.t2.Underlying().(*types.Slice).Elem()).w == 8 {
			return strVal(bytesToStr(a))
		}
		r := emptyStr
		for _, v := range a {
			r = concatStr(r, strOf(in.convert(&Inst{ti: typeInfo{k: kString}, ti2: typeInfo{kInt, 32, true}}, v)))
		}
		return strVal(r)
	case to.k == kSlice && from.k == kString:
		s := strOf(x)
		if infoOf(ins.t.Underlying().(*types.Slice).Elem()).w == 8 {
			return in.newSliceVals(strToBytes(s))
		}
		var a []Value
		for i := 0; i < len(s.c); {
			r, n := in.decodeRune(s, i)
			a = append(a, r)
			i += n
		}
		if a == nil {
			a = []Value{}
		}
		return in.newSliceVals(a)
	case to.k == kPtr && from.k == kPtr:
		return x
	case to.k == kInt && from.k == kPtr:
		if x.O == nil {
			return Value{N: x.N}
		}
		return Value{N: 1}
	case to.k == kPtr && from.k == kInt:
		return Value{N: x.N}
	case to.k == from.k:
		return x
	}
	in.unsupported(fmt.Sprintf("conversion %s -> %s", ins.t2, ins.t))
	return Value{}
}

// runeStr is string(r) for a symbolic rune.
func (in *Interp) runeStr(t *Term) Value {
	P := in.pool
	k := func(v uint64) *Term { return P.Const(64, v) }
	ult := func(v uint64) bool { return in.branch(P.Bin(OpUlt, t, k(v))) }
	bits := func(shift, n, or uint64) *Term {
		return P.Trunc(P.Bin(OpBOr, P.Bin(OpBAnd, P.Bin(OpLshr, t, k(shift)), k(1<<n-1)), k(or)), 8)
	}
	var b []*Term
	switch {
	case ult(0x80):
		b = []*Term{P.Trunc(t, 8)}
	case ult(0x800):
		b = []*Term{bits(6, 5, 0xC0), bits(0, 6, 0x80)}
	case in.branch(P.Or(P.Not(P.Bin(OpUle, t, k(0x10FFFF))), P.And(P.Bin(OpUle, k(0xD800), t), P.Bin(OpUle, t, k(0xDFFF))))):
		return mkStr("\uFFFD")
	case ult(0x10000):
		b = []*Term{bits(12, 4, 0xE0), bits(6, 6, 0x80), bits(0, 6, 0x80)}
	default:
		b = []*Term{bits(18, 3, 0xF0), bits(12, 6, 0x80), bits(6, 6, 0x80), bits(0, 6, 0x80)}
	}
	a := make([]Value, len(b))
	for i, x := range b {
		a[i] = in.fromTerm(x)
	}
	return strVal(bytesToStr(a))
}

func (in *Interp) binop(ins *Inst, x, y Value) Value {
	ti := ins.ti
	switch ins.tok {
	case token.EQL, token.NEQ:
		var c *Term
		if ti.k == kInt && x.O == nil && y.O == nil {
			return Value{N: b2u((x.N == y.N) == (ins.tok == token.EQL))}
		}
		c = in.equal(ins.t, x, y)
		if ins.tok == token.NEQ {
			c = in.pool.Not(c)
		}
		return in.fromTerm(c)
	}
	switch ti.k {
	case kInt:
		return in.intOp(ins, x, y)
	case kString:
		a, b := strOf(x), strOf(y)
		switch ins.tok {
		case token.ADD:
			return strVal(concatStr(a, b))
		case token.LSS:
			return in.fromTerm(in.ltStr(a, b))
		case token.GTR:
			return in.fromTerm(in.ltStr(b, a))
		case token.LEQ:
			return in.fromTerm(in.pool.Not(in.ltStr(b, a)))
		case token.GEQ:
			return in.fromTerm(in.pool.Not(in.ltStr(a, b)))
		}
	case kFloat:
		if x.O != nil || y.O != nil {
			in.unsupported("symbolic float arithmetic")
		}
		a, b := math.Float64frombits(x.N), math.Float64frombits(y.N)
		var r float64
		switch ins.tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return Value{N: b2u(a < b)}
		case token.LEQ:
			return Value{N: b2u(a <= b)}
		case token.GTR:
			return Value{N: b2u(a > b)}
		case token.GEQ:
			return Value{N: b2u(a >= b)}
		}
		if ti.w == 32 {
			r = float64(float32(r))
		}
		return Value{N: math.Float64bits(r)}
	case kBool:
		a, b := in.term(x, 0), in.term(y, 0)
		switch ins.tok {
		case token.AND, token.LAND:
			return in.fromTerm(in.pool.And(a, b))
		case token.OR, token.LOR:
			return in.fromTerm(in.pool.Or(a, b))
		}
	}
	in.unsupported(fmt.Sprintf("binop %s on %s", ins.tok, ins.t))
	return Value{}
}

func (in *Interp) intOp(ins *Inst, x, y Value) Value {
	w, sg := ins.ti.w, ins.ti.signed
	var op Op
	swap, neg := false, false
	switch ins.tok {
	case token.ADD:
		op = OpAdd
	case token.SUB:
		op = OpSub
	case token.MUL:
		op = OpMul
	case token.QUO, token.REM:
		if y.O == nil {
			if y.N == 0 {
				in.throwRuntime("integer divide by zero")
			}
		} else if in.branch(in.pool.Eq(in.term(y, w), in.pool.Const(w, 0))) {
			in.throwRuntime("integer divide by zero")
		}
		switch {
		case ins.tok == token.QUO && sg:
			op = OpSDiv
		case ins.tok == token.QUO:
			op = OpUDiv
		case sg:
			op = OpSRem
		default:
			op = OpURem
		}
	case token.AND:
		op = OpBAnd
	case token.OR:
		op = OpBOr
	case token.XOR:
		op = OpBXor
	case token.AND_NOT:
		op = OpBAnd
		if y.O == nil {
			y = Value{N: ^y.N & mask(w)}
		} else {
			y = in.fromTerm(in.pool.Bin(OpBXor, in.term(y, w), in.pool.Const(w, mask(w))))
		}
	case token.SHL, token.SHR:
		op = OpShl
		if ins.tok == token.SHR {
			op = OpLshr
			if sg {
				op = OpAshr
			}
		}
		yw := ins.ti2.w
		if y.O == nil {
			n := y.N
			if ins.ti2.signed && sext(n, yw) < 0 {
				in.throwRuntime("negative shift amount")
			}
			if n > 64 {
				n = 64
			}
			if x.O == nil {
				v, _ := foldBin(op, w, x.N, n)
				return Value{N: v}
			}
			if n >= uint64(w) {
				if op == OpAshr {
					n = uint64(w) - 1
				} else {
					return Value{}
				}
			}
			return in.fromTerm(in.pool.Bin(op, in.term(x, w), in.pool.Const(w, n)))
		}
		n := in.concretise(in.term(y, yw))
		if ins.ti2.signed && sext(n, yw) < 0 {
			in.throwRuntime("negative shift amount")
		}
		if n > 64 {
			n = 64
		}
		if n >= uint64(w) {
			if op == OpAshr {
				n = uint64(w) - 1
			} else {
				return Value{}
			}
		}
		return in.fromTerm(in.pool.Bin(op, in.term(x, w), in.pool.Const(w, n)))
	case token.LSS, token.GTR:
		op = OpUlt
		if sg {
			op = OpSlt
		}
		swap = ins.tok == token.GTR
	case token.LEQ, token.GEQ:
		op = OpUle
		if sg {
			op = OpSle
		}
		swap = ins.tok == token.GEQ
	default:
		in.unsupported("int op " + ins.tok.String())
	}
	_ = neg
	if swap {
		x, y = y, x
	}
	if x.O == nil && y.O == nil {
		v, _ := foldBin(op, w, x.N, y.N)
		return Value{N: v}
	}
	return in.fromTerm(in.pool.Bin(op, in.term(x, w), in.term(y, w)))
}
