package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iBin
	iLoad
	iNeg
	iNot
	iCompl
	iCall
	iInvoke
	iBuiltin
	iMove // ChangeType, ChangeInterface
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iStore
	iTypeAssert
	iSliceToArr
	iUnsup
)

type opnd struct {
	kind uint8 // 0 const, 1 reg, 2 global, 3 function
	reg  int32
	k    Value
	fn   *FnInfo
}

// Inst is a pre-resolved SSA instruction.
type Inst struct {
	op      opcode
	dst     int32
	x, y, z opnd
	args    []opnd
	tok     token.Token
	ti, ti2 typeInfo
	t, t2   types.Type
	n       int
	b1, b2  int32
	commaOk bool
	name    string
	method  *types.Func
	callee  *FnInfo
	mode    uint8 // call modes: 0 static, 1 dynamic func value, 2 invoke, 3 builtin
	deref   bool  // IndexAddr whose result is only loaded
	src     ssa.Instruction
}

type phi struct {
	dst   int32
	edges []opnd
}

type blockInfo struct {
	phis  []phi
	insts []Inst
	preds []int32
}

// FnInfo is a compiled function, shared by all workers.
type FnInfo struct {
	fn      *ssa.Function
	name    string
	pkg     string
	nregs   int
	nparams int
	blocks  []blockInfo
	recover int32
	nat     *Native
	redir   *FnInfo
	once    sync.Once
	err     string
	target  bool // belongs to the code under test
	results int
	freeOff int32
	shim    bool
	res     *types.Tuple
}

// Program holds everything the workers share.
type Program struct {
	prog     *ssa.Program
	mu       sync.Mutex
	fns      map[*ssa.Function]*FnInfo
	globals  map[*ssa.Global]int32
	globList []*ssa.Global
	skipInit func(pkgPath string) bool
	shims    map[string]*ssa.Function
	isTarget func(pkgPath string) bool
	methods  sync.Map // methodKey -> *FnInfo
	impl     sync.Map
	rtErr    types.Type
	shimPkg  *ssa.Package
}

func (p *Program) info(fn *ssa.Function) *FnInfo {
	p.mu.Lock()
	fi, ok := p.fns[fn]
	if !ok {
		fi = &FnInfo{fn: fn, name: fnName(fn)}
		if pk := fnPkg(fn); pk != nil {
			fi.pkg = pk.Path()
		}
		fi.target = p.isTarget(fi.pkg)
		fi.shim = fi.pkg == "fvh/shim"
		fi.res = fn.Signature.Results()
		p.fns[fn] = fi
	}
	p.mu.Unlock()
	fi.once.Do(func() { p.resolve(fi) })
	return fi
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	if ob := fn.Object(); ob != nil {
		return ob.Pkg()
	}
	return nil
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Program) resolve(fi *FnInfo) {
	if n, ok := natives[fi.name]; ok {
		fi.nat = n
		if !n.fallback {
			return
		}
	}
	if s, ok := p.shims[fi.name]; ok {
		fi.redir = p.info(s)
		return
	}
	if fi.nat == nil {
		if n := nativeByPkg(fi); n != nil {
			fi.nat = n
			return
		}
	}
	p.compile(fi)
}

type compiler struct {
	p    *Program
	fi   *FnInfo
	regs map[ssa.Value]int32
}

func (p *Program) globalIdx(g *ssa.Global) int32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok := p.globals[g]
	if !ok {
		i = int32(len(p.globList))
		p.globals[g] = i
		p.globList = append(p.globList, g)
	}
	return i
}

func (p *Program) compile(fi *FnInfo) {
	fn := fi.fn
	if len(fn.Blocks) == 0 {
		fi.err = "no body: " + fi.name
		return
	}
	c := &compiler{p: p, fi: fi, regs: map[ssa.Value]int32{}}
	n := int32(0)
	add := func(v ssa.Value) { c.regs[v] = n; n++ }
	for _, x := range fn.Params {
		add(x)
	}
	fi.nparams = len(fn.Params)
	fi.freeOff = n
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = int(n)
	fi.recover = -1
	if fn.Recover != nil {
		fi.recover = int32(fn.Recover.Index)
	}
	fi.blocks = make([]blockInfo, len(fn.Blocks))
	for i, b := range fn.Blocks {
		bi := &fi.blocks[i]
		for _, pr := range b.Preds {
			bi.preds = append(bi.preds, int32(pr.Index))
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				ph := phi{dst: c.regs[x]}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, c.op(e))
				}
				bi.phis = append(bi.phis, ph)
			case *ssa.DebugRef:
			default:
				bi.insts = append(bi.insts, c.inst(ins))
			}
		}
	}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: 0, k: constVal(x)}
	case *ssa.Global:
		return opnd{kind: 2, reg: c.p.globalIdx(x)}
	case *ssa.Function:
		return opnd{kind: 3, fn: c.p.lazy(x)}
	case *ssa.Builtin:
		return opnd{}
	case nil:
		return opnd{kind: 0}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %s", v, c.fi.name))
	}
	return opnd{kind: 1, reg: r}
}

// lazy returns the FnInfo without compiling it (avoids recursion).
func (p *Program) lazy(fn *ssa.Function) *FnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	fi, ok := p.fns[fn]
	if !ok {
		fi = &FnInfo{fn: fn, name: fnName(fn)}
		if pk := fnPkg(fn); pk != nil {
			fi.pkg = pk.Path()
		}
		fi.target = p.isTarget(fi.pkg)
		fi.shim = fi.pkg == "fvh/shim"
		fi.res = fn.Signature.Results()
		p.fns[fn] = fi
	}
	return fi
}

func (p *Program) ready(fi *FnInfo) *FnInfo {
	fi.once.Do(func() { p.resolve(fi) })
	return fi
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	ti := infoOf(c.Type())
	switch ti.k {
	case kBool:
		return Value{N: b2u(constant.BoolVal(c.Value))}
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return Value{N: math.Float64bits(f)}
	case kString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case kPtr:
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return Value{N: u}
	case kComplex:
		return Value{}
	}
	panic(fmt.Sprintf("const %v of type %v", c, c.Type()))
}

func (c *compiler) inst(ins ssa.Instruction) Inst {
	r := Inst{dst: -1, src: ins}
	if v, ok := ins.(ssa.Value); ok {
		r.dst = c.regs[v]
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		r.op = iAlloc
		r.t = x.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.BinOp:
		r.op = iBin
		r.x, r.y, r.tok = c.op(x.X), c.op(x.Y), x.Op
		r.t = x.X.Type()
		r.ti = infoOf(x.X.Type())
		r.ti2 = infoOf(x.Y.Type())
		if r.ti.k == kIface && r.ti2.k != kIface || r.ti.k != kIface && r.ti2.k == kIface {
			r.op = iUnsup
		}
	case *ssa.UnOp:
		r.x = c.op(x.X)
		r.ti = infoOf(x.X.Type())
		switch x.Op {
		case token.MUL:
			r.op = iLoad
			r.t = x.Type()
			r.ti = infoOf(x.Type())
		case token.SUB:
			r.op = iNeg
		case token.NOT:
			r.op = iNot
		case token.XOR:
			r.op = iCompl
		default:
			r.op = iUnsup
			r.name = "channel receive"
		}
	case *ssa.Call:
		r.op = iCall
		c.call(&r, &x.Call)
	case *ssa.Defer:
		r.op = iDefer
		c.call(&r, &x.Call)
		if x.DeferStack != nil {
			r.z = c.op(x.DeferStack)
		}
	case *ssa.ChangeInterface:
		r.op, r.x = iMove, c.op(x.X)
	case *ssa.ChangeType:
		r.op, r.x = iMove, c.op(x.X)
	case *ssa.Convert:
		r.op, r.x = iConvert, c.op(x.X)
		r.t, r.t2 = x.Type(), x.X.Type()
		r.ti, r.ti2 = infoOf(x.Type()), infoOf(x.X.Type())
	case *ssa.MultiConvert:
		r.op, r.x = iConvert, c.op(x.X)
		r.t, r.t2 = x.Type(), x.X.Type()
		r.ti, r.ti2 = infoOf(x.Type()), infoOf(x.X.Type())
	case *ssa.Extract:
		r.op, r.x, r.n = iExtract, c.op(x.Tuple), x.Index
	case *ssa.Field:
		r.op, r.x, r.n = iField, c.op(x.X), x.Field
	case *ssa.FieldAddr:
		r.op, r.x, r.n = iFieldAddr, c.op(x.X), x.Field
	case *ssa.If:
		r.op, r.x = iIf, c.op(x.Cond)
		r.b1, r.b2 = int32(x.Block().Succs[0].Index), int32(x.Block().Succs[1].Index)
	case *ssa.Jump:
		r.op = iJump
		r.b1 = int32(x.Block().Succs[0].Index)
	case *ssa.Index:
		r.op, r.x, r.y = iIndex, c.op(x.X), c.op(x.Index)
		r.ti = infoOf(x.X.Type())
		r.ti2 = infoOf(x.Index.Type())
		r.t = x.Type()
	case *ssa.IndexAddr:
		r.op, r.x, r.y = iIndexAddr, c.op(x.X), c.op(x.Index)
		r.ti = infoOf(x.X.Type())
		r.ti2 = infoOf(x.Index.Type())
		r.t = x.Type().Underlying().(*types.Pointer).Elem()
		r.deref = true
		for _, ref := range *x.Referrers() {
			if u, ok := ref.(*ssa.UnOp); !ok || u.Op != token.MUL {
				if _, ok := ref.(*ssa.DebugRef); !ok {
					r.deref = false
				}
			}
		}
	case *ssa.Lookup:
		r.op, r.x, r.y = iLookup, c.op(x.X), c.op(x.Index)
		r.commaOk = x.CommaOk
		r.ti = infoOf(x.X.Type())
		r.ti2 = infoOf(x.Index.Type())
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			r.t = m.Elem()
		}
	case *ssa.MakeClosure:
		r.op = iMakeClosure
		r.callee = c.p.lazy(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			r.args = append(r.args, c.op(b))
		}
	case *ssa.MakeInterface:
		r.op, r.x = iMakeIface, c.op(x.X)
		r.t = canon(x.X.Type())
	case *ssa.MakeMap:
		r.op = iMakeMap
		r.t = x.Type().Underlying().(*types.Map).Key()
	case *ssa.MakeSlice:
		r.op, r.x, r.y = iMakeSlice, c.op(x.Len), c.op(x.Cap)
		r.t = x.Type().Underlying().(*types.Slice).Elem()
		r.ti, r.ti2 = infoOf(x.Len.Type()), infoOf(x.Cap.Type())
	case *ssa.MapUpdate:
		r.op, r.x, r.y, r.z = iMapUpdate, c.op(x.Map), c.op(x.Key), c.op(x.Value)
	case *ssa.Next:
		r.op, r.x = iNext, c.op(x.Iter)
		r.commaOk = x.IsString
		r.t = x.Type()
	case *ssa.Panic:
		r.op, r.x = iPanic, c.op(x.X)
	case *ssa.Range:
		r.op, r.x = iRange, c.op(x.X)
		r.ti = infoOf(x.X.Type())
	case *ssa.Return:
		r.op = iReturn
		for _, v := range x.Results {
			r.args = append(r.args, c.op(v))
		}
	case *ssa.RunDefers:
		r.op = iRunDefers
	case *ssa.Slice:
		r.op = iSlice
		r.x = c.op(x.X)
		r.ti = infoOf(x.X.Type())
		r.args = make([]opnd, 3)
		for i, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				r.args[i] = c.op(v)
				r.n |= 1 << i
			}
		}
	case *ssa.Store:
		r.op, r.x, r.y = iStore, c.op(x.Addr), c.op(x.Val)
	case *ssa.TypeAssert:
		r.op, r.x = iTypeAssert, c.op(x.X)
		r.t = canon(x.AssertedType)
		r.t2 = x.AssertedType
		r.ti = infoOf(x.AssertedType)
		r.commaOk = x.CommaOk
	case *ssa.SliceToArrayPointer:
		r.op, r.x = iSliceToArr, c.op(x.X)
		r.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	default:
		r.op = iUnsup
		r.name = fmt.Sprintf("%T", ins)
	}
	return r
}

func (c *compiler) call(r *Inst, cc *ssa.CallCommon) {
	if cc.IsInvoke() {
		r.mode = 2
		r.x = c.op(cc.Value)
		r.method = cc.Method
	} else {
		switch f := cc.Value.(type) {
		case *ssa.Function:
			r.mode = 0
			r.callee = c.p.lazy(f)
		case *ssa.Builtin:
			r.mode = 3
			r.name = f.Name()
			if len(cc.Args) > 0 {
				r.t = cc.Args[0].Type()
				r.ti = infoOf(r.t)
				if len(cc.Args) > 1 {
					r.t2 = cc.Args[1].Type()
					r.ti2 = infoOf(r.t2)
				}
			}
		default:
			r.mode = 1
			r.x = c.op(cc.Value)
		}
	}
	for _, a := range cc.Args {
		r.args = append(r.args, c.op(a))
	}
}
