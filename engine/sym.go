package main

import (
	"fmt"
	"go/types"
)

// concStr returns a concrete string argument.
func (in *Interp) concStr(v Value) string {
	s := strOf(v)
	if s.t != nil {
		in.unsupported("symbolic label")
	}
	return s.c
}

func (in *Interp) i64(v Value) int64 { return in.intArg(v, typeInfo{kInt, 64, true}) }

// bound records the domain of an input for the evidence.
func (in *Interp) bound(name, format string, args ...any) {
	hs := in.hs
	hs.mu.Lock()
	defer hs.mu.Unlock()
	d := fmt.Sprintf(format, args...)
	for _, x := range hs.bounds[name] {
		if x == d {
			return
		}
	}
	hs.bounds[name] = append(hs.bounds[name], d)
}

func (in *Interp) symStr(name string, alpha string, lo, hi int) Value {
	if alpha == "" {
		in.bound(name, "string of %d..%d bytes, any byte", lo, hi)
	} else {
		in.bound(name, "string of %d..%d bytes of %q", lo, hi, alpha)
	}
	n := lo + in.choose(hi-lo+1)
	s := &Str{}
	b := make([]byte, n)
	s.c = string(b)
	if n > 0 {
		s.t = make([]*Term, n)
	}
	for i := 0; i < n; i++ {
		s.t[i] = in.symByte(alpha)
	}
	in.inputs = append(in.inputs, inputRec{Name: name, Kind: "str", S: s})
	return strVal(s)
}

func (in *Interp) symByte(alpha string) *Term {
	init := uint64('a')
	if alpha != "" {
		init = uint64(alpha[0])
	}
	t := in.newVar(8, init)
	if alpha != "" {
		var c *Term = in.pool.False
		for k := 0; k < len(alpha); {
			// ranges of consecutive letters
			j := k
			for j+1 < len(alpha) && alpha[j+1] == alpha[j]+1 {
				j++
			}
			if j-k >= 2 {
				c = in.pool.Or(c, in.pool.And(in.pool.Bin(OpUle, in.pool.Const(8, uint64(alpha[k])), t), in.pool.Bin(OpUle, t, in.pool.Const(8, uint64(alpha[j])))))
			} else {
				for i := k; i <= j; i++ {
					c = in.pool.Or(c, in.pool.Eq(t, in.pool.Const(8, uint64(alpha[i]))))
				}
			}
			k = j + 1
		}
		in.addPC(c)
	}
	return t
}

// makeObs renders a value for the observation log.
func (in *Interp) makeObs(t types.Type, v Value) obsVal {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := infoOf(t)
		switch ti.k {
		case kString:
			return obsVal{kind: "s", s: strOf(v)}
		case kBool:
			return obsVal{kind: "b", v: v}
		case kInt:
			if ti.signed {
				return obsVal{kind: fmt.Sprintf("i%d", ti.w), v: v}
			}
			return obsVal{kind: fmt.Sprintf("u%d", ti.w), v: v}
		}
	case *types.Slice:
		o := obsVal{kind: "l"}
		if v.O != nil {
			for _, x := range v.O.(*Slice).A {
				o.list = append(o.list, in.makeObs(u.Elem(), x))
			}
		}
		return o
	case *types.Interface:
		if v.O == nil {
			return obsVal{kind: "n"}
		}
		i := v.O.(*Iface)
		return in.makeObs(i.T, i.V)
	case *types.Pointer, *types.Struct:
		return obsVal{kind: "o"}
	}
	return obsVal{kind: "o"}
}

func (in *Interp) renderObs(o obsVal) string {
	val := func(w uint8) uint64 {
		if t, ok := o.v.O.(*Term); ok {
			return in.pool.Eval(t, in.model)
		}
		return o.v.N
	}
	switch {
	case o.kind == "s":
		return in.showStr(o.s)
	case o.kind == "b":
		if val(0) != 0 {
			return "true"
		}
		return "false"
	case o.kind[0] == 'i':
		var w int
		fmt.Sscanf(o.kind[1:], "%d", &w)
		return fmt.Sprintf("%d", sext(val(uint8(w)), uint8(w)))
	case o.kind[0] == 'u':
		return fmt.Sprintf("%d", val(64))
	case o.kind == "l":
		r := "["
		for i, x := range o.list {
			if i > 0 {
				r += " "
			}
			r += in.renderObs(x)
		}
		return r + "]"
	case o.kind == "n":
		return "nil"
	}
	return "obj"
}

func initSym() {
	P := "fvh/sym."
	nat(P+"Str", func(in *Interp, a []Value, ins *Inst) Value {
		return in.symStr(in.concStr(a[0]), "", int(in.i64(a[1])), int(in.i64(a[2])))
	})
	nat(P+"StrIn", func(in *Interp, a []Value, ins *Inst) Value {
		return in.symStr(in.concStr(a[0]), in.concStr(a[1]), int(in.i64(a[2])), int(in.i64(a[3])))
	})
	nat(P+"Bool", func(in *Interp, a []Value, ins *Inst) Value {
		in.bound(in.concStr(a[0]), "bool")
		t := in.newVar(0, 0)
		v := Value{O: t}
		in.inputs = append(in.inputs, inputRec{Name: in.concStr(a[0]), Kind: "bool", V: v})
		return v
	})
	nat(P+"Byte", func(in *Interp, a []Value, ins *Inst) Value {
		in.bound(in.concStr(a[0]), "any byte")
		t := in.newVar(8, 'a')
		v := Value{O: t}
		in.inputs = append(in.inputs, inputRec{Name: in.concStr(a[0]), Kind: "int", V: v, W: 8})
		return v
	})
	nat(P+"Int", func(in *Interp, a []Value, ins *Inst) Value {
		lo, hi := in.i64(a[1]), in.i64(a[2])
		in.bound(in.concStr(a[0]), "integer %d..%d", lo, hi)
		t := in.newVar(64, uint64(lo))
		in.addPC(in.pool.And(in.pool.Bin(OpSle, in.pool.Const(64, uint64(lo)), t), in.pool.Bin(OpSle, t, in.pool.Const(64, uint64(hi)))))
		v := Value{O: t}
		in.inputs = append(in.inputs, inputRec{Name: in.concStr(a[0]), Kind: "int", V: v, W: 64})
		return v
	})
	nat(P+"Choose", func(in *Interp, a []Value, ins *Inst) Value {
		in.bound(in.concStr(a[0]), "choice of %d", in.i64(a[1]))
		n := in.choose(int(in.i64(a[1])))
		in.inputs = append(in.inputs, inputRec{Name: in.concStr(a[0]), Kind: "choose", V: Value{N: uint64(n)}})
		return Value{N: uint64(n)}
	})
	nat(P+"Assume", func(in *Interp, a []Value, ins *Inst) Value {
		in.assume(in.term(a[0], 0))
		return Value{}
	})
	nat(P+"Assert", func(in *Interp, a []Value, ins *Inst) Value {
		in.assert(in.term(a[0], 0), a[1])
		return Value{}
	})
	nat(P+"Fail", func(in *Interp, a []Value, ins *Inst) Value {
		in.assert(in.pool.False, a[0])
		return Value{}
	})
	nat(P+"Stop", func(in *Interp, a []Value, ins *Inst) Value {
		panic(pathEnd{"complete"})
	})
	nat(P+"Concretize", func(in *Interp, a []Value, ins *Inst) Value {
		// fork until the condition is a constant
		return Value{N: b2u(in.branch(in.term(a[0], 0)))}
	})
	nat(P+"Cover", func(in *Interp, a []Value, ins *Inst) Value {
		in.ex.cover(in.hs, in.concStr(a[0]))
		return Value{}
	})
	nat(P+"MapOrder", func(in *Interp, a []Value, ins *Inst) Value {
		old := in.mapOrder
		in.mapOrder = int(in.i64(a[0]))
		in.trailFn(func() { in.mapOrder = old })
		return Value{}
	})
	nat(P+"Symbolic", func(in *Interp, a []Value, ins *Inst) Value { return Value{N: 1} })
	nat(P+"Thorough", func(in *Interp, a []Value, ins *Inst) Value { return Value{N: b2u(in.tier == "thorough")} })
	nat(P+"Observe", func(in *Interp, a []Value, ins *Inst) Value {
		r := obsRec{label: in.concStr(a[0])}
		if a[1].O != nil {
			for _, x := range a[1].O.(*Slice).A {
				r.vals = append(r.vals, in.makeObs(emptyIface, x))
			}
		}
		in.obs = append(in.obs, r)
		return Value{}
	})
	nat(P+"FrameBegin", func(in *Interp, a []Value, ins *Inst) Value {
		oldF, oldFr, oldM, oldW := in.frameOn, in.fresh, in.freshM, in.frameW
		in.frameOn = true
		in.fresh, in.freshM, in.frameW = map[*Value]bool{}, map[*Map]bool{}, nil
		in.trailFn(func() { in.frameOn, in.fresh, in.freshM, in.frameW = oldF, oldFr, oldM, oldW })
		return Value{}
	})
	nat(P+"FrameEnd", func(in *Interp, a []Value, ins *Inst) Value {
		w := in.frameReport()
		on := in.frameOn
		in.frameOn = false
		in.trailFn(func() { in.frameOn = on })
		var out []Value
		for _, s := range w {
			out = append(out, mkStr(s))
		}
		return Value{O: &Slice{out}}
	})
}

// assert checks c on the current path.
func (in *Interp) assert(c *Term, msgv Value) {
	in.leavePrefix()
	msg := in.plainText(strOf(msgv))
	if in.replaying || in.localPos < len(in.local) {
		// already checked by the worker that recorded this prefix
		if c == in.pool.False {
			panic(pathEnd{"complete"})
		}
		in.assumeQuiet(c)
		return
	}
	in.ex.countAssert(in.hs)
	c = in.known(c, 3)
	if c == in.pool.True {
		return
	}
	if c == in.pool.False || in.eval(c) == 0 {
		in.violation(msg)
	} else {
		r, m := in.decide(in.pool.Not(c), false)
		switch r {
		case rSat:
			old := in.model
			in.setModel(m)
			in.violation(msg)
			in.setModel(old)
		case rUnknown:
			in.ex.note(in.hs, "unknown: assertion "+msg)
		}
	}
	if c == in.pool.False {
		panic(pathEnd{"complete"})
	}
	in.assume(c)
}

func (in *Interp) assumeQuiet(c *Term) {
	c = in.known(c, 3)
	if c != in.pool.True {
		in.addPC(c)
	}
}

// plainText renders a message; symbolic bytes are left out so that messages identify the assertion.
func (in *Interp) plainText(s *Str) string {
	if s.t == nil {
		return s.c
	}
	b := make([]byte, 0, len(s.c))
	for i := range s.t {
		if s.t[i] == nil {
			b = append(b, s.c[i])
		} else {
			b = append(b, '?')
		}
	}
	return string(b)
}
