package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is an interpreted Go value; the static type says how to read it.
//
//	bool, integers: N (masked to width) or O = *Term
//	floats:         N = Float64bits
//	string:         O = nil | *Str
//	pointer:        O = nil | *Value | *ElemPtr
//	struct, array:  O = *Agg
//	slice:          O = nil | *Slice
//	map:            O = nil | *Map
//	interface:      O = nil | *Iface
//	func:           O = nil | *Closure
//	tuple:          O = []Value
type Value struct {
	N uint64
	O any
}

// Str is an immutable string with a concrete length; t[i] != nil marks a symbolic byte.
type Str struct {
	c string
	t []*Term
}

// Agg is a struct or array value.
type Agg struct{ F []Value }

// Slice is a slice header over interpreted values (Go's own len/cap/aliasing).
type Slice struct{ A []Value }

// ElemPtr is what unsafe.SliceData/StringData yield: a pointer that remembers what follows it.
type ElemPtr struct {
	a []Value
	s *Str
}

// Iface is a non-nil interface value.
type Iface struct {
	T types.Type // canonical
	V Value
}

// Closure is a function value.
type Closure struct {
	Fn  *FnInfo
	Env []Value
	Nat *Native
	Rcv []Value // bound receiver for bound methods
}

// ROpaque wraps a host value the program only passes around (e.g. *regexp.Regexp).
type ROpaque struct{ v any }

// RValue is a reflect.Value.
type RValue struct {
	T types.Type
	V Value
	P *Value // addressable slot, if any
	H bool   // obtained from an unexported field
}

type mapEntry struct {
	k, v    Value
	deleted bool
}

// Map is an insertion-ordered map. idx covers entries whose key is fully concrete.
type Map struct {
	idx     map[any]int
	ents    []*mapEntry
	n       int
	nsym    int // live entries with symbolic keys
	kt      types.Type
	shared  bool
	id      int
	version int
}

type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kIface
	kFunc
	kChan
	kTuple
	kComplex
)

type typeInfo struct {
	k      kind
	w      uint8
	signed bool
}

func infoOf(t types.Type) typeInfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return typeInfo{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return typeInfo{kInt, 64, true}
		case types.Int8:
			return typeInfo{kInt, 8, true}
		case types.Int16:
			return typeInfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return typeInfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return typeInfo{kInt, 64, false}
		case types.Uint8:
			return typeInfo{kInt, 8, false}
		case types.Uint16:
			return typeInfo{kInt, 16, false}
		case types.Uint32:
			return typeInfo{kInt, 32, false}
		case types.Float64, types.UntypedFloat:
			return typeInfo{k: kFloat, w: 64}
		case types.Float32:
			return typeInfo{k: kFloat, w: 32}
		case types.String, types.UntypedString:
			return typeInfo{k: kString}
		case types.UnsafePointer:
			return typeInfo{k: kPtr}
		case types.Complex64, types.Complex128:
			return typeInfo{k: kComplex}
		}
	case *types.Pointer:
		return typeInfo{k: kPtr}
	case *types.Struct:
		return typeInfo{k: kStruct}
	case *types.Array:
		return typeInfo{k: kArray}
	case *types.Slice:
		return typeInfo{k: kSlice}
	case *types.Map:
		return typeInfo{k: kMap}
	case *types.Interface:
		return typeInfo{k: kIface}
	case *types.Signature:
		return typeInfo{k: kFunc}
	case *types.Chan:
		return typeInfo{k: kChan}
	case *types.Tuple:
		return typeInfo{k: kTuple}
	}
	return typeInfo{}
}

// canonical types
var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
	canonC   sync.Map // types.Type -> types.Type
)

func canon(t types.Type) types.Type {
	if c, ok := canonC.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	t0 := t
	t = types.Unalias(t)
	if c := canonMap.At(t); c != nil {
		canonC.Store(t0, c.(types.Type))
		return c.(types.Type)
	}
	canonMap.Set(t, t)
	canonC.Store(t0, t)
	canonC.Store(t, t)
	return t
}

// zero returns a fresh zero value.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return Value{O: &Agg{f}}
	case *types.Array:
		n := int(u.Len())
		f := make([]Value, n)
		if n > 0 {
			ti := infoOf(u.Elem())
			if ti.k == kStruct || ti.k == kArray {
				for i := range f {
					f[i] = zero(u.Elem())
				}
			}
		}
		return Value{O: &Agg{f}}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = zero(u.At(i).Type())
		}
		return Value{O: f}
	}
	return Value{}
}

// copyVal copies aggregates deeply so that slots never share storage.
func copyVal(v Value) Value {
	if a, ok := v.O.(*Agg); ok {
		f := make([]Value, len(a.F))
		for i := range f {
			if _, ok := a.F[i].O.(*Agg); ok {
				f[i] = copyVal(a.F[i])
			} else {
				f[i] = a.F[i]
			}
		}
		return Value{O: &Agg{f}}
	}
	return v
}

var emptyStr = &Str{}

func strOf(v Value) *Str {
	if v.O == nil {
		return emptyStr
	}
	return v.O.(*Str)
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{O: &Str{c: s}}
}

func (s *Str) sub(i, j int) *Str {
	if s.t == nil {
		return &Str{c: s.c[i:j]}
	}
	r := &Str{c: s.c[i:j], t: s.t[i:j]}
	return r.norm()
}

func (s *Str) norm() *Str {
	if s.t == nil {
		return s
	}
	for _, t := range s.t {
		if t != nil {
			return s
		}
	}
	return &Str{c: s.c}
}

func strVal(s *Str) Value {
	if len(s.c) == 0 {
		return Value{}
	}
	return Value{O: s}
}

func (s *Str) concrete() bool { return s.t == nil }

func concatStr(a, b *Str) *Str {
	if len(a.c) == 0 {
		return b
	}
	if len(b.c) == 0 {
		return a
	}
	r := &Str{c: a.c + b.c}
	if a.t != nil || b.t != nil {
		r.t = make([]*Term, len(r.c))
		copy(r.t, a.t)
		copy(r.t[len(a.c):], b.t)
	}
	return r
}

// at returns byte i as a Value.
func (s *Str) at(i int) Value {
	if s.t != nil && s.t[i] != nil {
		return Value{O: s.t[i]}
	}
	return Value{N: uint64(s.c[i])}
}

func bytesToStr(a []Value) *Str {
	b := make([]byte, len(a))
	var t []*Term
	for i, v := range a {
		if x, ok := v.O.(*Term); ok {
			if t == nil {
				t = make([]*Term, len(a))
			}
			t[i] = x
		} else {
			b[i] = byte(v.N)
		}
	}
	return &Str{c: string(b), t: t}
}

func strToBytes(s *Str) []Value {
	a := make([]Value, len(s.c))
	for i := range a {
		a[i] = s.at(i)
	}
	return a
}

// --- symbolic helpers bound to a worker ---

func (in *Interp) term(v Value, w uint8) *Term {
	if t, ok := v.O.(*Term); ok {
		return t
	}
	if w == 0 {
		return in.pool.Bool(v.N != 0)
	}
	return in.pool.Const(w, v.N)
}

func (in *Interp) fromTerm(t *Term) Value {
	if t.isConst() {
		return Value{N: t.val}
	}
	return Value{O: t}
}

// eqStr is the term for a == b.
func (in *Interp) eqStr(a, b *Str) *Term {
	if len(a.c) != len(b.c) {
		return in.pool.False
	}
	if a.t == nil && b.t == nil {
		return in.pool.Bool(a.c == b.c)
	}
	r := in.pool.True
	// concrete mismatches first
	for i := 0; i < len(a.c); i++ {
		if (a.t == nil || a.t[i] == nil) && (b.t == nil || b.t[i] == nil) && a.c[i] != b.c[i] {
			return in.pool.False
		}
	}
	for i := 0; i < len(a.c); i++ {
		x, y := in.term(a.at(i), 8), in.term(b.at(i), 8)
		r = in.pool.And(r, in.pool.Eq(x, y))
		if r == in.pool.False {
			return r
		}
	}
	return r
}

// ltStr is the term for a < b (bytewise).
func (in *Interp) ltStr(a, b *Str) *Term {
	if a.t == nil && b.t == nil {
		return in.pool.Bool(a.c < b.c)
	}
	n := len(a.c)
	if len(b.c) < n {
		n = len(b.c)
	}
	r := in.pool.Bool(len(a.c) < len(b.c))
	for i := n - 1; i >= 0; i-- {
		x, y := in.term(a.at(i), 8), in.term(b.at(i), 8)
		lt := in.pool.Bin(OpUlt, x, y)
		eq := in.pool.Eq(x, y)
		r = in.pool.Or(lt, in.pool.And(eq, r))
	}
	return r
}

// equal is the term for x == y at type t.
func (in *Interp) equal(t types.Type, x, y Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := infoOf(t)
		switch ti.k {
		case kString:
			return in.eqStr(strOf(x), strOf(y))
		case kBool:
			return in.pool.Eq(in.term(x, 0), in.term(y, 0))
		case kInt:
			if x.O == nil && y.O == nil {
				return in.pool.Bool(x.N == y.N)
			}
			return in.pool.Eq(in.term(x, ti.w), in.term(y, ti.w))
		case kFloat:
			if x.O != nil || y.O != nil {
				in.unsupported("symbolic float comparison")
			}
			return in.pool.Bool(math.Float64frombits(x.N) == math.Float64frombits(y.N))
		case kPtr:
			return in.pool.Bool(ptrEq(x, y))
		}
	case *types.Struct:
		_, xr := x.O.(*RValue)
		_, yr := y.O.(*RValue)
		if xr != yr {
			return in.pool.False // a reflect.Value and its zero value
		} else if xr {
			in.unsupported("comparison of reflect values")
		}
		a, b := x.O.(*Agg), y.O.(*Agg)
		r := in.pool.True
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = in.pool.And(r, in.equal(u.Field(i).Type(), a.F[i], b.F[i]))
			if r == in.pool.False {
				return r
			}
		}
		return r
	case *types.Array:
		a, b := x.O.(*Agg), y.O.(*Agg)
		r := in.pool.True
		for i := range a.F {
			r = in.pool.And(r, in.equal(u.Elem(), a.F[i], b.F[i]))
			if r == in.pool.False {
				return r
			}
		}
		return r
	case *types.Interface:
		return in.equalIface(x, y)
	case *types.Pointer, *types.Chan:
		return in.pool.Bool(ptrEq(x, y))
	case *types.Map, *types.Slice, *types.Signature:
		// only comparison with nil is legal
		return in.pool.Bool(x.O == nil && y.O == nil)
	}
	in.unsupported(fmt.Sprintf("comparison at type %s", t))
	return nil
}

func ptrEq(x, y Value) bool {
	if x.O == nil || y.O == nil {
		return x.O == nil && y.O == nil && x.N == y.N
	}
	if a, ok := x.O.(*ElemPtr); ok {
		if b, ok := y.O.(*ElemPtr); ok {
			return len(a.a) > 0 && len(b.a) > 0 && &a.a[0] == &b.a[0] || a == b
		}
		if b, ok := y.O.(*Value); ok {
			return len(a.a) > 0 && &a.a[0] == b
		}
		return false
	}
	if b, ok := y.O.(*ElemPtr); ok {
		if a, ok := x.O.(*Value); ok {
			return len(b.a) > 0 && &b.a[0] == a
		}
	}
	return x.O == y.O
}

func (in *Interp) equalIface(x, y Value) *Term {
	if x.O == nil || y.O == nil {
		return in.pool.Bool(x.O == nil && y.O == nil)
	}
	a, b := x.O.(*Iface), y.O.(*Iface)
	if a.T != b.T {
		return in.pool.False
	}
	if !types.Comparable(a.T) {
		in.throwRuntime("comparing uncomparable type " + a.T.String())
	}
	if _, ok := a.V.O.(*ROpaque); ok {
		return in.pool.Bool(a.V.O == b.V.O)
	}
	return in.equal(a.T, a.V, b.V)
}

// mapKey returns a host-comparable key for a fully concrete value of type t.
func (in *Interp) mapKey(t types.Type, v Value) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := infoOf(t)
		switch ti.k {
		case kString:
			s := strOf(v)
			if s.t != nil {
				return nil, false
			}
			return s.c, true
		case kPtr:
			return v.O, true
		default:
			if v.O != nil {
				return nil, false
			}
			return v.N, true
		}
	case *types.Pointer, *types.Chan:
		return v.O, true
	case *types.Interface:
		if v.O == nil {
			return nil, true
		}
		i := v.O.(*Iface)
		if !types.Comparable(i.T) {
			in.throwRuntime("hash of unhashable type " + i.T.String())
		}
		k, ok := in.mapKey(i.T, i.V)
		if !ok {
			return nil, false
		}
		return [2]any{i.T, k}, true
	case *types.Struct:
		a := v.O.(*Agg)
		var k any
		for i := range a.F {
			x, ok := in.mapKey(u.Field(i).Type(), a.F[i])
			if !ok {
				return nil, false
			}
			k = [2]any{k, x}
		}
		return [2]any{"struct", k}, true
	case *types.Array:
		a := v.O.(*Agg)
		var k any
		for i := range a.F {
			x, ok := in.mapKey(u.Elem(), a.F[i])
			if !ok {
				return nil, false
			}
			k = [2]any{k, x}
		}
		return [2]any{"array", k}, true
	}
	in.unsupported(fmt.Sprintf("map key of type %s", t))
	return nil, false
}

// lookup finds the entry for k, forking over symbolic equality with existing keys.
func (in *Interp) mapFind(m *Map, k Value) *mapEntry {
	key, conc := in.mapKey(m.kt, k)
	if conc && m.nsym == 0 {
		if i, ok := m.idx[key]; ok {
			return m.ents[i]
		}
		return nil
	}
	if conc {
		if i, ok := m.idx[key]; ok {
			return m.ents[i]
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		c := in.equal(m.kt, e.k, k)
		if c == in.pool.False {
			continue
		}
		if in.branch(c) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if e := in.mapFind(m, k); e != nil {
		in.noteMapWrite(m)
		old := e.v
		e.v = v
		in.trailFn(func() { e.v = old })
		return
	}
	in.noteMapWrite(m)
	key, conc := in.mapKey(m.kt, k)
	e := &mapEntry{k: k, v: v}
	pos := len(m.ents)
	m.ents = append(m.ents, e)
	m.n++
	if conc {
		m.idx[key] = pos
	} else {
		m.nsym++
	}
	in.trailFn(func() {
		m.ents = m.ents[:pos]
		m.n--
		if conc {
			delete(m.idx, key)
		} else {
			m.nsym--
		}
	})
}

func (in *Interp) mapDelete(m *Map, k Value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	in.noteMapWrite(m)
	key, conc := in.mapKey(m.kt, e.k)
	e.deleted = true
	m.n--
	pos := -1
	if conc {
		pos = m.idx[key]
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	in.trailFn(func() {
		e.deleted = false
		m.n++
		if conc {
			m.idx[key] = pos
		} else {
			m.nsym++
		}
	})
}

func newMap(kt types.Type) *Map { return &Map{idx: map[any]int{}, kt: kt} }

// --- debug printing ---

func (in *Interp) show(v Value) string { return in.showDepth(v, 4) }

func (in *Interp) showDepth(v Value, d int) string {
	if d == 0 {
		return "…"
	}
	switch o := v.O.(type) {
	case nil:
		return fmt.Sprintf("%d", v.N)
	case *Term:
		return "sym:" + o.ref()
	case *Str:
		return in.showStr(o)
	case *Agg:
		var p []string
		for _, f := range o.F {
			p = append(p, in.showDepth(f, d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *Slice:
		var p []string
		for _, f := range o.A {
			p = append(p, in.showDepth(f, d-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Iface:
		return in.showDepth(o.V, d-1)
	case *Value:
		return "&" + in.showDepth(*o, d-1)
	}
	return fmt.Sprintf("%T", v.O)
}

func (in *Interp) showStr(s *Str) string {
	b := []byte(s.c)
	if s.t != nil && in.model != nil {
		for i, t := range s.t {
			if t != nil {
				b[i] = byte(in.pool.Eval(t, in.model))
			}
		}
	}
	return fmt.Sprintf("%q", string(b))
}
