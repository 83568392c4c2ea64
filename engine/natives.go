package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"path"
)

// Native is a function executed by the host instead of being interpreted.
type Native struct {
	name     string
	fn       func(in *Interp, args []Value, ins *Inst) Value
	fallback bool // host function used when all arguments are concrete, otherwise the body is interpreted
	host     reflect.Value
	rawErr   bool // errors of the host function are passed on as opaque errors
}

var natives = map[string]*Native{}

func nat(name string, fn func(in *Interp, args []Value, ins *Inst) Value) {
	natives[name] = &Native{name: name, fn: fn}
}

func host(name string, f any) {
	natives[name] = &Native{name: name, fallback: true, host: reflect.ValueOf(f)}
}

// hostOnly functions have no interpretable body.
func hostOnly(name string, f any) {
	n := &Native{name: name, host: reflect.ValueOf(f), rawErr: true}
	n.fn = func(in *Interp, args []Value, ins *Inst) Value {
		v, ok := n.call(in, args)
		if !ok {
			// one path for every value of the arguments
			conc := make([]Value, len(args))
			for i, a := range args {
				conc[i] = in.concreteArg(a)
			}
			if v, ok = n.call(in, conc); !ok {
				in.unsupported("symbolic argument of " + name)
			}
		}
		return v
	}
	natives[name] = n
}

// uniqueHandles are the values of package unique, one for the whole run: they are immutable and compared by address.
var (
	uniqueMu      sync.Mutex
	uniqueHandles = map[string]*Value{}
)

func (in *Interp) concreteAgg(v Value) Value {
	a, ok := v.O.(*Agg)
	if !ok {
		return in.concreteArg(v)
	}
	f := make([]Value, len(a.F))
	for i := range f {
		f[i] = in.concreteAgg(a.F[i])
	}
	return Value{O: &Agg{f}}
}

func flat(v Value) []string {
	switch o := v.O.(type) {
	case nil:
		return []string{fmt.Sprint(v.N)}
	case *Str:
		return []string{strconv.Quote(o.c)}
	case *Agg:
		l := []string{"{"}
		for _, x := range o.F {
			l = append(l, flat(x)...)
		}
		return append(l, "}")
	}
	return []string{fmt.Sprintf("%p", v.O)}
}

func (in *Interp) concreteArg(v Value) Value {
	switch o := v.O.(type) {
	case *Str:
		if o.t == nil {
			return v
		}
		b := make([]byte, len(o.t))
		for i, t := range o.t {
			if t == nil {
				b[i] = o.c[i]
			} else {
				b[i] = byte(in.concretise(t))
			}
		}
		return Value{O: &Str{c: string(b)}}
	case *Term:
		return Value{N: in.concretise(o)}
	case *Slice:
		a := make([]Value, len(o.A))
		for i := range o.A {
			a[i] = in.concreteArg(o.A[i])
		}
		return Value{O: &Slice{a}}
	}
	return v
}

func nativeByPkg(fi *FnInfo) *Native {
	switch fi.pkg {
	case "github.com/sirupsen/logrus", "log", "runtime/debug", "internal/race", "internal/asan", "internal/msan":
		res := fi.res
		if fi.name == "github.com/sirupsen/logrus.init" {
			return nil
		}
		return &Native{name: fi.name, fn: func(in *Interp, args []Value, ins *Inst) Value {
			switch res.Len() {
			case 0:
				return Value{}
			case 1:
				if p, ok := res.At(0).Type().Underlying().(*types.Pointer); ok {
					return Value{O: in.newSlot(zero(p.Elem()))}
				}
				return zero(res.At(0).Type())
			}
			return zero(res)
		}}
	}
	return nil
}

var globalInit = map[string]func(in *Interp) Value{
	"time.Local": func(in *Interp) Value { return Value{O: &ROpaque{time.Local}} },
	"time.UTC":   func(in *Interp) Value { return Value{O: &ROpaque{time.UTC}} },
	"net.v4InV6Prefix": func(in *Interp) Value {
		a := make([]Value, 12)
		a[10].N, a[11].N = 0xff, 0xff
		return Value{O: &Slice{a}}
	},
	"internal/bytealg.MaxLen": func(in *Interp) Value { return Value{N: 64} },
}

var zeroGlobals = map[string]bool{
	"internal/cpu.X86": true, "os.Args": true, "os.Stdout": true, "os.Stderr": true, "os.Stdin": true,
}

var rtypeT types.Type = types.NewNamed(types.NewTypeName(0, nil, "rtype", nil), types.NewStruct(nil, nil), nil)

// RType is a reflect.Type.
type RType struct{ T types.Type }

// --- host call bridge ---

func toHost(v Value, t reflect.Type) (reflect.Value, bool) {
	if o, ok := v.O.(*ROpaque); ok {
		rv := reflect.ValueOf(o.v)
		return rv, rv.Type().AssignableTo(t)
	}
	switch t.Kind() {
	case reflect.String:
		s := strOf(v)
		if s.t != nil {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(s.c).Convert(t), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.O != nil {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(sext(v.N, uint8(t.Bits()))).Convert(t), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if v.O != nil {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(v.N).Convert(t), true
	case reflect.Bool:
		if v.O != nil {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(v.N != 0), true
	case reflect.Float64, reflect.Float32:
		if v.O != nil {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(math.Float64frombits(v.N)).Convert(t), true
	case reflect.Slice:
		if v.O == nil {
			return reflect.Zero(t), true
		}
		sl, ok := v.O.(*Slice)
		if !ok {
			return reflect.Value{}, false
		}
		a := sl.A
		r := reflect.MakeSlice(t, len(a), len(a))
		for i := range a {
			x, ok := toHost(a[i], t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(x)
		}
		return r, true
	case reflect.Pointer:
		if v.O == nil {
			return reflect.Zero(t), true
		}
	}
	return reflect.Value{}, false
}

func fromHost(in *Interp, rv reflect.Value) Value {
	switch rv.Kind() {
	case reflect.String:
		return mkStr(rv.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Value{N: uint64(rv.Int()) & mask(uint8(rv.Type().Bits()))}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return Value{N: rv.Uint()}
	case reflect.Bool:
		return Value{N: b2u(rv.Bool())}
	case reflect.Float64, reflect.Float32:
		return Value{N: math.Float64bits(rv.Float())}
	case reflect.Slice:
		if rv.IsNil() {
			return Value{}
		}
		a := make([]Value, rv.Len())
		for i := range a {
			a[i] = fromHost(in, rv.Index(i))
		}
		return in.newSliceVals(a)
	case reflect.Interface:
		if rv.IsNil() {
			return Value{}
		}
		if e, ok := rv.Interface().(error); ok {
			return in.plainError(e.Error())
		}
	case reflect.Pointer:
		if rv.IsNil() {
			return Value{}
		}
		return Value{O: &ROpaque{rv.Interface()}}
	case reflect.Struct:
		if t, ok := rv.Interface().(time.Time); ok {
			// wall, ext, loc as the package lays them out
			r := reflect.ValueOf(t)
			var loc Value
			if !r.Field(2).IsNil() {
				loc = Value{O: &ROpaque{t.Location()}}
			}
			return Value{O: &Agg{[]Value{{N: r.Field(0).Uint()}, {N: uint64(r.Field(1).Int())}, loc}}}
		}
	}
	in.unsupported("host result of type " + rv.Type().String())
	return Value{}
}

func (n *Native) call(in *Interp, args []Value) (Value, bool) {
	t := n.host.Type()
	hv := make([]reflect.Value, 0, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			// variadic arguments arrive as one slice
			x, ok := toHost(a, t.In(t.NumIn()-1))
			if !ok {
				return Value{}, false
			}
			for j := 0; j < x.Len(); j++ {
				hv = append(hv, x.Index(j))
			}
			continue
		}
		pt = t.In(i)
		x, ok := toHost(a, pt)
		if !ok {
			return Value{}, false
		}
		hv = append(hv, x)
	}
	out := n.host.Call(hv)
	if !n.rawErr {
		for _, o := range out {
			if o.Kind() == reflect.Interface && !o.IsNil() {
				return Value{}, false
			}
		}
	}
	switch len(out) {
	case 0:
		return Value{}, true
	case 1:
		return fromHost(in, out[0]), true
	}
	tup := make([]Value, len(out))
	for i := range out {
		tup[i] = fromHost(in, out[i])
	}
	return Value{O: tup}, true
}

func (n *Native) try(in *Interp, args []Value, fi *FnInfo) (Value, bool) {
	if n.fn != nil {
		return n.fn(in, args, nil), true
	}
	return n.call(in, args)
}

// --- reflect helpers ---

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (in *Interp) rv(v Value) *RValue {
	switch o := v.O.(type) {
	case *RValue:
		return o
	case *Agg:
		return nil
	}
	in.unsupported(fmt.Sprintf("reflect.Value %T", v.O))
	return nil
}

func zeroRV() Value { return Value{O: &Agg{[]Value{{}, {}, {}}}} }

func mkRType(t types.Type) Value {
	return Value{O: &Iface{T: rtypeT, V: Value{O: &RType{canon(t)}}}}
}

func reflectTypeMethod(name string) *Native {
	return &Native{name: "reflect.Type." + name, fn: func(in *Interp, args []Value, ins *Inst) Value {
		t := args[0].O.(*RType).T
		switch name {
		case "Kind":
			return Value{N: uint64(kindOf(t))}
		case "String", "Name":
			return mkStr(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
		case "Comparable":
			return Value{N: b2u(types.Comparable(t))}
		case "Elem":
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return mkRType(u.Elem())
			case *types.Slice:
				return mkRType(u.Elem())
			}
		case "In":
			i := in.intArg(args[1], typeInfo{kInt, 64, true})
			return mkRType(t.Underlying().(*types.Signature).Params().At(int(i)).Type())
		case "NumIn":
			return Value{N: uint64(t.Underlying().(*types.Signature).Params().Len())}
		case "IsVariadic":
			return Value{N: b2u(t.Underlying().(*types.Signature).Variadic())}
		}
		in.unsupported("reflect.Type." + name)
		return Value{}
	}}
}

func (in *Interp) deepEqual(t types.Type, x, y Value, d int) *Term {
	if d > 50 {
		in.unsupported("deep equality depth")
	}
	P := in.pool
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if x.O == nil || y.O == nil {
			return P.Bool(x.O == nil && y.O == nil)
		}
		a, b := x.O.(*Iface), y.O.(*Iface)
		if a.T != b.T {
			return P.False
		}
		return in.deepEqual(a.T, a.V, b.V, d+1)
	case *types.Slice:
		if (x.O == nil) != (y.O == nil) {
			return P.False
		}
		if x.O == nil {
			return P.True
		}
		a, b := x.O.(*Slice).A, y.O.(*Slice).A
		if len(a) != len(b) {
			return P.False
		}
		r := P.True
		for i := range a {
			r = P.And(r, in.deepEqual(u.Elem(), a[i], b[i], d+1))
		}
		return r
	case *types.Array:
		a, b := x.O.(*Agg).F, y.O.(*Agg).F
		r := P.True
		for i := range a {
			r = P.And(r, in.deepEqual(u.Elem(), a[i], b[i], d+1))
		}
		return r
	case *types.Struct:
		a, b := x.O.(*Agg).F, y.O.(*Agg).F
		r := P.True
		for i := range a {
			r = P.And(r, in.deepEqual(u.Field(i).Type(), a[i], b[i], d+1))
		}
		return r
	case *types.Pointer:
		if ptrEq(x, y) {
			return P.True
		}
		if x.O == nil || y.O == nil {
			return P.False
		}
		return in.deepEqual(u.Elem(), *in.slot(x), *in.slot(y), d+1)
	case *types.Map:
		if (x.O == nil) != (y.O == nil) {
			return P.False
		}
		if x.O == nil || x.O == y.O {
			return P.True
		}
		a, b := x.O.(*Map), y.O.(*Map)
		if a.n != b.n {
			return P.False
		}
		r := P.True
		for _, e := range a.ents {
			if e.deleted {
				continue
			}
			f := in.mapFind(b, e.k)
			if f == nil {
				return P.False
			}
			r = P.And(r, in.deepEqual(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Signature:
		return P.Bool(x.O == nil && y.O == nil)
	}
	return in.equal(t, x, y)
}

func errIface(v Value) Value { return v }

func init() {
	// --- locks and atomics ---
	// the state of a lock: -1 held by a writer, n > 0 held by n readers. Code that waits for a lock held by itself
	// never goes on.
	setLock := func(in *Interp, v Value, from func(n int) bool, d int, msg string) {
		p := in.slot(v)
		old := in.locks[p]
		if !from(old) {
			panic(pathEnd{"panic: " + msg + " @ " + in.where()})
		}
		in.locks[p] = old + d
		in.trailFn(func() {
			if old == 0 {
				delete(in.locks, p)
			} else {
				in.locks[p] = old
			}
		})
	}
	lock := func(d int) func(in *Interp, args []Value, ins *Inst) Value {
		return func(in *Interp, args []Value, ins *Inst) Value {
			if args[0].O == nil {
				nilDeref(in)
			}
			if d > 0 {
				setLock(in, args[0], func(n int) bool { return n == 0 }, -1, "deadlock")
			} else {
				setLock(in, args[0], func(n int) bool { return n < 0 }, 1, "unlock of unlocked mutex")
			}
			in.excl += d
			in.trailFn(func() { in.excl -= d })
			return Value{}
		}
	}
	rlock := func(d int) func(in *Interp, args []Value, ins *Inst) Value {
		return func(in *Interp, args []Value, ins *Inst) Value {
			if args[0].O == nil {
				nilDeref(in)
			}
			if d > 0 {
				setLock(in, args[0], func(n int) bool { return n >= 0 }, 1, "deadlock")
			} else {
				setLock(in, args[0], func(n int) bool { return n > 0 }, -1, "unlock of unlocked mutex")
			}
			in.shrd += d
			in.trailFn(func() { in.shrd -= d })
			return Value{}
		}
	}
	try := func(f func(in *Interp, args []Value, ins *Inst) Value, free func(n int) bool) func(in *Interp, args []Value, ins *Inst) Value {
		return func(in *Interp, args []Value, ins *Inst) Value {
			if !free(in.locks[in.slot(args[0])]) {
				return Value{}
			}
			f(in, args, ins)
			return Value{N: 1}
		}
	}
	nat("(*sync.Mutex).Lock", lock(1))
	nat("(*sync.Mutex).Unlock", lock(-1))
	nat("(*sync.RWMutex).Lock", lock(1))
	nat("(*sync.RWMutex).Unlock", lock(-1))
	nat("(*sync.RWMutex).RLock", rlock(1))
	nat("(*sync.RWMutex).RUnlock", rlock(-1))
	nat("(*sync.Mutex).TryLock", try(lock(1), func(n int) bool { return n == 0 }))
	nat("(*sync.RWMutex).TryLock", try(lock(1), func(n int) bool { return n == 0 }))
	nat("(*sync.RWMutex).TryRLock", try(rlock(1), func(n int) bool { return n >= 0 }))
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		nat("sync/atomic.Load"+w, func(in *Interp, args []Value, ins *Inst) Value { return *in.slot(args[0]) })
		nat("sync/atomic.Store"+w, func(in *Interp, args []Value, ins *Inst) Value {
			in.atomically(func() { in.set(in.slot(args[0]), args[1]) })
			return Value{}
		})
		nat("sync/atomic.Swap"+w, func(in *Interp, args []Value, ins *Inst) Value {
			p := in.slot(args[0])
			old := *p
			in.atomically(func() { in.set(p, args[1]) })
			return old
		})
		nat("sync/atomic.CompareAndSwap"+w, func(in *Interp, args []Value, ins *Inst) Value {
			p := in.slot(args[0])
			if p.O == args[1].O && p.N == args[1].N {
				in.atomically(func() { in.set(p, args[2]) })
				return Value{N: 1}
			}
			return Value{}
		})
		wd := uint8(64)
		if strings.HasSuffix(w, "32") {
			wd = 32
		}
		nat("sync/atomic.Add"+w, func(in *Interp, args []Value, ins *Inst) Value {
			p := in.slot(args[0])
			v := Value{N: (p.N + args[1].N) & mask(wd)}
			in.atomically(func() { in.set(p, v) })
			return v
		})
	}

	// --- byte algorithms ---
	host("strings.Index", strings.Index)
	host("strings.LastIndex", strings.LastIndex)
	host("strings.ToLower", strings.ToLower)
	host("strings.ToUpper", strings.ToUpper)
	host("strings.Split", strings.Split)
	host("strings.SplitN", strings.SplitN)
	host("strings.Fields", strings.Fields)
	host("strings.TrimSpace", strings.TrimSpace)
	host("strings.Trim", strings.Trim)
	host("strings.TrimLeft", strings.TrimLeft)
	host("strings.TrimRight", strings.TrimRight)
	host("strings.ReplaceAll", strings.ReplaceAll)
	host("strings.Replace", strings.Replace)
	host("strings.Repeat", strings.Repeat)
	host("strings.Count", strings.Count)
	host("strings.EqualFold", strings.EqualFold)
	host("strings.Join", strings.Join)
	host("strings.IndexByte", strings.IndexByte)
	host("strings.IndexAny", strings.IndexAny)
	host("strings.ContainsAny", strings.ContainsAny)
	host("strings.ContainsRune", strings.ContainsRune)
	host("strings.Title", strings.Title)
	host("strconv.ParseFloat", strconv.ParseFloat)
	host("strconv.FormatFloat", strconv.FormatFloat)
	host("strconv.Itoa", strconv.Itoa)
	host("strconv.Atoi", strconv.Atoi)
	host("strconv.FormatInt", strconv.FormatInt)
	host("strconv.FormatUint", strconv.FormatUint)
	host("strconv.ParseInt", strconv.ParseInt)
	host("strconv.ParseUint", strconv.ParseUint)
	host("strconv.ParseBool", strconv.ParseBool)
	host("strconv.Quote", strconv.Quote)
	host("strconv.Unquote", strconv.Unquote)
	host("unicode.IsSpace", unicode.IsSpace)
	host("unicode.IsLetter", unicode.IsLetter)
	host("unicode.IsDigit", unicode.IsDigit)
	host("unicode.IsUpper", unicode.IsUpper)
	host("unicode.IsLower", unicode.IsLower)
	host("unicode.IsPrint", unicode.IsPrint)
	host("unicode.ToUpper", unicode.ToUpper)
	host("unicode.ToLower", unicode.ToLower)
	host("unicode/utf8.ValidString", utf8.ValidString)
	host("path.Match", path.Match)
	hostOnly("math.Pow", math.Pow)
	hostOnly("math.Mod", math.Mod)
	hostOnly("math.Floor", math.Floor)
	hostOnly("math.Ceil", math.Ceil)
	hostOnly("math.Trunc", math.Trunc)
	hostOnly("math.Sqrt", math.Sqrt)
	hostOnly("math.Log", math.Log)
	hostOnly("math.Abs", math.Abs)
	ident := func(in *Interp, args []Value, ins *Inst) Value { return args[0] }
	nat("math.Float64bits", ident)
	nat("math.Float64frombits", ident)
	nat("math.Float32bits", func(in *Interp, args []Value, ins *Inst) Value {
		return Value{N: uint64(math.Float32bits(float32(math.Float64frombits(args[0].N))))}
	})
	nat("internal/abi.NoEscape", ident)
	nat("internal/abi.Escape", ident)
	nat("strings.noescape", ident)
	nat("internal/stringslite.Clone", ident)
	nat("strings.Clone", ident)
	nat("internal/bytealg.MakeNoZero", func(in *Interp, args []Value, ins *Inst) Value {
		return in.newSliceVals(make([]Value, in.intArg(args[0], typeInfo{kInt, 64, true})))
	})
	sl := func(v Value) []Value {
		switch o := v.O.(type) {
		case *Slice:
			return o.A
		case *Str:
			return strToBytes(o)
		}
		return nil
	}
	idxByte := func(in *Interp, args []Value, ins *Inst) Value {
		c := in.term(args[1], 8)
		for i, b := range sl(args[0]) {
			if in.branch(in.pool.Eq(in.term(b, 8), c)) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	nat("internal/bytealg.IndexByte", idxByte)
	nat("internal/bytealg.IndexByteString", idxByte)
	lastIdx := func(in *Interp, args []Value, ins *Inst) Value {
		c := in.term(args[1], 8)
		a := sl(args[0])
		for i := len(a) - 1; i >= 0; i-- {
			if in.branch(in.pool.Eq(in.term(a[i], 8), c)) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	nat("internal/bytealg.LastIndexByte", lastIdx)
	nat("internal/bytealg.LastIndexByteString", lastIdx)
	count := func(in *Interp, args []Value, ins *Inst) Value {
		c := in.term(args[1], 8)
		n := uint64(0)
		for _, b := range sl(args[0]) {
			if in.branch(in.pool.Eq(in.term(b, 8), c)) {
				n++
			}
		}
		return Value{N: n}
	}
	nat("internal/bytealg.Count", count)
	nat("internal/bytealg.CountString", count)
	index := func(in *Interp, args []Value, ins *Inst) Value {
		a, b := bytesToStr(sl(args[0])), bytesToStr(sl(args[1]))
		n := len(b.c)
		for i := 0; i+n <= len(a.c); i++ {
			if in.branch(in.eqStr(a.sub(i, i+n), b)) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	nat("internal/bytealg.Index", index)
	nat("internal/bytealg.IndexString", index)
	natives["strings.Index"].fallback = false
	natives["strings.Index"].fn = index
	nat("bytes.Index", index)
	nat("internal/stringslite.Index", index)
	nat("bytes.Equal", func(in *Interp, args []Value, ins *Inst) Value {
		return in.fromTerm(in.eqStr(bytesToStr(sl(args[0])), bytesToStr(sl(args[1]))))
	})
	natives["internal/bytealg.Equal"] = natives["bytes.Equal"]
	cmp := func(in *Interp, args []Value, ins *Inst) Value {
		a, b := bytesToStr(sl(args[0])), bytesToStr(sl(args[1]))
		if in.branch(in.eqStr(a, b)) {
			return Value{}
		}
		if in.branch(in.ltStr(a, b)) {
			return Value{N: ^uint64(0)}
		}
		return Value{N: 1}
	}
	nat("internal/bytealg.Compare", cmp)
	nat("internal/bytealg.CompareString", cmp)
	nat("bytes.Compare", cmp)

	// --- regexp, host only ---
	hostOnly("regexp.MustCompile", regexp.MustCompile)
	hostOnly("regexp.Compile", regexp.Compile)
	hostOnly("regexp.QuoteMeta", regexp.QuoteMeta)
	host("regexp.MatchString", regexp.MatchString)
	rt := reflect.TypeOf(&regexp.Regexp{})
	for i := 0; i < rt.NumMethod(); i++ {
		m := rt.Method(i)
		switch m.Name {
		case "MatchString", "FindString", "FindStringIndex", "FindStringSubmatch", "FindStringSubmatchIndex", "FindAllString",
			"FindAllStringIndex", "FindAllStringSubmatch", "FindAllStringSubmatchIndex", "ReplaceAllString", "ReplaceAllLiteralString":
			// symbolic text: see the shim
			host("(*regexp.Regexp)."+m.Name, m.Func.Interface())
		case "ReplaceAllStringFunc": // calls back, see the shim
		default:
			hostOnly("(*regexp.Regexp)."+m.Name, m.Func.Interface())
		}
	}
	nat("fvh/shim.unsupported", func(in *Interp, args []Value, ins *Inst) Value {
		msg := "library function"
		if t, ok := args[0].O.(*Str); ok {
			msg = in.plainText(t)
		}
		in.unsupported(msg)
		return Value{}
	})
	nat("fvh/shim.reProg", func(in *Interp, args []Value, ins *Inst) Value {
		o, ok := args[0].O.(*ROpaque)
		if !ok {
			in.unsupported("regular expression")
		}
		return regexProg(in, o.v.(*regexp.Regexp).String())
	})
	nat("fvh/shim.inRanges", func(in *Interp, args []Value, ins *Inst) Value {
		sl, _ := args[1].O.(*Slice)
		var runs []Value
		if sl != nil {
			runs = sl.A
		}
		t, ok := args[0].O.(*Term)
		if !ok {
			r := int32(args[0].N)
			for i := 0; i+1 < len(runs); i += 2 {
				if r >= int32(runs[i].N) && r <= int32(runs[i+1].N) {
					return Value{N: 1}
				}
			}
			return Value{}
		}
		p := in.pool
		c := p.False
		max := uint64(mask(t.w))
		if t.op == OpZext {
			max = mask(t.a.w)
		}
		for i := 0; i+1 < len(runs); i += 2 {
			lo, hi := uint64(uint32(runs[i].N)), uint64(uint32(runs[i+1].N))
			if lo > max {
				continue
			}
			d := p.True
			if lo > 0 {
				d = p.Bin(OpUle, p.Const(t.w, lo), t)
			}
			if hi < max {
				d = p.And(d, p.Bin(OpUle, t, p.Const(t.w, hi)))
			}
			if lo == hi {
				d = p.Eq(t, p.Const(t.w, lo))
			}
			c = p.Or(c, d)
		}
		if c.isConst() {
			return Value{N: c.val}
		}
		return Value{O: c}
	})
	// --- time ---
	hostOnly("time.ParseInLocation", func(l, v string, loc *time.Location) (time.Time, error) {
		t, err := time.ParseInLocation(l, v, time.Local)
		return t, err
	})
	hostOnly("time.Parse", time.Parse)
	nat("(time.Time).String", func(in *Interp, args []Value, ins *Inst) Value {
		a := args[0].O.(*Agg)
		t := struct {
			wall uint64
			ext  int64
			loc  *time.Location
		}{a.F[0].N, int64(a.F[1].N), nil}
		if o, ok := a.F[2].O.(*ROpaque); ok {
			t.loc = o.v.(*time.Location)
		}
		return mkStr((*(*time.Time)(unsafe.Pointer(&t))).String())
	})
	nat("time.Now", func(in *Interp, args []Value, ins *Inst) Value {
		return Value{O: &Agg{[]Value{{}, {}, {}}}}
	})
	nat("time.Since", func(in *Interp, args []Value, ins *Inst) Value { return Value{} })
	nat("(*time.Location).get", func(in *Interp, args []Value, ins *Inst) Value { return args[0] })

	// --- runtime ---
	nat("runtime.KeepAlive", func(in *Interp, args []Value, ins *Inst) Value { return Value{} })
	nat("runtime.GC", func(in *Interp, args []Value, ins *Inst) Value { return Value{} })
	nat("runtime.SetFinalizer", func(in *Interp, args []Value, ins *Inst) Value { return Value{} })
	nat("unique.Make", func(in *Interp, args []Value, ins *Inst) Value {
		v := in.concreteAgg(args[0])
		k := fmt.Sprint(flat(v))
		uniqueMu.Lock()
		defer uniqueMu.Unlock()
		p, ok := uniqueHandles[k]
		if !ok {
			p = &Value{O: v.O, N: v.N}
			uniqueHandles[k] = p
		}
		return Value{O: &Agg{[]Value{{O: p}}}}
	})
	nat("runtime.FuncForPC", func(in *Interp, args []Value, ins *Inst) Value { return Value{O: &ROpaque{args[0].N}} })
	nat("(*runtime.Func).Name", func(in *Interp, args []Value, ins *Inst) Value {
		in.p.mu.Lock()
		defer in.p.mu.Unlock()
		id := args[0].O.(*ROpaque).v.(uint64)
		if int(id) < len(pcNames) {
			return mkStr(pcNames[id])
		}
		return mkStr("func")
	})
	nat("os.Getenv", func(in *Interp, args []Value, ins *Inst) Value { return Value{} })

	// --- reflect ---
	nat("reflect.DeepEqual", func(in *Interp, args []Value, ins *Inst) Value {
		return in.fromTerm(in.deepEqual(emptyIface, args[0], args[1], 0))
	})
	typeOf := func(in *Interp, args []Value, ins *Inst) Value {
		if args[0].O == nil {
			return Value{}
		}
		return mkRType(args[0].O.(*Iface).T)
	}
	nat("reflect.TypeOf", typeOf)
	nat("internal/reflectlite.TypeOf", typeOf)
	nat("reflect.ValueOf", func(in *Interp, args []Value, ins *Inst) Value {
		if args[0].O == nil {
			return zeroRV()
		}
		i := args[0].O.(*Iface)
		return Value{O: &RValue{T: i.T, V: i.V}}
	})
	nat("(reflect.Value).IsValid", func(in *Interp, args []Value, ins *Inst) Value {
		return Value{N: b2u(in.rv(args[0]) != nil)}
	})
	nat("(reflect.Value).Kind", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		if r == nil {
			return Value{}
		}
		return Value{N: uint64(kindOf(r.T))}
	})
	nat("(reflect.Value).Type", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		if r == nil {
			in.throw(in.plainError("reflect: call of reflect.Value.Type on zero Value"))
		}
		return mkRType(r.T)
	})
	nat("(reflect.Value).IsNil", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		return Value{N: b2u(r.V.O == nil)}
	})
	nat("(reflect.Value).Elem", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		switch u := r.T.Underlying().(type) {
		case *types.Pointer:
			if r.V.O == nil {
				return zeroRV()
			}
			p := in.slot(r.V)
			return Value{O: &RValue{T: canon(u.Elem()), V: copyVal(*p), P: p}}
		case *types.Interface:
			if r.V.O == nil {
				return zeroRV()
			}
			i := r.V.O.(*Iface)
			return Value{O: &RValue{T: i.T, V: i.V}}
		}
		in.unsupported("reflect Elem of " + r.T.String())
		return Value{}
	})
	nat("(reflect.Value).FieldByName", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		name := strOf(args[1])
		if name.t != nil {
			in.unsupported("symbolic field name")
		}
		st, ok := r.T.Underlying().(*types.Struct)
		if !ok {
			in.unsupported("FieldByName on " + r.T.String())
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name.c {
				return Value{O: &RValue{T: canon(st.Field(i).Type()), V: r.V.O.(*Agg).F[i], H: r.H || !st.Field(i).Exported()}}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				in.unsupported("embedded field lookup")
			}
		}
		return zeroRV()
	})
	nat("(reflect.Value).MethodByName", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		if r == nil {
			return zeroRV()
		}
		ms := types.NewMethodSet(r.T)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj().(*types.Func)
			if m.Name() == strOf(args[1]).c && m.Exported() {
				sig := m.Type().(*types.Signature)
				c, rcv := in.bindMethod(Value{O: &Iface{T: r.T, V: r.V}}, m)
				t := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
				return Value{O: &RValue{T: canon(t), V: Value{O: &Closure{Fn: c.Fn, Env: c.Env, Nat: c.Nat, Rcv: rcv}}}}
			}
		}
		return zeroRV()
	})
	nat("(reflect.Value).MapIndex", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		k := in.rv(args[1])
		mt := r.T.Underlying().(*types.Map)
		if r.V.O == nil {
			return zeroRV()
		}
		kv := k.V
		if infoOf(mt.Key()).k == kIface && infoOf(k.T).k != kIface {
			kv = Value{O: &Iface{T: k.T, V: k.V}}
		} else if !types.Identical(mt.Key().Underlying(), k.T.Underlying()) {
			in.throw(Value{O: &Iface{T: canon(types.Typ[types.String]), V: mkStr("reflect.Value.MapIndex: value of type " + k.T.String() + " is not assignable to type " + mt.Key().String())}})
		}
		e := in.mapFind(r.V.O.(*Map), kv)
		if e == nil {
			return zeroRV()
		}
		return Value{O: &RValue{T: canon(mt.Elem()), V: e.v}}
	})
	nat("(reflect.Value).Interface", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		if r == nil {
			in.throw(in.plainError("reflect: call of reflect.Value.Interface on zero Value"))
		}
		if r.H {
			in.throw(Value{O: &Iface{T: canon(types.Typ[types.String]), V: mkStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")}})
		}
		if infoOf(r.T).k == kIface {
			return r.V
		}
		return Value{O: &Iface{T: r.T, V: r.V}}
	})
	natives["(reflect.Value).CanInterface"] = &Native{fn: func(in *Interp, args []Value, ins *Inst) Value { return Value{N: 1} }}
	nat("(reflect.Value).Convert", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		var t types.Type
		switch o := args[1].O.(*Iface).V.O.(type) {
		case *RType:
			t = o.T
		}
		if r == nil || t == nil {
			in.unsupported("reflect conversion")
		}
		to, from := infoOf(t), infoOf(r.T)
		switch {
		case to.k == kIface && types.AssignableTo(r.T, t):
			return Value{O: &RValue{T: canon(t), V: Value{O: &Iface{T: r.T, V: r.V}}}}
		case !types.ConvertibleTo(r.T, t):
			in.throw(Value{O: &Iface{T: canon(types.Typ[types.String]), V: mkStr("reflect.Value.Convert: value of type " + r.T.String() + " cannot be converted to type " + t.String())}})
		}
		return Value{O: &RValue{T: canon(t), V: in.convert(&Inst{ti: to, ti2: from, t: t, t2: r.T}, r.V)}}
	})
	nat("(reflect.Kind).String", func(in *Interp, args []Value, ins *Inst) Value {
		return mkStr(reflect.Kind(args[0].N).String())
	})
	nat("(reflect.Value).Len", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		switch o := r.V.O.(type) {
		case nil:
			return Value{}
		case *Slice:
			return Value{N: uint64(len(o.A))}
		case *Str:
			return Value{N: uint64(len(o.c))}
		case *Map:
			return Value{N: uint64(o.n)}
		case *Agg:
			return Value{N: uint64(len(o.F))}
		}
		in.unsupported("reflect Len")
		return Value{}
	})
	nat("(reflect.Value).Index", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		i := in.intArg(args[1], typeInfo{kInt, 64, true})
		switch u := r.T.Underlying().(type) {
		case *types.Slice:
			return Value{O: &RValue{T: canon(u.Elem()), V: r.V.O.(*Slice).A[i], P: &r.V.O.(*Slice).A[i]}}
		case *types.Array:
			return Value{O: &RValue{T: canon(u.Elem()), V: r.V.O.(*Agg).F[i]}}
		}
		in.unsupported("reflect Index")
		return Value{}
	})
	nat("(reflect.Value).String", func(in *Interp, args []Value, ins *Inst) Value { return in.rv(args[0]).V })
	nat("(reflect.Value).Bool", func(in *Interp, args []Value, ins *Inst) Value { return in.rv(args[0]).V })
	nat("(reflect.Value).Int", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		ti := infoOf(r.T)
		if r.V.O != nil {
			return in.fromTerm(in.pool.Sext(in.term(r.V, ti.w), 64))
		}
		return Value{N: uint64(sext(r.V.N, ti.w))}
	})
	nat("(reflect.Value).Uint", func(in *Interp, args []Value, ins *Inst) Value { return in.rv(args[0]).V })
	nat("(reflect.Value).Float", func(in *Interp, args []Value, ins *Inst) Value { return in.rv(args[0]).V })
	nat("(reflect.Value).Pointer", func(in *Interp, args []Value, ins *Inst) Value {
		r := in.rv(args[0])
		name := "func"
		if c, ok := r.V.O.(*Closure); ok && c.Fn != nil {
			name = c.Fn.name
		}
		in.p.mu.Lock()
		defer in.p.mu.Unlock()
		for i, n := range pcNames {
			if n == name {
				return Value{N: uint64(i)}
			}
		}
		pcNames = append(pcNames, name)
		return Value{N: uint64(len(pcNames) - 1)}
	})
	nat("reflect.Swapper", func(in *Interp, args []Value, ins *Inst) Value {
		s := args[0].O.(*Iface).V
		var a []Value
		if s.O != nil {
			a = s.O.(*Slice).A
		}
		return Value{O: &Closure{Nat: &Native{name: "swap", fn: func(in *Interp, ar []Value, ins *Inst) Value {
			i, j := in.intArg(ar[0], typeInfo{kInt, 64, true}), in.intArg(ar[1], typeInfo{kInt, 64, true})
			x, y := copyVal(a[i]), copyVal(a[j])
			in.store(&a[i], y)
			in.store(&a[j], x)
			return Value{}
		}}}}
	})
	natives["internal/reflectlite.Swapper"] = natives["reflect.Swapper"]
	// only what sort.Slice needs
	nat("internal/reflectlite.ValueOf", func(in *Interp, args []Value, ins *Inst) Value {
		return Value{O: &Agg{[]Value{{}, args[0], {}}}}
	})
	nat("(internal/reflectlite.Value).Len", func(in *Interp, args []Value, ins *Inst) Value {
		s := args[0].O.(*Agg).F[1].O.(*Iface).V
		if s.O == nil {
			return Value{}
		}
		return Value{N: uint64(len(s.O.(*Slice).A))}
	})
	nat("internal/godebug.New", func(in *Interp, args []Value, ins *Inst) Value { return Value{} })
	nat("(*internal/godebug.Setting).Value", func(in *Interp, args []Value, ins *Inst) Value { return Value{} })
	nat("(*internal/godebug.Setting).IncNonDefault", func(in *Interp, args []Value, ins *Inst) Value { return Value{} })

	initSym()
}

var pcNames = []string{"unknown"}
var emptyIface = types.NewInterfaceType(nil, nil).Complete()

func (in *Interp) atomically(f func()) {
	in.excl++
	f()
	in.excl--
}
