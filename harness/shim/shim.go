// Package shim holds Go models of standard library functions whose real bodies the engine does not execute
// (reflection-driven formatting, runtime-assisted containers). A "//shim:NAME" comment names the function replaced.
// The models never run natively.
package shim

import (
	"errors"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"fvh/vfs"
)

// RuntimeError is the value of run-time panics under the engine.
type RuntimeError struct{ msg string }

func (e RuntimeError) Error() string { return e.msg }

// RuntimeError marks the type as a runtime.Error.
func (e RuntimeError) RuntimeError() {}

// Keep references RuntimeError so that its methods are built.
var Keep error = RuntimeError{"keep"}

type wrapped struct {
	msg string
	err error
}

func (w *wrapped) Error() string { return w.msg }
func (w *wrapped) Unwrap() error { return w.err }

//shim:fmt.Errorf
func errorf(format string, args ...interface{}) error {
	msg := sprintf(format, args...)
	ai := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
				i++
			}
			if i < len(format) && format[i] == '%' {
				continue
			}
			if i < len(format) && format[i] == 'w' && ai < len(args) {
				if e, ok := args[ai].(error); ok {
					return &wrapped{msg, e}
				}
			}
			ai++
		}
	}
	return errors.New(msg)
}

//shim:fmt.Sprintf
func sprintf(format string, args ...interface{}) string {
	out := ""
	ai := 0
	start := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		out += format[start:i]
		i++
		plus, sharp, left, zero, dot := false, false, false, false, false
		width, prec := 0, 0
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			switch c := format[i]; {
			case c == '+':
				plus = true
			case c == '#':
				sharp = true
			case c == '-':
				left = true
			case c == '.':
				dot = true
			case c == ' ':
			case dot:
				prec = prec*10 + int(c-'0')
			case c == '0' && width == 0:
				zero = true
			default:
				width = width*10 + int(c-'0')
			}
			i++
		}
		start = i + 1
		if i >= len(format) {
			out += "%!(NOVERB)"
			start = i
			break
		}
		verb := format[i]
		if verb == '%' {
			out += "%"
			continue
		}
		if ai >= len(args) {
			out += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		if dot {
			switch x := args[ai].(type) {
			case string:
				if n := 0; verb == 's' || verb == 'v' || verb == 'q' {
					for k := range x {
						if n == prec {
							x = x[:k]
							break
						}
						n++
					}
				}
				out += pad(one(verb, plus, sharp, x), width, left, zero)
				ai++
				continue
			case float64:
				if verb == 'f' || verb == 'e' || verb == 'g' {
					out += pad(strconv.FormatFloat(x, verb, prec, 64), width, left, zero)
					ai++
					continue
				}
			}
		}
		out += pad(one(verb, plus, sharp, args[ai]), width, left, zero)
		ai++
	}
	if start < len(format) {
		out += format[start:]
	}
	if ai < len(args) {
		out += "%!(EXTRA "
		for k, a := range args[ai:] {
			if k > 0 {
				out += ", "
			}
			out += typeName(a) + "=" + one('v', false, false, a)
		}
		out += ")"
	}
	return out
}

func pad(s string, width int, left, zero bool) string {
	if width == 0 {
		return s
	}
	n := width
	for range s {
		n--
	}
	sign := ""
	if zero && !left && s != "" && (s[0] == '-' || s[0] == '+') {
		sign, s = s[:1], s[1:]
	}
	for ; n > 0; n-- {
		if left {
			s += " "
		} else if zero {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return sign + s
}

func hex(s string, upper bool) string {
	digits := "0123456789abcdef"
	if upper {
		digits = "0123456789ABCDEF"
	}
	r := ""
	for i := 0; i < len(s); i++ {
		r += string(digits[s[i]>>4]) + string(digits[s[i]&15])
	}
	return r
}

type stringer interface{ String() string }

func typeName(a interface{}) string {
	switch a.(type) {
	case nil:
		return "<nil>"
	case string:
		return "string"
	case bool:
		return "bool"
	case int:
		return "int"
	case float64:
		return "float64"
	case []string:
		return "[]string"
	case error:
		return "error"
	}
	return "T"
}

func one(verb byte, plus, sharp bool, a interface{}) string {
	if verb == 'T' {
		return typeName(a)
	}
	switch x := a.(type) {
	case nil:
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(rune(verb)) + "(<nil>)"
	case error:
		if verb == 'q' {
			return strconv.Quote(x.Error())
		}
		return x.Error()
	case stringer:
		if verb == 'q' {
			return strconv.Quote(x.String())
		}
		return x.String()
	case string:
		if verb == 'q' || sharp && verb == 'v' {
			return strconv.Quote(x)
		}
		switch verb {
		case 'd', 'c', 't', 'f':
			return "%!" + string(rune(verb)) + "(string=" + x + ")"
		case 'x', 'X':
			return hex(x, verb == 'X')
		}
		return x
	case bool:
		if x {
			return "true"
		}
		return "false"
	case int:
		return intStr(verb, int64(x))
	case int8:
		return intStr(verb, int64(x))
	case int16:
		return intStr(verb, int64(x))
	case int32:
		return intStr(verb, int64(x))
	case int64:
		return intStr(verb, x)
	case uint:
		return strconv.FormatUint(uint64(x), 10)
	case uint8:
		return strconv.FormatUint(uint64(x), 10)
	case uint16:
		return strconv.FormatUint(uint64(x), 10)
	case uint32:
		return strconv.FormatUint(uint64(x), 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case float64:
		if verb == 'f' {
			return strconv.FormatFloat(x, 'f', 6, 64)
		}
		return strconv.FormatFloat(x, 'g', -1, 64)
	case float32:
		return strconv.FormatFloat(float64(x), 'g', -1, 32)
	case []byte:
		switch verb {
		case 's':
			return string(x)
		case 'q':
			return strconv.Quote(string(x))
		case 'x', 'X':
			return hex(string(x), verb == 'X')
		}
		r := "["
		for i, c := range x {
			if i > 0 {
				r += " "
			}
			r += intStr(verb, int64(c))
		}
		return r + "]"
	case []string:
		if sharp && verb == 'v' {
			if x == nil {
				return "[]string(nil)"
			}
			r := "[]string{"
			for i, s := range x {
				if i > 0 {
					r += ", "
				}
				r += strconv.Quote(s)
			}
			return r + "}"
		}
		r := "["
		for i, s := range x {
			if i > 0 {
				r += " "
			}
			r += one(verb, plus, sharp, s)
		}
		return r + "]"
	case []interface{}:
		r := "["
		for i, s := range x {
			if i > 0 {
				r += " "
			}
			r += one(verb, plus, sharp, s)
		}
		return r + "]"
	}
	return kindString(verb, plus, sharp, a)
}

// kindString formats values of other types, "obj" if they have no simple form.
func kindString(verb byte, plus, sharp bool, a interface{}) string {
	switch x := a.(type) {
	case [][]string:
		r := "["
		for i, s := range x {
			if i > 0 {
				r += " "
			}
			r += one(verb, plus, false, s)
		}
		return r + "]"
	case map[string]string:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		r := "map["
		for i, k := range keys {
			if i > 0 {
				r += " "
			}
			r += one(verb, plus, false, k) + ":" + one(verb, plus, false, x[k])
		}
		return r + "]"
	}
	v := reflect.ValueOf(a)
	switch v.Kind() {
	case reflect.String:
		return one(verb, plus, sharp, v.String())
	case reflect.Bool:
		return one(verb, plus, sharp, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return intStr(verb, v.Int())
	case reflect.Float64:
		return one(verb, plus, sharp, v.Float())
	}
	return "obj"
}

func intStr(verb byte, x int64) string {
	switch verb {
	case 'c':
		return string(rune(x))
	case 'x':
		return strconv.FormatInt(x, 16)
	case 'X':
		return strings.ToUpper(strconv.FormatInt(x, 16))
	case 'b':
		return strconv.FormatInt(x, 2)
	case 'o':
		return strconv.FormatInt(x, 8)
	case 'U':
		return "U+" + pad(strings.ToUpper(strconv.FormatInt(x, 16)), 4, false, true)
	case 'q':
		return strconv.QuoteRune(rune(x))
	}
	return strconv.FormatInt(x, 10)
}

//shim:fmt.Sprint
func sprint(args ...interface{}) string {
	out := ""
	prevStr := true
	for i, a := range args {
		_, isStr := a.(string)
		if i > 0 && !isStr && !prevStr {
			out += " "
		}
		out += one('v', false, false, a)
		prevStr = isStr
	}
	return out
}

//shim:fmt.Sprintln
func sprintln(args ...interface{}) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += one('v', false, false, a)
	}
	return out + "\n"
}

//shim:fmt.Fprintf
func fprintf(w io.Writer, format string, args ...interface{}) (int, error) {
	return w.Write([]byte(sprintf(format, args...)))
}

//shim:fmt.Fprint
func fprint(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(sprint(args...)))
}

//shim:fmt.Fprintln
func fprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(sprintln(args...)))
}

//shim:fmt.Printf
func printf(format string, args ...interface{}) (int, error) { return 0, nil }

//shim:fmt.Print
func print_(args ...interface{}) (int, error) { return 0, nil }

//shim:fmt.Println
func println_(args ...interface{}) (int, error) { return 0, nil }

// --- sync.Map: a side table from the map's address to a plain map ---

type smap struct{ m map[interface{}]interface{} }

var smaps = map[*sync.Map]*smap{}

func table(m *sync.Map) *smap {
	if m == nil {
		panic(RuntimeError{"runtime error: invalid memory address or nil pointer dereference"})
	}
	t, ok := smaps[m]
	if !ok {
		t = &smap{map[interface{}]interface{}{}}
		smaps[m] = t
	}
	return t
}

//shim:(*sync.Map).Load
func mapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := table(m).m[k]
	return v, ok
}

//shim:(*sync.Map).Store
func mapStore(m *sync.Map, k, v interface{}) { table(m).m[k] = v }

//shim:(*sync.Map).Delete
func mapDelete(m *sync.Map, k interface{}) { delete(table(m).m, k) }

//shim:(*sync.Map).LoadOrStore
func mapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	t := table(m)
	if old, ok := t.m[k]; ok {
		return old, true
	}
	t.m[k] = v
	return v, false
}

//shim:(*sync.Map).LoadAndDelete
func mapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	t := table(m)
	old, ok := t.m[k]
	delete(t.m, k)
	return old, ok
}

//shim:(*sync.Map).Swap
func mapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	t := table(m)
	old, ok := t.m[k]
	t.m[k] = v
	return old, ok
}

//shim:(*sync.Map).CompareAndSwap
func mapCompareAndSwap(m *sync.Map, k, old, v interface{}) bool {
	t := table(m)
	if cur, ok := t.m[k]; ok && cur == old {
		t.m[k] = v
		return true
	}
	return false
}

//shim:(*sync.Map).CompareAndDelete
func mapCompareAndDelete(m *sync.Map, k, old interface{}) bool {
	t := table(m)
	if cur, ok := t.m[k]; ok && cur == old {
		delete(t.m, k)
		return true
	}
	return false
}

//shim:(*sync.Map).Clear
func mapClear(m *sync.Map) { table(m).m = map[interface{}]interface{}{} }

//shim:(*sync.Map).Range
func mapRange(m *sync.Map, fn func(k, v interface{}) bool) {
	for k, v := range table(m).m {
		if !fn(k, v) {
			return
		}
	}
}

//shim:(*sync.Pool).Get
func poolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

//shim:(*sync.Pool).Put
func poolPut(p *sync.Pool, x interface{}) {}


//shim:(github.com/go-ini/ini.sourceFile).ReadCloser
func iniOpen(s struct{ name string }) (io.ReadCloser, error) {
	f, err := vfs.Open(s.name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

//shim:os.IsNotExist
func isNotExist(err error) bool { return vfs.IsNotExist(err) }

// jsonString is the form encoding/json gives a string.
func jsonString(s string) string {
	r := "\""
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case c == '"' || c == '\\':
			r += "\\" + string(c)
		case c == '\b':
			r += "\\b"
		case c == '\f':
			r += "\\f"
		case c == '\n':
			r += "\\n"
		case c == '\r':
			r += "\\r"
		case c == '\t':
			r += "\\t"
		case c < ' ' || c == '<' || c == '>' || c == '&':
			r += "\\u00" + hex(string(c), false)
		case c == '\u2028':
			r += "\\u2028"
		case c == '\u2029':
			r += "\\u2029"
		case c == utf8.RuneError:
			r += "\ufffd"
		default:
			r += s[i : i+n]
		}
		i += n
	}
	return r + "\""
}

//shim:encoding/json.Marshal
func jsonMarshal(a interface{}) ([]byte, error) {
	switch x := a.(type) {
	case nil:
		return []byte("null"), nil
	case string:
		return []byte(jsonString(x)), nil
	case bool:
		return []byte(one('v', false, false, x)), nil
	case int:
		return []byte(strconv.Itoa(x)), nil
	case []string:
		if x == nil {
			return []byte("null"), nil
		}
		r := "["
		for i, s := range x {
			if i > 0 {
				r += ","
			}
			r += jsonString(s)
		}
		return []byte(r + "]"), nil
	case [][]string:
		if x == nil {
			return []byte("null"), nil
		}
		r := "["
		for i, l := range x {
			if i > 0 {
				r += ","
			}
			b, _ := jsonMarshal(l)
			r += string(b)
		}
		return []byte(r + "]"), nil
	case []interface{}:
		if x == nil {
			return []byte("null"), nil
		}
		r := "["
		for i, l := range x {
			if i > 0 {
				r += ","
			}
			b, _ := jsonMarshal(l)
			r += string(b)
		}
		return []byte(r + "]"), nil
	}
	unsupported("json.Marshal of another type")
	return nil, nil
}

// unsupported is replaced by the engine: the path ends as outside of what is encoded.
func unsupported(msg string) {}
