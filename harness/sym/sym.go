// Package sym is the interface between the harnesses and the symbolic engine. The bodies below run natively when a
// solver model is replayed against the real code; the engine intercepts every function of this package.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Str  []byte `json:"str"`
	Int  int64  `json:"int"`
}

// Vector is one valuation.
type Vector struct {
	Harness string   `json:"harness"`
	Inputs  []input  `json:"inputs"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Order   bool     `json:"order_dependent"`
	Tier    string   `json:"tier"`
	Repeat  int      `json:"repeat"`
}

type stop struct{ why string }

var (
	cur  *Vector
	pos  int
	obs  []string
	fail string
)

func next(name, kind string) *input {
	if pos >= len(cur.Inputs) {
		panic(stop{"diverged: no input for " + name})
	}
	in := &cur.Inputs[pos]
	pos++
	if in.Name != name || in.Kind != kind {
		panic(stop{"diverged: wanted " + name + ", have " + in.Name})
	}
	return in
}

// Str is an arbitrary string of lo..hi arbitrary bytes.
func Str(name string, lo, hi int) string { return string(next(name, "str").Str) }

// StrIn is an arbitrary string of lo..hi bytes drawn from alphabet.
func StrIn(name, alphabet string, lo, hi int) string { return string(next(name, "str").Str) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name, "bool").Int != 0 }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name, "int").Int) }

// Int is an arbitrary integer in lo..hi.
func Int(name string, lo, hi int) int { return int(next(name, "int").Int) }

// Choose splits into n cases.
func Choose(name string, n int) int {
	if n <= 1 {
		next(name, "choose")
		return 0
	}
	return int(next(name, "choose").Int)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c && fail == "" {
		fail = msg
		panic(stop{"assert"})
	}
}

// Fail is a violated property.
func Fail(msg string) { Assert(false, msg) }

// Stop ends the path.
func Stop() { panic(stop{"complete"}) }

// Concretize forks on c.
func Concretize(c bool) bool { return c }

// Cover marks a place that must be reached.
func Cover(label string) {}

// MapOrder makes the iteration order of maps of at most n entries arbitrary (0: insertion order).
func MapOrder(n int) {}

// Symbolic reports whether the engine is running the harness.
func Symbolic() bool { return false }

// Thorough reports the tier.
func Thorough() bool { return cur != nil && cur.Tier == "thorough" }

// FrameBegin and FrameEnd bracket a region whose writes to memory that existed before are recorded.
func FrameBegin() {}

// FrameEnd returns the recorded writes.
func FrameEnd() []string { return nil }

// Observe logs values; engine and native logs are compared.
func Observe(label string, vals ...interface{}) {
	s := label
	for _, v := range vals {
		s += " " + render(v)
	}
	obs = append(obs, s)
}

func render(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", x)
	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return fmt.Sprint(x)
	case []string:
		r := "["
		for i, s := range x {
			if i > 0 {
				r += " "
			}
			r += fmt.Sprintf("%q", s)
		}
		return r + "]"
	case [][]string:
		r := "["
		for i, s := range x {
			if i > 0 {
				r += " "
			}
			r += render(s)
		}
		return r + "]"
	}
	return "obj"
}

// Result of one native run.
type Result struct {
	Index   int      `json:"index"`
	Outcome string   `json:"outcome"` // complete, assume, assert, panic, diverged
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Trace   string   `json:"trace"`
	Runs    int      `json:"runs"`
}

// Reset is called before every run.
var Reset func()

func run(v *Vector, fn func()) (r Result) {
	cur, pos, obs, fail = v, 0, nil, ""
	if Reset != nil {
		Reset()
	}
	defer func() {
		r.Obs = obs
		if e := recover(); e != nil {
			if s, ok := e.(stop); ok {
				r.Outcome = s.why
				r.Msg = fail
				if i := strings.Index(s.why, ":"); i > 0 {
					r.Outcome, r.Msg = s.why[:i], s.why
				}
				return
			}
			r.Outcome = "panic"
			r.Msg = fmt.Sprint(e)
			r.Trace = string(debug.Stack())
		}
	}()
	fn()
	r.Outcome = "complete"
	return
}

// Main replays the vectors of a file: replay FILE
func Main(reg map[string]func()) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: replay FILE")
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var vs []*Vector
	if err := json.Unmarshal(b, &vs); err != nil {
		var v Vector
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		vs = []*Vector{&v}
	}
	out := json.NewEncoder(os.Stdout)
	for i, v := range vs {
		fn := reg[v.Harness]
		if fn == nil {
			out.Encode(Result{Index: i, Outcome: "missing", Msg: v.Harness})
			continue
		}
		n := v.Repeat
		if n < 1 {
			n = 1
		}
		var r Result
		t0 := time.Now()
		for k := 0; k < n; k++ {
			r = run(v, fn)
			r.Runs = k + 1
			if r.Outcome == "assert" || r.Outcome == "panic" || time.Since(t0) > 20*time.Second {
				break
			}
		}
		r.Index = i
		out.Encode(r)
	}
}
