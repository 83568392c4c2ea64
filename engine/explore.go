package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// harnessState collects what the exploration of one harness found.
type harnessState struct {
	name string
	fn   *FnInfo

	mu          sync.Mutex
	paths       int64
	complete    int64
	infeasible  int64
	asserts     int64
	transitions int64
	steps       int64
	covers      map[string]int64
	bounds      map[string][]string // domains of the inputs
	notes       map[string]int64
	samples     []*vector
	seen        int64
	viols       map[string]*violRec
	pending     int // tasks queued or running
	busy        time.Duration
	started     time.Time
	ended       time.Time
}

type violRec struct {
	tried     int
	confirmed int
	known     bool
	vec       *vector
}

// vector is one concrete valuation of the inputs of a harness.
type vector struct {
	Harness string     `json:"harness"`
	Inputs  []vecInput `json:"inputs"`
	Msg     string     `json:"msg,omitempty"`
	Obs     []string   `json:"obs,omitempty"`
	Order   bool       `json:"order_dependent,omitempty"`
	Tier    string     `json:"tier"`
	Repeat  int        `json:"repeat,omitempty"`
}

type vecInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Str  []byte `json:"str,omitempty"`
	Text string `json:"text,omitempty"`
	Int  int64  `json:"int"`
}

type task struct {
	hs     *harnessState
	prefix []Dec
}

// Explorer distributes path prefixes over workers.
type Explorer struct {
	p        *Program
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []task
	idle     int
	nworkers int
	active   int
	done     bool
	stop     bool
	stopWhy  string
	deadline time.Time
	tier     string
	seed     int64
	hs       []*harnessState
	verbose  bool
	traces   int
	inits    []*FnInfo
	onViol   func(hs *harnessState, v *vector) (confirmed bool)
	known    func(hs *harnessState, msg string) bool
	stats    struct {
		queries, sat, unsat, unknown, errors int64
		cached, byValues, confirmed, whole   int64
		solver                               time.Duration
		covered                              map[string]bool
	}
	rng *rand.Rand
}

func (ex *Explorer) cover(hs *harnessState, label string) {
	hs.mu.Lock()
	hs.covers[label]++
	hs.mu.Unlock()
}

func (ex *Explorer) countAssert(hs *harnessState) {
	hs.mu.Lock()
	hs.asserts++
	hs.mu.Unlock()
}

func (ex *Explorer) note(hs *harnessState, msg string) {
	hs.mu.Lock()
	hs.notes[msg]++
	hs.mu.Unlock()
}

func (in *Interp) makeVector(msg string) *vector {
	v := &vector{Harness: in.hs.name, Msg: msg, Tier: in.tier}
	for _, r := range in.inputs {
		x := vecInput{Name: r.Name, Kind: r.Kind}
		switch r.Kind {
		case "order":
			v.Order = true
			continue
		case "str":
			b := []byte(r.S.c)
			for i, t := range r.S.t {
				if t != nil {
					b[i] = byte(in.pool.Eval(t, in.model))
				}
			}
			x.Str = b
			x.Text = fmt.Sprintf("%q", b)
		case "choose":
			x.Int = int64(r.V.N)
		default:
			if t, ok := r.V.O.(*Term); ok {
				x.Int = int64(in.pool.Eval(t, in.model))
			} else {
				x.Int = int64(r.V.N)
			}
		}
		v.Inputs = append(v.Inputs, x)
	}
	for _, o := range in.obs {
		s := o.label
		for _, x := range o.vals {
			s += " " + in.renderObs(x)
		}
		v.Obs = append(v.Obs, s)
	}
	return v
}

// violation reports that msg fails under the current model.
func (in *Interp) violation(msg string) {
	hs := in.hs
	if i := strings.Index(msg, "\n"); i >= 0 {
		msg = msg[:i]
	}
	key := msg
	hs.mu.Lock()
	r := hs.viols[key]
	if r == nil {
		r = &violRec{}
		hs.viols[key] = r
	}
	skip := r.confirmed > 0 || r.tried >= 12
	r.tried++
	hs.mu.Unlock()
	if skip {
		return
	}
	v := in.makeVector(msg)
	if in.ex.verbose {
		fmt.Fprintf(os.Stderr, "candidate %s: %s %s\n", hs.name, msg, vecText(v))
	}
	if in.ex.onViol != nil && in.ex.onViol(hs, v) {
		kn := in.ex.known != nil && in.ex.known(hs, msg)
		hs.mu.Lock()
		r.confirmed++
		r.known = kn
		if r.vec == nil {
			r.vec = v
		}
		hs.mu.Unlock()
		if !kn {
			in.ex.halt("violation")
		}
	}
}

func vecText(v *vector) string {
	var p []string
	for _, x := range v.Inputs {
		if x.Kind == "str" {
			p = append(p, x.Name+"="+x.Text)
		} else {
			p = append(p, fmt.Sprintf("%s=%d", x.Name, x.Int))
		}
	}
	return strings.Join(p, " ")
}

func (ex *Explorer) halt(why string) {
	ex.mu.Lock()
	if !ex.stop {
		ex.stop, ex.stopWhy = true, why
	}
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (ex *Explorer) push(t task) {
	ex.mu.Lock()
	t.hs.mu.Lock()
	t.hs.pending++
	t.hs.mu.Unlock()
	ex.queue = append(ex.queue, t)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) take() (task, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || ex.done {
			return task{}, false
		}
		if len(ex.queue) > 0 {
			t := ex.queue[0]
			ex.queue = ex.queue[1:]
			return t, true
		}
		ex.idle++
		if ex.idle == ex.nworkers {
			ex.done = true
			ex.cond.Broadcast()
			return task{}, false
		}
		ex.cond.Wait()
		ex.idle--
	}
}

func (ex *Explorer) hungry() bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.idle > 0 && len(ex.queue) < ex.idle
}

func (ex *Explorer) run() error {
	ex.cond = sync.NewCond(&ex.mu)
	ex.stats.covered = map[string]bool{}
	ex.rng = rand.New(rand.NewSource(ex.seed))
	for _, h := range ex.hs {
		h.bounds, h.covers, h.notes, h.viols = map[string][]string{}, map[string]int64{}, map[string]int64{}, map[string]*violRec{}
		ex.push(task{hs: h})
	}
	var wg sync.WaitGroup
	errs := make(chan error, ex.nworkers)
	for i := 0; i < ex.nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := ex.worker(); err != nil {
				errs <- err
				ex.halt("engine error")
			}
		}()
	}
	tm := time.AfterFunc(time.Until(ex.deadline), func() { ex.halt("budget") })
	wg.Wait()
	tm.Stop()
	select {
	case err := <-errs:
		return err
	default:
	}
	return nil
}

func (ex *Explorer) worker() (err error) {
	var in *Interp
	fresh := func() error {
		if in != nil {
			ex.collect(in)
			in.solver.close()
		}
		var e error
		in, e = newInterp(ex.p)
		if e != nil {
			return e
		}
		in.ex, in.tier = ex, ex.tier
		in.deadline = ex.deadline
		return in.runInits(ex.inits)
	}
	defer func() {
		if r := recover(); r != nil {
			where := ""
			if in != nil && in.cur != nil {
				where = in.where()
			}
			err = fmt.Errorf("engine: %v @ %s\n%s", r, where, stack())
		}
		if in != nil {
			ex.collect(in)
			in.solver.close()
		}
	}()
	for {
		t, ok := ex.take()
		if in != nil && (!ok || t.hs != in.hs || len(in.pool.list) > 1_500_000) {
			in.settle()
		}
		if !ok {
			return nil
		}
		if in == nil || len(in.pool.list) > 1_500_000 || in.solver.dead {
			if err := fresh(); err != nil {
				return err
			}
		}
		t.hs.mu.Lock()
		if t.hs.started.IsZero() {
			t.hs.started = time.Now()
		}
		t.hs.mu.Unlock()
		t0 := time.Now()
		in.runTask(t)
		stopped := ex.isStopped()
		t.hs.mu.Lock()
		t.hs.busy += time.Since(t0)
		t.hs.ended = time.Now()
		if !stopped {
			t.hs.pending--
		}
		t.hs.mu.Unlock()
	}
}

func (ex *Explorer) isStopped() bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.stop
}

func (ex *Explorer) collect(in *Interp) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	s := in.solver
	ex.stats.queries += s.queries
	ex.stats.cached += s.cached
	ex.stats.byValues += s.byValues
	ex.stats.whole += s.whole
	ex.stats.confirmed += s.confirmed
	ex.stats.sat += s.sat
	ex.stats.unsat += s.unsat
	ex.stats.unknown += s.unknown
	ex.stats.errors += s.errors
	ex.stats.solver += s.time
	for f := range in.covered {
		ex.stats.covered[f.name] = true
	}
}

func (in *Interp) runInits(inits []*FnInfo) error {
	in.conc = true
	in.initing = true
	for _, fi := range inits {
		in.cur = nil
		in.p.ready(fi)
		in.pushFrame(fi, nil, nil, -1, mBase)
		if why := in.run(); why != "complete" {
			return fmt.Errorf("package initialisation of %s: %s", fi.name, why)
		}
	}
	in.conc = false
	in.initing = false
	in.cur = nil
	// the base state is never undone
	in.trail = in.trail[:0]
	in.steps = 0
	return nil
}

func (in *Interp) runTask(t task) {
	in.undoTo(0)
	in.pc = in.pc[:0]
	in.undoFacts(0)
	in.cps = nil
	in.model = nil
	in.pool.gen++
	in.vars, in.inputs, in.obs, in.decisions, in.local = nil, nil, nil, nil, nil
	in.localPos, in.prefPos = 0, 0
	in.prefix = t.prefix
	in.replaying = len(t.prefix) > 0
	in.steps, in.excl, in.shrd, in.mapOrder = 0, 0, 0, 0
	in.frameOn = false
	in.hs = t.hs
	in.cur = nil
	in.p.ready(t.hs.fn)
	in.pushFrame(t.hs.fn, nil, nil, -1, mBase)
	for {
		why := in.run()
		in.endPath(why)
		if in.ex.isStopped() || !in.backtrack() {
			return
		}
	}
}

func (in *Interp) endPath(why string) {
	hs := in.hs
	if in.replaying && in.prefPos >= len(in.prefix) && (why == "complete" || strings.HasPrefix(why, "panic: ") || strings.HasPrefix(why, "unsupported: call depth") || strings.HasPrefix(why, "budget: step limit")) {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if p, ok := r.(pathEnd); ok {
						why = p.why
						return
					}
					panic(r)
				}
			}()
			in.leavePrefix()
		}()
	}
	hs.mu.Lock()
	hs.paths++
	hs.steps += in.steps
	hs.mu.Unlock()
	switch {
	case why == "complete":
		hs.mu.Lock()
		hs.complete++
		hs.seen++
		n := hs.seen
		hs.mu.Unlock()
		keep := in.ex.traces
		in.ex.mu.Lock()
		r := in.ex.rng.Int63n(n)
		in.ex.mu.Unlock()
		if n <= int64(keep) || r < int64(keep) {
			v := in.makeVector("")
			hs.mu.Lock()
			if len(hs.samples) < keep {
				hs.samples = append(hs.samples, v)
			} else {
				hs.samples[int(r)%keep] = v
			}
			hs.mu.Unlock()
		}
	case why == "infeasible":
		hs.mu.Lock()
		hs.infeasible++
		hs.mu.Unlock()
	case strings.HasPrefix(why, "panic: "):
		msg := why
		if i := strings.Index(msg, " @ "); i > 0 {
			if in.ex.verbose {
				fmt.Fprintln(os.Stderr, msg)
			}
			msg = msg[:i]
		}
		in.violation(msg)
	case strings.HasPrefix(why, "unsupported: call depth"):
		// a violation if the real code runs out of stack on this path
		in.violation("panic: the stack overflows")
		in.ex.note(hs, why)
	case strings.HasPrefix(why, "budget: step limit"):
		in.violation("panic: the code does not terminate")
		in.ex.note(hs, why)
	default:
		in.ex.note(hs, why)
	}
}

// backtrack restores the youngest choice point with a feasible open alternative.
func (in *Interp) backtrack() bool {
	for len(in.cps) > 0 {
		if in.ex.isStopped() {
			return false
		}
		if in.ex.hungry() {
			in.donate()
			if len(in.cps) == 0 {
				return false
			}
		}
		cp := in.cps[len(in.cps)-1]
		if len(cp.alts) == 0 {
			in.cps = in.cps[:len(in.cps)-1]
			continue
		}
		a := cp.alts[0]
		cp.alts = cp.alts[1:]
		in.undoTo(cp.trail)
		in.pc = in.pc[:cp.pcLen]
		in.undoFacts(cp.factLen)
		in.decisions = in.decisions[:cp.decLen:cp.decLen]
		in.inputs = in.inputs[:cp.inLen:cp.inLen]
		in.obs = in.obs[:cp.obsLen:cp.obsLen]
		in.vars = in.vars[:cp.nvars:cp.nvars]
		in.excl, in.shrd = cp.excl, cp.shrd
		in.steps = cp.steps
		if in.frameOn && len(in.frameW) > cp.frameN {
			in.frameW = in.frameW[:cp.frameN:cp.frameN]
		}
		in.replaying = false
		in.prefPos = len(in.prefix)
		if a.cond != nil {
			r, m := in.decide(a.cond, true)
			if r == rUnsat {
				continue
			}
			if r == rUnknown {
				in.ex.note(in.hs, "unknown: branch")
				if in.solver.dead {
					in.ex.note(in.hs, "unknown: solver lost")
					in.cps = nil
					return false
				}
				continue
			}
			in.setModel(m)
			in.addPC(a.cond)
		}
		in.hs.mu.Lock()
		in.hs.transitions++
		in.hs.mu.Unlock()
		in.decisions = append(in.decisions, a.d)
		in.local = append(append([]Dec(nil), cp.local...), a.d)
		in.localPos = 0
		in.cur = cp.frame
		if len(cp.alts) > 0 {
			in.cur = cp.frame.clone()
		}
		return true
	}
	return false
}

// donate gives the oldest open alternatives to idle workers.
func (in *Interp) donate() {
	n := 0
	for i := 0; i < len(in.cps) && n < 4; i++ {
		cp := in.cps[i]
		for len(cp.alts) > 0 && n < 4 {
			a := cp.alts[len(cp.alts)-1]
			cp.alts = cp.alts[:len(cp.alts)-1]
			pre := append(append([]Dec(nil), in.decisions[:cp.decLen]...), a.d)
			in.ex.push(task{hs: in.hs, prefix: pre})
			n++
		}
	}
}

// incomplete lists why a harness did not cover its whole bounded space.
func (hs *harnessState) incomplete() []string {
	var r []string
	if hs.pending > 0 {
		r = append(r, fmt.Sprintf("%d path prefixes unexplored", hs.pending))
	}
	for n, c := range hs.notes {
		r = append(r, fmt.Sprintf("%s (%d paths)", n, c))
	}
	for m, v := range hs.viols {
		if v.confirmed == 0 {
			r = append(r, fmt.Sprintf("candidate not reproduced by the real code: %s (%d)", m, v.tried))
		}
	}
	sort.Strings(r)
	return r
}
