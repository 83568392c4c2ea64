package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process. Constraints form a stack; Sync makes the solver's stack equal to the wanted one.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stack []*Term
	pool  *TermPool
	sb    strings.Builder

	queries   int64
	sat       int64
	unsat     int64
	unknown   int64
	errors    int64
	time      time.Duration
	cached    int64 // answered from an identical earlier query
	byValues  int64 // branch conditions decided by going through all values
	confirmed int64 // excluded branches confirmed by the solver in batches
	whole     int64 // sliced queries asked again as a whole
	dump      io.Writer
	dead      bool
	lastUsed  int
}

func newSolver(pool *TermPool) (*Solver, error) {
	s := &Solver{pool: pool}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	io.WriteString(s.in, "(set-option :global-declarations true)\n(set-option :timeout 20000)\n(set-option :produce-models true)\n")
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(&s.sb, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.pool.define(t, &s.sb)
		fmt.Fprintf(&s.sb, "(push 1)\n(assert %s)\n", t.ref())
		s.stack = append(s.stack, t)
	}
}

type satResult int

const (
	rUnsat satResult = iota
	rSat
	rUnknown
)

// check decides pc ∧ extra. With sat it returns values for vars.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (satResult, []uint64) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	if s.dead {
		s.unknown++
		return rUnknown, nil
	}
	s.sync(pc)
	if extra != nil {
		s.pool.define(extra, &s.sb)
		fmt.Fprintf(&s.sb, "(push 1)\n(assert %s)\n", extra.ref())
	}
	for _, v := range vars {
		s.pool.define(v, &s.sb)
	}
	s.sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, s.sb.String()); err != nil {
		s.dead = true
	}
	if s.dump != nil {
		io.WriteString(s.dump, s.sb.String())
	}
	s.sb.Reset()
	res := rUnknown
	var model []uint64
	line := s.readLine()
	switch {
	case line == "sat":
		res = rSat
		s.sat++
	case line == "unsat":
		res = rUnsat
		s.unsat++
	default:
		s.unknown++
		if strings.HasPrefix(line, "(error") {
			s.errors++
			s.dead = true
		}
	}
	if res == rSat && len(vars) > 0 {
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range vars {
			q.WriteString(v.ref())
			q.WriteByte(' ')
		}
		q.WriteString("))\n")
		io.WriteString(s.in, q.String())
		model = s.readModel(vars)
		if model == nil {
			res = rUnknown
		}
	}
	if extra != nil {
		s.sb.WriteString("(pop 1)\n")
	}
	return res, model
}

// checkNone decides whether any of the conjunctions has a model.
func (s *Solver) checkNone(claims [][]*Term) satResult {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	if s.dead {
		s.unknown++
		return rUnknown
	}
	s.sync(nil)
	for _, c := range claims {
		for _, t := range c {
			s.pool.define(t, &s.sb)
		}
	}
	s.sb.WriteString("(push 1)\n(assert (or")
	for _, c := range claims {
		s.sb.WriteString(" (and")
		for _, t := range c {
			s.sb.WriteByte(' ')
			s.sb.WriteString(t.ref())
		}
		s.sb.WriteByte(')')
	}
	s.sb.WriteString("))\n(check-sat)\n")
	if _, err := io.WriteString(s.in, s.sb.String()); err != nil {
		s.dead = true
	}
	if s.dump != nil {
		io.WriteString(s.dump, s.sb.String())
	}
	s.sb.Reset()
	s.sb.WriteString("(pop 1)\n")
	switch line := s.readLine(); {
	case line == "sat":
		s.sat++
		return rSat
	case line == "unsat":
		s.unsat++
		return rUnsat
	default:
		s.unknown++
		if strings.HasPrefix(line, "(error") {
			s.errors++
			s.dead = true
		}
		return rUnknown
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "(error eof"
	}
	return strings.TrimSpace(l)
}

// readModel parses ((v0_8 #x41) (v1_0 true) ...).
func (s *Solver) readModel(vars []*Term) []uint64 {
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return nil
		}
		for i := 0; i < len(l); i++ {
			if l[i] == '(' {
				depth++
			} else if l[i] == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		if depth == 0 {
			break
		}
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		s.errors++
		s.dead = true
		return nil
	}
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	maxIdx := 0
	for _, v := range vars {
		if int(v.val) > maxIdx {
			maxIdx = int(v.val)
		}
	}
	model := make([]uint64, maxIdx+1)
	for i := 0; i+1 < len(f); i += 2 {
		name := f[i]
		if name[0] != 'v' {
			return nil
		}
		idx, err := strconv.Atoi(name[1:strings.IndexByte(name, '_')])
		if err != nil {
			return nil
		}
		var v uint64
		switch val := f[i+1]; {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value")
		}
		if err != nil {
			return nil
		}
		model[idx] = v
	}
	return model
}
