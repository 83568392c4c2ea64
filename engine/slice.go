package main

import "math/bits"

// Constraint independence: a query pc ∧ c needs only the constraints of pc that share variables (transitively)
// with c, because the model at hand satisfies the others and stays valid for them when only the variables of the
// slice change. Branch conditions whose slice ranges over few combinations of values are decided by going through
// all of them: a possible branch comes with a model that was evaluated, an excluded one is put to the solver with others
// in one query later (claim, settle). Every other query, and every assertion, is the solver's at once.

type queryRes struct {
	r     satResult
	vars  []*Term
	model []uint64
}

// varsOf returns the variables of t, memoised.
func (p *TermPool) varsOf(t *Term) []*Term {
	if t == nil || t.op == OpConst {
		return nil
	}
	if t.vs != nil {
		return t.vs
	}
	if t.op == OpVar {
		t.vs = []*Term{t}
		return t.vs
	}
	var r []*Term
	for _, x := range []*Term{t.a, t.b, t.c} {
		xs := p.varsOf(x)
		if len(r) == 0 {
			r = xs
			continue
		}
		grown := false
		for _, v := range xs {
			dup := false
			for _, w := range r {
				if w == v {
					dup = true
					break
				}
			}
			if !dup {
				if !grown {
					r = append(make([]*Term, 0, len(r)+len(xs)), r...)
					grown = true
				}
				r = append(r, v)
			}
		}
	}
	t.vs = r
	return r
}

// slice returns the constraints of pc connected to c and the variables of both.
func (in *Interp) slice(pc []*Term, c *Term) (rel []*Term, vars []*Term) {
	p := in.pool
	p.mark++
	add := func(t *Term) {
		for _, v := range p.varsOf(t) {
			if v.mark != p.mark {
				v.mark = p.mark
				vars = append(vars, v)
			}
		}
	}
	add(c)
	if cap(in.sliceIn) < len(pc) {
		in.sliceIn = make([]bool, len(pc)*2)
	}
	used := in.sliceIn[:len(pc)]
	for i := range used {
		used[i] = false
	}
	n := 0
	for {
		changed := false
		for i, t := range pc {
			if used[i] {
				continue
			}
			for _, v := range p.varsOf(t) {
				if v.mark == p.mark {
					used[i] = true
					n++
					m := len(vars)
					add(t)
					if len(vars) > m {
						changed = true
					}
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	rel = make([]*Term, 0, n)
	for i, t := range pc {
		if used[i] {
			rel = append(rel, t)
		}
	}
	return rel, vars
}

// decide reports whether c is possible together with in.pc, which the current model satisfies.
// byValues allows deciding one-variable conditions by evaluating all values.
func (in *Interp) decide(c *Term, byValues bool) (satResult, []uint64) {
	rel, vars := in.slice(in.pc, c)
	if byValues {
		if r, m, ok := in.byValues(rel, c, vars); ok {
			return r, m
		}
	}
	key := termsKey(append([]*Term{c}, rel...))
	q, ok := in.qcache[key]
	if ok {
		in.solver.cached++
	} else {
		r, m := in.solver.check(rel, c, vars)
		q = &queryRes{r: r, vars: vars, model: m}
		if r != rUnknown {
			if in.qcache == nil || len(in.qcache) > 200000 {
				in.qcache = map[string]*queryRes{}
			}
			in.qcache[key] = q
		}
	}
	if q.r != rSat {
		return q.r, nil
	}
	m := append([]uint64(nil), in.model...)
	for _, v := range q.vars {
		for len(m) <= int(v.val) {
			m = append(m, 0)
		}
		m[v.val] = q.model[v.val]
	}
	if !in.satisfies(m, c) {
		// the model at hand did not satisfy the rest: ask the whole question
		in.solver.whole++
		return in.check(c)
	}
	return rSat, m
}

// satisfies reports whether m is a model of in.pc and c.
func (in *Interp) satisfies(m []uint64, c *Term) bool {
	in.pool.gen++
	ok := in.pool.Eval(c, m) == 1
	for i := 0; ok && i < len(in.pc); i++ {
		ok = in.pool.Eval(in.pc[i], m) == 1
	}
	in.pool.gen++
	return ok
}

// valueSet is the set of values of one variable of at most 8 bits.
type valueSet [4]uint64

func (s *valueSet) has(x int) bool { return s[x>>6]>>(uint(x)&63)&1 == 1 }

// values returns the values of t's only variable under which t holds, memoised.
func (in *Interp) values(t *Term) *valueSet {
	p := in.pool
	if s, ok := p.sets[t]; ok {
		return s
	}
	v := p.varsOf(t)[0]
	n := 1 << v.w
	if v.w == 0 {
		n = 2
	}
	m := make([]uint64, v.val+1)
	s := &valueSet{}
	for x := 0; x < n; x++ {
		m[v.val] = uint64(x)
		p.gen++
		if p.Eval(t, m) == 1 {
			s[x>>6] |= 1 << (uint(x) & 63)
		}
	}
	p.gen++
	p.sets[t] = s
	return s
}

// maxNodes bounds the search before the solver is asked instead.
const maxNodes = 1 << 13

// byValues decides a branch condition whose slice ranges over few combinations of values by going through all of
// them; ok is false when there are too many.
func (in *Interp) byValues(rel []*Term, c *Term, vars []*Term) (r satResult, model []uint64, ok bool) {
	if len(vars) == 0 || len(vars) > 16 {
		return 0, nil, false
	}
	p := in.pool
	dom := make([]valueSet, len(vars))
	pos := map[*Term]int{}
	for i, v := range vars {
		if v.w > 8 {
			return 0, nil, false
		}
		n := 1 << v.w
		if v.w == 0 {
			n = 2
		}
		for x := 0; x < n; x++ {
			dom[i][x>>6] |= 1 << (uint(x) & 63)
		}
		pos[v] = i
	}
	// constraints over several variables are looked at once the last of them has a value
	at := make([][]*Term, len(vars))
	place := func(t *Term) {
		vs := p.varsOf(t)
		if len(vs) == 1 {
			s := in.values(t)
			d := &dom[pos[vs[0]]]
			for k := range d {
				d[k] &= s[k]
			}
			return
		}
		last := 0
		for _, v := range vs {
			if pos[v] > last {
				last = pos[v]
			}
		}
		at[last] = append(at[last], t)
	}
	place(c)
	for _, t := range rel {
		place(t)
	}
	nodes := 0
	for i := range dom {
		n := 0
		for _, w := range dom[i] {
			n += bits.OnesCount64(w)
		}
		if n == 0 {
			// the constraints on this variable alone exclude one another
			var own []*Term
			for _, t := range append([]*Term{c}, rel...) {
				if vs := p.varsOf(t); len(vs) == 1 && vs[0] == vars[i] {
					own = append(own, t)
				}
			}
			in.claim(own)
			return rUnsat, nil, true
		}
	}
	m := append([]uint64(nil), in.model...)
	for _, v := range vars {
		for len(m) <= int(v.val) {
			m = append(m, 0)
		}
	}
	var search func(i int) bool
	search = func(i int) bool {
		if i == len(vars) {
			return true
		}
		for x := 0; x < 256; x++ {
			if !dom[i].has(x) {
				continue
			}
			if nodes++; nodes > maxNodes {
				return false
			}
			m[vars[i].val] = uint64(x)
			p.gen++
			good := true
			for _, t := range at[i] {
				if p.Eval(t, m) != 1 {
					good = false
					break
				}
			}
			if good && search(i+1) {
				return true
			}
		}
		return false
	}
	found := search(0)
	p.gen++
	if nodes > maxNodes {
		return 0, nil, false
	}
	if !found {
		in.claim(append([]*Term{c}, rel...))
		return rUnsat, nil, true
	}
	in.solver.byValues++
	if !in.satisfies(m, c) {
		in.solver.whole++
		r, m := in.check(c)
		return r, m, true
	}
	return rSat, m, true
}

func termsKey(ts []*Term) string {
	key := make([]byte, 0, 4*len(ts))
	for _, t := range ts {
		key = append(key, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	return string(key)
}

const claimBatch = 256

// claim records that the conjunction of ts has no model, for the solver to confirm.
func (in *Interp) claim(ts []*Term) {
	in.solver.byValues++
	k := termsKey(ts)
	if in.claimed[k] {
		return
	}
	if in.claimed == nil || len(in.claimed) > 500000 {
		in.claimed = map[string]bool{}
	}
	in.claimed[k] = true
	in.claims = append(in.claims, append([]*Term(nil), ts...))
	if len(in.claims) >= claimBatch {
		in.settle()
	}
}

// settle has the solver confirm the claims made so far: their disjunction has no model.
func (in *Interp) settle() {
	if len(in.claims) == 0 {
		return
	}
	n := len(in.claims)
	r := in.solver.checkNone(in.claims)
	in.claims = in.claims[:0]
	if r != rUnsat {
		in.ex.note(in.hs, "unknown: the solver did not confirm excluded branches")
		return
	}
	in.solver.confirmed += int64(n)
}
