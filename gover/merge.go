package main

import (
	"strings"
	"sync"
)

// Joining the return states of an inlined call. The join is exact: every
// component is an if-then-else over the conditions that separate the paths.

type retState struct {
	st  *State
	res []Val
}

func sameGens(a, b *State) bool {
	if len(a.gens) != len(b.gens) {
		return false
	}
	for i := range a.gens {
		if a.gens[i].id != b.gens[i].id {
			return false
		}
	}
	return true
}

func (s *State) same(o *State, k string) bool {
	a, ok := s.heap[k]
	b, ok2 := o.heap[k]
	if ok && ok2 {
		return a == b
	}
	if !ok && !ok2 {
		return true
	}
	if ok {
		return a == o.get(k, a.Sort)
	}
	return b == s.get(k, b.Sort)
}

func joinable(a, b retState) bool {
	if !sameGens(a.st, b.st) || len(a.st.racy) > 0 || len(b.st.racy) > 0 {
		return false
	}
	for _, m := range []map[string]*Term{a.st.heap, b.st.heap} {
		for k := range m {
			if k == "LK" || strings.HasPrefix(k, "T:") || strings.HasPrefix(k, "W:") {
				if !a.st.same(b.st, k) {
					return false
				}
			}
		}
	}
	for i := range a.res {
		if !joinableVal(a.res[i], b.res[i]) {
			return false
		}
	}
	return true
}

func joinableVal(a, b Val) bool {
	if a.Addr != nil || b.Addr != nil {
		return a.Addr == b.Addr
	}
	if a.Fn != nil || b.Fn != nil {
		return a.Fn == b.Fn
	}
	if (a.T == nil) != (b.T == nil) || len(a.F) != len(b.F) {
		return false
	}
	for i := range a.F {
		if !joinableVal(a.F[i], b.F[i]) {
			return false
		}
	}
	return true
}

func (x *Exec) joinVal(s *State, c *Term, a, b Val) Val {
	if a.Addr != nil || a.Fn != nil {
		return a
	}
	if a.T != nil {
		return TV(x.joinTerm(s, c, a.T, b.T))
	}
	v := Val{F: []Val{}}
	for i := range a.F {
		v.F = append(v.F, x.joinVal(s, c, a.F[i], b.F[i]))
	}
	return v
}

func storeChain(t *Term) (base *Term, idx []*Term) {
	for t.Op == "store" {
		idx = append(idx, t.Args[1])
		t = t.Args[0]
	}
	return t, idx
}

func (x *Exec) joinTerm(s *State, c, a, b *Term) *Term {
	if a == b {
		return a
	}
	switch a.Sort {
	case SIface:
		return MkI(x.joinTerm(s, c, ITyp(a), ITyp(b)), x.joinTerm(s, c, IVal(a), IVal(b)))
	case SSlice:
		return MkS(x.joinTerm(s, c, SBase(a), SBase(b)), x.joinTerm(s, c, SOff(a), SOff(b)), x.joinTerm(s, c, SLen(a), SLen(b)), x.joinTerm(s, c, SCap(a), SCap(b)))
	case SInt:
		t := Ite(c, a, b)
		if t.Op != "ite" {
			return t
		}
		m := x.fresh("join", SInt)
		if v := x.interval(t, 0); v.lo != nil || v.hi != nil {
			x.rng[m] = v
		}
		s.assume(Implies(c, Eq(m, a)))
		s.assume(Implies(Not(c), Eq(m, b)))
		return m
	}
	if strings.HasPrefix(string(a.Sort), "(Array") {
		ba, ia := storeChain(a)
		bb, ib := storeChain(b)
		if ba == bb {
			// innermost stores first, so the outcome is in the usual order
			t := ba
			done := map[*Term]bool{}
			for _, l := range [][]*Term{ia, ib} {
				for i := len(l) - 1; i >= 0; i-- {
					if done[l[i]] {
						continue
					}
					done[l[i]] = true
					t = mkStore(t, l[i], x.joinTerm(s, c, Select(a, l[i]), Select(b, l[i])))
				}
			}
			return t
		}
	}
	return Ite(c, a, b)
}

func mkStore(a, i, v *Term) *Term {
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", "", a.Sort, nil, a, i, v)
}

func guarded(c, f *Term) *Term {
	if f.Op == "=>" {
		return Implies(And(c, f.Args[0]), f.Args[1])
	}
	return Implies(c, f)
}

// join2 joins two states whose common path condition is the first n elements.
func (x *Exec) join2(c *Term, a, b retState, n int) retState {
	noteJoin(c)
	s := &State{pc: a.st.pc[:n:n], pcset: map[*Term]bool{}, heap: map[string]*Term{}, gens: a.st.gens, A: nil}
	for _, t := range s.pc {
		s.pcset[t] = true
	}
	for _, t := range a.st.pc[n:] {
		if b.st.pcset[t] {
			s.assume(t)
		} else {
			s.assume(guarded(c, t))
		}
	}
	for _, t := range b.st.pc[n:] {
		if !a.st.pcset[t] {
			s.assume(guarded(Not(c), t))
		}
	}
	s.A = x.joinTerm(s, c, a.st.A, b.st.A)
	for _, k := range sortedKeys(a.st.heap) {
		t := a.st.heap[k]
		s.heap[k] = x.joinTerm(s, c, t, b.st.get(k, t.Sort))
	}
	for _, k := range sortedKeys(b.st.heap) {
		t := b.st.heap[k]
		if _, ok := a.st.heap[k]; !ok {
			s.heap[k] = x.joinTerm(s, c, a.st.get(k, t.Sort), t)
		}
	}
	r := retState{st: s}
	for i := range a.res {
		r.res = append(r.res, x.joinVal(s, c, a.res[i], b.res[i]))
	}
	return r
}

func (x *Exec) joinAll(rs []retState) retState {
	if len(rs) == 1 {
		return rs[0]
	}
	// common prefix
	n := 0
	for {
		ok := n < len(rs[0].st.pc)
		for _, r := range rs {
			if !ok || n >= len(r.st.pc) || r.st.pc[n] != rs[0].st.pc[n] {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		n++
	}
	var c *Term
	var yes, no []retState
	if n < len(rs[0].st.pc) {
		c = rs[0].st.pc[n]
		nc := Not(c)
		for _, r := range rs {
			switch {
			case n < len(r.st.pc) && r.st.pc[n] == c:
				yes = append(yes, r)
			case n < len(r.st.pc) && r.st.pc[n] == nc:
				no = append(no, r)
			default:
				c = nil
			}
			if c == nil {
				break
			}
		}
	}
	if c == nil || len(yes) == 0 || len(no) == 0 {
		c = x.fresh("join", SBool)
		yes, no = rs[:1], rs[1:]
	}
	return x.join2(c, x.joinAll(yes), x.joinAll(no), n)
}

// joined runs body, which passes every return state to its continuation, and
// continues once per group of states that can be joined.
func (x *Exec) joined(body func(k func(*State, []Val)), k func(*State, []Val)) {
	var groups [][]retState
	body(func(st *State, res []Val) {
		r := retState{st, res}
		for i, g := range groups {
			if joinable(g[0], r) {
				groups[i] = append(g, r)
				return
			}
		}
		groups = append(groups, []retState{r})
	})
	for _, g := range groups {
		r := x.joinAll(g)
		k(r.st, r.res)
	}
}

// joinConds: the conditions over which states were joined
var joinConds sync.Map

func noteJoin(c *Term) {
	for c.Op == "not" {
		c = c.Args[0]
	}
	joinConds.Store(c, true)
}

// splitCond picks a join condition the goal depends on.
func splitCond(hyp []*Term, goal *Term) *Term {
	var c *Term
	syms := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || c != nil {
			return
		}
		seen[t] = true
		if t.Op == "ite" {
			d := t.Args[0]
			for d.Op == "not" {
				d = d.Args[0]
			}
			if _, ok := joinConds.Load(d); ok && !d.Bound {
				c = d
				return
			}
		}
		if t.Op == "sym" && strings.HasPrefix(t.Name, "join!") && t.Sort == SInt {
			syms[t] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(goal)
	if c != nil || len(syms) == 0 {
		return c
	}
	for _, h := range hyp {
		if h.Op != "=>" || h.Args[1].Op != "=" || !(syms[h.Args[1].Args[0]] || syms[h.Args[1].Args[1]]) {
			continue
		}
		d := h.Args[0]
		for d.Op == "not" {
			d = d.Args[0]
		}
		if _, ok := joinConds.Load(d); ok {
			return d
		}
	}
	return nil
}

// assumeCase specialises hypotheses and goal to the case c = v.
func assumeCase(hyp []*Term, goal, c *Term, v bool) ([]*Term, *Term) {
	m := map[*Term]*Term{c: BoolT(v)}
	lit := c
	if !v {
		lit = Not(c)
	}
	out := []*Term{lit}
	g := Subst(goal, m)
	for _, h := range hyp {
		t := Subst(h, m)
		if t == True {
			continue
		}
		if t.Op == "and" {
			out = append(out, t.Args...)
			continue
		}
		out = append(out, t)
	}
	for {
		eq := map[*Term]*Term{}
		for _, h := range out {
			if h.Op != "=" {
				continue
			}
			a, b := h.Args[0], h.Args[1]
			if !(b.Op == "sym" && strings.HasPrefix(b.Name, "join!")) {
				a, b = b, a
			}
			if b.Op == "sym" && strings.HasPrefix(b.Name, "join!") && !occurs(b, a) {
				eq[b] = a
				break
			}
		}
		if len(eq) == 0 {
			return out, g
		}
		g = Subst(g, eq)
		var n []*Term
		for _, h := range out {
			t := Subst(h, eq)
			if t != True {
				n = append(n, t)
			}
		}
		out = n
	}
}

func occurs(s, t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == s {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}
