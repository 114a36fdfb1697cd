package main

import (
	"sort"
	"strings"
)

// Ground instances of quantified assumptions, found by matching array indexes
// modulo linear arithmetic (the solvers' own matching is syntactic). Instances
// are consequences of the assumptions, so adding them is sound.

type pat struct{ arr, idx *Term }

// indexed: array reads and applications of unary specification functions
func indexed(t *Term) (pat, bool) {
	if t.Op == "select" && !t.Args[0].Bound && t.Args[1].Sort == SInt {
		return pat{t.Args[0], t.Args[1]}, true
	}
	if t.Op == "app" && len(t.Args) == 1 && t.Args[0].Sort == SInt && strings.HasPrefix(t.Name, "u:") {
		return pat{Sym("fn:"+t.Name, SInt), t.Args[0]}, true
	}
	return pat{}, false
}

type quant struct {
	guards []*Term
	v      *Term
	body   *Term
	pats   []pat // indexed terms of the body whose array (or function) is ground
}

func collectQuants(t *Term, guards []*Term, out *[]quant) {
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			collectQuants(a, guards, out)
		}
	case "=>":
		collectQuants(t.Args[1], append(append([]*Term{}, guards...), t.Args[0]), out)
	case "forall":
		if len(t.Args) != 2 || t.Args[0].Sort != SInt {
			return
		}
		q := quant{guards: guards, v: t.Args[0], body: t.Args[1]}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] || !t.Bound {
				return
			}
			seen[t] = true
			if p, ok := indexed(t); ok && p.idx.Bound {
				q.pats = append(q.pats, p)
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(q.body)
		*out = append(*out, q)
	}
}

func groundSelects(ts []*Term, seen map[*Term]bool, out map[*Term][]*Term) {
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if p, ok := indexed(t); ok && !t.Bound {
			out[p.arr] = append(out[p.arr], p.idx)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
}

func instances(pc []*Term, goals []*Term, rounds, limit int) []*Term {
	var qs []quant
	for _, p := range pc {
		collectQuants(p, nil, &qs)
	}
	if len(qs) == 0 {
		return nil
	}
	var out []*Term
	have := map[*Term]bool{}
	sel := map[*Term][]*Term{}
	seen := map[*Term]bool{}
	cur := goals
	for r := 0; r < rounds && len(cur) > 0 && len(out) < limit; r++ {
		groundSelects(cur, seen, sel)
		cur = nil
		for qi := 0; qi < len(qs); qi++ {
			q := qs[qi]
			cand := map[*Term]bool{}
			for _, p := range q.pats {
				c := Sub(p.idx, q.v)
				if c.Bound {
					continue
				}
				for _, t := range sel[p.arr] {
					cand[Sub(t, c)] = true
				}
			}
			var ts []*Term
			for t := range cand {
				ts = append(ts, t)
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
			for _, t := range ts {
				inst := Subst(q.body, map[*Term]*Term{q.v: t})
				for i := len(q.guards) - 1; i >= 0; i-- {
					inst = Implies(q.guards[i], inst)
				}
				if inst == True || inst.Bound || have[inst] || len(out) >= limit {
					continue
				}
				have[inst] = true
				out = append(out, inst)
				cur = append(cur, inst)
				if len(qs) < 400 {
					collectQuants(inst, nil, &qs)
				}
			}
		}
	}
	return out
}
