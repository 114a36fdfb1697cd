package main

import "sync"

// Relevance slicing of path conditions. Dropping hypotheses only weakens what
// is assumed, so an unsat answer on a slice is an unsat answer.

var atomMu sync.RWMutex
var atomMemo = map[*Term][]*Term{}

// atoms: scalar symbols and whole array reads of a term
func atoms(t *Term) []*Term {
	atomMu.RLock()
	a, ok := atomMemo[t]
	atomMu.RUnlock()
	if ok {
		return a
	}
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "sym":
			if t.Sort == SInt || t.Sort == SBool || t.Sort == SIface || t.Sort == SSlice || t.Sort == SReal {
				out = append(out, t)
			}
			return
		case "select", "app":
			if !t.Bound {
				out = append(out, t)
			}
		}
		for _, x := range t.Args {
			walk(x)
		}
	}
	walk(t)
	atomMu.Lock()
	atomMemo[t] = out
	atomMu.Unlock()
	return out
}

func slicePC(pc []*Term, goal *Term, hops int) []*Term {
	occ := map[*Term][]int{}
	for i, p := range pc {
		for _, a := range atoms(p) {
			occ[a] = append(occ[a], i)
		}
	}
	in := make([]bool, len(pc))
	seen := map[*Term]bool{}
	cur := atoms(goal)
	hub := len(pc) / 4
	if hub < 20 {
		hub = 20
	}
	for h := 0; h < hops; h++ {
		var next []*Term
		for _, a := range cur {
			if seen[a] {
				continue
			}
			seen[a] = true
			if len(occ[a]) > hub && h > 0 {
				continue
			}
			for _, i := range occ[a] {
				if !in[i] {
					in[i] = true
					next = append(next, atoms(pc[i])...)
				}
			}
		}
		cur = next
	}
	var out []*Term
	for i, p := range pc {
		if in[i] {
			out = append(out, p)
		}
	}
	return out
}

var feasHops = 2

// provedSliced is Proved on a slice of the quantifier-free hypotheses.
func provedSliced(pc []*Term, goal *Term, ms int) bool {
	q := qfOnly(pc)
	if len(q) > 150 {
		q = slicePC(q, goal, feasHops)
	}
	return Proved(q, goal, ms)
}

// feasible2: can c, can its negation hold after pc
func feasible2(pc []*Term, c *Term) (ft, ff bool) {
	if c == True || c == False {
		return c == True && Feasible(append(pc[:len(pc):len(pc)], c)), c == False && Feasible(append(pc[:len(pc):len(pc)], True))
	}
	done := make(chan bool)
	go func() { done <- Feasible(append(pc[:len(pc):len(pc)], Not(c))) }()
	ft = Feasible(append(pc[:len(pc):len(pc)], c))
	return ft, <-done
}
