package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	header     *ssa.BasicBlock
	body       map[*ssa.BasicBlock]bool
	stopAtExit bool
	exited     bool
	back       func(fr *Frame, pred *ssa.BasicBlock, st *State)
	k          *Term
	entry      *State
	fr         *Frame
}

var loopCache sync.Map

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if v, ok := loopCache.Load(f); ok {
		return v.(map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool)
	}
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := out[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				out[h] = body
			}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if body[x] {
					return
				}
				body[x] = true
				for _, p := range x.Preds {
					up(p)
				}
			}
			up(b)
		}
	}
	loopCache.Store(f, out)
	return out
}

func innermostLoop(f *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	n := 1 << 30
	for h, body := range loopsOf(f) {
		if body[b] && len(body) < n {
			best, n = h, len(body)
		}
	}
	return best
}

func serialOf(name string) int {
	i := strings.LastIndexAny(name, "!@")
	if i < 0 {
		return 0
	}
	n, _ := strconv.Atoi(name[i+1:])
	return n
}

// newerThan reports whether t mentions a symbol created after serial n.
func newerThan(t *Term, n int, memo map[*Term]bool) bool {
	if t.Op == "sym" {
		return serialOf(t.Name) > n
	}
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if newerThan(a, n, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

type cand struct {
	deep bool // worth a try with the quantified facts
	name string
	user *Clause
	dead bool
	phi  int // 1 + index of the induction variable it defines
	f    func(s *State, phis []Val, k *Term) *Term
}

// heapDelta describes what one loop iteration may change.
type heapDelta struct {
	vol   bool
	whole map[string]bool
	at    map[string]map[*Term]bool
	alloc bool
	sorts map[string]Sort
}

func newDelta() *heapDelta {
	return &heapDelta{whole: map[string]bool{}, at: map[string]map[*Term]bool{}, sorts: map[string]Sort{}}
}

func (d *heapDelta) size() int {
	n := len(d.whole)
	for _, m := range d.at {
		n += 1 + len(m)
	}
	if d.vol {
		n++
	}
	if d.alloc {
		n++
	}
	return n
}

func isTraceComp(k string) bool {
	return strings.HasPrefix(k, "T:") && k != "T:n" && !strings.HasPrefix(k, "T:cnt:")
}

func (x *Exec) enterLoop(fr *Frame, h, pred *ssa.BasicBlock, st *State, body map[*ssa.BasicBlock]bool) {
	iterMode := x.goDepth > 0 && x.iterLoop == nil
	if iterMode {
		x.iterEnd(st.clone(), "before the loop")
	}
	entry := st.clone()
	serial0 := x.serial
	key := fr.id + "#" + fmt.Sprint(h.Index)

	// phis
	pi := -1
	for j, p := range h.Preds {
		if p == pred {
			pi = j
		}
	}
	var phis []*ssa.Phi
	var init []Val
	nphi := 0
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nphi++
		phis = append(phis, ph)
		init = append(init, x.val(fr, st, ph.Edges[pi]))
	}
	// syntactic induction variables
	step := make([]*big.Int, len(phis))
	for i, ph := range phis {
		if _, _, ok := intBounds(ph.Type()); !ok {
			continue
		}
		var c *big.Int
		good := true
		for j, e := range ph.Edges {
			if !body[h.Preds[j]] {
				continue
			}
			d := stepOf(e, ph)
			if d == nil || (c != nil && c.Cmp(d) != 0) {
				good = false
				break
			}
			c = d
		}
		if good && c != nil {
			step[i] = c
		}
	}

	delta := newDelta()
	var cands []*cand
	A0 := entry.A

	mkHeader := func() (*State, []Val, *Term) {
		x.serial = serial0
		s := entry.clone()
		k := x.fresh("k", SInt)
		x.rng[k] = ival{big.NewInt(0), pow2(62)}
		s.assume(Le(I(0), k))
		s.assume(Le(k, IBig(pow2(62))))
		if delta.alloc || delta.vol || iterMode {
			A := x.fresh("A", SInt)
			s.assume(Le(A0, A))
			s.A = A
		}
		var vals []Val
		for i, ph := range phis {
			if step[i] != nil {
				vals = append(vals, TV(Add(init[i].T, MulC(step[i], k))))
				continue
			}
			v := x.freshVal(s, "phi."+ph.Name(), ph.Type())
			if init[i].Fn != nil && v.T != nil {
				x.closures[v.T] = nil
				delete(x.closures, v.T)
			}
			vals = append(vals, v)
		}
		if delta.vol || iterMode {
			x.serial++
			id := x.serial
			s.gens = append(s.gens[:len(s.gens):len(s.gens)], genRec{id: id, A: s.A, keep: func(k string) bool { return !isVolatile(k) }})
			for k := range s.heap {
				if isVolatile(k) {
					delete(s.heap, k)
				}
			}
		}
		if iterMode {
			x.havocGuarded(s)
		}
		var keys []string
		for k := range delta.whole {
			keys = append(keys, k)
		}
		for k := range delta.at {
			if !delta.whole[k] {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		n0 := x.tcount(entry)
		for _, hk := range keys {
			if (delta.vol || iterMode) && isVolatile(hk) {
				continue
			}
			so := delta.sorts[hk]
			old := s.get(hk, so)
			switch {
			case hk == "T:n":
				t := x.fresh("tn", SInt)
				s.assume(Le(n0, t))
				s.set(hk, t)
			case isTraceComp(hk):
				f := x.fresh(hk, so)
				q := BoundVar("tq", SInt)
				sel := Select(f, q)
				s.assume(Forall([]*Term{q}, Implies(Lt(q, n0), Eq(sel, Select(old, q))), sel))
				s.set(hk, f)
			case delta.whole[hk] || strings.HasPrefix(hk, "T:cnt:") || strings.HasPrefix(hk, "W:"):
				s.set(hk, x.fresh(hk, so))
			default:
				var idx []*Term
				for t := range delta.at[hk] {
					idx = append(idx, t)
				}
				sort.Slice(idx, func(i, j int) bool { return idx[i].ID < idx[j].ID })
				_, vs := arrParts(so)
				cur := old
				for _, t := range idx {
					cur = Store(cur, t, x.fresh("hv."+hk, vs))
				}
				s.set(hk, cur)
			}
		}
		return s, vals, k
	}

	runBody := func(stop bool, s *State, vals []Val, k *Term, back func(fr *Frame, s *State, next []Val)) {
		f2 := fr.clone()
		for i, ph := range phis {
			f2.env[ph] = vals[i]
		}
		lc := &loopCtx{header: h, body: body, stopAtExit: stop, k: k, entry: entry, fr: f2}
		lc.back = func(bf *Frame, bp *ssa.BasicBlock, bs *State) {
			bi := -1
			for j, p := range h.Preds {
				if p == bp {
					bi = j
				}
			}
			var next []Val
			for _, ph := range phis {
				next = append(next, x.val(bf, bs, ph.Edges[bi]))
			}
			back(bf, bs, next)
		}
		f2.loops = append(f2.loops[:len(f2.loops):len(f2.loops)], lc)
		saveStack := x.loopStack
		x.loopStack = append(x.loopStack[:len(x.loopStack):len(x.loopStack)], lc)
		saveIter := x.iterLoop
		if iterMode {
			x.iterLoop = lc
		}
		saveBase := x.iterBase
		if iterMode {
			x.resetTrace(s)
			x.assumeSegInv(s)
			x.iterBase = s.clone()
		}
		x.runInstrs(f2, h, nphi, s)
		x.iterBase = saveBase
		x.iterLoop = saveIter
		x.loopStack = saveStack
	}

	// 1. fixpoint of the loop's effects
	x.mute++
restart:
	if debugSolve {
		fmt.Fprintf(os.Stderr, "loop %s mute=%d pc=%d\n", key, x.mute, len(st.pc))
	}
	for round := 0; ; round++ {
		before := delta.size()
		s, vals, k := mkHeader()
		hdr := s.clone()
		if iterMode {
			x.resetTrace(hdr)
		}
		x.effects++
		runBody(true, s, vals, k, func(bf *Frame, bs *State, next []Val) {
			x.delta(delta, hdr, bs, serial0)
		})
		x.effects--
		if delta.size() == before {
			break
		}
		if round > 20 {
			panic(unsupported("loop effects do not stabilise"))
		}
	}

	// 2. candidates
	if x.effects > 0 {
		// only the effects of the enclosing loop are being collected
		cands = nil
	} else if !iterMode {
		cands = x.loopCands(fr, h, phis, init, step, entry, delta)
	} else {
		cands = x.iterCands(phis, init, step)
	}
	parentMemo, parentOrd := x.loopMemo, x.loopOrd
	mkey := key
	if parentOrd != nil {
		mkey = fmt.Sprintf("%s@%d", key, parentOrd[key])
		parentOrd[key]++
	}
	if memo, ok := parentMemo[mkey]; ok {
		// candidates already refuted under stronger assumptions of the enclosing loop
		var live []*cand
		for _, c := range cands {
			if !memo[c.name] {
				live = append(live, c)
			}
		}
		cands = live
	}
	all := cands
	// base case
	if len(cands) > 0 {
		var live []*cand
		res := x.candsProved("base "+key, cands, entry.pc, func(c *cand) *Term {
			return x.tryCand(c, entry, init, I(0), entry, fr, I(0))
		})
		for i, c := range cands {
			if res[i] {
				live = append(live, c)
			}
		}
		for _, c := range cands {
			c.dead = true
		}
		for _, c := range live {
			c.dead = false
		}
		if undefine(cands, step) {
			if parentOrd != nil {
				parentOrd[key]--
			}
			goto restart
		}
		cands = live
	}
	// 3. Houdini
	x.loopMemo = map[string]map[string]bool{}
	for {
		x.loopOrd = map[string]int{}
		s, vals, k := mkHeader()
		for _, c := range cands {
			if g := x.tryCand(c, s, vals, k, entry, fr, k); g != nil {
				s.assume(g)
			}
		}
		dropped := false
		hdr := s.clone()
		size0 := delta.size()
		runBody(true, s, vals, k, func(bf *Frame, bs *State, next []Val) {
			x.delta(delta, hdr, bs, serial0)
			k1 := Add(k, I(1))
			var todo []*cand
			for _, c := range cands {
				if !c.dead {
					todo = append(todo, c)
				}
			}
			res := x.candsProved("houdini "+key, todo, bs.pc, func(c *cand) *Term {
				return x.tryCand(c, bs, next, k1, entry, bf, k1)
			})
			for i, c := range todo {
				if !res[i] {
					c.dead = true
					dropped = true
				}
			}
		})
		if undefine(cands, step) || delta.size() != size0 {
			x.loopMemo, x.loopOrd = parentMemo, parentOrd
			if parentOrd != nil {
				parentOrd[key]--
			}
			goto restart
		}
		var live []*cand
		for _, c := range cands {
			if !c.dead {
				live = append(live, c)
			}
		}
		cands = live
		if !dropped {
			break
		}
	}
	x.mute--
	if x.effects == 0 && parentMemo != nil {
		if parentMemo[mkey] == nil {
			parentMemo[mkey] = map[string]bool{}
		}
		alive := map[string]bool{}
		for _, c := range cands {
			alive[c.name] = true
		}
		for _, c := range all {
			if !alive[c.name] {
				parentMemo[mkey][c.name] = true
			}
		}
	}
	x.loopOrd = map[string]int{}
	if x.mute == 0 {
		for _, c := range cands {
			x.obls = append(x.obls, &Obl{Unit: x.unit.Name, Kind: "invariant", Name: "loop invariant " + c.name + " established and preserved in " + shortFn(fr.fn), Res: Unsat, Backend: "z3-incremental", Where: key, Goal: True})
		}
		if x.debug {
			for _, c := range cands {
				fmt.Println("    [inv]", key, c.name)
			}
		}
	}
	// 4. the real pass
	s, vals, k := mkHeader()
	for _, c := range cands {
		if g := x.tryCand(c, s, vals, k, entry, fr, k); g != nil {
			s.assume(g)
		}
	}
	runBody(false, s, vals, k, func(bf *Frame, bs *State, next []Val) {
		if x.mute > 0 {
			return
		}
		if iterMode {
			x.iterEnd(bs, "loop iteration")
		}
		x.lockSame(bs, entry, "loop back edge in "+shortFn(fr.fn))
	})
	x.loopMemo, x.loopOrd = parentMemo, parentOrd
}

// candsProved decides several candidates at one point, in parallel.
func (x *Exec) candsProved(what string, cands []*cand, pc []*Term, goal func(c *cand) *Term) []bool {
	res := make([]bool, len(cands))
	patient := x.unit.Patient && strings.HasPrefix(what, "houdini")
	var wg sync.WaitGroup
	for i, c := range cands {
		g := goal(c)
		if g == nil {
			continue
		}
		i, c := i, c
		wg.Add(1)
		go func() {
			defer wg.Done()
			tq := time.Now()
			res[i] = x.candProved(patient, c, pc, g)
			if debugSolve && time.Since(tq) > 200*time.Millisecond {
				fmt.Fprintf(os.Stderr, "%s: %v %v %.150s\n", what, time.Since(tq), res[i], c.name)
			}
		}()
	}
	wg.Wait()
	return res
}

func (x *Exec) candProved(patient bool, c *cand, pc []*Term, g *Term) bool {
	if c.user != nil {
		if proveFast(pc, g, 2000) {
			return true
		}
		if patient {
			r, _, _ := proveGoal(pc, g, 6, 0)
			return r == Unsat
		}
		return false
	}
	if Proved(qfOnly(pc), g, 500) {
		return true
	}
	return c.deep && proveFast(pc, g, 1000)
}

// undefine drops induction variables whose step was refuted (wrap-around).
func undefine(cands []*cand, step []*big.Int) bool {
	r := false
	for _, c := range cands {
		if c.dead && c.phi > 0 && step[c.phi-1] != nil {
			step[c.phi-1] = nil
			r = true
		}
	}
	return r
}

func stepOf(e ssa.Value, ph *ssa.Phi) *big.Int {
	b, ok := e.(*ssa.BinOp)
	if !ok {
		return nil
	}
	c, ok := b.Y.(*ssa.Const)
	px := b.X
	if !ok {
		if c, ok = b.X.(*ssa.Const); !ok || b.Op != token.ADD {
			return nil
		}
		px = b.Y
	}
	if px != ssa.Value(ph) || c.Value == nil {
		return nil
	}
	v, ok2 := new(big.Int).SetString(c.Value.ExactString(), 10)
	if !ok2 {
		return nil
	}
	switch b.Op {
	case token.ADD:
		return v
	case token.SUB:
		return v.Neg(v)
	}
	return nil
}

// delta records the differences between the header state and a back-edge state.
func (x *Exec) delta(d *heapDelta, hdr, bs *State, serial0 int) {
	if bs.A != hdr.A {
		d.alloc = true
	}
	if len(bs.gens) != len(hdr.gens) {
		d.vol = true
	}
	memo := map[*Term]bool{}
	for _, k := range sortedKeys(bs.heap) {
		if k == "LK" {
			continue
		}
		cur := bs.heap[k]
		old := hdr.get(k, cur.Sort)
		if cur == old {
			continue
		}
		if d.vol && isVolatile(k) {
			continue
		}
		if k == "T:n" || strings.HasPrefix(k, "T:") || strings.HasPrefix(k, "W:") {
			if d.at[k] == nil {
				d.at[k] = map[*Term]bool{}
			}
			d.sorts[k] = cur.Sort
			continue
		}
		var idx []*Term
		var chain func(t *Term) bool
		chain = func(t *Term) bool {
			for t != old && t.Op == "store" {
				idx = append(idx, t.Args[1])
				t = t.Args[0]
			}
			if t.Op == "ite" {
				return chain(t.Args[1]) && chain(t.Args[2])
			}
			return t == old
		}
		if !chain(cur) {
			d.whole[k] = true
			d.sorts[k] = cur.Sort
			continue
		}
		for _, i := range idx {
			if newerThan(i, serial0, memo) {
				if x.freshObj[rootRef(i)] {
					continue // object of this iteration
				}
				d.whole[k] = true
				d.sorts[k] = cur.Sort
				break
			}
			if d.at[k] == nil {
				d.at[k] = map[*Term]bool{}
			}
			d.at[k][i] = true
			d.sorts[k] = cur.Sort
		}
	}
}

func (x *Exec) tryCand(c *cand, s *State, vals []Val, k *Term, entry *State, fr *Frame, _ *Term) (g *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				g = nil
				return
			}
			if _, ok := r.(specErr); ok {
				g = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(s, vals, k)
}

func (x *Exec) iterCands(phis []*ssa.Phi, init []Val, step []*big.Int) []*cand {
	var out []*cand
	for i, ph := range phis {
		i := i
		if init[i].T != nil && step[i] == nil {
			// flags and references found in a loop depend on what the table may hold
			deep := init[i].T.Sort == SBool || init[i].T.Sort == SIface
			out = append(out, &cand{name: ph.Name() + " unchanged", deep: deep, f: func(s *State, v []Val, k *Term) *Term {
				return Eq(v[i].T, init[i].T)
			}})
		}
		if step[i] != nil {
			out = append(out, &cand{name: ph.Name() + " induction", phi: i + 1, f: func(s *State, v []Val, k *Term) *Term {
				return Eq(v[i].T, Add(init[i].T, MulC(step[i], k)))
			}})
		}
	}
	return out
}

func (x *Exec) loopCands(fr *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, init []Val, step []*big.Int, entry *State, d *heapDelta) []*cand {
	out := x.iterCands(phis, init, step)
	add := func(n string, f func(s *State, v []Val, k *Term) *Term) { out = append(out, &cand{name: n, f: f}) }
	for i, ph := range phis {
		i := i
		if init[i].T == nil {
			continue
		}
		if init[i].T.Sort == SInt && step[i] == nil {
			if _, _, ok := intBounds(ph.Type()); ok {
				add(ph.Name()+">=init", func(s *State, v []Val, k *Term) *Term { return Le(init[i].T, v[i].T) })
				add(ph.Name()+"<=init", func(s *State, v []Val, k *Term) *Term { return Le(v[i].T, init[i].T) })
				add(ph.Name()+">=0", func(s *State, v []Val, k *Term) *Term { return Le(I(0), v[i].T) })
			}
		}
		if init[i].T.Sort == SSlice {
			b := init[i].T
			add(ph.Name()+" suffix", func(s *State, v []Val, k *Term) *Term {
				return And(Eq(SBase(v[i].T), SBase(b)), Eq(Add(SOff(v[i].T), SLen(v[i].T)), Add(SOff(b), SLen(b))), Eq(Add(SOff(v[i].T), SCap(v[i].T)), Add(SOff(b), SCap(b))))
			})
			add(ph.Name()+" shrinks", func(s *State, v []Val, k *Term) *Term { return Le(SLen(v[i].T), SLen(b)) })
		}
	}
	// pairs of integer phis moving together
	for i := range phis {
		for j := range phis {
			if i == j || init[i].T == nil || init[j].T == nil || init[i].T.Sort != SInt || init[j].T.Sort != SInt || step[i] != nil {
				continue
			}
			if _, _, ok := intBounds(phis[i].Type()); !ok {
				continue
			}
			if _, _, ok := intBounds(phis[j].Type()); !ok {
				continue
			}
			i, j := i, j
			add(fmt.Sprintf("%s-%s constant", phis[i].Name(), phis[j].Name()), func(s *State, v []Val, k *Term) *Term {
				return Eq(Sub(v[i].T, v[j].T), Sub(init[i].T, init[j].T))
			})
			if i < j {
				add(fmt.Sprintf("%s+%s constant", phis[i].Name(), phis[j].Name()), func(s *State, v []Val, k *Term) *Term {
					return Eq(Add(v[i].T, v[j].T), Add(init[i].T, init[j].T))
				})
			}
		}
	}
	// bounds from the exit condition
	if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			if _, _, isInt := intBounds(bo.X.Type()); isInt {
				add("exit bound", func(s *State, v []Val, k *Term) *Term {
					a, b, ok := x.headerOperands(fr, h, phis, v, s, bo)
					if !ok {
						return nil
					}
					switch bo.Op {
					case token.LSS, token.NEQ:
						return Le(a, b)
					case token.LEQ:
						return Le(a, Add(b, I(1)))
					case token.GTR:
						return Le(b, a)
					case token.GEQ:
						return Le(b, Add(a, I(1)))
					}
					return nil
				})
				add("exit bound 2", func(s *State, v []Val, k *Term) *Term {
					a, b, ok := x.headerOperands(fr, h, phis, v, s, bo)
					if !ok || bo.Op != token.NEQ {
						return nil
					}
					return Le(b, a)
				})
			}
		}
	}
	// trace length
	if _, ok := d.at["T:n"]; ok {
		n0 := x.tcount(entry)
		for c := int64(0); c <= 4; c++ {
			c := c
			add(fmt.Sprintf("trace grows by %d per iteration", c), func(s *State, v []Val, k *Term) *Term {
				return Eq(x.tcount(s), Add(n0, MulC(big.NewInt(c), k)))
			})
		}
	}
	// scalar heap cells written at fixed indices
	var keys []string
	for k := range d.at {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, hk := range keys {
		if strings.HasPrefix(hk, "T:") || strings.HasPrefix(hk, "W:") || d.whole[hk] {
			continue
		}
		so := d.sorts[hk]
		_, vs := arrParts(so)
		var idx []*Term
		for t := range d.at[hk] {
			idx = append(idx, t)
		}
		sort.Slice(idx, func(i, j int) bool { return idx[i].ID < idx[j].ID })
		for _, t := range idx {
			hk, t := hk, t
			old := Select(entry.get(hk, so), t)
			add(hk+" unchanged", func(s *State, v []Val, k *Term) *Term { return Eq(Select(s.get(hk, so), t), old) })
			if vs == SInt {
				for _, c := range []int64{1, -1} {
					c := c
					add(fmt.Sprintf("%s induction %d", hk, c), func(s *State, v []Val, k *Term) *Term {
						return Eq(Select(s.get(hk, so), t), Add(old, MulC(big.NewInt(c), k)))
					})
				}
				add(hk+" >= old", func(s *State, v []Val, k *Term) *Term { return Le(old, Select(s.get(hk, so), t)) })
			}
		}
	}
	// user invariants
	for _, cl := range x.unit.LoopInv {
		cl := cl
		for i, e := range conjuncts(cl.Expr) {
			e := e
			n := cl.Text
			if i > 0 {
				n = fmt.Sprintf("%s (part %d)", n, i+1)
			}
			mk := func(s *State, k *Term) *Eval {
				ev := x.newEval(s)
				ev.k = k
				ev.loopEntry = entry
				ev.loopHdr = h
				ev.loopFr = fr
				return ev
			}
			// a clause about "some loop variable" is a candidate for each variable of that kind
			if lv := loopVarOf(e); lv != "" {
				for i, ph := range phis {
					i, ph := i, ph
					if init[i].T == nil || loopVarKind[init[i].T.Sort] != lv {
						continue
					}
					if lv == "anyint" {
						if _, _, ok := intBounds(ph.Type()); !ok {
							continue
						}
					}
					out = append(out, &cand{name: n + " for " + ph.Name(), user: cl, f: func(s *State, v []Val, k *Term) *Term {
						ev := mk(s, k)
						ev.vars[lv] = SVal{V: v[i], T: ph.Type()}
						return ev.boolean(e)
					}})
				}
				continue
			}
			out = append(out, &cand{name: n, user: cl, f: func(s *State, v []Val, k *Term) *Term {
				return mk(s, k).boolean(e)
			}})
		}
	}
	return out
}

// loopVarKind names, in invariant clauses, any variable of the loop of that sort.
var loopVarKind = map[Sort]string{SIface: "anyiface", SInt: "anyint", SBool: "anybool", SSlice: "anyslice"}

func loopVarOf(e ast.Expr) (r string) {
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			switch id.Name {
			case "anyiface", "anyint", "anybool", "anyslice":
				r = id.Name
			}
		}
		return true
	})
	return r
}

func conjuncts(e ast.Expr) []ast.Expr {
	if p, ok := e.(*ast.ParenExpr); ok {
		return conjuncts(p.X)
	}
	if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		return append(conjuncts(b.X), conjuncts(b.Y)...)
	}
	return []ast.Expr{e}
}

// headerOperands evaluates the operands of the loop condition at the loop head.
func (x *Exec) headerOperands(fr *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, vals []Val, s *State, bo *ssa.BinOp) (a, b *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isU := r.(unsupportedErr); isU {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f := fr.clone()
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	x.mute++
	defer func() { x.mute-- }()
	for _, in := range h.Instrs {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.Call:
			bi, isB := i.Call.Value.(*ssa.Builtin)
			if !isB || (bi.Name() != "len" && bi.Name() != "cap") {
				return nil, nil, false
			}
			x.builtin(s, f, bi, &i.Call, func(_ *State, r Val) { f.env[i] = r })
		case *ssa.BinOp:
			av, bv := x.val(f, s, i.X), x.val(f, s, i.Y)
			switch i.Op {
			case token.ADD, token.SUB:
				t := Add(av.T, bv.T)
				if i.Op == token.SUB {
					t = Sub(av.T, bv.T)
				}
				f.env[i] = TV(t)
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				f.env[i] = TV(True)
			default:
				return nil, nil, false
			}
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.Convert:
			if u, isU := i.(*ssa.UnOp); isU && u.Op == token.ARROW {
				return nil, nil, false
			}
			x.simple(s, f, in)
		default:
			return nil, nil, false
		}
	}
	av, bv := x.val(f, s, bo.X), x.val(f, s, bo.Y)
	if av.T == nil || bv.T == nil {
		return nil, nil, false
	}
	return av.T, bv.T, true
}

var _ = types.Typ

// lockSame: every lock touched has the same state as at the reference point
func (x *Exec) lockSame(st, ref *State, where string) {
	var ms []*Term
	for m := range x.touched {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
	for _, m := range ms {
		x.oblige(st, "lock", "lock "+lockName(m)+" balanced at "+where, Eq(x.lockState(st, m), x.lockState(ref, m)), []string{"C18"}, where)
	}
}

// iterEnd checks the iteration clauses of the unit on the trace of the segment.
func (x *Exec) iterEnd(st *State, where string) {
	if x.mute > 0 || x.goDepth == 0 {
		return
	}
	x.segs++
	for _, cl := range x.unit.SegInv {
		x.oblige(st, "seginv", "kept by each "+where+" of the spawned goroutine: "+cl.Text, x.newEval(st).boolean(cl.Expr), cl.Tags, where)
	}
	for _, cl := range x.unit.Iter {
		ev := x.newEval(st)
		ev.old = x.iterBase
		ev.segEnd = where == "goroutine end"
		ev.segLoop = where == "loop iteration"
		g := ev.boolean(cl.Expr)
		x.oblige(st, "iter", "per "+where+" of the spawned goroutine: "+cl.Text, g, cl.Tags, where)
	}
	if len(x.unit.Iter) > 0 {
		x.returns++
	}
}

// assumeSegInv assumes the invariants of shared data; every unit naming them
// has to establish them (requires at its entry, checked at its exit).
func (x *Exec) assumeSegInv(st *State) {
	for _, cl := range x.unit.SegInv {
		st.assume(x.newEval(st).boolean(cl.Expr))
	}
}
