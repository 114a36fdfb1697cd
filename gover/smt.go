package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------- query construction ----------

type axiomCtx struct {
	seen  map[*Term]bool
	out   []*Term
	queue []*Term
}

// groundAxioms returns the definitional axioms of the interpreted symbols that
// occur in the given terms, instantiated on exactly the terms that occur.
func groundAxioms(roots []*Term) []*Term {
	c := &axiomCtx{seen: map[*Term]bool{}}
	done := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if c.seen[t] {
			return
		}
		c.seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.Op == "app" || t.Op == "copyarr" {
			c.queue = append(c.queue, t)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	for len(c.queue) > 0 {
		t := c.queue[0]
		c.queue = c.queue[1:]
		if done[t] {
			continue
		}
		done[t] = true
		for _, ax := range axiomsFor(t) {
			if ax == True {
				continue
			}
			c.out = append(c.out, ax)
			walk(ax)
		}
	}
	return c.out
}

var pow2c = map[int]*big.Int{}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

var bvCount int
var bvMu sync.Mutex

func freshBound(s Sort) *Term {
	bvMu.Lock()
	defer bvMu.Unlock()
	bvCount++
	return BoundVar(fmt.Sprintf("q%d", bvCount), s)
}

var axiomBV = BoundVar("axi", SInt)

func axiomsFor(t *Term) []*Term {
	if t.Bound {
		// axioms on terms with bound variables: close universally when possible
		free := map[*Term]bool{}
		freeBound(t, free)
		var vs []*Term
		for v := range free {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
		var out []*Term
		for _, a := range axiomsRaw(t) {
			if a.Op == "forall" || a == True {
				continue // nested: left out (only weakens the assumptions)
			}
			out = append(out, Forall(vs, a, t))
		}
		return out
	}
	return axiomsRaw(t)
}

func axiomsRaw(t *Term) []*Term {
	if t.Op == "copyarr" {
		if t.Bound {
			return nil
		}
		i := axiomBV
		d, s, lo, so, n := t.Args[0], t.Args[1], t.Args[2], t.Args[3], t.Args[4]
		body := Eq(mk("select", "", mustElem(t.Sort), nil, t, i),
			Ite(And(Le(lo, i), Lt(i, Add(lo, n))), Select(s, Add(Sub(i, lo), so)), Select(d, i)))
		return []*Term{Forall([]*Term{i}, body, mk("select", "", mustElem(t.Sort), nil, t, i))}
	}
	n := t.Name
	switch {
	case strings.HasPrefix(n, "sub:"):
		r := t.Args[0]
		inv := App("un"+n, SInt, t)
		kind := App("skind", SInt, t)
		return []*Term{Eq(inv, r), Eq(kind, I(int64(subID(n)))), Lt(t, I(-1000000))}
	case strings.HasPrefix(n, "elem:"):
		return []*Term{
			Eq(App("un0"+n, SInt, t), t.Args[0]), Eq(App("un1"+n, SInt, t), t.Args[1]),
			Eq(App("skind", SInt, t), I(int64(subID(n)))), Lt(t, I(-1000000))}
	case n == "strlen":
		if t.Args[0].isLit() {
			if s, ok := W.litStr(t.Args[0]); ok {
				return []*Term{Eq(t, I(int64(len(s))))}
			}
		}
		return []*Term{Le(I(0), t), Le(t, IBig(pow2(48))), Implies(Eq(t.Args[0], I(0)), Eq(t, I(0))), Implies(Eq(t, I(0)), Eq(t.Args[0], I(0)))}
	case n == "strarr":
		if s, ok := W.litStr(t.Args[0]); ok {
			var out []*Term
			for i := 0; i < len(s) && i < 64; i++ {
				out = append(out, Eq(Select(t, I(int64(i))), I(int64(s[i]))))
			}
			return out
		}
		return nil
	case n == "mkstr":
		arr, off, ln := t.Args[0], t.Args[1], t.Args[2]
		i := axiomBV
		sa := App("strarr", ArrSort(SInt, SInt), t)
		sel := Select(sa, i)
		return []*Term{Eq(App("strlen", SInt, t), Ite(Le(ln, I(0)), I(0), ln)),
			Forall([]*Term{i}, Implies(And(Le(I(0), i), Lt(i, ln)), Eq(sel, Select(arr, Add(off, i)))), sel)}
	case n == "boxS":
		if t.Args[0].Op == "app" && t.Args[0].Name == "unboxS" {
			return nil // boxS(unboxS(x)) = x is stated at unboxS(x)
		}
		return []*Term{Eq(App("unboxS", SSlice, t), t.Args[0])}
	case n == "unboxS":
		s := t
		bx := True
		if !(t.Args[0].Op == "app" && t.Args[0].Name == "boxS") {
			bx = Eq(App("boxS", SInt, t), t.Args[0])
		}
		return []*Term{bx,
			Le(I(0), SOff(s)), Le(I(0), SLen(s)), Le(SLen(s), SCap(s)), Le(SCap(s), IBig(pow2(48))),
			Le(I(0), SBase(s)), Implies(Eq(SBase(s), I(0)), And(Eq(SCap(s), I(0)), Eq(SOff(s), I(0))))}
	case n == "boxR":
		return []*Term{Eq(App("unboxR", SReal, t), t.Args[0])}
	case strings.HasPrefix(n, "box:"):
		var out []*Term
		for i, a := range t.Args {
			out = append(out, Eq(App(fmt.Sprintf("un%d%s", i, n), a.Sort, t), a))
		}
		return out
	case n == "bor" || n == "bxor" || n == "band":
		a, b := t.Args[0], t.Args[1]
		out := []*Term{}
		nn := And(Le(I(0), a), Le(I(0), b))
		switch n {
		case "bor":
			out = append(out, Implies(nn, And(Le(a, t), Le(b, t), Le(t, Add(a, b)))))
			for _, k := range []int{8, 16, 24, 32, 40, 48, 56} {
				p := pow2(k)
				out = append(out, Implies(And(nn, Lt(a, IBig(p)), Eq(ModC(b, p), I(0))), Eq(t, Add(a, b))))
				out = append(out, Implies(And(nn, Lt(b, IBig(p)), Eq(ModC(a, p), I(0))), Eq(t, Add(a, b))))
			}
			out = append(out, Implies(Eq(a, I(0)), Eq(t, b)), Implies(Eq(b, I(0)), Eq(t, a)))
		case "band":
			out = append(out, Implies(nn, And(Le(I(0), t), Le(t, a), Le(t, b))))
		case "bxor":
			out = append(out, Implies(nn, And(Le(I(0), t), Le(t, Add(a, b)))))
		}
		return out
	case strings.HasPrefix(n, "impl:"):
		return implAxioms(n, t)
	case n == "trunc":
		// Go float->int conversion truncates toward zero
		r := t.Args[0]
		ti := mk("to_real", "", SReal, nil, t)
		one := RLit(big.NewInt(1))
		zero := RLit(big.NewInt(0))
		return []*Term{
			Implies(Ge(r, zero), And(Le(ti, r), Lt(r, Add(ti, one)), Le(I(0), t))),
			Implies(Lt(r, zero), And(Ge(ti, r), Gt(ti, Sub(r, one)), Le(t, I(0)))),
		}
	}
	return specAxioms(t)
}

func mustElem(s Sort) Sort { _, v := arrParts(s); return v }

var subIDs = map[string]int{}
var subMu sync.Mutex

func subID(n string) int {
	subMu.Lock()
	defer subMu.Unlock()
	if v, ok := subIDs[n]; ok {
		return v
	}
	subIDs[n] = len(subIDs) + 1
	return subIDs[n]
}

// BuildQuery prints an SMT-LIB query asserting all given terms.
func BuildQuery(asserts []*Term) string {
	ax := groundAxioms(asserts)
	all := append(append([]*Term{}, ax...), asserts...)
	var sb strings.Builder
	sb.WriteString("(declare-datatypes ((Iface 0)) (((mkI (ityp Int) (ival Int)))))\n")
	sb.WriteString("(declare-datatypes ((Slice 0)) (((mkS (sbase Int) (soff Int) (slen Int) (scap Int)))))\n")
	refs := map[*Term]int{}
	seen := map[*Term]bool{}
	decl := map[string]string{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		for _, a := range t.Pats {
			walk(a)
		}
		order = append(order, t)
		switch t.Op {
		case "sym":
			decl[t.Name] = fmt.Sprintf("(declare-const %s %s)\n", smtName(t.Name), t.Sort)
		case "app":
			var as []string
			for _, a := range t.Args {
				as = append(as, string(a.Sort))
			}
			d := fmt.Sprintf("(declare-fun %s (%s) %s)\n", smtName(t.Name), strings.Join(as, " "), t.Sort)
			if o, ok := decl[t.Name]; ok && o != d {
				panic("conflicting declarations: " + o + d)
			}
			decl[t.Name] = d
		case "copyarr":
			n := copyName(t)
			decl[n] = fmt.Sprintf("(declare-fun %s (%s %s Int Int Int) %s)\n", smtName(n), t.Sort, t.Sort, t.Sort)
		}
	}
	for _, a := range all {
		walk(a)
	}
	var dn []string
	for n := range decl {
		dn = append(dn, n)
	}
	sort.Strings(dn)
	for _, n := range dn {
		sb.WriteString(decl[n])
	}
	named := map[*Term]string{}
	for _, t := range order {
		if refs[t] > 1 && !t.Bound && len(t.Args) > 0 && t.Op != "forall" {
			s := t.str(named, 0)
			if len(s) < 24 {
				continue
			}
			nm := fmt.Sprintf("d!%d", t.ID)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm, t.Sort, s)
			named[t] = nm
		}
	}
	for _, a := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", a.str(named, 0))
	}
	return sb.String()
}

func copyName(t *Term) string {
	return "copyarr_" + strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(string(t.Sort), " ", "_"), "(", "<"), ")", ">")
}

// ---------- solvers ----------

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return []string{"unknown", "sat", "unsat"}[r] }

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type SolverStats struct {
	sync.Mutex
	Queries   int
	Time      time.Duration
	ByBackend map[string]int
	TimeBy    map[string]time.Duration
}

var stats = &SolverStats{ByBackend: map[string]int{}, TimeBy: map[string]time.Duration{}}

func (s *SolverStats) add(be string, d time.Duration) {
	s.Lock()
	s.Queries++
	s.Time += d
	s.ByBackend[be]++
	s.TimeBy[be] += d
	s.Unlock()
}

var z3pool = make(chan *z3proc, 16)
var procSem = make(chan struct{}, 8)

func newZ3() *z3proc {
	cmd := exec.Command("z3", "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &z3proc{cmd, in, bufio.NewReaderSize(out, 1<<20)}
}

var catMu sync.Mutex
var catT = map[string]time.Duration{}
var catN = map[string]int{}

func quickZ3(query string, ms int) (Result, string) {
	if debugSolve {
		t0 := time.Now()
		pc, _, _, _ := runtime.Caller(1)
		n := runtime.FuncForPC(pc).Name()
		pc, _, ln, _ := runtime.Caller(2)
		n += " < " + runtime.FuncForPC(pc).Name() + fmt.Sprint(":", ln)
		defer func() {
			catMu.Lock()
			catT[n] += time.Since(t0)
			catN[n]++
			catMu.Unlock()
		}()
	}
	procSem <- struct{}{}
	defer func() { <-procSem }()
	var p *z3proc
	select {
	case p = <-z3pool:
	default:
		p = newZ3()
	}
	t0 := time.Now()
	defer func() { stats.add("z3-incremental", time.Since(t0)) }()
	done := make(chan struct{})
	timer := time.AfterFunc(time.Duration(ms)*time.Millisecond+3*time.Second, func() {
		select {
		case <-done:
		default:
			p.cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	_, err := io.WriteString(p.in, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s\n(check-sat)\n(echo \"!!done\")\n", ms, query))
	res := Unknown
	var log strings.Builder
	if err == nil {
		for {
			line, e := p.out.ReadString('\n')
			if e != nil {
				err = e
				break
			}
			line = strings.TrimSpace(line)
			if line == "!!done" || line == "\"!!done\"" {
				break
			}
			switch line {
			case "sat":
				res = Sat
			case "unsat":
				res = Unsat
			default:
				log.WriteString(line + "\n")
			}
		}
	}
	close(done)
	if err != nil {
		p.cmd.Process.Kill()
		go p.cmd.Wait()
		return Unknown, "solver died: " + err.Error()
	}
	if strings.Contains(log.String(), "error") {
		if os.Getenv("GOVER_DEBUG") != "" {
			os.WriteFile("/tmp/gover_bad.smt2", []byte(query), 0644)
		}
		fmt.Fprintln(os.Stderr, "SOLVER ERROR:", log.String())
		res = Unknown
	}
	z3pool <- p
	return res, log.String()
}

type backend struct {
	name string
	argv func(sec int) []string
	pre  string
}

var backends = []backend{
	{"z3-new", func(s int) []string { return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", s)} }, ""},
	{"z3", func(s int) []string { return []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", s)} }, ""},
	{"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--full-saturate-quant", "-"}
	}, "(set-logic ALL)\n"},
}

func runBackend(ctx context.Context, b backend, query string, sec int) (Result, string) {
	procSem <- struct{}{}
	defer func() { <-procSem }()
	if ctx.Err() != nil {
		return Unknown, "cancelled"
	}
	a := b.argv(sec)
	c, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(b.pre + query + "\n(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	stats.add(b.name, time.Since(t0))
	s := strings.TrimSpace(out.String())
	first := strings.SplitN(s, "\n", 2)[0]
	switch first {
	case "sat":
		return Sat, s
	case "unsat":
		return Unsat, s
	}
	return Unknown, s
}

// Solve decides satisfiability of the conjunction, escalating over back ends.
var debugSolve = os.Getenv("GOVER_DEBUG") != ""

func Solve(asserts []*Term, sec int) (Result, string, string) {
	for _, a := range asserts {
		if a == False {
			return Unsat, "simplifier", ""
		}
	}
	q := BuildQuery(asserts)
	quick := 1500
	tq := time.Now()
	r, lg := quickZ3(q, quick)
	if debugSolve && time.Since(tq) > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow quick %v %v n=%d sz=%d quant=%v\n", time.Since(tq), r, len(asserts), len(q), strings.Contains(q, "(forall"))
	}
	if r == Unsat {
		return r, "z3-incremental", lg
	}
	hasQuant := strings.Contains(q, "(forall")
	if r == Sat && !hasQuant {
		return r, "z3-incremental", lg
	}
	if r == Sat {
		return r, "z3-incremental", lg
	}
	if sec <= 0 {
		return r, "z3-incremental", lg
	}
	type res struct {
		r Result
		b string
		s string
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan res, len(backends))
	for _, b := range backends {
		go func(b backend) {
			r, s := runBackend(ctx, b, q, sec)
			ch <- res{r, b.name, s}
		}(b)
	}
	var all []string
	best := res{Unknown, "", ""}
	for range backends {
		x := <-ch
		if x.r == Unsat {
			return Unsat, x.b, x.s
		}
		if x.r == Sat {
			best = x
			break
		}
		all = append(all, x.b+": "+firstLines(x.s, 3))
	}
	if best.r == Sat {
		return Sat, best.b, best.s
	}
	return Unknown, "all", strings.Join(all, "; ")
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " ")
}

// GetModel asks z3 for a model of a satisfiable query (best effort).
func GetModel(asserts []*Term) string {
	q := BuildQuery(asserts)
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3", "-in", "-smt2", "-T:6")
	cmd.Stdin = strings.NewReader(q + "\n(check-sat)\n(get-model)\n")
	out, _ := cmd.Output()
	return string(out)
}

var feasCache sync.Map

func qfOnly(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if !t.Quant {
			out = append(out, t)
		}
	}
	return out
}

// Feasible: may the conjunction hold? Quantified facts are ignored (over-approximation).
var feasN []int

func Feasible(ts []*Term) bool {
	ts = qfOnly(ts)
	for _, t := range ts {
		if t == False {
			return false
		}
	}
	k := And(ts...)
	if k == False {
		return false
	}
	if v, ok := feasCache.Load(k); ok {
		return v.(bool)
	}
	q := ts
	if n := len(ts); n > 150 {
		q = append(slicePC(ts[:n-1], ts[n-1], feasHops), ts[n-1])
	}
	tq := time.Now()
	r, _ := quickZ3(BuildQuery(q), 1000)
	if debugSolve && time.Since(tq) > 150*time.Millisecond {
		fmt.Fprintf(os.Stderr, "feas %v %v pc=%d slice=%d %.300s\n", time.Since(tq), r, len(ts), len(q), ts[len(ts)-1].String())
		if os.Getenv("GOVER_FEAS") != "" {
			os.WriteFile(fmt.Sprintf("/tmp/feas_%d.smt2", len(feasN)), []byte(BuildQuery(q)+"\n(check-sat)\n"), 0644)
			feasN = append(feasN, 0)
		}
	}
	feasCache.Store(k, r != Unsat)
	return r != Unsat
}

func stripQuantAxioms(ts []*Term) []*Term { return ts }

// Proved: quick decision that goal follows from pc (used inside the executor).
func Proved(pc []*Term, goal *Term, ms int) bool {
	if goal == True {
		return true
	}
	for _, a := range pc {
		if a == goal || a == False {
			return true
		}
	}
	r, _ := quickZ3(BuildQuery(append(append([]*Term{}, pc...), Not(goal))), ms)
	return r == Unsat
}

// ProveObl decides an obligation.
func ProveObl(o *Obl, sec int) (Result, string, string) {
	return proveGoal(o.PC, o.Goal, sec, 0)
}

// proveGoal tries the goal as it is and then, where the solvers give up,
// conjunct by conjunct.
func proveGoal(pc []*Term, goal *Term, sec, depth int) (Result, string, string) {
	for _, a := range pc {
		if a == goal || a == False {
			return Unsat, "simplifier", ""
		}
	}
	if goal == True {
		return Unsat, "simplifier", ""
	}
	full := func(g *Term) []*Term { return append(append([]*Term{}, pc...), Not(g)) }
	g, hyp := goal, pc
	for g.Op == "=>" {
		hyp = append(append([]*Term{}, hyp...), g.Args[0])
		g = g.Args[1]
	}
	if g.Op == "forall" {
		m := map[*Term]*Term{}
		n := len(g.Args) - 1
		for i, v := range g.Args[:n] {
			m[v] = Sym(fmt.Sprintf("sk!%d!%d", g.ID, i), v.Sort)
		}
		return proveGoal(hyp, Subst(g.Args[n], m), sec, depth)
	}
	if g.Op != "and" {
		if c := splitCond(hyp, g); c != nil {
			be, lg := "", ""
			for _, v := range []bool{true, false} {
				h2, g2 := assumeCase(hyp, g, c, v)
				r2, be2, lg2 := proveGoal(h2, g2, sec, depth+1)
				if r2 != Unsat {
					if r2 == Sat {
						r2 = Unknown
					}
					return r2, be2, lg2
				}
				be, lg = be2, lg2
			}
			return Unsat, be, lg
		}
	}
	if depth > 0 && g.Op != "and" {
		as := append(append([]*Term{}, hyp...), instances(hyp, []*Term{goal}, 3, 200)...)
		if r, be, lg := Solve(absArith(append(as, Not(g))), 0); r == Unsat {
			return r, be, lg
		}
	}
	r, be, lg := Solve(full(goal), 0)
	if r != Unknown {
		return r, be, lg
	}
	if g.Op != "and" {
		small := instances(hyp, []*Term{goal}, 3, 200)
		ins := instances(hyp, append([]*Term{goal}, qfOnly(hyp)...), 3, 400)
		for _, in := range [][]*Term{small, ins} {
			as := append(append([]*Term{}, hyp...), in...)
			as = append(as, Not(g))
			qf := qfOnly(as)
			for _, try := range [][]*Term{absArith(as), qf, as} {
				if r, be, lg := Solve(try, 0); r == Unsat {
					return r, be, lg
				}
			}
		}
		if sec > 0 && len(ins) > 0 {
			return Solve(append(append(append([]*Term{}, hyp...), ins...), Not(g)), sec)
		}
		return Solve(full(goal), sec)
	}
	for _, c := range g.Args {
		r2, be2, lg2 := proveGoal(hyp, c, sec, depth+1)
		if r2 != Unsat {
			return r2, be2, lg2
		}
		be, lg = be2, lg2
	}
	return Unsat, be, lg
}

// absArith replaces divisions and remainders by fresh symbols (a generalisation: unsat carries over).
func absArith(ts []*Term) []*Term {
	m := map[*Term]*Term{}
	var extra []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.Bound {
			return
		}
		seen[t] = true
		if t.Op == "div" || t.Op == "mod" {
			m[t] = Sym(fmt.Sprintf("abs!%d", t.ID), SInt)
			if t.Op == "mod" && t.Args[1].isLit() && t.Args[1].Lit.Sign() > 0 {
				extra = append(extra, Le(I(0), m[t]), Lt(m[t], t.Args[1]))
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	out := extra
	for _, t := range ts {
		out = append(out, Subst(t, m))
	}
	return out
}

// proveFast is proveGoal with small time limits, for candidate invariants.
func proveFast(pc []*Term, goal *Term, ms int) bool {
	if goal == True {
		return true
	}
	for _, a := range pc {
		if a == goal || a == False {
			return true
		}
	}
	g, hyp := goal, pc
	for g.Op == "=>" || g.Op == "forall" {
		if g.Op == "=>" {
			hyp = append(append([]*Term{}, hyp...), g.Args[0])
			g = g.Args[1]
			continue
		}
		m := map[*Term]*Term{}
		n := len(g.Args) - 1
		for i, v := range g.Args[:n] {
			m[v] = Sym(fmt.Sprintf("sk!%d!%d", g.ID, i), v.Sort)
		}
		g = Subst(g.Args[n], m)
	}
	if g == True {
		return true
	}
	if g.Op == "and" {
		for _, c := range g.Args {
			if !proveFast(hyp, c, ms) {
				return false
			}
		}
		return true
	}
	if c := splitCond(hyp, g); c != nil {
		for _, v := range []bool{true, false} {
			h2, g2 := assumeCase(hyp, g, c, v)
			if !proveFast(h2, g2, ms) {
				return false
			}
		}
		return true
	}
	q := func(as []*Term, ms int) Result {
		for _, a := range as {
			if a == False {
				return Unsat
			}
		}
		r, _ := quickZ3(BuildQuery(as), ms)
		return r
	}
	as := append(append([]*Term{}, hyp...), Not(g))
	r := q(qfOnly(as), ms/4)
	if r == Unsat {
		return true
	}
	small := append(append([]*Term{}, as...), instances(append(hyp, Not(g)), []*Term{g}, 3, 200)...)
	switch q(absArith(qfOnly(small)), ms/4) {
	case Unsat:
		return true
	case Sat:
		// probably refuted: do not spend the whole budget on it
		if q(qfOnly(small), ms/4) == Sat {
			ms /= 4
		}
	}
	if r := q(absArith(small), ms/2); r == Unsat {
		return true
	}
	if r := q(as, ms/2); r != Unknown {
		return r == Unsat
	}
	big := append(append([]*Term{}, as...), instances(hyp, append([]*Term{g}, qfOnly(hyp)...), 3, 300)...)
	return q(big, ms) == Unsat
}
