package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
)

func parserParse(s string) (ast.Expr, error) { return parser.ParseExpr(s) }

var (
	repoDir   = flag.String("repo", "/repo", "repository under check")
	verifDir  = flag.String("verif", "/verif", "framework directory")
	propFlag  = flag.String("prop", "", "property to decide")
	unitFlag  = flag.String("unit", "", "verify only this unit (debugging)")
	layoutF   = flag.Bool("layout", false, "print the struct layout")
	tierFlag  = flag.String("tier", "quick", "quick or thorough")
	verbose   = flag.Bool("v", false, "print every obligation")
	dumpFlag  = flag.String("dump", "", "write the query of failing obligations to this directory")
	noReplay  = flag.Bool("noreplay", false, "do not run the replay harness")
	evDir     = flag.String("evidence", "", "evidence directory")
	timeLimit = flag.Int("budget", 600, "overall time budget in seconds")
)

func isExportedFn(n string) bool {
	m := n
	if i := strings.LastIndex(n, "."); i >= 0 {
		m = n[i+1:]
	}
	return m != "" && unicode.IsUpper(rune(m[0]))
}

func readLayout(p string) map[string][][2]string {
	out := map[string][][2]string{}
	b, err := os.ReadFile(p)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 3 {
			out[f[0]] = append(out[f[0]], [2]string{f[1], f[2]})
		}
	}
	return out
}

func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

func (o *Obl) id() string { return o.Unit + ": " + o.Kind + ": " + o.Name }

// relevant obligations of a unit result for property p
func relevant(r *UnitResult, p string) []*Obl {
	own := p == "" || hasProp(r.Spec.Props, p)
	var out []*Obl
	for _, o := range r.Obls {
		if own {
			if p != "" && len(o.Props) > 0 && !hasProp(o.Props, p) {
				continue
			}
			if r.Spec.LockOnly && len(o.Props) == 0 {
				continue
			}
		} else {
			if len(o.Props) == 1 && o.Props[0] == "C18" {
				continue
			}
		}
		out = append(out, o)
	}
	return out
}

type runner struct {
	mu   sync.Mutex
	done map[string]*UnitResult
	wg   sync.WaitGroup
	sem  chan struct{}
}

func (r *runner) start(sp *FuncSpec) {
	r.mu.Lock()
	if _, ok := r.done[sp.Name]; ok {
		r.mu.Unlock()
		return
	}
	r.done[sp.Name] = nil
	r.mu.Unlock()
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		r.sem <- struct{}{}
		u := RunUnit(sp)
		<-r.sem
		r.mu.Lock()
		r.done[sp.Name] = u
		r.mu.Unlock()
		for _, n := range u.Used {
			if s := specs.ByName[n]; s != nil {
				r.start(s)
			}
		}
	}()
}

var failedSoFar int32

func solveObls(obls []*Obl, sec int, deadline time.Time) {
	// identical goals on identical paths are solved once
	type job struct{ os []*Obl }
	idx := map[*Term]*job{}
	var jobs []*job
	for _, o := range obls {
		if o.Res == Unsat {
			continue
		}
		k := And(append(append([]*Term{}, o.PC...), Not(o.Goal))...)
		j := idx[k]
		if j == nil {
			j = &job{}
			idx[k] = j
			jobs = append(jobs, j)
		}
		j.os = append(j.os, o)
	}
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				o := j.os[0]
				var r Result
				var be, lg string
				if o.Goal == True {
					r, be = Unsat, "simplifier"
				} else {
					s := sec
					if atomic.LoadInt32(&failedSoFar) > 0 || time.Now().After(deadline) {
						s = 0
					}
					r, be, lg = ProveObl(o, s)
				}
				if r != Unsat {
					atomic.AddInt32(&failedSoFar, 1)
				}
				for _, q := range j.os {
					q.Res, q.Backend, q.Log = r, be, lg
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

type failure struct {
	what string
	log  string
	obl  *Obl
}

func main() {
	flag.Parse()
	debugFlag = *verbose
	t0 := time.Now()
	w, err := LoadWorld(*repoDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
		if *propFlag != "" {
			report(*propFlag, []failure{{what: "the repository does not load: " + err.Error()}}, nil, t0, nil)
		}
		os.Exit(1)
	}
	W = w
	if *layoutF {
		fmt.Print(w.layout())
		return
	}
	if err := LoadSpecs(filepath.Join(*verifDir, "contracts")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w.computeAliases(readLayout(filepath.Join(*verifDir, "contracts", "layout.txt")))
	deadline := t0.Add(time.Duration(*timeLimit) * time.Second)
	execDeadline = deadline
	for _, s := range autoLockUnits("C18") {
		specs.ByName[s.Name] = s
		specs.Order = append(specs.Order, s)
	}
	r := &runner{done: map[string]*UnitResult{}, sem: make(chan struct{}, runtime.NumCPU())}
	var roots []*FuncSpec
	for _, s := range specs.Order {
		if *unitFlag != "" {
			if s.Name == *unitFlag || strings.Contains(s.Name, *unitFlag) && !strings.Contains(*unitFlag, "(") {
				roots = append(roots, s)
			}
			continue
		}
		if *propFlag == "" || hasProp(s.Props, *propFlag) {
			if W.funcByName(s.Fn) == nil && !isExportedFn(s.Fn) {
				continue
			}
			roots = append(roots, s)
		}
	}
	if *propFlag != "" && *unitFlag == "" && len(roots) == 0 {
		fmt.Fprintln(os.Stderr, "no units for", *propFlag)
		os.Exit(3)
	}
	for _, s := range roots {
		r.start(s)
	}
	r.wg.Wait()
	var units []*UnitResult
	for _, u := range r.done {
		units = append(units, u)
	}
	sort.Slice(units, func(i, j int) bool { return units[i].Spec.Name < units[j].Spec.Name })
	var obls []*Obl
	var fails []failure
	for _, u := range units {
		if u.Err != "" {
			fails = append(fails, failure{what: "unit " + u.Spec.Name + ": " + u.Err})
			continue
		}
		if u.Vacuous != "" {
			fails = append(fails, failure{what: "unit " + u.Spec.Name + ": vacuous: " + u.Vacuous})
			continue
		}
		rel := relevant(u, *propFlag)
		if *unitFlag != "" && *propFlag == "" {
			rel = u.Obls
		}
		obls = append(obls, rel...)
	}
	sec := 25
	if *tierFlag == "thorough" {
		sec = 60
	}
	solveObls(obls, sec, deadline)
	for _, o := range obls {
		if o.Res != Unsat {
			fails = append(fails, failure{what: "obligation not discharged (" + o.Res.String() + "): " + o.id() + " [" + o.Where + "]", log: o.Log, obl: o})
		}
	}
	if *verbose || *unitFlag != "" {
		for _, u := range units {
			fmt.Printf("== %s  returns=%d segs=%d paths=%d loops=%d obls=%d %.1fs %s %s\n", u.Spec.Name, u.Returns, u.Segs, u.Paths, u.Loops, len(u.Obls), u.Time.Seconds(), u.Err, u.Vacuous)
			if *verbose {
				for _, o := range relevant(u, *propFlag) {
					fmt.Printf("   %-8s %-12s %s: %s [%s]\n", o.Res, o.Backend, o.Kind, o.Name, o.Where)
				}
			}
		}
	}
	if *dumpFlag != "" {
		os.MkdirAll(*dumpFlag, 0755)
		for i, f := range fails {
			if f.obl != nil && i < 20 {
				q := BuildQuery(append(append([]*Term{}, f.obl.PC...), Not(f.obl.Goal)))
				os.WriteFile(filepath.Join(*dumpFlag, fmt.Sprintf("fail%d.smt2", i)), []byte("; "+f.what+"\n"+q+"\n(check-sat)\n(get-model)\n"), 0644)
			}
		}
	}
	if *propFlag == "" {
		seen := map[string]bool{}
		for _, f := range fails {
			if !seen[f.what] {
				seen[f.what] = true
				fmt.Println("FAIL", f.what, firstLines(f.log, 2))
			}
		}
		fmt.Printf("%d units, %d obligations, %d failures, %.1fs (solver %.1fs, %d queries)\n", len(units), len(obls), len(fails), time.Since(t0).Seconds(), stats.Time.Seconds(), stats.Queries)
		if len(fails) > 0 {
			os.Exit(1)
		}
		return
	}
	if debugSolve {
		for k, v := range catT {
			fmt.Fprintf(os.Stderr, "cat %8.1fs %6d %s\n", v.Seconds(), catN[k], k)
		}
	}
	os.Exit(report(*propFlag, fails, units, t0, obls))
}

func seed() int {
	n := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}

// report writes evidence and, for failures, the replay file and the VIOLATION line.
func report(prop string, fails []failure, units []*UnitResult, t0 time.Time, obls []*Obl) int {
	ed := *evDir
	if ed == "" {
		ed = filepath.Join(*verifDir, "evidence")
	}
	os.MkdirAll(ed, 0755)
	disch := 0
	byBackend := map[string]int{}
	byKind := map[string]int{}
	for _, o := range obls {
		byKind[o.Kind]++
		if o.Res == Unsat {
			disch++
			byBackend[o.Backend]++
		}
	}
	trusted := map[string]bool{}
	inl := map[string]bool{}
	var under []string
	paths := 0
	loops := 0
	for _, u := range units {
		for _, t := range u.Trusted {
			trusted[t] = true
		}
		for _, t := range u.Inlined {
			inl[t] = true
		}
		kind := "entry point"
		if u.Spec.IsContract {
			kind = "contract"
		}
		under = append(under, u.Spec.Name+" ("+kind+")")
		paths += u.Returns + u.Segs
		loops += u.Loops
	}
	base := append([]string{
		"gover symbolic executor and its SSA semantics (/verif/gover), golang.org/x/tools/go/ssa v0.52.0, go/types",
		"SMT solvers z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
		"sequential reasoning: each operation is verified as a single thread; interference only where the lock-discipline check (C18) excludes it",
		"machine integers are modelled exactly (wrap-around); slice capacities <= 2^48; loops run < 2^62 iterations; allocation never fails; floats as reals",
	}, setKeys(trusted)...)
	cov := map[string]interface{}{
		"obligations":              len(obls),
		"discharged":               disch,
		"checker_cmd":              fmt.Sprintf("bin/gover -prop %s -tier %s", prop, *tierFlag),
		"trusted_base":             base,
		"functions_under_contract": under,
		"functions_inlined":        setKeys(inl),
		"obligations_by_backend":   byBackend,
		"obligations_by_kind":      byKind,
		"solver_seconds":           stats.Time.Seconds(),
		"solver_queries":           stats.Queries,
		"symbolic_paths":           paths,
		"loops_with_invariants":    loops,
	}
	viol := 0
	code := 0
	if len(fails) > 0 {
		viol = 1
		code = 1
	}
	ev := map[string]interface{}{
		"property": prop, "tier": *tierFlag, "seed": seed(), "level": "proof", "coverage": cov,
		"assumptions": base, "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	if code == 1 {
		var fs []string
		for i, f := range fails {
			if i < 30 {
				fs = append(fs, f.what)
			}
		}
		cov["failed"] = fs
	}
	write := func() {
		ev["wall_s"] = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(ed, prop+".json"), append(b, '\n'), 0644)
	}
	write()
	if code == 0 {
		fmt.Printf("property %s: %d obligations discharged over %d functions, %.1fs (solver %.1fs)\n", prop, disch, len(units), time.Since(t0).Seconds(), stats.Time.Seconds())
		return 0
	}
	rp := filepath.Join(ed, prop+"_replay.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", prop)
	seen := map[string]bool{}
	n := 0
	for _, f := range fails {
		if seen[f.what] {
			continue
		}
		seen[f.what] = true
		n++
		if n > 40 {
			break
		}
		fmt.Fprintf(&sb, "FAILED %s\n", f.what)
		fmt.Println("FAILED", f.what)
		if f.log != "" {
			fmt.Fprintf(&sb, "  solver: %s\n", firstLines(f.log, 4))
		}
	}
	for _, f := range fails {
		if f.obl != nil && f.obl.Res == Sat {
			fmt.Fprintf(&sb, "\ncounterexample of the verifier for: %s\n%s\n", f.what, GetModel(append(append([]*Term{}, f.obl.PC...), Not(f.obl.Goal))))
			break
		}
	}
	found := false
	if !*noReplay {
		out, bad := replay(prop)
		found = bad
		fmt.Fprintf(&sb, "\nreplay against the real code (go test -overlay, harness TestVerif%s):\n%s\n", prop, out)
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	write()
	if found {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

// replay runs the property's harness against the real code; true if it fails on a concrete input.
func replay(prop string) (string, bool) {
	files, _ := filepath.Glob(filepath.Join(*verifDir, "replay", "*_test.go"))
	if len(files) == 0 {
		return "no harness", false
	}
	repl := map[string]string{}
	for _, f := range files {
		repl[filepath.Join(*repoDir, filepath.Base(f))] = f
	}
	tmp, err := os.MkdirTemp("", "goverreplay")
	if err != nil {
		return err.Error(), false
	}
	defer os.RemoveAll(tmp)
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, b, 0644)
	bin := filepath.Join(tmp, "replay.test")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	bargs := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if prop == "C18" {
		bargs = append(bargs, "-race")
	}
	build := exec.CommandContext(ctx, "go", append(bargs, ".")...)
	build.Dir = *repoDir
	build.Env = env
	if o, err := build.CombinedOutput(); err != nil {
		return "harness does not build: " + string(o), false
	}
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif"+prop+"$", "-test.timeout", "100s", "-test.v")
	cmd.Dir = tmp
	cmd.Env = env
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err = cmd.Run()
	s := out.String()
	if len(s) > 20000 {
		s = s[:6000] + "\n...\n" + s[len(s)-14000:]
	}
	if strings.Contains(s, "no tests to run") {
		return "no harness for " + prop, false
	}
	return s, err != nil
}
