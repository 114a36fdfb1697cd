package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- field aliases (unexported fields renamed by a refactoring) ----------

// fieldAlias maps a field name used in the contracts to the current name.
func (w *World) fieldAlias(strct, name string) string {
	if m := w.aliases[strct]; m != nil {
		if n, ok := m[name]; ok {
			return n
		}
	}
	return name
}

// computeAliases compares the recorded layout with the current structs.
func (w *World) computeAliases(layout map[string][][2]string) {
	w.aliases = map[string]map[string]string{}
	for sn, fields := range layout {
		t := w.lookupType(sn)
		if t == nil {
			continue
		}
		s := structOf(t)
		if s == nil {
			continue
		}
		orig := map[string]bool{}
		for _, f := range fields {
			orig[f[0]] = true
		}
		cur := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			cur[s.Field(i).Name()] = true
		}
		used := map[string]bool{}
		for _, f := range fields {
			if cur[f[0]] {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				n := s.Field(i).Name()
				if orig[n] || used[n] || typeStr(s.Field(i).Type()) != f[1] {
					continue
				}
				used[n] = true
				if w.aliases[sn] == nil {
					w.aliases[sn] = map[string]string{}
				}
				w.aliases[sn][f[0]] = n
				break
			}
		}
	}
	g := map[string]guardSpec{}
	for k, v := range specs.Guards {
		p := strings.SplitN(strings.TrimPrefix(k, "F:"), ".", 2)
		l := strings.SplitN(v.lock, ".", 2)
		if len(l) == 1 {
			g["F:"+p[0]+"."+w.fieldAlias(p[0], p[1])] = guardSpec{global: v.lock}
			continue
		}
		g["F:"+p[0]+"."+w.fieldAlias(p[0], p[1])] = guardSpec{lock: l[0] + "." + w.fieldAlias(l[0], l[1])}
	}
	specs.Guards = g
}

func (w *World) layout() string {
	var out []string
	sc := w.pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s := structOf(tn.Type())
		if s == nil {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, n+"\t"+s.Field(i).Name()+"\t"+typeStr(s.Field(i).Type()))
		}
	}
	return strings.Join(out, "\n") + "\n"
}

// ---------- call-site use of contracts ----------

func (x *Exec) bindArgs(sp *FuncSpec, f *ssa.Function, args []Val) map[string]SVal {
	env := map[string]SVal{}
	for i, p := range f.Params {
		if i < len(sp.Params) {
			env[sp.Params[i]] = SVal{V: args[i], T: p.Type()}
		}
	}
	return env
}

type modTarget struct {
	kind   string // field, elems, map, all
	key    string
	ref    *Term
	lo, hi *Term // absolute range for elems
	typ    types.Type
	at     *Term // map key
}

func (ev *Eval) modTargets(cls []*Clause) []modTarget {
	var out []modTarget
	for _, cl := range cls {
		for _, e := range cl.Exprs {
			switch e := e.(type) {
			case *ast.SelectorExpr:
				v := ev.eval(e.X)
				T := v.T
				ref := v.V.T
				if types.IsInterface(T) {
					T = W.closedFor(T)
					ref = IVal(ref)
				}
				st := under(T).(*types.Pointer).Elem()
				name := e.Sel.Name
				if n, ok := types.Unalias(st).(*types.Named); ok {
					name = W.fieldAlias(n.Obj().Name(), name)
				}
				_, path, _ := types.LookupFieldOrMethod(T, true, W.pkg.Pkg, name)
				if path == nil {
					specFail("modifies: no field %s", name)
				}
				cur := st
				for d, i := range path {
					a := ev.x.fieldAddr(ev.cur, ref, cur, i)
					ft := under(cur).(*types.Struct).Field(i).Type()
					if a.Addr == nil {
						ref, cur = a.T, ft
						continue
					}
					if d == len(path)-1 {
						out = append(out, modTarget{kind: "field", key: a.Addr.key, ref: ref, typ: ft})
					}
				}
			case *ast.CallExpr:
				switch kindArg(e.Fun) {
				case "elems":
					v := ev.eval(e.Args[0])
					el := under(v.T).(*types.Slice).Elem()
					m := modTarget{kind: "elems", key: "M:" + memKey(el), ref: SBase(v.V.T), typ: el}
					if len(e.Args) == 3 {
						m.lo = Add(SOff(v.V.T), ev.integer(e.Args[1]))
						m.hi = Add(SOff(v.V.T), ev.integer(e.Args[2]))
					} else {
						m.lo = SOff(v.V.T)
						m.hi = Add(SOff(v.V.T), SCap(v.V.T))
					}
					out = append(out, m)
				case "mapof":
					v := ev.eval(e.Args[0])
					m := modTarget{kind: "map", key: mapKey(v.T), ref: v.V.T, typ: v.T}
					if len(e.Args) == 2 {
						m.at = ev.boxTo(ev.eval(e.Args[1]), under(v.T).(*types.Map).Key())
					}
					out = append(out, m)
				case "anything":
					out = append(out, modTarget{kind: "all"})
				}
			}
		}
	}
	return out
}

func (x *Exec) applyContract(st *State, fr *Frame, sp *FuncSpec, f *ssa.Function, args []Val, k func(*State, Val)) bool {
	env := x.bindArgs(sp, f, args)
	mkEval := func(s *State) *Eval {
		ev := x.newEval(s)
		ev.env = env
		return ev
	}
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(specErr); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		if f.Signature.Recv() != nil && len(args) > 0 {
			if _, isP := under(f.Params[0].Type()).(*types.Pointer); isP {
				rv := x.term(args[0], f.Params[0].Type())
				g := Not(Eq(rv, I(0)))
				if !x.freshObj[rootRef(rv)] && !(rv.Op == "app" && len(rv.Args) > 0) && !st.pcset[g] && x.effects == 0 && !Proved(st.pc, g, 1000) {
					return false
				}
			}
		}
		var need []*Term
		for _, cl := range sp.Requires {
			if !cl.Ghost {
				need = append(need, mkEval(st).boolean(cl.Expr))
			}
		}
		if sp.Panics != nil {
			// the contract describes the calls that return
			need = append(need, Not(mkEval(st).boolean(sp.Panics.Expr)))
		}
		for _, g := range need {
			if g == True {
				continue
			}
			if x.effects > 0 {
				// effects are re-collected when the invariants are known
				st.assume(g)
				continue
			}
			if !Proved(st.pc, g, 400) && !proveFast(st.pc, g, 2000) {
				return false
			}
		}
		return true
	}()
	if !ok {
		return false
	}
	x.used[sp.Name] = true
	if x.mute == 0 {
		for _, cl := range sp.Requires {
			if !cl.Ghost {
				x.obls = append(x.obls, &Obl{Unit: x.unit.Name, Kind: "requires", Name: "precondition of " + sp.Name + ": " + cl.Text, Res: Unsat, Backend: "z3-incremental", Goal: True})
			}
		}
	}
	old := st.clone()
	old.pcset = st.pcset
	// havoc
	ev := mkEval(st)
	A2 := x.fresh("A", SInt)
	st.assume(Le(st.A, A2))
	ts := ev.modTargets(sp.Modifies)
	st.A = A2
	for _, t := range ts {
		switch t.kind {
		case "field":
			arr := x.hget(st, t.key, ArrSort(SInt, sortOf(t.typ)))
			nv := x.freshVal(st, "mod."+t.key, t.typ)
			x.hset(st, t.key, Store(arr, t.ref, nv.T))
		case "elems":
			es := sortOf(t.typ)
			m := x.hget(st, t.key, ArrSort(SInt, ArrSort(SInt, es)))
			fa := x.fresh("mod.elems", ArrSort(SInt, es))
			x.hset(st, t.key, Store(m, t.ref, CopyArr(Select(m, t.ref), fa, t.lo, I(0), Sub(t.hi, t.lo))))
		case "map":
			mt := under(t.typ).(*types.Map)
			ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
			d := x.hget(st, "MD:"+t.key, ArrSort(SInt, ArrSort(ks, SBool)))
			v := x.hget(st, "MV:"+t.key, ArrSort(SInt, ArrSort(ks, vs)))
			l := x.hget(st, "ML:"+t.key, ArrSort(SInt, SInt))
			if t.at != nil {
				x.hset(st, "MD:"+t.key, Store(d, t.ref, Store(Select(d, t.ref), t.at, x.fresh("hd", SBool))))
				x.hset(st, "MV:"+t.key, Store(v, t.ref, Store(Select(v, t.ref), t.at, x.fresh("hv", vs))))
			} else {
				x.hset(st, "MD:"+t.key, Store(d, t.ref, x.fresh("hd", ArrSort(ks, SBool))))
				x.hset(st, "MV:"+t.key, Store(v, t.ref, x.fresh("hv", ArrSort(ks, vs))))
			}
			x.hset(st, "ML:"+t.key, Store(l, t.ref, x.fresh("hl", SInt)))
		default:
			panic(unsupported("modifies anything at a call"))
		}
	}
	rs := f.Signature.Results()
	var res []Val
	for i := 0; i < rs.Len(); i++ {
		r := x.freshVal(st, f.Name()+".res", rs.At(i).Type())
		res = append(res, r)
		if i < len(sp.Results) {
			env[sp.Results[i]] = SVal{V: r, T: rs.At(i).Type()}
		}
	}
	for _, cl := range sp.Ensures {
		if cl.Ghost {
			continue
		}
		e := mkEval(st)
		e.old = old
		st.assume(e.boolean(cl.Expr))
	}
	k(st, packRes(res))
	return true
}

// ---------- verification of one unit ----------

type UnitResult struct {
	Spec    *FuncSpec
	Obls    []*Obl
	Err     string
	Used    []string
	Inlined []string
	Trusted []string
	Returns int
	Segs    int
	Paths   int
	Loops   int
	Vacuous string
	Time    time.Duration
	Missing bool
	Solved  bool
}

func newExec(sp *FuncSpec) *Exec {
	return &Exec{unit: sp, rng: map[*Term]ival{}, invLoops: map[string]bool{}, cnt: map[string]int{}, used: map[string]bool{},
		trusted: map[string]bool{}, inlined: map[string]bool{}, addrOf: map[*Term]*Addr{}, closures: map[*Term]*Closure{},
		guardOf: map[*Term]guardInfo{}, env: map[string]SVal{}, ksort: map[string]Sort{}, allocs: map[*Term]bool{}, touched: map[*Term]bool{},
		maxPaths: 4000, evKinds: map[string]bool{}, freshObj: map[*Term]bool{}, goSeen: map[string]bool{}}
}

var debugFlag bool

func RunUnit(sp *FuncSpec) (res *UnitResult) {
	t0 := time.Now()
	res = &UnitResult{Spec: sp}
	f := W.funcByName(sp.Fn)
	if f == nil {
		res.Missing = true
		res.Err = "function " + sp.Fn + " not found"
		return
	}
	W.ensureBuilt(f)
	inv := map[string]bool{}
	var x *Exec
	for try := 0; ; try++ {
		x = newExec(sp)
		x.invLoops = inv
		x.debug = debugFlag
		again := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch e := r.(type) {
					case restart:
						again = e.loop
					case unsupportedErr:
						res.Err = "outside the verifier's reach: " + e.msg
					case specErr:
						res.Err = "specification cannot be evaluated: " + e.msg
					default:
						panic(r)
					}
				}
			}()
			x.runUnit(f, res)
		}()
		if again == "" {
			break
		}
		if inv[again] || try > 60 {
			res.Err = "loop " + again + " could not be treated"
			break
		}
		inv[again] = true
	}
	res.Obls = x.obls
	res.Used = setKeys(x.used)
	res.Inlined = setKeys(x.inlined)
	res.Trusted = setKeys(x.trusted)
	res.Returns, res.Segs, res.Paths, res.Loops = x.returns, x.segs, x.paths, len(inv)
	if res.Err == "" && res.Vacuous == "" && x.returns == 0 {
		res.Vacuous = "no execution of " + sp.Fn + " reaches a checked point"
	}
	res.Time = time.Since(t0)
	return
}

func setKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (x *Exec) runUnit(f *ssa.Function, res *UnitResult) {
	sp := x.unit
	A0 := Sym("A0", SInt)
	st := &State{pcset: map[*Term]bool{}, heap: map[string]*Term{}, gens: []genRec{{id: 0, A: A0}}, A: A0}
	st.assume(Lt(I(0), A0))
	x.hset(st, "LK", ConstArr(ArrSort(SInt, SInt), I(0)))
	x.resetTrace(st)
	if len(f.Params) != len(sp.Params) {
		specFail("%s has %d parameters, the contract names %d", sp.Fn, len(f.Params), len(sp.Params))
	}
	var args []Val
	for i, p := range f.Params {
		v := x.freshVal(st, "arg."+sp.Params[i], p.Type())
		args = append(args, v)
		x.env[sp.Params[i]] = SVal{V: v, T: p.Type()}
		if i == 0 && f.Signature.Recv() != nil {
			if _, ok := under(p.Type()).(*types.Pointer); ok {
				st.assume(Lt(I(0), v.T))
			}
		}
	}
	ev0 := x.newEval(st)
	for _, g := range sp.Ghosts {
		var t types.Type
		switch g.typ {
		case "int":
			t = types.Typ[types.Int]
		default:
			e, err := parseTypeExpr(g.typ)
			if err != nil {
				specFail("ghost type %s", g.typ)
			}
			t = ev0.typ(e)
		}
		v := x.freshVal(st, "ghost."+g.name, t)
		x.env[g.name] = SVal{V: v, T: t}
	}
	x.entry = st
	for _, cl := range sp.Requires {
		ev := x.newEval(st)
		st.assume(ev.boolean(cl.Expr))
	}
	x.assumeSegInv(st)
	for _, cl := range sp.Hints {
		x.hint(st, cl)
	}
	x.entry = st.clone()
	// the entry snapshot shares facts with the running state
	if r, _, _ := Solve(st.pc, 5); r == Unsat {
		res.Vacuous = "the precondition of " + sp.Name + " is unsatisfiable"
		return
	}
	var mods []modTarget
	if sp.HasMod {
		mods = x.newEval(st).modTargets(sp.Modifies)
	}
	x.static0(st, f, args, func(s *State, rv []Val) {
		x.returns++
		rs := f.Signature.Results()
		for i := 0; i < rs.Len() && i < len(sp.Results); i++ {
			x.env[sp.Results[i]] = SVal{V: rv[i], T: rs.At(i).Type()}
		}
		for _, cl := range sp.Hints {
			x.hint(s, cl)
		}
		for _, cl := range sp.Ensures {
			ev := x.newEval(s)
			g := ev.boolean(cl.Expr)
			x.oblige(s, "ensures", cl.Text, g, cl.Tags, fmt.Sprintf("path %d", x.returns))
		}
		for _, cl := range sp.SegInv {
			x.oblige(s, "seginv", "kept: "+cl.Text, x.newEval(s).boolean(cl.Expr), cl.Tags, fmt.Sprintf("path %d", x.returns))
		}
		if sp.HasMod {
			x.frameCheck(s, mods)
		}
		if sp.IsContract {
			x.oblige(s, "frame", "no calls out of the module", Eq(x.tcount(s), I(0)), nil, "")
		}
		x.lockRestored(s, "return")
		if sp.Panics != nil {
			x.oblige(s, "panics", "panics whenever "+sp.Panics.Text, Not(x.evalBoolOld(s, sp.Panics.Expr)), sp.Panics.Tags, "")
		}
	})
}

func (x *Exec) hint(st *State, cl *Clause) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); !ok {
				panic(r)
			}
		}
	}()
	t := x.newEval(st).eval(cl.Expr)
	if t.V.T == nil || t.V.T.Sort != SInt {
		return
	}
	st.assume(mk("=", "", SBool, nil, t.V.T, t.V.T))
}

func parseTypeExpr(s string) (ast.Expr, error) { return parserParse(s) }

// static0 runs the body of the unit's function.
func (x *Exec) static0(st *State, f *ssa.Function, args []Val, k func(*State, []Val)) {
	x.inline(st, f, args, nil, nil, k)
}

// frameCheck: everything that existed at entry and is not in modifies is unchanged.
func (x *Exec) frameCheck(s *State, mods []modTarget) {
	for _, m := range mods {
		if m.kind == "all" {
			return
		}
	}
	A0 := x.entry.A
	isFresh := func(t *Term) bool {
		r := rootRef(t)
		if x.freshObj[r] {
			return true
		}
		if r.isLit() {
			return false
		}
		g := Le(A0, r)
		return s.pcset[g] || provedSliced(s.pc, g, 400)
	}
	for _, k := range sortedKeys(s.heap) {
		if k == "LK" || strings.HasPrefix(k, "T:") || strings.HasPrefix(k, "W:") || strings.HasPrefix(k, "IT:") || strings.HasPrefix(k, "X:") {
			continue
		}
		cur := s.heap[k]
		old := x.entry.get(k, cur.Sort)
		if cur == old {
			continue
		}
		// strip stores to objects allocated since entry
		var chain []*Term
		t := cur
		for t != old && t.Op == "store" {
			chain = append(chain, t)
			t = t.Args[0]
		}
		base := t
		nt := base
		for i := len(chain) - 1; i >= 0; i-- {
			if base == old && isFresh(chain[i].Args[1]) {
				continue
			}
			nt = Store(nt, chain[i].Args[1], chain[i].Args[2])
		}
		if nt == old {
			continue
		}
		r := x.fresh("fr", SInt)
		var allowed []*Term
		if strings.HasPrefix(k, "M:") {
			i := x.fresh("fi", SInt)
			for _, m := range mods {
				if m.kind == "elems" && m.key == k {
					allowed = append(allowed, And(Eq(r, m.ref), Le(m.lo, i), Lt(i, m.hi)))
				}
			}
			// references from A0 on belong to objects allocated since entry
			allowed = append(allowed, Le(A0, r))
			g := Or(append(allowed, Eq(Select(Select(nt, r), i), Select(Select(old, r), i)))...)
			x.oblige(s, "frame", "only the declared elements of "+k[2:]+" arrays change", g, nil, "")
			continue
		}
		what := strings.TrimPrefix(k, "F:")
		for _, m := range mods {
			switch {
			case m.kind == "field" && m.key == k:
				allowed = append(allowed, Eq(r, m.ref))
			case m.kind == "map" && (k == "MD:"+m.key || k == "MV:"+m.key || k == "ML:"+m.key):
				if m.at == nil || k == "ML:"+m.key {
					allowed = append(allowed, Eq(r, m.ref))
				} else {
					_, in := arrParts(cur.Sort)
					ks, _ := arrParts(in)
					q := x.fresh("fk", ks)
					g := Or(Not(Eq(r, m.ref)), Eq(q, m.at), Eq(Select(Select(nt, r), q), Select(Select(old, r), q)))
					x.oblige(s, "frame", "only the declared entry of the map changes", g, nil, "")
					allowed = append(allowed, Eq(r, m.ref))
				}
			}
		}
		allowed = append(allowed, Le(A0, r))
		g := Or(append(allowed, Eq(Select(nt, r), Select(old, r)))...)
		x.oblige(s, "frame", "only the declared locations of "+what+" change", g, nil, "")
	}
}
