package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"time"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 60

var execDeadline time.Time

// callFn executes the body of f (inlining).
func (x *Exec) inline(st *State, f *ssa.Function, args []Val, bind []Val, from *Frame, k func(*State, []Val)) {
	W.ensureBuilt(f)
	if f.Blocks == nil {
		panic(unsupported("no body for " + f.String()))
	}
	n := 0
	for p := from; p != nil; p = p.parent {
		n++
		if p.fn == f {
			n += 10
		}
	}
	if n > maxDepth {
		panic(unsupported("call depth (recursion) at " + f.String()))
	}
	if f.Pkg != nil && f.Pkg == W.pkg {
		x.inlined[shortFn(f)] = true
	} else {
		x.inlined[f.String()] = true
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}, k: k, parent: from}
	if from != nil {
		fr.id = from.id + "/" + f.Name()
	} else {
		fr.id = f.Name()
	}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		fr.env[p] = bind[i]
	}
	if x.unit.Merge && from != nil {
		x.joined(func(kk func(*State, []Val)) {
			fr.k = kk
			x.runBlock(fr, f.Blocks[0], nil, st)
		}, k)
		return
	}
	x.runBlock(fr, f.Blocks[0], nil, st)
}

func (x *Exec) runBlock(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	if st.infeasible() {
		return
	}
	x.steps++
	if x.steps > 200000 {
		panic(unsupported("too many steps"))
	}
	if x.steps&31 == 0 && !execDeadline.IsZero() && time.Now().After(execDeadline) {
		panic(unsupported("time limit"))
	}
	// leaving invariant-mode loops
	for len(fr.loops) > 0 {
		lc := fr.loops[len(fr.loops)-1]
		if lc.body[b] {
			break
		}
		if lc.stopAtExit {
			lc.exited = true
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	lp := loopsOf(fr.fn)[b]
	if lp != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == b {
			lc := fr.loops[len(fr.loops)-1]
			lc.back(fr, pred, st)
			return
		}
		key := fr.id + "#" + fmt.Sprint(b.Index)
		inside := pred != nil && lp[pred]
		if x.invLoops[key] {
			if inside {
				panic("back edge without context")
			}
			x.enterLoop(fr, b, pred, st, lp)
			return
		}
		if !inside {
			fr.visits[b] = 0
		} else {
			fr.visits[b]++
			lim := 3
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				lim = 40
			}
			if fr.visits[b] > lim {
				panic(restart{key})
			}
		}
	}
	// phis
	i := 0
	if pred != nil {
		pi := -1
		for j, p := range b.Preds {
			if p == pred {
				pi = j
			}
		}
		var vals []Val
		var phis []*ssa.Phi
		for ; i < len(b.Instrs); i++ {
			ph, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, x.val(fr, st, ph.Edges[pi]))
		}
		for j, ph := range phis {
			fr.env[ph] = vals[j]
		}
	}
	x.runInstrs(fr, b, i, st)
}

func (x *Exec) runInstrs(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		if st.infeasible() {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, st, in.Cond).T
			if c == True {
				x.runBlock(fr, b.Succs[0], b, st)
				return
			}
			if c == False {
				x.runBlock(fr, b.Succs[1], b, st)
				return
			}
			ft, ff := feasible2(st.pc, c)
			if ft && ff {
				if lp := loopsOf(fr.fn)[b]; lp != nil {
					key := fr.id + "#" + fmt.Sprint(b.Index)
					if !x.invLoops[key] {
						panic(restart{key})
					}
				}
				x.paths++
				if x.paths > x.maxPaths {
					panic(unsupported("too many paths"))
				}
				st2 := st.clone()
				fr2 := fr.clone()
				st.assume(c)
				x.runBlock(fr, b.Succs[0], b, st)
				st2.assume(Not(c))
				x.runBlock(fr2, b.Succs[1], b, st2)
				return
			}
			if ft {
				st.assume(c)
				x.runBlock(fr, b.Succs[0], b, st)
			} else if ff {
				st.assume(Not(c))
				x.runBlock(fr, b.Succs[1], b, st)
			}
			return
		case *ssa.Jump:
			x.runBlock(fr, b.Succs[0], b, st)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(fr, st, r))
			}
			// returning out of invariant-mode loops
			for _, lc := range fr.loops {
				if lc.stopAtExit {
					lc.exited = true
					return
				}
			}
			fr.k(st, res)
			return
		case *ssa.Panic:
			x.doPanic(st, fr, "panic")
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			j := i
			x.runDefers(fr, ds, st, func(fr2 *Frame, st2 *State) {
				x.runInstrs(fr2, b, j+1, st2)
			})
			return
		case *ssa.Defer:
			// evaluate operands now
			dfr := fr.clone()
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{&in.Call, dfr})
		case *ssa.Go:
			x.doGo(st, fr, in)
		case *ssa.Call:
			j := i
			cfr := fr
			first := true
			x.call(st, fr, &in.Call, in, func(st2 *State, res Val) {
				f2 := cfr.clone()
				_ = first
				f2.env[in] = res
				x.runInstrs(f2, b, j+1, st2)
			})
			return
		case *ssa.Select:
			x.doSelect(st, fr, in, b, i)
			return
		case *ssa.Next:
			if x.doNext(st, fr, in, b, i) {
				return
			}
		case *ssa.TypeAssert:
			if x.typeAssert(st, fr, in, b, i) {
				return
			}
		default:
			x.simple(st, fr, in)
		}
	}
}

func (x *Exec) doPanic(st *State, fr *Frame, what string) {
	if x.unit.Panics != nil && x.mute == 0 && x.goDepth == 0 {
		// allowed exactly under the declared condition
		c := x.evalBoolOld(st, x.unit.Panics.Expr)
		x.oblige(st, "panics", "panics only when "+x.unit.Panics.Text+" (in "+shortFn(fr.fn)+")", c, x.unit.Panics.Tags, fr.id)
		x.returns++
		return
	}
	x.oblige(st, "safety", what+" unreachable in "+shortFn(fr.fn), False, nil, fr.id)
}

func (x *Exec) runDefers(fr *Frame, ds []deferred, st *State, k func(*Frame, *State)) {
	if len(ds) == 0 {
		k(fr, st)
		return
	}
	d := ds[len(ds)-1]
	x.call(st, d.fr, d.call, nil, func(st2 *State, _ Val) {
		x.runDefers(fr.clone(), ds[:len(ds)-1], st2, k)
	})
}

func (x *Exec) nilCheck(st *State, fr *Frame, p Val, what string) {
	if p.Addr != nil || p.Fn != nil {
		return
	}
	if x.freshObj[rootRef(p.T)] || (p.T.isLit() && p.T.Lit.Sign() != 0) {
		return
	}
	t := p.T
	if t.Op == "app" && (len(t.Args) > 0) {
		return // sub-object of a checked object
	}
	g := Not(Eq(t, I(0)))
	if st.pcset[g] {
		return
	}
	x.safety(st, fr, "nil dereference", g)
}

func elemType(t types.Type) types.Type { return under(t).(*types.Pointer).Elem() }

func (x *Exec) simple(st *State, fr *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		fr.env[in] = TV(x.newObject(st, elemType(in.Type())))
	case *ssa.BinOp:
		a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			fr.env[in] = TV(x.cmp(in.Op, a, b, in.X.Type(), in.Y.Type()))
		default:
			fr.env[in] = TV(x.arith(st, fr, in.Op, x.term(a, in.X.Type()), x.term(b, in.Y.Type()), in.Type(), in.Y.Type()))
		}
	case *ssa.UnOp:
		v := x.val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			x.nilCheck(st, fr, v, "load")
			if g, ok := in.X.(*ssa.Global); ok && g.Pkg != W.pkg {
				fr.env[in] = x.extGlobal(st, g)
				return
			}
			lv := x.load(st, v, in.Type())
			if g, ok := in.X.(*ssa.Global); ok && lv.T != nil {
				if lk := specs.GlobalGuards[g.Name()]; lk != "" {
					if lg, ok := W.pkg.Members[lk].(*ssa.Global); ok {
						x.guardOf[lv.T] = guardInfo{lock: I(int64(W.globalRef(lg))), name: g.Name()}
					}
				}
			}
			fr.env[in] = lv
		case token.NOT:
			fr.env[in] = TV(Not(v.T))
		case token.SUB:
			if v.T.Sort == SReal {
				fr.env[in] = TV(Neg(v.T))
			} else {
				fr.env[in] = TV(x.wrap(st, Neg(v.T), in.Type()))
			}
		case token.XOR:
			if lo, hi, ok := intBounds(in.Type()); ok {
				if lo.Sign() == 0 {
					fr.env[in] = TV(Sub(IBig(hi), v.T))
				} else {
					fr.env[in] = TV(Sub(I(-1), v.T))
				}
			}
		case token.ARROW:
			fr.env[in] = x.recv(st, fr, v, in.X.Type(), in.CommaOk)
		default:
			panic(unsupported("unop " + in.Op.String()))
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var op ssa.Value
		if c, ok := in.(*ssa.ChangeInterface); ok {
			op = c.X
		} else {
			op = in.(*ssa.ChangeType).X
		}
		fr.env[in.(ssa.Value)] = x.val(fr, st, op)
	case *ssa.Convert:
		fr.env[in] = x.convert(st, fr, x.val(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		fr.env[in] = TV(x.box(x.val(fr, st, in.X), in.X.Type()))
	case *ssa.Extract:
		fr.env[in] = x.val(fr, st, in.Tuple).F[in.Index]
	case *ssa.Field:
		fr.env[in] = x.val(fr, st, in.X).F[in.Field]
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		x.nilCheck(st, fr, p, "field")
		fr.env[in] = x.fieldAddr(st, p.T, elemType(in.X.Type()), in.Field)
	case *ssa.Index:
		v := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index).T
		if a, ok := under(in.X.Type()).(*types.Array); ok {
			x.bounds(st, fr, i, I(a.Len()))
			fr.env[in] = TV(Select(v.T, i))
			return
		}
		// string
		x.bounds(st, fr, i, App("strlen", SInt, v.T))
		e := Select(App("strarr", ArrSort(SInt, SInt), v.T), i)
		x.typeFacts(st, e, types.Typ[types.Uint8], nil, nil)
		fr.env[in] = TV(e)
	case *ssa.IndexAddr:
		v := x.val(fr, st, in.X)
		i := x.term(x.val(fr, st, in.Index), in.Index.Type())
		switch u := under(in.X.Type()).(type) {
		case *types.Slice:
			x.bounds(st, fr, i, SLen(v.T))
			fr.env[in] = x.elemAddr(SBase(v.T), Add(SOff(v.T), i), u.Elem())
		case *types.Pointer:
			a := under(u.Elem()).(*types.Array)
			x.nilCheck(st, fr, v, "array")
			x.bounds(st, fr, i, I(a.Len()))
			fr.env[in] = x.elemAddr(v.T, i, a.Elem())
		default:
			panic(unsupported("indexaddr"))
		}
	case *ssa.Lookup:
		x.lookup(st, fr, in)
	case *ssa.MakeChan:
		r := x.alloc(st)
		c := x.hget(st, "CH:closed", ArrSort(SInt, SInt))
		x.hset(st, "CH:closed", Store(c, r, I(0)))
		cp := x.hget(st, "CH:cap", ArrSort(SInt, SInt))
		x.hset(st, "CH:cap", Store(cp, r, x.val(fr, st, in.Size).T))
		x.safety(st, fr, "makechan size", And(Le(I(0), x.val(fr, st, in.Size).T)))
		fr.env[in] = TV(r)
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range in.Bindings {
			bind = append(bind, x.val(fr, st, b))
		}
		r := x.alloc(st)
		c := &Closure{Fn: in.Fn.(*ssa.Function), Bind: bind, Ref: r}
		x.closures[r] = c
		fr.env[in] = Val{T: r, Fn: c}
	case *ssa.MakeMap:
		fr.env[in] = TV(x.newMap(st, in.Type()))
	case *ssa.MakeSlice:
		n := x.val(fr, st, in.Len).T
		c := x.val(fr, st, in.Cap).T
		x.safety(st, fr, "makeslice length", And(Le(I(0), n), Le(n, c)))
		st.assume(Le(c, IBig(pow2(48))))
		fr.env[in] = TV(x.newSlice(st, under(in.Type()).(*types.Slice).Elem(), n, c))
	case *ssa.MapUpdate:
		x.mapUpdate(st, fr, x.val(fr, st, in.Map), in.Map.Type(), x.val(fr, st, in.Key), x.val(fr, st, in.Value))
	case *ssa.Range:
		x.rangeInit(st, fr, in)
	case *ssa.Send:
		ch := x.val(fr, st, in.Chan)
		v := x.val(fr, st, in.X)
		x.send(st, fr, ch, v, in.X.Type())
	case *ssa.Slice:
		x.doSlice(st, fr, in)
	case *ssa.Store:
		p := x.val(fr, st, in.Addr)
		x.nilCheck(st, fr, p, "store")
		x.store(st, p, x.val(fr, st, in.Val), in.Val.Type())
	case *ssa.SliceToArrayPointer:
		v := x.val(fr, st, in.X)
		a := under(elemType(in.Type())).(*types.Array)
		x.safety(st, fr, "slice to array conversion", Le(I(a.Len()), SLen(v.T)))
		if SOff(v.T) != I(0) {
			panic(unsupported("slice to array pointer with offset"))
		}
		fr.env[in] = TV(SBase(v.T))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", in, fr.fn)))
	}
}

func (x *Exec) bounds(st *State, fr *Frame, i, n *Term) {
	x.safety(st, fr, "index in range", And(Le(I(0), i), Lt(i, n)))
}

func (x *Exec) newObject(st *State, t types.Type) *Term {
	r := x.alloc(st)
	x.zeroInit(st, r, t)
	return r
}

func (x *Exec) zeroInit(st *State, r *Term, t types.Type) {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			a := x.fieldAddr(st, r, t, i)
			if a.Addr == nil {
				x.zeroInit(st, a.T, s.Field(i).Type())
			} else {
				x.storeKey(st, a.Addr.key, a.Addr.idx, nil, zeroTerm(s.Field(i).Type()))
			}
		}
		return
	}
	x.store(st, TV(r), zeroVal(t), t)
}

func (x *Exec) newSlice(st *State, elem types.Type, n, c *Term) *Term {
	r := x.alloc(st)
	if structOf(elem) == nil {
		k := "M:" + memKey(elem)
		es := sortOf(elem)
		arr := x.hget(st, k, ArrSort(SInt, ArrSort(SInt, es)))
		x.hset(st, k, Store(arr, r, ConstArr(ArrSort(SInt, es), zeroTerm(elem))))
	}
	return MkS(r, I(0), n, c)
}

func (x *Exec) doSlice(st *State, fr *Frame, in *ssa.Slice) {
	v := x.val(fr, st, in.X)
	get := func(o ssa.Value, d *Term) *Term {
		if o == nil {
			return d
		}
		return x.val(fr, st, o).T
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		lo := get(in.Low, I(0))
		hi := get(in.High, SLen(v.T))
		mx := get(in.Max, SCap(v.T))
		x.safety(st, fr, "slice bounds in range", And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, SCap(v.T))))
		r := MkS(SBase(v.T), Add(SOff(v.T), lo), Sub(hi, lo), Sub(mx, lo))
		fr.env[in] = TV(r)
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		n := I(a.Len())
		lo := get(in.Low, I(0))
		hi := get(in.High, n)
		mx := get(in.Max, n)
		x.safety(st, fr, "slice bounds in range", And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		fr.env[in] = TV(MkS(v.T, lo, Sub(hi, lo), Sub(mx, lo)))
	default:
		// string
		n := App("strlen", SInt, v.T)
		lo := get(in.Low, I(0))
		hi := get(in.High, n)
		x.safety(st, fr, "slice bounds in range", And(Le(I(0), lo), Le(lo, hi), Le(hi, n)))
		if lo == I(0) && hi == n {
			fr.env[in] = v
			return
		}
		fr.env[in] = TV(App("mkstr", SInt, App("strarr", ArrSort(SInt, SInt), v.T), lo, Sub(hi, lo)))
	}
}

func (x *Exec) convert(st *State, fr *Frame, v Val, from, to types.Type) Val {
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && tok:
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return TV(x.wrapConv(st, v.T, to))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if v.T.isLit() {
				return TV(RLit(v.T.Lit))
			}
			return TV(mk("to_real", "", SReal, nil, v.T))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			r := App("trunc", SInt, v.T)
			x.typeFacts(st, r, to, nil, nil)
			return TV(r)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return v
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return TV(App("runestr", SInt, v.T))
		}
	case fok && fb.Info()&types.IsString != 0:
		if s, ok := tu.(*types.Slice); ok && memKey(s.Elem()) == "uint8" {
			return TV(x.strBytes(st, v.T))
		}
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := fu.(*types.Slice); ok && memKey(s.Elem()) == "uint8" {
			m := x.hget(st, "M:uint8", ArrSort(SInt, ArrSort(SInt, SInt)))
			return TV(App("mkstr", SInt, Select(m, SBase(v.T)), SOff(v.T), SLen(v.T)))
		}
	}
	if sortOf(from) == sortOf(to) {
		return v
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

func (x *Exec) strBytes(st *State, s *Term) *Term {
	n := App("strlen", SInt, s)
	r := x.alloc(st)
	k := "M:uint8"
	arr := x.hget(st, k, ArrSort(SInt, ArrSort(SInt, SInt)))
	x.hset(st, k, Store(arr, r, App("strarr", ArrSort(SInt, SInt), s)))
	return MkS(r, I(0), n, n)
}

func (x *Exec) wrapConv(st *State, v *Term, to types.Type) *Term {
	return x.wrap(st, v, to)
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert, b *ssa.BasicBlock, i int) bool {
	v := x.val(fr, st, in.X).T
	T := in.AssertedType
	var ok *Term
	var res Val
	if types.IsInterface(T) {
		n := W.regIface(T)
		if ITyp(v).isLit() {
			id := int(ITyp(v).Lit.Int64())
			if id == 0 {
				ok = False
			} else {
				ok = BoolT(types.Implements(W.typeOf(id), T.Underlying().(*types.Interface)))
			}
		} else if T.Underlying().(*types.Interface).NumMethods() == 0 {
			ok = Not(Eq(ITyp(v), I(0)))
		} else if c := W.closedFor(T); c != nil {
			// closed world: the only implementation
			ok = Eq(ITyp(v), I(int64(W.typeID(c))))
		} else {
			ok = App("impl:"+n, SBool, ITyp(v))
		}
		res = TV(v)
	} else {
		ok = Eq(ITyp(v), I(int64(W.typeID(T))))
		res = Val{}
	}
	if !in.CommaOk {
		x.safety(st, fr, "type assertion", ok)
		if !types.IsInterface(T) {
			res = x.unbox(st, IVal(v), T)
		} else {
			x.typeFacts(st, v, T, st.A, nil)
		}
		fr.env[in] = res
		return false
	}
	// comma-ok: fork so that the value is well typed
	cont := func(fr *Frame, st *State, okT *Term, r Val) {
		fr.env[in] = Val{F: []Val{r, TV(okT)}}
		x.runInstrs(fr, b, i+1, st)
	}
	ft, ff := feasible2(st.pc, ok)
	st2 := st
	fr2 := fr
	if ft && ff {
		st2 = st.clone()
		fr2 = fr.clone()
	}
	if ft {
		st.assume(ok)
		r := res
		if !types.IsInterface(T) {
			r = x.unbox(st, IVal(v), T)
		} else {
			x.typeFacts(st, v, T, st.A, nil)
		}
		cont(fr, st, True, r)
	}
	if ff {
		st2.assume(Not(ok))
		cont(fr2, st2, False, zeroVal(T))
	}
	return true
}

// ---------- maps ----------

func (x *Exec) newMap(st *State, t types.Type) *Term {
	m := under(t).(*types.Map)
	r := x.alloc(st)
	mk := mapKey(t)
	ks := sortOf(m.Key())
	d := x.hget(st, "MD:"+mk, ArrSort(SInt, ArrSort(ks, SBool)))
	x.hset(st, "MD:"+mk, Store(d, r, ConstArr(ArrSort(ks, SBool), False)))
	l := x.hget(st, "ML:"+mk, ArrSort(SInt, SInt))
	x.hset(st, "ML:"+mk, Store(l, r, I(0)))
	return r
}

func (x *Exec) mapDom(st *State, m *Term, t types.Type) *Term {
	mt := under(t).(*types.Map)
	return Select(x.hget(st, "MD:"+mapKey(t), ArrSort(SInt, ArrSort(sortOf(mt.Key()), SBool))), m)
}

func (x *Exec) mapVals(st *State, m *Term, t types.Type) *Term {
	mt := under(t).(*types.Map)
	return Select(x.hget(st, "MV:"+mapKey(t), ArrSort(SInt, ArrSort(sortOf(mt.Key()), sortOf(mt.Elem())))), m)
}

func (x *Exec) mapLen(st *State, m *Term, t types.Type) *Term {
	l := Select(x.hget(st, "ML:"+mapKey(t), ArrSort(SInt, SInt)), m)
	st.assume(Le(I(0), l))
	st.assume(Le(l, IBig(pow2(40))))
	x.rng[l] = ival{big.NewInt(0), pow2(40)}
	ks := sortOf(under(t).(*types.Map).Key())
	q := BoundVar("mk", ks)
	d := x.mapDom(st, m, t)
	sel := Select(d, q)
	if sel.Op == "select" {
		st.assume(Implies(Eq(l, I(0)), Forall([]*Term{q}, Not(sel))))
	} else {
		st.assume(Implies(Eq(l, I(0)), Forall([]*Term{q}, Not(sel))))
	}
	return l
}

func (x *Exec) guardMap(st *State, m *Term, what string) {
	if g, ok := x.guardOf[m]; ok {
		x.checkLock(st, g, what)
	}
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) {
	v := x.val(fr, st, in.X)
	kv := x.term(x.val(fr, st, in.Index), in.Index.Type())
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		x.bounds(st, fr, kv, App("strlen", SInt, v.T))
		e := Select(App("strarr", ArrSort(SInt, SInt), v.T), kv)
		x.typeFacts(st, e, types.Typ[types.Uint8], nil, nil)
		fr.env[in] = TV(e)
		return
	}
	x.guardMap(st, v.T, "map read")
	val, okT := x.mapGet(st, v.T, in.X.Type(), kv)
	_ = mt
	if in.CommaOk {
		fr.env[in] = Val{F: []Val{x.wrapFn(val, mt.Elem()), TV(okT)}}
	} else {
		fr.env[in] = x.wrapFn(val, mt.Elem())
	}
}

func (x *Exec) mapGet(st *State, m *Term, t types.Type, kv *Term) (*Term, *Term) {
	mt := under(t).(*types.Map)
	okT := And(Not(Eq(m, I(0))), Select(x.mapDom(st, m, t), kv))
	raw := Select(x.mapVals(st, m, t), kv)
	if okT != False {
		g0 := okT
		if x.specMode > 0 {
			g0 = And(okT, Lt(rootRef(m), st.A))
		}
		x.typeFacts(st, raw, mt.Elem(), st.A, g0)
		base := raw
		for base.Op == "select" {
			base = base.Args[0]
		}
		if raw.Op == "select" && base.Op == "sym" {
			if g := st.genA(base); g != nil {
				x.typeFacts(st, raw, mt.Elem(), g, And(okT, Lt(rootRef(m), g)))
			}
		}
	}
	val := Ite(okT, raw, zeroTerm(mt.Elem()))
	return val, okT
}

func (x *Exec) mapUpdate(st *State, fr *Frame, m Val, t types.Type, k, v Val) {
	mt := under(t).(*types.Map)
	if g, ok := x.guardOf[m.T]; ok {
		x.checkLockW(st, g, "map write")
	}
	if !x.freshObj[m.T] {
		x.safety(st, fr, "assignment to nil map", Not(Eq(m.T, I(0))))
	}
	x.mapSet(st, m.T, t, x.term(k, mt.Key()), x.term(v, mt.Elem()))
}

func (x *Exec) mapSet(st *State, m *Term, t types.Type, kt, vt *Term) {
	mt := under(t).(*types.Map)
	key := mapKey(t)
	ks := sortOf(mt.Key())
	dAll := x.hget(st, "MD:"+key, ArrSort(SInt, ArrSort(ks, SBool)))
	vAll := x.hget(st, "MV:"+key, ArrSort(SInt, ArrSort(ks, sortOf(mt.Elem()))))
	lAll := x.hget(st, "ML:"+key, ArrSort(SInt, SInt))
	d, l := Select(dAll, m), Select(lAll, m)
	x.hset(st, "ML:"+key, Store(lAll, m, Add(l, Ite(Select(d, kt), I(0), I(1)))))
	x.hset(st, "MD:"+key, Store(dAll, m, Store(d, kt, True)))
	x.hset(st, "MV:"+key, Store(vAll, m, Store(Select(vAll, m), kt, vt)))
}

func (x *Exec) mapDelete(st *State, m *Term, t types.Type, kt *Term) {
	mt := under(t).(*types.Map)
	key := mapKey(t)
	ks := sortOf(mt.Key())
	dAll := x.hget(st, "MD:"+key, ArrSort(SInt, ArrSort(ks, SBool)))
	lAll := x.hget(st, "ML:"+key, ArrSort(SInt, SInt))
	d, l := Select(dAll, m), Select(lAll, m)
	st.assume(Implies(Select(d, kt), Le(I(1), l)))
	x.hset(st, "ML:"+key, Store(lAll, m, Sub(l, Ite(Select(d, kt), I(1), I(0)))))
	x.hset(st, "MD:"+key, Store(dAll, m, Store(d, kt, False)))
}

// range over a map: iterator object with a visited set
func (x *Exec) rangeInit(st *State, fr *Frame, in *ssa.Range) {
	v := x.val(fr, st, in.X)
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		panic(unsupported("range over string"))
	}
	r := x.alloc(st)
	ks := sortOf(mt.Key())
	key := "IT:" + memKey(mt.Key())
	va := x.hget(st, key, ArrSort(SInt, ArrSort(ks, SBool)))
	x.hset(st, key, Store(va, r, ConstArr(ArrSort(ks, SBool), False)))
	fr.env[in] = Val{T: r, F: []Val{v}}
}

func (x *Exec) doNext(st *State, fr *Frame, in *ssa.Next, b *ssa.BasicBlock, i int) bool {
	if in.IsString {
		panic(unsupported("range over string"))
	}
	rg := in.Iter.(*ssa.Range)
	it := x.val(fr, st, in.Iter)
	m := it.F[0].T
	t := rg.X.Type()
	mt := under(t).(*types.Map)
	ks := sortOf(mt.Key())
	x.guardMap(st, m, "map range")
	key := "IT:" + memKey(mt.Key())
	va := x.hget(st, key, ArrSort(SInt, ArrSort(ks, SBool)))
	vis := Select(va, it.T)
	// end of iteration
	st2 := st.clone()
	fr2 := fr.clone()
	q := BoundVar("mk", ks)
	d := x.mapDom(st2, m, t)
	st2.assume(Or(Eq(m, I(0)), Forall([]*Term{q}, Implies(Select(d, q), Select(vis, q)))))
	fr2.env[in] = Val{F: []Val{TV(False), zeroVal(mt.Key()), zeroVal(mt.Elem())}}
	// next element
	k := x.fresh("rk", ks)
	x.typeFacts(st, k, mt.Key(), st.A, nil)
	st.assume(Not(Eq(m, I(0))))
	st.assume(Select(x.mapDom(st, m, t), k))
	st.assume(Not(Select(vis, k)))
	x.hset(st, key, Store(va, it.T, Store(vis, k, True)))
	val, _ := x.mapGet(st, m, t, k)
	raw := Select(x.mapVals(st, m, t), k)
	_ = val
	x.assumeKeyFacts(st, k, mt.Key())
	fr.env[in] = Val{F: []Val{TV(True), TV(k), x.wrapFn(raw, mt.Elem())}}
	if lp := innermostLoop(fr.fn, b); lp != nil && !fr.inLoop(lp) {
		// ranging over a symbolic map: needs an invariant
		key := fr.id + "#" + fmt.Sprint(lp.Index)
		if !x.invLoops[key] {
			panic(restart{key})
		}
	}
	if Feasible(st.pc) {
		x.runInstrs(fr, b, i+1, st)
	}
	x.runInstrs(fr2, b, i+1, st2)
	return true
}

// values stored as keys of the closed-world registries are never nil
func (x *Exec) assumeKeyFacts(st *State, k *Term, t types.Type) {
	if c := W.closedFor(t); c != nil {
		x.trust("keys of the endpoint table are non-nil endpoints")
		st.assume(Eq(ITyp(k), I(int64(W.typeID(c)))))
		st.assume(Lt(I(0), IVal(k)))
	}
}

func (x *Exec) trust(s string) { x.trusted[s] = true }

func (f *Frame) inLoop(h *ssa.BasicBlock) bool {
	for _, l := range f.loops {
		if l.header == h {
			return true
		}
	}
	return false
}
