package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val))

var models map[string]modelFn

func (x *Exec) lockOp(st *State, fr *Frame, mu *Term, need, to int64, what string) {
	x.touched[mu] = true
	cur := x.lockState(st, mu)
	g := Eq(cur, I(need))
	x.oblige(st, "lock", what+" "+lockName(mu)+" in "+shortFn(fr.fn), g, []string{"C18"}, fr.id)
	st.assume(g)
	x.setLock(st, mu, to)
}

func nop(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
	x.external(st, fr, f, args, k)
}

func (x *Exec) now(st *State) *Term {
	x.trust("the clock does not advance within one operation")
	t := Sym("now", SInt)
	x.rng[t] = ival{big.NewInt(0), pow2(62)}
	st.assume(And(Le(I(0), t), Le(t, IBig(pow2(62)))))
	return t
}

func atomicElem(f *ssa.Function) types.Type {
	return elemType(f.Signature.Params().At(0).Type())
}

func init() {
	models = map[string]modelFn{}
	lock := func(need, to int64, what string) modelFn {
		return func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
			x.lockOp(st, fr, x.term(args[0], nil), need, to, what)
			k(st, Val{F: []Val{}})
		}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		models["(*sync."+t+").Lock"] = lock(0, 1, "lock not already held:")
		models["(*sync."+t+").Unlock"] = lock(1, 0, "unlock of a held lock:")
	}
	models["(*sync.RWMutex).RLock"] = lock(0, 2, "lock not already held:")
	models["(*sync.RWMutex).RUnlock"] = lock(2, 0, "unlock of a held lock:")

	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		models["sync/atomic.Add"+w] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
			t := atomicElem(f)
			v := x.load(st, args[0], t)
			n := x.wrap(st, Add(v.T, args[1].T), t)
			x.store(st, args[0], TV(n), t)
			k(st, TV(n))
		}
		models["sync/atomic.Load"+w] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
			k(st, x.load(st, args[0], atomicElem(f)))
		}
		models["sync/atomic.Store"+w] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
			x.store(st, args[0], args[1], atomicElem(f))
			k(st, Val{F: []Val{}})
		}
		models["sync/atomic.Swap"+w] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
			v := x.load(st, args[0], atomicElem(f))
			x.store(st, args[0], args[1], atomicElem(f))
			k(st, v)
		}
		models["sync/atomic.CompareAndSwap"+w] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
			t := atomicElem(f)
			v := x.load(st, args[0], t)
			ok := Eq(v.T, args[1].T)
			x.store(st, args[0], TV(Ite(ok, args[2].T, v.T)), t)
			k(st, TV(ok))
		}
	}

	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		models["log."+n] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
			x.doPanic(st, fr, f.String())
		}
	}
	end := func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
		x.trust(f.String() + " ends the process")
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		models[n] = end
	}
	models["fmt.Errorf"] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
		r := x.alloc(st)
		k(st, TV(MkI(I(int64(W.typeID(types.NewPointer(types.Typ[types.String])))), r)))
	}

	// time: a point in time is a number of nanoseconds
	models["time.Now"] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
		k(st, TV(x.now(st)))
	}
	dur := func(f func(x *Exec, st *State, a []Val) *Term) modelFn {
		return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, k func(*State, Val)) {
			k(st, TV(f(x, st, args)))
		}
	}
	x64 := types.Typ[types.Int64]
	models["time.Since"] = dur(func(x *Exec, st *State, a []Val) *Term { return x.wrap(st, Sub(x.now(st), a[0].T), x64) })
	models["(time.Time).Sub"] = dur(func(x *Exec, st *State, a []Val) *Term { return x.wrap(st, Sub(a[0].T, a[1].T), x64) })
	models["(time.Time).Add"] = dur(func(x *Exec, st *State, a []Val) *Term { return Add(a[0].T, a[1].T) })
	models["(time.Time).After"] = dur(func(x *Exec, st *State, a []Val) *Term { return Lt(a[1].T, a[0].T) })
	models["(time.Time).Before"] = dur(func(x *Exec, st *State, a []Val) *Term { return Lt(a[0].T, a[1].T) })
	models["(time.Time).Equal"] = dur(func(x *Exec, st *State, a []Val) *Term { return Eq(a[0].T, a[1].T) })
	models["(time.Time).UnixNano"] = dur(func(x *Exec, st *State, a []Val) *Term { return x.wrap(st, a[0].T, x64) })
	realDiv := func(c int64) modelFn {
		return dur(func(x *Exec, st *State, a []Val) *Term {
			return mk("/", "", SReal, nil, mk("to_real", "", SReal, nil, a[0].T), RLit(big.NewInt(c)))
		})
	}
	models["(time.Duration).Seconds"] = realDiv(1000000000)
	models["(time.Duration).Minutes"] = realDiv(60000000000)
	models["(time.Duration).Milliseconds"] = dur(func(x *Exec, st *State, a []Val) *Term {
		q := DivC(a[0].T, big.NewInt(1000000))
		return Ite(Le(I(0), a[0].T), q, Neg(DivC(Neg(a[0].T), big.NewInt(1000000))))
	})
	models["time.Sleep"] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
		k(st, Val{F: []Val{}})
	}

	// network
	netEv := func(kind string) modelFn {
		return func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
			rs := f.Signature.Results()
			c := x.freshVal(st, kind, rs.At(0).Type())
			e := x.freshVal(st, kind+".err", rs.At(1).Type())
			st.assume(Implies(Eq(ITyp(e.T), I(0)), Not(Eq(ITyp(c.T), I(0)))))
			x.trust("net." + kind + " returns a connection or an error")
			x.emit(st, kind, map[string]*Term{
				"a0": x.box(args[0], types.Typ[types.String]), "a1": x.box(args[1], types.Typ[types.String]), "r0": c.T, "r1": e.T})
			k(st, Val{F: []Val{c, e}})
		}
	}
	models["net.Listen"] = netEv("Listen")
	models["net.Dial"] = netEv("Dial")
	models["net.DialTimeout"] = netEv("Dial")

	// codecs
	codecNew := func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
		r := x.alloc(st)
		a := x.hget(st, "X:codec", ArrSort(SInt, SIface))
		x.hset(st, "X:codec", Store(a, r, args[0].T))
		k(st, TV(r))
	}
	models["encoding/gob.NewEncoder"] = codecNew
	models["encoding/gob.NewDecoder"] = codecNew
	models["encoding/json.NewEncoder"] = codecNew
	models["encoding/json.NewDecoder"] = codecNew
	codec := func(kind string, wr bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
			a := x.hget(st, "X:codec", ArrSort(SInt, SIface))
			w := Select(a, args[0].T)
			x.trust("gob/json " + kind + " touches nothing but its stream (through the stream's own methods) and its argument")
			e := x.freshVal(st, kind+".err", f.Signature.Results().At(0).Type())
			comp := map[string]*Term{"recv": w, "a0": args[1].T, "r0": e.T}
			if !wr {
				x.streamComps(st, w, comp)
			}
			x.havocStream(st, w, wr)
			x.emit(st, kind, comp)
			k(st, e)
		}
	}
	models["(*encoding/gob.Encoder).Encode"] = codec("Encode", true)
	models["(*encoding/gob.Decoder).Decode"] = codec("Decode", false)
	models["(*encoding/json.Encoder).Encode"] = codec("Encode", true)
	models["(*encoding/json.Decoder).Decode"] = codec("Decode", false)
	models["encoding/json.Marshal"] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
		x.trust("json.Marshal touches nothing")
		r := x.alloc(st)
		n := x.fresh("json.len", SInt)
		x.rng[n] = ival{big.NewInt(0), pow2(40)}
		st.assume(And(Le(I(0), n), Le(n, IBig(pow2(40)))))
		m := x.hget(st, "M:uint8", ArrSort(SInt, ArrSort(SInt, SInt)))
		x.hset(st, "M:uint8", Store(m, r, x.fresh("json.bytes", ArrSort(SInt, SInt))))
		e := x.freshVal(st, "json.err", f.Signature.Results().At(1).Type())
		sl := MkS(r, I(0), n, n)
		x.emit(st, "Marshal", map[string]*Term{"a0": args[0].T, "r0": x.box(TV(sl), f.Signature.Results().At(0).Type()), "r1": e.T,
			"bytes": Select(x.hget(st, "M:uint8", ArrSort(SInt, ArrSort(SInt, SInt))), r), "start": I(0), "len": n})
		k(st, Val{F: []Val{TV(sl), e}})
	}
	models["encoding/json.Unmarshal"] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
		x.trust("json.Unmarshal touches nothing but its target")
		e := x.freshVal(st, "json.err", f.Signature.Results().At(0).Type())
		m := x.hget(st, "M:uint8", ArrSort(SInt, ArrSort(SInt, SInt)))
		p := args[0].T
		x.emit(st, "Unmarshal", map[string]*Term{"recv": args[1].T, "a0": args[1].T, "r0": e.T,
			"bytes": Select(m, SBase(p)), "start": SOff(p), "len": SLen(p)})
		k(st, e)
	}
	models["reflect.New"] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
		x.trust("reflect.New on the configured type yields a fresh non-nil value")
		k(st, TV(x.alloc(st)))
	}
	models["(reflect.Value).Interface"] = func(x *Exec, st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
		ty := App("reflect.ptype", SInt, args[0].T)
		st.assume(Lt(I(0), ty))
		k(st, TV(MkI(ty, args[0].T)))
	}
}

// streamComps records the bytes a decoder gets to see; head is 1 if the stream
// reports its end (a UBuf does not: reading an empty one yields neither data nor error).
func (x *Exec) streamComps(st *State, w *Term, comp map[string]*Term) {
	t := ITyp(w)
	if !t.isLit() {
		return
	}
	pt := W.typeOf(int(t.Lit.Int64()))
	field, pos := "", ""
	switch typeStr(pt) {
	case "*UBuf":
		x.ubufComps(st, IVal(w), comp)
		comp["head"], comp["tail"] = I(0), I(0)
		return
	case "*bytes.Reader":
		field, pos = "s", "i"
	case "*bytes.Buffer":
		field, pos = "buf", "off"
	default:
		return
	}
	el := elemType(pt)
	str := under(el).(*types.Struct)
	get := func(n string) *Term {
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Name() == n {
				a := x.fieldAddr(st, IVal(w), el, i)
				return x.loadKey(st, a.Addr.key, a.Addr.idx, nil, str.Field(i).Type())
			}
		}
		panic(unsupported("field " + n + " of " + typeStr(pt)))
	}
	b, i := get(field), get(pos)
	m := x.hget(st, "M:uint8", ArrSort(SInt, ArrSort(SInt, SInt)))
	comp["bytes"], comp["start"], comp["len"], comp["head"] = Select(m, SBase(b)), Add(SOff(b), i), Sub(SLen(b), i), I(1)
	x.trust("bytes.Reader and bytes.Buffer report the end of their data")
}

// havocStream: an external codec used the stream w through its methods.
func (x *Exec) havocStream(st *State, w *Term, wr bool) {
	t := ITyp(w)
	if t.isLit() {
		if s := typeStr(W.typeOf(int(t.Lit.Int64()))); !wr && (s == "*bytes.Reader" || s == "*bytes.Buffer") {
			return
		}
	}
	if !t.isLit() || typeStr(W.typeOf(int(t.Lit.Int64()))) != "*UBuf" {
		x.havocVolatile(st, nil)
		return
	}
	x.trust("external codecs use a UBuf only through its methods, whose contracts keep it well formed")
	ub := IVal(w)
	rd, _ := x.fieldTerm(st, "UBuf", "readerIndex", ub)
	wi, _ := x.fieldTerm(st, "UBuf", "writerIndex", ub)
	data, _ := x.fieldTerm(st, "UBuf", "data", ub)
	by, _ := x.fieldTerm(st, "uBufData", "bytes", data)
	if wr {
		n := x.fresh("wi", SInt)
		x.rng[n] = ival{big.NewInt(0), pow2(48)}
		st.assume(And(Le(wi, n), Le(n, SCap(by))))
		x.storeKey(st, "F:UBuf."+W.fieldAlias("UBuf", "writerIndex"), ub, nil, n)
		m := x.hget(st, "M:uint8", ArrSort(SInt, ArrSort(SInt, SInt)))
		f := x.fresh("enc.bytes", ArrSort(SInt, SInt))
		x.hset(st, "M:uint8", Store(m, SBase(by), CopyArr(Select(m, SBase(by)), f, Add(SOff(by), wi), I(0), Sub(n, wi))))
	} else {
		n := x.fresh("ri", SInt)
		x.rng[n] = ival{big.NewInt(0), pow2(48)}
		st.assume(And(Le(rd, n), Le(n, wi)))
		x.storeKey(st, "F:UBuf."+W.fieldAlias("UBuf", "readerIndex"), ub, nil, n)
	}
}

func (x *Exec) extGlobal(st *State, g *ssa.Global) Val {
	t := elemType(g.Type())
	if structOf(t) != nil && structOf(t).NumFields() == 0 {
		return zeroVal(t)
	}
	if types.IsInterface(t) && strings.HasSuffix(t.String(), "error") {
		return TV(MkI(I(int64(W.typeID(types.NewPointer(types.Typ[types.Bool])))), I(int64(W.globalRef(g)))))
	}
	if structOf(t) != nil {
		panic(unsupported("external global " + g.String()))
	}
	v := Sym("g:"+g.String(), sortOf(t))
	x.typeFacts(st, v, t, nil, nil)
	return TV(v)
}

// ---------- builtins ----------

func (x *Exec) minTerm(st *State, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isLit() && b.isLit() {
		if a.Lit.Cmp(b.Lit) <= 0 {
			return a
		}
		return b
	}
	if provedSliced(st.pc, Le(a, b), 400) {
		return a
	}
	if provedSliced(st.pc, Le(b, a), 400) {
		return b
	}
	return Ite(Le(a, b), a, b)
}

func (x *Exec) bytesOf(st *State, v *Term, t types.Type) (arr, off, n *Term) {
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return App("strarr", ArrSort(SInt, SInt), v), I(0), App("strlen", SInt, v)
	}
	e := under(t).(*types.Slice).Elem()
	es := sortOf(e)
	m := x.hget(st, "M:"+memKey(e), ArrSort(SInt, ArrSort(SInt, es)))
	return Select(m, SBase(v)), SOff(v), SLen(v)
}

func (x *Exec) copyInto(st *State, key string, base, dst, darr, sarr, soff, n *Term) {
	m := x.hget(st, key, ArrSort(SInt, darr.Sort))
	var na *Term
	if n.isLit() && n.Lit.Cmp(big.NewInt(8)) <= 0 {
		na = darr
		c := n.Lit.Int64()
		for i := int64(0); i < c; i++ {
			na = Store(na, Add(dst, I(i)), Select(sarr, Add(soff, I(i))))
		}
	} else {
		na = CopyArr(darr, sarr, dst, soff, n)
	}
	x.hset(st, key, Store(m, base, na))
}

func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, k func(*State, Val)) {
	arg := func(i int) *Term { return x.term(x.val(fr, st, c.Args[i]), c.Args[i].Type()) }
	unit := Val{F: []Val{}}
	switch b.Name() {
	case "len", "cap":
		v := arg(0)
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			if b.Name() == "len" {
				k(st, TV(SLen(v)))
			} else {
				k(st, TV(SCap(v)))
			}
		case *types.Map:
			x.guardMap(st, v, "map length")
			l := x.mapLen(st, v, c.Args[0].Type())
			k(st, TV(Ite(Eq(v, I(0)), I(0), l)))
		case *types.Chan:
			n := x.fresh("chlen", SInt)
			x.rng[n] = ival{big.NewInt(0), pow2(40)}
			st.assume(And(Le(I(0), n), Le(n, IBig(pow2(40)))))
			if b.Name() == "cap" {
				n = Select(x.hget(st, "CH:cap", ArrSort(SInt, SInt)), v)
				st.assume(Le(I(0), n))
			}
			k(st, TV(n))
		case *types.Basic:
			n := App("strlen", SInt, v)
			k(st, TV(n))
		case *types.Array:
			k(st, TV(I(u.Len())))
		case *types.Pointer:
			k(st, TV(I(under(u.Elem()).(*types.Array).Len())))
		default:
			panic(unsupported("len of " + c.Args[0].Type().String()))
		}
	case "copy":
		d := arg(0)
		s := arg(1)
		e := under(c.Args[0].Type()).(*types.Slice).Elem()
		if structOf(e) != nil {
			panic(unsupported("copy of structs"))
		}
		sarr, soff, sn := x.bytesOf(st, s, c.Args[1].Type())
		n := x.minTerm(st, SLen(d), sn)
		darr, doff, _ := x.bytesOf(st, d, c.Args[0].Type())
		x.copyInto(st, "M:"+memKey(e), SBase(d), doff, darr, sarr, soff, n)
		k(st, TV(n))
	case "append":
		s := arg(0)
		e := under(c.Args[0].Type()).(*types.Slice).Elem()
		if structOf(e) != nil {
			panic(unsupported("append of structs"))
		}
		t := arg(1)
		if c.Args[1].Type() == types.Typ[types.UntypedNil] || t == NilS {
			k(st, TV(s))
			return
		}
		sarr, soff, sn := x.bytesOf(st, t, c.Args[1].Type())
		key := "M:" + memKey(e)
		nl := Add(SLen(s), sn)
		fits := Le(nl, SCap(s))
		ft := fits != False && Feasible(append(st.pc[:len(st.pc):len(st.pc)], fits))
		ff := fits != True && Feasible(append(st.pc[:len(st.pc):len(st.pc)], Not(fits)))
		st2 := st.clone()
		if ft {
			st.assume(fits)
			darr, doff, dn := x.bytesOf(st, s, c.Args[0].Type())
			x.copyInto(st, key, SBase(s), Add(doff, dn), darr, sarr, soff, sn)
			k(st, TV(MkS(SBase(s), SOff(s), nl, SCap(s))))
		}
		if ff {
			x.paths++
			st2.assume(Not(fits))
			darr, doff, dn := x.bytesOf(st2, s, c.Args[0].Type())
			r := x.alloc(st2)
			es := sortOf(e)
			nc := x.fresh("newcap", SInt)
			x.rng[nc] = ival{big.NewInt(0), pow2(48)}
			st2.assume(And(Le(nl, nc), Le(nc, IBig(pow2(48)))))
			z := ConstArr(ArrSort(SInt, es), zeroTerm(e))
			c1 := CopyArr(z, darr, I(0), doff, dn)
			m := x.hget(st2, key, ArrSort(SInt, ArrSort(SInt, es)))
			x.hset(st2, key, Store(m, r, c1))
			x.copyInto(st2, key, r, dn, c1, sarr, soff, sn)
			k(st2, TV(MkS(r, I(0), nl, nc)))
		}
	case "delete":
		m := arg(0)
		if g, ok := x.guardOf[m]; ok {
			x.checkLockW(st, g, "map delete")
		}
		mt := under(c.Args[0].Type()).(*types.Map)
		kt := x.term(x.val(fr, st, c.Args[1]), mt.Key())
		x.mapDelete(st, m, c.Args[0].Type(), kt)
		k(st, unit)
	case "close":
		ch := arg(0)
		cl := x.hget(st, "CH:closed", ArrSort(SInt, SInt))
		x.safety(st, fr, "close of nil channel", Not(Eq(ch, I(0))))
		x.safety(st, fr, "close of closed channel", Eq(Select(cl, ch), I(0)))
		x.hset(st, "CH:closed", Store(cl, ch, I(1)))
		x.emit(st, "close", map[string]*Term{"recv": x.chanIface(ch, chanElemType(c.Args[0].Type()))})
		k(st, unit)
	case "panic":
		x.doPanic(st, fr, "panic")
	case "print", "println":
		k(st, unit)
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(c.Args); i++ {
			a := arg(i)
			if b.Name() == "min" {
				r = Ite(Le(r, a), r, a)
			} else {
				r = Ite(Le(a, r), r, a)
			}
		}
		k(st, TV(r))
	case "ssa:wrapnilchk":
		v := x.val(fr, st, c.Args[0])
		x.nilCheck(st, fr, v, "method value")
		k(st, v)
	case "recover":
		k(st, TV(NilI))
	case "clear":
		if mt, ok := under(c.Args[0].Type()).(*types.Map); ok {
			m := arg(0)
			if g, ok := x.guardOf[m]; ok {
				x.checkLockW(st, g, "map clear")
			}
			key := mapKey(c.Args[0].Type())
			ks := sortOf(mt.Key())
			d := x.hget(st, "MD:"+key, ArrSort(SInt, ArrSort(ks, SBool)))
			x.hset(st, "MD:"+key, Store(d, m, ConstArr(ArrSort(ks, SBool), False)))
			l := x.hget(st, "ML:"+key, ArrSort(SInt, SInt))
			x.hset(st, "ML:"+key, Store(l, m, I(0)))
			k(st, unit)
			return
		}
		panic(unsupported("clear of a slice"))
	default:
		panic(unsupported("builtin " + b.Name()))
	}
}

func chanElemType(t types.Type) types.Type {
	return types.NewChan(types.SendRecv, under(t).(*types.Chan).Elem())
}
