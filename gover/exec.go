package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Unit    string
	Kind    string // safety, ensures, requires, frame, lock, guard, inv, iter, onevent, panics
	Name    string
	Props   []string // clause tags; empty = all the properties of the unit
	PC      []*Term
	Goal    *Term
	Where   string
	Res     Result
	Backend string
	Log     string
	Path    int
}

type Exec struct {
	unit      *FuncSpec
	rng       map[*Term]ival
	obls      []*Obl
	mute      int
	invLoops  map[string]bool
	cnt       map[string]int
	depth     int
	used      map[string]bool
	trusted   map[string]bool
	inlined   map[string]bool
	addrOf    map[*Term]*Addr
	closures  map[*Term]*Closure
	guardOf   map[*Term]guardInfo
	entry     *State
	env       map[string]SVal
	ksort     map[string]Sort
	writes    map[string]bool // when recording
	paths     int
	returns   int
	steps     int
	goDepth   int
	allocs    map[*Term]bool
	touched   map[*Term]bool // locks touched
	spawnAt   *State         // state at the go statement that started the current goroutine
	iterBase  *State         // state at the start of the current goroutine iteration
	inGo      bool
	maxPaths  int
	evKinds   map[string]bool
	freshObj  map[*Term]bool
	goSeen    map[string]bool
	loopStack []*loopCtx
	iterLoop  *loopCtx
	effects   int
	loopMemo  map[string]map[string]bool
	loopOrd   map[string]int
	serial    int
	segs      int
	debug     bool
	outcome   []string
	specMode  int
}

type guardInfo struct {
	lock *Term
	name string
}

type restart struct{ loop string }

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	loops  []*loopCtx
	visits map[*ssa.BasicBlock]int
	k      func(st *State, res []Val)
	id     string
	parent *Frame
	top    bool
}

type deferred struct {
	call *ssa.CallCommon
	fr   *Frame
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)+4), k: f.k, id: f.id, parent: f.parent, top: f.top,
		defers: f.defers[:len(f.defers):len(f.defers)], loops: f.loops[:len(f.loops):len(f.loops)], visits: map[*ssa.BasicBlock]int{}}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return n
}

func (x *Exec) freshName(base string) string {
	x.serial++
	return fmt.Sprintf("%s!%d", base, x.serial)
}

func (x *Exec) fresh(base string, s Sort) *Term { return Sym(x.freshName(base), s) }

func (x *Exec) setRange(t *Term, typ types.Type) {
	if lo, hi, ok := intBounds(typ); ok && !t.isLit() {
		x.rng[t] = meet(ival{lo, hi}, x.rng[t], true)
	}
}

// typeFacts assumes the facts every well-typed value satisfies. A bounds references.
func (x *Exec) typeFacts(st *State, t *Term, typ types.Type, A *Term, guard *Term) {
	add := func(f *Term) {
		if guard != nil && guard != True {
			f = Implies(guard, f)
		}
		st.assume(f)
	}
	if isOpaqueStruct(typ) || t.Bound {
		return
	}
	switch u := under(typ).(type) {
	case *types.Basic:
		if lo, hi, ok := intBounds(typ); ok && !t.isLit() {
			iv := x.interval(t, 0)
			x.setRange(t, typ)
			if !iv.within(lo, hi) || !structural(t) {
				st.assume(Le(IBig(lo), t))
				st.assume(Le(t, IBig(hi)))
			}
		}
	case *types.Slice:
		if t.Op == "mkS" {
			return
		}
		add(And(Le(I(0), SOff(t)), Le(I(0), SLen(t)), Le(SLen(t), SCap(t)), Le(SCap(t), IBig(pow2(48))), Le(SOff(t), IBig(pow2(48))),
			Le(I(0), SBase(t)), Implies(Eq(SBase(t), I(0)), And(Eq(SCap(t), I(0)), Eq(SOff(t), I(0))))))
		if A != nil {
			add(Lt(SBase(t), A))
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if t.isLit() {
			return
		}
		if A != nil {
			add(Lt(t, A))
		}
		if _, ok := u.(*types.Signature); !ok {
			if p, ok := u.(*types.Pointer); ok {
				if structOf(p.Elem()) != nil {
					return
				}
			}
			add(Le(I(0), t))
		}
	case *types.Interface:
		if t.Op == "mkI" {
			return
		}
		add(And(Le(I(0), ITyp(t)), Implies(Eq(ITyp(t), I(0)), Eq(IVal(t), I(0)))))
		if c := W.closedFor(typ); c != nil {
			add(Or(Eq(ITyp(t), I(0)), Eq(ITyp(t), I(int64(W.typeID(c))))))
			add(Le(I(0), IVal(t)))
			if A != nil {
				add(Lt(IVal(t), A))
			}
		} else if typeStr(typ) == "DataProcessor" || typeStr(typ) == "TransportConnection" || typeStr(typ) == "Transport" || typeStr(typ) == "Feature" || typeStr(typ) == "net.Listener" {
			if A != nil {
				add(Lt(IVal(t), A))
			}
		}
	}
}

func structural(t *Term) bool {
	return t.Op == "+" || t.Op == "*" || t.Op == "mod" || t.Op == "div" || t.Op == "ite" || t.isLit()
}

func (w *World) closedFor(t types.Type) types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() != w.pkg.Pkg {
		return nil
	}
	c := map[string]string{"Context": "DefaultUStackContext", "UStack": "DefaultUStack", "EndPointData": "DefaultEndPointData", "EndPoint": "DefaultEndPoint"}[n.Obj().Name()]
	if c == "" {
		return nil
	}
	ct := w.lookupType(c)
	if ct == nil {
		return nil
	}
	return types.NewPointer(ct)
}

func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	if tu, ok := t.(*types.Tuple); ok {
		v := Val{F: []Val{}}
		for i := 0; i < tu.Len(); i++ {
			v.F = append(v.F, x.freshVal(st, fmt.Sprintf("%s.%d", name, i), tu.At(i).Type()))
		}
		return v
	}
	if s := structOf(t); s != nil {
		v := Val{F: []Val{}}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, x.freshVal(st, name+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return v
	}
	tm := x.fresh(name+":"+memKey(t), sortOf(t))
	x.typeFacts(st, tm, t, st.A, nil)
	return TV(tm)
}

// ---------- heap ----------

func (x *Exec) hget(st *State, key string, s Sort) *Term {
	x.ksort[key] = s
	return st.get(key, s)
}

func (x *Exec) hset(st *State, key string, t *Term) {
	x.ksort[key] = t.Sort
	if x.writes != nil {
		x.writes[key] = true
	}
	st.set(key, t)
}

func rootRef(t *Term) *Term {
	for t.Op == "app" && (strings.HasPrefix(t.Name, "sub:") || strings.HasPrefix(t.Name, "elem:")) {
		t = t.Args[0]
	}
	return t
}

func (x *Exec) loadKey(st *State, key string, idx, idx2 *Term, typ types.Type) *Term {
	s := sortOf(typ)
	var v *Term
	var arr *Term
	if idx2 == nil {
		arr = x.hget(st, key, ArrSort(SInt, s))
		v = Select(arr, idx)
	} else {
		arr = x.hget(st, key, ArrSort(SInt, ArrSort(SInt, s)))
		v = Select(Select(arr, idx), idx2)
	}
	A := st.A
	var guard *Term
	base := v
	for base.Op == "select" {
		base = base.Args[0]
	}
	if v.Op == "select" && base.Op == "sym" {
		if g := st.genA(base); g != nil {
			rr := rootRef(idx)
			x.typeFacts(st, v, typ, g, Lt(rr, g))
		}
	}
	if x.specMode > 0 {
		guard = Lt(rootRef(idx), A)
	}
	x.typeFacts(st, v, typ, A, guard)
	return v
}

// loadRaw reads a location without lock checks (specifications only).
func (x *Exec) loadRaw(st *State, p Val, t types.Type) Val {
	if s := structOf(t); s != nil {
		return p
	}
	return x.wrapFn(x.loadKey(st, "C:"+memKey(t), p.T, nil, t), t)
}

func (x *Exec) storeKey(st *State, key string, idx, idx2 *Term, v *Term) {
	if idx2 == nil {
		arr := x.hget(st, key, ArrSort(SInt, v.Sort))
		x.hset(st, key, Store(arr, idx, v))
	} else {
		arr := x.hget(st, key, ArrSort(SInt, ArrSort(SInt, v.Sort)))
		x.hset(st, key, Store(arr, idx, Store(Select(arr, idx), idx2, v)))
	}
}

func (x *Exec) elemAddr(base, idx *Term, typ types.Type) Val {
	if structOf(typ) != nil || isSyncStruct(typ) {
		return TV(App("elem:"+typeStr(typ), SInt, base, idx))
	}
	if _, ok := under(typ).(*types.Array); ok {
		return TV(App("elem:"+typeStr(typ), SInt, base, idx))
	}
	return Val{Addr: &Addr{key: "M:" + memKey(typ), idx: base, idx2: idx, typ: typ, own: base}}
}

func (x *Exec) fieldAddr(st *State, ref *Term, structT types.Type, i int) Val {
	s := under(structT).(*types.Struct)
	ft := s.Field(i).Type()
	if structOf(ft) != nil || isSyncStruct(ft) {
		return TV(subRef(structT, i, ref))
	}
	if _, ok := under(ft).(*types.Array); ok {
		return TV(subRef(structT, i, ref))
	}
	return Val{Addr: &Addr{key: fieldKey(structT, i), idx: ref, typ: ft, own: ref}}
}

// load the value of type t stored at pointer p
func (x *Exec) load(st *State, p Val, t types.Type) Val {
	if p.Addr == nil && p.T != nil {
		if a, ok := x.addrOf[p.T]; ok {
			p = Val{Addr: a}
		}
	}
	if p.Addr != nil {
		x.checkGuard(st, p.Addr)
		v := x.loadKey(st, p.Addr.key, p.Addr.idx, p.Addr.idx2, t)
		if g, ok := x.guardFor(p.Addr); ok {
			x.guardOf[v] = g
		}
		return x.wrapFn(v, t)
	}
	if s := structOf(t); s != nil {
		v := Val{F: []Val{}}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, x.load(st, x.fieldAddr(st, p.T, t, i), s.Field(i).Type()))
		}
		return v
	}
	if a, ok := under(t).(*types.Array); ok {
		arr := x.hget(st, "M:"+memKey(a.Elem()), ArrSort(SInt, sortOf(t)))
		return TV(Select(arr, p.T))
	}
	if isSyncStruct(t) {
		return TV(I(0))
	}
	return x.wrapFn(x.loadKey(st, "C:"+memKey(t), p.T, nil, t), t)
}

func (x *Exec) wrapFn(v *Term, t types.Type) Val {
	if _, ok := under(t).(*types.Signature); ok {
		if c, ok := x.closures[v]; ok {
			return Val{T: v, Fn: c}
		}
	}
	return TV(v)
}

func (x *Exec) store(st *State, p Val, v Val, t types.Type) {
	if p.Addr == nil && p.T != nil {
		if a, ok := x.addrOf[p.T]; ok {
			p = Val{Addr: a}
		}
	}
	if p.Addr != nil {
		if g, ok := x.guardFor(p.Addr); ok {
			x.checkLockW(st, g, "write")
		}
		x.storeKey(st, p.Addr.key, p.Addr.idx, p.Addr.idx2, x.term(v, t))
		return
	}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			x.store(st, x.fieldAddr(st, p.T, t, i), v.F[i], s.Field(i).Type())
		}
		return
	}
	if a, ok := under(t).(*types.Array); ok {
		k := "M:" + memKey(a.Elem())
		arr := x.hget(st, k, ArrSort(SInt, sortOf(t)))
		x.hset(st, k, Store(arr, p.T, v.T))
		return
	}
	if isSyncStruct(t) {
		lk := x.hget(st, "LK", ArrSort(SInt, SInt))
		x.hset(st, "LK", Store(lk, p.T, I(0)))
		return
	}
	x.storeKey(st, "C:"+memKey(t), p.T, nil, x.term(v, t))
}

// term converts a value to its single term
func (x *Exec) term(v Val, t types.Type) *Term {
	if v.T != nil {
		return v.T
	}
	if v.Fn != nil {
		return x.fnTerm(v.Fn)
	}
	if v.Addr != nil {
		a := v.Addr
		var tm *Term
		if a.idx2 == nil {
			tm = App("addr:"+a.key, SInt, a.idx)
		} else {
			tm = App("addr2:"+a.key, SInt, a.idx, a.idx2)
		}
		x.addrOf[tm] = a
		return tm
	}
	panic(unsupported("composite value used as a term"))
}

func (x *Exec) fnTerm(c *Closure) *Term {
	if c.Ref != nil {
		return c.Ref
	}
	c.Ref = I(int64(W.fnID(c.Fn)))
	x.closures[c.Ref] = c
	return c.Ref
}

func (x *Exec) alloc(st *State) *Term {
	r := st.A
	st.A = Add(st.A, I(1))
	x.freshObj[r] = true
	return r
}

// box converts a value of type t into an interface term
func (x *Exec) box(v Val, t types.Type) *Term {
	if types.IsInterface(t) {
		return v.T
	}
	id := I(int64(W.typeID(t)))
	if s := structOf(t); s != nil {
		var args []*Term
		x.flatten(v, t, &args)
		return MkI(id, App("box:"+typeStr(t), SInt, args...))
	}
	tm := x.term(v, t)
	return MkI(id, boxTerm(tm))
}

func boxTerm(tm *Term) *Term {
	switch tm.Sort {
	case SInt:
		return tm
	case SBool:
		return Ite(tm, I(1), I(0))
	case SSlice:
		if tm.Op == "app" && tm.Name == "unboxS" {
			return tm.Args[0]
		}
		return App("boxS", SInt, tm)
	case SReal:
		return App("boxR", SInt, tm)
	}
	return App("box:"+string(tm.Sort), SInt, tm)
}

func (x *Exec) flatten(v Val, t types.Type, out *[]*Term) {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			x.flatten(v.F[i], s.Field(i).Type(), out)
		}
		return
	}
	*out = append(*out, x.term(v, t))
}

func (x *Exec) unbox(st *State, iv *Term, t types.Type) Val {
	if s := structOf(t); s != nil {
		n := 0
		var rec func(t types.Type) Val
		rec = func(t types.Type) Val {
			if s := structOf(t); s != nil {
				v := Val{F: []Val{}}
				for i := 0; i < s.NumFields(); i++ {
					v.F = append(v.F, rec(s.Field(i).Type()))
				}
				return v
			}
			tm := App(fmt.Sprintf("un%dbox:%s", n, typeStr(t)), sortOf(t), iv)
			n++
			return TV(tm)
		}
		_ = s
		return rec(t)
	}
	u := unboxTerm(iv, sortOf(t))
	x.typeFacts(st, u, t, st.A, nil)
	v := x.wrapFn(u, t)
	return v
}

func unboxTerm(iv *Term, s Sort) *Term {
	switch s {
	case SInt:
		return iv
	case SBool:
		if iv.Op == "ite" && iv.Args[1].isLit() && iv.Args[2].isLit() {
			return Eq(iv, I(1))
		}
		return Eq(iv, I(1))
	case SSlice:
		if iv.Op == "app" && iv.Name == "boxS" {
			return iv.Args[0]
		}
		return App("unboxS", SSlice, iv)
	case SReal:
		return App("unboxR", SReal, iv)
	}
	panic(unsupported("unbox " + string(s)))
}

// ---------- obligations ----------

func (x *Exec) oblige(st *State, kind, name string, goal *Term, props []string, where string) {
	if x.mute > 0 || st.infeasible() {
		return
	}
	x.obls = append(x.obls, &Obl{Unit: x.unit.Name, Kind: kind, Name: name, Props: props, PC: st.pc, Goal: goal, Where: where})
}

func (x *Exec) safety(st *State, fr *Frame, what string, goal *Term) {
	x.oblige(st, "safety", what+" in "+shortFn(fr.fn), goal, nil, fr.id)
	st.assume(goal)
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, W.pkg.Pkg.Path()+".", "")
	return s
}

// ---------- values of SSA operands ----------

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return TV(I(int64(W.globalRef(v))))
	case *ssa.Function:
		return Val{Fn: &Closure{Fn: v}}
	case *ssa.Builtin:
		return Val{}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)))
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if tp, ok := under(t).(*types.Basic); ok {
		switch {
		case tp.Info()&types.IsBoolean != 0:
			return TV(BoolT(constant.BoolVal(c.Value)))
		case tp.Info()&types.IsString != 0:
			return TV(I(int64(W.strID(constant.StringVal(c.Value)))))
		case tp.Info()&types.IsInteger != 0:
			b, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return TV(IBig(b))
		case tp.Info()&types.IsFloat != 0:
			return TV(ratTerm(c.Value))
		}
	}
	panic(unsupported("constant " + c.String()))
}

func ratTerm(v constant.Value) *Term {
	v = constant.ToFloat(v)
	num, den := constant.Num(v), constant.Denom(v)
	nb, _ := new(big.Int).SetString(num.ExactString(), 10)
	db, _ := new(big.Int).SetString(den.ExactString(), 10)
	if db == nil || nb == nil {
		panic(unsupported("float constant"))
	}
	if db.Cmp(big.NewInt(1)) == 0 {
		return RLit(nb)
	}
	return mk("/", "", SReal, nil, RLit(nb), RLit(db))
}

// ---------- integer arithmetic ----------

// wrap reduces a mathematical integer to the machine type t.
func (x *Exec) wrap(st *State, v *Term, t types.Type) *Term {
	lo, hi, ok := intBounds(t)
	if !ok {
		return v
	}
	if v.isLit() {
		return IBig(wrapBig(v.Lit, t))
	}
	if x.interval(v, 0).within(lo, hi) {
		return v
	}
	b := under(t).(*types.Basic)
	bits, signed := intBits(b)
	goal := And(Le(IBig(lo), v), Le(v, IBig(hi)))
	l, h0 := Le(IBig(lo), v), Le(v, IBig(hi))
	if st != nil && (l == True || st.pcset[l]) && (h0 == True || st.pcset[h0]) {
		return v
	}
	if st != nil && provedSliced(st.pc, goal, 300) {
		st.assume(goal)
		return v
	}
	m := pow2(bits)
	if !signed {
		return ModC(v, m)
	}
	h := pow2(bits - 1)
	return Sub(ModC(Add(v, IBig(h)), m), IBig(h))
}

func wrapBig(v *big.Int, t types.Type) *big.Int {
	b := under(t).(*types.Basic)
	bits, signed := intBits(b)
	r := new(big.Int).Mod(v, pow2(bits))
	if signed && r.Cmp(pow2(bits-1)) >= 0 {
		r.Sub(r, pow2(bits))
	}
	return r
}

func (x *Exec) arith(st *State, fr *Frame, op token.Token, a, b *Term, t, tb types.Type) *Term {
	bt, _ := under(t).(*types.Basic)
	if a.Sort == SReal {
		switch op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			return mk("/", "", SReal, nil, a, b)
		}
		panic(unsupported("float op " + op.String()))
	}
	if bt != nil && bt.Info()&types.IsString != 0 {
		if op == token.ADD {
			if sa, ok := W.litStr(a); ok {
				if sb, ok := W.litStr(b); ok {
					return I(int64(W.strID(sa + sb)))
				}
			}
			return App("strcat", SInt, a, b)
		}
	}
	nonneg := func(v *Term) bool {
		iv := x.interval(v, 0)
		if iv.lo != nil && iv.lo.Sign() >= 0 {
			return true
		}
		return provedSliced(st.pc, Le(I(0), v), 300)
	}
	switch op {
	case token.ADD:
		return x.wrap(st, Add(a, b), t)
	case token.SUB:
		return x.wrap(st, Sub(a, b), t)
	case token.MUL:
		return x.wrap(st, Mul(a, b), t)
	case token.QUO, token.REM:
		x.safety(st, fr, "division by zero", Not(Eq(b, I(0))))
		var q, r *Term
		if b.isLit() && b.Lit.Sign() > 0 {
			if nonneg(a) {
				q, r = DivC(a, b.Lit), ModC(a, b.Lit)
			} else {
				na := Neg(a)
				q = Ite(Le(I(0), a), DivC(a, b.Lit), Neg(DivC(na, b.Lit)))
				r = Sub(a, MulC(b.Lit, q))
			}
		} else {
			q = x.fresh("quo", SInt)
			r = x.fresh("rem", SInt)
			st.assume(Eq(a, Add(Mul(q, b), r)))
			st.assume(Implies(Le(I(0), a), Le(I(0), r)))
			st.assume(Implies(Le(a, I(0)), Le(r, I(0))))
			st.assume(Implies(Lt(I(0), b), And(Lt(r, b), Lt(Neg(b), r))))
			st.assume(Implies(Lt(b, I(0)), And(Lt(r, Neg(b)), Lt(b, r))))
		}
		if op == token.QUO {
			return x.wrap(st, q, t)
		}
		return r
	case token.SHL, token.SHR:
		if !b.isLit() {
			if iv := x.interval(b, 0); iv.lo != nil && iv.hi != nil && iv.hi.Cmp(big.NewInt(64)) <= 0 && iv.lo.Sign() >= 0 {
				// case split over the shift amount
				res := I(0)
				for k := int(iv.hi.Int64()); k >= int(iv.lo.Int64()); k-- {
					res = Ite(Eq(b, I(int64(k))), x.arith(st, fr, op, a, I(int64(k)), t, tb), res)
				}
				return res
			}
			if lo, _, ok := intBounds(tb); ok && lo.Sign() < 0 {
				x.safety(st, fr, "negative shift", Le(I(0), b))
			}
			// general: enumerate 0..63, beyond: 0 (or -1)
			res := I(0)
			if op == token.SHR {
				res = Ite(Lt(a, I(0)), I(-1), I(0))
			}
			for k := 63; k >= 0; k-- {
				res = Ite(Eq(b, I(int64(k))), x.arith(st, fr, op, a, I(int64(k)), t, tb), res)
			}
			return res
		}
		k := int(b.Lit.Int64())
		if k > 64 {
			k = 64
		}
		if op == token.SHL {
			return x.wrap(st, MulC(pow2(k), a), t)
		}
		return DivC(a, pow2(k))
	case token.AND:
		return x.band(a, b, t)
	case token.OR:
		return x.bor(a, b, t)
	case token.XOR:
		if a.isLit() && b.isLit() {
			return IBig(wrapBig(new(big.Int).Xor(a.Lit, b.Lit), t))
		}
		r := App("bxor", SInt, a, b)
		x.setRange(r, t)
		return r
	case token.AND_NOT:
		if b.isLit() && b.Lit.Sign() >= 0 {
			if k, ok := maskBits(b.Lit); ok {
				return MulC(pow2(k), DivC(a, pow2(k)))
			}
		}
		r := App("bandnot", SInt, a, b)
		x.setRange(r, t)
		return r
	}
	panic(unsupported("int op " + op.String()))
}

func maskBits(b *big.Int) (int, bool) {
	n := new(big.Int).Add(b, big.NewInt(1))
	k := n.BitLen() - 1
	if n.Cmp(pow2(k)) == 0 {
		return k, true
	}
	return 0, false
}

func (x *Exec) band(a, b *Term, t types.Type) *Term {
	if a.isLit() {
		a, b = b, a
	}
	if a.isLit() && b.isLit() {
		return IBig(new(big.Int).And(a.Lit, b.Lit))
	}
	if b.isLit() && b.Lit.Sign() >= 0 {
		if k, ok := maskBits(b.Lit); ok {
			return ModC(a, pow2(k))
		}
		// contiguous mask shifted: (2^m-1)<<k
		tz := int(b.Lit.TrailingZeroBits())
		if m, ok := maskBits(new(big.Int).Rsh(b.Lit, uint(tz))); ok {
			return MulC(pow2(tz), ModC(DivC(a, pow2(tz)), pow2(m)))
		}
	}
	r := App("band", SInt, a, b)
	x.setRange(r, t)
	return r
}

// multipleOf: largest k <= 64 with 2^k dividing t for sure
func multipleOf(t *Term) int {
	if t.isLit() {
		if t.Lit.Sign() == 0 {
			return 64
		}
		return int(t.Lit.TrailingZeroBits())
	}
	switch t.Op {
	case "*":
		k := int(t.Args[0].Lit.TrailingZeroBits()) + multipleOf(t.Args[1])
		if k > 64 {
			k = 64
		}
		return k
	case "+":
		m := 64
		for _, a := range t.Args {
			if k := multipleOf(a); k < m {
				m = k
			}
		}
		return m
	case "mod":
		m := t.Args[1].Lit
		k := multipleOf(t.Args[0])
		if j := int(m.TrailingZeroBits()); j < k {
			k = j
		}
		return k
	case "ite":
		k, j := multipleOf(t.Args[1]), multipleOf(t.Args[2])
		if j < k {
			k = j
		}
		return k
	}
	return 0
}

func (x *Exec) bor(a, b *Term, t types.Type) *Term {
	if a.isLit() && b.isLit() {
		return IBig(new(big.Int).Or(a.Lit, b.Lit))
	}
	try := func(a, b *Term) *Term {
		iv := x.interval(a, 0)
		k := multipleOf(b)
		if iv.lo != nil && iv.lo.Sign() >= 0 && iv.hi != nil && k > 0 && iv.hi.Cmp(pow2(k)) < 0 {
			bv := x.interval(b, 0)
			if bv.lo != nil && bv.lo.Sign() >= 0 {
				return Add(a, b)
			}
		}
		return nil
	}
	if r := try(a, b); r != nil {
		return r
	}
	if r := try(b, a); r != nil {
		return r
	}
	r := App("bor", SInt, a, b)
	x.setRange(r, t)
	return r
}

func (x *Exec) cmp(op token.Token, a, b Val, ta, tb types.Type) *Term {
	eq := func() *Term {
		if a.F != nil {
			var cs []*Term
			s := structOf(ta)
			for i := range a.F {
				cs = append(cs, x.cmp(token.EQL, a.F[i], b.F[i], s.Field(i).Type(), s.Field(i).Type()))
			}
			return And(cs...)
		}
		ia, ib := types.IsInterface(ta), types.IsInterface(tb)
		var p, q *Term
		if ia && !ib {
			p, q = x.term(a, ta), x.box(b, tb)
		} else if ib && !ia {
			p, q = x.box(a, ta), x.term(b, tb)
		} else {
			p, q = x.term(a, ta), x.term(b, tb)
		}
		if p.Sort == SSlice {
			// only comparison with nil
			if q == NilS {
				return Eq(SBase(p), I(0))
			}
			return Eq(SBase(q), I(0))
		}
		return Eq(p, q)
	}
	switch op {
	case token.EQL:
		return eq()
	case token.NEQ:
		return Not(eq())
	}
	p, q := x.term(a, ta), x.term(b, tb)
	if bt, ok := under(ta).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		c := App("strcmp", SInt, p, q)
		p, q = c, I(0)
	}
	switch op {
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	case token.GEQ:
		return Le(q, p)
	}
	panic(unsupported("compare " + op.String()))
}
