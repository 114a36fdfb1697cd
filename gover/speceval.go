package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SVal is a value of the specification language: a symbolic Go value with its
// Go type (nil for SMT arrays).
type SVal struct {
	V   Val
	T   types.Type
	Nil bool
}

type specErr struct{ msg string }

func specFail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

type Eval struct {
	segEnd    bool
	segLoop   bool
	x         *Exec
	st        *State
	cur       *State
	old       *State
	env       map[string]SVal
	vars      map[string]SVal
	k         *Term
	n         *Term
	loopEntry *State
	loopHdr   *ssa.BasicBlock
	loopFr    *Frame
	q         int
	depth     int
}

var anyT types.Type = types.NewInterfaceType(nil, nil)
var intT types.Type = types.Typ[types.UntypedInt]
var boolT types.Type = types.Typ[types.Bool]

func (x *Exec) newEval(st *State) *Eval {
	return &Eval{x: x, st: st, cur: st, old: x.entry, env: x.env, vars: map[string]SVal{}}
}

func (x *Exec) evalBoolOld(st *State, e ast.Expr) *Term {
	ev := x.newEval(st)
	var r *Term
	ev.with(x.entry, func() { r = ev.boolean(e) })
	return r
}

func (x *Exec) evalClauseAt(st *State, cl *Clause, n *Term) *Term {
	ev := x.newEval(st)
	ev.n = n
	ev.vars["j"] = SVal{V: TV(n), T: intT}
	if x.goDepth > 0 && x.iterBase != nil {
		ev.old = x.iterBase
	}
	return ev.boolean(cl.Expr)
}

// evalPreserve yields the preserved buffer, or the context whose connection is preserved.
func (x *Exec) evalPreserve(st *State, cl *Clause) (r *Term, ctx bool) {
	ev := x.newEval(st)
	v := ev.eval(cl.Expr)
	if isIface(v) {
		return IVal(v.V.T), true
	}
	return v.V.T, false
}

// with evaluates f against the heap of another state; facts go to the current path.
func (ev *Eval) with(s *State, f func()) {
	if s == nil {
		specFail("no such state")
	}
	save := ev.cur
	if save != ev.st {
		ev.st.pc = save.pc
	}
	if s == ev.st {
		ev.cur = ev.st
		f()
	} else {
		v := &State{heap: s.heap, gens: s.gens, A: s.A, pc: ev.st.pc, pcset: ev.st.pcset}
		ev.cur = v
		f()
		ev.st.pc = ev.cur.pc
	}
	if save != ev.st {
		save.pc = ev.st.pc
	}
	ev.cur = save
}

func (ev *Eval) boolean(e ast.Expr) *Term {
	v := ev.eval(e)
	if v.V.T == nil || v.V.T.Sort != SBool {
		specFail("not a boolean")
	}
	return v.V.T
}

func (ev *Eval) integer(e ast.Expr) *Term {
	v := ev.eval(e)
	if v.V.T == nil || (v.V.T.Sort != SInt && v.V.T.Sort != SReal) {
		specFail("not an integer: %v", exprStr(e))
	}
	return v.V.T
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func sInt(t *Term) SVal  { return SVal{V: TV(t), T: intT} }
func sBool(t *Term) SVal { return SVal{V: TV(t), T: boolT} }
func sAny(t *Term) SVal  { return SVal{V: TV(t), T: anyT} }

func (ev *Eval) typ(e ast.Expr) types.Type {
	switch e := e.(type) {
	case *ast.StarExpr:
		return types.NewPointer(ev.typ(e.X))
	case *ast.ArrayType:
		return types.NewSlice(ev.typ(e.Elt))
	case *ast.ParenExpr:
		return ev.typ(e.X)
	case *ast.Ident:
		switch e.Name {
		case "any":
			return anyT
		case "byte":
			return types.Typ[types.Uint8]
		}
		if t := W.lookupType(e.Name); t != nil {
			return t
		}
		if o := types.Universe.Lookup(e.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.SelectorExpr:
		if p, ok := e.X.(*ast.Ident); ok {
			for _, im := range W.pkg.Pkg.Imports() {
				if im.Name() == p.Name {
					if o := im.Scope().Lookup(e.Sel.Name); o != nil {
						return o.Type()
					}
				}
			}
		}
	case *ast.InterfaceType:
		return anyT
	case *ast.MapType:
		return types.NewMap(ev.typ(e.Key), ev.typ(e.Value))
	case *ast.ChanType:
		return types.NewChan(types.SendRecv, ev.typ(e.Value))
	}
	specFail("unknown type %s", exprStr(e))
	return nil
}

func (ev *Eval) eval(e ast.Expr) SVal {
	ev.depth++
	if ev.depth > 400 {
		specFail("specification too deep")
	}
	defer func() { ev.depth-- }()
	x := ev.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return ev.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			b, _ := new(big.Int).SetString(e.Value, 0)
			return sInt(IBig(b))
		case token.CHAR:
			v, _ := strconv.Unquote(e.Value)
			return sInt(I(int64([]rune(v)[0])))
		case token.STRING:
			v, _ := strconv.Unquote(e.Value)
			return SVal{V: TV(I(int64(W.strID(v)))), T: types.Typ[types.String]}
		}
	case *ast.Ident:
		return ev.ident(e.Name)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return sBool(Not(ev.boolean(e.X)))
		case token.SUB:
			return sInt(Neg(ev.integer(e.X)))
		}
	case *ast.BinaryExpr:
		return ev.binary(e)
	case *ast.SelectorExpr:
		return ev.sel(ev.eval(e.X), e.Sel.Name)
	case *ast.IndexExpr:
		b := ev.eval(e.X)
		if b.T == nil {
			return ev.arrElem(b, ev.integer(e.Index))
		}
		switch u := under(b.T).(type) {
		case *types.Slice:
			i := ev.integer(e.Index)
			if structOf(u.Elem()) != nil {
				return SVal{V: TV(App("elem:"+typeStr(u.Elem()), SInt, SBase(b.V.T), Add(SOff(b.V.T), i))), T: types.NewPointer(u.Elem())}
			}
			key := "M:" + memKey(u.Elem())
			es := sortOf(u.Elem())
			m := x.hget(ev.cur, key, ArrSort(SInt, ArrSort(SInt, es)))
			t := Select(Select(m, SBase(b.V.T)), Add(SOff(b.V.T), i))
			x.typeFacts(ev.cur, t, u.Elem(), nil, nil)
			return SVal{V: x.wrapFn(t, u.Elem()), T: u.Elem()}
		case *types.Map:
			kv := ev.boxTo(ev.eval(e.Index), u.Key())
			x.specMode++
			v, _ := x.mapGet(ev.cur, b.V.T, b.T, kv)
			x.specMode--
			return SVal{V: x.wrapFn(v, u.Elem()), T: u.Elem()}
		}
		if bt, ok := under(b.T).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			t := Select(App("strarr", ArrSort(SInt, SInt), b.V.T), ev.integer(e.Index))
			x.typeFacts(ev.cur, t, types.Typ[types.Uint8], nil, nil)
			return sInt(t)
		}
	case *ast.CallExpr:
		return ev.call(e)
	}
	specFail("cannot evaluate %s", exprStr(e))
	return SVal{}
}

func (ev *Eval) arrElem(b SVal, i *Term) SVal {
	t := Select(b.V.T, i)
	switch t.Sort {
	case SInt:
		return sInt(t)
	case SBool:
		return sBool(t)
	case SIface:
		return sAny(t)
	}
	return SVal{V: TV(t)}
}

func (ev *Eval) ident(n string) SVal {
	switch n {
	case "true":
		return sBool(True)
	case "false":
		return sBool(False)
	case "nil":
		return SVal{Nil: true}
	}
	if v, ok := ev.vars[n]; ok {
		return v
	}
	if v, ok := ev.env[n]; ok {
		return v
	}
	if d := specs.Defs[n]; d != nil && len(d.params) == 0 {
		return ev.eval(d.body)
	}
	if o := W.pkg.Pkg.Scope().Lookup(n); o != nil {
		switch o := o.(type) {
		case *types.Const:
			return constSVal(o.Val(), o.Type())
		case *types.Var:
			if g, ok := W.pkg.Members[n].(*ssa.Global); ok {
				ev.x.specMode++
				v := ev.x.loadRaw(ev.cur, TV(I(int64(W.globalRef(g)))), o.Type())
				ev.x.specMode--
				return SVal{V: v, T: o.Type()}
			}
		}
	}
	specFail("unknown name %s", n)
	return SVal{}
}

func constSVal(v constant.Value, t types.Type) SVal {
	b, _ := under(t).(*types.Basic)
	switch v.Kind() {
	case constant.Bool:
		return sBool(BoolT(constant.BoolVal(v)))
	case constant.String:
		return SVal{V: TV(I(int64(W.strID(constant.StringVal(v))))), T: types.Typ[types.String]}
	case constant.Int:
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		if b != nil && b.Info()&types.IsUntyped == 0 {
			return SVal{V: TV(IBig(n)), T: t}
		}
		return sInt(IBig(n))
	case constant.Float:
		return SVal{V: TV(ratTerm(v)), T: types.Typ[types.Float64]}
	}
	specFail("constant")
	return SVal{}
}

func isIface(v SVal) bool {
	return v.T != nil && types.IsInterface(v.T)
}

// boxTo converts to the sort of the wanted type.
func (ev *Eval) boxTo(v SVal, want types.Type) *Term {
	if v.Nil {
		return zeroTerm(want)
	}
	if types.IsInterface(want) && !isIface(v) {
		return ev.box(v)
	}
	return ev.x.term(v.V, v.T)
}

func (ev *Eval) box(v SVal) *Term {
	if v.Nil {
		return NilI
	}
	if isIface(v) {
		return v.V.T
	}
	t := v.T
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedInt {
		t = types.Typ[types.Int]
	}
	return ev.x.box(v.V, t)
}

func toReal(t *Term) *Term {
	if t.Sort == SReal {
		return t
	}
	if t.isLit() {
		return RLit(t.Lit)
	}
	return mk("to_real", "", SReal, nil, t)
}

func (ev *Eval) equal(a, b SVal) *Term {
	if a.Nil && b.Nil {
		return True
	}
	if a.Nil {
		a, b = b, a
	}
	if b.Nil {
		t := a.V.T
		if t == nil && a.V.Fn != nil {
			return False
		}
		switch t.Sort {
		case SIface:
			return Eq(ITyp(t), I(0))
		case SSlice:
			return Eq(SBase(t), I(0))
		case SInt:
			return Eq(t, I(0))
		}
		specFail("nil comparison")
	}
	if a.V.F != nil && b.V.F != nil {
		var cs []*Term
		s := structOf(a.T)
		for i := range a.V.F {
			ft := s.Field(i).Type()
			cs = append(cs, ev.equal(SVal{V: a.V.F[i], T: ft}, SVal{V: b.V.F[i], T: ft}))
		}
		return And(cs...)
	}
	if isIface(a) && !isIface(b) {
		return Eq(a.V.T, ev.box(b))
	}
	if isIface(b) && !isIface(a) {
		return Eq(ev.box(a), b.V.T)
	}
	p, q := ev.x.term(a.V, a.T), ev.x.term(b.V, b.T)
	if p.Sort == SReal || q.Sort == SReal {
		return Eq(toReal(p), toReal(q))
	}
	if p.Sort != q.Sort {
		specFail("comparison of different sorts %s %s", p.Sort, q.Sort)
	}
	return Eq(p, q)
}

func (ev *Eval) binary(e *ast.BinaryExpr) SVal {
	switch e.Op {
	case token.LAND:
		a := ev.boolean(e.X)
		if a == False {
			return sBool(False)
		}
		return sBool(And(a, ev.boolean(e.Y)))
	case token.LOR:
		a := ev.boolean(e.X)
		if a == True {
			return sBool(True)
		}
		return sBool(Or(a, ev.boolean(e.Y)))
	case token.EQL:
		return sBool(ev.equal(ev.eval(e.X), ev.eval(e.Y)))
	case token.NEQ:
		return sBool(Not(ev.equal(ev.eval(e.X), ev.eval(e.Y))))
	}
	a, b := ev.integer(e.X), ev.integer(e.Y)
	if a.Sort != b.Sort {
		a, b = toReal(a), toReal(b)
	}
	r := func(t *Term) SVal {
		if t.Sort == SReal {
			return SVal{V: TV(t), T: types.Typ[types.Float64]}
		}
		return sInt(t)
	}
	switch e.Op {
	case token.ADD:
		return r(Add(a, b))
	case token.SUB:
		return r(Sub(a, b))
	case token.MUL:
		return r(Mul(a, b))
	case token.QUO:
		if a.Sort == SReal {
			return r(mk("/", "", SReal, nil, a, b))
		}
		if !b.isLit() || b.Lit.Sign() <= 0 {
			specFail("division by non-literal")
		}
		return r(DivC(a, b.Lit))
	case token.REM:
		if !b.isLit() || b.Lit.Sign() <= 0 {
			specFail("modulo by non-literal")
		}
		return r(ModC(a, b.Lit))
	case token.LSS:
		return sBool(Lt(a, b))
	case token.LEQ:
		return sBool(Le(a, b))
	case token.GTR:
		return sBool(Lt(b, a))
	case token.GEQ:
		return sBool(Le(b, a))
	}
	specFail("operator %s", e.Op)
	return SVal{}
}

// sel reads a field (with embedded promotion).
func (ev *Eval) sel(v SVal, name string) SVal {
	x := ev.x
	T := v.T
	if T == nil {
		specFail("selection .%s on an untyped value", name)
	}
	ref := v.V.T
	if types.IsInterface(T) {
		c := W.closedFor(T)
		if c == nil {
			specFail("field %s of interface %s", name, T)
		}
		ref = IVal(ref)
		T = c
	}
	if s := structOf(T); s != nil && v.V.F != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return SVal{V: v.V.F[i], T: s.Field(i).Type()}
			}
		}
		specFail("no field %s in %s", name, T)
	}
	p, ok := under(T).(*types.Pointer)
	if !ok {
		specFail("selection .%s on %s", name, T)
	}
	if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
		name = W.fieldAlias(n.Obj().Name(), name)
	}
	obj, path, _ := types.LookupFieldOrMethod(T, true, W.pkg.Pkg, name)
	fv, isF := obj.(*types.Var)
	if !isF {
		// a field renamed inside an embedded struct
		if r := ev.embeddedAlias(p.Elem(), name); r != "" {
			obj, path, _ = types.LookupFieldOrMethod(T, true, W.pkg.Pkg, r)
			fv, isF = obj.(*types.Var)
		}
		if !isF {
			specFail("no field %s in %s", name, T)
		}
	}
	cur := p.Elem()
	for d, i := range path {
		a := x.fieldAddr(ev.cur, ref, cur, i)
		ft := under(cur).(*types.Struct).Field(i).Type()
		if a.Addr == nil {
			// struct or array by value: stays an address
			ref = a.T
			cur = ft
			if d == len(path)-1 {
				return SVal{V: TV(ref), T: types.NewPointer(ft)}
			}
			continue
		}
		x.specMode++
		t := x.loadKey(ev.cur, a.Addr.key, a.Addr.idx, nil, ft)
		x.specMode--
		if d == len(path)-1 {
			return SVal{V: x.wrapFn(t, ft), T: fv.Type()}
		}
		ref = t
		if pp, ok := under(ft).(*types.Pointer); ok {
			cur = pp.Elem()
		} else if types.IsInterface(ft) {
			specFail("embedded interface")
		}
	}
	return SVal{}
}

func (ev *Eval) embeddedAlias(t types.Type, name string) string {
	s := structOf(t)
	if s == nil {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}
		n, ok := types.Unalias(f.Type()).(*types.Named)
		if !ok {
			continue
		}
		if a := W.fieldAlias(n.Obj().Name(), name); a != name {
			return a
		}
	}
	return ""
}

func (ev *Eval) trace(comp string, s Sort, j *Term) *Term {
	return Select(ev.x.hget(ev.st, "T:"+comp, ArrSort(SInt, s)), j)
}

func kindArg(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}
	specFail("event kind expected")
	return ""
}

func (ev *Eval) quant(name string, s SVal, f func() *Term) *Term {
	save, had := ev.vars[name]
	ev.vars[name] = s
	ev.q++
	t := f()
	ev.q--
	if had {
		ev.vars[name] = save
	} else {
		delete(ev.vars, name)
	}
	return t
}

func (ev *Eval) call(e *ast.CallExpr) SVal {
	x := ev.x
	fn, ok := e.Fun.(*ast.Ident)
	if !ok {
		specFail("call %s", exprStr(e))
	}
	a := e.Args
	need := func(n int) {
		if len(a) != n {
			specFail("%s: wrong number of arguments", fn.Name)
		}
	}
	if d := specs.Defs[fn.Name]; d != nil {
		need(len(d.params))
		if d.rec {
			var ts []*Term
			for _, q := range a {
				v := ev.eval(q)
				ts = append(ts, x.term(v.V, v.T))
			}
			return sInt(App("rec:"+d.name, SInt, ts...))
		}
		vals := make([]SVal, len(a))
		for i := range a {
			vals[i] = ev.eval(a[i])
		}
		nv := map[string]SVal{}
		for i, p := range d.params {
			nv[p] = vals[i]
		}
		save := ev.vars
		saveEnv := ev.env
		ev.vars = nv
		ev.env = nil
		r := ev.eval(d.body)
		ev.vars = save
		ev.env = saveEnv
		return r
	}
	evTerm := func(c string, s Sort) *Term { return ev.trace(c, s, ev.integer(a[0])) }
	switch fn.Name {
	case "implies":
		need(2)
		p := ev.boolean(a[0])
		if p == False {
			return sBool(True)
		}
		return sBool(Implies(p, ev.boolean(a[1])))
	case "iff":
		need(2)
		return sBool(Eq(ev.boolean(a[0]), ev.boolean(a[1])))
	case "ite":
		need(3)
		c := ev.boolean(a[0])
		if c == True {
			return ev.eval(a[1])
		}
		if c == False {
			return ev.eval(a[2])
		}
		p, q := ev.eval(a[1]), ev.eval(a[2])
		if p.Nil {
			return SVal{V: TV(Ite(c, zeroTerm(q.T), q.V.T)), T: q.T}
		}
		if q.Nil {
			return SVal{V: TV(Ite(c, p.V.T, zeroTerm(p.T))), T: p.T}
		}
		if isIface(p) != isIface(q) {
			return sAny(Ite(c, ev.box(p), ev.box(q)))
		}
		return SVal{V: TV(Ite(c, x.term(p.V, p.T), x.term(q.V, q.T))), T: p.T}
	case "forall":
		need(4)
		lo, hi := ev.integer(a[1]), ev.integer(a[2])
		nm := a[0].(*ast.Ident).Name
		b := BoundVar(fmt.Sprintf("%s_%d", nm, ev.q), SInt)
		var body *Term
		body = ev.quant(nm, sInt(b), func() *Term { return ev.boolean(a[3]) })
		return sBool(Forall([]*Term{b}, Implies(And(Le(lo, b), Lt(b, hi)), body)))
	case "forallk":
		need(3)
		t := ev.typ(a[1])
		nm := a[0].(*ast.Ident).Name
		b := BoundVar(fmt.Sprintf("%s_%d", nm, ev.q), sortOf(t))
		body := ev.quant(nm, SVal{V: TV(b), T: t}, func() *Term { return ev.boolean(a[2]) })
		return sBool(Forall([]*Term{b}, body))
	case "old":
		need(1)
		var r SVal
		ev.with(ev.old, func() { r = ev.eval(a[0]) })
		return r
	case "atentry":
		need(1)
		var r SVal
		ev.with(x.entry, func() { r = ev.eval(a[0]) })
		return r
	case "atspawn":
		// the state in which the current goroutine was started
		need(1)
		var r SVal
		if x.spawnAt == nil {
			specFail("atspawn outside a goroutine")
		}
		ev.with(x.spawnAt, func() { r = ev.eval(a[0]) })
		return r
	case "atloop":
		need(1)
		var r SVal
		if ev.loopEntry == nil {
			specFail("atloop outside a loop")
		}
		ev.with(ev.loopEntry, func() { r = ev.eval(a[0]) })
		return r
	case "segloop":
		return sBool(BoolT(ev.segLoop))
	case "segend":
		// does the segment end the goroutine?
		if ev.segEnd {
			return sBool(True)
		}
		return sBool(False)
	case "n0":
		return sInt(x.tcount(ev.old))
	case "nloop":
		if ev.loopEntry == nil {
			specFail("nloop outside a loop")
		}
		return sInt(x.tcount(ev.loopEntry))
	case "ncalls":
		return sInt(x.tcount(ev.cur))
	case "k":
		if ev.k == nil {
			specFail("k() outside a loop")
		}
		return sInt(ev.k)
	case "visited":
		need(1)
		if ev.loopHdr == nil {
			specFail("visited outside a loop")
		}
		for _, in := range ev.loopHdr.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				mt := under(nx.Iter.(*ssa.Range).X.Type()).(*types.Map)
				it := x.val(ev.loopFr, ev.st, nx.Iter)
				va := x.hget(ev.cur, "IT:"+memKey(mt.Key()), ArrSort(SInt, ArrSort(sortOf(mt.Key()), SBool)))
				return sBool(Select(Select(va, it.T), ev.boxTo(ev.eval(a[0]), mt.Key())))
			}
		}
		specFail("no map iteration")
	case "rangemap":
		// is the loop ranging over this map?
		need(1)
		if ev.loopHdr == nil {
			specFail("rangemap outside a loop")
		}
		for _, in := range ev.loopHdr.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				it := x.val(ev.loopFr, ev.st, nx.Iter)
				return sBool(Eq(it.F[0].T, ev.eval(a[0]).V.T))
			}
		}
		return sBool(False)
	case "fresh":
		need(1)
		v := ev.eval(a[0])
		t := v.V.T
		if t.Sort == SSlice {
			t = SBase(t)
		} else if t.Sort == SIface {
			t = IVal(t)
		}
		return sBool(And(Le(ev.old.A, t), Lt(t, ev.cur.A)))
	case "allocated":
		need(1)
		v := ev.eval(a[0])
		t := v.V.T
		if t.Sort == SSlice {
			t = SBase(t)
		} else if t.Sort == SIface {
			t = IVal(t)
		}
		return sBool(Lt(t, ev.cur.A))
	case "len", "cap":
		need(1)
		v := ev.eval(a[0])
		switch u := under(v.T).(type) {
		case *types.Slice:
			if fn.Name == "len" {
				return sInt(SLen(v.V.T))
			}
			return sInt(SCap(v.V.T))
		case *types.Map:
			l := x.mapLen(ev.cur, v.V.T, v.T)
			return sInt(Ite(Eq(v.V.T, I(0)), I(0), l))
		case *types.Basic:
			return sInt(App("strlen", SInt, v.V.T))
		case *types.Chan:
			_ = u
			return sInt(Select(x.hget(ev.cur, "CH:cap", ArrSort(SInt, SInt)), v.V.T))
		}
		specFail("len of %s", v.T)
	case "base":
		need(1)
		return sInt(SBase(ev.eval(a[0]).V.T))
	case "off":
		need(1)
		return sInt(SOff(ev.eval(a[0]).V.T))
	case "arr":
		// the backing array of a slice, as an SMT array
		need(1)
		v := ev.eval(a[0])
		u := under(v.T).(*types.Slice)
		m := x.hget(ev.cur, "M:"+memKey(u.Elem()), ArrSort(SInt, ArrSort(SInt, sortOf(u.Elem()))))
		return SVal{V: TV(Select(m, SBase(v.V.T)))}
	case "ref":
		// object reference of a pointer, map or interface
		need(1)
		v := ev.eval(a[0])
		if v.V.T.Sort == SIface {
			return sInt(IVal(v.V.T))
		}
		return sInt(v.V.T)
	case "has":
		need(2)
		m := ev.eval(a[0])
		mt := under(m.T).(*types.Map)
		kv := ev.boxTo(ev.eval(a[1]), mt.Key())
		return sBool(And(Not(Eq(m.V.T, I(0))), Select(x.mapDom(ev.cur, m.V.T, m.T), kv)))
	case "closed":
		need(1)
		return sBool(Not(Eq(Select(x.hget(ev.cur, "CH:closed", ArrSort(SInt, SInt)), ev.eval(a[0]).V.T), I(0))))
	case "evis":
		need(2)
		return sBool(Eq(evTerm("kind", SInt), I(int64(kindID(kindArg(a[1]))))))
	case "evrecv", "eva0", "eva1", "eva2", "evr0", "evr1", "evmsg", "evsess":
		need(1)
		return sAny(evTerm(fn.Name[2:], SIface))
	case "evconn":
		need(1)
		return SVal{V: TV(evTerm("conn", SIface)), T: W.lookupType("TransportConnection")}
	case "evhassess":
		need(1)
		return sBool(evTerm("hassess", SBool))
	case "evbuf":
		need(1)
		return SVal{V: TV(evTerm("buf", SInt)), T: types.NewPointer(W.lookupType("UBuf"))}
	case "evlen", "evhead", "evtail", "evstart":
		need(1)
		return sInt(evTerm(fn.Name[2:], SInt))
	case "evarr":
		need(1)
		return SVal{V: TV(evTerm("bytes", ArrSort(SInt, SInt)))}
	case "evbyte":
		need(2)
		j := ev.integer(a[0])
		i := ev.integer(a[1])
		t := Select(ev.trace("bytes", ArrSort(SInt, SInt), j), Add(ev.trace("start", SInt, j), i))
		x.typeFacts(ev.cur, t, types.Typ[types.Uint8], nil, nil)
		return sInt(t)
	case "cnt":
		need(2)
		k := kindArg(a[0])
		return sInt(Select(x.hget(ev.cur, "T:cnt:"+k, ArrSort(SIface, SInt)), ev.box(ev.eval(a[1]))))
	case "wset":
		need(2)
		return sAny(Select(x.hget(ev.cur, "W:"+kindArg(a[0]), ArrSort(SIface, SIface)), ev.box(ev.eval(a[1]))))
	case "typeis":
		need(2)
		v := ev.eval(a[0])
		t := ev.typ(a[1])
		if types.IsInterface(t) {
			n := W.regIface(t)
			if c := W.closedFor(t); c != nil {
				return sBool(Eq(ITyp(v.V.T), I(int64(W.typeID(c)))))
			}
			return sBool(App("impl:"+n, SBool, ITyp(v.V.T)))
		}
		return sBool(Eq(ITyp(v.V.T), I(int64(W.typeID(t)))))
	case "as":
		need(2)
		v := ev.eval(a[0])
		t := ev.typ(a[1])
		if types.IsInterface(t) {
			return SVal{V: TV(ev.box(v)), T: t}
		}
		if !isIface(v) {
			return SVal{V: v.V, T: t}
		}
		return SVal{V: x.unbox(ev.cur, IVal(v.V.T), t), T: t}
	case "dyntype":
		need(1)
		return sInt(ITyp(ev.eval(a[0]).V.T))
	case "opaque":
		// the dynamic type is not one of the repository's own
		need(1)
		v := ev.eval(a[0])
		t := ITyp(v.V.T)
		if t.isLit() && t.Lit.Sign() > 0 {
			ty := W.typeOf(int(t.Lit.Int64()))
			if p, ok := ty.(*types.Pointer); ok {
				ty = p.Elem()
			}
			if n, ok := ty.(*types.Named); ok && n.Obj().Pkg() == W.pkg.Pkg {
				return sBool(False)
			}
		}
		return sBool(True)
	case "pure":
		// pure(Method, recv, args...): the value of an opaque query
		m := kindArg(a[0])
		r := ev.eval(a[1])
		obj, _, _ := types.LookupFieldOrMethod(r.T, true, W.pkg.Pkg, m)
		f, ok := obj.(*types.Func)
		if !ok {
			specFail("no method %s", m)
		}
		sig := f.Type().(*types.Signature)
		ts := []*Term{r.V.T}
		for i, q := range a[2:] {
			ts = append(ts, ev.boxTo(ev.eval(q), sig.Params().At(i).Type()))
		}
		rt := sig.Results().At(0).Type()
		return SVal{V: TV(App("q:"+m+".0", sortOf(rt), ts...)), T: rt}
	case "now":
		return sInt(x.now(ev.st))
	case "ustr":
		// string from the bytes of a slice
		need(3)
		v := ev.eval(a[0])
		if v.T != nil {
			specFail("ustr wants an array")
		}
		return SVal{V: TV(App("mkstr", SInt, v.V.T, ev.integer(a[1]), ev.integer(a[2]))), T: types.Typ[types.String]}
	case "ufn":
		// ufn(name, args...): uninterpreted integer function
		var ts []*Term
		for _, q := range a[1:] {
			v := ev.eval(q)
			ts = append(ts, x.term(v.V, v.T))
		}
		return sInt(App("u:"+kindArg(a[0]), SInt, ts...))
	case "abs":
		v := ev.integer(a[0])
		return sInt(Ite(Le(I(0), v), v, Neg(v)))
	case "min":
		p, q := ev.integer(a[0]), ev.integer(a[1])
		return sInt(Ite(Le(p, q), p, q))
	case "max":
		p, q := ev.integer(a[0]), ev.integer(a[1])
		return sInt(Ite(Le(p, q), q, p))
	case "real":
		return SVal{V: TV(toReal(ev.integer(a[0]))), T: types.Typ[types.Float64]}
	}
	if o := types.Universe.Lookup(fn.Name); o != nil {
		if tn, ok := o.(*types.TypeName); ok && len(a) == 1 {
			if _, _, isInt := intBounds(tn.Type()); isInt {
				v := ev.eval(a[0])
				return SVal{V: TV(x.wrapMath(v.V.T, tn.Type())), T: tn.Type()}
			}
		}
	}
	specFail("unknown function %s", fn.Name)
	return SVal{}
}

// wrapMath reduces to a machine type without consulting the path.
func (x *Exec) wrapMath(v *Term, t types.Type) *Term {
	lo, hi, _ := intBounds(t)
	if v.isLit() {
		return IBig(wrapBig(v.Lit, t))
	}
	if x != nil && x.interval(v, 0).within(lo, hi) {
		return v
	}
	bits, signed := intBits(under(t).(*types.Basic))
	m := pow2(bits)
	if !signed {
		return ModC(v, m)
	}
	h := pow2(bits - 1)
	return Sub(ModC(Add(v, IBig(h)), m), IBig(h))
}

// specAxioms: one-step unfolding of recursive specification functions.
func specAxioms(t *Term) []*Term {
	if !strings.HasPrefix(t.Name, "rec:") {
		return nil
	}
	d := specs.Defs[strings.TrimPrefix(t.Name, "rec:")]
	if d == nil {
		return nil
	}
	ev := &Eval{x: &Exec{rng: map[*Term]ival{}, ksort: map[string]Sort{}, addrOf: map[*Term]*Addr{}, closures: map[*Term]*Closure{}}, vars: map[string]SVal{}}
	ev.st = &State{heap: map[string]*Term{}, pcset: map[*Term]bool{}, gens: []genRec{{id: 0, A: I(1)}}, A: I(1)}
	ev.cur = ev.st
	for i, p := range d.params {
		v := SVal{V: TV(t.Args[i])}
		if t.Args[i].Sort == SInt {
			v.T = intT
		} else if t.Args[i].Sort == SIface {
			v.T = anyT
		} else if t.Args[i].Sort == SSlice {
			v.T = types.NewSlice(anyT)
		}
		ev.vars[p] = v
	}
	b := ev.eval(d.body)
	return []*Term{Eq(t, b.V.T)}
}
