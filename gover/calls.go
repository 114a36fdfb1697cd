package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func packRes(res []Val) Val {
	if len(res) == 1 {
		return res[0]
	}
	if res == nil {
		res = []Val{}
	}
	return Val{F: res}
}

func (x *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, site *ssa.Call, k func(*State, Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, fr, b, c, k)
		return
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		recv := x.val(fr, st, c.Value)
		x.invoke(st, fr, c, recv, args, k)
		return
	}
	if f := c.StaticCallee(); f != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			v := x.val(fr, st, mc)
			bind = v.Fn.Bind
		}
		x.static(st, fr, f, args, bind, k)
		return
	}
	fv := x.val(fr, st, c.Value)
	if fv.Fn == nil && fv.T != nil {
		if cl, ok := x.closures[fv.T]; ok {
			fv.Fn = cl
		} else if fv.T.isLit() {
			if f := W.fnByRef(int(fv.T.Lit.Int64())); f != nil {
				fv.Fn = &Closure{Fn: f}
			}
		}
	}
	if fv.Fn != nil {
		x.static(st, fr, fv.Fn.Fn, args, fv.Fn.Bind, k)
		return
	}
	// unknown function value
	x.safety(st, fr, "call of nil function", Not(Eq(fv.T, I(0))))
	x.opaque(st, fr, "func", "call", TV(MkI(I(int64(W.typeID(c.Value.Type()))), fv.T)), args, c.Signature(), k)
}

func (x *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, recv Val, args []Val, k func(*State, Val)) {
	v := recv.T
	name := c.Method.Name()
	it := c.Value.Type()
	if x.unit.Opaque[name] && typeStr(it) == "DataProcessor" {
		x.safety(st, fr, "method call on nil interface", Not(Eq(ITyp(v), I(0))))
		x.opaque(st, fr, typeStr(it), name, recv, args, c.Signature(), k)
		return
	}
	var ct types.Type
	if t := ITyp(v); t.isLit() && t.Lit.Sign() > 0 {
		ct = W.typeOf(int(t.Lit.Int64()))
	} else if cc := W.closedFor(it); cc != nil {
		x.safety(st, fr, "method call on nil interface", Not(Eq(ITyp(v), I(0))))
		x.trust("closed world: " + typeStr(it) + " values are " + typeStr(cc))
		st.assume(Eq(ITyp(v), I(int64(W.typeID(cc)))))
		st.assume(Lt(I(0), IVal(v)))
		ct = cc
	} else {
		// a type already implied by the path condition
		for id, ty := range x.knownTypes(st, v) {
			_ = id
			ct = ty
		}
	}
	if ct != nil {
		f := W.prog.LookupMethod(ct, c.Method.Pkg(), name)
		if f == nil {
			panic(unsupported("no method " + name + " on " + ct.String()))
		}
		rv := x.unbox(st, IVal(v), ct)
		x.static(st, fr, f, append([]Val{rv}, args...), nil, k)
		return
	}
	x.safety(st, fr, "method call on nil interface", Not(Eq(ITyp(v), I(0))))
	x.opaque(st, fr, typeStr(it), name, recv, args, c.Signature(), k)
}

func (x *Exec) knownTypes(st *State, v *Term) map[int]types.Type {
	t := ITyp(v)
	for _, p := range st.pc {
		if p.Op == "=" {
			a, b := p.Args[0], p.Args[1]
			if b == t {
				a, b = b, a
			}
			if a == t && b.isLit() && b.Lit.Sign() > 0 {
				id := int(b.Lit.Int64())
				return map[int]types.Type{id: W.typeOf(id)}
			}
		}
	}
	return nil
}

var inlinePkgs = map[string]bool{"encoding/binary": true, "io": true, "errors": true, "bytes": true, "strings": true, "slices": true, "maps": true, "sort": true, "math": true, "math/bits": true, "cmp": true, "internal/byteorder": true}

func (x *Exec) static(st *State, fr *Frame, f *ssa.Function, args []Val, bind []Val, k func(*State, Val)) {
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if m, ok := models[name]; ok {
		m(x, st, fr, f, args, k)
		return
	}
	inRepo := f.Pkg == W.pkg || (f.Pkg == nil && f.Synthetic != "" && strings.Contains(name, W.pkg.Pkg.Path()))
	if f.Parent() != nil && f.Parent().Pkg == W.pkg {
		inRepo = true
	}
	if inRepo {
		sn := shortFn(f)
		if sn == "(*DefaultUStack).PublishEvent" && x.unit.Fn != sn {
			x.publish(st, fr, args, k)
			return
		}
		if x.unit.OpaqueFn[sn] {
			x.opaqueFn(st, fr, f, args, k)
			return
		}
		if sp := specs.ByName[sn]; sp != nil && sp.IsContract && sp.Fn != x.unit.Fn && !x.unit.Inline[sn] {
			if x.applyContract(st, fr, sp, f, args, k) {
				return
			}
		}
		x.inline(st, f, args, bind, fr, func(st *State, res []Val) { k(st, packRes(res)) })
		return
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		pk = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Path()
	}
	if inlinePkgs[pk] {
		x.inline(st, f, args, bind, fr, func(st *State, res []Val) { k(st, packRes(res)) })
		return
	}
	switch pk {
	case "fmt", "log", "time", "os", "net", "strconv", "runtime", "reflect", "encoding/json", "encoding/gob", "unicode", "unicode/utf8", "math/rand", "context":
		x.trust("external " + name + " has no effect on the objects under contract")
		x.external(st, fr, f, args, k)
		return
	}
	panic(unsupported("external function " + name))
}

// external: unconstrained results, no effect
func (x *Exec) external(st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
	n := f.Name()
	for _, p := range []string{"Scan", "Sscan", "Fscan", "AfterFunc", "Append", "Fappend"} {
		if strings.HasPrefix(n, p) {
			panic(unsupported("external function " + f.String()))
		}
	}
	for i, a := range args {
		if i < len(f.Params) {
			if _, ok := under(f.Params[i].Type()).(*types.Signature); ok {
				panic(unsupported("external function " + f.String() + " with a callback"))
			}
		}
		if strings.HasPrefix(n, "Fprint") && i == 0 && a.T != nil {
			if t := ITyp(a.T); !t.isLit() || strings.HasPrefix(typeStr(W.typeOf(int(t.Lit.Int64()))), "*UBuf") {
				panic(unsupported(f.String() + " to an unknown writer"))
			}
		}
	}
	r := f.Signature.Results()
	var res []Val
	for i := 0; i < r.Len(); i++ {
		res = append(res, x.freshVal(st, "ext."+f.Name(), r.At(i).Type()))
	}
	k(st, packRes(res))
}

// ---------- ghost trace ----------

var traceComps = []struct {
	n string
	s Sort
}{
	{"kind", SInt}, {"recv", SIface}, {"a0", SIface}, {"a1", SIface}, {"a2", SIface}, {"r0", SIface}, {"r1", SIface},
	{"conn", SIface}, {"msg", SIface}, {"buf", SInt}, {"sess", SIface}, {"hassess", SBool},
	{"bytes", ArrSort(SInt, SInt)}, {"start", SInt}, {"len", SInt}, {"head", SInt}, {"tail", SInt},
}

var kindIDs = map[string]int{}
var kindNames []string

func kindID(k string) int {
	subMu.Lock()
	defer subMu.Unlock()
	if v, ok := kindIDs[k]; ok {
		return v
	}
	kindIDs[k] = len(kindIDs) + 1
	kindNames = append(kindNames, k)
	return kindIDs[k]
}

func (x *Exec) tcount(st *State) *Term {
	if t, ok := st.heap["T:n"]; ok {
		return t
	}
	return st.get("T:n", SInt)
}

func (x *Exec) emit(st *State, kind string, comp map[string]*Term) {
	n := x.tcount(st)
	comp["kind"] = I(int64(kindID(kind)))
	for _, c := range traceComps {
		v, ok := comp[c.n]
		if !ok {
			continue
		}
		a := x.hget(st, "T:"+c.n, ArrSort(SInt, c.s))
		x.hset(st, "T:"+c.n, Store(a, n, v))
	}
	x.hset(st, "T:n", Add(n, I(1)))
	// ghost counters per subject
	subj := comp["recv"]
	if kind == "Publish" {
		subj = comp["a2"]
	}
	if subj != nil {
		ck := "T:cnt:" + kind
		a := x.hget(st, ck, ArrSort(SIface, SInt))
		x.hset(st, ck, Store(a, subj, Add(Select(a, subj), I(1))))
	}
	if strings.HasPrefix(kind, "Set") && comp["recv"] != nil && comp["a0"] != nil {
		wk := "W:" + kind
		a := x.hget(st, wk, ArrSort(SIface, SIface))
		x.hset(st, wk, Store(a, comp["recv"], comp["a0"]))
	}
	if x.mute == 0 {
		for _, cl := range x.unit.OnEvent {
			if cl.Kind == kind {
				g := x.evalClauseAt(st, cl, n)
				x.oblige(st, "onevent", "at "+kind+": "+cl.Text, g, cl.Tags, "")
			}
		}
	}
}

func (x *Exec) resetTrace(st *State) {
	x.hset(st, "T:n", I(0))
	for _, k := range sortedKeys(st.heap) {
		if strings.HasPrefix(k, "T:cnt:") {
			delete(st.heap, k)
		}
	}
	// counters start at zero: recorded as a base generation
	for _, k := range allCntKeys() {
		x.hset(st, k, ConstArr(ArrSort(SIface, SInt), I(0)))
	}
}

var cntKinds = []string{"OnUpperData", "OnLowerData", "OnEvent", "Publish", "Close", "Run", "Stop", "SetReference", "Write", "Read", "GetReference", "call", "spawn", "send", "recv", "NextConnection", "Accept", "Closed", "SetUpper", "SetLower", "SetUStack", "close", "Listen", "Dial", "Encode", "Decode", "Marshal", "Unmarshal"}

func allCntKeys() []string {
	var o []string
	for _, k := range cntKinds {
		o = append(o, "T:cnt:"+k)
	}
	return o
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// fieldTerm reads field f of the named repo struct at ref
func (x *Exec) fieldTerm(st *State, typ, f string, ref *Term) (*Term, types.Type) {
	t := W.lookupType(typ)
	if t == nil {
		panic(unsupported("type " + typ + " is gone"))
	}
	s := under(t).(*types.Struct)
	f = W.fieldAlias(typ, f)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			a := x.fieldAddr(st, ref, t, i)
			if a.Addr == nil {
				return a.T, types.NewPointer(s.Field(i).Type())
			}
			return x.loadKey(st, a.Addr.key, a.Addr.idx, nil, s.Field(i).Type()), s.Field(i).Type()
		}
	}
	panic(unsupported("field " + typ + "." + f + " is gone"))
}

func (x *Exec) ubufComps(st *State, ub *Term, comp map[string]*Term) {
	comp["buf"] = ub
	data, _ := x.fieldTerm(st, "UBuf", "data", ub)
	bytes, _ := x.fieldTerm(st, "uBufData", "bytes", data)
	rd, _ := x.fieldTerm(st, "UBuf", "readerIndex", ub)
	wr, _ := x.fieldTerm(st, "UBuf", "writerIndex", ub)
	m := x.hget(st, "M:uint8", ArrSort(SInt, ArrSort(SInt, SInt)))
	comp["bytes"] = Select(m, SBase(bytes))
	comp["start"] = Add(SOff(bytes), rd)
	comp["len"] = Sub(wr, rd)
	comp["head"] = rd
	comp["tail"] = Sub(SCap(bytes), wr)
}

func (x *Exec) ctxComps(st *State, ctx *Term, comp map[string]*Term) *Term {
	r := IVal(ctx)
	comp["conn"], _ = x.fieldTerm(st, "DefaultUStackContext", "connection", r)
	comp["msg"], _ = x.fieldTerm(st, "DefaultUStackContext", "message", r)
	ub, _ := x.fieldTerm(st, "DefaultUStackContext", "ubuf", r)
	opts, ot := x.fieldTerm(st, "DefaultUStackContext", "options", r)
	v, ok := x.mapGet(st, opts, ot, I(int64(W.strID("session"))))
	comp["sess"] = v
	comp["hassess"] = ok
	x.ubufComps(st, ub, comp)
	return opts
}

var volatilePrefixes = []string{"F:DefaultUStackContext.", "F:UBuf.", "F:uBufData.", "M:uint8", "F:DefaultEndPointData."}

func isVolatile(k string) bool {
	for _, p := range volatilePrefixes {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

var genMu = 0

func (x *Exec) havocVolatile(st *State, optRefs []*Term) {
	x.serial++
	id := x.serial
	// objects whose buffers are preserved
	type pres struct {
		key string
		idx *Term
		val *Term
	}
	var ps []pres
	for _, pe := range x.unit.Preserves {
		ub, ctx := x.evalPreserve(st, pe)
		if ub == nil {
			continue
		}
		if ctx {
			x.trust("processors above do not re-address a context they are handed (SetConnection)")
			v, _ := x.fieldTerm(st, "DefaultUStackContext", "connection", ub)
			ps = append(ps, pres{"F:DefaultUStackContext." + W.fieldAlias("DefaultUStackContext", "connection"), ub, v})
			continue
		}
		x.trust("processors above leave the decoder's cache and input buffer alone")
		for _, f := range []string{"reserved", "readerIndex", "writerIndex", "data", "copyOnWrite"} {
			v, _ := x.fieldTerm(st, "UBuf", f, ub)
			ps = append(ps, pres{"F:UBuf." + W.fieldAlias("UBuf", f), ub, v})
		}
		d, _ := x.fieldTerm(st, "UBuf", "data", ub)
		for _, f := range []string{"bytes", "refCount"} {
			v, _ := x.fieldTerm(st, "uBufData", f, d)
			ps = append(ps, pres{"F:uBufData." + W.fieldAlias("uBufData", f), d, v})
		}
		by, _ := x.fieldTerm(st, "uBufData", "bytes", d)
		m := x.hget(st, "M:uint8", ArrSort(SInt, ArrSort(SInt, SInt)))
		ps = append(ps, pres{"M:uint8", SBase(by), Select(m, SBase(by))})
	}
	A2 := x.fresh("A", SInt)
	st.assume(Le(st.A, A2))
	st.A = A2
	st.gens = append(st.gens[:len(st.gens):len(st.gens)], genRec{id: id, A: A2, keep: func(k string) bool { return !isVolatile(k) }})
	for k := range st.heap {
		if isVolatile(k) {
			delete(st.heap, k)
		}
	}
	if x.writes != nil {
		for k := range x.ksort {
			if isVolatile(k) {
				x.writes[k] = true
			}
		}
		x.writes["*volatile"] = true
	}
	for _, p := range ps {
		es := p.val.Sort
		arr := x.hget(st, p.key, ArrSort(SInt, es))
		st.assume(Eq(Select(arr, p.idx), p.val))
	}
	strIface := types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
	key := mapKey(strIface)
	for _, r := range optRefs {
		d := x.hget(st, "MD:"+key, ArrSort(SInt, ArrSort(SInt, SBool)))
		v := x.hget(st, "MV:"+key, ArrSort(SInt, ArrSort(SInt, SIface)))
		l := x.hget(st, "ML:"+key, ArrSort(SInt, SInt))
		x.hset(st, "MD:"+key, Store(d, r, x.fresh("hd", ArrSort(SInt, SBool))))
		x.hset(st, "MV:"+key, Store(v, r, x.fresh("hv", ArrSort(SInt, SIface))))
		x.hset(st, "ML:"+key, Store(l, r, x.fresh("hl", SInt)))
	}
}

var pureMethods = map[string]bool{"UseReference": true, "GetName": true, "GetOverhead": true, "GetOption": true, "GetAddress": true, "RemoteAddr": true, "LocalAddr": true, "String": true, "Error": true, "Addr": true, "Network": true, "Elem": true, "Kind": true, "Name": true}

var leafMethods = map[string]bool{"Close": true, "Closed": true, "Read": true, "Write": true, "SetReference": true, "GetReference": true, "Accept": true, "NextConnection": true, "Stop": true, "SetUpper": true, "SetLower": true, "SetUStack": true, "SetName": true, "SetOption": true, "SetEnable": true, "ForServer": true, "SetAddress": true,
	"SetDeadline": true, "SetReadDeadline": true, "SetWriteDeadline": true}

func (x *Exec) boxArg(v Val, t types.Type) *Term {
	return x.box(v, t)
}

func (x *Exec) opaque(st *State, fr *Frame, iface, method string, recv Val, args []Val, sig *types.Signature, k func(*State, Val)) {
	rs := sig.Results()
	if pureMethods[method] {
		as := []*Term{recv.T}
		for i, a := range args {
			as = append(as, x.term(a, sig.Params().At(i).Type()))
		}
		var res []Val
		for i := 0; i < rs.Len(); i++ {
			r := App(fmt.Sprintf("q:%s.%d", method, i), sortOf(rs.At(i).Type()), as...)
			x.typeFacts(st, r, rs.At(i).Type(), st.A, nil)
			if strings.HasSuffix(method, "Addr") && r.Sort == SIface {
				x.trust("addresses of network connections are non-nil")
				st.assume(Not(Eq(ITyp(r), I(0))))
			}
			res = append(res, TV(r))
		}
		k(st, packRes(res))
		return
	}
	comp := map[string]*Term{"recv": recv.T}
	var optRefs []*Term
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		pt := sig.Params().At(i).Type()
		if typeStr(pt) == "Event" {
			comp["a0"] = x.box(args[i].F[0], types.Typ[types.Int])
			comp["a1"] = args[i].F[1].T
			comp["a2"] = args[i].F[2].T
			continue
		}
		if typeStr(pt) == "EndPointData" {
			x.epdComps(st, args[i].T, comp)
		}
		if typeStr(pt) == "Context" {
			optRefs = append(optRefs, x.ctxComps(st, args[i].T, comp))
		}
		cn := fmt.Sprintf("a%d", i)
		if i < 3 {
			comp[cn] = x.boxArg(args[i], pt)
		}
	}
	if method == "call" && sig.Params().Len() == 2 && typeStr(sig.Params().At(1).Type()) == "Event" {
		// (EndPoint, Event): keep the endpoint as receiver-side argument in r0 slot is not possible; use msg
		comp["msg"] = args[0].T
	}
	var res []Val
	switch method {
	case "Read", "Write":
		p := args[0].T
		m := x.hget(st, "M:uint8", ArrSort(SInt, ArrSort(SInt, SInt)))
		n := x.fresh("io.n", SInt)
		x.rng[n] = ival{big.NewInt(0), pow2(48)}
		st.assume(And(Le(I(0), n), Le(n, SLen(p))))
		x.trust("io: " + method + " of an external stream returns 0<=n<=len(p) and touches nothing but p")
		if method == "Read" {
			ra := x.fresh("io.data", ArrSort(SInt, SInt))
			x.hset(st, "M:uint8", Store(m, SBase(p), CopyArr(Select(m, SBase(p)), ra, SOff(p), I(0), SLen(p))))
			comp["bytes"], comp["start"], comp["len"] = ra, I(0), n
		} else {
			comp["bytes"], comp["start"], comp["len"] = Select(m, SBase(p)), SOff(p), SLen(p)
		}
		err := x.freshVal(st, "io.err", rs.At(1).Type())
		res = []Val{TV(n), err}
		comp["tail"] = SLen(p)
	default:
		for i := 0; i < rs.Len(); i++ {
			if strings.HasPrefix(method, "Set") && method != "SetReference" || method == "ForServer" {
				res = append(res, recv)
				continue
			}
			res = append(res, x.freshVal(st, method+".r", rs.At(i).Type()))
		}
	}
	if method == "Accept" && len(res) == 2 {
		x.trust("Accept returns a connection or an error")
		st.assume(Implies(Eq(ITyp(res[1].T), I(0)), Not(Eq(ITyp(res[0].T), I(0)))))
	}
	for i := 0; i < len(res) && i < 2; i++ {
		comp[fmt.Sprintf("r%d", i)] = x.box(res[i], rs.At(i).Type())
	}
	if method == "Close" || method == "Closed" {
		x.trust("Close/Closed of an external connection touch no state of the stack")
	}
	x.emit(st, method, comp)
	if !leafMethods[method] && !(iface == "Transport") {
		x.trust("neighbour processors, listeners and callbacks may change contexts, buffers and endpoint data but do not reconfigure the caller")
		x.havocVolatile(st, optRefs)
	}
	k(st, packRes(res))
}

func (x *Exec) opaqueFn(st *State, fr *Frame, f *ssa.Function, args []Val, k func(*State, Val)) {
	comp := map[string]*Term{}
	sig := f.Signature
	off := 0
	if sig.Recv() != nil {
		comp["recv"] = x.box(args[0], f.Params[0].Type())
		off = 1
	}
	for i := off; i < len(args) && i < off+3; i++ {
		if typeStr(f.Params[i].Type()) == "Event" {
			comp["a0"] = x.box(args[i].F[0], types.Typ[types.Int])
			comp["a1"] = args[i].F[1].T
			comp["a2"] = args[i].F[2].T
			break
		}
		comp[fmt.Sprintf("a%d", i-off)] = x.box(args[i], f.Params[i].Type())
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.freshVal(st, f.Name()+".r", sig.Results().At(i).Type()))
	}
	x.emit(st, f.Name(), comp)
	x.havocVolatile(st, nil)
	k(st, packRes(res))
}

func (x *Exec) epdComps(st *State, epd *Term, comp map[string]*Term) {
	r := IVal(epd)
	comp["conn"], _ = x.fieldTerm(st, "DefaultEndPointData", "connection", r)
	comp["msg"], _ = x.fieldTerm(st, "DefaultEndPointData", "data", r)
	h, _ := x.fieldTerm(st, "DefaultEndPointData", "hasDestinationSession", r)
	s, _ := x.fieldTerm(st, "DefaultEndPointData", "destinationSession", r)
	comp["hassess"] = h
	comp["sess"] = MkI(I(int64(W.typeID(types.Typ[types.Int]))), s)
}

func (x *Exec) publish(st *State, fr *Frame, args []Val, k func(*State, Val)) {
	x.nilCheck(st, fr, args[0], "publish")
	ut := types.NewPointer(W.lookupType("DefaultUStack"))
	self := MkI(I(int64(W.typeID(ut))), args[0].T)
	ev := args[1]
	x.emit(st, "Publish", map[string]*Term{"recv": self, "a0": x.box(ev.F[0], types.Typ[types.Int]), "a1": ev.F[1].T, "a2": ev.F[2].T})
	x.havocVolatile(st, nil)
	k(st, TV(self))
}

// ---------- channels, goroutines ----------

func (x *Exec) chanIface(ch *Term, t types.Type) *Term { return MkI(I(int64(W.typeID(t))), ch) }

func (x *Exec) recvVal(st *State, ch *Term, t types.Type) Val {
	ct := under(t).(*types.Chan)
	v := x.freshVal(st, "recv", ct.Elem())
	if typeStr(ct.Elem()) == "EndPointData" {
		x.trust("endpoint data received from an open channel is non-nil")
	}
	return v
}

func (x *Exec) recv(st *State, fr *Frame, ch Val, t types.Type, commaOk bool) Val {
	ct := under(t).(*types.Chan)
	v := x.recvVal(st, ch.T, t)
	comp := map[string]*Term{"recv": x.chanIface(ch.T, t)}
	if structOf(ct.Elem()) == nil {
		comp["r0"] = x.box(v, ct.Elem())
	}
	if !commaOk {
		if c := W.closedFor(ct.Elem()); c != nil {
			st.assume(Eq(ITyp(v.T), I(int64(W.typeID(c)))))
			st.assume(Lt(I(0), IVal(v.T)))
		}
		x.emit(st, "recv", comp)
		return v
	}
	ok := x.fresh("recv.ok", SBool)
	if c := W.closedFor(ct.Elem()); c != nil {
		st.assume(Implies(ok, And(Eq(ITyp(v.T), I(int64(W.typeID(c)))), Lt(I(0), IVal(v.T)))))
	}
	comp["r1"] = MkI(I(int64(W.typeID(types.Typ[types.Bool]))), Ite(ok, I(1), I(0)))
	x.emit(st, "recv", comp)
	vv := v
	if v.T != nil {
		vv = TV(Ite(ok, v.T, zeroTerm(ct.Elem())))
	}
	return Val{F: []Val{vv, TV(ok)}}
}

func (x *Exec) send(st *State, fr *Frame, ch Val, v Val, t types.Type) {
	comp := map[string]*Term{"recv": x.chanIface(ch.T, types.NewChan(types.SendRecv, t))}
	if structOf(t) == nil {
		comp["a0"] = x.box(v, t)
	}
	if typeStr(t) == "EndPointData" {
		x.epdComps(st, v.T, comp)
	}
	x.emit(st, "send", comp)
}

func (x *Exec) doSelect(st *State, fr *Frame, in *ssa.Select, b *ssa.BasicBlock, i int) {
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	run := func(idx int) {
		st2, fr2 := st.clone(), fr.clone()
		res := []Val{TV(I(int64(idx))), TV(False)}
		for j, s := range in.States {
			if s.Dir != types.RecvOnly {
				if j == idx {
					x.send(st2, fr2, x.val(fr2, st2, s.Chan), x.val(fr2, st2, s.Send), s.Send.Type())
				}
				continue
			}
			if j == idx {
				r := x.recv(st2, fr2, x.val(fr2, st2, s.Chan), s.Chan.Type(), false)
				ok := x.fresh("sel.ok", SBool)
				res[1] = TV(ok)
				res = append(res, r)
			} else {
				res = append(res, zeroVal(under(s.Chan.Type()).(*types.Chan).Elem()))
			}
		}
		fr2.env[in] = Val{F: res}
		x.runInstrs(fr2, b, i+1, st2)
	}
	if !in.Blocking {
		run(-1)
	}
	for j := range in.States {
		x.paths++
		run(j)
	}
}

func (x *Exec) doGo(st *State, fr *Frame, in *ssa.Go) {
	c := &in.Call
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	var f *ssa.Function
	var bind []Val
	if sc := c.StaticCallee(); sc != nil {
		f = sc
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			bind = x.val(fr, st, mc).Fn.Bind
		}
	} else if !c.IsInvoke() {
		fv := x.val(fr, st, c.Value)
		if fv.Fn == nil && fv.T != nil {
			fv.Fn = x.closures[fv.T]
		}
		if fv.Fn != nil {
			f, bind = fv.Fn.Fn, fv.Fn.Bind
		}
	}
	comp := map[string]*Term{}
	x.emit(st, "spawn", comp)
	if f == nil {
		panic(unsupported("go statement with unknown function"))
	}
	if x.mute > 0 || x.unit.NoSpawn {
		return
	}
	if x.goDepth > 3 {
		panic(unsupported("nested goroutines"))
	}
	// explore the body as its own thread
	g := st.clone()
	x.hset(g, "LK", ConstArr(ArrSort(SInt, SInt), I(0)))
	saveBase, saveIter, saveOuter, saveSpawn := x.iterBase, x.iterLoop, x.loopStack, x.spawnAt
	x.spawnAt = st.clone()
	x.goDepth++
	x.iterLoop = nil
	x.loopStack = nil
	x.havocVolatile(g, nil)
	x.havocGuarded(g)
	x.havocRacy(g, fr, in, bind)
	x.resetTrace(g)
	x.assumeSegInv(g)
	x.iterBase = g.clone()
	gfr := &Frame{fn: fr.fn, id: fr.id + "/go", parent: nil, env: map[ssa.Value]Val{}}
	saved := x.writes
	x.writes = nil
	x.static(g, gfr, f, args, bind, func(s *State, _ Val) {
		x.iterEnd(s, "goroutine end")
		x.lockRestored(s, "goroutine end")
	})
	x.writes = saved
	x.goDepth--
	x.iterBase, x.iterLoop, x.loopStack, x.spawnAt = saveBase, saveIter, saveOuter, saveSpawn
}

// havocRacy forgets captured variables that the spawner may still assign after the go statement.
func (x *Exec) havocRacy(g *State, fr *Frame, in *ssa.Go, bind []Val) {
	mc, ok := in.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	for i, b := range mc.Bindings {
		al, ok := b.(*ssa.Alloc)
		if !ok || !storeAfter(in, al) {
			continue
		}
		t := elemType(al.Type())
		if structOf(t) != nil {
			continue
		}
		v := x.freshVal(g, "racy", t)
		x.store(g, bind[i], v, t)
	}
}

func storeAfter(in *ssa.Go, al *ssa.Alloc) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == ssa.Instruction(al) {
				return false
			}
			if s, ok := b.Instrs[i].(*ssa.Store); ok && s.Addr == ssa.Value(al) {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := in.Block()
	for i, x := range b.Instrs {
		if x == ssa.Instruction(in) {
			return walk(b, i+1)
		}
	}
	return false
}

// ---------- locks and guards ----------

func (x *Exec) lockState(st *State, mu *Term) *Term {
	return Select(x.hget(st, "LK", ArrSort(SInt, SInt)), mu)
}

func (x *Exec) setLock(st *State, mu *Term, v int64) {
	x.touched[mu] = true
	a := x.hget(st, "LK", ArrSort(SInt, SInt))
	x.hset(st, "LK", Store(a, mu, I(v)))
}

func lockName(mu *Term) string {
	if mu.Op == "app" {
		return strings.TrimPrefix(mu.Name, "sub:")
	}
	if mu.isLit() {
		W.mu.Lock()
		defer W.mu.Unlock()
		for g, id := range W.globalIDs {
			if int64(id) == mu.Lit.Int64() {
				return g.Name()
			}
		}
	}
	return "mutex"
}

func (x *Exec) lockRestored(st *State, where string) {
	var ms []*Term
	for m := range x.touched {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
	for _, m := range ms {
		x.oblige(st, "lock", "lock "+lockName(m)+" released at "+where, Eq(x.lockState(st, m), I(0)), []string{"C18"}, where)
	}
}

func (x *Exec) guardFor(a *Addr) (guardInfo, bool) {
	g, ok := specs.Guards[a.key]
	if !ok || a.idx2 != nil {
		return guardInfo{}, false
	}
	if x.freshObj[a.idx] {
		return guardInfo{}, false
	}
	if g.global != "" {
		lg, ok := W.pkg.Members[g.global].(*ssa.Global)
		if !ok {
			return guardInfo{}, false
		}
		return guardInfo{lock: I(int64(W.globalRef(lg))), name: strings.TrimPrefix(a.key, "F:")}, true
	}
	return guardInfo{lock: App("sub:"+g.lock, SInt, a.idx), name: strings.TrimPrefix(a.key, "F:")}, true
}

func (x *Exec) checkGuard(st *State, a *Addr) {
	if g, ok := x.guardFor(a); ok {
		x.checkLock(st, g, "access")
	}
}

func (x *Exec) checkLockW(st *State, g guardInfo, what string) {
	x.oblige(st, "guard", what+" to "+g.name+" only under "+lockName(g.lock), Eq(x.lockState(st, g.lock), I(1)), []string{"C18"}, "")
}

func (x *Exec) checkLock(st *State, g guardInfo, what string) {
	x.oblige(st, "guard", what+" to "+g.name+" only under "+lockName(g.lock), Not(Eq(x.lockState(st, g.lock), I(0))), []string{"C18"}, "")
}

// havocGuarded: another thread may have changed lock-protected state before this point
func (x *Exec) havocGuarded(st *State) {
	x.serial++
	id := x.serial
	keys := map[string]bool{}
	add := func(k string) {
		if t, f, ok := strings.Cut(k, "."); ok {
			k = t + "." + W.fieldAlias(t, f)
		}
		keys["F:"+k] = true
	}
	for k := range specs.Guards {
		add(strings.TrimPrefix(k, "F:"))
	}
	for k := range specs.Shared {
		add(k)
	}
	if len(x.unit.SegInv) > 0 {
		keys["CH:closed"] = true
	}
	st.gens = append(st.gens[:len(st.gens):len(st.gens)], genRec{id: id, A: st.A, keep: func(k string) bool { return !keys[k] }})
	for k := range keys {
		delete(st.heap, k)
	}
}
