package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value. Scalars, references, slices and interfaces are a
// single term; structs and tuples are field lists; Addr is the address of a
// scalar location that is not an object reference.
type Val struct {
	T    *Term
	F    []Val
	Addr *Addr
	Fn   *Closure
}

type Addr struct {
	key  string
	idx  *Term
	idx2 *Term
	typ  types.Type // type of the stored value
	own  *Term      // owning object
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
	Ref  *Term
}

func TV(t *Term) Val { return Val{T: t} }

type genRec struct {
	id   int
	A    *Term
	keep func(key string) bool
}

type State struct {
	pc    []*Term
	pcset map[*Term]bool
	heap  map[string]*Term
	gens  []genRec
	A     *Term
	racy  map[*Term]bool
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], pcset: map[*Term]bool{}, heap: map[string]*Term{}, gens: s.gens[:len(s.gens):len(s.gens)], A: s.A}
	for k := range s.pcset {
		n.pcset[k] = true
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True || s.pcset[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.pcset[t] = true
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], t)
}

func (s *State) infeasible() bool { return s.pcset[False] }

// get returns the current term of a heap key.
func (s *State) get(key string, sort Sort) *Term {
	if t, ok := s.heap[key]; ok {
		if t.Sort != sort {
			panic(fmt.Sprintf("heap key %s: sort %s vs %s", key, t.Sort, sort))
		}
		return t
	}
	for i := len(s.gens) - 1; i >= 0; i-- {
		g := s.gens[i]
		if g.keep != nil && g.keep(key) && i > 0 {
			continue
		}
		return Sym(fmt.Sprintf("%s@%d", key, g.id), sort)
	}
	panic("no generation")
}

func (s *State) genA(arr *Term) *Term {
	if arr.Op != "sym" {
		return nil
	}
	i := strings.LastIndex(arr.Name, "@")
	if i < 0 {
		return nil
	}
	for _, g := range s.gens {
		if fmt.Sprint(g.id) == arr.Name[i+1:] {
			return g.A
		}
	}
	return nil
}

func (s *State) set(key string, t *Term) { s.heap[key] = t }

// ---------- types ----------

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isOpaqueStruct(t types.Type) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil || p == W.pkg.Pkg {
		return false
	}
	switch p.Path() {
	case "io", "encoding/binary", "errors", "sync", "bytes", "strings", "sync/atomic":
		return false
	}
	return true
}

func isSyncStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func structOf(t types.Type) *types.Struct {
	if isOpaqueStruct(t) || isSyncStruct(t) {
		return nil
	}
	s, _ := under(t).(*types.Struct)
	return s
}

func sortOf(t types.Type) Sort {
	if isOpaqueStruct(t) || isSyncStruct(t) {
		return SInt
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsFloat != 0:
			return SReal
		default:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Array:
		return ArrSort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		return Sort("")
	case *types.TypeParam:
		return SIface
	}
	panic(unsupported("sort of type " + t.String()))
}

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

// memKey: aliasing class of element / cell types
func memKey(t types.Type) string {
	if isOpaqueStruct(t) {
		return "op." + typeStr(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.UntypedNil, types.UnsafePointer:
			return "ptr"
		}
		return types.Typ[u.Kind()].Name()
	case *types.Pointer:
		return "ptr." + typeStr(u.Elem())
	case *types.Map:
		return "map"
	case *types.Chan:
		return "chan"
	case *types.Signature:
		return "func"
	case *types.Slice:
		return "slice." + memKey(u.Elem())
	case *types.Interface:
		return "iface"
	case *types.Array:
		return "arr." + memKey(u.Elem())
	case *types.Struct:
		return "struct." + typeStr(t)
	}
	return typeStr(t)
}

func mapKey(t types.Type) string {
	m := under(t).(*types.Map)
	return memKey(m.Key()) + ">" + memKey(m.Elem())
}

func intBounds(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1)), true
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1)), true
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func zeroTerm(t types.Type) *Term {
	switch s := sortOf(t); s {
	case SInt:
		return I(0)
	case SBool:
		return False
	case SReal:
		return RLit(big.NewInt(0))
	case SIface:
		return NilI
	case SSlice:
		return NilS
	default:
		if a, ok := under(t).(*types.Array); ok {
			return ConstArr(s, zeroTerm(a.Elem()))
		}
	}
	panic(unsupported("zero of " + t.String()))
}

func zeroVal(t types.Type) Val {
	if tu, ok := t.(*types.Tuple); ok {
		var v Val
		for i := 0; i < tu.Len(); i++ {
			v.F = append(v.F, zeroVal(tu.At(i).Type()))
		}
		return v
	}
	if st := structOf(t); st != nil {
		v := Val{F: []Val{}}
		for i := 0; i < st.NumFields(); i++ {
			v.F = append(v.F, zeroVal(st.Field(i).Type()))
		}
		return v
	}
	return TV(zeroTerm(t))
}

func structName(t types.Type) string { return typeStr(t) }

func fieldKey(st types.Type, i int) string {
	s := under(st).(*types.Struct)
	return "F:" + structName(st) + "." + s.Field(i).Name()
}

func subRef(st types.Type, i int, r *Term) *Term {
	s := under(st).(*types.Struct)
	return App("sub:"+structName(st)+"."+s.Field(i).Name(), SInt, r)
}

// interval analysis on terms
type ival struct{ lo, hi *big.Int }

func (x *Exec) interval(t *Term, depth int) ival {
	if depth > 12 {
		return ival{}
	}
	if t.isLit() {
		return ival{t.Lit, t.Lit}
	}
	r, have := x.rng[t]
	switch t.Op {
	case "+":
		lo, hi := big.NewInt(0), big.NewInt(0)
		for _, a := range t.Args {
			v := x.interval(a, depth+1)
			if lo != nil && v.lo != nil {
				lo = new(big.Int).Add(lo, v.lo)
			} else {
				lo = nil
			}
			if hi != nil && v.hi != nil {
				hi = new(big.Int).Add(hi, v.hi)
			} else {
				hi = nil
			}
		}
		return meet(ival{lo, hi}, r, have)
	case "*":
		v := x.interval(t.Args[1], depth+1)
		c := t.Args[0].Lit
		f := func(b *big.Int) *big.Int {
			if b == nil {
				return nil
			}
			return new(big.Int).Mul(b, c)
		}
		if c.Sign() >= 0 {
			return meet(ival{f(v.lo), f(v.hi)}, r, have)
		}
		return meet(ival{f(v.hi), f(v.lo)}, r, have)
	case "mod":
		return ival{big.NewInt(0), new(big.Int).Sub(t.Args[1].Lit, big.NewInt(1))}
	case "div":
		v := x.interval(t.Args[0], depth+1)
		f := func(b *big.Int) *big.Int {
			if b == nil {
				return nil
			}
			q, m := new(big.Int), new(big.Int)
			q.DivMod(b, t.Args[1].Lit, m)
			return q
		}
		return meet(ival{f(v.lo), f(v.hi)}, r, have)
	case "ite":
		a := x.interval(t.Args[1], depth+1)
		b := x.interval(t.Args[2], depth+1)
		var o ival
		if a.lo != nil && b.lo != nil {
			o.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				o.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			o.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				o.hi = b.hi
			}
		}
		return meet(o, r, have)
	case "slen", "scap", "soff":
		return ival{big.NewInt(0), pow2(48)}
	case "app":
		if t.Name == "strlen" {
			return ival{big.NewInt(0), pow2(48)}
		}
	}
	if have {
		return r
	}
	return ival{}
}

func meet(a, b ival, have bool) ival {
	if !have {
		return a
	}
	if a.lo == nil || (b.lo != nil && b.lo.Cmp(a.lo) > 0) {
		a.lo = b.lo
	}
	if a.hi == nil || (b.hi != nil && b.hi.Cmp(a.hi) < 0) {
		a.hi = b.hi
	}
	return a
}

func (iv ival) within(lo, hi *big.Int) bool {
	return iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0
}
