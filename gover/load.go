package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog  *ssa.Program
	pkg   *ssa.Package
	built bool
	mu    sync.Mutex

	typeIDs   map[string]int
	typeByID  map[int]types.Type
	globalIDs map[*ssa.Global]int
	strIDs    map[string]int
	strByID   map[int]string
	fnIDs     map[*ssa.Function]int
	closed    map[string]types.Type // closed-world interface -> concrete type
	aliases   map[string]map[string]string
}

var W *World

func LoadWorld(dir string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(ps))
	}
	if len(ps[0].Errors) > 0 {
		return nil, fmt.Errorf("package errors: %v", ps[0].Errors)
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	pkgs[0].Build()
	w := &World{prog: prog, pkg: pkgs[0],
		typeIDs: map[string]int{}, typeByID: map[int]types.Type{}, globalIDs: map[*ssa.Global]int{},
		strIDs: map[string]int{"": 0}, strByID: map[int]string{0: ""}, fnIDs: map[*ssa.Function]int{}, closed: map[string]types.Type{}}
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case "io", "encoding/binary", "errors":
			p.Build()
		}
	}
	return w, nil
}

func (w *World) ensureBuilt(f *ssa.Function) {
	if f.Blocks != nil {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if f.Pkg != nil {
		f.Pkg.Build()
	}
	if f.Blocks == nil && !w.built {
		w.prog.Build()
		w.built = true
	}
}

func (w *World) lookupType(name string) types.Type {
	o := w.pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

func qual(p *types.Package) string {
	if W != nil && p == W.pkg.Pkg {
		return ""
	}
	return p.Path()
}

func typeStr(t types.Type) string { return types.TypeString(t, qual) }

// predeclared aliases print under their own name inside composite types
var canonRe = regexp.MustCompile(`\b(byte|rune|any)\b`)

func (w *World) typeID(t types.Type) int {
	t = types.Unalias(t)
	s := canonRe.ReplaceAllStringFunc(typeStr(t), func(m string) string {
		return map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"}[m]
	})
	w.mu.Lock()
	defer w.mu.Unlock()
	if id, ok := w.typeIDs[s]; ok {
		return id
	}
	id := len(w.typeIDs) + 1
	w.typeIDs[s] = id
	w.typeByID[id] = t
	return id
}

func (w *World) typeOf(id int) types.Type {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.typeByID[id]
}

// global addresses: literal refs -1000000-id (never clash with allocated refs)
func (w *World) globalRef(g *ssa.Global) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if id, ok := w.globalIDs[g]; ok {
		return id
	}
	id := -1000 - len(w.globalIDs)
	w.globalIDs[g] = id
	return id
}

func (w *World) strID(s string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if id, ok := w.strIDs[s]; ok {
		return id
	}
	id := -len(w.strIDs)
	w.strIDs[s] = id
	w.strByID[id] = s
	return id
}

func (w *World) fnID(f *ssa.Function) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if id, ok := w.fnIDs[f]; ok {
		return id
	}
	id := -500000 - len(w.fnIDs)
	w.fnIDs[f] = id
	return id
}

func (w *World) fnByRef(id int) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	for f, i := range w.fnIDs {
		if i == id {
			return f
		}
	}
	return nil
}

// implAxioms folds "impl:Iface"(typeid) for all registered types
func implAxioms(n string, t *Term) []*Term {
	name := strings.TrimPrefix(n, "impl:")
	it := W.implIface(name)
	if it == nil {
		return nil
	}
	W.mu.Lock()
	ids := map[int]types.Type{}
	for i, ty := range W.typeByID {
		ids[i] = ty
	}
	W.mu.Unlock()
	out := []*Term{Implies(Eq(t.Args[0], I(0)), Not(t))}
	for i := 1; i <= len(ids); i++ {
		ty := ids[i]
		if types.IsInterface(ty) {
			continue
		}
		if types.Implements(ty, it) {
			out = append(out, Implies(Eq(t.Args[0], I(int64(i))), t))
		} else {
			out = append(out, Implies(Eq(t.Args[0], I(int64(i))), Not(t)))
		}
	}
	return out
}

var implIfaces = map[string]*types.Interface{}
var implMu sync.Mutex

func (w *World) implIface(n string) *types.Interface {
	implMu.Lock()
	defer implMu.Unlock()
	return implIfaces[n]
}

func (w *World) regIface(t types.Type) string {
	n := typeStr(t)
	implMu.Lock()
	defer implMu.Unlock()
	implIfaces[n] = t.Underlying().(*types.Interface)
	return n
}

// funcByName finds "(*T).M", "T.M" or "F" in the package under check.
func (w *World) funcByName(name string) *ssa.Function {
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ").")
		recv := name[1:i]
		m := name[i+2:]
		ptr := strings.HasPrefix(recv, "*")
		t := w.lookupType(strings.TrimPrefix(recv, "*"))
		if t == nil {
			return nil
		}
		var rt types.Type = t
		if ptr {
			rt = types.NewPointer(t)
		}
		ms := w.prog.MethodSets.MethodSet(rt)
		sel := ms.Lookup(w.pkg.Pkg, m)
		if sel == nil {
			return nil
		}
		return w.prog.MethodValue(sel)
	}
	return w.pkg.Func(name)
}

func (w *World) litStr(t *Term) (string, bool) {
	if !t.isLit() {
		return "", false
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	s, ok := w.strByID[int(t.Lit.Int64())]
	return s, ok
}
