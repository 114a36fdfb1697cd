package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// autoLockUnits yields a lock-discipline unit for every exported function or
// method from which an access to lock-protected state can be reached inside
// the package, so that new accesses in any function are covered.
func autoLockUnits(prop string) []*FuncSpec {
	touches := map[*ssa.Function]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	var all []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != W.pkg && (f.Parent() == nil || f.Parent().Pkg != W.pkg) {
			return
		}
		seen[f] = true
		all = append(all, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.FieldAddr:
					if _, fresh := v.X.(*ssa.Alloc); fresh {
						continue // an object under construction
					}
					t := elemType(v.X.Type())
					if n, ok := t.(*types.Named); ok {
						s := under(t).(*types.Struct)
						if _, ok := specs.Guards["F:"+n.Obj().Name()+"."+s.Field(v.Field).Name()]; ok {
							touches[f] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch g := (*op).(type) {
					case *ssa.Global:
						if specs.GlobalGuards[g.Name()] != "" {
							touches[f] = true
						}
					case *ssa.Function:
						calls[f] = append(calls[f], g)
						add(g)
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	for _, m := range W.pkg.Members {
		switch v := m.(type) {
		case *ssa.Function:
			add(v)
			if v.Object() != nil && v.Object().Exported() {
				roots = append(roots, v)
			}
		case *ssa.Type:
			n, ok := v.Type().(*types.Named)
			if !ok || !n.Obj().Exported() {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				f := W.prog.FuncValue(n.Method(i))
				add(f)
				if f != nil && n.Method(i).Exported() {
					roots = append(roots, f)
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range all {
			if touches[f] {
				continue
			}
			for _, g := range append(calls[f], f.AnonFuncs...) {
				if touches[g] {
					touches[f] = true
					ch = true
				}
			}
		}
	}
	covered := map[string]bool{}
	for _, s := range specs.Order {
		if hasProp(s.Props, prop) {
			covered[s.Fn] = true
		}
	}
	var out []*FuncSpec
	for _, f := range roots {
		if !touches[f] {
			continue
		}
		name := f.Name()
		if r := f.Signature.Recv(); r != nil {
			name = types.TypeString(r.Type(), func(*types.Package) string { return "" })
			name = "(" + strings.TrimPrefix(name, ".") + ")." + f.Name()
		}
		if covered[name] {
			continue
		}
		s := &FuncSpec{Name: name + "@locks", Fn: name, Props: []string{prop}, LockOnly: true, Merge: true, File: "generated"}
		for i := range f.Params {
			s.Params = append(s.Params, fmt.Sprint("p", i))
		}
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}
