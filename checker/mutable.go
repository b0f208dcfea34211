package main

import (
	"go/ast"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Memory that outlives an operation and is changed by operations: the
// analysis of one operation may not assume what the constructor (or the
// package initialiser) left there.

type fieldKey struct {
	owner *types.TypeName
	name  string
}

// findMutable records the fields and package variables whose content
// functions other than constructors change.
func (p *Prog) findMutable() {
	p.mutField, p.setField = map[fieldKey]bool{}, map[fieldKey]bool{}
	p.mutGlobal = map[*ssa.Global]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
				for i, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, ok := ins.(ssa.CallInstruction); ok && i == 0 && c.Common().Value == g {
							continue
						}
						escapes[g] = true
					}
				}
			}
		}
	}
	memo := map[*ssa.Function]int{} // 1 construction only, 2 not
	var ctorOnly func(f *ssa.Function) bool
	ctorOnly = func(f *ssa.Function) bool {
		if memo[f] != 0 {
			return memo[f] == 1
		}
		memo[f] = 2
		ok := false
		switch {
		case f.Parent() != nil:
			ok = false
		case f.Name() == "init":
			ok = true
		case f.Signature.Recv() == nil && ast.IsExported(f.Name()):
			ok = true
		case ast.IsExported(f.Name()) || escapes[f] || len(callers[f]) == 0:
			ok = false
		default:
			ok = true
			for _, g := range callers[f] {
				ok = ok && ctorOnly(g)
			}
		}
		if ok {
			memo[f] = 1
		}
		return ok
	}
	for _, f := range p.funcs {
		if ctorOnly(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					p.mutated(f, x.Addr)
				case *ssa.MapUpdate:
					p.mutated(f, x.Map)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
						p.mutated(f, x.Call.Args[0])
					}
				}
			}
		}
	}
}

// mutated follows a written address to the fields and variables holding it.
func (p *Prog) mutated(f *ssa.Function, a ssa.Value) {
	var fields []fieldKey
	_, direct := a.(*ssa.FieldAddr)
	for a != nil {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			if n, ok := types.Unalias(deref(x.X.Type())).(*types.Named); ok {
				fields = append(fields, fieldKey{n.Obj(), n.Underlying().(*types.Struct).Field(x.Field).Name()})
			}
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.UnOp:
			a = x.X
		case *ssa.ChangeType:
			a = x.X
		case *ssa.Global:
			p.mutGlobal[x] = true
			a = nil
		case *ssa.Alloc:
			// a local object, or the variable holding one
			return
		case *ssa.Parameter:
			if f.Parent() != nil {
				return // an option applied to what is being built
			}
			a = nil
		default:
			a = nil
		}
	}
	for i, k := range fields {
		p.mutField[k] = true
		if i == 0 && direct {
			p.setField[k] = true
		}
	}
}

// forgetMutable makes unknown what operations may have changed since the
// construction of an object.
func (e *Engine) forgetMutable(st *State, recv *Term) {
	seen := map[*Term]bool{}
	var visit func(x *Term)
	visit = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.Op != "alloc" {
			for _, a := range x.Args {
				visit(a)
			}
			return
		}
		t := types.Unalias(x.T)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = types.Unalias(pt.Elem())
		}
		n, ok := t.(*types.Named)
		if !ok {
			return
		}
		u, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			fv := u.Field(i)
			fa := mkFA(x, fv, n)
			if e.p.mutField[fieldKey{n.Obj(), fv.Name()}] {
				if _, ok := fv.Type().Underlying().(*types.Struct); !ok {
					old := st.mem[fa]
					v := mkT(fv.Type(), "param", "changed "+n.Obj().Name()+"."+fv.Name()+"\x00"+paramScope)
					if _, ok := fv.Type().Underlying().(*types.Map); ok && old != nil && old.Op == "mkmap" && !e.p.setField[fieldKey{n.Obj(), fv.Name()}] {
						st.facts.assume(mkEq(v, tNil), false)
					}
					st.mem[fa] = v
					continue
				}
			}
			if v, ok := st.mem[fa]; ok {
				visit(v)
			}
		}
	}
	visit(recv)
}
