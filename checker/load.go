package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "zntr.io/solid"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	asts  map[string]*packages.Package
	fset  *token.FileSet
	funcs []*ssa.Function // all module functions with a body
	// stores to globals, for single-assignment globals
	gstores map[*ssa.Global][]*ssa.Store
	gaddr   map[*ssa.Global]bool // address taken other than load/store
	root    string

	mutField  map[fieldKey]bool // changed by operations
	setField  map[fieldKey]bool // the field itself, not only what it holds
	mutGlobal map[*ssa.Global]bool
}

func repoDir() string {
	if d := os.Getenv("SOLID_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProg() (*Prog, error) {
	dir := repoDir()
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOWORK", "off")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("CGO_ENABLED", "0")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: os.Environ()}
	pats := []string{}
	for _, d := range []string{"server", "sdk", "client", "oidc", "api"} {
		if _, err := os.Stat(filepath.Join(dir, d)); err == nil {
			pats = append(pats, modPath+"/"+d+"/...")
		}
	}
	// do not let the go command rewrite go.mod or go.sum of the tree
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Prog{pkgs: map[string]*ssa.Package{}, asts: map[string]*packages.Package{}, gstores: map[*ssa.Global][]*ssa.Store{}, gaddr: map[*ssa.Global]bool{}, root: dir}
	var use []*packages.Package
	for _, x := range pk {
		if strings.HasSuffix(x.PkgPath, "/mock") || x.PkgPath == modPath+"/sdk/token/paseto" {
			continue
		}
		bad := false
		for _, e := range x.Errors {
			if e.Kind == packages.TypeError || e.Kind == packages.ParseError {
				bad = true
				fmt.Fprintln(os.Stderr, "load:", x.PkgPath, e)
			}
		}
		if bad {
			return nil, fmt.Errorf("package %s does not type-check", x.PkgPath)
		}
		use = append(use, x)
	}
	prog, sp := ssautil.Packages(use, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	p.fset = prog.Fset
	for i, s := range sp {
		if s != nil {
			p.pkgs[s.Pkg.Path()] = s
			p.asts[s.Pkg.Path()] = use[i]
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && p.inModule(f) {
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.Store:
						if x.Addr == g {
							p.gstores[g] = append(p.gstores[g], x)
							if x.Val == g {
								p.gaddr[g] = true
							}
							continue
						}
						p.gaddr[g] = true
					case *ssa.UnOp:
						if x.Op != token.MUL {
							p.gaddr[g] = true
						}
					default:
						p.gaddr[g] = true
					}
				}
			}
		}
	}
	p.findMutable()
	return p, nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil && f.Parent() != nil {
		return p.inModule(f.Parent())
	}
	if pk == nil {
		if r := f.Signature.Recv(); r != nil {
			// wrapper or promoted method
			return strings.Contains(r.Type().String(), modPath+"/")
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			// bound methods and method expressions
			return strings.HasPrefix(o.Pkg().Path(), modPath+"/")
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath+"/")
}

func (p *Prog) pkg(path string) *ssa.Package { return p.pkgs[modPath+"/"+path] }

// scope returns the package-level declarations of a package.
func (p *Prog) scope(path string) *types.Scope {
	pk := p.pkg(path)
	if pk == nil {
		bail("package %s not loaded", path)
	}
	return pk.Pkg.Scope()
}

// fn finds a package-level function.
func (p *Prog) fn(path, name string) *ssa.Function {
	pk := p.pkg(path)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Prog) pos(pos token.Pos) string {
	q := p.fset.Position(pos)
	if !q.IsValid() {
		return "-"
	}
	r, err := filepath.Rel(p.root, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// method finds the implementation of a method on a concrete type.
func (p *Prog) method(t types.Type, name string, pk *types.Package) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pk, name)
	if sel == nil && pk == nil {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
	}
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}
