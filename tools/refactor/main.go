// Command refactor rewrites a copy of the repository with one kind of edit that
// keeps the behaviour, at every place where the kind applies (or only in one
// function). It is used while developing the checks (tools/refactors.py).
//
// usage: refactor KIND DIR [FILE-SUBSTRING [FUNC]]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type ctx struct {
	pk    *packages.Package
	info  *types.Info
	file  *ast.File
	fd    *ast.FuncDecl
	n     int
	extra []ast.Decl
	count int
}

var serial int

func (c *ctx) name(p string) string { serial++; return fmt.Sprintf("%s%d", p, serial) }

func id(s string) *ast.Ident { return &ast.Ident{Name: s} }

func terminates(list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	switch s := list[len(list)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	case *ast.ExprStmt:
		if call, ok := s.X.(*ast.CallExpr); ok {
			if i, ok := call.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	case *ast.IfStmt:
		if b, ok := s.Else.(*ast.BlockStmt); ok {
			return terminates(s.Body.List) && terminates(b.List)
		}
	}
	return false
}

func returns(list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	switch s := list[len(list)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.IfStmt:
		if b, ok := s.Else.(*ast.BlockStmt); ok {
			return returns(s.Body.List) && returns(b.List)
		}
	}
	return false
}

func hasBranch(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			_ = s
			r = true
		}
		return true
	})
	return r
}

func hasReturn(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			r = true
		}
		return true
	})
	return r
}

func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// lists applies f to every statement list of the function.
func (c *ctx) lists(f func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(c.fd.Body, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			b.List = f(b.List)
		case *ast.CaseClause:
			b.Body = f(b.Body)
		}
		return true
	})
}

func (c *ctx) typeExpr(t types.Type) (ast.Expr, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == c.pk.Types {
			return ""
		}
		for _, im := range c.file.Imports {
			if strings.Trim(im.Path.Value, "\"") == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if strings.Contains(s, "untyped") || strings.Contains(s, "invalid") {
		ok = false
	}
	return id(s), ok
}

// free returns the variables of the function used in the nodes but declared outside them.
func (c *ctx) free(assigned bool, nodes ...ast.Node) (vars []*types.Var, ok bool) {
	ok = true
	seen := map[*types.Var]bool{}
	decl := map[types.Object]bool{}
	for _, n := range nodes {
		ast.Inspect(n, func(x ast.Node) bool {
			if i, is := x.(*ast.Ident); is {
				if o := c.info.Defs[i]; o != nil {
					decl[o] = true
				}
			}
			return true
		})
	}
	for _, n := range nodes {
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.Ident:
				v, is := c.info.Uses[y].(*types.Var)
				if y.Obj == nil && !is {
					if _, d := c.info.Defs[y]; !d && c.info.Uses[y] == nil {
						ok = false // synthetic
					}
				}
				if is && !v.IsField() && v.Parent() != c.pk.Types.Scope() && v.Pkg() == c.pk.Types && !decl[v] && !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if i, is := l.(*ast.Ident); is && assigned {
						if v, is := c.info.Uses[i].(*types.Var); is && !decl[v] {
							ok = false
						}
					}
				}
			case *ast.UnaryExpr:
				if y.Op == token.AND && assigned {
					if i, is := y.X.(*ast.Ident); is {
						if v, is := c.info.Uses[i].(*types.Var); is && !decl[v] {
							ok = false
						}
					}
				}
			}
			return true
		})
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].Pos() < vars[j].Pos() })
	return
}

func (c *ctx) params(vars []*types.Var) (*ast.FieldList, []ast.Expr, bool) {
	fl := &ast.FieldList{}
	var args []ast.Expr
	for _, v := range vars {
		te, ok := c.typeExpr(v.Type())
		if !ok {
			return nil, nil, false
		}
		switch v.Type().Underlying().(type) {
		case *types.Array:
			return nil, nil, false // may be sliced: a copy is not the same
		case *types.Struct:
			if n, ok := v.Type().(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), "zntr.io/solid/") {
				return nil, nil, false // big.Int, sync.Mutex, strings.Builder
			}
		}
		fl.List = append(fl.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: te})
		args = append(args, id(v.Name()))
	}
	return fl, args, true
}

func (c *ctx) generic() bool {
	if c.fd.Type.TypeParams != nil {
		return true
	}
	if c.fd.Recv != nil {
		t := c.fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		switch t.(type) {
		case *ast.IndexExpr, *ast.IndexListExpr:
			return true
		}
	}
	return false
}

func namedResults(ft *ast.FuncType) bool {
	return ft.Results != nil && len(ft.Results.List) > 0 && len(ft.Results.List[0].Names) > 0
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW || x.Op == token.AND {
				ok = false
			}
		}
		return ok
	})
	return ok
}

var kinds = map[string]func(c *ctx){
	"flipcmp": func(c *ctx) {
		ast.Inspect(c.fd.Body, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
				if op, ok := m[b.Op]; ok && (pure(b.X) || pure(b.Y)) {
					b.X, b.Y, b.Op = b.Y, b.X, op
					c.count++
				}
			}
			return true
		})
	},
	"negcmp": func(c *ctx) { // a != b -> !(a == b); a < b -> !(a >= b)
		astutil.Apply(c.fd.Body, nil, func(cu *astutil.Cursor) bool {
			if b, ok := cu.Node().(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}
				if op, ok := m[b.Op]; ok {
					if bt, ok := c.info.TypeOf(b.X).Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
						return true
					}
					cu.Replace(not(&ast.BinaryExpr{X: b.X, Op: op, Y: b.Y}))
					c.count++
				}
			}
			return true
		})
	},
	"condvar": func(c *ctx) {
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
					n := c.name("cond")
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{i.Cond}})
					i.Cond = id(n)
					c.count++
				}
				out = append(out, s)
			}
			return
		})
	},
	"ifinit": func(c *ctx) {
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init != nil {
					in := i.Init
					i.Init = nil
					out = append(out, &ast.BlockStmt{List: []ast.Stmt{in, i}})
					c.count++
					continue
				}
				out = append(out, s)
			}
			return
		})
	},
	"invert": func(c *ctx) {
		ast.Inspect(c.fd.Body, func(n ast.Node) bool {
			if i, ok := n.(*ast.IfStmt); ok {
				if b, ok := i.Else.(*ast.BlockStmt); ok {
					i.Cond, i.Body, i.Else = not(i.Cond), b, i.Body
					c.count++
				}
			}
			return true
		})
	},
	"elsenest": func(c *ctx) { // if c {T}; rest -> if c {T} else {rest}
		var do func(l []ast.Stmt) []ast.Stmt
		do = func(l []ast.Stmt) []ast.Stmt {
			if !returns(l) {
				return l
			}
			for k, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Else == nil && returns(i.Body.List) && k+1 < len(l) {
					c.count++
					i.Else = &ast.BlockStmt{List: do(l[k+1:])}
					return l[:k+1]
				}
			}
			return l
		}
		c.lists(do)
	},
	"nestinvert": func(c *ctx) { // if c {T}; rest -> if !c {rest}; T
		var do func(l []ast.Stmt) []ast.Stmt
		do = func(l []ast.Stmt) []ast.Stmt {
			if !returns(l) {
				return l
			}
			for k, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Else == nil && i.Init == nil && returns(i.Body.List) && k+1 < len(l) {
					c.count++
					t := i.Body.List
					i.Cond = not(i.Cond)
					i.Body = &ast.BlockStmt{List: do(l[k+1:])}
					return append(l[:k+1:k+1], t...)
				}
			}
			return l
		}
		if len(c.fd.Body.List) > 0 {
			c.fd.Body.List = do(c.fd.Body.List)
		}
	},
	"switchif": func(c *ctx) {
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				sw, ok := s.(*ast.SwitchStmt)
				if !ok || sw.Init != nil || hasBranch(sw.Body) {
					out = append(out, s)
					continue
				}
				var pre []ast.Stmt
				var tag ast.Expr
				if sw.Tag != nil {
					n := c.name("tag")
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{sw.Tag}})
					tag = id(n)
				}
				var first, last *ast.IfStmt
				var def *ast.BlockStmt
				for _, cc := range sw.Body.List {
					cl := cc.(*ast.CaseClause)
					if cl.List == nil {
						def = &ast.BlockStmt{List: cl.Body}
						continue
					}
					var cond ast.Expr
					for _, e := range cl.List {
						var one ast.Expr = e
						if tag != nil {
							one = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
						}
						if cond == nil {
							cond = one
						} else {
							cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: one}
						}
					}
					i := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cl.Body}}
					if first == nil {
						first = i
					} else {
						last.Else = i
					}
					last = i
				}
				if first == nil {
					out = append(out, s)
					continue
				}
				c.count++
				if def != nil {
					last.Else = def
				}
				out = append(out, append(pre, first)...)
			}
			return
		})
	},
	"errswitch": func(c *ctx) { // if c {T} -> switch { case c: T }
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Else == nil && !hasBranch(i.Body) {
					c.count++
					s = &ast.SwitchStmt{Init: i.Init, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.CaseClause{List: []ast.Expr{i.Cond}, Body: i.Body.List}}}}
				}
				out = append(out, s)
			}
			return
		})
	},
	"rangeidx": func(c *ctx) {
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				r, ok := s.(*ast.RangeStmt)
				if !ok || r.Tok == token.ASSIGN {
					out = append(out, s)
					continue
				}
				if _, ok := c.info.TypeOf(r.X).Underlying().(*types.Slice); !ok {
					out = append(out, s)
					continue
				}
				c.count++
				seq, ix := c.name("seq"), c.name("ix")
				var pre []ast.Stmt
				if k, ok := r.Key.(*ast.Ident); ok && k.Name != "_" {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: token.DEFINE, Rhs: []ast.Expr{id(ix)}})
				}
				if v, ok := r.Value.(*ast.Ident); ok && v.Name != "_" {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(seq), Index: id(ix)}}})
				}
				r.Body.List = append(pre, r.Body.List...)
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(seq)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.X}},
					&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(ix)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
						Cond: &ast.BinaryExpr{X: id(ix), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(seq)}}},
						Post: &ast.IncDecStmt{X: id(ix), Tok: token.INC}, Body: r.Body})
			}
			return
		})
	},
	"extractbody": func(c *ctx) {
		if c.generic() || namedResults(c.fd.Type) || c.fd.Name.Name == "init" || c.fd.Name.Name == "main" {
			return
		}
		nm := c.name(c.fd.Name.Name + "Impl")
		if c.fd.Name.IsExported() {
			nm = strings.ToLower(nm[:1]) + nm[1:]
		}
		fn := ast.Expr(id(nm))
		ft := c.fd.Type
		var args []ast.Expr
		ell := false
		for _, f := range ft.Params.List {
			if len(f.Names) == 0 {
				f.Names = []*ast.Ident{id(c.name("p"))}
			}
			for _, x := range f.Names {
				if x.Name == "_" {
					x.Name = c.name("p")
				}
				args = append(args, id(x.Name))
			}
			_, ell = f.Type.(*ast.Ellipsis)
		}
		var recv *ast.FieldList
		if c.fd.Recv != nil {
			f := c.fd.Recv.List[0]
			if len(f.Names) == 0 {
				f.Names = []*ast.Ident{id(c.name("recv"))}
			}
			if f.Names[0].Name == "_" {
				f.Names[0].Name = c.name("recv")
			}
			recv = c.fd.Recv
			fn = &ast.SelectorExpr{X: id(f.Names[0].Name), Sel: id(nm)}
		}
		impl := &ast.FuncDecl{Recv: recv, Name: id(nm), Type: ft, Body: c.fd.Body}
		c.extra = append(c.extra, impl)
		call := &ast.CallExpr{Fun: fn, Args: args}
		if ell {
			call.Ellipsis = 1
		}
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if ft.Results != nil && len(ft.Results.List) > 0 {
			st = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		c.fd.Body = &ast.BlockStmt{List: []ast.Stmt{st}}
		c.count++
	},
	"extractcond": func(c *ctx) {
		if c.generic() {
			return
		}
		ast.Inspect(c.fd.Body, func(n ast.Node) bool {
			i, ok := n.(*ast.IfStmt)
			if !ok {
				return true
			}
			vars, ok := c.free(false, i.Cond)
			if !ok {
				return true
			}
			fl, args, ok := c.params(vars)
			if !ok {
				return true
			}
			nm := c.name("holds")
			c.extra = append(c.extra, &ast.FuncDecl{Name: id(nm), Type: &ast.FuncType{Params: fl, Results: &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{i.Cond}}}}})
			i.Cond = &ast.CallExpr{Fun: id(nm), Args: args}
			c.count++
			return true
		})
	},
	"extractguard": func(c *ctx) {
		if c.generic() || namedResults(c.fd.Type) || c.fd.Type.Results == nil {
			return
		}
		sig := c.info.Defs[c.fd.Name].Type().(*types.Signature)
		ast.Inspect(c.fd.Body, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				return false
			}
			i, ok := n.(*ast.IfStmt)
			if !ok || i.Init != nil || i.Else != nil || len(i.Body.List) != 1 {
				return true
			}
			r, ok := i.Body.List[0].(*ast.ReturnStmt)
			if !ok || len(r.Results) != sig.Results().Len() || len(r.Results) == 0 {
				return true
			}
			last := len(r.Results) - 1
			if sig.Results().At(last).Type().String() != "error" {
				return true
			}
			if x, ok := r.Results[last].(*ast.Ident); ok && x.Name == "nil" {
				return true
			}
			for _, e := range r.Results[:last] {
				if tv := c.info.Types[e]; tv.Value == nil && !tv.IsNil() {
					return true
				}
			}
			vars, ok := c.free(false, i.Cond, r.Results[last])
			if !ok {
				return true
			}
			fl, args, ok := c.params(vars)
			if !ok {
				return true
			}
			nm, g := c.name("guard"), c.name("gerr")
			c.extra = append(c.extra, &ast.FuncDecl{Name: id(nm), Type: &ast.FuncType{Params: fl, Results: &ast.FieldList{List: []*ast.Field{{Type: id("error")}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.IfStmt{Cond: i.Cond, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{r.Results[last]}}}}},
				&ast.ReturnStmt{Results: []ast.Expr{id("nil")}}}}})
			i.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(g)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: id(nm), Args: args}}}
			i.Cond = &ast.BinaryExpr{X: id(g), Op: token.NEQ, Y: id("nil")}
			r.Results[last] = id(g)
			c.count++
			return false
		})
	},
	"tailhelper": func(c *ctx) {
		if c.generic() || namedResults(c.fd.Type) {
			return
		}
		l := c.fd.Body.List
		if len(l) < 4 || !returns(l) {
			return
		}
		k := len(l) / 2
		tail := l[k:]
		var nodes []ast.Node
		for _, s := range tail {
			nodes = append(nodes, s)
		}
		for _, s := range l[:k] {
			bad := false
			ast.Inspect(s, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.DeferStmt, *ast.LabeledStmt:
					bad = true
				}
				return true
			})
			if bad {
				return
			}
		}
		vars, ok := c.free(false, nodes...)
		if !ok {
			return
		}
		fl, args, ok := c.params(vars)
		if !ok {
			return
		}
		// avoid capturing closures that alias the variables declared before
		nm := c.name("tail")
		c.extra = append(c.extra, &ast.FuncDecl{Name: id(nm), Type: &ast.FuncType{Params: fl, Results: c.fd.Type.Results}, Body: &ast.BlockStmt{List: tail}})
		call := &ast.CallExpr{Fun: id(nm), Args: args}
		var st ast.Stmt = &ast.ReturnStmt{Results: []ast.Expr{call}}
		if c.fd.Type.Results == nil || len(c.fd.Type.Results.List) == 0 {
			return
		}
		c.fd.Body.List = append(l[:k:k], st)
		c.count++
	},
	"tailclosure": func(c *ctx) {
		if namedResults(c.fd.Type) || c.fd.Type.Results == nil || len(c.fd.Type.Results.List) == 0 {
			return
		}
		l := c.fd.Body.List
		if len(l) < 3 || !returns(l) {
			return
		}
		k := len(l) / 2
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: c.fd.Type.Results}, Body: &ast.BlockStmt{List: l[k:]}}
		c.fd.Body.List = append(l[:k:k], &ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: lit}}})
		c.count++
	},
	"rename": func(c *ctx) {
		sc := map[types.Object]bool{}
		ast.Inspect(c.fd, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				o := c.info.Defs[i]
				if v, ok := o.(*types.Var); ok && !v.IsField() && i.Name != "_" {
					sc[o] = true
					c.count++
				}
			}
			return true
		})
		// implicit objects of type switches are left alone
		ast.Inspect(c.fd, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				if (c.info.Defs[i] != nil && sc[c.info.Defs[i]]) || (c.info.Uses[i] != nil && sc[c.info.Uses[i]]) {
					i.Name = i.Name + "Rn"
				}
			}
			return true
		})
	},
	"litconst": func(c *ctx) {
		astutil.Apply(c.fd.Body, nil, func(cu *astutil.Cursor) bool {
			b, ok := cu.Node().(*ast.BasicLit)
			if _, tag := cu.Parent().(*ast.Field); tag || !ok || b.Kind != token.STRING {
				return true
			}
			n := c.name("lit")
			c.extra = append(c.extra, &ast.GenDecl{Tok: token.CONST, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Values: []ast.Expr{&ast.BasicLit{Kind: b.Kind, Value: b.Value}}}}})
			cu.Replace(id(n))
			c.count++
			return true
		})
	},
	"complit": func(c *ctx) {
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || len(a.Lhs) != 1 || a.Tok != token.DEFINE {
					out = append(out, s)
					continue
				}
				e := a.Rhs[0]
				if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
					e = u.X
				}
				lit, ok := e.(*ast.CompositeLit)
				if !ok || len(lit.Elts) == 0 {
					out = append(out, s)
					continue
				}
				if _, ok := c.info.TypeOf(lit).Underlying().(*types.Struct); !ok {
					out = append(out, s)
					continue
				}
				if _, ok := lit.Elts[0].(*ast.KeyValueExpr); !ok {
					out = append(out, s)
					continue
				}
				c.count++
				out = append(out, s)
				for _, el := range lit.Elts {
					kv := el.(*ast.KeyValueExpr)
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(a.Lhs[0].(*ast.Ident).Name), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
				}
				lit.Elts = nil
			}
			return
		})
	},
	"rettemp": func(c *ctx) {
		var sig *types.Signature
		ast.Inspect(c.fd, func(n ast.Node) bool { return true })
		_ = sig
		var walk func(n ast.Node, ft *ast.FuncType)
		fix := func(l []ast.Stmt, ft *ast.FuncType) (out []ast.Stmt) {
			for _, s := range l {
				r, ok := s.(*ast.ReturnStmt)
				if !ok || ft.Results == nil || len(r.Results) == 0 {
					out = append(out, s)
					continue
				}
				var rt []ast.Expr
				for _, f := range ft.Results.List {
					k := len(f.Names)
					if k == 0 {
						k = 1
					}
					for ; k > 0; k-- {
						rt = append(rt, f.Type)
					}
				}
				var names []*ast.Ident
				var res []ast.Expr
				for range rt {
					n := c.name("ret")
					names = append(names, id(n))
					res = append(res, id(n))
				}
				c.count++
				if len(r.Results) == len(rt) {
					for i := range rt {
						out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: names[i : i+1], Type: rt[i], Values: r.Results[i : i+1 : i+1]}}}})
					}
				} else {
					out = append(out, &ast.AssignStmt{Lhs: res, Tok: token.DEFINE, Rhs: r.Results})
				}
				r2 := &ast.ReturnStmt{}
				for _, n := range names {
					r2.Results = append(r2.Results, id(n.Name))
				}
				out = append(out, r2)
			}
			return
		}
		walk = func(n ast.Node, ft *ast.FuncType) {
			ast.Inspect(n, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.FuncLit:
					walk(y.Body, y.Type)
					return false
				case *ast.BlockStmt:
					y.List = fix(y.List, ft)
				case *ast.CaseClause:
					y.Body = fix(y.Body, ft)
				}
				return true
			})
		}
		walk(c.fd.Body, c.fd.Type)
	},
	"andsplit": func(c *ctx) {
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				i, ok := s.(*ast.IfStmt)
				if ok && i.Else == nil {
					if b, ok := i.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
						c.count++
						i.Cond = b.X
						i.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: i.Body}}}
					} else if ok && b.Op == token.LOR && i.Init == nil && len(i.Body.List) == 1 && terminates(i.Body.List) {
						c.count++
						out = append(out, &ast.IfStmt{Cond: b.X, Body: &ast.BlockStmt{List: i.Body.List}})
						i.Cond = b.Y
					}
				}
				out = append(out, s)
			}
			return
		})
	},
	"ormerge": func(c *ctx) { // adjacent guards with the same body text become one
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				i, ok := s.(*ast.IfStmt)
				if ok && i.Else == nil && i.Init == nil && len(out) > 0 && terminates(i.Body.List) {
					if p, ok := out[len(out)-1].(*ast.IfStmt); ok && p.Else == nil && p.Init == nil && c.text(p.Body) == c.text(i.Body) {
						c.count++
						p.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: p.Cond}, Op: token.LOR, Y: &ast.ParenExpr{X: i.Cond}}
						continue
					}
				}
				out = append(out, s)
			}
			return
		})
	},
	"noop": func(c *ctx) {
		c.fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
			&ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{}}}}}, c.fd.Body.List...)
		c.count++
	},
	"argtemp": func(c *ctx) { // x := f(a, g(b)) -> t := g(b); x := f(a, t) in plain statements
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				var call *ast.CallExpr
				switch y := s.(type) {
				case *ast.AssignStmt:
					if len(y.Rhs) == 1 {
						call, _ = y.Rhs[0].(*ast.CallExpr)
					}
				case *ast.ExprStmt:
					call, _ = y.X.(*ast.CallExpr)
				case *ast.ReturnStmt:
					if len(y.Results) == 1 {
						call, _ = y.Results[0].(*ast.CallExpr)
					}
				}
				if call != nil && call.Ellipsis == 0 {
					if tv, ok := c.info.Types[call.Fun]; ok && tv.IsValue() {
						for k, a := range call.Args {
							tv := c.info.Types[a]
							if tv.Value != nil || tv.IsNil() || tv.IsBuiltin() || tv.IsType() {
								continue
							}
							if _, isT := tv.Type.(*types.Tuple); isT {
								continue
							}
							if _, lit := a.(*ast.FuncLit); lit {
								continue
							}
							n := c.name("arg")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
							call.Args[k] = id(n)
							c.count++
						}
					}
				}
				out = append(out, s)
			}
			return
		})
	},
	"named": func(c *ctx) { // unnamed results -> named results and bare returns
		if c.fd.Type.Results == nil || namedResults(c.fd.Type) {
			return
		}
		var res []ast.Expr
		for _, f := range c.fd.Type.Results.List {
			n := c.name("out")
			f.Names = []*ast.Ident{id(n)}
			res = append(res, id(n))
		}
		var walk func(n ast.Node)
		fix := func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) > 0 {
					out = append(out, &ast.AssignStmt{Lhs: append([]ast.Expr{}, res...), Tok: token.ASSIGN, Rhs: r.Results}, &ast.ReturnStmt{})
					continue
				}
				out = append(out, s)
			}
			return
		}
		walk = func(n ast.Node) {
			ast.Inspect(n, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.FuncLit:
					return false
				case *ast.BlockStmt:
					y.List = fix(y.List)
				case *ast.CaseClause:
					y.Body = fix(y.Body)
				}
				return true
			})
		}
		walk(c.fd.Body)
		c.count++
	},
	"swapassign": func(c *ctx) { // adjacent independent field assignments or composite fields in the other order
		ast.Inspect(c.fd.Body, func(n ast.Node) bool {
			if lit, ok := n.(*ast.CompositeLit); ok && len(lit.Elts) > 1 {
				if _, ok := c.info.TypeOf(lit).Underlying().(*types.Struct); ok {
					okAll := true
					for _, e := range lit.Elts {
						kv, is := e.(*ast.KeyValueExpr)
						if !is || !pure(kv.Value) {
							okAll = false
						}
					}
					if okAll {
						for i, j := 0, len(lit.Elts)-1; i < j; i, j = i+1, j-1 {
							lit.Elts[i], lit.Elts[j] = lit.Elts[j], lit.Elts[i]
						}
						c.count++
					}
				}
			}
			return true
		})
	},
	"anytypes": func(c *ctx) { // explicit var declarations
		c.lists(func(l []ast.Stmt) (out []ast.Stmt) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
					i, isID := a.Lhs[0].(*ast.Ident)
					if isID && i.Name != "_" && c.info.Defs[i] != nil {
						if te, ok := c.typeExpr(c.info.Defs[i].Type()); ok {
							c.count++
							out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{i}, Type: te}}}},
								&ast.AssignStmt{Lhs: []ast.Expr{id(i.Name)}, Tok: token.ASSIGN, Rhs: a.Rhs})
							continue
						}
					}
				}
				out = append(out, s)
			}
			return
		})
	},
	"wrapcall": func(c *ctx) { // x, err := recv.f(args) -> helper doing the call
		if c.generic() {
			return
		}
		ast.Inspect(c.fd.Body, func(n ast.Node) bool {
			a, ok := n.(*ast.AssignStmt)
			if !ok || len(a.Rhs) != 1 {
				return true
			}
			call, ok := a.Rhs[0].(*ast.CallExpr)
			if !ok || call.Ellipsis != 0 {
				return true
			}
			tv := c.info.Types[call.Fun]
			if !tv.IsValue() {
				return true
			}
			sig, ok := tv.Type.(*types.Signature)
			if !ok {
				return true
			}
			vars, ok := c.free(true, call)
			if !ok {
				return true
			}
			fl, args, ok := c.params(vars)
			if !ok {
				return true
			}
			rl := &ast.FieldList{}
			for k := 0; k < sig.Results().Len(); k++ {
				te, ok := c.typeExpr(sig.Results().At(k).Type())
				if !ok {
					return true
				}
				rl.List = append(rl.List, &ast.Field{Type: te})
			}
			if len(rl.List) == 0 {
				return true
			}
			nm := c.name("do")
			c.extra = append(c.extra, &ast.FuncDecl{Name: id(nm), Type: &ast.FuncType{Params: fl, Results: rl}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}})
			a.Rhs[0] = &ast.CallExpr{Fun: id(nm), Args: args}
			c.count++
			return false
		})
	},
}

func (c *ctx) text(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), n)
	return b.String()
}

func main() {
	kind, dir := os.Args[1], os.Args[2]
	if kind == "list" {
		var l []string
		for k := range kinds {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
		return
	}
	sub, fn := "", ""
	if len(os.Args) > 3 {
		sub = os.Args[3]
	}
	if len(os.Args) > 4 {
		fn = os.Args[4]
	}
	do := kinds[kind]
	if do == nil {
		fmt.Fprintln(os.Stderr, "unknown kind")
		os.Exit(2)
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: dir, Fset: token.NewFileSet()}
	pks, err := packages.Load(cfg, "./server/...", "./sdk/...", "./client/...", "./oidc/...")
	if err != nil {
		panic(err)
	}
	total := 0
	for _, pk := range pks {
		if strings.Contains(pk.PkgPath, "/mock") || strings.HasSuffix(pk.PkgPath, "/paseto") || len(pk.Errors) > 0 {
			continue
		}
		for _, f := range pk.Syntax {
			name := cfg.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "_test.go") || (sub != "" && !strings.Contains(name, sub)) {
				continue
			}
			n := 0
			var extra []ast.Decl
			f.Comments = keepBuild(f)
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					x.Doc = nil
				case *ast.GenDecl:
					x.Doc = nil
				}
			}
			decls := append([]ast.Decl{}, f.Decls...)
			for _, d := range decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || (fn != "" && fd.Name.Name != fn) {
					continue
				}
				c := &ctx{pk: pk, info: pk.TypesInfo, file: f, fd: fd}
				do(c)
				n += c.count
				extra = append(extra, c.extra...)
			}
			if n == 0 {
				continue
			}
			total += n
			var b bytes.Buffer
			if err := format.Node(&b, cfg.Fset, f); err != nil {
				fmt.Fprintln(os.Stderr, name, err)
				continue
			}
			for _, d := range extra {
				b.WriteString("\n\n")
				if err := format.Node(&b, token.NewFileSet(), d); err != nil {
					fmt.Fprintln(os.Stderr, name, err)
				}
			}
			b.WriteString("\n")
			out, err := format.Source(b.Bytes())
			if err != nil {
				fmt.Fprintln(os.Stderr, name, err)
				out = b.Bytes()
			}
			os.WriteFile(name, out, 0o644)
		}
	}
	fmt.Println(kind, total)
}

func keepBuild(f *ast.File) []*ast.CommentGroup {
	return nil
}
