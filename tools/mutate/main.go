// Command mutate lists small source changes, one JSON object per line. It is
// used while developing the checks (tools/mutants.py), not by them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string
	Start, End int
	New, Desc  string
	Line       int
	Func       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(s, e token.Pos, nw, desc string) {
			enc.Encode(mut{f, off(s), off(e), nw, desc, fs.Position(s).Line, fn})
		}
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					if x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "guard off: "+text(x.Cond))
					} else {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "guard off: "+text(x.Cond))
					}
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "guard on: "+text(x.Cond))
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i, c := range x.List {
							if i+1 < len(x.List) {
								emit(c.Pos(), x.List[i+1].Pos(), "", "case dropped: "+text(c))
							}
						}
					}
				case *ast.BinaryExpr:
					for _, w := range swap[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), w, x.Op.String()+" -> "+w+": "+text(x))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "right operand dropped: "+text(x))
						emit(x.Pos(), x.End(), text(x.Y), "left operand dropped: "+text(x))
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.End(), text(x.X), "negation dropped: "+text(x))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "constant: "+x.Value)
							if v > 1 {
								emit(x.Pos(), x.End(), strconv.FormatInt(v/2, 10), "constant halved: "+x.Value)
							}
						}
					}
					if x.Kind == token.STRING && len(x.Value) > 2 {
						emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:], "string: "+x.Value)
					}
				case *ast.ReturnStmt:
					for i, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit(r.Pos(), r.End(), "nil", "error dropped")
						}
						if c, ok := r.(*ast.CallExpr); ok && i == len(x.Results)-1 && i > 0 {
							emit(c.Pos(), c.End(), "nil", "error dropped: "+text(c))
						}
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							nw := "true"
							if id.Name == "true" {
								nw = "false"
							}
							emit(r.Pos(), r.End(), nw, "result flipped")
						}
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt:
							emit(y.Pos(), y.End(), "", "statement dropped: "+text(y))
						case *ast.AssignStmt:
							if y.Tok == token.ASSIGN {
								blank := ""
								for range y.Lhs {
									if blank != "" {
										blank += ", "
									}
									blank += "_"
								}
								emit(y.Pos(), y.End(), blank+" = "+string(src[off(y.Rhs[0].Pos()):off(y.Rhs[len(y.Rhs)-1].End())]), "assignment dropped: "+text(y))
							}
						case *ast.DeferStmt:
							emit(y.Pos(), y.End(), "", "defer dropped: "+text(y))
						}
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						if text(a) != text(b) && text(a) != "ctx" {
							emit(a.Pos(), b.End(), text(b)+", "+text(a), fmt.Sprintf("arguments swapped: %s", text(x)))
						}
					}
				case *ast.CompositeLit:
					for _, el := range x.Elts {
						if kv, ok := el.(*ast.KeyValueExpr); ok {
							e := off(kv.End())
							if e < len(src) && src[e] == ',' {
								emit(kv.Pos(), kv.End()+1, "", "element dropped: "+text(kv))
							}
						}
					}
				}
				return true
			})
		}
	}
}
