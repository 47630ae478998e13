// mutgen REPO FUNC...: prints one JSON line per small change of the bodies of the named functions
// (dev tool: which changes do the contracts of a property notice?)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File, Func, What string
	Off, End, Line   int
	New              string
}

func recv(d *ast.FuncDecl, pkg string) string {
	if d.Recv == nil {
		return pkg + "." + d.Name.Name
	}
	switch t := d.Recv.List[0].Type.(type) {
	case *ast.StarExpr:
		return "(*" + pkg + "." + t.X.(*ast.Ident).Name + ")." + d.Name.Name
	case *ast.Ident:
		return "(" + pkg + "." + t.Name + ")." + d.Name.Name
	}
	return "?"
}

func main() {
	repo := os.Args[1]
	want := map[string]bool{}
	for _, f := range os.Args[2:] {
		want[f] = true
	}
	enc := json.NewEncoder(os.Stdout)
	for _, pkg := range []string{"pf", "pfutil", "pfc", "elasticity", "cmd"} {
		fset := token.NewFileSet()
		files, _ := filepath.Glob(repo + "/" + pkg + "/*.go")
		for _, fn := range files {
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(fn)
			f, err := parser.ParseFile(fset, fn, src, 0)
			if err != nil {
				continue
			}
			for _, dd := range f.Decls {
				d, ok := dd.(*ast.FuncDecl)
				if !ok || d.Body == nil || !want[recv(d, pkg)] {
					continue
				}
				name := recv(d, pkg)
				emit := func(a, b token.Pos, nw, what string) {
					pa, pb := fset.Position(a), fset.Position(b)
					enc.Encode(mut{pkg + "/" + filepath.Base(fn), name, what, pa.Offset, pb.Offset, pa.Line, nw})
				}
				text := func(n ast.Node) string {
					return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
				}
				ops := map[token.Token][]string{token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LSS: {"<="}, token.LEQ: {"<"},
					token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
					token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+=", "="}, token.MUL_ASSIGN: {"/=", "="}, token.QUO_ASSIGN: {"*="}}
				ast.Inspect(d.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BinaryExpr:
						for _, o := range ops[x.Op] {
							emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o+" in "+text(x))
						}
						if x.Op == token.SUB || x.Op == token.QUO {
							emit(x.Pos(), x.End(), "("+text(x.Y)+" "+x.Op.String()+" "+text(x.X)+")", "swapped "+text(x))
						}
					case *ast.AssignStmt:
						for _, o := range ops[x.Tok] {
							emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), o, x.Tok.String()+" -> "+o+" in "+text(x))
						}
						if x.Tok != token.DEFINE {
							emit(x.Pos(), x.End(), "", "removed "+text(x))
						}
					case *ast.ExprStmt:
						emit(x.Pos(), x.End(), "", "removed "+text(x))
					case *ast.UnaryExpr:
						if x.Op == token.SUB || x.Op == token.NOT {
							emit(x.OpPos, x.OpPos+1, "", "dropped "+x.Op.String()+" in "+text(x))
						}
					case *ast.BasicLit:
						if x.Kind == token.INT {
							emit(x.Pos(), x.End(), "("+x.Value+"+1)", "+1 at "+x.Value)
						}
						if x.Kind == token.FLOAT {
							emit(x.Pos(), x.End(), "("+x.Value+"+0.25)", "+0.25 at "+x.Value)
						}
					case *ast.IfStmt:
						emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negated "+text(x.Cond))
					case *ast.CallExpr:
						for i := 0; i+1 < len(x.Args); i++ {
							emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swapped arguments of "+text(x))
						}
					case *ast.IndexExpr:
						if id, ok := x.Index.(*ast.Ident); ok {
							emit(x.Index.Pos(), x.Index.End(), "0*"+id.Name, "index 0 in "+text(x))
						}
					}
					return true
				})
			}
		}
	}
	_ = fmt.Sprint
}
