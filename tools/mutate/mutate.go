// mutate lists single-point changes of Go files as JSON lines: file, offset, end, new text, kind.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File     string
	Off, End int
	New      string
	Kind     string
	Func     string
	Line     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	root := os.Args[1]
	for _, name := range os.Args[2:] {
		src, err := os.ReadFile(root + "/" + name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || strings.Contains(fn.Name.Name, "String") && fn.Recv != nil {
				continue
			}
			emit := func(a, b token.Pos, s, kind string) {
				enc.Encode(mut{name, off(a), off(b), s, kind, fn.Name.Name, fs.Position(a).Line})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					if strings.HasPrefix(text(x.Fun), "assert.") {
						return false
					}
				case *ast.BinaryExpr:
					r := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.AND_NOT: {"&"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}}[x.Op]
					for _, s := range r {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit(x.Pos(), x.End(), "("+x.Value+"+1)", "lit")
						if x.Value != "0" {
							emit(x.Pos(), x.End(), "("+x.Value+"-1)", "lit")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool")
					}
					if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
					if strings.HasPrefix(text(n), "assert.") {
						return false
					}
					emit(n.Pos(), n.End(), "", "del")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						var blank []string
						for range x.Lhs {
							blank = append(blank, "_")
						}
						if x.Tok == token.ASSIGN {
							emit(x.Pos(), x.TokPos, strings.Join(blank, ", ")+" ", "del")
						} else {
							emit(x.Pos(), x.End(), "_ = "+text(x.Rhs[0]), "del")
						}
					}
				case *ast.CaseClause:
					if len(x.Body) > 0 && len(x.List) > 0 {
						emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "delcase")
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "", "del")
					}
				}
				return true
			})
		}
		_ = fmt.Sprint
	}
}
