// Command mutate lists small changes of Go files as JSON lines; tools/mutants.py
// runs the checks against them.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	Line     int
	Off, End int
	New      string
	Kind     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, nil, 0)
		if err != nil {
			panic(err)
		}
		put := func(from, to token.Pos, s, kind string) {
			p := fset.Position(from)
			enc.Encode(mutant{path, p.Line, p.Offset, fset.Position(to).Offset, s, kind})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.REM: {"/"},
					}
					for _, a := range alt[x.Op] {
						put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "operator")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							put(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "constant")
							if v > 0 {
								put(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "constant")
							}
						}
					}
				case *ast.IfStmt:
					put(x.Cond.Pos(), x.Cond.End(), "true", "condition")
					put(x.Cond.Pos(), x.Cond.End(), "false", "condition")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						put(x.Pos(), x.End(), "", "delete")
					}
				case *ast.IncDecStmt:
					put(x.Pos(), x.End(), "", "delete")
				case *ast.ExprStmt:
					put(x.Pos(), x.End(), "", "delete")
				case *ast.DeferStmt:
					put(x.Pos(), x.End(), "", "delete")
				case *ast.BranchStmt:
					put(x.Pos(), x.End(), "", "delete")
				case *ast.SliceExpr:
					return true
				}
				return true
			})
		}
	}
}
