// mutate lists small changes of Go files: one JSON object a line with the file,
// line, function, byte range and replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Func, What, Repl string
	Line, From, To         int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, _ := os.ReadFile(name)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fn := ""
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			}
			out := func(n ast.Node, from, to token.Pos, repl, what string) {
				_ = enc.Encode(mut{name, fn, what, repl, fset.Position(from).Line, off(from), off(to)})
			}
			whole := func(n ast.Node, repl, what string) { out(n, n.Pos(), n.End(), repl, what) }
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.GenDecl:
					if n.Tok == token.IMPORT {
						return false
					}
				case *ast.IfStmt:
					if b, ok := n.Cond.(*ast.BinaryExpr); ok && b.Op == token.NEQ && text(b.X) == "err" && text(b.Y) == "nil" {
						// errors
						whole(n.Cond, "err != nil && false", "error ignored")
						return true
					}
					whole(n.Cond, "!("+text(n.Cond)+")", "negate: "+text(n.Cond))
					whole(n.Cond, "("+text(n.Cond)+") && false", "never: "+text(n.Cond))
					whole(n.Cond, "("+text(n.Cond)+") || true", "always: "+text(n.Cond))
				case *ast.BinaryExpr:
					m := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.EQL: {"!="}}
					if b, ok := n.X.(*ast.Ident); ok && b.Name == "err" {
						return true
					}
					for _, r := range m[n.Op] {
						out(n, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, text(n)+" with "+r)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						whole(n, text(n.X), "only "+text(n.X))
						whole(n, text(n.Y), "only "+text(n.Y))
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, err := strconv.Atoi(n.Value)
						if err == nil {
							whole(n, fmt.Sprint(v+1), n.Value+" plus 1")
						}
					}
					if n.Kind == token.STRING && len(n.Value) > 3 && len(n.Value) < 30 {
						whole(n, n.Value[:len(n.Value)-2]+n.Value[len(n.Value)-1:], "shorter "+n.Value)
					}
				case *ast.ExprStmt:
					whole(n, "", "drop "+text(n))
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						r := ""
						for i := range n.Lhs {
							if i < len(n.Rhs) {
								r += "_ = " + text(n.Rhs[i]) + ";"
							}
						}
						if text(n.Lhs[0]) != "_" {
							whole(n, r, "drop "+text(n))
						}
					} else if len(n.Rhs) == 1 {
					}
				case *ast.BranchStmt:
					if n.Tok == token.CONTINUE {
						whole(n, "break", "break for continue")
						whole(n, "", "drop continue")
					} else if n.Tok == token.BREAK {
						whole(n, "", "drop break")
					}
				case *ast.ReturnStmt:
					if len(n.Results) == 0 {
						whole(n, "", "drop return")
					}
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "true":
								whole(r, "false", "return false")
							case "false":
								whole(r, "true", "return true")
							case "nil", "err":
							default:
							}
						}
					}
				case *ast.RangeStmt:
					whole(n.X, text(n.X)+"[:0]", "empty range "+text(n.X))
					whole(n.X, text(n.X)+"[1:]", "all but first "+text(n.X))
				case *ast.CallExpr:
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						x := text(s)
						for a, b := range map[string]string{"strings.HasPrefix": "strings.HasSuffix", "strings.HasSuffix": "strings.HasPrefix", "strings.ToLower": "strings.ToUpper", "strings.ToUpper": "strings.ToLower", "strings.TrimSpace": "string", "filepath.Clean": "string", "strings.TrimPrefix": "strings.TrimSuffix", "strings.TrimSuffix": "strings.TrimPrefix", "strings.Contains": "strings.HasPrefix", "filepath.Dir": "filepath.Clean", "filepath.Base": "filepath.Clean"} {
							if x == a {
								whole(s, b, a+" as "+b)
							}
						}
					}
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
						whole(n, text(n.Args[0]), "drop append "+text(n))
					}
				}
				return true
			})
		}
	}
}
