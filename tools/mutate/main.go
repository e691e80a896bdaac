// mutate lists single point mutations of Go source files: mutate DIR > list (one JSON object per line).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type Mut struct {
	File, Op, Func string
	Line           int
	Off, End       int
	New            string
	Old            string
}

var swap = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
}

func main() {
	dir := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() && (strings.HasPrefix(fi.Name(), "_") || strings.HasPrefix(fi.Name(), ".") && rel != ".") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			return nil
		}
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			add := func(op string, a, b token.Pos, n string) {
				enc.Encode(Mut{rel, op, fd.Name.Name, fs.Position(a).Line, off(a), off(b), n, string(src[off(a):off(b)])})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swap[t.Op] {
						add("op", t.OpPos, t.OpPos+token.Pos(len(t.Op.String())), s)
					}
				case *ast.IfStmt:
					add("never", t.Cond.Pos(), t.Cond.End(), "false && ("+text(t.Cond)+")")
					add("always", t.Cond.Pos(), t.Cond.End(), "true || ("+text(t.Cond)+")")
				case *ast.ExprStmt:
					if _, ok := t.X.(*ast.CallExpr); ok {
						add("drop", t.Pos(), t.End(), "_ = 0")
					}
				case *ast.DeferStmt:
					add("drop", t.Pos(), t.End(), "_ = 0")
				case *ast.AssignStmt:
					if t.Tok != token.DEFINE {
						add("drop", t.Pos(), t.End(), fmt.Sprintf("if false { %s }", text(t)))
					}
				case *ast.IncDecStmt:
					add("drop", t.Pos(), t.End(), "_ = 0")
				case *ast.BranchStmt:
					if t.Label == nil && t.Tok == token.CONTINUE {
						add("branch", t.Pos(), t.End(), "break")
					}
					if t.Label == nil && t.Tok == token.BREAK {
						add("branch", t.Pos(), t.End(), "_ = 0")
					}
				case *ast.UnaryExpr:
					if t.Op == token.NOT {
						add("not", t.Pos(), t.Pos()+1, "")
					}
				case *ast.BasicLit:
					if t.Kind == token.INT {
						add("int", t.Pos(), t.End(), "("+t.Value+" + 1)")
					}
				case *ast.SelectStmt:
				case *ast.CaseClause:
					if len(t.List) > 0 && len(t.Body) > 0 {
						if _, isRet := t.Body[0].(*ast.ReturnStmt); !isRet {
							add("case", t.Body[0].Pos(), t.Body[0].Pos(), "break; ")
						}
					}
				case *ast.ReturnStmt:
					if len(t.Results) == 1 {
						switch x := t.Results[0].(type) {
						case *ast.Ident:
							if x.Name == "true" {
								add("ret", x.Pos(), x.End(), "false")
							} else if x.Name == "false" {
								add("ret", x.Pos(), x.End(), "true")
							}
						}
					}
				}
				return true
			})
		}
		return nil
	})
}
