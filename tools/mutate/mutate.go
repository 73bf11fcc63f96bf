// mutate lists small changes of Go files, one JSON object per line: the bytes
// from..to of file are to be replaced by text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	From, To int
	Text     string
	What     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := ioutil.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		out := func(from, to token.Pos, text, what string) {
			old := string(src[off(from):off(to)])
			if len(old) > 70 {
				old = old[:70] + "..."
			}
			_ = enc.Encode(mutant{file, fset.Position(from).Line, off(from), off(to), text, fmt.Sprintf("%s: %q -> %q", what, old, text)})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		list := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
							continue
						}
						if se, ok := c.Fun.(*ast.SelectorExpr); ok {
							if id, ok := se.X.(*ast.Ident); ok && (id.Name == "log" || id.Name == "fmt") {
								continue
							}
						}
					}
					out(s.Pos(), s.End(), "", "drop")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						out(s.Pos(), s.End(), "", "drop")
					} else {
						// x, err := f(): the error is ignored
						if id, ok := x.Lhs[len(x.Lhs)-1].(*ast.Ident); ok && id.Name == "err" {
							out(s.End(), s.End(), "; err = nil", "ignore")
						}
					}
				case *ast.IncDecStmt, *ast.DeferStmt:
					out(s.Pos(), s.End(), "", "drop")
				case *ast.IfStmt:
					if x.Init == nil && x.Else == nil {
						out(s.Pos(), s.End(), "", "drop if")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						out(s.Pos(), s.End(), "break", "branch")
					} else if x.Tok == token.BREAK {
						out(s.Pos(), s.End(), "continue", "branch")
					}
				}
				if d, ok := s.(*ast.DeferStmt); ok && i > 0 {
					// x.Lock(); defer x.Unlock()
					p, u := txt(l[i-1]), txt(d)
					if strings.HasSuffix(p, "Lock()") && strings.HasSuffix(u, "Unlock()") {
						out(l[i-1].Pos(), s.End(), "", "locks: none")
						out(l[i-1].Pos(), s.End(), p+"\n"+strings.TrimPrefix(u, "defer "), "locks: early")
						if strings.HasSuffix(p, ".Lock()") {
							out(l[i-1].Pos(), s.End(), strings.TrimSuffix(p, "Lock()")+"RLock()\n"+strings.TrimSuffix(u, "Unlock()")+"RUnlock()", "locks: shared")
						}
					}
				}
				if i > 0 && i < len(l) {
					p := l[i-1]
					simple := func(s ast.Stmt) bool {
						switch s.(type) {
						case *ast.ExprStmt, *ast.AssignStmt, *ast.IfStmt, *ast.IncDecStmt:
							return true
						}
						return false
					}
					if simple(p) && simple(s) {
						out(p.Pos(), s.End(), txt(s)+"\n"+txt(p), "swap")
					}
				}
			}
		}
		swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">",
			token.ADD: "-", token.SUB: "+", token.MUL: "+", token.LAND: "||", token.LOR: "&&", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&", token.REM: "/", token.QUO: "*"}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if fd.Name.Name == "String" || fd.Name.Name == "PrintGraphViz" || fd.Name.Name == "GraphViz" {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					if se, ok := x.Fun.(*ast.SelectorExpr); ok {
						if id, ok := se.X.(*ast.Ident); ok && (id.Name == "log" || id.Name == "fmt") {
							return false
						}
					}
					for i := 1; i < len(x.Args); i++ {
						a, aok := x.Args[i-1].(*ast.Ident)
						b, bok := x.Args[i].(*ast.Ident)
						if aok && bok && a.Name != b.Name {
							out(x.Args[i-1].Pos(), x.Args[i].End(), txt(b)+", "+txt(a), "swap args")
						}
					}
				case *ast.BlockStmt:
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.IfStmt:
					out(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "never")
					if b, ok := x.Cond.(*ast.BinaryExpr); !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
						out(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate")
					}
				case *ast.BinaryExpr:
					if t, ok := swap[x.Op]; ok {
						out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, "operator")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						out(x.Pos(), x.End(), txt(x.X), "left only")
						out(x.Pos(), x.End(), txt(x.Y), "right only")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							out(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "number")
							if v > 0 {
								out(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "number")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						out(x.Pos(), x.End(), "false", "boolean")
					}
					if x.Name == "false" {
						out(x.Pos(), x.End(), "true", "boolean")
					}
				case *ast.ReturnStmt:
					if k := len(x.Results); k > 0 {
						if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
							out(id.Pos(), id.End(), "nil", "return nil")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil && x.High != nil {
						out(x.Pos(), x.End(), txt(x.X)+"[:"+txt(x.High)+"]", "slice")
						out(x.Pos(), x.End(), txt(x.X)+"["+txt(x.Low)+":]", "slice")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						out(x.Pos(), x.End(), txt(x.X), "not")
					}
				}
				return true
			})
		}
	}
}
