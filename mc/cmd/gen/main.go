// gen writes the build overlay of a check from the current /repo tree: it
// rewrites import paths (sync -> controlled scheduler, time -> virtual clock,
// prover -> stand-in, ...) and, where asked, inserts a scheduling point before
// every statement.  It works on byte offsets of the parsed files, so it does
// not depend on how the code is written.
//
//	gen -repo /repo -out DIR PKG:opt,opt ...
//
// (PKG is a directory of the repository, or @IMPORTPATH for a dependency)
//
// options: sync, time, poseidon, zk, os, fastmul (babyjub: remembers products),
// points (before every statement),
// mpoints (before every statement of the methods of types holding a lock)
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var maps = map[string]map[string]string{
	"sync":     {"sync": "verif/mc/vsync"},
	"time":     {"time": "verif/mc/vtime"},
	"poseidon": {"github.com/iden3/go-iden3-crypto/poseidon": "verif/mc/vposeidon"},
	"zk": {
		"github.com/iden3/go-circom-prover-verifier/prover":   "verif/mc/vzk/prover",
		"github.com/iden3/go-circom-prover-verifier/verifier": "verif/mc/vzk/verifier",
		"github.com/iden3/go-circom-prover-verifier/parsers":  "verif/mc/vzk/parsers",
		"github.com/iden3/go-circom-witnesscalc":              "verif/mc/vzk/witnesscalc",
	},
	"os": {"os": "verif/mc/vos", "io/ioutil": "verif/mc/vos/vioutil", "github.com/gofrs/flock": "verif/mc/vos/vflock"},
}

const mulHead = "func (res *Point) Mul(s *big.Int, p *Point) *Point {\n"

const mulMemo = `
type mulKey__ struct{ s, x, y string }

var mulSeen__ = map[mulKey__]Point{}
var mulMu__ = make(chan struct{}, 1)

func (res *Point) Mul(s *big.Int, p *Point) *Point {
	k := mulKey__{string(s.Bytes()), string(p.X.Bytes()), string(p.Y.Bytes())}
	plain := s.Sign() >= 0 && p.X.Sign() >= 0 && p.Y.Sign() >= 0
	if plain {
		mulMu__ <- struct{}{}
		r, ok := mulSeen__[k]
		<-mulMu__
		if ok {
			res.X = new(big.Int).Set(r.X)
			res.Y = new(big.Int).Set(r.Y)
			return res
		}
	}
	res.mul__(s, p)
	if plain {
		r := Point{X: new(big.Int).Set(res.X), Y: new(big.Int).Set(res.Y)}
		mulMu__ <- struct{}{}
		if len(mulSeen__) > 200000 {
			mulSeen__ = map[mulKey__]Point{}
		}
		mulSeen__[k] = r
		<-mulMu__
	}
	return res
}

func (res *Point) mul__(s *big.Int, p *Point) *Point {
`

type edit struct {
	off, end int
	text     string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gen:", err)
		os.Exit(2)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	repl := map[string]string{}
	die(os.MkdirAll(*out, 0755))
	for _, a := range flag.Args() {
		p := strings.SplitN(a, ":", 2)
		opts := map[string]bool{}
		if len(p) > 1 {
			for _, o := range strings.Split(p[1], ",") {
				opts[o] = true
			}
		}
		dir := filepath.Join(*repo, p[0])
		if strings.HasPrefix(p[0], "@") { // a package of a dependency
			o, err := exec.Command("go", "list", "-f", "{{.Dir}}", p[0][1:]).Output()
			die(err)
			dir = strings.TrimSpace(string(o))
		}
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		die(err)
		sort.Strings(files)
		findLocked(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := ioutil.ReadFile(f)
			die(err)
			res, changed := rewrite(f, src, opts)
			if opts["fastmul"] && strings.Contains(string(res)+string(src), mulHead) {
				// the curve multiplication answers repeated questions from memory
				if !changed {
					res, changed = src, true
				}
				res = []byte(strings.Replace(string(res), mulHead, mulMemo, 1))
			}
			if !changed {
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(p[0], "/", "__")+"__"+filepath.Base(f))
			die(ioutil.WriteFile(dst, res, 0644))
			repl[f] = dst
		}
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	die(err)
	die(ioutil.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644))
}

// locked holds the struct types of the package that contain a sync primitive.
var locked map[string]bool

func recvName(e ast.Expr) string {
	if s, ok := e.(*ast.StarExpr); ok {
		e = s.X
	}
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func findLocked(files []string) {
	locked = map[string]bool{}
	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), fn, nil, 0)
		die(err)
		ast.Inspect(f, func(x ast.Node) bool {
			ts, ok := x.(*ast.TypeSpec)
			if !ok {
				return true
			}
			if st, ok := ts.Type.(*ast.StructType); ok {
				for _, fl := range st.Fields.List {
					t := fl.Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if se, ok := t.(*ast.SelectorExpr); ok {
						if id, ok := se.X.(*ast.Ident); ok && id.Name == "sync" {
							locked[ts.Name.Name] = true
						}
					}
				}
			}
			return true
		})
	}
}

func rewrite(name string, src []byte, opts map[string]bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	die(err)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	for _, im := range f.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		for o := range opts {
			to, ok := maps[o][ip]
			if !ok {
				continue
			}
			text := strconv.Quote(to)
			if im.Name == nil {
				base := path.Base(ip)
				if ip == "github.com/iden3/go-circom-witnesscalc" {
					base = "witnesscalc"
				}
				text = base + " " + text
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
		}
	}
	if opts["points"] || opts["mpoints"] {
		n := 0
		skip := map[ast.Node]bool{}
		if opts["mpoints"] {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if ok && (fd.Recv == nil || len(fd.Recv.List) == 0 || !locked[recvName(fd.Recv.List[0].Type)]) {
					skip[d] = true
				}
			}
		}
		ins := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.DeclStmt:
					continue
				}
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "vsched__.P();"})
				n++
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			if x != nil && skip[x] {
				return false
			}
			switch b := x.(type) {
			case *ast.BlockStmt:
				ins(b.List)
			case *ast.CaseClause:
				ins(b.Body)
			case *ast.CommClause:
				ins(b.Body)
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				// their body holds clauses only: visit the clauses
				var body *ast.BlockStmt
				switch t := x.(type) {
				case *ast.SwitchStmt:
					body = t.Body
				case *ast.TypeSwitchStmt:
					body = t.Body
				case *ast.SelectStmt:
					body = t.Body
				}
				for _, cl := range body.List {
					ast.Inspect(cl, func(y ast.Node) bool { return walkPoints(y, ins) })
				}
				return false
			}
			return true
		})
		if n > 0 {
			edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `;import vsched__ "verif/mc/sched"`})
		}
	}
	if len(edits) == 0 {
		return nil, false
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b []byte
	last := 0
	for _, e := range edits {
		b = append(b, src[last:e.off]...)
		b = append(b, e.text...)
		last = e.end
	}
	b = append(b, src[last:]...)
	return b, true
}

func walkPoints(x ast.Node, ins func([]ast.Stmt)) bool {
	switch b := x.(type) {
	case *ast.BlockStmt:
		ins(b.List)
	case *ast.CaseClause:
		ins(b.Body)
	case *ast.CommClause:
		ins(b.Body)
	case *ast.SwitchStmt:
		for _, cl := range b.Body.List {
			ast.Inspect(cl, func(y ast.Node) bool { return walkPoints(y, ins) })
		}
		return false
	case *ast.TypeSwitchStmt:
		for _, cl := range b.Body.List {
			ast.Inspect(cl, func(y ast.Node) bool { return walkPoints(y, ins) })
		}
		return false
	case *ast.SelectStmt:
		for _, cl := range b.Body.List {
			ast.Inspect(cl, func(y ast.Node) bool { return walkPoints(y, ins) })
		}
		return false
	}
	return true
}
