// Command rewrite puts the seams under the repository's code: for every
// non-test Go file in the repository it writes a copy in which the standard
// packages that touch the outside world are replaced by the simulator's shims
// and every statement is a scheduling point, and an overlay file that makes
// the go tool use the copies. The repository itself is not touched.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var subst = map[string]string{
	"os":                        "os",
	"sync":                      "sync",
	"syscall":                   "syscall",
	"path/filepath":             "filepath",
	"io/ioutil":                 "ioutil",
	"github.com/satori/go.uuid": "uuid",
	"go.opencensus.io/stats":    "ostats",
	"math/rand":                 "rand",
	"fmt":                       "fmt",
	"os/signal":                 "signal",
	"net/http":                  "http",
}

type edit struct {
	off, end int
	text     string
	ord      int
}

type rw struct {
	fset  *token.FileSet
	src   []byte
	file  *ast.File
	edits []edit
	main  bool
	nsel  int
	// the copy needs a newer language version than the module declares
	generics bool
}

func (r *rw) pos(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rw) ins(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.pos(p), r.pos(p), s, len(r.edits)})
}
func (r *rw) insOff(o int, s string) { r.edits = append(r.edits, edit{o, o, s, len(r.edits)}) }
func (r *rw) repl(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.pos(a), r.pos(b), s, len(r.edits)})
}
func (r *rw) text(n ast.Node) string { return string(r.src[r.pos(n.Pos()):r.pos(n.End())]) }

// hasRecv reports whether evaluating the statement's own expressions may block
// on a channel (nested function literals and blocks excluded).
func hasRecv(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.UnaryExpr:
			if v.Op == token.ARROW {
				found = true
			}
		}
		return true
	})
	return found
}

func isCall(s ast.Stmt, pkg, name string) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	if pkg == "" {
		id, ok := c.Fun.(*ast.Ident)
		return ok && id.Name == name
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && id.Name == pkg && sel.Sel.Name == name
}

func (r *rw) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.ins(s.Pos(), "simrt.Y();")
		in := s
		for {
			l, ok := in.(*ast.LabeledStmt)
			if !ok {
				break
			}
			in = l.Stmt
		}
		switch v := in.(type) {
		case *ast.SendStmt:
			r.ins(v.End(), ";simrt.P()")
		case *ast.ExprStmt, *ast.AssignStmt, *ast.DeclStmt:
			if hasRecv(v) || isCall(in, "time", "Sleep") || isCall(in, "", "close") {
				r.ins(v.End(), ";simrt.P()")
			}
		case *ast.GoStmt:
			r.goStmt(v)
		case *ast.ForStmt:
			r.insOff(r.pos(v.Body.Lbrace)+1, "simrt.Y();")
		case *ast.RangeStmt:
			r.insOff(r.pos(v.Body.Lbrace)+1, "simrt.Y();")
		}
	}
}

// selectStmt makes the choice among ready cases the simulator's:
//
//	select { case v := <-c: A; case d <- x: B; default: D }
//
// becomes
//
//	switch simC0, simC1 := simrt.Recv(c), simrt.Send(d); simrt.Select(true, simC0, simC1.Set(x)) {
//	case 0: v := simC0.V; A
//	case 1: B
//	default: D }
func (r *rw) selectStmt(s *ast.SelectStmt) {
	if len(s.Body.List) == 0 {
		return
	}
	r.nsel++
	r.generics = true
	def := "false"
	var lhs, rhs, args []string
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			r.repl(cc.Case, cc.Colon, "default")
			continue
		}
		n := len(lhs)
		name := fmt.Sprintf("simC%d_%d", r.nsel, n)
		lhs = append(lhs, name)
		recv := func(e ast.Expr) {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			rhs = append(rhs, "simrt.Recv("+r.text(e.(*ast.UnaryExpr).X)+")")
			args = append(args, name)
		}
		body := ""
		switch v := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, "simrt.Send("+r.text(v.Chan)+")")
			args = append(args, name+".Set("+r.text(v.Value)+")")
		case *ast.ExprStmt:
			recv(v.X)
		case *ast.AssignStmt:
			recv(v.Rhs[0])
			body = r.text(v.Lhs[0])
			if len(v.Lhs) == 2 {
				body += "," + r.text(v.Lhs[1]) + v.Tok.String() + name + ".V," + name + ".OK;"
			} else {
				body += v.Tok.String() + name + ".V;"
			}
		}
		r.repl(cc.Case, cc.Colon, fmt.Sprintf("case %d", n))
		r.insOff(r.pos(cc.Colon)+1, body)
	}
	head := "switch "
	if len(lhs) > 0 {
		head += strings.Join(lhs, ",") + " := " + strings.Join(rhs, ",") + "; "
	}
	if def == "false" {
		r.ins(s.Body.Rbrace, ";default: panic(\"select\");")
	}
	r.repl(s.Select, s.Body.Lbrace, head+"simrt.Select("+strings.Join(append([]string{def}, args...), ",")+") ")
}

// resets assigns the package's variables their initial values again, as a new
// process of the program does.
func (r *rw) resets() string {
	var b strings.Builder
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			var names []string
			for _, n := range v.Names {
				names = append(names, n.Name)
			}
			if len(v.Values) == 0 {
				for _, n := range names {
					if n != "_" {
						fmt.Fprintf(&b, "{ var z %s; %s = z };", r.text(v.Type), n)
					}
				}
				continue
			}
			var vals []string
			for _, x := range v.Values {
				vals = append(vals, r.text(x))
			}
			fmt.Fprintf(&b, "%s = %s;", strings.Join(names, ","), strings.Join(vals, ","))
		}
	}
	return b.String()
}

func (r *rw) goStmt(g *ast.GoStmt) {
	c := g.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok {
		if len(c.Args) == 0 {
			// go func(){...}()  ->  simrt.Go(func(){...})
			r.repl(g.Pos(), fl.Pos(), "simrt.Go(")
			r.repl(c.Lparen, c.End(), ")")
			return
		}
		// go func(a T){body}(x)  ->  func(a T){ simrt.Go(func(){body}) }(x)
		r.repl(g.Pos(), fl.Pos(), "")
		r.insOff(r.pos(fl.Body.Lbrace)+1, "simrt.Go(func(){")
		r.insOff(r.pos(fl.Body.Rbrace), "})")
		return
	}
	var b strings.Builder
	b.WriteString("{ simF := " + r.text(c.Fun) + ";")
	var as []string
	for i, a := range c.Args {
		n := fmt.Sprintf("simA%d", i)
		b.WriteString(n + " := " + r.text(a) + ";")
		as = append(as, n)
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	b.WriteString("simrt.Go(func(){ simF(" + strings.Join(as, ",") + dots + ") }) }")
	r.repl(g.Pos(), g.End(), b.String())
}

func (r *rw) run() []byte {
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			r.stmts(v.List)
		case *ast.CaseClause:
			r.stmts(v.Body)
		case *ast.SelectStmt:
			r.selectStmt(v)
		case *ast.CommClause:
			r.stmts(v.Body)
		case *ast.GoStmt:
			// goStmt rewrites plain calls textually as a whole
			if _, ok := v.Call.Fun.(*ast.FuncLit); !ok {
				return false
			}
		case *ast.SelectorExpr:
			if id, ok := v.X.(*ast.Ident); r.main && ok && id.Name == "os" && id.Obj == nil && v.Sel.Name == "Args" {
				r.repl(v.Sel.Pos(), v.Sel.End(), "SimArgs()")
			}
		case *ast.CallExpr:
			if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "make" && id.Obj == nil && len(v.Args) >= 2 {
				if at, ok := v.Args[0].(*ast.ArrayType); ok && at.Len == nil {
					if e, ok := at.Elt.(*ast.Ident); ok && (e.Name == "byte" || e.Name == "uint8") {
						r.repl(v.Fun.Pos(), v.Args[1].Pos(), "simrt.MakeBytes(int(")
						if len(v.Args) == 3 {
							r.ins(v.Args[1].End(), ")")
							r.ins(v.Args[2].Pos(), "int(")
							r.ins(v.Args[2].End(), ")")
						} else {
							r.ins(v.Args[1].End(), ")")
						}
					}
				}
			}
		case *ast.RangeStmt:
			// ranging over a channel cannot be told from the syntax alone; a
			// task that wakes natively parks at its next scheduling point
		}
		return true
	})
	for _, im := range r.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if s, ok := subst[p]; ok {
			if p == "net/http" && !r.main {
				continue
			}
			r.repl(im.Path.Pos(), im.Path.End(), strconv.Quote("verif.local/sim/shim/"+s))
		}
	}
	r.ins(r.file.Name.End(), `; import simrt "verif.local/sim/rt"`)
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// pure insertions before replacements at the same place
		if (a.end == a.off) != (b.end == b.off) {
			return a.end == a.off
		}
		return a.ord < b.ord
	})
	var out []byte
	at := 0
	for _, e := range r.edits {
		if e.off < at {
			panic(fmt.Sprintf("overlapping edits at %d (%q)", e.off, e.text))
		}
		out = append(out, r.src[at:e.off]...)
		out = append(out, e.text...)
		at = e.end
	}
	out = append(out, r.src[at:]...)
	out = append(out, "\nvar _ = simrt.Y\n"...)
	return out
}

func main() {
	repo, outDir := os.Args[1], os.Args[2]
	repl := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo || fi.Name() == "vendor" || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(p), filepath.Base(p)); err != nil || !ok {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		r := &rw{fset: fset, src: src, file: f}
		dst := p
		if f.Name.Name == "main" {
			// importable twin of a command, next to the original
			r.main = true
			name := filepath.Base(filepath.Dir(p)) + "sim"
			r.repl(f.Name.Pos(), f.Name.End(), name)
			dst = filepath.Join(filepath.Dir(p)+"_sim", filepath.Base(p))
		}
		var buf []byte
		func() {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("%s: %v", p, e)
				}
			}()
			buf = r.run()
		}()
		if err != nil {
			return err
		}
		if r.main {
			has := false
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
					has = true
				}
			}
			if has {
				buf = append(buf, "\nfunc SimMain() { main() }\n"...)
				buf = append(buf, "\nfunc SimReset() { "+r.resets()+" }\n"...)
			}
		}
		buf = append([]byte("//line "+p+":1\n"), buf...)
		if r.generics {
			buf = append([]byte("//go:build go1.21\n\n"), strings.ReplaceAll(string(buf), "\n//go:build", "\n//")...)
		}
		o := filepath.Join(outDir, "src", rel)
		if err := os.MkdirAll(filepath.Dir(o), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(o, buf, 0644); err != nil {
			return err
		}
		repl[dst] = o
		n++
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(2)
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, "overlay.json"), j, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(2)
	}
	fmt.Printf("rewrote %d files\n", n)
}
