// Command vinstr writes instrumented copies of the Go sources of /repo, and a
// build overlay that replaces the originals with them. It only adds scheduling
// points and replaces package sync and sync/atomic by equivalents that know the
// scheduler; line numbers and behaviour stay the same.
//
//	vinstr -repo /repo -ov DIR_WITH_SUPPORT_PACKAGES -out DIR -overlay FILE.json [-plain]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const mod = "github.com/peterbourgon/trc"

type edit struct {
	off, end int
	text     string
	seq      int
}

type inst struct {
	fset  *token.FileSet
	src   []byte
	edits []edit
	site  *int
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) insert(p token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(p), text, len(in.edits)})
}

func (in *inst) replace(a, b token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(a), in.off(b), text, len(in.edits)})
}

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) apply() []byte {
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].off != in.edits[j].off {
			return in.edits[i].off < in.edits[j].off
		}
		// insertions before replacements at the same offset
		ri, rj := in.edits[i].end > in.edits[i].off, in.edits[j].end > in.edits[j].off
		if ri != rj {
			return !ri
		}
		return in.edits[i].seq < in.edits[j].seq
	})
	var out []byte
	pos := 0
	for _, e := range in.edits {
		if e.off < pos {
			continue // overlapping edit, skip
		}
		out = append(out, in.src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.end
	}
	return append(out, in.src[pos:]...)
}

// hasArrow reports whether the node contains a channel receive that's not in a
// nested function literal.
func hasArrow(n ast.Node) (found bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return true
	})
	return
}

func (in *inst) stmts(list []ast.Stmt) {
	for _, s := range list {
		*in.site++
		y := fmt.Sprintf("zvsched.Y(%d); ", *in.site)
		switch s := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		case *ast.SelectStmt:
			def := false
			for _, c := range s.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					def = true
				}
			}
			if !def {
				y += "zvsched.B(); "
				for _, c := range s.Body.List {
					in.insert(c.(*ast.CommClause).Colon+1, " zvsched.R(); ")
				}
			}
			in.insert(s.Pos(), y)
		case *ast.LabeledStmt:
			if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
				def := false
				for _, c := range sel.Body.List {
					if c.(*ast.CommClause).Comm == nil {
						def = true
					}
				}
				if !def {
					y += "zvsched.B(); "
					for _, c := range sel.Body.List {
						in.insert(c.(*ast.CommClause).Colon+1, " zvsched.R(); ")
					}
				}
			}
			in.insert(s.Pos(), y)
		case *ast.GoStmt:
			if fl, ok := s.Call.Fun.(*ast.FuncLit); ok {
				v := fmt.Sprintf("zvok%d", *in.site)
				in.insert(s.Pos(), y+v+" := zvsched.Spawn(); ")
				in.insert(fl.Body.Lbrace+1, " defer zvsched.Enter("+v+")(); ")
			} else {
				in.insert(s.Pos(), y)
			}
		case *ast.SendStmt:
			if !hasArrow(s) {
				in.insert(s.Pos(), y+"zvsched.B(); ")
				in.insert(s.End(), "; zvsched.R()")
			} else {
				in.insert(s.Pos(), y)
			}
		case *ast.IncDecStmt:
			if sel, ok := s.X.(*ast.SelectorExpr); ok {
				d := "1"
				if s.Tok == token.DEC {
					d = "-1"
				}
				in.replace(s.Pos(), s.End(), y+"zvsched.Inc(&"+in.text(sel)+", "+d+")")
			} else {
				in.insert(s.Pos(), y)
			}
		case *ast.AssignStmt:
			done := false
			if s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
				if sel, ok := s.Lhs[0].(*ast.SelectorExpr); ok {
					if call, ok := s.Rhs[0].(*ast.CallExpr); ok && len(call.Args) > 0 {
						if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "append" && in.text(call.Args[0]) == in.text(sel) {
							in.insert(s.Pos(), y+"zvsched.Set(&")
							in.replace(sel.End(), call.Pos(), ", ")
							in.insert(call.End(), ")")
							done = true
						}
					}
				}
			}
			if done {
				continue
			}
			if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
				if u, ok := s.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					in.insert(s.Pos(), y+"zvsched.B(); ")
					in.insert(s.End(), "; zvsched.R()")
					continue
				}
			}
			in.insert(s.Pos(), y)
		default:
			in.insert(s.Pos(), y)
		}
	}
}

func (in *inst) visit(f *ast.File) {
	comm := map[ast.Node]bool{} // receives in select clauses, comma-ok receives
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CommClause:
			if n.Comm != nil {
				ast.Inspect(n.Comm, func(x ast.Node) bool {
					if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						comm[u] = true
					}
					return true
				})
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					comm[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := n.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					comm[u] = true
				}
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body == nil {
				return false
			}
		case *ast.BlockStmt:
			in.stmts(n.List)
		case *ast.CaseClause:
			in.stmts(n.Body)
		case *ast.CommClause:
			in.stmts(n.Body)
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !comm[n] {
				in.replace(n.OpPos, n.X.Pos(), "zvsched.Recv(")
				in.insert(n.X.End(), ")")
			}
		}
		return true
	})
}

func main() {
	repo := flag.String("repo", "/repo", "")
	ov := flag.String("ov", "", "")
	out := flag.String("out", "", "")
	overlay := flag.String("overlay", "", "")
	plain := flag.Bool("plain", false, "support packages only, no instrumentation")
	flag.Parse()

	rep := map[string]string{}
	filepath.Walk(*ov, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(*ov, p)
			rep[filepath.Join(*repo, rel)] = p
		}
		return nil
	})

	site := 0
	if !*plain {
		for _, dir := range []string{".", "internal", "trcweb", "eztrc"} {
			root := filepath.Join(*repo, dir)
			filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
				if err != nil {
					return nil
				}
				if fi.IsDir() {
					if dir == "." && p != root {
						return filepath.SkipDir
					}
					return nil
				}
				if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
					return nil
				}
				src, err := os.ReadFile(p)
				if err != nil {
					fatal(err)
				}
				fset := token.NewFileSet()
				f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
				if err != nil {
					fatal(err)
				}
				if strings.Contains(string(src), "//go:build") || strings.Contains(string(src), "import \"C\"") {
					return nil
				}
				in := &inst{fset: fset, src: src, site: &site}
				in.insert(f.Name.End(), "; import zvsched \""+mod+"/zvsched\"")
				for _, im := range f.Imports {
					switch im.Path.Value {
					case `"sync"`:
						in.replace(im.Path.Pos(), im.Path.End(), `"`+mod+`/zvsync"`)
					case `"sync/atomic"`:
						in.replace(im.Path.Pos(), im.Path.End(), `"`+mod+`/zvatomic"`)
					}
				}
				in.visit(f)
				res := in.apply()
				res = append(res, []byte("\nvar _ = zvsched.Y\n")...)
				if _, err := parser.ParseFile(token.NewFileSet(), p, res, 0); err != nil {
					fatal(err)
				}
				rel, _ := filepath.Rel(*repo, p)
				dst := filepath.Join(*out, rel)
				os.MkdirAll(filepath.Dir(dst), 0o755)
				if err := os.WriteFile(dst, res, 0o644); err != nil {
					fatal(err)
				}
				rep[p] = dst
				return nil
			})
		}
	}
	cli(*repo, *out, rep)
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err := os.WriteFile(*overlay, b, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("sites %d files %d\n", site, len(rep))
}

// cli makes a package of the command line tool: the same code, with its
// arguments, output, exit and context given by the caller.
func cli(repo, out string, rep map[string]string) {
	src := filepath.Join(repo, "cmd", "trc")
	files, _ := filepath.Glob(filepath.Join(src, "*.go"))
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		text, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, text, 0)
		if err != nil || f.Name.Name != "main" {
			continue
		}
		in := &inst{fset: fset, src: text}
		in.replace(f.Name.Pos(), f.Name.End(), "zvcli")
		name := map[string]string{} // local name of an import
		for _, im := range f.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			if path == "os" || path == "context" {
				n := path
				if im.Name != nil {
					n = im.Name.Name
				}
				name[n] = path
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Recv == nil && n.Name.Name == "main" {
					in.replace(n.Name.Pos(), n.Name.End(), "ZvMain")
				}
			case *ast.SelectorExpr:
				id, ok := n.X.(*ast.Ident)
				if !ok {
					return true
				}
				switch name[id.Name] + "." + n.Sel.Name {
				case "os.Args", "os.Stdin", "os.Stdout", "os.Stderr", "os.Exit", "context.Background":
					in.replace(n.Pos(), n.End(), "Zv"+n.Sel.Name)
				}
			}
			return true
		})
		res := in.apply()
		for n, path := range name {
			res = append(res, []byte("\nvar _ = "+n+map[string]string{"os": ".Args", "context": ".Background"}[path]+"\n")...)
		}
		dst := filepath.Join(out, "zvcli", filepath.Base(p))
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			fatal(err)
		}
		rep[filepath.Join(src, "zvcli", filepath.Base(p))] = dst
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "vinstr:", err)
	os.Exit(1)
}
