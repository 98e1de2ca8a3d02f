// Package instr generates the build overlay that makes the concurrency of the
// code under test controllable: sync is replaced by vsync, goroutines announce
// themselves, and scheduling points are placed before the statements that may
// run in more than one goroutine. /repo itself is not touched.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	pos, end int
	text     string
	order    int
}

type file struct {
	path, src string
	ast       *ast.File
	edits     []edit
	used      bool
}

func (f *file) insert(pos int, text string) { f.replace(pos, pos, text) }
func (f *file) replace(pos, end int, text string) {
	f.edits = append(f.edits, edit{pos, end, text, len(f.edits)})
}

// Generate writes overlay files under dir and the overlay description to out.
// With calls unset, only goroutines that are function literals are controlled.
func Generate(repo, dir, out string, calls bool) error {
	replace := map[string]string{}
	pkgs := map[string][]*file{}
	fset := token.NewFileSet()
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := fi.Name()
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, p, b, parser.SkipObjectResolution)
		if err != nil {
			return nil // the compiler will tell
		}
		pkgs[filepath.Dir(p)] = append(pkgs[filepath.Dir(p)], &file{path: p, src: string(b), ast: a})
		return nil
	})
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	n := 0
	for _, files := range pkgs {
		instrument(fset, files, calls)
		for _, f := range files {
			if len(f.edits) == 0 {
				continue
			}
			n++
			dst := filepath.Join(dir, fmt.Sprintf("%d_%s", n, filepath.Base(f.path)))
			if err := os.WriteFile(dst, []byte(f.apply()), 0o644); err != nil {
				return err
			}
			replace[f.path] = dst
		}
	}
	if err := unpool(dir, replace); err != nil {
		return err
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": replace})
	if err != nil {
		return err
	}
	return os.WriteFile(out, b, 0o644)
}

// unpool makes the pools of the standard library forget what is put into them, as
// they may at any time. What one goroutine leaves to another would order their
// accesses to other memory, which hides data races in the executions explored.
// The pools of the code under test are those of vsync.
func unpool(dir string, replace map[string]string) error {
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(goroot)), "src", "sync", "pool.go")
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	s := string(b)
	for fun, body := range map[string]string{
		"func (p *Pool) Put(x any) {\n": "\tif race.Enabled {\n\t\treturn\n\t}\n",
		"func (p *Pool) Get() any {\n":  "\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n",
	} {
		if !strings.Contains(s, fun) {
			return fmt.Errorf("no %q in %s", fun, src)
		}
		s = strings.Replace(s, fun, fun+body, 1)
	}
	dst := filepath.Join(dir, "sync_pool.go")
	replace[src] = dst
	return os.WriteFile(dst, []byte(s), 0o644)
}

type fn struct {
	f    *file
	body *ast.BlockStmt
}

func instrument(fset *token.FileSet, files []*file, calls bool) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var (
		funcs  = map[string][]fn{} // by name, methods included
		consts = map[string]bool{"true": true, "false": true, "nil": true, "iota": true}
		class  = map[*ast.BlockStmt]int{}
		where  = map[*ast.BlockStmt]*file{}
		work   []fn
	)
	mark := func(f *file, b *ast.BlockStmt, c int) {
		if b == nil {
			return
		}
		if old, ok := class[b]; !ok || c < old {
			class[b], where[b] = c, f
			work = append(work, fn{f, b})
		}
	}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					funcs[d.Name.Name] = append(funcs[d.Name.Name], fn{f, d.Body})
				}
			case *ast.GenDecl:
				if d.Tok == token.CONST {
					for _, s := range d.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							consts[n.Name] = true
						}
					}
				}
			}
		}
	}
	byCall := func(fun ast.Expr) []fn {
		switch x := fun.(type) {
		case *ast.Ident:
			return funcs[x.Name]
		case *ast.SelectorExpr:
			return funcs[x.Sel.Name]
		}
		return nil
	}
	isWG := func(c *ast.CallExpr) bool { // wg.Go(func() { ... })
		s, ok := c.Fun.(*ast.SelectorExpr)
		return ok && s.Sel.Name == "Go" && len(c.Args) == 1
	}
	for _, f := range files {
		for _, i := range f.ast.Imports {
			if i.Path.Value == `"sync"` {
				name := "sync "
				if i.Name != nil {
					name = ""
				}
				f.replace(off(i.Path.Pos()), off(i.Path.End()), name+`"verif3mf/vsync"`)
			}
		}
		for _, d := range f.ast.Decls {
			d, ok := d.(*ast.FuncDecl)
			if !ok || d.Body == nil {
				continue
			}
			ast.Inspect(d.Body, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok && isWG(c) {
					mark(f, d.Body, 1)
					if lit, ok := c.Args[0].(*ast.FuncLit); ok {
						mark(f, lit.Body, 1)
					}
					return true
				}
				g, ok := n.(*ast.GoStmt)
				if !ok {
					return true
				}
				mark(f, d.Body, 1)
				if lit, ok := g.Call.Fun.(*ast.FuncLit); ok {
					f.used = true
					sep := ""
					if len(lit.Type.Params.List) > 0 {
						sep = ", "
					}
					f.insert(off(lit.Type.Params.Opening)+1, "vschedG vsched.G"+sep)
					for _, p := range lit.Type.Params.List {
						if len(p.Names) == 0 { // unnamed parameters cannot be mixed with named ones
							f.insert(off(p.Type.Pos()), "_ ")
						}
					}
					f.insert(off(lit.Body.Lbrace)+1, " vschedG.Enter(); defer vschedG.Exit(); ")
					if len(g.Call.Args) > 0 {
						f.insert(off(g.Call.Lparen)+1, "vsched.Spawn(), ")
					} else {
						f.insert(off(g.Call.Lparen)+1, "vsched.Spawn()")
					}
					mark(f, lit.Body, 1)
					return true
				}
				for _, c := range byCall(g.Call.Fun) {
					mark(c.f, c.body, 1)
				}
				if !calls {
					return true
				}
				f.used = true
				text := "{ "
				src := func(e ast.Node) string { return f.src[off(e.Pos()):off(e.End())] }
				fun := src(g.Call.Fun)
				if _, ok := g.Call.Fun.(*ast.Ident); !ok {
					text += "vschedF := " + fun + "; "
					fun = "vschedF"
				}
				var args []string
				for i, a := range g.Call.Args {
					id, isID := a.(*ast.Ident)
					if _, lit := a.(*ast.BasicLit); lit || isID && consts[id.Name] {
						args = append(args, src(a))
						continue
					}
					v := fmt.Sprintf("vschedA%d", i)
					text += v + " := " + src(a) + "; "
					args = append(args, v)
				}
				dots := ""
				if g.Call.Ellipsis.IsValid() {
					dots = "..."
				}
				text += "go func(vschedG vsched.G) { vschedG.Enter(); defer vschedG.Exit(); " + fun + "(" + strings.Join(args, ", ") + dots + ") }(vsched.Spawn()) }"
				f.replace(off(g.Pos()), off(g.End()), text)
				return false
			})
		}
	}
	// functions reached from goroutines, by name, two calls deep
	for depth := 0; depth < 2; depth++ {
		todo := work
		work = nil
		for _, w := range todo {
			ast.Inspect(w.body, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					for _, x := range byCall(c.Fun) {
						mark(x.f, x.body, 2)
					}
				}
				return true
			})
		}
	}
	// points: the innermost marked body decides
	placed := map[ast.Stmt]int{}
	owner := map[ast.Stmt]*file{}
	for b, c := range class {
		f := where[b]
		var lists func(n ast.Node) bool
		put := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				if old, ok := placed[s]; !ok || c < old {
					placed[s], owner[s] = c, f
				}
			}
		}
		lists = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				put(n.List)
			case *ast.CaseClause:
				put(n.Body)
			case *ast.CommClause:
				put(n.Body)
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				// their bodies hold clauses only
				ast.Inspect(n, func(m ast.Node) bool {
					switch m := m.(type) {
					case *ast.CaseClause:
						ast.Inspect(m, lists)
						return false
					case *ast.CommClause:
						ast.Inspect(m, lists)
						return false
					}
					return true
				})
				return false
			}
			return true
		}
		ast.Inspect(b, lists)
	}
	for s, c := range placed {
		f := owner[s]
		f.used = true
		f.insert(off(s.Pos()), fmt.Sprintf("vsched.Point(%d); ", c))
	}
	for _, f := range files {
		if f.used {
			f.insert(off(f.ast.Name.End()), `; import vsched "verif3mf/vsched"`)
			f.insert(len(f.src), "\nvar _ = vsched.Point\n")
		}
	}
}

func (f *file) apply() string {
	// A replacement swallows the edits inside it; at the same place, points
	// come before everything else.
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if pa, pb := strings.HasPrefix(a.text, "vsched.Point"), strings.HasPrefix(b.text, "vsched.Point"); pa != pb {
			return pa
		}
		return a.order < b.order
	})
	var out strings.Builder
	at := 0
	for _, e := range f.edits {
		if e.pos < at {
			continue
		}
		out.WriteString(f.src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.WriteString(f.src[at:])
	return out.String()
}
