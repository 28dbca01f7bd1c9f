// Command instr writes an instrumented copy of the library: a scheduling point before every
// statement, package-level variables re-initialisable, "sync" replaced by a cooperative version.
//
//	instr SRC DST VSCHED
//
// It exits 3 when the library contains constructs the controlled scheduler does not model.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off  int
	seq  int
	text string
}

type file struct {
	path, rel string
	src       []byte
	ast       *ast.File
	fset      *token.FileSet
}

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(code)
}

func main() {
	src, dst, vs := os.Args[1], os.Args[2], os.Args[3]
	var files []*file
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if n := fi.Name(); rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata") || rel == "test" || rel == "tests" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if !strings.HasSuffix(p, ".go") {
			return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, &file{p, rel, b, f, fset})
		return nil
	})
	if err != nil {
		die(2, "%v", err)
	}
	mod := modulePath(filepath.Join(src, "go.mod"))
	// Package-level variables by directory and by name.
	vars := map[string]map[string]bool{}
	allVars := map[string]bool{}
	for _, f := range files {
		d := filepath.Dir(f.rel)
		if vars[d] == nil {
			vars[d] = map[string]bool{}
		}
		for _, dc := range f.ast.Decls {
			if g, ok := dc.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						vars[d][n.Name] = true
						allVars[n.Name] = true
					}
				}
			}
		}
	}
	var names []string
	for _, f := range files {
		if f.ast.Name.Name == "main" {
			_ = os.WriteFile(filepath.Join(dst, f.rel), f.src, 0o644)
			continue
		}
		out := instrument(f, mod, vars[filepath.Dir(f.rel)], allVars, &names)
		if err := os.WriteFile(filepath.Join(dst, f.rel), out, 0o644); err != nil {
			die(2, "%v", err)
		}
	}
	// runtime
	err = filepath.Walk(vs, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(vs, p)
		to := filepath.Join(dst, "vsched", rel)
		if fi.IsDir() {
			return os.MkdirAll(to, 0o755)
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		o, err := os.Create(to)
		if err != nil {
			return err
		}
		defer o.Close()
		_, err = io.Copy(o, in)
		return err
	})
	if err != nil {
		die(2, "%v", err)
	}
	var t strings.Builder
	t.WriteString("package vsched\n\nfunc init() {\n\tnames = []string{\n")
	for _, n := range names {
		fmt.Fprintf(&t, "\t\t%q,\n", n)
	}
	t.WriteString("\t}\n}\n")
	if err := os.WriteFile(filepath.Join(dst, "vsched", "table.go"), []byte(t.String()), 0o644); err != nil {
		die(2, "%v", err)
	}
	fmt.Printf("%d scheduling points in %d files\n", len(names), len(files))
}

func modulePath(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		die(2, "%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`)
		}
	}
	die(2, "no module path")
	return ""
}

func instrument(f *file, mod string, own, all map[string]bool, names *[]string) []byte {
	var edits []ins
	var dels [][2]int
	off := func(p token.Pos) int { return f.fset.Position(p).Offset }
	add := func(o int, s string) { edits = append(edits, ins{o, len(edits), s}) }
	text := func(n ast.Node) string { return string(f.src[off(n.Pos()):off(n.End())]) }

	modImports := map[string]bool{} // local names of packages of this module
	for _, im := range f.ast.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch {
		case p == "sync":
			if im.Name != nil {
				die(3, "%s: renamed sync import", f.rel)
			}
			dels = append(dels, [2]int{off(im.Path.Pos()), off(im.Path.End())})
			add(off(im.Path.Pos()), `sync "`+mod+`/vsched/vsync"`)
		case p == mod || strings.HasPrefix(p, mod+"/"):
			n := filepath.Base(p)
			if im.Name != nil {
				n = im.Name.Name
			}
			modImports[n] = true
		}
	}
	point := func(pos token.Pos, c bool) string {
		p := f.fset.Position(pos)
		*names = append(*names, fmt.Sprintf("%s:%d", f.rel, p.Line))
		k := "P"
		if c {
			k = "C"
		}
		return fmt.Sprintf("vsched.%s(%d); ", k, len(*names)-1)
	}
	// shallow: does the statement itself (not its nested blocks) mention a package-level variable?
	mentions := func(s ast.Stmt) bool {
		found := false
		ast.Inspect(s, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				if x, ok := v.X.(*ast.Ident); ok && modImports[x.Name] && all[v.Sel.Name] {
					found = true
				}
				ast.Inspect(v.X, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok && own[id.Name] {
						found = true
					}
					return true
				})
				return false
			case *ast.Ident:
				if own[v.Name] {
					found = true
				}
			}
			return true
		})
		return found
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), point(s.Pos(), mentions(s)))
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	skipLit := map[*ast.FuncLit]bool{}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok && skipLit[l] {
			return false
		}
		switch v := n.(type) {
		case *ast.GoStmt:
			// The function and its arguments are evaluated here, the call is another thread's.
			add(off(v.Pos()), "{ ")
			dels = append(dels, [2]int{off(v.Pos()), off(v.Call.Pos())})
			if lit, ok := v.Call.Fun.(*ast.FuncLit); ok && len(v.Call.Args) == 0 {
				add(off(lit.Pos()), "vsched.Go(")
				dels = append(dels, [2]int{off(lit.End()), off(v.Call.End())})
				add(off(lit.End()), ") }")
				break
			}
			if v.Call.Ellipsis.IsValid() {
				die(3, "%s: go statement with ...", f.rel)
			}
			add(off(v.Call.Pos()), "vschedF")
			var lhs, call, rhs []string
			for i, a := range v.Call.Args {
				if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
					call = append(call, id.Name)
					continue
				}
				if l, ok := a.(*ast.BasicLit); ok {
					call = append(call, l.Value)
					continue
				}
				lhs = append(lhs, fmt.Sprintf(", vschedA%d", i))
				call = append(call, fmt.Sprintf("vschedA%d", i))
				rhs = append(rhs, text(a))
			}
			add(off(v.Call.Pos()), strings.Join(lhs, "")+" := ")
			spawn := "; vsched.Go(func() { vschedF(" + strings.Join(call, ", ") + ") }) }"
			// (function literals among the arguments stay without points of their own)
			dels = append(dels, [2]int{off(v.Call.Lparen), off(v.Call.End())})
			if len(rhs) > 0 {
				spawn = ", " + strings.Join(rhs, ", ") + spawn
			}
			add(off(v.Call.Lparen), spawn)
			for _, a := range v.Call.Args {
				ast.Inspect(a, func(n ast.Node) bool {
					if l, ok := n.(*ast.FuncLit); ok {
						skipLit[l] = true
					}
					return true
				})
			}
		case *ast.SelectStmt:
			die(3, "%s: select statement", f.rel)
		case *ast.ChanType:
			die(3, "%s: channel", f.rel)
		case *ast.SwitchStmt:
			skip[v.Body] = true
		case *ast.TypeSwitchStmt:
			skip[v.Body] = true
		case *ast.CaseClause:
			list(v.Body)
		case *ast.FuncDecl:
			if v.Body != nil {
				add(off(v.Body.Lbrace)+1, " "+point(v.Body.Lbrace, true))
			}
		case *ast.ForStmt:
			add(off(v.Body.Lbrace)+1, " "+point(v.Body.Lbrace, false))
		case *ast.RangeStmt:
			add(off(v.Body.Lbrace)+1, " "+point(v.Body.Lbrace, false))
		case *ast.BlockStmt:
			if !skip[v] {
				list(v.List)
			}
		}
		return true
	})
	// Re-initialisation of package-level state.
	var reset strings.Builder
	ninit := 0
	for _, dc := range f.ast.Decls {
		switch d := dc.(type) {
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			if d.Doc != nil && strings.Contains(d.Doc.Text(), "go:embed") {
				continue
			}
			embedded := false
			if d.Doc != nil {
				for _, c := range d.Doc.List {
					if strings.HasPrefix(c.Text, "//go:embed") {
						embedded = true
					}
				}
			}
			if embedded {
				continue
			}
			for _, s := range d.Specs {
				v := s.(*ast.ValueSpec)
				if len(v.Values) == 0 {
					for _, n := range v.Names {
						if n.Name != "_" {
							fmt.Fprintf(&reset, "\tvsched.Zero(&%s)\n", n.Name)
						}
					}
					continue
				}
				if len(v.Values) == len(v.Names) {
					for i, n := range v.Names {
						if n.Name == "_" {
							continue
						}
						if v.Type != nil {
							fmt.Fprintf(&reset, "\t{ var z %s = %s; %s = z }\n", text(v.Type), text(v.Values[i]), n.Name)
						} else {
							fmt.Fprintf(&reset, "\t%s = %s\n", n.Name, text(v.Values[i]))
						}
					}
					continue
				}
				var ns []string
				real := false
				for _, n := range v.Names {
					ns = append(ns, n.Name)
					real = real || n.Name != "_"
				}
				if real {
					fmt.Fprintf(&reset, "\t%s = %s\n", strings.Join(ns, ", "), text(v.Values[0]))
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				n := fmt.Sprintf("vschedInit_%s_%d", ident(f.rel), ninit)
				ninit++
				dels = append(dels, [2]int{off(d.Name.Pos()), off(d.Name.End())})
				add(off(d.Name.Pos()), n)
			}
		}
	}
	nl := strings.LastIndexByte(string(f.src[:off(f.ast.Name.End())]), '\n')
	_ = nl
	add(off(f.ast.Name.End()), `; import vsched "`+mod+`/vsched"`)
	var tail strings.Builder
	tail.WriteString("\n\nvar _ = vsched.P\n")
	fmt.Fprintf(&tail, "\nfunc init() {\n\tvsched.Register(func() {\n%s\t}, func() {\n", reset.String())
	for i := 0; i < ninit; i++ {
		fmt.Fprintf(&tail, "\t\tvschedInit_%s_%d()\n", ident(f.rel), i)
	}
	tail.WriteString("\t})\n}\n")
	add(len(f.src), tail.String())

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var out strings.Builder
	pos := 0
	del := map[int]int{}
	for _, d := range dels {
		del[d[0]] = d[1]
	}
	for _, e := range edits {
		if e.off > pos {
			out.Write(f.src[pos:e.off])
			pos = e.off
		}
		out.WriteString(e.text)
		if end, ok := del[e.off]; ok && end > pos {
			pos = end
		}
	}
	out.Write(f.src[pos:])
	return []byte(out.String())
}

func ident(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}
