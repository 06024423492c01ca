package main

import (
	"fmt"
	"go/ast"
	gobuild "go/build"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// state makes the package-level state of the code under test repeatable: it
// finds what a package does when it is initialised and adds a function that
// does it again, so that a simulated process can start with its variables as
// a new process has them, under the clock, random numbers and environment of
// the simulation.
type state struct {
	app   map[string]string // what is appended to a file, by absolute path
	ren   map[string][]int  // offsets of the names of init functions
	extra map[string]string // additional files
	n     int
}

// packages prepares all packages below dir. What cannot be prepared is left
// as it is.
func (s *state) packages(dir string) {
	s.app, s.ren, s.extra = map[string]string{}, map[string][]int{}, map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		if base := filepath.Base(p); p != dir && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "test-outputs") {
			return filepath.SkipDir
		}
		if err := s.pkg(p); err != nil {
			fmt.Fprintf(os.Stderr, "verifmk: package-level state in %s is not renewed: %v\n", p, err)
		}
		return nil
	})
}

type declared struct {
	fn    string
	names []string
}

func (s *state) pkg(dir string) error {
	all, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(all)
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	src := map[string][]byte{}
	name := ""
	for _, f := range all {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, f, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files[f], src[f] = a, b
		name = a.Name.Name
		gos := false
		ast.Inspect(a, func(n ast.Node) bool {
			_, ok := n.(*ast.GoStmt)
			gos = gos || ok
			return true
		})
		if gos {
			return fmt.Errorf("it starts goroutines")
		}
	}
	if len(files) == 0 || name == "main" {
		return nil
	}
	app, ren, extra := map[string]string{}, map[string][]int{}, map[string]string{}
	done := map[token.Pos]string{} // the function for an initialisation
	text := func(f string, n ast.Node) string {
		return string(src[f][fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	add := func(f string, pos token.Pos, body string) string {
		if fn, ok := done[pos]; ok {
			return fn
		}
		fn := fmt.Sprintf("verifState%d", s.n)
		s.n++
		done[pos] = fn
		app[f] += fmt.Sprintf("\n//line %s:%d\nfunc %s() { %s }\n", filepath.Base(f), fset.Position(pos).Line, fn, body)
		return fn
	}
	for i, tags := range [][]string{nil, {"purego"}} {
		ctx := gobuild.Default
		ctx.CgoEnabled = false
		ctx.BuildTags = tags
		var fs []*ast.File
		var paths []string
		for _, f := range all {
			if files[f] == nil {
				continue
			}
			if ok, err := ctx.MatchFile(dir, filepath.Base(f)); err != nil {
				return err
			} else if ok {
				fs = append(fs, files[f])
				paths = append(paths, f)
			}
		}
		if len(fs) == 0 {
			continue
		}
		var info types.Info
		imp := gobuild.Default
		gobuild.Default.CgoEnabled = false
		cfg := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
		_, err := cfg.Check(dir, fset, fs, &info)
		gobuild.Default = imp
		if err != nil {
			return err
		}
		where := func(pos token.Pos) string { return fset.File(pos).Name() }
		var calls []string
		// variables without a value first
		keep := map[string]bool{}
		for k, f := range fs {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				special := pragma(g.Doc)
				for _, sp := range g.Specs {
					v := sp.(*ast.ValueSpec)
					if special || pragma(v.Doc) || pragma(v.Comment) {
						for _, n := range v.Names {
							keep[n.Name] = true
						}
						continue
					}
					if len(v.Values) > 0 {
						continue
					}
					for _, n := range v.Names {
						if n.Name != "_" {
							calls = append(calls, add(paths[k], n.Pos(), fmt.Sprintf("%s = *new(%s)", n.Name, text(paths[k], v.Type))))
						}
					}
				}
			}
		}
		for _, in := range info.InitOrder {
			var lhs []string
			blank, kept := true, false
			for _, v := range in.Lhs {
				lhs = append(lhs, v.Name())
				blank = blank && v.Name() == "_"
				kept = kept || keep[v.Name()]
			}
			if kept {
				continue
			}
			if _, call := in.Rhs.(*ast.CallExpr); blank && !call {
				continue
			}
			f := where(in.Rhs.Pos())
			calls = append(calls, add(f, in.Rhs.Pos(), strings.Join(lhs, ", ")+" = "+text(f, in.Rhs)))
		}
		for k, f := range fs {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
					continue
				}
				fn, seen := done[fd.Name.Pos()]
				if !seen {
					off := fset.Position(fd.Name.Pos()).Offset
					fn = fmt.Sprintf("%s%d", initName, off)
					done[fd.Name.Pos()] = fn
					ren[paths[k]] = append(ren[paths[k]], off)
					app[paths[k]] += fmt.Sprintf("\nfunc init() { %s() }\n", fn)
				}
				calls = append(calls, fn)
			}
		}
		var b strings.Builder
		file := "zz_verif_state.go"
		c := constraint.Expr(&constraint.NotExpr{X: &constraint.TagExpr{Tag: "purego"}})
		if i == 1 {
			file = "zz_verif_state_purego.go"
			c = &constraint.TagExpr{Tag: "purego"}
		}
		fmt.Fprintf(&b, "//go:build %s\n\npackage %s\n\nimport verifrt \"verifsim/rt\"\n\nfunc init() {\n\tverifrt.States = append(verifrt.States, func() {\n", c, name)
		for _, c := range calls {
			fmt.Fprintf(&b, "\t\t%s()\n", c)
		}
		b.WriteString("\t})\n}\n")
		extra[filepath.Join(dir, file)] = b.String()
	}
	for f, t := range app {
		s.app[f] = t
	}
	for f, l := range ren {
		s.ren[f] = l
	}
	for f, t := range extra {
		s.extra[f] = t
	}
	return nil
}

const initName = "verifInit"

// pragma tells whether the compiler or linker sets a variable.
func pragma(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") || strings.HasPrefix(l.Text, "//go:linkname") {
			return true
		}
	}
	return false
}

// apply changes the text of a file.
func (s *state) apply(path string, src []byte) []byte {
	l := append([]int(nil), s.ren[path]...)
	sort.Sort(sort.Reverse(sort.IntSlice(l)))
	t := string(src)
	for _, off := range l {
		t = t[:off] + fmt.Sprintf("%s%d", initName, off) + t[off+len("init"):]
	}
	return []byte(t + s.app[path])
}
