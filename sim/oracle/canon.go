// Package oracle judges generated source and compares states.
package oracle

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifsim/gen"
)

// binding of file-scope package names to import paths.
type binding map[string]string

// canon is a text form of a file without positions, comments, imports and
// redundant parentheses, in which references to other packages show import
// paths instead of names.
func canon(f *ast.File, b binding) string {
	c := &canonizer{b: b}
	c.str("package " + f.Name.Name)
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		c.node(reflect.ValueOf(d))
		c.str("\n")
	}
	return c.out.String()
}

type canonizer struct {
	b   binding
	out strings.Builder
}

func (c *canonizer) str(s string) { c.out.WriteString(s) }

var (
	posType     = reflect.TypeOf(token.NoPos)
	commentType = reflect.TypeOf((*ast.CommentGroup)(nil))
	objectType  = reflect.TypeOf((*ast.Object)(nil))
	scopeType   = reflect.TypeOf((*ast.Scope)(nil))
)

func (c *canonizer) node(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			c.str("-")
			return
		}
		c.node(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			c.str("-")
			return
		}
		switch n := v.Interface().(type) {
		case *ast.ParenExpr:
			c.node(reflect.ValueOf(n.X))
			return
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				if p, ok := c.b[x.Name]; ok {
					c.str("⟨" + p + "⟩." + n.Sel.Name + " ")
					return
				}
			}
		case *ast.Ident:
			c.str(n.Name + " ")
			return
		case *ast.BasicLit:
			val := n.Value
			if n.Kind == token.STRING {
				if s, err := strconv.Unquote(val); err == nil {
					val = strconv.Quote(s)
				}
			}
			c.str(val + " ")
			return
		case *ast.FieldList:
			c.str("(")
			for _, f := range n.List {
				// (a, b T) means (a T, b T)
				if len(f.Names) == 0 {
					c.node(reflect.ValueOf(f))
					continue
				}
				for _, name := range f.Names {
					g := *f
					g.Names = []*ast.Ident{name}
					c.node(reflect.ValueOf(&g))
				}
			}
			c.str(")")
			return
		case *ast.EmptyStmt:
			return
		case *ast.InterfaceType:
			// the order of methods means nothing
			var l []string
			for _, f := range n.Methods.List {
				m := &canonizer{b: c.b}
				m.node(reflect.ValueOf(f))
				l = append(l, m.out.String())
			}
			sort.Strings(l)
			c.str("interface{" + strings.Join(l, ";") + "}")
			return
		}
		c.node(v.Elem())
	case reflect.Struct:
		c.str(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			switch f.Type {
			case posType, commentType, objectType, scopeType:
				if f.Name == "Ellipsis" || f.Name == "Assign" && v.Type().Name() == "TypeSpec" {
					// whether there is one matters
					c.str(fmt.Sprint(v.Field(i).Interface().(token.Pos).IsValid()))
				}
				continue
			}
			c.node(v.Field(i))
		}
		c.str("}")
	case reflect.Slice:
		c.str("[")
		for i := 0; i < v.Len(); i++ {
			c.node(v.Index(i))
		}
		c.str("]")
	default:
		c.str(fmt.Sprint(v.Interface()) + " ")
	}
}

// Canon is the canonical form of a source without imports, in which the
// given names stand for packages.
func Canon(src string, names map[string]string) (string, error) {
	af, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	return canon(af, names), nil
}

// CanonFile is the canonical form of a generated source, with the packages
// that its imports give names to.
func CanonFile(s *gen.Spec, src string) (string, error) {
	af, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	b := binding{}
	for _, p := range s.Pkgs {
		for _, i := range imports(af) {
			if i.Path == p.Path && i.Alias == "" {
				b[p.Name] = p.Path
			}
		}
	}
	for _, i := range imports(af) {
		if i.Alias != "" {
			b[i.Alias] = i.Path
		}
	}
	return canon(af, b), nil
}

// Placeholders maps the placeholders of a program to import paths.
func Placeholders(s *gen.Spec) map[string]string {
	b := binding{}
	for i, p := range s.Pkgs {
		b[gen.Placeholder(i)] = p.Path
	}
	return b
}

// Import is an import of a generated file.
type Import struct{ Alias, Path string }

func imports(f *ast.File) []Import {
	var l []Import
	for _, s := range f.Imports {
		i := Import{}
		i.Path, _ = strconv.Unquote(s.Path.Value)
		if s.Name != nil {
			i.Alias = s.Name.Name
		}
		l = append(l, i)
	}
	return l
}

// Want is an expected file, parsed.
type Want struct {
	X     *gen.Expected
	s     *gen.Spec
	f     *gen.File
	canon string
}

// Expect prepares the expectation for a file.
func Expect(s *gen.Spec, f *gen.File) (*Want, error) {
	x := s.Expect(f)
	w := &Want{X: x, s: s, f: f}
	af, err := parser.ParseFile(token.NewFileSet(), "", x.Source, parser.SkipObjectResolution)
	if err != nil {
		return nil, fmt.Errorf("expected source does not parse: %v\n%s", err, x.Source)
	}
	b := binding{}
	for i, p := range s.Pkgs {
		b[gen.Placeholder(i)] = p.Path
	}
	w.canon = canon(af, b)
	return w, nil
}

// References checks that every reference in src resolves to the package it
// is meant for and that the imports are the right ones. extra tells which
// packages may be imported besides those that the file needs.
func (w *Want) References(src []byte, extra func(path string) bool) error {
	af, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
	if err != nil {
		return fmt.Errorf("generated source does not parse: %v", err)
	}
	declared := map[string]string{}
	for _, p := range w.s.Pkgs {
		declared[p.Path] = p.Name
	}
	own := w.s.Pkgs[w.f.Pkg].Path
	must, may := map[string]bool{}, map[string]bool{}
	for p := range w.X.Must {
		must[w.s.Pkgs[p].Path] = true
	}
	for p := range w.X.May {
		may[w.s.Pkgs[p].Path] = true
	}
	b := binding{}
	seen := map[string]bool{}
	for _, i := range imports(af) {
		name := i.Alias
		if name == "" {
			name = declared[i.Path]
		}
		if i.Path == own {
			return fmt.Errorf("the file imports its own package %q", i.Path)
		}
		if !must[i.Path] && !may[i.Path] && (extra == nil || !extra(i.Path)) {
			return fmt.Errorf("import of %q, which is neither referenced nor registered", i.Path)
		}
		if seen[i.Path] {
			return fmt.Errorf("%q is imported twice", i.Path)
		}
		seen[i.Path] = true
		if name == "" {
			return fmt.Errorf("%q is imported without an alias although its name is unknown", i.Path)
		}
		if !token.IsIdentifier(name) || name == "_" {
			return fmt.Errorf("%q is imported as %q, which is no identifier", i.Path, name)
		}
		if other, ok := b[name]; ok {
			return fmt.Errorf("%q and %q are both imported as %s", other, i.Path, name)
		}
		b[name] = i.Path
	}
	for p := range must {
		if !seen[p] {
			return fmt.Errorf("%q is not imported", p)
		}
	}
	got := canon(af, b)
	if got != w.canon {
		i := 0
		for i < len(got) && i < len(w.canon) && got[i] == w.canon[i] {
			i++
		}
		lo := i - 80
		if lo < 0 {
			lo = 0
		}
		return fmt.Errorf("references differ: want …%s… got …%s…", clip(w.canon, lo, i+60), clip(got, lo, i+60))
	}
	return nil
}

func clip(s string, lo, hi int) string {
	if hi > len(s) {
		hi = len(s)
	}
	if lo > hi {
		lo = hi
	}
	return s[lo:hi]
}

// Complete checks that src has the declarations it should have, in order.
func (w *Want) Complete(src []byte) error {
	af, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
	if err != nil {
		return fmt.Errorf("generated source does not parse: %v", err)
	}
	var names []string
	for _, d := range af.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			names = append(names, d.Name.Name)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					for _, n := range s.Names {
						names = append(names, n.Name)
					}
				case *ast.TypeSpec:
					names = append(names, s.Name.Name)
				}
			}
		}
	}
	if !reflect.DeepEqual(names, w.X.Names) && len(names)+len(w.X.Names) > 0 {
		return fmt.Errorf("declarations are %v instead of %v", names, w.X.Names)
	}
	return nil
}

// Tokens has the tokens of a source that need not be valid, without its
// imports, comments, punctuation that may vary and qualifiers, in sorted
// order.
func Tokens(src []byte) []string {
	var sc scanner.Scanner
	fs := token.NewFileSet()
	sc.Init(fs.AddFile("", fs.Base(), len(src)), src, func(token.Position, string) {}, 0)
	type tok struct {
		t   token.Token
		lit string
	}
	var l []tok
	for {
		_, t, lit := sc.Scan()
		if t == token.EOF {
			break
		}
		l = append(l, tok{t, lit})
	}
	var out []string
	for i := 0; i < len(l); i++ {
		t := l[i]
		switch t.t {
		case token.LPAREN, token.RPAREN, token.SEMICOLON, token.COMMA:
			continue
		case token.IMPORT:
			// one import or a group of them
			if i+1 < len(l) && l[i+1].t == token.LPAREN {
				for i < len(l) && l[i].t != token.RPAREN {
					i++
				}
			} else {
				for i < len(l) && l[i].t != token.STRING {
					i++
				}
			}
			continue
		case token.IDENT:
			if i+1 < len(l) && l[i+1].t == token.PERIOD {
				out = append(out, "qualifier")
				continue
			}
		case token.STRING:
			if s, err := strconv.Unquote(t.lit); err == nil {
				t.lit = strconv.Quote(s)
			}
		}
		if t.lit == "" {
			t.lit = t.t.String()
		}
		out = append(out, t.lit)
	}
	sort.Strings(out)
	return out
}

// SortedStrings is a sorted copy.
func SortedStrings(l []string) []string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return l
}
