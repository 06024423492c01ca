package gen

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Expected is what a file has to look like.
type Expected struct {
	// Source refers to package N by the name Placeholder(N); it has no
	// imports.
	Source string
	Must   map[int]bool // packages that are referenced or registered
	May    map[int]bool // packages that may be imported as well
	Names  []string     // of the declarations, in order
	// Named and Unnamed are the packages for which a reference tells or does
	// not tell what they are called.
	Named, Unnamed map[int]bool
}

// Placeholder stands for the name of a package in Expected.Source.
func Placeholder(pkg int) string { return fmt.Sprintf("Rq%d_", pkg) }

// Expect describes the file.
func (s *Spec) Expect(f *File) *Expected {
	e := s.expecter(f.Pkg)
	fmt.Fprintf(&e.b, "package %s\n", s.OwnName(f))
	for _, r := range f.Regs {
		e.must(r.Ref)
	}
	for _, el := range f.Elements {
		e.element(el)
	}
	e.x.Source = e.b.String()
	return e.x
}

// OwnName is the name in the package clause.
func (s *Spec) OwnName(f *File) string { return s.Pkgs[f.Pkg].Name }

type expecter struct {
	s   *Spec
	own int
	b   strings.Builder
	x   *Expected
	// printing suppresses output: only imports are collected
	quiet bool
}

func (e *expecter) must(r Ref) {
	p := r.Pkg
	if p == Universe || p == e.own {
		return
	}
	named := !r.NoName && e.s.Pkgs[p].Name != ""
	if e.s.Pkgs[p].Path == "unsafe" {
		e.x.Named[p], e.x.Unnamed[p] = true, true
	} else if named {
		e.x.Named[p] = true
	} else {
		e.x.Unnamed[p] = true
	}
	if e.quiet {
		e.x.May[p] = true
	} else {
		e.x.Must[p] = true
	}
}

func (e *expecter) may(f func()) {
	q := e.quiet
	e.quiet = true
	f()
	e.quiet = q
}

func (e *expecter) ref(r Ref) string {
	if r.Pkg == Universe || r.Pkg == e.own {
		return r.Name
	}
	e.must(r)
	return fmt.Sprintf("%s.%s", Placeholder(r.Pkg), r.Name)
}

func (s *Spec) declRef(d *Decl) Ref { return Ref{Pkg: s.Files[d.File].Pkg, Name: d.Names[0]} }

func tagText(t string) string {
	if t == "" {
		return ""
	}
	return " " + strconv.Quote(t)
}

func (e *expecter) typ(t *Type) string {
	if t.From != nil && t.FromWhat == 1 {
		return e.body(t.From)
	}
	switch t.K {
	case TBasic:
		switch t.Basic {
		case reflect.Uint8:
			return "byte"
		case reflect.Int32:
			return "rune"
		}
		return t.Basic.String()
	case TNamed:
		return e.ref(t.Ref)
	case TPtr:
		return "*" + e.typ(t.Elem)
	case TSlice:
		return "[]" + e.typ(t.Elem)
	case TArray:
		return fmt.Sprintf("[%d]%s", t.Len, e.typ(t.Elem))
	case TMap:
		return "map[" + e.typ(t.Key) + "]" + e.typ(t.Elem)
	case TChan:
		switch t.Dir {
		case reflect.RecvDir:
			return "<-chan (" + e.typ(t.Elem) + ")"
		case reflect.SendDir:
			return "chan<- (" + e.typ(t.Elem) + ")"
		}
		return "chan (" + e.typ(t.Elem) + ")"
	case TFunc:
		return "func" + e.sig(t.Sig)
	case TStruct:
		var l []string
		for _, f := range t.Fields {
			x := e.typ(f.T) + tagText(f.Tag)
			if f.Name != "" {
				x = f.Name + " " + x
			}
			l = append(l, x)
		}
		return "struct{" + strings.Join(l, "; ") + "}"
	case TIface:
		var l []string
		for _, r := range t.Embeds {
			l = append(l, e.ref(r))
		}
		for _, m := range t.Methods {
			l = append(l, m.Name+e.sig(m.Sig))
		}
		return "interface{" + strings.Join(l, "; ") + "}"
	}
	panic("gen: bad type")
}

func (e *expecter) sig(s *Sig) string {
	list := func(ps []Param, variadic bool) string {
		named := false
		for _, p := range ps {
			named = named || p.Name != ""
		}
		var l []string
		for i, p := range ps {
			var x string
			if variadic && i == len(ps)-1 {
				x = "..." + e.typ(p.T.Elem)
			} else {
				x = e.typ(p.T)
			}
			if named {
				n := p.Name
				if n == "" {
					n = "_"
				}
				x = n + " " + x
			}
			l = append(l, x)
		}
		return "(" + strings.Join(l, ", ") + ")"
	}
	x := list(s.Args, s.Variadic)
	if len(s.Results) > 0 {
		x += " " + list(s.Results, false)
	}
	return x
}

func (e *expecter) tos(t *TOS) string {
	switch {
	case t.Spec != nil:
		return e.ref(e.s.declRef(t.Spec))
	case t.Anon != nil:
		return e.body(t.Anon)
	}
	return e.typ(t.T)
}

func (e *expecter) body(d *Decl) string {
	switch d.TS {
	case TSStruct:
		var l []string
		for _, f := range d.Fields {
			x := e.tos(&f.T) + tagText(f.Tag)
			if f.Name != "" {
				x = f.Name + " " + x
			}
			l = append(l, x)
		}
		return "struct{" + strings.Join(l, "; ") + "}"
	case TSIface:
		var l []string
		for _, m := range d.Elems {
			if m.Embed != nil {
				l = append(l, e.ref(*m.Embed))
			} else {
				l = append(l, m.Name+e.sig(m.Sig))
			}
		}
		return "interface{" + strings.Join(l, "; ") + "}"
	}
	return e.tos(d.Type)
}

func (e *expecter) element(el *Element) {
	group := (len(el.Decls) > 1 || el.Comment != "") && el.Kind != DFunc
	kw := []string{"const", "var", "type", "func"}[el.Kind]
	if group {
		e.b.WriteString(kw + " (\n")
		kw = ""
	} else {
		kw += " "
	}
	for _, d := range el.Decls {
		e.x.Names = append(e.x.Names, d.Names...)
		switch d.Kind {
		case DConst, DVar:
			e.b.WriteString(kw + strings.Join(d.Names, ", "))
			if d.Type != nil {
				e.b.WriteString(" " + e.tos(d.Type))
			}
			if d.Init != nil {
				e.b.WriteString(" = ")
				e.block(d.Init)
			}
			e.b.WriteString("\n")
		case DType:
			e.b.WriteString(kw + d.Names[0] + " ")
			if d.TS == TSAlias || d.IsAlias {
				e.b.WriteString("= ")
			}
			e.b.WriteString(e.body(d) + "\n")
		case DFunc:
			e.b.WriteString("func ")
			if d.Recv != nil {
				star := ""
				if d.RecvPtr {
					star = "*"
				}
				fmt.Fprintf(&e.b, "(%s %s%s) ", d.RecvVar, star, d.Recv.Names[0])
			}
			e.b.WriteString(d.Names[0] + e.sig(d.Sig) + " {\n")
			e.block(d.Body)
			e.b.WriteString("}\n")
		}
	}
	if group {
		e.b.WriteString(")\n")
	}
}

func (e *expecter) block(b *Block) {
	for i := range b.Code {
		c := &b.Code[i]
		switch c.K {
		case CBlock:
			e.block(c.Block)
		case CTempl:
			e.b.WriteString(e.tmpl(c.T))
		default:
			for _, p := range c.Parts {
				if p.Arg == nil {
					e.b.WriteString(p.Text)
				} else {
					e.b.WriteString(e.arg(p.Arg, false))
				}
			}
			if c.Ln {
				e.b.WriteString("\n")
			}
		}
	}
}

// names returns references to everything that is declared.
func (e *expecter) names(d *Decl) string {
	var l []string
	for _, n := range d.Names {
		l = append(l, e.ref(Ref{Pkg: e.s.Files[d.File].Pkg, Name: n}))
	}
	return strings.Join(l, ", ")
}

// arg returns what an argument is printed as.
func (e *expecter) arg(a *Arg, template bool) string {
	switch a.K {
	case ASym, ASymPtr, AEmbed:
		return e.ref(a.Ref)
	case APkg, APkgPtr, APkgGo:
		e.must(a.Ref)
		return Placeholder(a.Ref.Pkg) // followed by ".Name"
	case AMethRef, AMethRefPtr, AGoMethod:
		return e.ref(a.Ref) + "." + a.Name
	case AGoObj:
		return e.ref(a.Ref)
	case AType, AReflect, AGoType:
		return e.typ(a.T)
	case ADecl:
		d := a.D
		if d.Recv != nil {
			if template {
				e.may(func() { e.ref(e.s.declRef(d)) })
				return d.Names[0]
			}
			return e.ref(e.s.declRef(d.Recv)) + "." + d.Names[0]
		}
		return e.ref(e.s.declRef(d))
	case AIfaceMethod:
		m := a.D.Elems[a.Elem]
		if template {
			e.may(func() { e.sig(m.Sig) })
			return m.Name
		}
		return e.ref(e.s.declRef(a.D)) + "." + m.Name
	case AAnon:
		return e.body(a.D)
	case ANth:
		return e.ref(Ref{Pkg: e.s.Files[a.D.File].Pkg, Name: a.D.Names[a.Elem]})
	case AStr:
		return a.Str
	case AInt:
		return strconv.Itoa(a.Elem)
	case ACallback:
		return "callback"
	}
	return "broken"
}

// tmpl returns what a template prints.
func (e *expecter) tmpl(t *Tmpl) string {
	w := &walker{s: e.s, e: e}
	w.root(t)
	return w.x.String()
}

// SortedKeys returns the keys of a set of packages in order.
func SortedKeys(m map[int]bool) []int {
	var l []int
	for k, v := range m {
		if v {
			l = append(l, k)
		}
	}
	sort.Ints(l)
	return l
}

// TypeText is the source of a type in a file of package own.
func (s *Spec) TypeText(own int, t *Type) *Expected {
	e := s.expecter(own)
	e.x.Source = e.typ(t)
	return e.x
}

// SigText is like TypeText for a signature.
func (s *Spec) SigText(own int, sig *Sig) *Expected {
	e := s.expecter(own)
	e.x.Source = e.sig(sig)
	return e.x
}

// RefText is like TypeText for a symbol.
func (s *Spec) RefText(own int, r Ref) *Expected {
	e := s.expecter(own)
	e.x.Source = e.ref(r)
	return e.x
}

// TmplText is what a template prints.
func (s *Spec) TmplText(own int, t *Tmpl) *Expected {
	e := s.expecter(own)
	e.x.Source = e.tmpl(t)
	return e.x
}

func (s *Spec) expecter(own int) *expecter {
	return &expecter{s: s, own: own, x: &Expected{Must: map[int]bool{}, May: map[int]bool{}, Named: map[int]bool{}, Unnamed: map[int]bool{}}}
}
