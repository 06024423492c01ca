package gen

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// walker writes the template that prints a piece of data and what it prints.
type walker struct {
	s *Spec
	e *expecter // nil: only the template is wanted
	t strings.Builder
	x strings.Builder
}

func (w *walker) stmt(expr string, expected func(e *expecter) string) {
	w.t.WriteString("use(" + expr + ")\n")
	if w.e != nil {
		w.x.WriteString("use(" + expected(w.e) + ")\n")
	}
}

func (w *walker) root(t *Tmpl) {
	if t.Yield {
		w.t.WriteString("{{yield}}")
	}
	w.node(t.Data, ".")
	if t.Yield {
		w.t.WriteString("{{yield}}")
	}
	switch t.Fail {
	case AFail:
		w.t.WriteString("{{fail}}")
	case ABoom:
		w.t.WriteString("{{boom}}")
	}
}

func (w *walker) refLeaf(path string, r Ref) {
	w.stmt("{{"+path+"}}", func(e *expecter) string { return e.ref(r) })
}

// path prints the import path of the package that something is in.
func (w *walker) path(path string, r Ref) {
	w.stmt("{{printf \"%q\" ("+path+")}}", func(e *expecter) string {
		p := ""
		if r.Pkg != Universe {
			p = w.s.Pkgs[r.Pkg].Path
		}
		return strconv.Quote(p)
	})
}

func (w *walker) typLeaf(path string, t *Type) {
	w.stmt("new({{"+path+"}})", func(e *expecter) string { return "new(" + e.typ(t) + ")" })
}

func field(path, name string) string {
	if path == "." {
		return "." + name
	}
	return "(" + path + ")." + name
}

func (w *walker) node(n *Node, path string) {
	switch n.K {
	case NLeaf:
		a := n.Arg
		switch a.K {
		case APkg, APkgPtr, APkgGo:
			w.stmt("{{"+path+"}}."+a.Name, func(e *expecter) string { return e.arg(a, true) + "." + a.Name })
		case AType, AReflect, AGoType, AAnon:
			w.stmt("new({{"+path+"}})", func(e *expecter) string { return "new(" + e.arg(a, true) + ")" })
		default:
			w.stmt("{{"+path+"}}", func(e *expecter) string { return e.arg(a, true) })
		}
		// what it refers to stays the same
		switch {
		case a.K == ASym || a.K == ASymPtr:
			w.path(field(path, "Package.ImportPath"), a.Ref)
		case a.K == AMethRef || a.K == AMethRefPtr:
			w.path(field(path, "Type.Package.ImportPath"), a.Ref)
		case a.K == ADecl && a.D.Recv == nil && len(a.D.Names) == 1:
			w.path(field(path, "ToSymbol.Package.ImportPath"), w.s.declRef(a.D))
		}
	case NStruct:
		w.refLeaf(field(path, "Sym"), n.Refs[0])
		w.refLeaf(field(path, "PSym"), n.Refs[1])
		w.refLeaf(field(path, "MR.Type"), n.Refs[2])
		w.typLeaf(field(path, "T"), n.T)
		w.node(n.Kids[0], field(path, "A"))
		if len(n.Kids) > 1 {
			w.node(n.Kids[1], field(path, "B"))
		}
	case NHid:
		w.refLeaf(field(path, "GetSym"), n.Refs[0])
		w.refLeaf(field(path, "GetPSym"), n.Refs[1])
		w.refLeaf(field(path, "GetMR.Type"), n.Refs[2])
		w.typLeaf(field(path, "GetT"), n.T)
		w.node(n.Kids[0], field(path, "GetA"))
		if len(n.Kids) > 1 {
			w.node(n.Kids[1], "index ("+field(path, "GetL")+") 0")
		}
	case NList:
		for i, k := range n.Kids {
			w.node(k, fmt.Sprintf("index (%s) %d", path, i))
		}
	case NIntMap:
		for i, k := range n.Kids {
			w.node(k, fmt.Sprintf("index (%s) %d", path, i*5%97))
		}
	case NMap:
		for i, k := range n.Kids {
			w.node(k, fmt.Sprintf("index (%s) %q", path, n.Keys[i]))
		}
	case NSyms, NArr:
		w.t.WriteString("{{range " + path + "}}use({{.}})\n{{end}}")
		if w.e != nil {
			for _, r := range n.Refs {
				w.x.WriteString("use(" + w.e.ref(r) + ")\n")
			}
		}
	case NTypes:
		w.t.WriteString("{{range " + path + "}}use(new({{.}}))\n{{end}}")
		if w.e != nil {
			for _, k := range n.Kids {
				w.x.WriteString("use(new(" + w.e.typ(k.T) + "))\n")
			}
		}
	case NSymMap:
		w.t.WriteString("{{range $k, $v := " + path + "}}use({{$k}}, {{$v}})\n{{end}}")
		if w.e != nil {
			for _, i := range w.s.SortedRefs(n) {
				fmt.Fprintf(&w.x, "use(%s, %d)\n", w.e.ref(n.Refs[i]), i)
			}
		}
	case NAnyMap:
		w.t.WriteString("{{range $k, $v := " + path + "}}use({{$k}})\n")
		w.t.WriteString("{{end}}")
		if w.e != nil {
			for _, i := range w.s.SortedRefs(n) {
				fmt.Fprintf(&w.x, "use(%s)\n", w.e.ref(n.Refs[i]))
			}
			w.e.may(func() {
				for _, k := range n.Kids {
					(&walker{s: w.s, e: w.e}).node(k, ".")
				}
			})
		}
	case NKeyMap:
		if w.e != nil {
			w.e.may(func() {
				for _, r := range n.Refs {
					w.e.ref(r)
				}
			})
		}
	case NPtr:
		w.node(n.Kids[0], path)
	case NSig:
		w.sig(n.Sig, path)
	case NPkgs:
		w.t.WriteString("use({{" + field(path, "Pkg") + "}}.S1, {{" + field(path, "PP") + "}}.S2)\n")
		if w.e != nil {
			w.x.WriteString("use(" + w.e.ref(n.Refs[0]) + ", " + w.e.ref(n.Refs[1]) + ")\n")
		}
	case NMisc:
		w.refLeaf(field(path, "Emb"), n.Refs[0])
		w.refLeaf(field(path, "E1.Emb"), n.Refs[0])
		w.t.WriteString("{{range " + field(path, "PS") + "}}{{if .}}use({{.}})\n{{end}}{{end}}")
		if w.e != nil {
			for _, r := range n.Refs[1:3] {
				w.x.WriteString("use(" + w.e.ref(r) + ")\n")
			}
		}
		for i, m := range []string{"m", "n"} {
			r := n.Refs[3+i]
			p := "index (" + field(path, "MM") + ") \"" + m + "\""
			w.stmt("{{"+p+"}}", func(e *expecter) string { return e.ref(r) + "." + strings.ToUpper(m) })
			w.path(field(p, "Type.Package.ImportPath"), r)
		}
		for i, k := range n.Kids {
			w.node(k, fmt.Sprintf("index (%s) %d", field(path, "Any"), i))
		}
		w.t.WriteString("{{range index (" + field(path, "MT") + ") \"t\"}}use(new({{.}}))\n{{end}}")
		if w.e != nil {
			x := w.e.typ(n.T)
			w.x.WriteString("use(new(" + x + "))\nuse(new(*" + x + "))\n")
		}
		w.sig(n.Sig, field(path, "SG"))
		w.typLeaf(field(path, "PT"), n.T)
		w.refLeaf(field(path, "PPS"), n.Refs[5])
		if len(n.Refs) > 6 {
			w.t.WriteString("use({{index (" + field(path, "MP") + ") \"p\"}}.S1)\n")
			if w.e != nil {
				w.x.WriteString("use(" + w.e.ref(n.Refs[6]) + ")\n")
			}
		}
	case NKeys:
		w.t.WriteString("{{range $k, $v := " + field(path, "S") + "}}use({{$k.N}}, {{$k.Sym}}, {{$v}})\n{{end}}")
		w.t.WriteString("{{range $k, $v := " + field(path, "A") + "}}use({{index $k 0}}, {{index $k 1}}, {{$v}})\n{{end}}")
		w.t.WriteString("{{range $k, $v := " + field(path, "P") + "}}use({{$k}}, {{$v}})\n{{end}}")
		for i, x := range []string{"{{$k}}", "{{$k.Sym}}", "{{index $k 0}}, {{index $k 1}}"} {
			fmt.Fprintf(&w.t, "{{range $k, $v := %s}}{{if eq $v %d}}use(%s)\n{{end}}{{end}}", field(path, "I"), 7+2*i, x)
		}
		if e := w.e; e != nil {
			r := func(i int) string { return e.ref(n.Refs[i]) }
			fmt.Fprintf(&w.x, "use(1, %s, 2)\nuse(2, %s, 1)\nuse(3, %s, 3)\n", r(1), r(0), r(2))
			// maps are visited in the order of their keys
			first, second := 3, 4
			if w.s.Path(n.Refs[3].Pkg) > w.s.Path(n.Refs[4].Pkg) {
				first, second = second, first
			}
			fmt.Fprintf(&w.x, "use(%s, %s, %d)\nuse(%s, %s, %d)\n", r(2), r(first), first+1, r(2), r(second), second+1)
			fmt.Fprintf(&w.x, "use(%s, 6)\n", r(3))
			fmt.Fprintf(&w.x, "use(%s)\nuse(%s)\nuse(%s, %s)\n", r(1), r(3), r(4), r(0))
		}
	case NKinds:
		l := reflect.ValueOf(mapKeys[n.Sel](func(n int) []*KP {
			l := make([]*KP, n)
			for i := range l {
				l[i] = &KP{}
			}
			return l
		})).Len() + len(n.Kids)
		for i := 0; i < l; i++ {
			// in an order that does not depend on that of the keys
			fmt.Fprintf(&w.t, "{{range %s}}{{if eq .N %d}}use({{.Sym}})\n{{end}}{{end}}", path, i+1)
			if w.e != nil {
				w.x.WriteString("use(" + w.e.ref(n.Refs[i]) + ")\n")
			}
		}
		if w.e != nil {
			w.e.may(func() {
				for _, k := range n.Kids {
					w.e.names(k.Arg.D)
				}
			})
		}
	case NIfcs:
		w.node(n.Kids[0], field(path, "St"))
		w.stmt("new({{"+field(path, "TS")+"}})", func(e *expecter) string { return "new(" + e.tos(n.TOS) + ")" })
		w.refLeaf("index ("+field(path, "SM")+") 0", n.Refs[0])
		w.refLeaf("("+"index ("+field(path, "SM")+") 1).Type", n.Refs[1])
		w.refLeaf(field(path, "L.Sym"), n.Refs[2])
		w.refLeaf(field(path, "L.Next.Sym"), n.Refs[3])
		w.refLeaf(field(path, "L.Next.Next.Sym"), n.Refs[2])
		for i, k := range []string{`"a" 0`, `"a" 1`, `"c" 2`} {
			w.refLeaf("index ("+field(path, "NM")+") "+k, n.Refs[3+i])
		}
		for i, k := range []string{"SL", "PSL", "Same"} {
			w.t.WriteString("{{range " + field(path, k) + "}}use({{.}})\n{{end}}")
			if w.e != nil {
				a := [][2]int{{5, 6}, {7, 0}, {6, 6}}[i]
				fmt.Fprintf(&w.x, "use(%s)\nuse(%s)\n", w.e.ref(n.Refs[a[0]]), w.e.ref(n.Refs[a[1]]))
			}
		}
		w.t.WriteString("{{range " + field(path, "AS") + "}}use({{.Symbol}}, {{.N}})\n{{end}}")
		if w.e != nil {
			fmt.Fprintf(&w.x, "use(%s, 1)\nuse(%s, 2)\n", w.e.ref(n.Refs[8]), w.e.ref(n.Refs[1]))
		}
		w.t.WriteString("{{range " + field(path, "TP") + "}}{{if .}}use(new({{.}}))\n{{end}}{{end}}")
		if w.e != nil {
			w.x.WriteString("use(new(" + w.e.typ(n.T) + "))\n")
		}
		if len(n.Kids) > 1 {
			w.node(n.Kids[1], "index ("+field(path, "Any")+") 1")
		}
	case NLocal:
		for _, x := range [][2]string{{"C", "cl"}, {"CS", "cm, cn"}, {"V", "vl"}, {"T", "tl"}, {"F", "fl"}} {
			w.stmt("{{"+field(path, x[0])+"}}", func(e *expecter) string { return x[1] })
		}
		w.stmt("{{index ("+field(path, "VS")+") 0}}", func(e *expecter) string { return "vm, vn" })
		w.refLeaf(field(path, "Sym"), n.Refs[0])
	case NDecls:
		for i, name := range []string{"VS", "CS", "FM"} {
			w.t.WriteString("{{range " + field(path, name) + "}}use({{.}})\n{{end}}")
			if w.e != nil {
				for _, k := range n.Kids[i].Kids {
					w.x.WriteString("use(" + w.e.names(k.Arg.D) + ")\n")
				}
			}
		}
		if len(n.Kids[3].Kids) > 0 {
			d := n.Kids[3].Kids[0].Arg.D
			p := "index (" + field(path, "TS") + ") 0"
			w.stmt("{{"+field(p, "ToSymbol")+"}}", func(e *expecter) string { return e.ref(w.s.declRef(d)) })
			w.path(field(p, "ToSymbol.Package.ImportPath"), w.s.declRef(d))
		}
		if n.Arg != nil {
			m := n.Arg.D.Elems[n.Arg.Elem]
			w.stmt("{{"+field(path, "IM.Name")+"}}", func(e *expecter) string { return m.Name })
			w.sig(m.Sig, field(path, "IM"))
		}
		w.refLeaf(field(path, "IE.Type"), n.Refs[0])
		if el := n.Element; el != nil {
			p := field(path, "FE")
			if el.Kind == DFunc {
				w.stmt("{{"+p+"}}", func(e *expecter) string { return e.names(el.Decls[0]) })
			} else {
				name := []string{"Consts", "Vars", "Types"}[el.Kind]
				w.t.WriteString("{{range " + field(p, name) + "}}use({{.}})\n{{end}}")
				if w.e != nil {
					for _, d := range el.Decls {
						w.x.WriteString("use(" + w.e.names(d) + ")\n")
					}
				}
			}
		}
	case NTyped:
		for i, k := range n.Kids {
			if k != nil {
				w.node(k, field(path, []string{"TS", "F", "V"}[i]))
			}
		}
	}
}

// sig prints the types of the arguments and results.
func (w *walker) sig(s *Sig, path string) {
	for _, l := range []string{"Args", "Results"} {
		w.t.WriteString("{{range " + field(path, l) + "}}use(new({{.Type}}))\n{{end}}")
	}
	if w.e != nil {
		for _, p := range append(append([]Param(nil), s.Args...), s.Results...) {
			w.x.WriteString("use(new(" + w.e.typ(p.T) + "))\n")
		}
	}
}
