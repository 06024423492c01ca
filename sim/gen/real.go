package gen

import (
	"bytes"
	htmpl "html/template"
	"reflect"
	ttmpl "text/template"

	"verifsim/u/alpha"
	betapkg "verifsim/u/go-beta"
	alpha2 "verifsim/u/two/alpha"
)

// The types behind the names of realNames, by package.
var realNames = [][]string{
	{"T0", "T1", "I0"},
	{"T0", "T1", "I0"},
	{"T0", "T1", "I0"},
	{"Buffer", "Reader"},
	{"Template", "FuncMap"},
	{"Template", "HTML"},
}

var realPaths = []string{
	"verifsim/u/alpha", "verifsim/u/two/alpha", "verifsim/u/go-beta", "bytes", "text/template", "html/template",
}

var realTypes = [][]reflect.Type{
	{reflect.TypeOf(alpha.T0{}), reflect.TypeOf(alpha.T1(0)), reflect.TypeOf((*alpha.I0)(nil)).Elem()},
	{reflect.TypeOf(alpha2.T0{}), reflect.TypeOf(alpha2.T1(nil)), reflect.TypeOf((*alpha2.I0)(nil)).Elem()},
	{reflect.TypeOf(betapkg.T0{}), reflect.TypeOf(betapkg.T1(nil)), reflect.TypeOf((*betapkg.I0)(nil)).Elem()},
	{reflect.TypeOf(bytes.Buffer{}), reflect.TypeOf(bytes.Reader{})},
	{reflect.TypeOf(ttmpl.Template{}), reflect.TypeOf(ttmpl.FuncMap(nil))},
	{reflect.TypeOf(htmpl.Template{}), reflect.TypeOf(htmpl.HTML(""))},
}

func realType(path, name string) reflect.Type {
	for i, p := range realPaths {
		if p == path {
			for j, n := range realNames[i] {
				if n == name {
					return realTypes[i][j]
				}
			}
		}
	}
	panic("gen: no type " + path + "." + name)
}

// Types that package reflect cannot construct, with their descriptions. In
// the descriptions, packages are indexes into realPaths.
var staticTypes = []struct {
	RT reflect.Type
	T  *Type
}{
	{reflect.TypeOf((*interface {
		M0(alpha.T0, ...betapkg.T1) alpha2.T0
		M1() (error, *alpha.T1)
	})(nil)).Elem(), &Type{K: TIface, Methods: []Method{
		{"M0", &Sig{Args: []Param{{T: rn(0, "T0")}, {T: sl(rn(2, "T1"))}}, Results: []Param{{T: rn(1, "T0")}}, Variadic: true}},
		{"M1", &Sig{Results: []Param{{T: rn(Universe, "error")}, {T: &Type{K: TPtr, Elem: rn(0, "T1")}}}}},
	}}},
	{reflect.TypeOf(struct {
		alpha.T0
		F1 alpha2.T0 `json:"x"`
	}{}), &Type{K: TStruct, Fields: []Field{
		{T: rn(0, "T0")}, {Name: "F1", T: rn(1, "T0"), Tag: `json:"x"`},
	}}},
	{reflect.TypeOf(struct {
		F0 map[alpha.I0]struct{ F0 *alpha2.T1 }
		*betapkg.T0
	}{}), &Type{K: TStruct, Fields: []Field{
		{Name: "F0", T: &Type{K: TMap, Key: rn(0, "I0"), Elem: &Type{K: TStruct, Fields: []Field{{Name: "F0", T: &Type{K: TPtr, Elem: rn(1, "T1")}}}}}},
		{T: &Type{K: TPtr, Elem: rn(2, "T0")}},
	}}},
	{reflect.TypeOf((func(alpha.T1, alpha2.I0) <-chan betapkg.I0)(nil)), &Type{K: TFunc, Sig: &Sig{
		Args:    []Param{{T: rn(0, "T1")}, {T: rn(1, "I0")}},
		Results: []Param{{T: &Type{K: TChan, Dir: reflect.RecvDir, Elem: rn(2, "I0")}}},
	}}},
}

func rn(pkg int, name string) *Type {
	return &Type{K: TNamed, Ref: Ref{Pkg: pkg, Name: name, NoName: true}}
}

func sl(t *Type) *Type { return &Type{K: TSlice, Elem: t} }

// bindStatic returns a copy whose packages are those of the universe, or nil
// if one is missing there.
func (g *generator) bindStatic(t *Type) *Type {
	if t == nil {
		return nil
	}
	c := *t
	ok := true
	bind := func(t *Type) *Type {
		if t == nil {
			return nil
		}
		b := g.bindStatic(t)
		if b == nil {
			ok = false
		}
		return b
	}
	sig := func(s *Sig) *Sig {
		if s == nil {
			return nil
		}
		n := &Sig{Variadic: s.Variadic}
		for _, p := range s.Args {
			n.Args = append(n.Args, Param{p.Name, bind(p.T)})
		}
		for _, p := range s.Results {
			n.Results = append(n.Results, Param{p.Name, bind(p.T)})
		}
		return n
	}
	if c.K == TNamed && c.Ref.Pkg != Universe {
		found := false
		for i, p := range g.s.Pkgs {
			if p.Path == realPaths[t.Ref.Pkg] {
				c.Ref.Pkg = i
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	c.Elem, c.Key, c.Sig = bind(t.Elem), bind(t.Key), sig(t.Sig)
	c.Fields, c.Methods = nil, nil
	for _, f := range t.Fields {
		c.Fields = append(c.Fields, Field{f.Name, f.Tag, bind(f.T)})
	}
	for _, m := range t.Methods {
		c.Methods = append(c.Methods, Method{m.Name, sig(m.Sig)})
	}
	if !ok {
		return nil
	}
	return &c
}
