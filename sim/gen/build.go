package gen

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"path"
	"reflect"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
	"verifsim/u/alpha"
	alpha2 "verifsim/u/two/alpha"
)

// S1 is a struct for template data.
type S1 struct {
	Sym  gopoet.Symbol
	PSym *gopoet.Symbol
	MR   gopoet.MethodReference
	T    gopoet.TypeName
	A, B interface{}
	N    int
	none *int
	// left unset
	ZP gopoet.Package
	ZS gopoet.Symbol
	ZM gopoet.MethodReference
	ZT gopoet.TypeName
	NS *gopoet.Symbol
	NP *gopoet.Package
}

// P1 holds packages.
type P1 struct {
	Pkg gopoet.Package
	PP  *gopoet.Package
}

// D1 holds declarations.
type D1 struct {
	TS *gopoet.TypeSpec
	F  *gopoet.FuncSpec
	V  *gopoet.VarSpec
}

// H1 is like S1, but hides its fields.
type H1 struct {
	sym  gopoet.Symbol
	psym *gopoet.Symbol
	mr   *gopoet.MethodReference
	t    gopoet.TypeName
	a    interface{}
	l    []interface{}
}

func (h *H1) GetSym() gopoet.Symbol          { return h.sym }
func (h *H1) GetPSym() *gopoet.Symbol        { return h.psym }
func (h *H1) GetMR() *gopoet.MethodReference { return h.mr }
func (h *H1) GetT() gopoet.TypeName          { return h.t }
func (h *H1) GetA() interface{}              { return h.a }
func (h *H1) GetL() []interface{}            { return h.l }

// E1 is embedded in V1.
type E1 struct {
	Emb gopoet.Symbol
}

// V1 has fields of all sorts.
type V1 struct {
	E1
	PS  []*gopoet.Symbol
	MP  map[string]gopoet.Package
	MM  map[string]gopoet.MethodReference
	Any [2]interface{}
	MT  map[string][]gopoet.TypeName
	SG  *gopoet.Signature
	PT  *gopoet.TypeName
	PPS **gopoet.Symbol
	C   chan int
	Fn  func()
	Nil interface{}
	F64 float64
}

// D2 has declarations in all sorts of places.
type D2 struct {
	VS []*gopoet.VarSpec
	CS []gopoet.ConstSpec
	FM map[string]*gopoet.FuncSpec
	TS [1]gopoet.TypeSpec
	IM *gopoet.InterfaceMethod
	IE gopoet.InterfaceEmbed
	FE gopoet.FileElement
}

// D3 is template data with declarations that are not part of any file.
type D3 struct {
	C, CS *gopoet.ConstSpec
	V     gopoet.VarSpec
	VS    []*gopoet.VarSpec
	T     *gopoet.TypeSpec
	F     *gopoet.FuncSpec
	Sym   gopoet.Symbol
}

// Syms are symbols.
type Syms []gopoet.Symbol

// L1 is a list.
type L1 struct {
	Sym  gopoet.Symbol
	Next *L1
}

// I1 has fields of interface types, and types of the caller.
type I1 struct {
	St   fmt.Stringer
	TS   gopoet.TypeNameOrSpec
	SM   [2]gopoet.SymbolOrMethodRef
	L    *L1
	NM   map[string]map[int]gopoet.Symbol
	SL   Syms
	PSL  *[]gopoet.Symbol
	Same [2]*gopoet.Symbol
	AS   [2]P2
	TP   *[]gopoet.TypeName
	// what these hold cannot give way to what gopoet would put there
	GT  types.Type
	GO  types.Object
	RT  [1]reflect.Type
	Any []interface{}
}

// P2 has no pointers.
type P2 struct {
	gopoet.Symbol
	N int
}

// KS is a map key.
type KS struct {
	N   int8
	Sym gopoet.Symbol
}

// K1 has maps with keys of all sorts.
type K1 struct {
	S map[KS]int
	A map[[2]gopoet.Symbol]int
	P map[*gopoet.Symbol]int
	I map[interface{}]int
}

// KV is a map value.
type KV struct {
	N   int
	Sym gopoet.Symbol
}

// KP and KN are map keys that are told apart by what they point to.
type KP struct {
	B bool
	N int
}
type KN struct {
	P *KP
	N int
}

// Types of the same kind, for map keys.
type KA int
type KB int
type Name string

// mapKeys are keys that a map can have at the same time. The order of their
// addresses, where they are pointers, is up to alloc. The first entry is for
// pointers to declarations.
var mapKeys = []func(alloc func(n int) []*KP) interface{}{
	func(func(int) []*KP) interface{} { return []*gopoet.FuncSpec(nil) },
	func(func(int) []*KP) interface{} { return []interface{}{alpha.K(1), alpha2.K(1), KA(1)} },
	func(func(int) []*KP) interface{} { return []interface{}{KA(2), KB(1), KA(1)} },
	func(func(int) []*KP) interface{} { return []interface{}{int8(1), uint(1), int16(1)} },
	func(func(int) []*KP) interface{} { return []interface{}{nil, true, 1.5} },
	func(func(int) []*KP) interface{} { return []interface{}{[1]alpha2.K{1}, [1]alpha.K{1}, alpha2.K(1)} },
	func(func(int) []*KP) interface{} { return []interface{}{&alpha2.KS{N: 1}, &alpha.KS{N: 1}, KB(1)} },
	func(func(int) []*KP) interface{} {
		return []interface{}{struct{ F alpha2.K }{1}, struct{ F alpha.K }{1}, "s"}
	},
	func(alloc func(int) []*KP) interface{} {
		l := alloc(3)
		*l[0], *l[1], *l[2] = KP{N: 2}, KP{N: 1}, KP{B: true}
		return l
	},
	func(alloc func(int) []*KP) interface{} {
		l := alloc(2)
		*l[0], *l[1] = KP{N: 2}, KP{N: 1}
		return []*KP{l[0], nil, l[1]}
	},
	func(alloc func(int) []*KP) interface{} {
		l := alloc(3)
		*l[0], *l[1], *l[2] = KP{N: 2}, KP{N: 1}, KP{B: true}
		return []KN{{l[0], 1}, {l[1], 1}, {l[2], 0}}
	},
	func(alloc func(int) []*KP) interface{} {
		l := alloc(3)
		*l[0], *l[1], *l[2] = KP{N: 2}, KP{N: 1}, KP{N: 3}
		return []interface{}{l[0], l[1], [1]*KP{l[2]}}
	},
	func(alloc func(int) []*KP) interface{} {
		p := alloc(1)[0]
		return []KN{{p, 2}, {p, 1}, {p, 3}}
	},
	func(func(int) []*KP) interface{} { return []uintptr{3, 1, 1 << 60} },
	func(func(int) []*KP) interface{} { return []complex128{1 + 2i, 1 + 1i, 1 - 1i} },
	func(func(int) []*KP) interface{} { return []complex64{2 + 1i, 1 + 3i, -2 + 1i} },
	func(func(int) []*KP) interface{} { return []float64{0.5, -1, 1e300} },
	func(func(int) []*KP) interface{} { return []float32{0.5, 0.25, -3} },
	func(func(int) []*KP) interface{} { return []bool{true, false} },
	func(func(int) []*KP) interface{} { return []int8{-3, 5, 0} },
	func(func(int) []*KP) interface{} { return []int16{-3, 5, 0} },
	func(func(int) []*KP) interface{} { return []rune{'a', -1, 'B'} },
	func(func(int) []*KP) interface{} { return []int64{1 << 40, 1, -1 << 63} },
	func(func(int) []*KP) interface{} { return []uint8{200, 3, 100} },
	func(func(int) []*KP) interface{} { return []uint16{1 << 15, 1 << 14, 1} },
	func(func(int) []*KP) interface{} { return []uint32{1 << 31, 1, 2} },
	func(func(int) []*KP) interface{} { return []uint64{1 << 63, 1, 2} },
	func(func(int) []*KP) interface{} { return []Name{"b", "", "B"} },
	func(func(int) []*KP) interface{} { return [][2]int{{1, 2}, {1, 1}, {0, 5}} },
	func(func(int) []*KP) interface{} { return []alpha.K{3, 1, -2} },
	func(func(int) []*KP) interface{} { return []struct{ A, B string }{{"a", "c"}, {"a", "b"}, {"", "z"}} },
	func(func(int) []*KP) interface{} {
		return []struct{ A, N int }{{2, 1}, {1, 1}, {1, 2}}
	},
	func(func(int) []*KP) interface{} {
		return []struct{ A, N uint8 }{{7, 2}, {7, 1}, {7, 3}}
	},
	func(func(int) []*KP) interface{} {
		return []struct {
			A complex64
			N int
		}{{1i, 2}, {1i, 1}, {1i, 3}}
	},
	func(func(int) []*KP) interface{} {
		return []struct {
			A float64
			B bool
			N int8
		}{{0.5, true, 2}, {0.5, true, 1}, {0.5, false, 3}}
	},
	func(func(int) []*KP) interface{} {
		return []struct {
			A [2]int
			N string
		}{{[2]int{1, 2}, "b"}, {[2]int{1, 2}, "a"}, {[2]int{1, 2}, "c"}}
	},
	func(func(int) []*KP) interface{} {
		return []struct {
			A *KP
			B interface{}
			N uint
		}{{nil, nil, 2}, {nil, nil, 1}, {nil, 1, 0}}
	},
	func(func(int) []*KP) interface{} {
		return []struct {
			A interface{}
			N int
		}{{alpha.K(1), 2}, {alpha.K(1), 1}, {alpha2.K(1), 3}}
	},
	func(func(int) []*KP) interface{} {
		return []interface{}{&map[alpha2.K]int{}, &map[alpha.K]int{}, 1}
	},
	func(func(int) []*KP) interface{} {
		return []interface{}{&map[int]alpha2.K{}, &map[int]alpha.K{}, 1}
	},
	func(func(int) []*KP) interface{} {
		return []interface{}{struct {
			A int
			F alpha2.K
		}{}, struct {
			A int
			F alpha.K
		}{}, "s"}
	},
	func(func(int) []*KP) interface{} {
		return []interface{}{new([]alpha2.K), new([]alpha.K), new(alpha.K)}
	},
	func(func(int) []*KP) interface{} {
		return []interface{}{new(chan alpha2.K), new(chan alpha.K), new(*alpha2.K)}
	},
	func(func(int) []*KP) interface{} {
		return []interface{}{&[]int{1, 2}, &[]int{1}, &[]int{0, 3}}
	},
	func(func(int) []*KP) interface{} {
		return [][2]interface{}{{alpha2.K(1), 1}, {alpha.K(1), 1}, {nil, 1}}
	},
}

func (w *World) allocate(n int) []*KP {
	mem := make([]KP, n)
	l := make([]*KP, n)
	for i := range l {
		l[i] = &mem[(i*w.Layout[0]+w.Layout[1])%n]
	}
	return l
}

// Callback is code of the caller that runs while a file is rendered.
type Callback struct {
	call func(what string)
	Boom bool
}

func (c *Callback) String() string {
	if c.Boom {
		c.call("boom")
		panic("boom")
	}
	c.call("string")
	return "callback"
}

// Input is something the caller has handed to gopoet.
type Input struct {
	What string
	V    interface{}
}

// World is a program that is being built.
type World struct {
	S     *Spec
	Files []*gopoet.GoFile
	// Call is called whenever caller-supplied code runs.
	Call   func(what string)
	Inputs []Input
	// OnInput is called with everything that is about to be handed to gopoet.
	OnInput  func(i Input)
	decls    map[*Decl]interface{}
	parts    map[*Decl]int // steps of its content that have happened
	elems    map[*Decl][]gopoet.InterfaceElement
	fields   map[*Decl][]*gopoet.FieldSpec
	types    []gopoet.TypeName
	sigs     []*gopoet.Signature
	elements map[*Element]gopoet.FileElement
	blocks   []*gopoet.CodeBlock
	data     []interface{}
	tmpls    map[string]*template.Template
	goPkgs   map[Ref]*types.Package
	goTyps   map[Ref]*types.Named
	// Layout determines the order of addresses.
	Layout [2]int
}

// NewWorld makes the files and their declarations, without contents.
func NewWorld(s *Spec, call func(string)) *World { return NewWorldWith(s, call, nil) }

// NewWorldWith is NewWorld, with an observer of what is handed to gopoet.
func NewWorldWith(s *Spec, call func(string), onInput func(Input)) *World {
	w := &World{S: s, Call: call, OnInput: onInput,
		decls:    map[*Decl]interface{}{},
		parts:    map[*Decl]int{},
		elems:    map[*Decl][]gopoet.InterfaceElement{},
		fields:   map[*Decl][]*gopoet.FieldSpec{},
		types:    make([]gopoet.TypeName, len(s.Types)),
		sigs:     make([]*gopoet.Signature, len(s.Sigs)),
		elements: map[*Element]gopoet.FileElement{},
		blocks:   make([]*gopoet.CodeBlock, len(s.Blocks)+len(s.Inits)),
		data:     make([]interface{}, len(s.Data)),
		tmpls:    map[string]*template.Template{},
		goPkgs:   map[Ref]*types.Package{},
		goTyps:   map[Ref]*types.Named{},
		Layout:   [2]int{1, 0},
	}
	if call == nil {
		w.Call = func(string) {}
	}
	for _, f := range s.Files {
		gf := gopoet.NewGoFile(f.Name, s.Pkgs[f.Pkg].Path, s.OwnName(f))
		gf.FileComment = f.FileComment
		gf.PackageComment = f.PkgDoc
		gf.CanonicalImportPath = f.Canonical
		w.Files = append(w.Files, gf)
	}
	for _, el := range s.Order {
		w.shell(el)
	}
	return w
}

// Build makes the complete program.
func Build(s *Spec, call func(string)) *World {
	w := NewWorld(s, call)
	for i := range s.Files {
		w.Content(i)
	}
	return w
}

// Share makes everything in the shared pools.
func (w *World) Share() {
	for _, t := range w.S.Types {
		w.typ(t)
	}
	for _, s := range w.S.Sigs {
		w.sig(s)
	}
	for _, n := range w.S.Data {
		w.node(n)
	}
	for _, b := range append(append([]*Block(nil), w.S.Blocks...), w.S.Inits...) {
		w.block(b)
	}
}

// SharedTypes are the types in the pool.
func (w *World) SharedTypes() []gopoet.TypeName { return w.types }

// SharedData is the template data in the pool.
func (w *World) SharedData() []interface{} { return w.data }

// Decl returns what a declaration has been built as.
func (w *World) Decl(d *Decl) interface{} { return w.decls[d] }

func (w *World) input(what string, v interface{}) {
	w.Inputs = append(w.Inputs, Input{what, v})
	if w.OnInput != nil {
		w.OnInput(Input{what, v})
	}
}

func (w *World) pkg(r Ref) gopoet.Package {
	if r.Pkg == Universe {
		return gopoet.Package{}
	}
	p := w.S.Pkgs[r.Pkg]
	if r.NoName {
		return gopoet.Package{ImportPath: p.Path}
	}
	return gopoet.Package{ImportPath: p.Path, Name: p.Name}
}

// Sym returns the symbol.
func (w *World) Sym(r Ref) gopoet.Symbol {
	p := w.pkg(r)
	if r.Pkg != Universe {
		switch (len(p.ImportPath) + int(r.Name[len(r.Name)-1])) % 9 {
		case 0:
			obj := types.NewTypeName(token.NoPos, types.NewPackage(p.ImportPath, p.Name), r.Name, types.Typ[types.Int])
			return gopoet.SymbolForGoObject(obj).(gopoet.Symbol)
		case 1:
			return gopoet.PackageForGoType(types.NewPackage(p.ImportPath, p.Name)).Symbol(r.Name)
		}
	}
	if p.Name != "" && p.Name == path.Base(p.ImportPath) {
		if len(r.Name)%2 == 0 {
			return gopoet.NewSymbol(p.ImportPath, r.Name)
		}
		return p.Symbol(r.Name)
	}
	return gopoet.Symbol{Package: p, Name: r.Name}
}

// Pkg returns the package.
func (w *World) Pkg(r Ref) gopoet.Package { return w.pkg(r) }

// Type returns the type.
func (w *World) Type(t *Type) gopoet.TypeName { return w.typ(t) }

// Signature returns the signature.
func (w *World) Signature(s *Sig) *gopoet.Signature { return w.sig(s) }

func (w *World) typ(t *Type) gopoet.TypeName {
	if t.Pool > 0 {
		if w.types[t.Pool-1] == nil {
			w.types[t.Pool-1] = w.typ1(t)
			w.input("type", w.types[t.Pool-1])
		}
		return w.types[t.Pool-1]
	}
	return w.typ1(t)
}

func (w *World) typ1(t *Type) gopoet.TypeName {
	switch {
	case t.From == nil:
	case t.From.Kind == DFunc:
		return w.decls[t.From].(*gopoet.FuncSpec).ToTypeName()
	case t.K == TFunc:
		return w.elems[t.From][t.FromElem].(*gopoet.InterfaceMethod).ToTypeName()
	case t.FromWhat == 1:
		return w.decls[t.From].(*gopoet.TypeSpec).Underlying()
	default:
		return w.decls[t.From].(*gopoet.TypeSpec).ToTypeName()
	}
	switch t.Via {
	case ViaGo:
		return gopoet.TypeNameForGoType(w.goType(t))
	case ViaReflect:
		return gopoet.TypeNameForReflectType(w.rType(t))
	}
	switch t.K {
	case TBasic:
		return gopoet.BasicType(t.Basic)
	case TNamed:
		if t.Ref.Pkg == Universe && t.Ref.Name == "error" {
			return gopoet.ErrorType
		}
		return gopoet.NamedType(w.Sym(t.Ref))
	case TPtr:
		return gopoet.PointerType(w.typ(t.Elem))
	case TSlice:
		return gopoet.SliceType(w.typ(t.Elem))
	case TArray:
		return gopoet.ArrayType(w.typ(t.Elem), int64(t.Len))
	case TMap:
		return gopoet.MapType(w.typ(t.Key), w.typ(t.Elem))
	case TChan:
		return gopoet.ChannelType(w.typ(t.Elem), t.Dir)
	case TFunc:
		s := w.sig(t.Sig)
		if s.IsVariadic {
			return gopoet.FuncTypeVariadic(s.Args, s.Results)
		}
		if len(s.Args)%2 == 0 {
			return gopoet.FuncType(s.Args, s.Results)
		}
		w.input("signature", s)
		return gopoet.FuncTypeFromSig(s)
	case TStruct:
		fs := make([]gopoet.FieldType, len(t.Fields), len(t.Fields)+1)
		for i, f := range t.Fields {
			fs[i] = gopoet.FieldType{Name: f.Name, Type: w.typ(f.T), Tag: reflect.StructTag(f.Tag)}
		}
		w.input("fields", fs)
		return gopoet.StructType(fs...)
	case TIface:
		es := make([]gopoet.Symbol, len(t.Embeds), len(t.Embeds)+1)
		for i, r := range t.Embeds {
			es[i] = w.Sym(r)
		}
		ms := make([]gopoet.MethodType, len(t.Methods), len(t.Methods)+1)
		for i, m := range t.Methods {
			ms[i] = gopoet.MethodType{Name: m.Name, Signature: *w.sig(m.Sig)}
		}
		w.input("embeds", es)
		w.input("methods", ms)
		return gopoet.InterfaceType(es, ms...)
	}
	panic("gen: bad type")
}

func (w *World) sig(s *Sig) *gopoet.Signature {
	if s.Pool > 0 {
		if w.sigs[s.Pool-1] == nil {
			w.sigs[s.Pool-1] = w.sig1(s)
			w.input("shared signature", w.sigs[s.Pool-1])
		}
		return w.sigs[s.Pool-1]
	}
	return w.sig1(s)
}

func (w *World) sig1(s *Sig) *gopoet.Signature {
	r := &gopoet.Signature{IsVariadic: s.Variadic}
	for _, p := range s.Args {
		r.Args = append(r.Args, gopoet.ArgType{Name: p.Name, Type: w.typ(p.T)})
	}
	for _, p := range s.Results {
		r.Results = append(r.Results, gopoet.ArgType{Name: p.Name, Type: w.typ(p.T)})
	}
	w.input("args", r.Args)
	w.input("results", r.Results)
	return r
}

func (w *World) goPkg(r Ref) *types.Package {
	if r.Pkg == Universe {
		return nil
	}
	k := Ref{Pkg: r.Pkg, NoName: r.NoName}
	if w.goPkgs[k] == nil {
		p := w.pkg(r)
		w.goPkgs[k] = types.NewPackage(p.ImportPath, p.Name)
	}
	return w.goPkgs[k]
}

func (w *World) goNamed(r Ref) *types.Named {
	if r.Pkg == Universe {
		return types.Universe.Lookup("error").Type().(*types.Named)
	}
	if w.goTyps[r] == nil {
		tn := types.NewTypeName(token.NoPos, w.goPkg(r), r.Name, nil)
		w.goTyps[r] = types.NewNamed(tn, types.NewInterfaceType(nil, nil).Complete(), nil)
	}
	return w.goTyps[r]
}

var goBasics = map[reflect.Kind]types.BasicKind{
	reflect.Bool: types.Bool, reflect.String: types.String,
	reflect.Int: types.Int, reflect.Int8: types.Int8, reflect.Int16: types.Int16, reflect.Int32: types.Int32, reflect.Int64: types.Int64,
	reflect.Uint: types.Uint, reflect.Uint8: types.Uint8, reflect.Uint16: types.Uint16, reflect.Uint32: types.Uint32, reflect.Uint64: types.Uint64,
	reflect.Uintptr: types.Uintptr, reflect.Float32: types.Float32, reflect.Float64: types.Float64,
	reflect.Complex64: types.Complex64, reflect.Complex128: types.Complex128,
}

func (w *World) goType(t *Type) types.Type {
	switch t.K {
	case TBasic:
		return types.Typ[goBasics[t.Basic]]
	case TNamed:
		if p := w.S.Path(t.Ref.Pkg); p == "unsafe" {
			return types.Typ[types.UnsafePointer]
		}
		return w.goNamed(t.Ref)
	case TPtr:
		return types.NewPointer(w.goType(t.Elem))
	case TSlice:
		return types.NewSlice(w.goType(t.Elem))
	case TArray:
		return types.NewArray(w.goType(t.Elem), int64(t.Len))
	case TMap:
		return types.NewMap(w.goType(t.Key), w.goType(t.Elem))
	case TChan:
		d := types.SendRecv
		switch t.Dir {
		case reflect.RecvDir:
			d = types.RecvOnly
		case reflect.SendDir:
			d = types.SendOnly
		}
		return types.NewChan(d, w.goType(t.Elem))
	case TFunc:
		if as := t.Sig.Args; len(as) > 1 && as[0].T.K == TPtr && as[0].T.Elem.K == TNamed {
			// the signature of a method as a function that takes the receiver
			m := *t.Sig
			m.Args = as[1:]
			return w.goSig(types.NewParam(token.NoPos, nil, as[0].Name, w.goType(as[0].T)), &m)
		}
		return w.goSig(nil, t.Sig)
	case TStruct:
		var fs []*types.Var
		var tags []string
		for _, f := range t.Fields {
			name := f.Name
			if name == "" {
				name = f.T.Ref.Name
			}
			fs = append(fs, types.NewField(token.NoPos, nil, name, w.goType(f.T), f.Name == ""))
			tags = append(tags, f.Tag)
		}
		return types.NewStruct(fs, tags)
	case TIface:
		var ms []*types.Func
		for _, m := range t.Methods {
			ms = append(ms, types.NewFunc(token.NoPos, nil, m.Name, w.goSig(nil, m.Sig)))
		}
		var es []types.Type
		for _, r := range t.Embeds {
			if w.S.Path(r.Pkg) == "unsafe" {
				r.NoName = true // must be a named type
			}
			es = append(es, w.goNamed(r))
		}
		return types.NewInterfaceType(ms, es).Complete()
	}
	panic("gen: bad type")
}

func (w *World) goSig(recv *types.Var, s *Sig) *types.Signature {
	tuple := func(ps []Param) *types.Tuple {
		var vs []*types.Var
		for _, p := range ps {
			vs = append(vs, types.NewParam(token.NoPos, nil, p.Name, w.goType(p.T)))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(recv, nil, nil, tuple(s.Args), tuple(s.Results), s.Variadic)
}

func (w *World) rType(t *Type) reflect.Type {
	if t.Static > 0 {
		return staticTypes[t.Static-1].RT
	}
	switch t.K {
	case TBasic:
		return rBasics[t.Basic]
	case TNamed:
		return realType(w.S.Path(t.Ref.Pkg), t.Ref.Name)
	case TPtr:
		return reflect.PointerTo(w.rType(t.Elem))
	case TSlice:
		return reflect.SliceOf(w.rType(t.Elem))
	case TArray:
		return reflect.ArrayOf(t.Len, w.rType(t.Elem))
	case TMap:
		return reflect.MapOf(w.rType(t.Key), w.rType(t.Elem))
	case TChan:
		return reflect.ChanOf(t.Dir, w.rType(t.Elem))
	case TFunc:
		list := func(ps []Param) (l []reflect.Type) {
			for _, p := range ps {
				l = append(l, w.rType(p.T))
			}
			return l
		}
		return reflect.FuncOf(list(t.Sig.Args), list(t.Sig.Results), t.Sig.Variadic)
	case TStruct:
		var fs []reflect.StructField
		for _, f := range t.Fields {
			fs = append(fs, reflect.StructField{Name: f.Name, Type: w.rType(f.T), Tag: reflect.StructTag(f.Tag)})
		}
		return reflect.StructOf(fs)
	}
	panic("gen: bad reflect type")
}

var rBasics = map[reflect.Kind]reflect.Type{
	reflect.Bool: reflect.TypeOf(false), reflect.String: reflect.TypeOf(""),
	reflect.Int: reflect.TypeOf(int(0)), reflect.Int8: reflect.TypeOf(int8(0)), reflect.Int16: reflect.TypeOf(int16(0)),
	reflect.Int32: reflect.TypeOf(int32(0)), reflect.Int64: reflect.TypeOf(int64(0)),
	reflect.Uint: reflect.TypeOf(uint(0)), reflect.Uint8: reflect.TypeOf(uint8(0)), reflect.Uint16: reflect.TypeOf(uint16(0)),
	reflect.Uint32: reflect.TypeOf(uint32(0)), reflect.Uint64: reflect.TypeOf(uint64(0)), reflect.Uintptr: reflect.TypeOf(uintptr(0)),
	reflect.Float32: reflect.TypeOf(float32(0)), reflect.Float64: reflect.TypeOf(float64(0)),
	reflect.Complex64: reflect.TypeOf(complex64(0)), reflect.Complex128: reflect.TypeOf(complex128(0)),
}

func (w *World) tos(t *TOS) gopoet.TypeNameOrSpec {
	switch {
	case t.Spec != nil:
		return w.decls[t.Spec].(*gopoet.TypeSpec)
	case t.Anon != nil:
		return w.typeSpec(t.Anon)
	}
	return w.typ(t.T)
}

func (w *World) typeSpec(d *Decl) *gopoet.TypeSpec {
	name := ""
	if len(d.Names) > 0 {
		name = d.Names[0]
	}
	var ts *gopoet.TypeSpec
	switch d.TS {
	case TSNamed, TSFromSpec:
		if d.IsAlias {
			ts = gopoet.NewTypeAlias(name, w.tos(d.Type))
		} else {
			ts = gopoet.NewTypeSpec(name, w.tos(d.Type))
		}
	case TSAlias:
		ts = gopoet.NewTypeAlias(name, w.tos(d.Type))
	case TSStruct:
		var fs []*gopoet.FieldSpec
		for _, f := range d.Fields {
			fs = append(fs, gopoet.NewField(f.Name, w.tos(&f.T)).SetTag(f.Tag).SetComment(f.Comment))
		}
		w.fields[d] = fs
		w.input("field specs", fs)
		ts = gopoet.NewStructTypeSpec(name, fs...)
	case TSIface:
		var es []gopoet.InterfaceElement
		for _, e := range d.Elems {
			if e.Embed != nil {
				es = append(es, gopoet.NewInterfaceEmbed(w.Sym(*e.Embed)).SetComment(e.Comment))
				continue
			}
			m := gopoet.NewInterfaceMethod(e.Name).SetComment(e.Comment)
			if e.Style == 1 {
				for _, p := range e.Sig.Args {
					m.AddArg(p.Name, w.typ(p.T))
				}
				for _, p := range e.Sig.Results {
					m.AddResult(p.Name, w.typ(p.T))
				}
				m.SetVariadic(e.Sig.Variadic)
			} else {
				m.Signature = *w.sig(e.Sig)
			}
			es = append(es, m)
		}
		w.elems[d] = es
		w.input("interface elements", es)
		ts = gopoet.NewInterfaceTypeSpec(name, es...)
	}
	return ts.SetComment(d.Comment)
}

func (w *World) names(d *Decl) []string {
	l := append(make([]string, 0, len(d.Names)+1), d.Names...)
	w.input("names", l)
	return l
}

func (w *World) shell(el *Element) {
	gf := w.Files[el.Decls[0].File]
	var cs []*gopoet.ConstSpec
	var vs []*gopoet.VarSpec
	var ts []*gopoet.TypeSpec
	for _, d := range el.Decls {
		switch d.Kind {
		case DConst:
			c := gopoet.NewConst(w.names(d)...).SetComment(d.Comment)
			w.decls[d] = c
			cs = append(cs, c)
		case DVar:
			v := gopoet.NewVar(w.names(d)...).SetComment(d.Comment)
			w.decls[d] = v
			vs = append(vs, v)
		case DType:
			t := w.typeSpec(d)
			w.decls[d] = t
			ts = append(ts, t)
		case DFunc:
			var f *gopoet.FuncSpec
			if d.Recv != nil {
				f = gopoet.NewMethod(w.recv(d), d.Names[0])
			} else {
				f = gopoet.NewFunc(d.Names[0])
			}
			f.SetComment(d.Comment)
			w.decls[d] = f
			if d.Early {
				w.funcSig(d, f)
			}
			gf.AddElement(f)
		}
	}
	defer func() { w.elements[el] = gf.ElementAt(gf.NumElements() - 1) }()
	switch el.Kind {
	case DConst:
		if el.Single {
			gf.AddConst(cs[0])
		} else {
			n := len(cs) - el.Split
			first := append(make([]*gopoet.ConstSpec, 0, len(cs)+1), cs[:n]...)
			w.input("constants", first)
			d := gopoet.NewConstDecl(first...).SetComment(el.Comment)
			for _, x := range cs[n:] {
				d.AddConst(x)
			}
			gf.AddElement(d)
		}
	case DVar:
		if el.Single {
			gf.AddVar(vs[0])
		} else {
			n := len(vs) - el.Split
			first := append(make([]*gopoet.VarSpec, 0, len(vs)+1), vs[:n]...)
			w.input("variables", first)
			d := gopoet.NewVarDecl(first...).SetComment(el.Comment)
			for _, x := range vs[n:] {
				d.AddVar(x)
			}
			gf.AddElement(d)
		}
	case DType:
		if el.Single {
			gf.AddType(ts[0])
		} else {
			n := len(ts) - el.Split
			first := append(make([]*gopoet.TypeSpec, 0, len(ts)+1), ts[:n]...)
			w.input("types", first)
			d := gopoet.NewTypeDecl(first...).SetComment(el.Comment)
			for _, x := range ts[n:] {
				d.AddType(x)
			}
			gf.AddElement(d)
		}
	}
}

func (w *World) recv(d *Decl) *gopoet.ReceiverSpec {
	ts := w.decls[d.Recv].(*gopoet.TypeSpec)
	switch d.RecvVia {
	case 1:
		if d.RecvPtr {
			return gopoet.NewPointerReceiverForType(d.RecvVar, ts)
		}
		return gopoet.NewReceiverForType(d.RecvVar, ts)
	case 2:
		t := ts.ToTypeName()
		if d.RecvPtr {
			if len(d.Names[0])%2 == 0 {
				return gopoet.NewPointerReceiverForType(d.RecvVar, t)
			}
			return gopoet.NewReceiverForType(d.RecvVar, gopoet.PointerType(t))
		}
		return gopoet.NewReceiverForType(d.RecvVar, t)
	}
	if d.RecvPtr {
		return gopoet.NewPointerReceiver(d.RecvVar, d.Recv.Names[0])
	}
	return gopoet.NewReceiver(d.RecvVar, d.Recv.Names[0])
}

// Content fills in the declarations of a file and registers its explicit
// imports.
func (w *World) Content(file int) {
	for i, n := 0, w.Parts(file); i < n; i++ {
		w.Part(file, i)
	}
}

// Parts is the number of independent steps that make up Content.
func (w *World) Parts(file int) int {
	f := w.S.Files[file]
	n := len(f.Regs)
	for _, el := range f.Elements {
		for _, d := range el.Decls {
			n += d.parts()
		}
	}
	return n
}

// parts is the number of steps in which the content of a declaration is
// added: the statements of a function one by one.
func (d *Decl) parts() int {
	if d.Kind == DFunc {
		return 1 + len(d.Body.Code)
	}
	return 1
}

// Part does one of them. Those of one declaration happen in their order, in
// whichever order they are asked for.
func (w *World) Part(file, n int) {
	f := w.S.Files[file]
	gf := w.Files[file]
	if n < len(f.Regs) {
		r := f.Regs[n]
		switch r.Via {
		case 0:
			gf.RegisterImportForPackage(w.pkg(r.Ref))
		case 1:
			p := w.pkg(r.Ref)
			gf.RegisterImport(p.ImportPath, p.Name)
		case 2:
			gf.EnsureImported(w.Sym(r.Ref))
		case 3:
			gf.EnsureTypeImported(gopoet.PointerType(gopoet.NamedType(w.Sym(r.Ref))))
		}
		return
	}
	n -= len(f.Regs)
	for _, el := range f.Elements {
		for _, d := range el.Decls {
			if n < d.parts() {
				w.content(d, w.parts[d])
				w.parts[d]++
				return
			}
			n -= d.parts()
		}
	}
}

// Template returns a template together with its data.
func (w *World) Template(t *Tmpl) (*template.Template, interface{}) { return w.tmpl(t), w.node(t.Data) }

func (w *World) content(d *Decl, part int) {
	switch d.Kind {
	case DConst:
		c := w.decls[d].(*gopoet.ConstSpec)
		if d.Type != nil {
			c.SetType(w.tos(d.Type))
		}
		if d.Init != nil {
			if len(d.Init.Code) == 1 && d.Style == 1 && d.Init.Pool == 0 {
				f, args := w.format(&d.Init.Code[0])
				c.Initialize(f, args...)
			} else {
				c.SetInitializer(w.block(d.Init))
			}
		}
	case DVar:
		v := w.decls[d].(*gopoet.VarSpec)
		if d.Type != nil {
			v.SetType(w.tos(d.Type))
		}
		if d.Init != nil {
			if len(d.Init.Code) == 1 && d.Style == 1 && d.Init.Pool == 0 {
				f, args := w.format(&d.Init.Code[0])
				v.Initialize(f, args...)
			} else {
				v.SetInitializer(w.block(d.Init))
			}
		}
	case DFunc:
		f := w.decls[d].(*gopoet.FuncSpec)
		switch {
		case part > 0:
			w.code(f, &f.CodeBlock, &d.Body.Code[part-1])
		case !d.Early:
			w.funcSig(d, f)
		}
	}
}

func (w *World) funcSig(d *Decl, f *gopoet.FuncSpec) {
	switch d.Style {
	case 1:
		f.Signature = *w.sig(d.Sig)
	case 2:
		for _, p := range d.Sig.Args {
			f.Signature.AddArg(p.Name, w.typ(p.T))
		}
		for _, p := range d.Sig.Results {
			f.Signature.AddResult(p.Name, w.typ(p.T))
		}
		f.Signature.SetVariadic(d.Sig.Variadic)
	default:
		for _, p := range d.Sig.Args {
			f.AddArg(p.Name, w.typ(p.T))
		}
		for _, p := range d.Sig.Results {
			f.AddResult(p.Name, w.typ(p.T))
		}
		f.SetVariadic(d.Sig.Variadic)
	}
}

func (w *World) block(b *Block) *gopoet.CodeBlock {
	if b.Pool > 0 && w.blocks[b.Pool-1] != nil {
		return w.blocks[b.Pool-1]
	}
	cb := &gopoet.CodeBlock{}
	for i := range b.Code {
		w.code(nil, cb, &b.Code[i])
	}
	if b.Pool > 0 {
		w.blocks[b.Pool-1] = cb
	}
	return cb
}

// code adds to a code block; f is the function it is the body of, or nil.
func (w *World) code(f *gopoet.FuncSpec, cb *gopoet.CodeBlock, c *Code) {
	style := c.Style % 3
	if style == 1 && f == nil {
		style = 2
	}
	var block *gopoet.CodeBlock
	switch c.K {
	case CBlock:
		block = w.block(c.Block)
		style = 2
	case CText, CBad:
		text := c.Parts[0].Text
		if line, ok := strings.CutSuffix(text, "\n"); ok && c.Style >= 3 {
			switch style {
			case 0:
				cb.Println(line)
			case 1:
				f.Println(line)
			case 2:
				block = gopoet.Println(line)
			}
			break
		}
		switch style {
		case 0:
			cb.Print(text)
		case 1:
			f.Print(text)
		case 2:
			block = gopoet.Print(text)
		}
	case CPrintf:
		format, args := w.format(c)
		switch {
		case c.Ln && style == 0:
			cb.Printlnf(format, args...)
		case c.Ln && style == 1:
			f.Printlnf(format, args...)
		case c.Ln:
			block = gopoet.Printlnf(format, args...)
		case style == 0:
			cb.Printf(format, args...)
		case style == 1:
			f.Printf(format, args...)
		default:
			block = gopoet.Printf(format, args...)
		}
	case CTempl:
		data := w.node(c.T.Data)
		if c.T.Data.Pool == 0 {
			w.input("template data", data)
		}
		switch style {
		case 0:
			cb.RenderCode(w.tmpl(c.T), data)
		case 1:
			f.RenderCode(w.tmpl(c.T), data)
		case 2:
			block = gopoet.RenderCode(w.tmpl(c.T), data)
		}
	}
	if block != nil {
		if f != nil {
			f.AddCode(block)
		} else {
			cb.AddCode(block)
		}
	}
}

// format returns the format string and arguments of a CPrintf.
func (w *World) format(c *Code) (string, []interface{}) {
	var f strings.Builder
	var args []interface{}
	for i, p := range c.Parts {
		if p.Arg == nil {
			f.WriteString(strings.ReplaceAll(p.Text, "%", "%%"))
			continue
		}
		if i%2 == 0 || p.Arg.K == AInt {
			f.WriteString("%v")
		} else {
			f.WriteString("%s")
		}
		args = append(args, w.arg(p.Arg))
	}
	w.input("format arguments", args)
	return f.String(), args
}

func (w *World) tmpl(t *Tmpl) *template.Template {
	tw := &walker{s: w.S}
	tw.root(t)
	text := tw.t.String()
	if w.tmpls[text] == nil {
		w.tmpls[text] = template.Must(template.New("t").Funcs(template.FuncMap{
			"yield": func() string { w.Call("func"); return "" },
			"fail":  func() (string, error) { w.Call("fail"); return "", errors.New("template function failed") },
			"boom":  func() string { w.Call("boom"); panic("template function panicked") },
		}).Parse(text))
	}
	return w.tmpls[text]
}

func (w *World) arg(a *Arg) interface{} {
	switch a.K {
	case ASym:
		return w.Sym(a.Ref)
	case ASymPtr:
		s := w.Sym(a.Ref)
		return &s
	case APkg:
		return w.pkg(a.Ref)
	case APkgPtr:
		p := w.pkg(a.Ref)
		return &p
	case APkgGo:
		return w.goPkg(a.Ref)
	case AMethRef:
		return gopoet.MethodReference{Type: w.Sym(a.Ref), Method: a.Name}
	case AMethRefPtr:
		return &gopoet.MethodReference{Type: w.Sym(a.Ref), Method: a.Name}
	case AType:
		return w.typ(a.T)
	case AReflect:
		return w.rType(a.T)
	case AGoType:
		return w.goType(a.T)
	case AGoObj:
		p := w.goPkg(a.Ref)
		switch a.Elem {
		case 1:
			return types.NewVar(token.NoPos, p, a.Ref.Name, types.Typ[types.Int])
		case 2:
			return types.NewFunc(token.NoPos, p, a.Ref.Name, types.NewSignatureType(nil, nil, nil, nil, nil, false))
		case 3:
			return types.NewConst(token.NoPos, p, a.Ref.Name, types.Typ[types.Int], nil)
		}
		return types.NewTypeName(token.NoPos, p, a.Ref.Name, types.Typ[types.Int])
	case AGoMethod:
		r := a.Ref
		if w.S.Path(r.Pkg) == "unsafe" {
			r.NoName = true
		}
		var t types.Type = w.goNamed(r)
		if a.Elem%2 == 1 {
			t = types.NewPointer(t)
		}
		return types.NewFunc(token.NoPos, w.goPkg(r), a.Name, types.NewSignatureType(types.NewParam(token.NoPos, w.goPkg(r), "r", t), nil, nil, nil, nil, false))
	case ADecl:
		return w.decls[a.D]
	case AIfaceMethod:
		return w.elems[a.D][a.Elem]
	case ANth:
		switch x := w.decls[a.D].(type) {
		case *gopoet.ConstSpec:
			return x.SymbolAt(a.Elem)
		case *gopoet.VarSpec:
			return x.SymbolAt(a.Elem)
		}
	case AStr:
		return a.Str
	case AInt:
		return a.Elem
	case ACallback:
		return &Callback{call: w.Call}
	case AAnon:
		return w.typeSpec(a.D)
	case AEmbed:
		return gopoet.NewInterfaceEmbed(w.Sym(a.Ref))
	case ABoom:
		return &Callback{call: w.Call, Boom: true}
	case ANil:
		return (*gopoet.Symbol)(nil)
	case AUnattached:
		return gopoet.NewVar("unattached")
	}
	panic("gen: bad argument")
}

func (w *World) node(n *Node) interface{} {
	if n.Pool > 0 && w.data[n.Pool-1] != nil {
		return w.data[n.Pool-1]
	}
	v := w.node1(n)
	if n.Pool > 0 {
		w.data[n.Pool-1] = v
		w.input("template data", v)
	}
	return v
}

func (w *World) node1(n *Node) interface{} {
	switch n.K {
	case NLeaf:
		return w.arg(n.Arg)
	case NStruct:
		ps := w.Sym(n.Refs[1])
		s := &S1{Sym: w.Sym(n.Refs[0]), PSym: &ps, MR: gopoet.MethodReference{Type: w.Sym(n.Refs[2]), Method: "M"}, T: w.typ(n.T), A: w.node(n.Kids[0]), N: 7}
		if len(n.Kids) > 1 {
			s.B = w.node(n.Kids[1])
			return *s
		}
		return s
	case NHid:
		ps := w.Sym(n.Refs[1])
		h := &H1{sym: w.Sym(n.Refs[0]), psym: &ps, mr: &gopoet.MethodReference{Type: w.Sym(n.Refs[2]), Method: "M"}, t: w.typ(n.T), a: w.node(n.Kids[0])}
		if len(n.Kids) > 1 {
			h.l = []interface{}{w.node(n.Kids[1]), nil}
		}
		return h
	case NList:
		var l []interface{}
		for _, k := range n.Kids {
			l = append(l, w.node(k))
		}
		return l
	case NIntMap:
		m := map[int]interface{}{}
		for i, k := range n.Kids {
			m[i*5%97] = w.node(k)
		}
		return m
	case NMap:
		m := map[string]interface{}{}
		for i, k := range n.Kids {
			m[n.Keys[i]] = w.node(k)
		}
		return m
	case NSyms:
		var l []gopoet.Symbol
		for _, r := range n.Refs {
			l = append(l, w.Sym(r))
		}
		return l
	case NArr:
		return [2]gopoet.Symbol{w.Sym(n.Refs[0]), w.Sym(n.Refs[1])}
	case NTypes:
		var l []gopoet.TypeName
		for _, k := range n.Kids {
			l = append(l, w.typ(k.T))
		}
		return l
	case NSymMap:
		m := map[gopoet.Symbol]string{}
		for i, r := range n.Refs {
			m[w.Sym(r)] = fmt.Sprint(i)
		}
		return m
	case NAnyMap:
		m := map[interface{}]interface{}{}
		for i, r := range n.Refs {
			m[w.Sym(r)] = w.node(n.Kids[i])
		}
		return m
	case NKeyMap:
		m := map[gopoet.TypeName]string{}
		for i, r := range n.Refs {
			m[gopoet.NamedType(w.Sym(r))] = fmt.Sprint(i)
		}
		return m
	case NPtr:
		v := w.node(n.Kids[0])
		return &v
	case NSig:
		return *w.sig(n.Sig)
	case NPkgs:
		pp := w.pkg(n.Refs[1])
		return &P1{Pkg: w.pkg(n.Refs[0]), PP: &pp}
	case NMisc:
		syms := make([]gopoet.Symbol, 6)
		for i := range syms {
			syms[i] = w.Sym(n.Refs[i])
		}
		t := w.typ(n.T)
		pp := &syms[5]
		v := &V1{
			E1:  E1{Emb: syms[0]},
			PS:  []*gopoet.Symbol{&syms[1], nil, &syms[2]},
			MM:  map[string]gopoet.MethodReference{"m": {Type: syms[3], Method: "M"}, "n": {Type: syms[4], Method: "N"}},
			Any: [2]interface{}{w.node(n.Kids[0]), w.node(n.Kids[1])},
			MT:  map[string][]gopoet.TypeName{"t": {t, gopoet.PointerType(t)}, "none": nil},
			SG:  w.sig(n.Sig), PT: &t, PPS: &pp, C: make(chan int), F64: 0.5,
		}
		if len(n.Refs) > 6 {
			v.MP = map[string]gopoet.Package{"p": w.pkg(n.Refs[6])}
		}
		return v
	case NKeys:
		s := func(i int) gopoet.Symbol { return w.Sym(n.Refs[i]) }
		k := &K1{
			S: map[KS]int{{2, s(0)}: 1, {1, s(1)}: 2, {3, s(2)}: 3},
			A: map[[2]gopoet.Symbol]int{{s(2), s(3)}: 4, {s(2), s(4)}: 5},
			P: map[*gopoet.Symbol]int{},
			I: map[interface{}]int{s(1): 7, 3: 8, KS{1, s(3)}: 9, "s": 10, [2]gopoet.Symbol{s(4), s(0)}: 11},
		}
		x := s(3)
		k.P[&x] = 6
		return k
	case NKinds:
		keys := reflect.ValueOf(mapKeys[n.Sel](w.allocate))
		for _, k := range n.Kids {
			keys = reflect.Append(keys, reflect.ValueOf(w.decls[k.Arg.D]))
		}
		m := reflect.MakeMap(reflect.MapOf(keys.Type().Elem(), reflect.TypeOf(KV{})))
		for i := 0; i < keys.Len(); i++ {
			m.SetMapIndex(keys.Index(i), reflect.ValueOf(KV{i + 1, w.Sym(n.Refs[i])}))
		}
		return m.Interface()
	case NIfcs:
		s := func(i int) gopoet.Symbol { return w.Sym(n.Refs[i]) }
		same := s(6)
		v := &I1{
			St: w.arg(n.Kids[0].Arg).(fmt.Stringer),
			TS: w.tos(n.TOS),
			SM: [2]gopoet.SymbolOrMethodRef{s(0), gopoet.MethodReference{Type: s(1), Method: "M"}},
			L:  &L1{s(2), &L1{s(3), &L1{s(2), nil}}},
			NM: map[string]map[int]gopoet.Symbol{"a": {1: s(4), 0: s(3)}, "b": nil, "c": {2: s(5)}},
			SL: Syms{s(5), s(6)}, PSL: &[]gopoet.Symbol{s(7), s(0)},
			Same: [2]*gopoet.Symbol{&same, &same},
			AS:   [2]P2{{s(8), 1}, {s(1), 2}},
			TP:   &[]gopoet.TypeName{w.typ(n.T), nil},
		}
		if r := n.Refs[0]; r.Pkg != Universe && w.S.Path(r.Pkg) != "unsafe" {
			t := w.goNamed(r)
			v.GT, v.GO, v.RT[0] = types.NewPointer(t), t.Obj(), reflect.TypeOf(0)
		}
		if len(n.Kids) > 1 {
			v.Any = []interface{}{nil, w.node(n.Kids[1])}
		}
		return v
	case NLocal:
		t := gopoet.NamedType(w.Sym(n.Refs[0]))
		d := &D3{
			C: gopoet.NewConst("cl"), CS: gopoet.NewConst("cm", "cn"),
			V: *gopoet.NewVar("vl").SetType(t), VS: []*gopoet.VarSpec{gopoet.NewVar("vm", "vn")},
			T: gopoet.NewTypeSpec("tl", t), F: gopoet.NewFunc("fl").AddArg("", t), Sym: w.Sym(n.Refs[0]),
		}
		if n.Sel == 1 {
			d.T = gopoet.NewStructTypeSpec("tl", gopoet.NewField("f", t))
		}
		return d
	case NDecls:
		d := &D2{}
		for _, k := range n.Kids[0].Kids {
			d.VS = append(d.VS, w.decls[k.Arg.D].(*gopoet.VarSpec))
		}
		for _, k := range n.Kids[1].Kids {
			d.CS = append(d.CS, *w.decls[k.Arg.D].(*gopoet.ConstSpec))
		}
		for i, k := range n.Kids[2].Kids {
			if d.FM == nil {
				d.FM = map[string]*gopoet.FuncSpec{}
			}
			d.FM[fmt.Sprint("f", i)] = w.decls[k.Arg.D].(*gopoet.FuncSpec)
		}
		for i, k := range n.Kids[3].Kids {
			d.TS[i] = *w.decls[k.Arg.D].(*gopoet.TypeSpec)
		}
		if n.Arg != nil {
			d.IM = w.elems[n.Arg.D][n.Arg.Elem].(*gopoet.InterfaceMethod)
		}
		d.IE = *gopoet.NewInterfaceEmbed(w.Sym(n.Refs[0]))
		if n.Element != nil {
			d.FE = w.elements[n.Element]
		}
		return d
	case NTyped:
		d := &D1{}
		if k := n.Kids[0]; k != nil {
			d.TS = w.decls[k.Arg.D].(*gopoet.TypeSpec)
		}
		if k := n.Kids[1]; k != nil {
			d.F = w.decls[k.Arg.D].(*gopoet.FuncSpec)
		}
		if k := n.Kids[2]; k != nil {
			d.V = w.decls[k.Arg.D].(*gopoet.VarSpec)
		}
		return d
	}
	panic("gen: bad node")
}

// Handouts describes everything the declarations of a file hand out.
func (w *World) Handouts(shape func(v interface{}) string) []string {
	var l []string
	add := func(d *Decl, what string, f func() interface{}) {
		v := func() (v interface{}) {
			defer func() {
				if r := recover(); r != nil {
					v = fmt.Sprintf("panic: %v", r)
				}
			}()
			return f()
		}()
		l = append(l, fmt.Sprintf("%s of %s: %s", what, strings.Join(d.Names, ","), shape(v)))
	}
	for _, el := range w.S.Order {
		for _, d := range el.Decls {
			switch x := w.decls[d].(type) {
			case *gopoet.ConstSpec:
				add(d, "declared type", func() interface{} { return x.Type })
				add(d, "names", func() interface{} { return []string{x.Comment, fmt.Sprint(x.Names)} })
				for i := range d.Names {
					add(d, "symbol", func() interface{} { return x.SymbolAt(i) })
				}
				if len(d.Names) == 1 {
					add(d, "symbol", func() interface{} { return x.ToSymbol() })
				}
				add(d, "string", func() interface{} { return x.String() })
			case *gopoet.VarSpec:
				add(d, "declared type", func() interface{} { return x.Type })
				add(d, "names", func() interface{} { return []string{x.Comment, fmt.Sprint(x.Names)} })
				for i := range d.Names {
					add(d, "symbol", func() interface{} { return x.SymbolAt(i) })
				}
				if len(d.Names) == 1 {
					add(d, "symbol", func() interface{} { return x.ToSymbol() })
				}
				add(d, "string", func() interface{} { return x.String() })
			case *gopoet.TypeSpec:
				add(d, "symbol", func() interface{} { return x.ToSymbol() })
				add(d, "type", func() interface{} { return x.ToTypeName() })
				add(d, "underlying type", func() interface{} { return x.Underlying() })
				add(d, "string", func() interface{} { return x.String() })
				for _, f := range w.fields[d] {
					add(d, "field", func() interface{} { return []interface{}{f.Name, f.Comment, f.Tag, f.Type, f.String()} })
				}
				for i, e := range w.elems[d] {
					if m, ok := e.(*gopoet.InterfaceEmbed); ok {
						add(d, "embedded interface", func() interface{} { return []interface{}{m.Comment, m.Type, m.String()} })
					}
					if m, ok := e.(*gopoet.InterfaceMethod); ok && d.Elems[i].Embed == nil {
						add(d, "method reference", func() interface{} { return m.ToMethodRef() })
						add(d, "method type", func() interface{} { return m.ToTypeName() })
						add(d, "method string", func() interface{} { return m.String() })
						add(d, "method signature", func() interface{} { return &m.Signature })
					}
				}
			case *gopoet.FuncSpec:
				add(d, "signature", func() interface{} { return &x.Signature })
				add(d, "receiver", func() interface{} { return x.Receiver })
				add(d, "symbol", func() interface{} { return x.ToSymbol() })
				add(d, "type", func() interface{} { return x.ToTypeName() })
				add(d, "string", func() interface{} { return x.String() })
			}
		}
	}
	for _, f := range w.Files {
		for i := 0; i < f.NumElements(); i++ {
			l = append(l, fmt.Sprintf("element %d of %s: %T", i, f.Name, f.ElementAt(i)))
		}
	}
	return l
}
