// Package gen makes random programs: descriptions of Go files to generate,
// the calls of gopoet that build them, and the source they have to produce.
package gen

import (
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"

	"verifsim/choice"
)

// Cfg bounds what is generated.
type Cfg struct {
	Files, Elems, Stmts, Depth, Pkgs int
	Templates, Reflect, GoTypes      bool
	Callbacks                        bool // caller-supplied code that runs during rendering
	Comments                         bool
	Hid                              bool // unexported fields in template data
	Invalid                          int  // per cent of files that cannot be rendered
	Big                              bool
	Shared                           int  // size of the pools of shared types, blocks and data
	Keys                             bool // mostly maps in template data
	Wide                             bool // here and there many elements instead of few
}

// Pkg is a package of the universe.
type Pkg struct {
	Path, Name string
	Own        bool // a generated file belongs to it
	Real       int  // index+1 into realTypes
}

// Universe is the package index of predeclared elements.
const Universe = -1

// Ref names an element of a package.
type Ref struct {
	Pkg    int
	Name   string
	NoName bool // the reference does not say what the package is called
}

// Kinds of types.
const (
	TBasic = iota
	TNamed
	TPtr
	TSlice
	TArray
	TMap
	TChan
	TFunc
	TStruct
	TIface
)

// How a type is handed to gopoet.
const (
	ViaCtor = iota
	ViaGo
	ViaReflect
)

// Type is a type expression.
type Type struct {
	K       int
	Basic   reflect.Kind
	Ref     Ref
	Elem    *Type
	Key     *Type
	Len     int
	Dir     reflect.ChanDir
	Sig     *Sig
	Fields  []Field
	Embeds  []Ref
	Methods []Method
	Via     int
	Static  int // index+1 into staticTypes
	Pool    int // index+1 into the shared types
	// From is the declaration that hands out the type: a type declaration
	// (FromWhat 0: its name, 1: its underlying type), that of the interface
	// with the method FromElem, or a function.
	From     *Decl
	FromWhat int
	FromElem int
}

// Sig is a signature.
type Sig struct {
	Args, Results []Param
	Variadic      bool
	Pool          int // index+1 into the shared signatures
}

// Param is an argument or result.
type Param struct {
	Name string
	T    *Type
}

// Field of a struct type.
type Field struct {
	Name, Tag string
	T         *Type
}

// Method of an interface type.
type Method struct {
	Name string
	Sig  *Sig
}

// TOS is a type or the specification of one.
type TOS struct {
	T    *Type
	Spec *Decl // named type that is being generated
	Anon *Decl // unnamed struct or interface specification
}

// Kinds of declarations.
const (
	DConst = iota
	DVar
	DType
	DFunc
)

// How the type of a DType is given.
const (
	TSNamed = iota // NewTypeSpec(name, TypeName)
	TSAlias
	TSStruct
	TSIface
	TSFromSpec // NewTypeSpec(name, *TypeSpec)
)

// Decl is a declaration.
type Decl struct {
	ID      int
	Kind    int
	File    int
	Names   []string
	Comment string
	Type    *TOS
	Init    *Block
	TS      int
	IsAlias bool
	Fields  []*FieldD
	Elems   []*ElemD
	Recv    *Decl // receiver type of a method
	RecvPtr bool
	RecvVar string
	RecvVia int
	Sig     *Sig
	Early   bool // the signature is given when the function is created
	Body    *Block
	Style   int // which of several equivalent calls build it
}

// FieldD is a field of a struct specification.
type FieldD struct {
	Name, Tag, Comment string
	T                  TOS
}

// ElemD is an element of an interface specification.
type ElemD struct {
	Embed   *Ref
	Name    string
	Sig     *Sig
	Comment string
	Style   int
}

// Element is a top-level element of a file.
type Element struct {
	Kind    int
	Comment string
	Single  bool // added with AddConst, AddVar or AddType
	Split   int  // declarations that are added one by one to the group
	Decls   []*Decl
}

// Kinds of arguments of code blocks.
const (
	ASym = iota
	ASymPtr
	APkg
	APkgPtr
	APkgGo
	AMethRef
	AMethRefPtr
	AType
	AReflect
	AGoType
	AGoObj
	AGoMethod
	ADecl
	AIfaceMethod
	AStr
	AInt
	ACallback
	AEmbed
	ANth  // one name of a declaration with several
	AAnon // specification of an unnamed type
	// the following make rendering fail
	ABoom // panics in String
	ANil
	AUnattached
	AFail // template function that fails
)

// Arg is an argument of a code block.
type Arg struct {
	K    int
	Ref  Ref
	Name string // method, or element of a package argument
	T    *Type
	D    *Decl
	Elem int
	Str  string
}

// Part of a format string: text or an argument.
type Part struct {
	Text string
	Arg  *Arg
}

// Kinds of code elements.
const (
	CText = iota
	CPrintf
	CTempl
	CBlock // contents of a shared block
	CBad   // text that is not Go
)

// Code is an element of a code block.
type Code struct {
	K     int
	Parts []Part
	Ln    bool
	T     *Tmpl
	Block *Block
	Style int
}

// Block is a code block.
type Block struct {
	Code []Code
	Pool int // index+1 into the shared blocks
}

// Kinds of template data.
const (
	NLeaf   = iota
	NStruct // S1
	NList   // []interface{}
	NMap    // map[string]interface{}
	NSyms   // []gopoet.Symbol
	NArr    // [2]gopoet.Symbol
	NTypes  // []gopoet.TypeName
	NSymMap // map[gopoet.Symbol]string, keys printed
	NKeyMap // map[gopoet.TypeName]string, keys not printed
	NIntMap // map[int]interface{}
	NPtr    // *interface{}
	NSig    // gopoet.Signature
	NHid    // struct with unexported fields
	NPkgs   // P1
	NAnyMap // map[interface{}]interface{} with symbols as keys
	NTyped  // struct of pointers to declarations
	NMisc   // V1
	NDecls  // D2
	NKeys   // maps whose keys are structs, arrays and pointers
	NKinds  // a map with keys of some kind
	NIfcs   // I1
	NLocal  // declarations that are not part of any file
)

// Node is a piece of template data.
type Node struct {
	K    int
	Arg  *Arg
	Kids []*Node
	Keys []string
	Refs []Ref
	T    *Type
	Sig  *Sig
	Pool int // index+1 into the shared data

	Element *Element
	TOS     *TOS
	Sel     int
}

// Tmpl is a template with its data.
type Tmpl struct {
	Data  *Node
	Fail  int  // 0, AFail, ABoom
	Yield bool // calls a function that gives control away
	Cut   int  // statements printed before the failure
}

// Reg is an explicit registration of an import.
type Reg struct {
	Ref Ref
	Via int
}

// File to generate.
type File struct {
	Idx                 int
	Pkg                 int
	Name                string
	FileComment, PkgDoc string
	Canonical           string
	Elements            []*Element
	Regs                []Reg
	Invalid             string // "", "syntax" or "abort"
}

// Spec is a program.
type Spec struct {
	Pkgs   []Pkg
	Files  []*File
	Types  []*Type
	Sigs   []*Sig
	Blocks []*Block
	Inits  []*Block // shared initializers
	Data   []*Node
	Decls  []*Decl
	Order  []*Element // all elements in the order in which they are created

	made []*Type // types that twin can vary
}

var foreignPool = []Pkg{
	{Path: "x/foo", Name: "foo"},
	{Path: "y/foo", Name: "foo"},
	{Path: "z/v2/foo", Name: "foo"},
	{Path: "some/foo/v1", Name: "foo"},
	{Path: "x/foo1", Name: "foo1"},
	{Path: "y/foo2", Name: "foo2"},
	{Path: "q/foo", Name: ""},
	{Path: "x/foo11", Name: "foo11"},
	{Path: "a/bar", Name: "bar"},
	{Path: "b/bar", Name: "bar"},
	{Path: "c/bar", Name: ""},
	{Path: "some/go-bar", Name: "bar"},
	{Path: "x/bar1", Name: "bar1"},
	{Path: "gopkg.in/yaml.v2", Name: "yaml"},
	{Path: "gopkg.in/yaml.v3", Name: ""},
	{Path: "github.com/a/go-foo", Name: ""},
	{Path: "k/type", Name: ""},
	{Path: "k/1abc", Name: ""},
	{Path: "k/func", Name: ""},
	{Path: "k/_", Name: ""},
	{Path: "a.b/c.d/foo_1", Name: "foo_1"},
	{Path: "x/ünï", Name: "ünï"},
	{Path: "math/rand", Name: "rand"},
	{Path: "crypto/rand", Name: "rand"},
	{Path: "fmt", Name: "fmt"},
	{Path: "unsafe", Name: "unsafe"},
	{Path: "verifsim/u/alpha", Name: "alpha", Real: 1},
	{Path: "verifsim/u/two/alpha", Name: "alpha", Real: 2},
	{Path: "verifsim/u/go-beta", Name: "betapkg", Real: 3},
	{Path: "bytes", Name: "bytes", Real: 4},
	{Path: "text/template", Name: "template", Real: 5},
	{Path: "html/template", Name: "template", Real: 6},
	{Path: "x/alpha", Name: "alpha"},
	{Path: "x/alpha1", Name: "alpha1"},
	{Path: "x/Foo", Name: "foo"},
	{Path: "X/foo", Name: "foo"},
	{Path: "b/foo1", Name: "foo"},
	{Path: "x/bar2", Name: "bar"},
	{Path: "k/foo2", Name: ""},
	{Path: "foo", Name: "foo"},
	{Path: "x/y/foo", Name: "foo"},
	{Path: "a/vendor/x/foo", Name: "foo"},
	{Path: "foo/bar", Name: ""},
	{Path: "k8s/core/v1", Name: "v1"},
	{Path: "k8s/apps/v1", Name: "v1"},
	{Path: "k8s/batch/v2", Name: "v2"},
	{Path: "k8s/meta/v2", Name: ""},
	{Path: "x/internal/foo", Name: "foo"},
	{Path: "x/foo_test", Name: "foo_test"},
	{Path: "x/pkgtype", Name: "pkgtype"},
	{Path: "x/9foo", Name: ""},
	{Path: "x/_9foo", Name: "_9foo"},
	{Path: "z/Bar", Name: "Bar"},
	{Path: "z/bar_", Name: "bar_"},
	{Path: "k/...", Name: ""},
	{Path: "k/pkg_", Name: "pkg___"},
	{Path: "example.com/~user/a+b", Name: ""},
}

var ownPool = []Pkg{
	{Path: "x/own", Name: "own"},
	{Path: "y/own", Name: "own"},
	{Path: "w/foo", Name: "foo"},
	{Path: "gen/deep/er/out", Name: "out"},
	{Path: "w/bar", Name: "bar"},
	{Path: "x/y/own1", Name: "own1"},
	{Path: "verifsim/u/alpha", Name: "alpha", Real: 1},
	{Path: "some/own/v3", Name: "own"},
	{Path: "cmd/tool", Name: "main"},
	{Path: "X/own", Name: "own"},
}

var fileNames = []string{"a%d_test.go", "a%d_linux.go", "_%d.go", ".%d.go", "-%d.go", "A b%d.go", "\u00fc%d.go", "a%%d%d.go", "a$HOME%d.go", "%d.pb.go", "~%d.go", "%d.go.go"}

// New generates a program.
func New(st *choice.Stream, cfg Cfg) *Spec {
	g := &generator{st: st, cfg: cfg, s: &Spec{}}
	g.packages()
	g.files()
	for i := 0; i < cfg.Shared; i++ {
		t := g.typ(cfg.Depth)
		t.Pool = i + 1
		g.s.Types = append(g.s.Types, t)
	}
	for i := 0; i < cfg.Shared; i++ {
		s := g.sig(cfg.Depth, ViaCtor)
		if s.Pool == 0 {
			s.Pool = len(g.s.Sigs) + 1
			g.s.Sigs = append(g.s.Sigs, s)
		}
	}
	g.shells()
	if cfg.Templates {
		for i := 0; i < cfg.Shared; i++ {
			n := g.node(2, true)
			n.Pool = i + 1
			g.s.Data = append(g.s.Data, n)
		}
	}
	for i := 0; i < cfg.Shared; i++ {
		b := g.block(1+g.st.N(4), g.st.Chance(1, 2))
		b.Pool = i + 1
		g.s.Blocks = append(g.s.Blocks, b)
	}
	for i := 0; i < cfg.Shared; i++ {
		b := g.newInit(1)
		b.Pool = cfg.Shared + i + 1
		g.s.Inits = append(g.s.Inits, b)
	}
	g.contents()
	return g.s
}

// Sampler draws elements that refer to an existing program.
type Sampler struct{ g *generator }

// Sampler makes a Sampler.
func (s *Spec) Sampler(st *choice.Stream, cfg Cfg) *Sampler {
	return &Sampler{&generator{st: st, cfg: cfg, s: s, nID: samplerIDs}}
}

// Type draws a type.
func (s *Sampler) Type() *Type { return s.g.typ(s.g.cfg.Depth) }

// Sig draws a signature.
func (s *Sampler) Sig() *Sig { return s.g.sig(s.g.cfg.Depth, ViaCtor) }

// Ref draws a reference.
func (s *Sampler) Ref() Ref { return s.g.ref() }

// Tmpl draws a template with its data.
func (s *Sampler) Tmpl() *Tmpl { return &Tmpl{Data: s.g.node(2, true)} }

// samplerIDs is where a Sampler starts to number.
const samplerIDs = 100000

type generator struct {
	st     *choice.Stream
	cfg    Cfg
	s      *Spec
	nID    int
	nTyp   int // type declarations that exist so far
	groups int // packages that were added for maps
	wide   int // how many elements there have been because of cfg.Wide
}

// few returns a number below n, or a bigger one.
func (g *generator) few(n int) int {
	k := g.st.N(n)
	if g.cfg.Wide && g.wide < 150 && g.st.Chance(1, 6) {
		k = n + g.st.N(36)
		g.wide += k
	}
	return k
}

func (g *generator) id(prefix string) string {
	g.nID++
	return fmt.Sprintf("%s%d", prefix, g.nID)
}

func (g *generator) packages() {
	n := 1 + g.st.N(g.cfg.Pkgs)
	used := map[string]bool{}
	nown := 1 + g.st.N(3)
	for i := 0; i < nown; i++ {
		p := ownPool[g.st.N(len(ownPool))]
		if used[p.Path] {
			continue
		}
		if nown == 1 && g.st.Chance(1, 8) {
			// the root of the tree
			p.Path, p.Real = "", 0
			if g.st.Chance(1, 2) {
				p.Name = "main"
			}
		}
		used[p.Path] = true
		p.Own = true
		g.s.Pkgs = append(g.s.Pkgs, p)
	}
	if own := g.s.Pkgs[0]; own.Path != "" && g.st.Chance(1, 3) {
		// paths that resemble that of the generated package
		p := Pkg{Path: fmt.Sprintf([]string{"%s/", "%s_test", "vendor/%s", "./%s", "%s/internal", "%s/v2", "%s.v1", "/%s", "%s//", "internal/%s"}[g.st.N(10)], own.Path), Name: own.Name}
		if g.st.Chance(1, 8) {
			p.Path = strings.ToUpper(own.Path)
		}
		if g.st.Chance(1, 3) {
			p.Name = ""
		}
		if !used[p.Path] {
			used[p.Path] = true
			g.s.Pkgs = append(g.s.Pkgs, p)
		}
	}
	base := g.st.N(len(foreignPool))
	for i := 0; i < n; i++ {
		// neighbours in the pool tend to conflict
		j := (base + i) % len(foreignPool)
		if g.st.Chance(1, 3) {
			j = g.st.N(len(foreignPool))
		}
		p := foreignPool[j]
		if used[p.Path] {
			continue
		}
		used[p.Path] = true
		g.s.Pkgs = append(g.s.Pkgs, p)
	}
	for i, n := 0, g.few(1); i < n; i++ {
		g.s.Pkgs = append(g.s.Pkgs, Pkg{Path: fmt.Sprintf("w%d.org/%s", i, []string{"bar", "foo/bar", "v2"}[g.st.N(3)]), Name: []string{"bar", "", "bar"}[g.st.N(3)]})
	}
	for n := g.st.N(3); n > 0; n-- {
		p := g.drawnPkg()
		if !used[p.Path] {
			used[p.Path] = true
			g.s.Pkgs = append(g.s.Pkgs, p)
		}
	}
	// packages that no earlier run of the process has had
	if g.st.Chance(1, 2) {
		g.s.Pkgs = append(g.s.Pkgs, Pkg{Path: fmt.Sprintf("r/n%d", g.st.N(1<<20))})
	}
	if g.st.Chance(1, 4) {
		g.s.Pkgs = append(g.s.Pkgs, Pkg{Path: fmt.Sprintf("r/n%d/bar", g.st.N(1<<20)), Name: "bar"})
	}
}

var (
	pathSegments = []string{"x", "x/a", "a", "a-b", "a.b", "a+b", "x-y", "x.y", "X", "x~", "v2", "a_b", "ü", "9", "x@v1"}
	// \u0663 is a digit, \u0308 a combining mark, \u01c5 a titlecase and \u4e16 a
	// caseless letter, \u00b2 and \u2160 are numbers that no identifier can have
	baseParts = []string{"foo", "Bar", "bar", "1", "22", "0", "_", "__", "-", ".", "+", "~", "@", "\u0663", "\u0663d", "e\u0308", "\u01c5z", "\u4e16", "\u00b2", "\u2160", "go", "v2", "type", "pkg"}
	keywords  = []string{"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}
	pkgNames  = []string{"foo", "bar", "\u01c5z", "\u4e16", "foo\u0663", "_foo", "foo__", "Bar", "bar22", "foo1", "foo11"}
)

// drawnPkg makes up the path of a package, such that paths that order
// differently by segments than by bytes, and bases that are no identifiers,
// all occur.
func (g *generator) drawnPkg() Pkg {
	var p Pkg
	for n := g.st.N(3); n > 0; n-- {
		p.Path += pathSegments[g.st.N(len(pathSegments))] + "/"
	}
	if p.Path == "" {
		p.Path = "d/"
	}
	switch g.st.N(4) {
	case 0:
		p.Path += keywords[g.st.N(len(keywords))]
	case 1:
		// the last segment is any segment: a path that is a prefix of others
		p.Path += "foo" + []string{"", "-x", ".x", "+x", "/zz", "x", "1", "/1", "_"}[g.st.N(9)]
	default:
		for n := 1 + g.st.N(3); n > 0; n-- {
			p.Path += baseParts[g.st.N(len(baseParts))]
		}
		if strings.HasSuffix(p.Path, "/.") || strings.HasSuffix(p.Path, "/..") {
			p.Path += "x"
		}
	}
	if g.st.Chance(1, 3) {
		p.Name = pkgNames[g.st.N(len(pkgNames))]
	}
	return p
}

func (g *generator) files() {
	n := 1 + g.st.N(g.cfg.Files)
	if g.cfg.Wide && g.cfg.Files > 1 && g.st.Chance(1, 8) {
		n = 6 + g.st.N(12)
		g.wide += 100
	}
	var own []int
	for i, p := range g.s.Pkgs {
		if p.Own {
			own = append(own, i)
		}
	}
	for i := 0; i < n; i++ {
		f := &File{Idx: i, Pkg: own[g.st.N(len(own))], Name: fmt.Sprintf("%c%d.go", 'a'+rune(g.st.N(3)), i)}
		if g.st.Chance(1, 8) {
			f.Name = fmt.Sprintf(fileNames[g.st.N(len(fileNames))], i)
		}
		if g.cfg.Comments && g.st.Chance(1, 4) {
			f.FileComment = "Copyright nobody.\nAll rights foo.Bar."
		}
		if g.cfg.Comments && g.st.Chance(1, 4) {
			f.PkgDoc = "Package is generated."
		}
		if g.st.Chance(1, 8) {
			f.Canonical = g.s.Pkgs[f.Pkg].Path
			if g.st.Chance(1, 2) {
				f.Canonical = "canonical.example/" + f.Canonical
			}
		}
		g.s.Files = append(g.s.Files, f)
	}
}

// foreign returns a package no file belongs to, or Universe.
func (g *generator) foreign() int {
	var l []int
	for i, p := range g.s.Pkgs {
		if !p.Own {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return Universe
	}
	return l[g.st.N(len(l))]
}

func (g *generator) ref() Ref {
	if g.st.Chance(1, 16) {
		return Ref{Pkg: Universe, Name: "error"}
	}
	i := len(g.s.Pkgs) - 1 - g.st.N(len(g.s.Pkgs))
	r := Ref{Pkg: i}
	p := g.s.Pkgs[i]
	if p.Path == "unsafe" {
		r.Name = "Pointer"
		return r
	}
	if p.Name != "" && g.st.Chance(1, 8) {
		r.NoName = true
	}
	r.Name = fmt.Sprintf("S%d", g.st.N(4))
	if g.st.Chance(1, 12) {
		r.Name = fmt.Sprintf("S%d", 4+g.st.N(1<<16))
	}
	return r
}

func (g *generator) real() (Ref, bool) {
	var l []int
	for i, p := range g.s.Pkgs {
		if p.Real > 0 {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return Ref{}, false
	}
	i := l[g.st.N(len(l))]
	names := realNames[g.s.Pkgs[i].Real-1]
	return Ref{Pkg: i, Name: names[g.st.N(len(names))], NoName: true}, true
}

var basics = []reflect.Kind{
	reflect.Int, reflect.String, reflect.Bool, reflect.Uint8, reflect.Int32, reflect.Int8, reflect.Int16,
	reflect.Int64, reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
	reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128,
}

func (g *generator) typ(depth int) *Type {
	if len(g.s.Types) > 0 && g.st.Chance(1, 4) {
		return g.s.Types[g.st.N(len(g.s.Types))]
	}
	if t := g.fromDecl(); t != nil {
		return t
	}
	if len(g.s.made) > 0 && g.st.Chance(1, 8) {
		t := g.twin(g.s.made[g.st.N(len(g.s.made))])
		g.s.made = append(g.s.made, t)
		return t
	}
	via := ViaCtor
	if g.cfg.GoTypes && g.st.Chance(1, 6) {
		via = ViaGo
	}
	if g.cfg.Reflect && g.st.Chance(1, 6) {
		via = ViaReflect
		if g.st.Chance(1, 4) {
			if t := g.static(); t != nil {
				return t
			}
		}
		if _, ok := g.real(); !ok {
			via = ViaCtor
		}
	}
	t := g.typ1(depth, via)
	if via != ViaReflect && g.cfg.Wide && g.wide < 150 && g.st.Chance(1, 20) {
		for i, n := 0, 5+g.st.N(40); i < n; i++ {
			g.wide++
			switch g.st.N(6) {
			case 0:
				t = &Type{K: TPtr, Elem: t}
			case 1:
				t = &Type{K: TArray, Elem: t, Len: 3}
			case 2:
				t = &Type{K: TMap, Elem: t, Key: &Type{K: TBasic, Basic: reflect.String}}
			case 3:
				t = &Type{K: TChan, Elem: t, Dir: []reflect.ChanDir{reflect.BothDir, reflect.RecvDir, reflect.SendDir}[g.st.N(3)]}
			case 4:
				t = &Type{K: TFunc, Sig: &Sig{Args: []Param{{T: t}}}}
			default:
				t = &Type{K: TSlice, Elem: t}
			}
		}
	}
	t.Via = via
	if via != ViaReflect {
		g.s.made = append(g.s.made, t)
	}
	return t
}

// twin makes a type that differs from the given one in one detail.
func (g *generator) twin(t *Type) *Type {
	var pkgs, rest []func()
	ref := func(r *Ref) {
		if r.Pkg == Universe || g.s.Pkgs[r.Pkg].Path == "unsafe" {
			return
		}
		pkgs = append(pkgs, func() {
			var same, other []int
			for i, p := range g.s.Pkgs {
				switch q := g.s.Pkgs[r.Pkg]; {
				case i == r.Pkg || p.Path == "unsafe":
				case p.Name == q.Name || path.Base(p.Path) == path.Base(q.Path):
					same = append(same, i)
				default:
					other = append(other, i)
				}
			}
			if len(same) == 0 || len(other) > 0 && g.st.Chance(1, 4) {
				same = other
			}
			if len(same) == 0 || g.st.Chance(1, 12) {
				r.Name += "1"
				return
			}
			r.Pkg = same[g.st.N(len(same))]
			if g.s.Pkgs[r.Pkg].Name == "" {
				r.NoName = false
			}
		})
	}
	change := func(f func()) { rest = append(rest, f) }
	var typ func(t *Type) *Type
	sig := func(s *Sig) *Sig {
		c := *s
		c.Pool = 0
		c.Args = append([]Param(nil), s.Args...)
		c.Results = append([]Param(nil), s.Results...)
		for i := range c.Args {
			if a := &c.Args[i]; s.Variadic && i == len(c.Args)-1 {
				a.T = &Type{K: TSlice, Elem: typ(a.T.Elem)}
			} else {
				a.T = typ(a.T)
			}
		}
		for i := range c.Results {
			c.Results[i].T = typ(c.Results[i].T)
		}
		if n := len(c.Args); n > 0 && c.Args[n-1].T.K == TSlice && c.Args[n-1].T.From == nil && c.Args[n-1].T.Static == 0 {
			change(func() { c.Variadic = !c.Variadic })
		}
		if n := len(c.Args); n > 0 && !c.Variadic {
			change(func() {
				if !c.Variadic {
					c.Args = c.Args[:n-1]
				}
			})
		}
		if n := len(c.Results); n > 0 {
			change(func() { c.Results = c.Results[:n-1] })
		}
		for i := range c.Args {
			if a := &c.Args[i]; a.Name != "" {
				change(func() { a.Name += "x" })
			}
		}
		return &c
	}
	typ = func(t *Type) *Type {
		if t.From != nil || t.Static != 0 || t.Via == ViaReflect {
			return t
		}
		c := *t
		c.Pool = 0
		switch c.K {
		case TBasic:
			change(func() { c.Basic = basics[g.st.N(len(basics))] })
		case TNamed:
			ref(&c.Ref)
		case TPtr, TSlice:
			c.Elem = typ(t.Elem)
		case TArray:
			c.Elem = typ(t.Elem)
			change(func() { c.Len++ })
		case TMap:
			c.Key, c.Elem = typ(t.Key), typ(t.Elem)
		case TChan:
			c.Elem = typ(t.Elem)
			change(func() {
				c.Dir = []reflect.ChanDir{reflect.BothDir, reflect.RecvDir, reflect.SendDir}[g.st.N(3)]
			})
		case TFunc:
			c.Sig = sig(t.Sig)
		case TStruct:
			c.Fields = append([]Field(nil), t.Fields...)
			for i := range c.Fields {
				f := &c.Fields[i]
				f.T = typ(f.T)
				change(func() { f.Tag = tags[g.st.N(len(tags))] })
				if f.Name != "" {
					change(func() { f.Name += "x" })
				}
			}
			if n := len(c.Fields); n > 0 {
				change(func() { c.Fields = c.Fields[:n-1] })
			}
		case TIface:
			c.Embeds = append([]Ref(nil), t.Embeds...)
			for i := range c.Embeds {
				ref(&c.Embeds[i])
			}
			c.Methods = append([]Method(nil), t.Methods...)
			for i := range c.Methods {
				m := &c.Methods[i]
				m.Sig = sig(m.Sig)
				change(func() { m.Name += "x" })
			}
			if n := len(c.Methods); n > 0 {
				change(func() { c.Methods = c.Methods[:n-1] })
			}
		}
		return &c
	}
	c := typ(t)
	if len(pkgs) > 0 && (len(rest) == 0 || g.st.Chance(2, 3)) {
		pkgs[g.st.N(len(pkgs))]()
	} else if len(rest) > 0 {
		rest[g.st.N(len(rest))]()
	}
	return c
}

// fromDecl picks a type that a declaration hands out.
func (g *generator) fromDecl() *Type {
	if len(g.s.Decls) == 0 || !g.st.Chance(1, 12) {
		return nil
	}
	switch w := g.st.N(4); w {
	case 3:
		return g.funcType()
	case 0, 1:
		d := g.typeDecl(-1)
		if d == nil || w == 1 && d.TS == TSFromSpec {
			return nil
		}
		t := &Type{K: TNamed, From: d, FromWhat: w}
		if w == 0 {
			t.Ref = g.s.declRef(d)
		}
		return t
	}
	d, i := g.ifaceMethod()
	if d == nil {
		return nil
	}
	m := d.Elems[i].Sig
	recv := Param{T: &Type{K: TNamed, Ref: g.s.declRef(d)}}
	return &Type{K: TFunc, From: d, FromElem: i,
		Sig: &Sig{Args: append([]Param{recv}, m.Args...), Results: m.Results, Variadic: m.Variadic}}
}

// funcType picks the type of a function or method.
func (g *generator) funcType() *Type {
	var l []*Decl
	for _, d := range g.s.Decls {
		if d.Kind == DFunc && d.Early {
			l = append(l, d)
		}
	}
	if len(l) == 0 {
		return nil
	}
	d := l[g.st.N(len(l))]
	sig := d.Sig
	if d.Recv != nil {
		recv := Param{Name: d.RecvVar, T: &Type{K: TNamed, Ref: g.s.declRef(d.Recv)}}
		if d.RecvPtr {
			recv.T = &Type{K: TPtr, Elem: recv.T}
		}
		sig = &Sig{Args: append([]Param{recv}, sig.Args...), Results: sig.Results, Variadic: sig.Variadic}
	}
	return &Type{K: TFunc, From: d, Sig: sig}
}

// ifaceMethod picks a method of an interface declaration.
func (g *generator) ifaceMethod() (*Decl, int) {
	type em struct {
		d *Decl
		i int
	}
	var l []em
	for _, d := range g.s.Decls {
		if d.Kind == DType && d.TS == TSIface {
			for i, e := range d.Elems {
				if e.Embed == nil {
					l = append(l, em{d, i})
				}
			}
		}
	}
	if len(l) == 0 {
		return nil, 0
	}
	e := l[g.st.N(len(l))]
	return e.d, e.i
}

// static picks a type that reflection cannot put together.
func (g *generator) static() *Type {
	i := g.st.N(len(staticTypes))
	t := g.bindStatic(staticTypes[i].T)
	if t == nil {
		return nil
	}
	t.Static = i + 1
	t.Via = ViaReflect
	return t
}

func (g *generator) typ1(depth, via int) *Type {
	k := TNamed
	if depth > 0 {
		k = g.st.Pick(8, 10, 4, 4, 2, 3, 3, 3, 3, 2)
		if k == 0 {
			k = TNamed
		} else if k == TNamed {
			k = TBasic
		}
	} else if g.st.Chance(1, 4) {
		k = TBasic
	}
	if via == ViaReflect && k == TIface {
		k = TPtr
	}
	sub := func() *Type {
		if via != ViaCtor {
			return g.typ1(depth-1, via)
		}
		if len(g.s.Types) > 0 && g.st.Chance(1, 6) {
			return g.s.Types[g.st.N(len(g.s.Types))]
		}
		return g.typ1(depth-1, via)
	}
	t := &Type{K: k}
	switch k {
	case TBasic:
		t.Basic = basics[g.st.N(len(basics))]
	case TNamed:
		if via == ViaReflect {
			t.Ref, _ = g.real()
		} else {
			t.Ref = g.ref()
		}
	case TPtr, TSlice:
		t.Elem = sub()
	case TArray:
		t.Elem = sub()
		t.Len = g.st.N(4)
	case TMap:
		t.Key = &Type{K: TBasic, Basic: reflect.String}
		if via == ViaReflect {
			if r, _ := g.real(); r.Name == "T0" && g.st.Chance(1, 2) {
				t.Key = &Type{K: TNamed, Ref: r}
			}
		} else if g.st.Chance(2, 3) {
			t.Key = sub()
		}
		t.Elem = sub()
	case TChan:
		t.Elem = sub()
		t.Dir = []reflect.ChanDir{reflect.BothDir, reflect.RecvDir, reflect.SendDir}[g.st.N(3)]
	case TFunc:
		t.Sig = g.sig(depth-1, via)
	case TStruct:
		n := g.st.N(4)
		embedded := false
		for i := 0; i < n; i++ {
			f := Field{Name: fmt.Sprintf("F%d", i), T: sub()}
			if !embedded && via != ViaReflect && g.st.Chance(1, 5) {
				embedded = true
				f.Name = ""
				f.T = &Type{K: TNamed, Ref: g.ref()}
				if f.T.Ref.Pkg == Universe {
					f.T.Ref = Ref{Pkg: 0, Name: "S9"}
				}
			}
			if g.st.Chance(1, 4) {
				f.Tag = tags[g.st.N(len(tags))]
			}
			t.Fields = append(t.Fields, f)
		}
	case TIface:
		for i, n := 0, g.few(3); i < n; i++ {
			t.Embeds = append(t.Embeds, g.ref())
		}
		for i, n := 0, g.few(3); i < n; i++ {
			t.Methods = append(t.Methods, Method{Name: fmt.Sprintf("M%d", i), Sig: g.sig(depth-1, via)})
		}
	}
	return t
}

var tags = []string{`json:"foo.Bar"`, "a:\"b`c\"", `x`}

func (g *generator) sig(depth, via int) *Sig {
	if via == ViaCtor && len(g.s.Sigs) > 0 && g.st.Chance(1, 5) {
		return g.s.Sigs[g.st.N(len(g.s.Sigs))]
	}
	s := &Sig{}
	sub := func() *Type {
		if via == ViaCtor && len(g.s.Types) > 0 && g.st.Chance(1, 6) {
			return g.s.Types[g.st.N(len(g.s.Types))]
		}
		if depth < 0 {
			depth = 0
		}
		return g.typ1(depth, via)
	}
	names := g.st.N(3)
	if via == ViaReflect {
		names = 0
	}
	n := 0
	param := func() Param {
		p := Param{T: sub()}
		n++
		if names == 1 || names == 2 && g.st.Chance(1, 2) {
			p.Name = fmt.Sprintf("p%d", n)
		}
		return p
	}
	for i, c := 0, g.few(4); i < c; i++ {
		s.Args = append(s.Args, param())
	}
	for i, c := 0, g.few(3); i < c; i++ {
		s.Results = append(s.Results, param())
	}
	if g.st.Chance(1, 4) {
		p := Param{T: &Type{K: TSlice, Elem: sub()}}
		if names == 1 {
			p.Name = "pv"
		}
		s.Args = append(s.Args, p)
		s.Variadic = true
	}
	return s
}

func (g *generator) comment() string {
	if g.cfg.Comments && g.st.Chance(1, 5) {
		return []string{"A comment.", "Two lines\nabout foo.Bar.", "With %s verbs."}[g.st.N(3)]
	}
	return ""
}

// shells creates the declarations; what types consist of belongs to it.
func (g *generator) shells() {
	files := append([]*File{}, g.s.Files...)
	if len(files) > 1 && g.st.Chance(1, 8) {
		// a file may well be empty
		i := g.st.N(len(files))
		files = append(files[:i], files[i+1:]...)
	}
	n := len(files) + g.few(g.cfg.Elems*len(files))
	for i := 0; i < n; i++ {
		file := files[i%len(files)]
		if i >= len(files) {
			file = files[g.st.N(len(files))]
		}
		kind := []int{DVar, DFunc, DType, DConst}[g.st.Pick(5, 6, 5, 3)]
		el := &Element{Kind: kind}
		cnt := 1
		if kind != DFunc {
			el.Comment = g.comment()
			if g.st.Chance(1, 4) {
				cnt = 1 + g.few(3)
			}
			el.Single = cnt == 1 && el.Comment == "" && g.st.Chance(1, 2)
			if !el.Single && g.st.Chance(1, 2) {
				el.Split = g.st.N(cnt + 1)
			}
		}
		for j := 0; j < cnt; j++ {
			d := g.shell(kind, file)
			el.Decls = append(el.Decls, d)
		}
		for _, d := range el.Decls {
			g.s.Decls = append(g.s.Decls, d)
		}
		g.add(file, el)
	}
}

func (g *generator) add(f *File, el *Element) {
	f.Elements = append(f.Elements, el)
	g.s.Order = append(g.s.Order, el)
}

func (g *generator) shell(kind int, file *File) *Decl {
	d := &Decl{Kind: kind, File: file.Idx, Comment: g.comment(), ID: g.nID, Style: g.st.N(4)}
	switch kind {
	case DConst, DVar:
		pre := map[int]string{DConst: "C", DVar: "V"}[kind]
		d.Names = []string{g.id(pre)}
		if g.st.Chance(1, 6) {
			d.Names = append(d.Names, g.id(pre))
		}
	case DType:
		d.Names = []string{g.id("T")}
		g.typeBody(d, 1)
	case DFunc:
		d.Names = []string{g.id("F")}
		if g.st.Chance(1, 3) {
			if t := g.typeDecl(file.Idx); t != nil {
				d.Recv = t
				d.Names = []string{g.id("M")}
				d.RecvPtr = g.st.Chance(1, 2)
				d.RecvVia = g.st.N(3)
				if g.st.Chance(2, 3) {
					d.RecvVar = "r"
				}
			}
		}
		if d.Early = g.st.Chance(1, 3); d.Early {
			d.Sig = g.sig(g.cfg.Depth-1, ViaCtor)
		}
	}
	return d
}

// typeDecl returns a type declared in the file, or nil; -1: in any file.
func (g *generator) typeDecl(file int) *Decl {
	var l []*Decl
	for _, d := range g.s.Decls {
		if d.Kind == DType && (file < 0 || d.File == file) {
			l = append(l, d)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[g.st.N(len(l))]
}

func (g *generator) tos(depth int, anon bool) TOS {
	if g.st.Chance(1, 4) {
		if d := g.typeDecl(-1); d != nil {
			return TOS{Spec: d}
		}
	}
	if anon && g.st.Chance(1, 8) {
		d := &Decl{Kind: DType, TS: TSStruct + g.st.N(2), File: -1}
		g.fields(d, depth-1)
		return TOS{Anon: d}
	}
	return TOS{T: g.typ(depth)}
}

func (g *generator) fields(d *Decl, depth int) {
	switch d.TS {
	case TSStruct:
		for i, n := 0, g.few(4); i < n; i++ {
			f := &FieldD{Name: fmt.Sprintf("F%d", i), Comment: g.comment(), T: g.tos(depth, depth > 0)}
			if g.st.Chance(1, 6) {
				f.Name = ""
				f.T = TOS{T: &Type{K: TNamed, Ref: g.ref()}}
				if t := g.typeDecl(-1); t != nil && g.st.Chance(1, 2) {
					f.T = TOS{Spec: t}
				}
			}
			if g.st.Chance(1, 4) {
				f.Tag = tags[g.st.N(len(tags))]
			}
			d.Fields = append(d.Fields, f)
		}
	case TSIface:
		for i, n := 0, g.few(4); i < n; i++ {
			e := &ElemD{Comment: g.comment()}
			if g.st.Chance(1, 3) {
				r := g.ref()
				e.Embed = &r
			} else {
				e.Name = fmt.Sprintf("M%d", i)
				e.Sig = g.sig(depth, ViaCtor)
				e.Style = g.st.N(2)
			}
			d.Elems = append(d.Elems, e)
		}
	}
}

func (g *generator) typeBody(d *Decl, depth int) {
	d.TS = []int{TSStruct, TSNamed, TSIface, TSAlias, TSFromSpec}[g.st.Pick(4, 4, 3, 1, 1)]
	switch d.TS {
	case TSNamed, TSAlias:
		d.Type = &TOS{T: g.typ(g.cfg.Depth)}
	case TSStruct, TSIface:
		g.fields(d, g.cfg.Depth)
	case TSFromSpec:
		t := g.tos(g.cfg.Depth, true)
		if t.T != nil {
			t = TOS{Anon: &Decl{Kind: DType, TS: TSStruct, File: -1}}
			g.fields(t.Anon, depth)
		}
		d.Type = &t
		d.IsAlias = g.st.Chance(1, 4)
	}
}

func (g *generator) contents() {
	for _, f := range g.s.Files {
		for i, n := 0, g.few(3); i < n; i++ {
			r := g.ref()
			if r.Pkg == Universe {
				continue
			}
			f.Regs = append(f.Regs, Reg{r, g.st.N(4)})
		}
		for _, el := range f.Elements {
			for i, d := range el.Decls {
				g.content(el, i, d)
			}
		}
	}
	for _, f := range g.s.Files {
		if g.cfg.Invalid > 0 && g.st.Chance(g.cfg.Invalid, 100) {
			g.spoil(f)
		}
	}
	if g.cfg.Big && g.st.Chance(1, 3) {
		f := g.s.Files[g.st.N(len(g.s.Files))]
		d := &Decl{Kind: DFunc, File: f.Idx, Names: []string{g.id("F")}, Sig: &Sig{}}
		d.Body = g.block(2, false)
		d.Body.Code = append(d.Body.Code, Code{K: CText, Parts: []Part{{Text: "_ = `" + strings.Repeat("0123456789abcde\n", 2048*(1+g.st.N(10))) + "`\n"}}})
		d.Body.Code = append(d.Body.Code, g.stmts(2)...)
		g.s.Decls = append(g.s.Decls, d)
		g.add(f, &Element{Kind: DFunc, Decls: []*Decl{d}})
	}
}

func (g *generator) content(el *Element, i int, d *Decl) {
	switch d.Kind {
	case DConst:
		if i > 0 && g.st.Chance(1, 3) && len(d.Names) == len(el.Decls[i-1].Names) {
			return // repeats the previous one
		}
		if g.st.Chance(1, 2) {
			t := g.tos(1, false)
			d.Type = &t
		}
		d.Init = g.init(len(d.Names))
	case DVar:
		what := g.st.N(3)
		if what != 0 {
			t := g.tos(g.cfg.Depth, true)
			d.Type = &t
		}
		if what != 1 {
			d.Init = g.init(len(d.Names))
		}
	case DFunc:
		if !d.Early {
			d.Sig = g.sig(g.cfg.Depth-1, ViaCtor)
		}
		d.Body = g.block(g.few(g.cfg.Stmts+1), true)
	}
}

// init returns a block that consists of n expressions.
func (g *generator) init(n int) *Block {
	if n == 1 && len(g.s.Inits) > 0 && g.st.Chance(1, 3) {
		return g.s.Inits[g.st.N(len(g.s.Inits))]
	}
	return g.newInit(n)
}

func (g *generator) newInit(n int) *Block {
	b := &Block{}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.Code = append(b.Code, Code{K: CText, Parts: []Part{{Text: ", "}}})
		}
		var ps []Part
		ps = append(ps, Part{Text: "use("})
		for j, m := 0, 1+g.st.N(3); j < m; j++ {
			if j > 0 {
				ps = append(ps, Part{Text: ", "})
			}
			ps = append(ps, g.argParts()...)
		}
		ps = append(ps, Part{Text: ")"})
		b.Code = append(b.Code, Code{K: CPrintf, Parts: ps})
	}
	return b
}

// argParts returns an expression.
func (g *generator) argParts() []Part {
	a := g.arg(false)
	switch a.K {
	case APkg, APkgPtr, APkgGo:
		a.Name = fmt.Sprintf("S%d", g.st.N(4))
		return []Part{{Arg: a}, {Text: "." + a.Name}}
	case AType, AReflect, AGoType, AAnon:
		return []Part{{Text: "new("}, {Arg: a}, {Text: ")"}}
	}
	return []Part{{Arg: a}}
}

func (g *generator) arg(template bool) *Arg {
	k := []int{ASym, AType, ADecl, ASymPtr, APkg, APkgPtr, AMethRef, AMethRefPtr, AStr, AReflect, AGoType, AGoObj, AGoMethod, APkgGo, AIfaceMethod, AInt, ACallback, AEmbed, ANth, AAnon}[g.st.Pick(8, 8, 8, 3, 3, 2, 2, 2, 2, 3, 3, 3, 2, 2, 3, 1, 2, 1, 1, 2)]
	return g.argOf(k, template)
}

func (g *generator) argOf(k int, template bool) *Arg {
	a := &Arg{K: k}
	switch k {
	case APkg, APkgPtr, APkgGo:
		p := g.foreign()
		if p == Universe || k == APkgGo && !g.cfg.GoTypes {
			return g.argOf(ASym, template)
		}
		a.Ref = Ref{Pkg: p, NoName: g.s.Pkgs[p].Name == ""}
	case ASym, ASymPtr:
		a.Ref = g.ref()
	case AMethRef, AMethRefPtr:
		a.Ref = g.ref()
		a.Name = "Meth"
	case AGoObj, AGoMethod:
		if !g.cfg.GoTypes {
			return g.argOf(ASym, template)
		}
		a.Ref = g.ref()
		a.Name = "Meth"
		a.Elem = g.st.N(4)
	case AType:
		a.T = g.typ(g.cfg.Depth)
	case AReflect:
		if !g.cfg.Reflect {
			return g.argOf(AType, template)
		}
		if g.st.Chance(1, 4) {
			a.T = g.static()
		} else if _, ok := g.real(); ok {
			a.T = g.typ1(g.cfg.Depth, ViaReflect)
			a.T.Via = ViaReflect
		}
		if a.T == nil {
			return g.argOf(AType, template)
		}
	case AGoType:
		if !g.cfg.GoTypes {
			return g.argOf(AType, template)
		}
		a.T = g.typ1(g.cfg.Depth, ViaGo)
		a.T.Via = ViaGo
	case ADecl:
		var l []*Decl
		for _, d := range g.s.Decls {
			if len(d.Names) == 1 {
				l = append(l, d)
			}
		}
		if len(l) == 0 {
			return g.argOf(ASym, template)
		}
		a.D = l[g.st.N(len(l))]
	case AIfaceMethod:
		a.D, a.Elem = g.ifaceMethod()
		if a.D == nil {
			return g.argOf(ASym, template)
		}
	case AEmbed:
		if !template {
			return g.argOf(ASym, template)
		}
		a.Ref = g.ref()
	case ANth:
		var l []*Decl
		for _, d := range g.s.Decls {
			if len(d.Names) > 1 {
				l = append(l, d)
			}
		}
		if len(l) == 0 {
			return g.argOf(ASym, template)
		}
		a.D = l[g.st.N(len(l))]
		a.Elem = g.st.N(len(a.D.Names))
	case AAnon:
		a.D = &Decl{Kind: DType, TS: TSStruct + g.st.N(2), File: -1}
		g.fields(a.D, g.cfg.Depth-1)
	case AStr:
		a.Str = []string{"nil", `"foo.Bar"`, "42"}[g.st.N(3)]
	case AInt:
		a.Elem = g.st.N(100)
	case ACallback:
		if !g.cfg.Callbacks {
			return g.argOf(AStr, template)
		}
	}
	return a
}

func (g *generator) block(n int, shared bool) *Block {
	b := &Block{}
	for i := 0; i < n; i++ {
		if shared && len(g.s.Blocks) > 0 && g.st.Chance(1, 4) {
			b.Code = append(b.Code, Code{K: CBlock, Block: g.s.Blocks[g.st.N(len(g.s.Blocks))]})
			continue
		}
		if shared && len(g.s.Inits) > 0 && g.st.Chance(1, 6) {
			b.Code = append(b.Code, Code{K: CBlock, Block: g.init(1)}, Code{K: CText, Parts: []Part{{Text: "\n"}}})
			continue
		}
		b.Code = append(b.Code, g.stmts(1)...)
	}
	return b
}

func (g *generator) stmts(n int) []Code {
	var cs []Code
	for i := 0; i < n; i++ {
		switch g.st.Pick(8, 4, 2) {
		case 0:
			var ps []Part
			switch g.st.N(4) {
			case 0:
				ps = append(ps, Part{Text: "use("})
				for j, m := 0, 1+g.st.N(3); j < m; j++ {
					if j > 0 {
						ps = append(ps, Part{Text: ", "})
					}
					ps = append(ps, g.argParts()...)
				}
				ps = append(ps, Part{Text: ")"})
			case 1:
				ps = append(ps, Part{Text: "var l "}, Part{Arg: g.argOf(AType, false)})
			case 2:
				ps = append(append(ps, Part{Text: "_ = "}), g.argParts()...)
			case 3:
				ps = append(append(append(ps, Part{Text: "if 7 % 2 == 1 {\nuse("}), g.argParts()...), Part{Text: ").Call()\n}"})
			}
			c := Code{K: CPrintf, Parts: ps, Ln: g.st.Chance(1, 2), Style: g.st.N(3)}
			if !c.Ln {
				c.Parts = append(c.Parts, Part{Text: "\n"})
			}
			cs = append(cs, c)
		case 1:
			if !g.cfg.Templates {
				continue
			}
			var data *Node
			if len(g.s.Data) > 0 && g.st.Chance(1, 3) {
				data = g.s.Data[g.st.N(len(g.s.Data))]
			} else {
				data = g.node(2, true)
			}
			cs = append(cs, Code{K: CTempl, T: &Tmpl{Data: data, Yield: g.cfg.Callbacks && g.st.Chance(1, 4)}, Style: g.st.N(3)})
		case 2:
			cs = append(cs, Code{K: CText, Parts: []Part{{Text: []string{
				"// calls foo.Bar\n", "s := \"foo.Bar %s\"\n", "x.Call(100 % 7)\n", "_ = `raw foo.Bar\n  %d`\n"}[g.st.N(4)]}}, Style: g.st.N(6)})
		}
	}
	return cs
}

func (g *generator) node(depth int, root bool) *Node {
	n := g.node1(depth, root)
	if root && g.cfg.Wide && g.wide < 150 && g.st.Chance(1, 8) {
		// deep
		for i, c := 0, 4+g.st.N(24); i < c; i++ {
			g.wide++
			k := &Node{K: []int{NList, NMap, NStruct}[g.st.N(3)], Kids: []*Node{n}}
			switch k.K {
			case NMap:
				k.Keys = []string{"k"}
			case NStruct:
				for len(k.Refs) < 3 {
					k.Refs = append(k.Refs, g.ref())
				}
				k.T = g.typ1(1, ViaCtor)
			}
			n = k
		}
	}
	return n
}

func (g *generator) node1(depth int, root bool) *Node {
	if len(g.s.Data) > 0 && g.st.Chance(1, 6) {
		return g.s.Data[g.st.N(len(g.s.Data))]
	}
	k := NLeaf
	if depth > 0 {
		k = []int{NStruct, NLeaf, NList, NMap, NSyms, NArr, NTypes, NSymMap, NKeyMap, NIntMap, NPtr, NSig, NHid, NPkgs, NAnyMap, NTyped, NMisc, NDecls, NKeys, NIfcs, NKinds, NLocal}[g.st.Pick(4, 4, 4, 4, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 1, 3, 3, 3, 2, 3, 4, 1)]
	}
	if depth > 0 && g.cfg.Keys && g.st.Chance(1, 2) {
		k = NKinds
	}
	if k == NHid && !g.cfg.Hid {
		k = NStruct
	}
	n := &Node{K: k}
	refs := func(cnt int) {
		for i := 0; i < cnt; i++ {
			n.Refs = append(n.Refs, g.ref())
		}
	}
	switch k {
	case NLeaf:
		n.Arg = g.arg(true)
		switch n.Arg.K {
		case APkg, APkgPtr, APkgGo:
			n.Arg.Name = fmt.Sprintf("S%d", g.st.N(4))
		}
	case NStruct, NHid:
		// A, Next(optional)
		refs(3)
		n.T = g.typ(1)
		for i, c := 0, 1+g.st.N(2); i < c; i++ {
			n.Kids = append(n.Kids, g.node(depth-1, false))
		}
	case NList, NIntMap:
		for i, c := 0, 1+g.few(3); i < c; i++ {
			n.Kids = append(n.Kids, g.node(depth-1, false))
		}
	case NMap:
		for i, c := 0, 1+g.few(4); i < c; i++ {
			n.Keys = append(n.Keys, fmt.Sprintf("k%d", (i*7+3)%100))
			n.Kids = append(n.Kids, g.node(depth-1, false))
		}
	case NSyms:
		refs(1 + g.few(3))
	case NArr:
		refs(2)
	case NPkgs:
		p := g.foreign()
		q := g.foreign()
		if p == Universe {
			n.K = NSyms
			refs(1)
			break
		}
		n.Refs = []Ref{{Pkg: p, Name: "S1", NoName: g.s.Pkgs[p].Name == ""}, {Pkg: q, Name: "S2", NoName: g.s.Pkgs[q].Name == ""}}
	case NTypes:
		for i, c := 0, 1+g.few(3); i < c; i++ {
			n.Kids = append(n.Kids, &Node{T: g.typ(1)})
		}
	case NSymMap, NAnyMap:
		seen := map[[2]interface{}]bool{}
		for i, c := 0, 1+g.few(4); i < c; i++ {
			r := g.ref()
			key := [2]interface{}{r.Pkg, r.Name}
			if r.Pkg != Universe && !seen[key] {
				seen[key] = true
				n.Refs = append(n.Refs, r)
			}
		}
		if k == NAnyMap {
			for range n.Refs {
				n.Kids = append(n.Kids, g.node(0, false))
			}
		}
	case NKeyMap:
		refs(1 + g.few(4))
	case NPtr:
		kid := g.node(depth-1, false)
		switch kid.K {
		case NLeaf, NStruct, NTyped, NPkgs:
		default:
			// templates cannot index or range over a *interface{}
			kid = &Node{K: NLeaf, Arg: g.argOf(ASym, true)}
		}
		n.Kids = []*Node{kid}
	case NSig:
		n.Sig = g.sig(1, ViaCtor)
	case NMisc:
		refs(6)
		n.T = g.typ(1)
		n.Sig = g.sig(1, ViaCtor)
		n.Kids = []*Node{g.node(depth-1, false), g.node(depth-1, false)}
		if p := g.foreign(); p != Universe {
			n.Refs = append(n.Refs, Ref{Pkg: p, Name: "S1", NoName: g.s.Pkgs[p].Name == ""})
		}
	case NKeys:
		refs(5)
		for i := range n.Refs {
			n.Refs[i].Name = fmt.Sprintf("K%d", i)
			if n.Refs[i].Pkg == Universe || g.s.Pkgs[n.Refs[i].Pkg].Path == "unsafe" {
				n.Refs[i] = Ref{Pkg: 0, Name: n.Refs[i].Name}
			}
		}
	case NKinds:
		n.Sel = g.st.N(len(mapKeys))
		var l []int // packages with the same name
		if g.groups < 3 && g.nID < samplerIDs && g.st.Chance(1, 2) {
			// that nothing else has referred to so far
			g.groups++
			for i := 0; i < 3; i++ {
				l = append(l, len(g.s.Pkgs))
				g.s.Pkgs = append(g.s.Pkgs, Pkg{Path: fmt.Sprintf("k%c/zed%c", 'c'-rune(i), 'p'+rune(g.groups)), Name: fmt.Sprintf("zed%c", 'p'+rune(g.groups))})
			}
		} else if g.st.Chance(3, 4) {
			i := g.st.N(len(g.s.Pkgs))
			for j := range g.s.Pkgs {
				k := (i + j) % len(g.s.Pkgs)
				if p := g.s.Pkgs[k]; p.Path != "unsafe" && sameBase(p, g.s.Pkgs[i]) {
					l = append(l, k)
				}
			}
		}
		for i := 0; i < 3; i++ {
			r := g.ref()
			if len(l) > 1 {
				r = Ref{Pkg: l[i%len(l)], Name: fmt.Sprintf("S%d", i)}
			}
			n.Refs = append(n.Refs, r)
		}
		if n.Sel == 0 && len(g.s.Decls) > 2 {
			// pointers to declarations
			at := g.st.N(len(g.s.Decls))
			for i := range g.s.Decls {
				d := g.s.Decls[(at+i)%len(g.s.Decls)]
				if d.Kind == DFunc && d.Recv == nil && len(n.Kids) < 3 {
					n.Kids = append(n.Kids, &Node{K: NLeaf, Arg: &Arg{K: ADecl, D: d}})
				}
			}
		}
	case NIfcs:
		refs(9)
		a := g.arg(true)
		switch a.K {
		case AStr, AInt, ACallback, AEmbed:
			a = g.argOf(ASym, true)
		case APkg, APkgPtr, APkgGo:
			a.Name = fmt.Sprintf("S%d", g.st.N(4))
		}
		n.Kids = []*Node{{K: NLeaf, Arg: a}}
		if g.st.Chance(1, 2) {
			n.Kids = append(n.Kids, g.node(depth-1, false))
		}
		t := g.tos(1, true)
		n.TOS = &t
		n.T = g.typ(1)
	case NLocal:
		refs(1)
		n.Sel = g.st.N(2)
	case NDecls:
		pick := func(ok func(d *Decl) bool, max int) {
			k := &Node{}
			for i, c := 0, g.st.N(max+1); i < c; i++ {
				var l []*Decl
				for _, d := range g.s.Decls {
					if ok(d) {
						l = append(l, d)
					}
				}
				if len(l) > 0 {
					k.Kids = append(k.Kids, &Node{K: NLeaf, Arg: &Arg{K: ADecl, D: l[g.st.N(len(l))]}})
				}
			}
			n.Kids = append(n.Kids, k)
		}
		pick(func(d *Decl) bool { return d.Kind == DVar }, 3)
		pick(func(d *Decl) bool { return d.Kind == DConst }, 2)
		pick(func(d *Decl) bool { return d.Kind == DFunc && d.Recv == nil }, 3)
		pick(func(d *Decl) bool { return d.Kind == DType }, 1)
		if d, i := g.ifaceMethod(); d != nil {
			n.Arg = &Arg{K: AIfaceMethod, D: d, Elem: i}
		}
		refs(1)
		if len(g.s.Order) > 0 && g.st.Chance(1, 2) {
			el := g.s.Order[g.st.N(len(g.s.Order))]
			if el.Kind != DFunc || el.Decls[0].Recv == nil {
				n.Element = el
			}
		}
	case NTyped:
		for i := 0; i < 3; i++ {
			n.Kids = append(n.Kids, &Node{K: NLeaf, Arg: g.argOf(ADecl, true)})
		}
		for i, kid := range n.Kids {
			want := []int{DType, DFunc, DVar}[i]
			if kid.Arg.K != ADecl || kid.Arg.D.Kind != want {
				n.Kids[i] = nil
			}
		}
	}
	return n
}

// sameBase tells whether two packages may end up with the same name.
func sameBase(a, b Pkg) bool {
	base := func(p Pkg) string {
		if p.Name != "" {
			return p.Name
		}
		return path.Base(p.Path)
	}
	return base(a) == base(b)
}

// spoil makes the file impossible to render.
func (g *generator) spoil(f *File) {
	var blocks []*Block
	for _, el := range f.Elements {
		for _, d := range el.Decls {
			if d.Body != nil {
				blocks = append(blocks, d.Body)
			}
		}
	}
	if len(blocks) == 0 {
		d := &Decl{Kind: DFunc, File: f.Idx, Names: []string{g.id("F")}, Sig: &Sig{}, Body: &Block{}}
		g.s.Decls = append(g.s.Decls, d)
		g.add(f, &Element{Kind: DFunc, Decls: []*Decl{d}})
		blocks = append(blocks, d.Body)
	}
	b := blocks[g.st.N(len(blocks))]
	f.Invalid = "abort"
	var c Code
	switch g.st.N(6) {
	case 0:
		f.Invalid = "syntax"
		c = Code{K: CBad, Parts: []Part{{Text: []string{") (\n", "}}\n", "if {{\n", "\x00\n", "\"unterminated\n"}[g.st.N(5)]}}}
	case 1:
		f.Invalid = "syntax"
		c = Code{K: CPrintf, Parts: []Part{{Text: "x := "}, {Arg: &Arg{K: ABoom}}, {Text: "\n"}}}
	case 2:
		c = Code{K: CPrintf, Parts: []Part{{Text: "x := "}, {Arg: &Arg{K: ANil}}, {Text: "\n"}}}
	case 3:
		c = Code{K: CPrintf, Parts: []Part{{Text: "x := "}, {Arg: &Arg{K: AUnattached}}, {Text: "\n"}}}
	case 4:
		c = Code{K: CTempl, T: &Tmpl{Data: g.node(1, true), Fail: AFail}}
	case 5:
		c = Code{K: CTempl, T: &Tmpl{Data: g.node(1, true), Fail: ABoom}}
	}
	at := g.st.N(len(b.Code) + 1)
	b.Code = append(b.Code, Code{})
	copy(b.Code[at+1:], b.Code[at:])
	b.Code[at] = c
}

// SortedRefs returns the references in the order in which templates visit
// map keys that are symbols.
func (s *Spec) SortedRefs(n *Node) []int {
	idx := make([]int, len(n.Refs))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool {
		x, y := n.Refs[idx[a]], n.Refs[idx[b]]
		px, py := s.Path(x.Pkg), s.Path(y.Pkg)
		if px != py {
			return px < py
		}
		return x.Name < y.Name
	})
	return idx
}

// Templates returns the templates of the program.
func (s *Spec) Templates() []*Tmpl {
	var l []*Tmpl
	add := func(b *Block) {
		for i := range b.Code {
			if b.Code[i].K == CTempl {
				l = append(l, b.Code[i].T)
			}
		}
	}
	for _, b := range s.Blocks {
		add(b)
	}
	for _, d := range s.Decls {
		if d.Body != nil {
			add(d.Body)
		}
	}
	return l
}

// Path returns the import path of a package.
func (s *Spec) Path(p int) string {
	if p == Universe {
		return ""
	}
	return s.Pkgs[p].Path
}

// FilePath is the path that is requested from an opener.
func (s *Spec) FilePath(f *File) string { return path.Join(s.Pkgs[f.Pkg].Path, f.Name) }
