package scen

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
	"verifsim/choice"
	"verifsim/gen"
	"verifsim/oracle"
	"verifsim/rt"
)

// entry of an import table.
type entry struct{ prefix, alias string }

// table is an import table that several clients use under a lock.
type table struct {
	r      *tables
	name   string
	im     *gopoet.Imports
	own    int // package index; -2: none
	file   int // -1: the table does not belong to a file
	locked bool
	state  map[string]entry
}

type tables struct {
	*Run
	spec   *gen.Spec
	world  *gen.World
	tables []*table
	place  map[string]string
}

// Kinds of operations.
const (
	opRegister = iota
	opEnsure
	opEnsureType
	opEnsureSig
	opData
	opTemplate
	opPrefix
	opQualify
	opQualifyType
	opQualifySig
	opAbortSig
	opAbortData
	opRender
	opList
)

type tableOp struct {
	kind int
	tab  int
	ref  gen.Ref
	t    *gen.Type
	sig  *gen.Sig
	tm   *gen.Tmpl
	via  int
	mode int
}

// brokenType is a type that no conversion knows.
type brokenType struct{}

func (brokenType) Underlying() types.Type { return brokenType{} }
func (brokenType) String() string         { return "broken" }

func Tables(run *Run) {
	r := &tables{Run: run}
	st := run.Src.Stream("plan")
	g := run.Src.Stream("gen")
	r.spec = run.program(g, st.Chance(1, 4))
	cfg := run.cfg(g)
	r.place = oracle.Placeholders(r.spec)
	built := false
	run.inQuiet(func() {
		r.world = gen.Build(r.spec, func(string) {
			if built {
				rt.Point(20000)
			}
		})
		built = true
	})
	if !built {
		return
	}
	for i, n := 0, 1+st.N(2); i < n; i++ {
		t := &table{r: r, name: fmt.Sprintf("table %d", i+1), file: -1, state: map[string]entry{}}
		switch st.N(4) {
		case 0, 1:
			// a package of its own: a reference to the package itself could
			// not be printed
			t.own = r.spec.Files[st.N(len(r.spec.Files))].Pkg
			run.inQuiet(func() { t.im = gopoet.NewImportsFor(r.spec.Path(t.own)) })
		case 2:
			t.file = st.N(len(r.spec.Files))
			t.own = r.spec.Files[t.file].Pkg
			t.im = &r.world.Files[t.file].Imports
			for _, o := range r.tables {
				if o.file == t.file { // has been taken
					t.file = -1
					run.inQuiet(func() { t.im = gopoet.NewImportsFor(r.spec.Path(t.own)) })
				}
			}
		case 3:
			t.own = -2
			for i, p := range r.spec.Pkgs {
				if p.Path == "" {
					t.own = i // the zero table is its table
				}
			}
			t.im = &gopoet.Imports{}
		}
		r.tables = append(r.tables, t)
	}
	// what the tables start with
	ok := false
	run.inQuiet(func() {
		for _, t := range r.tables {
			t.state, _ = t.observe("at the start")
		}
		ok = true
	})
	if !ok || run.Failed() {
		return
	}
	var fns []func()
	total := 0
	for c, n := 0, 1+st.N(4); c < n; c++ {
		cs := run.Src.Stream(fmt.Sprintf("client.%d", c))
		smp := r.spec.Sampler(cs, cfg)
		var ops []*tableOp
		for k, m := 0, 1+cs.N(8); k < m; k++ {
			ops = append(ops, r.op(cs, smp))
		}
		total += len(ops)
		fns = append(fns, func() {
			for k, op := range ops {
				if r.Failed() {
					return
				}
				r.tables[op.tab].do(fmt.Sprintf("client %d, operation %d", c+1, k+1), op)
				rt.Point(20001)
			}
		})
	}
	_, stuck, _ := run.runTasks("client", fns...)
	if stuck != "" {
		run.Fail("C09", "an operation on an import table does not end: %s", stuck)
	}
	run.Nontrivial = len(fns) > 1
	run.Counts["operations on import tables"] += total
}

func (r *tables) op(cs *choice.Stream, smp *gen.Sampler) *tableOp {
	op := &tableOp{tab: cs.N(len(r.tables)), via: cs.N(4)}
	op.kind = cs.Pick(6, 5, 5, 3, 3, 3, 3, 3, 2, 1, 1, 1, 3, 1)
	switch op.kind {
	case opRegister, opEnsure, opPrefix, opQualify:
		op.ref = smp.Ref()
	case opEnsureType, opQualifyType:
		op.t = smp.Type()
	case opEnsureSig, opQualifySig, opAbortSig:
		op.sig = smp.Sig()
	case opData, opTemplate, opAbortData:
		op.tm = smp.Tmpl()
	case opRender:
		op.mode = cs.Pick(3, 1, 1, 1, 1)
		if r.tables[op.tab].file < 0 {
			op.kind = opRegister
			op.ref = smp.Ref()
		}
	}
	return op
}

// do makes one operation while holding the lock.
func (t *table) do(who string, op *tableOp) {
	r := t.r
	w := r.world
	rt.WaitFor(func() bool { return !t.locked })
	t.locked = true
	defer func() { t.locked = false }()
	own := t.own
	var what string
	var x *gen.Expected // packages, and the text of the result
	var form string     // of the result, with %s for the text
	var got string
	registers := true // the operation may register packages
	abort := false    // it may fail
	times := 1        // the result may serve as input once more
	if op.via == 3 {
		times = 2
	}
	var do func()
	note := func(sym gopoet.Symbol, ref gen.Ref) {
		if sym.Name != ref.Name || sym.Package.ImportPath != r.spec.Path(ref.Pkg) {
			r.Fail("C09", "%s on %s: %s of %v returns another element: %v", who, t.name, what, w.Sym(ref), sym)
		}
		got = sym.String()
	}
	switch op.kind {
	case opRegister:
		p := w.Pkg(op.ref)
		if p.ImportPath == "" {
			return
		}
		ref := op.ref
		ref.Name = "Elem"
		x, form = r.spec.RefText(own, ref), "var _ %s"
		what = fmt.Sprintf("registering %q (%s)", p.ImportPath, p.Name)
		do = func() {
			if op.via%2 == 0 {
				got = t.im.RegisterImport(p.ImportPath, p.Name) + "Elem"
			} else {
				got = t.im.RegisterImportForPackage(p) + "Elem"
			}
		}
	case opEnsure, opQualify:
		x, form = r.spec.RefText(own, op.ref), "var _ %s"
		sym := w.Sym(op.ref)
		if op.kind == opEnsure {
			what = "EnsureImported"
			do = func() {
				for i := 0; i < times; i++ {
					sym = t.im.EnsureImported(sym)
				}
				note(sym, op.ref)
			}
		} else {
			what, registers = "Qualify", false
			do = func() { note(t.im.Qualify(sym), op.ref) }
		}
		what += fmt.Sprintf(" of %s in %q", op.ref.Name, sym.Package.ImportPath)
	case opPrefix:
		if op.ref.Pkg == gen.Universe {
			return
		}
		ref := op.ref
		ref.Name = "Elem"
		x, form = r.spec.RefText(own, ref), "var _ %s"
		p := r.spec.Path(op.ref.Pkg)
		what, registers = fmt.Sprintf("PrefixForPackage of %q", p), false
		do = func() { got = t.im.PrefixForPackage(p) + "Elem" }
	case opEnsureType, opQualifyType:
		x, form = r.spec.TypeText(own, op.t), "var _ %s"
		tn := w.Type(op.t)
		if op.kind == opEnsureType {
			what = "EnsureTypeImported of " + tn.String()
			do = func() {
				for i := 0; i < times; i++ {
					tn = t.im.EnsureTypeImported(tn)
				}
				got = tn.String()
			}
		} else {
			what, registers = "QualifyType of "+tn.String(), false
			do = func() {
				for i := 0; i < times; i++ {
					tn = t.im.QualifyType(tn)
				}
				got = tn.String()
			}
		}
	case opEnsureSig, opQualifySig:
		x, form = r.spec.SigText(own, op.sig), "var _ func%s"
		sig := w.Signature(op.sig)
		str := func(s *gopoet.Signature) string {
			return strings.TrimPrefix(gopoet.FuncTypeFromSig(s).String(), "func")
		}
		if op.kind == opEnsureSig {
			what = "EnsureAllTypesImported of func" + str(sig)
			do = func() {
				for i := 0; i < times; i++ {
					sig = t.im.EnsureAllTypesImported(sig)
				}
				got = str(sig)
			}
		} else {
			what, registers = "QualifySignature of func"+str(sig), false
			do = func() {
				for i := 0; i < times; i++ {
					sig = t.im.QualifySignature(sig)
				}
				got = str(sig)
			}
		}
	case opData, opTemplate:
		x = r.spec.TmplText(own, op.tm)
		tm, data := w.Template(op.tm)
		what = "QualifyTemplateData"
		if op.kind == opTemplate {
			form = "func _() {\n%s}\n"
		}
		do = func() {
			q := t.im.QualifyTemplateData(data)
			if times > 1 {
				q = t.im.QualifyTemplateData(q)
			}
			if op.kind == opTemplate {
				var b bytes.Buffer
				if err := tm.Execute(&b, q); err != nil {
					panic(err)
				}
				got = b.String()
			}
		}
	case opAbortSig:
		x = r.spec.SigText(own, op.sig)
		sig := w.Signature(op.sig)
		bad := &gopoet.Signature{}
		at := 0
		if len(sig.Args) > 0 {
			at = op.via % len(sig.Args)
		}
		bad.Args = append(append(append(bad.Args, sig.Args[:at]...), gopoet.ArgType{Name: "bad"}), sig.Args[at:]...)
		bad.Results = sig.Results
		what, abort = "EnsureAllTypesImported of an invalid signature", true
		do = func() { t.im.EnsureAllTypesImported(bad) }
		r.Faults["operation that aborts midway"]++
	case opAbortData:
		x = r.spec.TmplText(own, op.tm)
		_, data := w.Template(op.tm)
		bad := []interface{}{data, map[string]interface{}{"a": brokenType{}, "b": data}, data}
		what, abort = "QualifyTemplateData of data with an unsupported type", true
		do = func() { t.im.QualifyTemplateData(bad) }
		r.Faults["operation that aborts midway"]++
	case opRender:
		f := r.spec.Files[t.file]
		x = r.spec.Expect(f)
		what, abort = "rendering "+r.spec.FilePath(f), true
		do = func() {
			s := &sink{mode: op.mode, pause: func() { rt.Point(20002) }}
			o := render(w.Files[t.file], s)
			if o.ok {
				abort = false
				t.sameImports(who, s.data)
			}
		}
		if op.mode != 0 {
			r.Faults[sinkNames[op.mode]]++
		}
	case opList:
		x = r.spec.RefText(own, gen.Ref{Pkg: gen.Universe, Name: "error"})
		what, registers = "ImportSpecs", false
		do = func() { t.im.ImportSpecs() }
	}
	before := t.state
	missing := ""
	for _, p := range gen.SortedKeys(x.Must) {
		if _, ok := before[r.spec.Path(p)]; !ok {
			missing = r.spec.Path(p)
		}
	}
	_, pan, ret := guarded(func() error {
		do()
		return nil
	})
	if r.Verbose {
		r.Note("%s on %s: %s: %s (panic: %v)", who, t.name, what, text(got), pan)
	}
	switch {
	case !registers && missing != "" && ret:
		r.Fail("C09", "%s on %s: %s succeeds (%s) although %q was never registered", who, t.name, what, text(got), missing)
		return
	case !registers && missing == "" && !ret:
		r.Fail("C09", "%s on %s: %s panics although everything is registered: %s", who, t.name, what, text(pan))
		return
	case registers && !ret && !abort:
		r.Fail("C09", "%s on %s: %s panics: %s", who, t.name, what, text(pan))
		return
	}
	if !ret {
		r.Counts["operations that panicked"]++
	}
	after, ok := t.observe("after " + what + " by " + who)
	if !ok {
		return
	}
	// what was handed out stays
	for p, e := range before {
		if n, ok := after[p]; !ok {
			r.Fail("C09", "%s on %s: %s removes %q from the table", who, t.name, what, p)
			return
		} else if n != e {
			r.Fail("C09", "%s on %s: %s changes the import of %q from %v to %v", who, t.name, what, p, e, n)
			return
		}
	}
	// what is new was asked for
	idx := map[string]int{}
	for i := range r.spec.Pkgs {
		idx[r.spec.Pkgs[i].Path] = i
	}
	users := map[string]string{}
	for p, e := range after {
		users[e.prefix] = p
	}
	for _, p := range sortedEntries(after) {
		if _, ok := before[p]; ok {
			continue
		}
		e := after[p]
		i, known := idx[p]
		if !registers || !known || !x.Must[i] && !x.May[i] {
			r.Fail("C09", "%s on %s: %s registers %q, which it does not refer to", who, t.name, what, p)
			return
		}
		declared := r.spec.Pkgs[i].Name
		named, unnamed := x.Named[i], x.Unnamed[i]
		if named && e.prefix == declared && !unnamed && e.alias != "" {
			r.Fail("C09", "%s on %s: %q has its declared name, but is listed with the alias %s", who, t.name, p, e.alias)
			return
		}
		if e.alias == "" && e.prefix != declared {
			r.Fail("C09", "%s on %s: %q is listed without an alias, but its prefix %s is not its declared name %q", who, t.name, p, e.prefix, declared)
			return
		}
		if !named && e.alias == "" {
			r.Fail("C09", "%s on %s: %q is listed without an alias, but its name is not known", who, t.name, p)
			return
		}
		if named && !unnamed && e.prefix != declared && users[declared] == "" {
			r.Fail("C09", "%s on %s: %q gets the prefix %s although its declared name %s is free", who, t.name, p, e.prefix, declared)
			return
		}
	}
	t.state = after
	if ret && !abort {
		for _, p := range gen.SortedKeys(x.Must) {
			if _, ok := after[r.spec.Path(p)]; !ok {
				r.Fail("C09", "%s on %s: %s does not register %q", who, t.name, what, r.spec.Path(p))
				return
			}
		}
	}
	if !ret || form == "" {
		return
	}
	// what was returned uses the prefixes
	names := map[string]string{}
	for p, e := range after {
		names[e.prefix] = p
	}
	want, err := oracle.Canon("package p\n"+fmt.Sprintf(form, x.Source), r.place)
	if err != nil {
		panic(fmt.Sprintf("%v in %s", err, x.Source)) // the generator is broken
	}
	have, err := oracle.Canon("package p\n"+fmt.Sprintf(form, got), names)
	if err != nil {
		r.Fail("C09", "%s on %s: %s gives %q, which is not Go: %v", who, t.name, what, text(got), err)
		return
	}
	if want != have {
		r.Fail("C09", "%s on %s: %s gives %q, which is not qualified according to the table: %s", who, t.name, what, text(got), differ([]byte(want), []byte(have)))
	}
}

// observe reads a table through its public methods and checks what has to
// hold at all times.
func (t *table) observe(when string) (map[string]entry, bool) {
	r := t.r
	m := map[string]entry{}
	specs := t.im.ImportSpecs()
	users := map[string]string{}
	own := ""
	if t.own >= 0 {
		own = r.spec.Path(t.own)
	}
	for i, s := range specs {
		if i > 0 && specs[i-1].ImportPath >= s.ImportPath {
			r.Fail("C09", "%s: the import list of %s is not sorted by path, or names a path twice: %v", when, t.name, specs)
			return nil, false
		}
		if s.ImportPath == own {
			r.Fail("C09", "%s: the import list of %s has its own package %q", when, t.name, own)
			return nil, false
		}
		var prefix string
		_, pan, ret := guarded(func() error {
			prefix = t.im.PrefixForPackage(s.ImportPath)
			return nil
		})
		if !ret {
			r.Fail("C09", "%s: %s lists %q, but a lookup of it panics: %s", when, t.name, s.ImportPath, text(pan))
			return nil, false
		}
		e := entry{strings.TrimSuffix(prefix, "."), s.PackageAlias}
		if e.prefix+"." != prefix || !token.IsIdentifier(e.prefix) || e.prefix == "_" {
			r.Fail("C09", "%s: the prefix of %q in %s is %q", when, s.ImportPath, t.name, prefix)
			return nil, false
		}
		if e.alias != "" && e.alias != e.prefix {
			r.Fail("C09", "%s: the prefix of %q in %s is %q, but its alias is %q", when, s.ImportPath, t.name, prefix, e.alias)
			return nil, false
		}
		if x := strings.TrimSpace(s.PackageAlias + " " + strconv.Quote(s.ImportPath)); s.String() != x {
			r.Fail("C09", "%s: an entry of the import list of %s reads %s, not %s", when, t.name, s.String(), x)
			return nil, false
		}
		if other, ok := users[e.prefix]; ok {
			r.Fail("C09", "%s: %q and %q have the same prefix %s in %s", when, other, s.ImportPath, e.prefix, t.name)
			return nil, false
		}
		users[e.prefix] = s.ImportPath
		m[s.ImportPath] = e
	}
	// the list is the caller's to modify
	for i := range specs {
		specs[i] = gopoet.ImportSpec{PackageAlias: "spoiled", ImportPath: "spoiled"}
	}
	if own != "" {
		var prefix string
		_, pan, ret := guarded(func() error {
			prefix = t.im.PrefixForPackage(own)
			return nil
		})
		if !ret || prefix != "" {
			r.Fail("C09", "%s: the prefix of %s's own package is %q (%s)", when, t.name, prefix, text(pan))
			return nil, false
		}
	}
	// lookups of what was never registered
	for _, p := range r.spec.Pkgs {
		if _, ok := m[p.Path]; ok || p.Path == own {
			continue
		}
		var prefix string
		_, _, ret := guarded(func() error {
			prefix = t.im.PrefixForPackage(p.Path)
			return nil
		})
		if ret {
			r.Fail("C09", "%s: %s does not list %q, but a lookup of it gives %q", when, t.name, p.Path, prefix)
			return nil, false
		}
	}
	return m, true
}

// sameImports checks that a rendered file imports what its table lists.
func (t *table) sameImports(who string, src []byte) {
	r := t.r
	af, err := parser.ParseFile(token.NewFileSet(), "", src, parser.ImportsOnly)
	if err != nil {
		r.Fail("C09", "%s on %s: the rendered file cannot be parsed: %v", who, t.name, err)
		return
	}
	var got []string
	for _, s := range af.Imports {
		got = append(got, importText(s))
	}
	var want []string
	for _, s := range t.im.ImportSpecs() {
		x := strconv.Quote(s.ImportPath)
		if s.PackageAlias != "" {
			x = s.PackageAlias + " " + x
		}
		want = append(want, x)
	}
	if strings.Join(oracle.SortedStrings(got), "\n") != strings.Join(oracle.SortedStrings(want), "\n") {
		r.Fail("C09", "%s on %s: the rendered file imports %v, its table lists %v", who, t.name, got, want)
	}
}

func importText(s *ast.ImportSpec) string {
	x := s.Path.Value
	if p, err := strconv.Unquote(x); err == nil {
		x = strconv.Quote(p)
	}
	if s.Name != nil {
		x = s.Name.Name + " " + x
	}
	return x
}

func sortedEntries(m map[string]entry) []string {
	s := map[string]string{}
	for k := range m {
		s[k] = ""
	}
	return sortedPaths(s)
}
