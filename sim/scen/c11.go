package scen

import (
	"bytes"
	"fmt"
	"io"

	"github.com/jhump/gopoet"
	"verifsim/choice"
	"verifsim/gen"
	"verifsim/oracle"
	"verifsim/rt"
)

// held is a value of the caller, or one that was handed out to it.
type held struct {
	what string
	v    interface{}
	full bool // also what declarations in it tell
	base string
	form string
}

// inputs is the scenario behind C11: tasks build, qualify and render, also
// without success, while an observer compares everything that the caller has
// passed in with what it was.
type inputs struct {
	*Run
	spec   *gen.Spec
	world  *gen.World
	held   []*held
	lock   []bool // of each file
	active int
	doing  map[int]string
	cb     *choice.Stream
	hand   []string
}

// inputOp is something that a task does.
type inputOp struct {
	kind int
	file int
	mode int
	idx  []int
	t    *gen.Type
	sig  *gen.Sig
	tm   *gen.Tmpl
	ref  gen.Ref
	arg  int
}

const (
	inRender = iota
	inSeveral
	inData
	inTemplate
	inType
	inSig
	inPool
	inQualify
	inAbort
	inPrint
	inKinds
)

func Inputs(run *Run) {
	r := &inputs{Run: run, doing: map[int]string{}}
	st := run.Src.Stream("plan")
	g := run.Src.Stream("gen")
	cfg := run.cfg(g)
	cfg.Files = 1 + g.N(4)
	if st.Chance(1, 3) {
		cfg.Invalid = 25
	}
	r.spec = gen.New(g, cfg)
	r.cb = run.Src.Stream("callbacks")
	r.lock = make([]bool, len(r.spec.Files))
	share := st.Chance(1, 2)

	// building
	r.track("error type", gopoet.ErrorType, false)
	n := 1 + st.N(3)
	shell := false
	run.inQuiet(func() {
		r.world = gen.NewWorldWith(r.spec, r.callback, func(in gen.Input) { r.track(in.What, in.V, false) })
		if share {
			r.world.Share()
		}
		shell = true
	})
	if !shell {
		return
	}
	type part struct{ file, part int }
	todo := make([][]part, n)
	for i := range r.spec.Files {
		for p := 0; p < r.world.Parts(i); p++ {
			k := st.N(n)
			todo[k] = append(todo[k], part{i, p})
		}
	}
	var fns []func()
	for k := range todo {
		order := shuffled(st, len(todo[k]))
		fns = append(fns, func() {
			for _, o := range order {
				p := todo[k][o]
				r.with(p.file, func() {
					r.doing[k] = "building " + r.spec.FilePath(r.spec.Files[p.file])
					r.world.Part(p.file, p.part)
				})
			}
		})
	}
	if !r.observed("builder", st, fns) {
		return
	}

	// using
	complete := false
	run.inQuiet(func() {
		for _, h := range r.held {
			h.full = true
			h.base, h.form = oracle.Snapshot(h.v, false), oracle.Shape(h.v)
		}
		r.hand = r.world.Handouts(oracle.Shape)
		complete = true
	})
	if !complete {
		return
	}
	smp := r.spec.Sampler(st, cfg)
	fns = nil
	for k, m := 0, 1+st.N(4); k < m; k++ {
		var ops []inputOp
		for i, c := 0, 1+st.N(5); i < c; i++ {
			op := inputOp{kind: st.Pick(6, 2, 4, 2, 2, 2, 3, 1, 2, 1), file: st.N(len(r.spec.Files)), mode: st.Pick(4, 1, 1, 1, 1), arg: st.N(8)}
			switch op.kind {
			case inSeveral:
				op.idx = shuffled(st, len(r.spec.Files))[:1+st.N(len(r.spec.Files))]
			case inData, inTemplate, inAbort:
				op.tm = smp.Tmpl()
			case inType:
				op.t = smp.Type()
			case inSig:
				op.sig = smp.Sig()
			case inQualify:
				op.ref = smp.Ref()
			}
			ops = append(ops, op)
		}
		fns = append(fns, func() {
			for _, op := range ops {
				if r.Failed() {
					return
				}
				r.do(k, op)
				r.check("after " + r.doing[k])
				delete(r.doing, k)
			}
		})
	}
	if len(fns) > 1 {
		run.Nontrivial = true
	}
	r.observed("task", st, fns)
}

// observed runs the functions next to an observer.
func (r *inputs) observed(name string, st *choice.Stream, fns []func()) bool {
	obs := r.Src.Stream("observer." + name)
	every := []int{30, 200, 1000, 5000}[obs.N(4)]
	r.active = len(fns)
	var all []func()
	for _, fn := range fns {
		all = append(all, func() {
			defer func() { r.active-- }()
			fn()
		})
	}
	all = append(all, func() {
		for looks := 0; r.active > 0 && looks < 60 && !r.Failed(); looks++ {
			next := rt.Steps + uint64(1+obs.N(2*every))
			rt.WaitFor(func() bool { return rt.Steps >= next || r.active == 0 })
			r.check("during " + r.current())
		}
	})
	_, stuck, crash := r.runTasks(name, all...)
	if stuck != "" {
		r.Fail("C11", "an operation does not end: %s", stuck)
	}
	return crash == "" && !r.Failed()
}

func (r *inputs) current() string {
	s := ""
	for k := 0; k < 8; k++ {
		if d, ok := r.doing[k]; ok {
			if s != "" {
				s += " and "
			}
			s += d
		}
	}
	if s == "" {
		return "no operation"
	}
	return s
}

// track remembers what a value is like.
func (r *inputs) track(what string, v interface{}, full bool) {
	if t := rt.Cur; t != nil {
		t.Busy++
		defer func() { t.Busy-- }()
	}
	r.held = append(r.held, &held{what, v, full, oracle.Snapshot(v, !full), oracle.Shape(v)})
}

// check compares.
func (r *inputs) check(when string) {
	t := rt.Cur
	t.Busy++
	defer func() { t.Busy-- }()
	r.Counts["comparisons of all inputs"]++
	for _, h := range r.held {
		if oracle.Snapshot(h.v, !h.full) == h.base {
			continue
		}
		now := oracle.Shape(h.v)
		if now == h.form {
			now = "equal, but stored elsewhere"
		}
		r.Fail("C11", "%s: %s passed in by the caller is not what it was: %s; before: %s", when, h.what, text(clipAt(now, h.form)), text(clipAt(h.form, now)))
		return
	}
	if r.hand == nil {
		return
	}
	now := r.world.Handouts(oracle.Shape)
	for i := range now {
		if i >= len(r.hand) || now[i] != r.hand[i] {
			old := ""
			if i < len(r.hand) {
				old = r.hand[i]
			}
			r.Fail("C11", "%s: a declaration is not what it was: %s; before: %s", when, text(clipAt(now[i], old)), text(clipAt(old, now[i])))
			return
		}
	}
}

func (r *inputs) callback(what string) {
	if rt.Cur == nil || r.active == 0 {
		return
	}
	r.Counts["callbacks during rendering"]++
	if r.cb.Chance(1, 4) {
		r.check("during " + r.current() + ", seen from a callback")
	}
	rt.Point(20000)
}

// with runs fn while no other task uses the file.
func (r *inputs) with(file int, fn func()) {
	rt.WaitFor(func() bool { return !r.lock[file] })
	r.lock[file] = true
	defer func() { r.lock[file] = false }()
	fn()
}

// do makes one operation.
func (r *inputs) do(k int, op inputOp) {
	w := r.world
	name := r.spec.FilePath(r.spec.Files[op.file])
	own := r.spec.Path(r.spec.Files[op.file].Pkg)
	table := func() *gopoet.Imports {
		switch op.arg % 3 {
		case 0:
			return &gopoet.Imports{}
		case 1:
			return gopoet.NewImportsFor(own)
		}
		// one in which names are taken
		t := gopoet.NewImportsFor("the/table")
		for i := range r.spec.Pkgs {
			p := &r.spec.Pkgs[len(r.spec.Pkgs)-1-i]
			t.RegisterImport("taken/"+p.Path, p.Name)
		}
		return t
	}
	// what gopoet returns is the caller's from then on
	keep := func(what string, v interface{}) {
		if len(r.held) < 150 {
			r.track(what, v, true)
		}
	}
	guard := func(fn func()) {
		_, _, ret := guarded(func() error {
			fn()
			return nil
		})
		if !ret {
			r.Counts["operations that panicked"]++
		}
	}
	r.Counts["operations"]++
	switch op.kind {
	case inRender:
		r.doing[k] = "rendering " + name
		r.with(op.file, func() {
			render(w.Files[op.file], &sink{mode: op.mode, pause: func() { r.callback("write") }})
		})
		if op.mode != sinkOK {
			r.Faults[sinkNames[op.mode]]++
		}
	case inSeveral:
		r.doing[k] = "rendering several files"
		var files []*gopoet.GoFile
		for _, i := range op.idx {
			files = append(files, w.Files[i])
		}
		rt.WaitFor(func() bool {
			for _, i := range op.idx {
				if r.lock[i] {
					return false
				}
			}
			return true
		})
		for _, i := range op.idx {
			r.lock[i] = true
		}
		defer func() {
			for _, i := range op.idx {
				r.lock[i] = false
			}
		}()
		n := 0
		guard(func() {
			gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) {
				n++
				if op.mode != sinkOK && n > op.arg/2 {
					r.Faults["opener error"]++
					return nil, errOpen
				}
				return &sink{pause: func() { r.callback("write") }}, nil
			}, files...)
		})
	case inData, inTemplate:
		r.doing[k] = "qualifying template data"
		guard(func() {
			tm, data := w.Template(op.tm)
			r.track("template data", data, true)
			t := table()
			q := t.QualifyTemplateData(data)
			keep("qualified template data", q)
			if op.kind == inTemplate {
				tm.Execute(&bytes.Buffer{}, q)
			}
			if op.arg >= 4 {
				// what was handed out serves as input again
				r.doing[k] = "qualifying qualified template data"
				keep("twice qualified template data", gopoet.NewImportsFor("another/table").QualifyTemplateData(q))
			}
		})
	case inType:
		r.doing[k] = "qualifying a type"
		guard(func() {
			x := w.Type(op.t)
			r.track("type", x, true)
			t := table()
			q := t.EnsureTypeImported(x)
			keep("qualified type", q)
			keep("qualified type", t.QualifyType(x))
			_ = q.String()
		})
	case inSig:
		r.doing[k] = "qualifying a signature"
		guard(func() {
			x := w.Signature(op.sig)
			r.track("signature", x, true)
			t := table()
			keep("qualified signature", t.EnsureAllTypesImported(x))
			keep("qualified signature", t.QualifySignature(x))
		})
	case inPool:
		r.doing[k] = "qualifying shared types and data"
		t := table()
		for _, x := range w.SharedTypes() {
			if x != nil {
				guard(func() { keep("qualified type", t.EnsureTypeImported(x)) })
			}
		}
		for _, x := range w.SharedData() {
			if x != nil {
				guard(func() { keep("qualified template data", t.QualifyTemplateData(x)) })
			}
		}
	case inQualify:
		r.doing[k] = "qualifying with an empty table"
		t := &gopoet.Imports{}
		guard(func() { t.Qualify(w.Sym(op.ref)) })
		for _, x := range w.SharedTypes() {
			if x != nil {
				guard(func() { t.QualifyType(x) })
			}
		}
	case inAbort:
		r.doing[k] = "qualifying template data that cannot be"
		guard(func() {
			_, data := w.Template(op.tm)
			bad := []interface{}{data, map[string]interface{}{"a": brokenType{}, "b": data}, data}
			if op.arg%2 == 1 {
				inner := []interface{}{data}
				bad = []interface{}{&gen.S1{A: data, B: &inner}, map[interface{}]interface{}{1: data, 2: []interface{}{data, brokenType{}}}}
			}
			r.track("template data", bad, true)
			r.Faults["operation that aborts midway"]++
			table().QualifyTemplateData(bad)
		})
	case inPrint:
		r.doing[k] = "printing declarations and types"
		for _, el := range r.spec.Order {
			for _, d := range el.Decls {
				_ = fmt.Sprint(w.Decl(d))
			}
		}
		for _, x := range w.SharedTypes() {
			if x != nil {
				_ = x.String()
			}
		}
	}
}
