package scen

import (
	"io"

	"github.com/jhump/gopoet"
	"verifsim/choice"
	"verifsim/gen"
	"verifsim/oracle"
	"verifsim/rt"
)

// References is the scenario behind C10: several builders fill in the files
// of a program in an order decided by the scheduler, packages are looked up
// and registered in between, and the files are rendered concurrently, after
// and between failed attempts.
type references struct {
	*Run
	spec  *gen.Spec
	world *gen.World
	wants []*oracle.Want
	extra []map[string]bool // registered explicitly besides
	lock  []bool            // of each file
	outs  [][]outcome
	names []string
}

// refOp is something that a builder does to a file.
type refOp struct {
	file int
	part int // -1: a lookup
	kind int
	ref  gen.Ref
	t    *gen.Type
	tm   *gen.Tmpl
	mode int
}

func References(run *Run) {
	r := &references{Run: run}
	st := run.Src.Stream("plan")
	g := run.Src.Stream("gen")
	cfg := run.cfg(g)
	cfg.Files = 1 + g.N(4)
	if st.Chance(1, 4) {
		cfg.Invalid = 25
	}
	r.spec = gen.New(g, cfg)
	for _, f := range r.spec.Files {
		w, err := oracle.Expect(r.spec, f)
		if err != nil && f.Invalid == "" {
			panic(err)
		}
		r.wants = append(r.wants, w)
		r.extra = append(r.extra, map[string]bool{})
		r.names = append(r.names, r.spec.FilePath(f))
	}
	r.lock = make([]bool, len(r.spec.Files))
	r.outs = make([][]outcome, len(r.spec.Files))
	built := false
	_, pan := run.inQuiet(func() {
		r.world = gen.NewWorld(r.spec, func(string) { rt.Point(20000) })
		if st.Chance(1, 2) {
			r.world.Share()
		}
		built = true
	})
	if !built {
		if pan != nil {
			run.Fail("C10", "building a valid program: panic: %s", text(pan))
		}
		return
	}
	// builders
	smp := r.spec.Sampler(st, cfg)
	n := 1 + st.N(4)
	todo := make([][]refOp, n)
	for i := range r.spec.Files {
		for p := 0; p < r.world.Parts(i); p++ {
			k := st.N(n)
			todo[k] = append(todo[k], refOp{file: i, part: p})
		}
	}
	for i, m := 0, st.N(8); i < m; i++ {
		op := refOp{file: st.N(len(r.spec.Files)), part: -1, kind: st.N(6), mode: st.N(sinkModes)}
		switch op.kind {
		case 0, 1:
			op.ref = smp.Ref()
		case 2:
			op.t = smp.Type()
		case 3:
			op.tm = smp.Tmpl()
		}
		k := st.N(n)
		todo[k] = append(todo[k], op)
	}
	var fns []func()
	for k := range todo {
		ops := todo[k]
		order := shuffled(st, len(ops))
		fns = append(fns, func() {
			for _, o := range order {
				r.build(ops[o])
			}
		})
	}
	out, stuck, crash := run.runTasks("builder", fns...)
	if crash != "" {
		run.Fail("C10", "building a valid program: %s", text(crash))
		return
	}
	if stuck != "" {
		run.Fail("C10", "building a program does not end: %s", stuck)
		return
	}
	if len(fns) > 1 && out.Switches > 2 {
		run.Nontrivial = true
	}
	// renderers
	type task struct {
		files []int
		st    *choice.Stream
		modes []int
	}
	tasks := make([]task, 1+st.N(3))
	for k, i := range shuffled(st, len(r.spec.Files)) {
		t := &tasks[k%len(tasks)]
		t.files = append(t.files, i)
	}
	fns = nil
	for k := range tasks {
		t := &tasks[k]
		for i, m := 0, len(t.files)+st.N(4); i < m; i++ {
			t.modes = append(t.modes, st.Pick(8, 1, 1, 1, 1))
		}
		several := st.Chance(1, 4)
		fns = append(fns, func() {
			if len(t.files) == 0 {
				return
			}
			for i, mode := range t.modes {
				if several && i == 0 {
					r.renderAll(t.files)
					continue
				}
				r.renderOne(t.files[i%len(t.files)], mode)
			}
			for _, f := range t.files {
				r.renderOne(f, 0)
			}
		})
	}
	if _, stuck, _ = run.runTasks("renderer", fns...); stuck != "" {
		run.Fail("C10", "rendering does not end: %s", stuck)
		return
	}
	for i, f := range r.spec.Files {
		for k, o := range r.outs[i] {
			if f.Invalid != "" {
				continue
			}
			if !o.ok {
				run.Fail("C10", "rendering %s fails: %s", r.names[i], text(o.err))
				return
			}
			run.Counts["generated files whose references were resolved"]++
			if k > 0 && o.data == r.outs[i][k-1].data {
				continue
			}
			if err := r.wants[i].References([]byte(o.data), func(p string) bool { return r.extra[i][p] }); err != nil {
				run.Fail("C10", "%s: %s", r.names[i], text(err))
				if run.Verbose {
					run.Note("%s", o.data)
				}
				return
			}
		}
	}
}

// build does one step.
func (r *references) build(op refOp) {
	rt.WaitFor(func() bool { return !r.lock[op.file] })
	r.lock[op.file] = true
	defer func() { r.lock[op.file] = false }()
	if op.part >= 0 {
		r.world.Part(op.file, op.part)
		return
	}
	gf := r.world.Files[op.file]
	own := r.spec.Files[op.file].Pkg
	allow := func(x *gen.Expected) {
		for p := range x.Must {
			r.extra[op.file][r.spec.Path(p)] = true
		}
		for p := range x.May {
			r.extra[op.file][r.spec.Path(p)] = true
		}
	}
	r.Counts["lookups between the steps of builders"]++
	switch op.kind {
	case 0:
		allow(r.spec.RefText(own, op.ref))
		gf.EnsureImported(r.world.Sym(op.ref))
	case 1: // registers nothing
		guarded(func() error {
			gf.Qualify(r.world.Sym(op.ref))
			gf.PrefixForPackage(r.spec.Path(op.ref.Pkg))
			return nil
		})
	case 2:
		allow(r.spec.TypeText(own, op.t))
		gf.EnsureTypeImported(r.world.Type(op.t))
	case 3:
		allow(r.spec.TmplText(own, op.tm))
		_, data := r.world.Template(op.tm)
		gf.QualifyTemplateData(data)
	case 4:
		_ = gf.ImportSpecs()
	case 5: // too early
		render(gf, &sink{mode: op.mode})
		r.Faults["attempt before the file is complete"]++
	}
}

func (r *references) renderOne(i, mode int) {
	o := render(r.world.Files[i], &sink{mode: mode, pause: func() { rt.Point(20003) }})
	if mode != sinkOK {
		r.Faults[sinkNames[mode]]++
		return
	}
	r.outs[i] = append(r.outs[i], o)
}

func (r *references) renderAll(idx []int) {
	var files []*gopoet.GoFile
	var sinks []*sink
	for _, i := range idx {
		files = append(files, r.world.Files[i])
	}
	err, pan, ret := guarded(func() error {
		return gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) {
			s := &sink{pause: func() { rt.Point(20003) }}
			sinks = append(sinks, s)
			return s, nil
		}, files...)
	})
	for k, s := range sinks {
		o := outcome{ok: true, data: string(s.data)}
		if k == len(sinks)-1 {
			o = describe(s, err, pan, ret)
		}
		r.outs[idx[k]] = append(r.outs[idx[k]], o)
	}
}
