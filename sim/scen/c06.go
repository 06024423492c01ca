package scen

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/jhump/gopoet"
	"verifsim/choice"
	"verifsim/gen"
	"verifsim/kern"
	"verifsim/oracle"
	"verifsim/rt"
)

// same is the scenario behind C06: the same calls are executed several times
// in environments that differ in everything that must not matter.
type same struct {
	*Run
	spec    *gen.Spec
	actions []action
	share   bool
	order   []int // in which the files get their contents
}

type action struct {
	kind, file, mode, arg int
	files                 []int
	set                   []int
}

const (
	actRender = iota
	actSeveral
	actImports
	actHandouts
	actType
	actData
	actRegister
	actFS
	actLookup
	actTemplate
)

func Same(run *Run) {
	r := &same{Run: run}
	st := run.Src.Stream("plan")
	g := run.Src.Stream("gen")
	r.spec = run.program(g, st.Chance(1, 2))
	n := len(r.spec.Files)
	r.share = st.Chance(1, 2)
	r.order = shuffled(st, n)
	for i, m := 0, 2+st.N(8); i < m; i++ {
		a := action{kind: st.Pick(6, 2, 2, 1, 2, 3, 2, 2, 1, 1), file: st.N(n), mode: st.Pick(6, 1, 1, 1, 1), arg: st.N(8)}
		a.files = shuffled(st, n)[:1+st.N(n)]
		r.actions = append(r.actions, a)
	}
	for i := 0; i < n; i++ {
		r.actions = append(r.actions, action{kind: actRender, file: i}, action{kind: actImports, file: i})
	}
	execs := 2 + st.N(3)
	var first []string
	for e := 0; e < execs && !r.Failed(); e++ {
		log, stuck := r.execute(e)
		if stuck != "" {
			// also an outcome, but one that other properties are about
			return
		}
		if e == 0 {
			first = log
			continue
		}
		r.Counts["executions compared"]++
		r.Nontrivial = true
		for i := range log {
			if i >= len(first) || log[i] != first[i] {
				old := "nothing"
				if i < len(first) {
					old = first[i]
				}
				r.Fail("C06", "the same calls give different results in execution %d: %s", e+1, differ([]byte(old), []byte(log[i])))
				return
			}
		}
	}
	runtime.SimClock += int64(1e9)
}

// execute runs the calls once.
func (r *same) execute(e int) (log []string, stuck string) {
	st := r.Src.Stream(fmt.Sprintf("env.%d", e))
	// what differs
	k := kern.New(r.Src.Stream(fmt.Sprintf("kern.%d", e)))
	k.Pid = 1 + st.N(99999)
	k.Uid = 1000 + st.N(3)
	k.Cwd = []string{"/work", "/", "/tmp/x", "/out"}[st.N(4)]
	k.Provide(k.Cwd+"/", nil)
	imagined := uint64(st.N(1 << 20))
	k.Imagine = func(p string) ([]byte, bool) {
		h := choice.Mix64(imagined, choice.Hash(p))
		if strings.HasPrefix(p, "/out") || h&1 == 0 {
			return nil, false
		}
		return []byte([]string{"", "1\n", "on", "module x\n\ngo 1.13\n"}[h>>1&3]), true
	}
	k.Install()
	syscall.SimHostname = []string{"a", "build-7.example", "localhost"}[st.N(3)]
	time.SimLocal = []*time.Location{nil, time.FixedZone("", 0), time.FixedZone("CET", 3600), time.FixedZone("X", -34200)}[st.N(4)]
	base := runtime.SimClock
	runtime.SimClock = []int64{1700000000e9, 0, 1, 4102444800e9, 951782400e9}[st.N(5)] + int64(st.N(1000))*1e6
	for _, v := range []string{"GOPATH", "HOME", "TZ", "LANG", "USER", "GOFLAGS", "GO111MODULE", "SOURCE_DATE_EPOCH"} {
		r.setenv(v, []string{unset, "", "/gp", "C", "x=y", "1", "on", "off"}[st.N(8)])
	}
	r.envSeed = uint64(1 + st.N(1<<20))
	runtime.SimProcs = 1 + st.N(8)
	args := os.Args
	os.Args = [][]string{{"x"}, {"/bin/gen", "-v"}, {}, {"gen.test", "-test.v", "out"}}[st.N(4)]
	defer func() { os.Args = args }()
	layout := [][2]int{{1, 0}, {5, 0}, {1, 1}, {5, 1}, {1, 2}, {5, 2}}[st.N(6)]
	var keep [][]byte
	for i, n := 0, st.N(20); i < n; i++ {
		keep = append(keep, make([]byte, st.N(100000)))
	}
	if st.Chance(3, 4) || e == 0 {
		r.Restart(uint64(st.N(1 << 30)))
	}
	var prior *gen.Spec
	switch st.N(3) {
	case 1:
		prior = r.spec
	case 2:
		prior = r.program(r.Src.Stream(fmt.Sprintf("prior.%d", e)), true)
	}
	company := st.Chance(1, 2)
	jumps := r.Src.Stream(fmt.Sprintf("clock.%d", e))
	jump := st.Chance(1, 2)
	ended := false
	var tasks []*rt.Task
	out := r.phase("execution", func(s *rt.Sched) {
		if jump {
			s.OnStep = func() {
				switch jumps.N(8) {
				case 6:
					d := int64(jumps.N(1000000)) * 1e9
					runtime.SimClock += d
					r.SimTime -= d // no time has passed
					r.Faults["clock jump"]++
				case 7:
					d := int64(jumps.N(1000000)) * 1e9
					runtime.SimClock -= d
					r.SimTime += d
					r.Faults["clock jump backwards"]++
				}
			}
		}
		tasks = append(tasks, s.Go("calls", 0, func() {
			if prior != nil {
				r.Counts["executions after other programs"]++
				guarded(func() error {
					w := gen.Build(prior, nil)
					for i := range w.Files {
						render(w.Files[i], &sink{})
					}
					return nil
				})
			}
			r.calls(k, layout, &log)
			ended = true
		}))
		if company {
			other := r.program(r.Src.Stream(fmt.Sprintf("company.%d", e)), true)
			ps := r.Src.Stream(fmt.Sprintf("companyplan.%d", e))
			r.Counts["executions next to other programs"]++
			tasks = append(tasks, s.Go("other program", 1, func() {
				w := gen.Build(other, func(string) { pause(ps) })
				for i := range w.Files {
					render(w.Files[i], &sink{})
				}
			}))
		}
	})
	for i, t := range tasks {
		if c := crashed(t); c != "" && i == 0 {
			log, ended = append(log, c), true
		}
	}
	_ = keep
	runtime.SimClock = base
	if !ended {
		return nil, fmt.Sprint(out.Blocked)
	}
	return log, ""
}

// calls makes the calls and records all results.
func (r *same) calls(k *kern.Kernel, layout [2]int, log *[]string) {
	add := func(format string, args ...interface{}) { *log = append(*log, fmt.Sprintf(format, args...)) }
	w := gen.NewWorld(r.spec, func(string) { rt.Point(20000) })
	w.Layout = layout
	if r.share {
		w.Share()
	}
	for _, i := range r.order {
		w.Content(i)
	}
	t := gopoet.NewImportsFor(r.spec.Pkgs[0].Path)
	guard := func(what string, fn func() string) {
		var s string
		_, pan, ret := guarded(func() error {
			s = fn()
			return nil
		})
		if !ret {
			s = fmt.Sprintf("panic: %v", pan)
		}
		add("%s: %s", what, s)
	}
	for n, a := range r.actions {
		what := fmt.Sprintf("call %d", n+1)
		gf := w.Files[a.file]
		switch a.kind {
		case actRender:
			s := &sink{mode: a.mode}
			o := render(gf, s)
			add("%s: %v %s %q %s", what, o.ok, o.err, o.unf, o.data)
			if a.mode != 0 {
				r.Faults[sinkNames[a.mode]]++
			}
		case actSeveral:
			var files []*gopoet.GoFile
			for _, i := range a.files {
				files = append(files, w.Files[i])
			}
			var all bytes.Buffer
			opened := 0
			guard(what, func() string {
				err := gopoet.WriteGoFiles(func(p string) (io.WriteCloser, error) {
					fmt.Fprintln(&all, "open", p)
					opened++
					if opened == a.arg {
						return nil, errOpen
					}
					return nopCloser{&all}, nil
				}, files...)
				return fmt.Sprint(err)
			})
			add("%s: %s", what, all.String())
		case actImports:
			add("%s: %v", what, gf.ImportSpecs())
		case actHandouts:
			add("%s: %s", what, strings.Join(w.Handouts(oracle.Shape), "\n"))
		case actType:
			for _, x := range w.SharedTypes() {
				if x != nil {
					guard(what, func() string {
						if a.arg%2 == 0 {
							return oracle.Shape(t.EnsureTypeImported(x))
						}
						return oracle.Shape(t.QualifyType(x))
					})
				}
			}
			add("%s: %v", what, t.ImportSpecs())
		case actData:
			for _, x := range w.SharedData() {
				t := t
				if a.arg%4 != 0 {
					t = gopoet.NewImportsFor(r.spec.Pkgs[a.arg%len(r.spec.Pkgs)].Path)
				}
				if x != nil {
					guard(what, func() string { return oracle.Shape(t.QualifyTemplateData(x)) })
				}
			}
			add("%s: %v", what, t.ImportSpecs())
		case actRegister:
			p := r.spec.Pkgs[a.arg%len(r.spec.Pkgs)]
			add("%s: %s", what, t.RegisterImport(p.Path, p.Name))
			add("%s: %s", what, gf.RegisterImportForPackage(gopoet.Package{ImportPath: p.Path}))
		case actFS:
			var files []*gopoet.GoFile
			for _, i := range a.files {
				files = append(files, w.Files[i])
			}
			guard(what, func() string { return fmt.Sprint(gopoet.WriteGoFilesToFileSystem("/out", files...)) })
			for _, i := range a.files {
				b, ok := k.Read("/out/" + r.spec.FilePath(r.spec.Files[i]))
				add("%s: %v %s", what, ok, b)
			}
		case actLookup:
			p := r.spec.Pkgs[a.arg%len(r.spec.Pkgs)]
			guard(what, func() string { return t.PrefixForPackage(p.Path) })
			guard(what, func() string { return gf.PrefixForPackage(p.Path) })
		case actTemplate:
			for _, x := range r.spec.Templates() {
				t := t
				if a.arg%4 != 0 {
					t = gopoet.NewImportsFor(r.spec.Pkgs[a.arg%len(r.spec.Pkgs)].Path)
				}
				tm, data := w.Template(x)
				guard(what, func() string {
					var b bytes.Buffer
					err := tm.Execute(&b, t.QualifyTemplateData(data))
					return fmt.Sprint(err, b.String(), t.ImportSpecs())
				})
			}
		}
	}
}

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }
