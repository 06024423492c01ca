package scen

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/jhump/gopoet"
	"verifsim/choice"
	"verifsim/gen"
	"verifsim/rt"
)

// job is what one task of the scenario behind C08 renders.
type job struct {
	files []int
	calls []jobCall
	outs  []jobOut
	st    *choice.Stream
	// waits for another task to end, when code of the caller runs
	waitFor *job
	ended   chan struct{}
}

type jobCall struct {
	idx     []int // more than one: in one call
	several bool
	mode    int // of the destination
}

type jobOut struct {
	call  int
	mode  int
	idx   []int
	o     outcome
	sinks []*sink
}

func Parallel(run *Run) {
	st := run.Src.Stream("plan")
	g := run.Src.Stream("gen")
	spec := run.program(g, st.Chance(1, 3))
	n := len(spec.Files)
	var jobs []*job
	for i, m := 0, 2+st.N(3); i < m; i++ {
		jobs = append(jobs, &job{ended: make(chan struct{})})
	}
	for k, i := range shuffled(st, n) {
		jobs[k%len(jobs)].files = append(jobs[k%len(jobs)].files, i)
	}
	for k := len(jobs) - 1; k >= 0; k-- {
		if len(jobs[k].files) == 0 {
			jobs = append(jobs[:k], jobs[k+1:]...)
		}
	}
	wait := st.Chance(1, 4)
	for k, j := range jobs {
		for c, m := 0, 1+st.N(3); c < m; c++ {
			if len(j.files) > 1 && st.Chance(1, 2) {
				j.calls = append(j.calls, jobCall{several: true, idx: j.files})
				continue
			}
			for _, i := range j.files {
				j.calls = append(j.calls, jobCall{idx: []int{i}, mode: st.Pick(9, 1, 1, 1, 1)})
			}
		}
		if wait && k+1 < len(jobs) && st.Chance(1, 2) {
			j.waitFor = jobs[k+1+st.N(len(jobs)-k-1)]
		}
		j.st = run.Src.Stream(fmt.Sprintf("task.%d", k))
	}
	var w *gen.World
	built := false
	callbacks := make([]int, len(jobs))
	run.inQuiet(func() {
		w = gen.Build(spec, func(string) {
			if !built || rt.Cur == nil {
				return
			}
			if strings.HasSuffix(rt.Cur.Name, "+") {
				// started by the code under test
				rt.Point(20000)
				return
			}
			k := rt.Cur.Node
			callbacks[k]++
			jobs[k].pause()
		})
		built = true
	})
	if !built {
		return
	}
	races := raceReports()
	var fns []func()
	for _, j := range jobs {
		fns = append(fns, func() { j.run(spec, w) })
	}
	out, stuck, crash := run.runTasks("task", fns...)
	for _, n := range callbacks {
		run.Counts["callbacks during rendering"] += n
	}
	run.Counts["tasks"] += len(jobs)
	run.Nontrivial = len(jobs) > 1 && out.Switches > uint64(len(jobs))
	if rep := raceReports(); len(rep) > len(races) {
		rep = rep[len(races):]
		run.Fail("C08", "rendering distinct files concurrently has a data race: %s", raceSummary(rep))
		run.Trace = append(run.Trace, strings.Split(rep, "\n")...)
		return
	}
	// The references come last: if the code under test remembers something for
	// the whole process, tasks are to be the first to need it.
	refs := run.alone(spec)
	if refs == nil {
		return
	}
	// what fails has to fail in the same way, if it always does when alone
	again := run.again(spec)
	if crash != "" {
		run.Fail("C08", "a task that renders files panics: %s", crash)
		return
	}
	if stuck != "" {
		run.Fail("C08", "tasks that render distinct files do not all end: %s", stuck)
		return
	}
	for k, j := range jobs {
		for _, x := range j.outs {
			for c, i := range x.idx {
				f := spec.Files[i]
				last := c == len(x.idx)-1
				if x.mode != sinkOK {
					run.Faults[sinkNames[x.mode]]++
					if refs[i].ok && (x.o.ok || !strings.HasPrefix(refs[i].data, x.o.data)) {
						run.Fail("C08", "task %d: rendering %s next to other files to a destination that fails (%s) gives %s", k+1, spec.FilePath(f), sinkNames[x.mode], x.o)
						return
					}
					continue
				}
				run.Counts["renderings compared"]++
				switch {
				case refs[i].ok && last && !x.o.ok:
					run.Fail("C08", "task %d: rendering %s next to other files failed: %s; alone it succeeds", k+1, spec.FilePath(f), x.o.err)
				case refs[i].ok && string(x.sinks[c].data) != refs[i].data:
					run.Fail("C08", "task %d: rendering %s next to other files gives other bytes than alone: %s", k+1, spec.FilePath(f), differ([]byte(refs[i].data), x.sinks[c].data))
				case !refs[i].ok && x.o.ok:
					run.Fail("C08", "task %d: rendering %s next to other files succeeds; alone it fails: %s", k+1, spec.FilePath(f), refs[i].err)
				case !refs[i].ok && len(x.sinks[c].data) > 0:
					run.Fail("C08", "task %d: rendering %s next to other files writes %d bytes; alone it fails: %s", k+1, spec.FilePath(f), len(x.sinks[c].data), refs[i].err)
				case !refs[i].ok && x.call == 0 && again[i] == refs[i].err && x.o.err != refs[i].err:
					run.Fail("C08", "task %d: rendering %s next to other files fails in another way: %s; alone: %s", k+1, spec.FilePath(f), x.o.err, refs[i].err)
				case !refs[i].ok && x.call == 0 && again[i] == refs[i].err && x.o.unf != refs[i].unf:
					run.Fail("C08", "task %d: rendering %s next to other files fails with other unformatted source than alone: %s", k+1, spec.FilePath(f), differ([]byte(refs[i].unf), []byte(x.o.unf)))
				}
				if run.Failed() {
					return
				}
			}
		}
	}
}

// again has the failures of files that cannot be rendered, in a world with
// other random numbers.
func (r *Run) again(s *gen.Spec) []string {
	l := make([]string, len(s.Files))
	for i, f := range s.Files {
		if f.Invalid == "" {
			continue
		}
		r.phase("again", func(sc *rt.Sched) {
			sc.Go("again", 98, func() { l[i] = render(gen.Build(s, nil).Files[i], &sink{}).err })
		})
	}
	return l
}

// pause is what code of the caller does: it waits, or lets others go on.
func (j *job) pause() {
	if j.waitFor != nil && j.st.Chance(1, 3) {
		other := j.waitFor
		j.waitFor = nil
		<-other.ended
		return
	}
	pause(j.st)
}

func (j *job) run(spec *gen.Spec, w *gen.World) {
	for n, c := range j.calls {
		if !c.several {
			s := &sink{pause: j.pause, mode: c.mode}
			o := render(w.Files[c.idx[0]], s)
			j.outs = append(j.outs, jobOut{call: n, mode: c.mode, idx: c.idx, o: o, sinks: []*sink{s}})
			continue
		}
		var files []*gopoet.GoFile
		for _, i := range c.idx {
			files = append(files, w.Files[i])
		}
		out := jobOut{call: n}
		err, pan, ret := guarded(func() error {
			return gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) {
				j.pause()
				s := &sink{pause: j.pause}
				out.idx = append(out.idx, c.idx[len(out.idx)])
				out.sinks = append(out.sinks, s)
				return s, nil
			}, files...)
		})
		if n > 0 {
			out.call = 1
		}
		out.o = describe(nil, err, pan, ret)
		j.outs = append(j.outs, out)
	}
	close(j.ended)
}

// raceReports is what the race detector has written so far.
func raceReports() string {
	if RaceLog == "" {
		return ""
	}
	l, _ := filepath.Glob(RaceLog + ".*")
	var s string
	for _, f := range l {
		if strings.HasSuffix(f, fmt.Sprint(".", os.Getpid())) {
			b, _ := os.ReadFile(f)
			s += string(b)
		}
	}
	return s
}

// raceSummary names the functions and lines involved in the first report.
func raceSummary(rep string) string {
	var l []string
	lines := strings.Split(rep, "\n")
	for i, line := range lines {
		if strings.HasPrefix(line, "Previous") || strings.HasPrefix(line, "Read at") || strings.HasPrefix(line, "Write at") || strings.Contains(line, "by goroutine") && strings.Contains(line, " at 0x") {
			what := strings.Fields(line)[0]
			if i+1 < len(lines) {
				l = append(l, what+" in "+strings.TrimSpace(lines[i+1]))
			}
		}
		if len(l) == 2 {
			break
		}
	}
	return strings.Join(l, ", ")
}
