package scen

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/jhump/gopoet"
	"verifsim/choice"
	"verifsim/gen"
	"verifsim/oracle"
	"verifsim/rt"
)

// repeat is the scenario behind C07: one program whose files are rendered
// over and over, in any order, nested in one another, while their contents
// are still being added, and with attempts that fail.
type repeat struct {
	*Run
	st    *choice.Stream
	spec  *gen.Spec
	world *gen.World
	done  []bool // content of the file has been added
	part  []int  // how much of it has been
	early []bool // rendered when some file's content had been added in part
	// masks has, for each file, the sets of files whose contents had been
	// added when it was rendered.
	masks      []map[uint64]bool
	outs       [][]outcome
	hand       []string
	nest       int
	busy       []bool // the file is being rendered
	failed     []bool // an earlier attempt did not succeed
	boom       int    // callbacks until one panics; -1: it has
	lastNested uint64 // files rendered during the current rendering
}

func Repeat(run *Run) {
	r := &repeat{Run: run, st: run.Src.Stream("plan")}
	g := run.Src.Stream("gen")
	r.spec = run.program(g, r.st.Chance(1, 3))
	n := len(r.spec.Files)
	r.done, r.busy, r.failed = make([]bool, n), make([]bool, n), make([]bool, n)
	r.part, r.early = make([]int, n), make([]bool, n)
	r.outs = make([][]outcome, n)
	for i := 0; i < n; i++ {
		r.masks = append(r.masks, map[uint64]bool{})
	}
	ended := false
	var task *rt.Task
	out := r.phase("render", func(s *rt.Sched) {
		task = s.Go("render", 0, func() {
			r.render()
			ended = true
		})
	})
	if crashed(task) != "" {
		return // for C10 to decide
	}
	if !ended {
		r.Fail("C07", "rendering again does not end (%v)", out.Blocked)
		return
	}
	if r.Failed() {
		return
	}
	// what freshly built copies yield
	for i, f := range r.spec.Files {
		if f.Invalid != "" || len(r.outs[i]) == 0 {
			continue
		}
		var fresh *outcome
		same := true
		var ms []uint64
		for m := range r.masks[i] {
			ms = append(ms, m)
		}
		sort.Slice(ms, func(a, b int) bool { return ms[a] < ms[b] })
		if len(ms) > 4 {
			ms = ms[:4]
		}
		for _, m := range ms {
			o := r.fresh(i, m)
			if o == nil || !o.ok {
				return // for C01 and C10 to decide
			}
			if fresh != nil && fresh.data != o.data {
				same = false
			}
			fresh = o
		}
		if !same {
			r.Counts["files that depend on when others were completed"]++
			continue
		}
		for k, o := range r.outs[i] {
			r.Counts["renderings compared"]++
			if !o.ok {
				r.Fail("C07", "rendering %d of %s failed (%s), a first rendering of a fresh copy succeeds", k+1, r.spec.FilePath(f), o.err)
				return
			}
			if r.early[i] && r.alike(o.data, fresh.data) {
				// names may have been given to packages in another order, but
				// they do not change any more
				r.Counts["renderings compared without regard to names"]++
				fresh.data = o.data
			}
			if o.data != fresh.data {
				r.Fail("C07", "rendering %d of %s differs from a first rendering of a fresh copy: %s", k+1, r.spec.FilePath(f), differ([]byte(fresh.data), []byte(o.data)))
				return
			}
		}
	}
}

// alike reports whether two sources mean the same if their names for packages
// are ignored.
func (r *repeat) alike(a, b string) bool {
	ca, erra := oracle.CanonFile(r.spec, a)
	cb, errb := oracle.CanonFile(r.spec, b)
	return erra == nil && errb == nil && ca == cb
}

// partial reports whether the content of some file has been added in part.
func (r *repeat) partial() bool {
	for i, d := range r.done {
		if !d && r.part[i] > 0 {
			return true
		}
	}
	return false
}

func (r *repeat) mask() uint64 {
	m := uint64(0)
	for i, d := range r.done {
		if d {
			m |= 1 << i
		}
	}
	return m
}

func (r *repeat) fresh(i int, mask uint64) *outcome {
	var o *outcome
	r.inQuiet(func() {
		w := gen.NewWorld(r.spec, nil)
		for j := range r.spec.Files {
			if mask&(1<<j) != 0 {
				w.Content(j)
			}
		}
		x := render(w.Files[i], &sink{})
		o = &x
	})
	return o
}

// render builds the program and renders its files.
func (r *repeat) render() {
	r.world = gen.NewWorld(r.spec, r.callback)
	if r.st.Chance(1, 2) {
		r.world.Share()
	}
	n := len(r.spec.Files)
	if r.st.Chance(2, 3) {
		for _, i := range shuffled(r.st, n) {
			r.complete(i)
		}
	}
	r.hand = r.handouts()
	steps := 2 + r.st.N(8)
	for k := 0; k < steps && !r.Failed(); k++ {
		switch r.st.Pick(8, 2, 2, 2, 2, 3) {
		case 0:
			r.one(r.st.N(n), r.st.Pick(6, 1, 1, 1, 1))
		case 1: // several at once
			r.several(shuffled(r.st, n)[:1+r.st.N(n)])
		case 2: // others look at shared elements
			t := gopoet.NewImportsFor("some/table")
			guarded(func() error {
				for _, x := range r.world.SharedTypes() {
					if x != nil {
						t.EnsureTypeImported(x)
					}
				}
				for _, d := range r.world.SharedData() {
					if d != nil {
						t.QualifyTemplateData(d)
					}
				}
				return nil
			})
			r.unchanged("qualifying shared elements for another table", -1, nil)
		case 3:
			i := r.st.N(n)
			r.complete(i)
		case 4: // the file prints its own and others' declarations
			for _, el := range r.spec.Order {
				for _, d := range el.Decls {
					_ = fmt.Sprint(r.world.Decl(d))
				}
			}
			r.unchanged("printing the declarations", -1, nil)
		case 5: // some more content
			i := r.st.N(n)
			if all := r.world.Parts(i); !r.done[i] && all > 1 {
				to := r.part[i] + 1 + r.st.N(all-r.part[i]-1+1)
				for r.part[i] < to {
					r.world.Part(i, r.part[i])
					r.part[i]++
				}
				r.done[i] = to == all
				r.hand = r.handouts()
				r.one(i, r.st.Pick(6, 1, 1, 1, 1))
			}
		}
	}
	// every file is rendered at least once, and some again
	for i := range r.done {
		r.complete(i)
	}
	for _, i := range shuffled(r.st, n) {
		if !r.Failed() {
			r.one(i, 0)
		}
	}
}

// complete adds the content of a file, unless that has happened.
func (r *repeat) complete(i int) {
	if r.done[i] {
		return
	}
	for n := r.world.Parts(i); r.part[i] < n; r.part[i]++ {
		r.world.Part(i, r.part[i])
	}
	r.done[i] = true
	r.hand = r.handouts()
}

func (r *repeat) handouts() []string { return r.world.Handouts(oracle.Shape) }

func (r *repeat) specs() [][]gopoet.ImportSpec {
	var l [][]gopoet.ImportSpec
	for _, f := range r.world.Files {
		l = append(l, f.ImportSpecs())
	}
	return l
}

// one renders a file.
func (r *repeat) one(i, mode int) {
	if r.busy[i] {
		return
	}
	partial := r.partial()
	if partial {
		r.early[i] = true
		r.Counts["renderings while content is incomplete"]++
	} else {
		r.complete(i)
		r.masks[i][r.mask()] = true
	}
	r.busy[i] = true
	if r.nest == 0 {
		r.lastNested = 0
	}
	before := r.specs()
	s := &sink{mode: mode, pause: func() { r.callback("write") }}
	boom := r.boom
	if r.st.Chance(1, 8) {
		r.boom = 1 + r.st.N(3)
	}
	o := render(r.world.Files[i], s)
	injected := mode != sinkOK || r.boom < 0
	r.boom = boom
	r.busy[i] = false
	name := r.spec.FilePath(r.spec.Files[i])
	if r.Verbose {
		r.Note("render %s: %s", name, o)
	}
	switch {
	case partial:
	case !injected:
		if r.spec.Files[i].Invalid == "" {
			r.outs[i] = append(r.outs[i], o)
		}
		r.Counts["renderings"]++
		if len(r.outs[i]) > 1 || r.failed[i] || r.nest > 0 {
			r.Nontrivial = true
		}
	case mode != sinkOK:
		r.Faults[sinkNames[mode]]++
	default:
		r.Faults["callback panic"]++
	}
	if !o.ok {
		r.failed[i] = true
	}
	if r.nest == 0 {
		r.unchanged("rendering "+name, i, before)
	}
}

var errOpen = errors.New("the opener fails")

// several renders files with one call.
func (r *repeat) several(idx []int) {
	var files []*gopoet.GoFile
	var l []int
	for _, i := range idx {
		if !r.busy[i] {
			files = append(files, r.world.Files[i])
			l = append(l, i)
		}
	}
	partial := r.partial()
	if partial {
		r.Counts["renderings while content is incomplete"]++
	}
	for _, i := range l {
		if partial {
			r.early[i] = true
		} else {
			r.complete(i)
		}
	}
	for _, i := range l {
		r.busy[i] = true
		if !partial {
			r.masks[i][r.mask()] = true
		}
	}
	failAt := len(l)
	if r.st.Chance(1, 3) {
		failAt = r.st.N(len(l) + 1)
	}
	refused := false
	sinks := map[string]*sink{}
	byPath := map[string]int{}
	for k, i := range l {
		byPath[r.spec.FilePath(r.spec.Files[i])] = k
	}
	var seq []string
	err, _, ret := guarded(func() error {
		return gopoet.WriteGoFiles(func(path string) (io.WriteCloser, error) {
			if k, ok := byPath[path]; ok && k == failAt {
				r.Faults["opener error"]++
				refused = true
				return nil, errOpen
			}
			s := &sink{pause: func() { r.callback("write") }}
			sinks[path] = s
			seq = append(seq, path)
			return s, nil
		}, files...)
	})
	for _, i := range l {
		r.busy[i] = false
	}
	if r.Verbose {
		r.Note("render %v at once: %s", l, describe(nil, err, nil, ret))
	}
	ok := ret && err == nil
	for k, p := range seq {
		i := l[byPath[p]]
		switch {
		case partial:
		case ok || k+1 < len(seq):
			// must have been completed
			r.Counts["renderings"]++
			r.outs[i] = append(r.outs[i], outcome{ok: true, data: string(sinks[p].data)})
		default:
			r.failed[i] = true
			if !refused {
				r.outs[i] = append(r.outs[i], describe(sinks[p], err, nil, ret))
			}
		}
	}
	r.unchanged("rendering several files", -1, nil)
}

// unchanged checks that the declarations hand out what they did before, and
// that import tables only grow where they should.
func (r *repeat) unchanged(what string, file int, before [][]gopoet.ImportSpec) {
	now := r.handouts()
	r.Counts["comparisons of what declarations hand out"]++
	for i := range now {
		if i >= len(r.hand) || now[i] != r.hand[i] {
			old := ""
			if i < len(r.hand) {
				old = r.hand[i]
			}
			r.Fail("C07", "%s changes what declarations hand out: %s; before: %s", what, text(clipAt(now[i], old)), text(clipAt(old, now[i])))
			return
		}
	}
	if before == nil {
		return
	}
	for j, l := range r.specs() {
		if j != file {
			if r.nest == 0 && fmt.Sprint(l) != fmt.Sprint(before[j]) && r.lastNested&(1<<j) == 0 {
				r.Fail("C07", "%s changes the import table of %s: %v instead of %v", what, r.spec.FilePath(r.spec.Files[j]), l, before[j])
				return
			}
			continue
		}
		m := map[string]gopoet.ImportSpec{}
		for _, s := range l {
			m[s.ImportPath] = s
		}
		for _, s := range before[j] {
			if m[s.ImportPath] != s {
				r.Fail("C07", "%s changes the import of %q in its table: %v instead of %v", what, s.ImportPath, m[s.ImportPath], s)
				return
			}
		}
	}
}

// clipAt shows a long text from where it differs from another one.
func clipAt(s, other string) string {
	i := 0
	for i < len(s) && i < len(other) && s[i] == other[i] {
		i++
	}
	if i < 150 {
		return s
	}
	head := s
	if j := strings.Index(s, ": "); j > 0 && j < 80 {
		head = s[:j+2]
	} else {
		head = ""
	}
	return head + "…" + s[i-100:]
}

func (r *repeat) callback(what string) {
	r.Counts["callbacks during rendering"]++
	if r.boom > 0 && what != "write" {
		r.boom--
		if r.boom == 0 {
			r.boom = -1
			panic("the callback panics")
		}
	}
	if r.nest < 2 && r.st.Chance(1, 4) {
		// another file is rendered meanwhile
		i := r.st.N(len(r.spec.Files))
		if !r.busy[i] && r.done[i] {
			r.nest++
			r.lastNested |= 1 << i
			boom := r.boom
			r.boom = 0
			r.one(i, 0)
			r.boom = boom
			r.nest--
			r.Counts["renderings nested in another one"]++
		}
	}
}
