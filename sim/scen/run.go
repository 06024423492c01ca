// Package scen has the simulated scenarios, one or more for each property.
package scen

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/choice"
	"verifsim/gen"
	"verifsim/rt"
)

// Violation of a property.
type Violation struct {
	Prop  string
	Class string // the message without its details
	Msg   string
}

// Run is one simulated run.
type Run struct {
	Prop    string
	Seed    uint64
	Src     *choice.Source
	Purego  bool
	Race    bool
	Verbose bool

	Violations []Violation
	Counts     map[string]int // what happened, by kind
	Faults     map[string]int // faults injected, by kind
	Trace      []string
	Hash       uint64 // of the schedules
	Steps      uint64
	Switches   uint64
	Decisions  uint64
	SimTime    int64
	Nontrivial bool
	nphase     int
	mean       int
	clockBase  int64
	env        map[string]string
	envSeed    uint64 // not 0: what variables that are not in env are derived from
}

// New prepares a run.
func New(prop string, seed uint64, src *choice.Source) *Run {
	r := &Run{Prop: prop, Seed: seed, Src: src, Counts: map[string]int{}, Faults: map[string]int{}, env: map[string]string{"HOME": "/home/u"}}
	syscall.SimGetenv = r.getenv
	syscall.SimEnviron = r.environ
	syscall.SimHostname = "host"
	time.SimLocal = nil
	runtime.SimProcs = 1 + int(seed%8)
	return r
}

// Fail records a violation.
func (r *Run) Fail(prop, format string, args ...interface{}) {
	if len(r.Violations) > 50 {
		return
	}
	r.Violations = append(r.Violations, Violation{prop, format, fmt.Sprintf(format, args...)})
}

// Failed tells whether the property that is being decided was violated.
func (r *Run) Failed() bool { return r.First() != nil }

// First is the first violation of the property that is being decided.
func (r *Run) First() *Violation {
	for i := range r.Violations {
		if r.Violations[i].Prop == r.Prop {
			return &r.Violations[i]
		}
	}
	return nil
}

// Note adds a line to the trace.
func (r *Run) Note(format string, args ...interface{}) {
	if len(r.Trace) < 4000 {
		r.Trace = append(r.Trace, fmt.Sprintf(format, args...))
	}
}

type chooser struct {
	st   *choice.Stream
	mean int
	r    *Run
	// priorities, if used: the task with the highest one runs
	stay int // out of 100: chance to go on with the same task
}

func (c *chooser) Next(n int) int {
	if c.stay > 0 && !c.st.Chance(100-c.stay, 100) {
		return 0
	}
	return c.st.N(n)
}

func (c *chooser) Gap() int {
	if c.mean == 0 {
		return 0
	}
	return c.st.N(2*c.mean + 1)
}

type quiet struct{}

func (quiet) Next(n int) int { return 0 }
func (quiet) Gap() int       { return 0 }

const maxSteps = 40e6

// density draws how often tasks are preempted: the mean number of statements
// between two preemptions.
func density(st *choice.Stream) int {
	return []int{0, 3000, 600, 150, 40, 12, 4}[st.N(7)]
}

// phase runs tasks under the scheduler.
func (r *Run) phase(name string, setup func(s *rt.Sched)) rt.Outcome {
	r.nphase++
	st := r.Src.Stream(fmt.Sprintf("sched.%d.%s", r.nphase, name))
	mean := density(st)
	stay := []int{0, 50, 90}[st.N(3)]
	s := rt.NewSched(&chooser{st: st, mean: mean, r: r, stay: stay}, choice.Mix64(r.Seed, uint64(r.nphase)), maxSteps)
	return r.finish(s, setup, name)
}

// inQuiet runs fn as the only task, in a world that is always the same.
func (r *Run) inQuiet(fn func()) (out rt.Outcome, panicked interface{}) {
	save := runtime.SimClock
	runtime.SimClock = 1e18
	s := rt.NewSched(quiet{}, 1, maxSteps)
	t := s.Go("reference", 99, fn)
	out = s.Run()
	runtime.SimClock = save
	r.Steps += out.Steps
	crashed(t)
	return out, t.Panic
}

// Begin decides whether the run takes place in a process that has just started.
// If not, it has made the earlier runs.
func (r *Run) Begin() {
	if st := r.Src.Stream("process"); r.Prop != "C06" && st.Chance(1, 3) {
		r.Restart(uint64(st.N(1 << 30)))
	}
}

// Restart gives the code under test the package-level state of a process that
// has just been started. No task may be alive.
func (r *Run) Restart(seed uint64) {
	if len(rt.States) == 0 {
		return
	}
	s := rt.NewSched(quiet{}, seed, maxSteps)
	t := s.Go("initialisation", 99, func() {
		for _, f := range rt.States {
			f()
		}
	})
	out := s.Run()
	r.Steps += out.Steps
	r.Counts["process starts"]++
	crashed(t)
}

func (r *Run) finish(s *rt.Sched, setup func(s *rt.Sched), name string) rt.Outcome {
	start := runtime.SimClock
	setup(s)
	o := s.Run()
	r.Hash = choice.Mix64(r.Hash, o.Hash)
	r.Steps += o.Steps
	r.Switches += o.Switches
	r.Decisions += o.Decisions
	r.SimTime += runtime.SimClock - start
	if s.Foreign > 0 {
		r.Counts["tasks started by the code under test"] += s.Foreign
	}
	if r.Verbose {
		r.Note("phase %d %s: %d statements, %d switches", r.nphase, name, o.Steps, o.Switches)
	}
	return o
}

// cfg draws the bounds of a program.
func (r *Run) cfg(st *choice.Stream) gen.Cfg {
	c := gen.Cfg{
		Files: 1 + st.N(4), Elems: 1 + st.N(5), Stmts: st.N(5), Depth: st.N(4), Pkgs: 1 + st.N(12),
		Templates: st.Chance(2, 3), Reflect: st.Chance(1, 2), GoTypes: st.Chance(1, 2), Callbacks: st.Chance(1, 2), Comments: st.Chance(1, 2),
		Hid: st.Chance(1, 2), Shared: st.N(4), Keys: st.Chance(1, 8), Wide: st.Chance(1, 8),
	}
	if r.Purego {
		c.Hid = false
	}
	return c
}

// task calls fn and turns a panic into a description.
func guarded(fn func() error) (err error, panicked interface{}, returned bool) {
	defer func() {
		if !returned {
			panicked = recover()
		}
	}()
	err = fn()
	returned = true
	return
}

func sortedPaths(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// unset is the value of an environment variable that is not set.
const unset = "\x00unset"

// setenv sets an environment variable of the simulated process.
func (r *Run) setenv(name, value string) { r.env[name] = value }

// getenv is what the code under test finds in its environment.
func (r *Run) getenv(name string) (string, bool) {
	v, ok := r.env[name]
	if !ok && r.envSeed != 0 {
		l := []string{unset, "", "1", "true", "/gp", "0", "C", "off"}
		v, ok = l[choice.Mix64(r.envSeed, choice.Hash(name))%uint64(len(l))], true
	}
	if !ok || v == unset {
		return "", false
	}
	return v, true
}

// environ is all of the environment.
func (r *Run) environ() []string {
	var l []string
	for k, v := range r.env {
		if v != unset {
			l = append(l, k+"="+v)
		}
	}
	sort.Strings(l)
	for i := uint64(0); i < r.envSeed%5; i++ {
		l = append(l, fmt.Sprintf("V%d=%x", i, choice.Mix64(r.envSeed, i)&0xff))
	}
	return l
}

func short(b []byte) string {
	s := string(b)
	if len(s) > 200 {
		s = s[:100] + "…" + s[len(s)-100:]
	}
	return fmt.Sprintf("%d bytes %q", len(b), s)
}

func differ(want, got []byte) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	ctx := func(b []byte) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(b) {
			hi = len(b)
		}
		if lo > hi {
			lo = hi
		}
		return fmt.Sprintf("%q", b[lo:hi])
	}
	return fmt.Sprintf("first difference at byte %d of %d and %d: want …%s…, got …%s…", i, len(want), len(got), ctx(want), ctx(got))
}

func text(v interface{}) string {
	s := fmt.Sprint(v)
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return strings.ToValidUTF8(s, "?")
}
