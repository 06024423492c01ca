// Package rt is the scheduler of the simulator: it decides at every
// scheduling point which task runs next. The code under test is compiled
// with a call of Yield in front of every statement.
//
// Everything here that tasks execute is exempt from race instrumentation and
// uses no synchronisation, so that a handover from one task to another does
// not hide from the race detector that the code under test does not
// synchronise.
package rt

import (
	"runtime"
)

// What a task waits for.
const (
	Ready  = 0 // can go on
	OnCond = 1 // until Cond says so
	OnTime = 2 // until the clock reaches Wake
)

// Task is one simulated task.
type Task struct {
	ID     int
	Name   string
	Node   int // the process it belongs to; tasks of a dead process never run again
	Yields uint64
	Gap    int64 // statements until the next preemption
	Kind   int
	Cond   func() bool
	Wake   int64
	Site   int32
	Done   bool
	Panic  interface{}
	Guilty bool // the code under test has panicked, not the harness
	Dying  bool // its process was killed: it unwinds without any further effect
	Busy   int  // >0: harness code that must not be preempted
	fn     func()
	fin    chan struct{}
}

// Cur is the task that has control, nil while the controller has it.
var Cur *Task

// Seed is what the random numbers of the run are derived from.
var Seed uint64

// States has, for each package of the code under test in the order in which
// they depend on each other, a function that initialises its variables again.
var States []func()

// Steps counts the statements executed in this run; a run that exceeds
// MaxSteps is cut off by OnLimit.
var Steps, MaxSteps uint64

// maxStack is how much of a stack a task can use.
const maxStack = 64 << 20

// SiteHits counts, per statement, how often a task was preempted in front
// of it.
var SiteHits [1 << 14]uint32

// SiteSeen says which statements a task has reached.
var SiteSeen [1 << 14]bool

// Yield is a scheduling point.
//
//go:norace
func Yield(site int32) {
	t := Cur
	if t == nil || t.Dying || t.Busy > 0 {
		return
	}
	t.Yields++
	runtime.SimSetStep(uint64(t.ID)<<40 + t.Yields)
	Steps++
	if Steps&1023 == 0 && runtime.SimStackUsed() > maxStack {
		// a recursion without end
		Steps = MaxSteps
		t.Dying = true
		runtime.Goexit()
	}
	SiteSeen[uint32(site)&(1<<14-1)] = true
	t.Gap--
	if t.Gap > 0 && Steps < MaxSteps {
		return
	}
	t.Site = site
	SiteHits[uint32(site)&(1<<14-1)]++
	t.park()
}

//go:norace
func (t *Task) park() {
	if t.Dying {
		return
	}
	Cur = nil
	runtime.SimPark()
	if t.Dying {
		// The process was killed while the task waited. Deferred functions
		// run, but the simulated system ignores what a dead process does.
		runtime.Goexit()
	}
}

// Point is a scheduling point of the harness, such as a system call.
//
//go:norace
func Point(site int32) { Yield(site) }

// Kill ends the process of the current task here and now.
//
//go:norace
func Kill() {
	t := Cur
	t.Dying = true
	runtime.Goexit()
}

// WaitFor blocks the task until cond, which the controller evaluates, holds.
//
//go:norace
func WaitFor(cond func() bool) {
	t := Cur
	if t == nil {
		panic("rt: WaitFor outside a task")
	}
	t.Kind = OnCond
	t.Cond = cond
	t.park()
}

// Sleep blocks the task for the given simulated time.
//
//go:norace
func Sleep(ns int64) {
	t := Cur
	if t == nil {
		return
	}
	t.Kind = OnTime
	t.Wake = runtime.SimClock + ns
	t.park()
}

// Alive tells whether the current task belongs to a process that is alive.
//
//go:norace
func Alive() bool { return Cur != nil && !Cur.Dying }
