package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

// Chooser supplies the decisions of the scheduler.
type Chooser interface {
	// Next picks one of n runnable tasks; 0 is the task that ran last, if it
	// can go on.
	Next(n int) int
	// Gap is the number of statements until the next preemption; 0 means
	// none.
	Gap() int
}

// Outcome of a run.
type Outcome struct {
	Deadlock  bool // live tasks, but none can go on
	Limit     bool // more than MaxSteps statements
	Blocked   []string
	Switches  uint64 // task switches
	Decisions uint64 // scheduling decisions with more than one runnable task
	Hash      uint64 // of the sequence of (task, site) at which control changed hands
	Steps     uint64
}

// Sched runs tasks under a Chooser.
type Sched struct {
	tasks  []*Task
	last   *Task
	choose Chooser
	dead   map[int]bool
	out    Outcome
	// OnStep is called by the controller each time it has control.
	OnStep func()
	// OnSpawn is called for tasks that the code under test started itself.
	Foreign int
}

// NewSched starts a new run.
//
//go:norace
func NewSched(c Chooser, seed uint64, maxSteps uint64) *Sched {
	runtime.SimReset()
	runtime.SimSeed = seed
	Steps = 0
	MaxSteps = maxSteps
	return &Sched{choose: c, dead: map[int]bool{}}
}

// Go adds a task.
//
//go:norace
func (s *Sched) Go(name string, node int, fn func()) *Task {
	t := &Task{Name: name, Node: node, fn: fn, fin: make(chan struct{}, 1)}
	runtime.SimExpectSpawn()
	go taskMain(t)
	t.ID = runtime.SimTasks()
	s.tasks = append(s.tasks, t)
	return t
}

//go:norace
func taskMain(t *Task) {
	defer taskExit(t)
	runTask(t)
}

//go:norace
func runTask(t *Task) {
	defer func() {
		if r := recover(); r != nil {
			t.Panic = r
			t.Guilty = guilty(string(debug.Stack()))
		}
	}()
	t.fn()
}

// guilty tells whether the innermost function that belongs to the harness or
// to the code under test belongs to the latter.
//
//go:norace
func guilty(stack string) bool {
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
	}
	for _, l := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(l, "github.com/jhump/gopoet."):
			return true
		case strings.HasPrefix(l, "verifsim/"):
			return false
		}
	}
	return false
}

//go:norace
func taskExit(t *Task) {
	t.Done = true
	t.fin <- struct{}{}
	Cur = nil
}

// Crash makes the tasks of a node unwind without any further effect.
//
//go:norace
func (s *Sched) Crash(node int) { s.dead[node] = true }

// adopt finds the tasks that the code under test has started.
//
//go:norace
func (s *Sched) adopt() {
	for id := len(s.tasks) + 1; id <= runtime.SimTasks(); id++ {
		parent := s.tasks[runtime.SimParent(id)-1]
		s.tasks = append(s.tasks, &Task{ID: id, Name: parent.Name + "+", Node: parent.Node})
		s.Foreign++
	}
}

// Run runs until no task can go on.
//
//go:norace
func (s *Sched) Run() Outcome {
	var run []*Task
	for {
		s.adopt()
		run = run[:0]
		alive := 0
		var wake *Task
		if s.last != nil {
			s.consider(s.last, &run, &alive, &wake)
		}
		for _, t := range s.tasks {
			if t != s.last {
				s.consider(t, &run, &alive, &wake)
			}
		}
		if Steps >= MaxSteps {
			s.out.Limit = true
			break
		}
		if len(run) == 0 && wake != nil {
			// Nothing can happen before the clock reaches the next event.
			if runtime.SimClock < wake.Wake {
				runtime.SimClock = wake.Wake
			}
			wake.Kind = Ready
			run = append(run, wake)
		}
		if len(run) == 0 {
			if alive > 0 {
				s.out.Deadlock = true
				for _, t := range s.tasks {
					if st := runtime.SimState(t.ID); st != runtime.SimDead {
						s.out.Blocked = append(s.out.Blocked, fmt.Sprintf("%s (%s)", t.Name, runtime.SimReason(t.ID)))
					}
				}
			}
			break
		}
		i := 0
		if len(run) > 1 {
			s.out.Decisions++
			i = s.choose.Next(len(run))
		}
		t := run[i]
		if t != s.last {
			s.out.Switches++
		}
		gap := s.choose.Gap()
		if gap <= 0 {
			t.Gap = 1 << 60
		} else {
			t.Gap = int64(gap)
		}
		if s.dead[t.Node] {
			t.Dying = true
		}
		s.last = t
		s.out.Hash = mix(s.out.Hash ^ uint64(t.ID)<<32 ^ uint64(uint32(t.Site)))
		t.Kind = Ready
		runtime.SimSetStep(uint64(t.ID)<<40 + t.Yields)
		Cur = t
		runtime.SimResume(t.ID)
		Cur = nil
		if s.OnStep != nil {
			s.OnStep()
		}
	}
	for _, t := range s.tasks {
		if t.Done && t.fin != nil {
			<-t.fin // what the task did happens before what the caller does now
		}
	}
	s.out.Steps = Steps
	return s.out
}

//go:norace
func (s *Sched) consider(t *Task, run *[]*Task, alive *int, wake **Task) {
	switch runtime.SimState(t.ID) {
	case runtime.SimDead, runtime.SimRunning:
		return
	case runtime.SimBlocked:
		*alive++
		return
	}
	*alive++
	if s.dead[t.Node] {
		*run = append(*run, t)
		return
	}
	switch t.Kind {
	case OnCond:
		if !t.Cond() {
			return
		}
	case OnTime:
		if runtime.SimClock < t.Wake {
			if *wake == nil || t.Wake < (*wake).Wake {
				*wake = t
			}
			return
		}
	}
	*run = append(*run, t)
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
