package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// The standard library is compiled from GOROOT's own sources with the edits
// below, through "go build -overlay": GOROOT itself is never written to.
// Every edit names an anchor that has to occur exactly once, so that a
// toolchain the edits were not written for stops the build instead of
// silently giving an execution the simulator does not control.

type patch struct {
	file   string // relative to GOROOT/src
	anchor string
	repl   string
}

const simRuntime = `package runtime

import "unsafe"

// The scheduler of the simulator (see /verif/DESIGN.md). A goroutine with
// simTask != 0 is a simulated task: it only ever runs while the controller
// goroutine is parked in SimResume, and control returns to the controller
// when the task parks, blocks or exits.

const (
	SimNone    = 0
	SimRunning = 1 // has control
	SimHeld    = 2 // created, never ran
	SimParked  = 3 // parked itself in SimPark
	SimBlocked = 4 // blocked inside the runtime (channel, mutex, ...)
	SimPending = 5 // blocked, and woken since
	SimDead    = 6
)

const SimMaxTasks = 64

type simTaskInfo struct {
	g      *g
	state  int32
	parent int32
	reason waitReason
}

var simTasks [SimMaxTasks]simTaskInfo
var simNTasks int32 // ids are 1..simNTasks
var simCtl *g
var simSpawn bool

// SimClock is the simulated wall clock in nanoseconds.
var SimClock int64

// SimProcs is the number of processors that tasks see.
var SimProcs int

// SimSeed and SimStep determine what rand returns to a task.
var SimSeed uint64
var SimStep uint64
var simRandK uint64
var simCheapK uint64
var SimRands uint64

// SimReset forgets all tasks. Only the controller calls it, between runs.
func SimReset() {
	for i := range simTasks {
		simTasks[i] = simTaskInfo{}
	}
	simNTasks = 0
	simRandK = 0
	simCheapK = 0
}

// SimExpectSpawn makes the next go statement of the controller create a task.
func SimExpectSpawn() { simSpawn = true }

func SimTasks() int { return int(simNTasks) }

func SimState(id int) int { return int(simTasks[id].state) }

func SimParent(id int) int { return int(simTasks[id].parent) }

func SimReason(id int) string { return simTasks[id].reason.String() }

// SimStackUsed is the size of what is on the stack of the caller.
//
//go:norace
//go:noinline
func SimStackUsed() uintptr {
	var x byte
	return getg().stack.hi - uintptr(unsafe.Pointer(&x))
}

//go:nosplit
func SimSelf() int { return int(getg().simTask) }

// SimPark hands control back to the controller.
//
//go:norace
func SimPark() {
	gp := getg()
	if gp.simTask == 0 {
		throw("SimPark outside a simulated task")
	}
	gp.simVol = true
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
}

// SimResume runs task id until it gives control back.
//
//go:norace
func SimResume(id int) {
	gp := getg()
	if gp.simTask != 0 {
		throw("SimResume inside a simulated task")
	}
	simCtl = gp
	t := &simTasks[id]
	switch t.state {
	case SimHeld, SimParked, SimPending:
	default:
		throw("SimResume of a task that cannot run")
	}
	gopark(simResumeCommit, unsafe.Pointer(t), waitReasonZero, traceBlockGeneric, 1)
}

func simResumeCommit(_ *g, p unsafe.Pointer) bool {
	t := (*simTaskInfo)(p)
	held := t.state == SimHeld
	t.state = SimRunning
	simRandK = 0
	simCheapK = 0
	if held {
		runqput(getg().m.p.ptr(), t.g, true)
		return true
	}
	t.g.simGo = true
	ready(t.g, 0, true)
	return true
}

// simParked runs on g0 when a task has parked or blocked.
func simParked(gp *g) {
	t := &simTasks[gp.simTask]
	if gp.simVol {
		gp.simVol = false
		t.state = SimParked
	} else {
		t.state = SimBlocked
		t.reason = gp.waitreason
	}
	ready(simCtl, 0, true)
}

// simHoldBack reports that gp must not be made runnable now.
func simHoldBack(gp *g) bool {
	if gp.simGo {
		gp.simGo = false
		return false
	}
	t := &simTasks[gp.simTask]
	if t.state == SimRunning {
		// Woken between deciding to block and having blocked.
		throw("simulated task woken while it has control")
	}
	t.state = SimPending
	return true
}

// simAdopt makes newg a task if its creator is one (or asked for it).
func simAdopt(newg, parent *g) bool {
	if parent.simTask == 0 && !simSpawn {
		return false
	}
	if isSystemGoroutine(newg, false) {
		return false
	}
	simSpawn = false
	if simNTasks+1 >= SimMaxTasks {
		throw("too many simulated tasks")
	}
	simNTasks++
	newg.simTask = simNTasks
	newg.simVol = false
	newg.simGo = false
	simTasks[simNTasks] = simTaskInfo{g: newg, state: SimHeld, parent: parent.simTask}
	return true
}

func simExited(id int32) {
	simTasks[id].state = SimDead
	simTasks[id].g = nil
	ready(simCtl, 0, true)
}

//go:nosplit
func simMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func simRand() uint64 {
	simRandK++
	SimRands++
	return simMix(simMix(SimSeed^SimStep*0xd6e8feb86659fd93) + simRandK)
}

//go:nosplit
func simCheap() uint64 {
	simCheapK++
	return simMix(simMix(SimSeed^SimStep*0xa0761d6478bd642f) + simCheapK)
}

// SimSetStep starts a new step: what rand returns next depends on the seed
// and the step only, not on how much was drawn before.
//
//go:nosplit
func SimSetStep(s uint64) {
	SimStep = s
	simRandK = 0
	simCheapK = 0
}

//go:linkname syscall_simTask syscall.runtime_simTask
//go:nosplit
func syscall_simTask() bool { return getg().simTask != 0 }
`

var patches = []patch{
	{"runtime/runtime2.go", "	valgrindStackID uintptr\n}", `	valgrindStackID uintptr

	simTask int32
	simVol  bool
	simGo   bool
}`},
	{"runtime/proc.go", `	if bubble != nil {
		bubble.decActive()
	}

	schedule()
}

func goschedImpl(`, `	if bubble != nil {
		bubble.decActive()
	}

	if gp.simTask != 0 {
		simParked(gp)
	}

	schedule()
}

func goschedImpl(`},
	{"runtime/proc.go", `func ready(gp *g, traceskip int, next bool) {
	status := readgstatus(gp)
`, `func ready(gp *g, traceskip int, next bool) {
	if gp.simTask != 0 && simHoldBack(gp) {
		return
	}
	status := readgstatus(gp)
`},
	{"runtime/proc.go", `		newg := newproc1(fn, gp, pc, false, waitReasonZero)

		pp := getg().m.p.ptr()
`, `		newg := newproc1(fn, gp, pc, false, waitReasonZero)
		if simAdopt(newg, gp) {
			return
		}

		pp := getg().m.p.ptr()
`},
	{"runtime/proc.go", `	gdestroy(gp)
	schedule()
}

func gdestroy(`, `	simID := gp.simTask
	gp.simTask = 0
	gdestroy(gp)
	if simID != 0 {
		simExited(simID)
	}
	schedule()
}

func gdestroy(`},
	{"runtime/rand.go", `	mp := getg().m
	c := &mp.chacha8
`, `	if getg().simTask != 0 {
		return simRand()
	}
	mp := getg().m
	c := &mp.chacha8
`},
	{"runtime/rand.go", `func cheaprand() uint32 {
	mp := getg().m
`, `func cheaprand() uint32 {
	if getg().simTask != 0 {
		return uint32(simCheap())
	}
	mp := getg().m
`},
	{"runtime/rand.go", `func cheaprandu64() uint64 {
`, `func cheaprandu64() uint64 {
	if getg().simTask != 0 {
		return simCheap()
	}
`},
	// One fixed process-wide hash key: what varies from run to run is the
	// seed of each map, which comes from rand.
	{"runtime/rand.go", `	globalRand.state.Init(*seed)
`, `	for i := range seed {
		seed[i] = byte(i + 1)
	}
	globalRand.state.Init(*seed)
`},
	{"runtime/time.go", `func time_runtimeNow() (sec int64, nsec int32, mono int64) {
`, `func time_runtimeNow() (sec int64, nsec int32, mono int64) {
	if getg().simTask != 0 {
		SimClock += 50
		return SimClock / 1000000000, int32(SimClock % 1000000000), 0
	}
`},
	{"runtime/time.go", `func time_runtimeNano() int64 {
	gp := getg()
`, `func time_runtimeNano() int64 {
	gp := getg()
	if gp.simTask != 0 {
		SimClock += 50
		return SimClock
	}
`},
	{"runtime/time.go", `func timeSleep(ns int64) {
	if ns <= 0 {
		return
	}

	gp := getg()
`, `func timeSleep(ns int64) {
	if ns <= 0 {
		return
	}

	gp := getg()
	if gp.simTask != 0 {
		SimClock += ns
		SimPark()
		return
	}
`},
	{"runtime/sema.go", `func internal_sync_nanotime() int64 {
`, `func internal_sync_nanotime() int64 {
	if getg().simTask != 0 {
		return SimClock
	}
`},
	// Under the race detector pools never pass anything on, because that would
	// order tasks that are not ordered otherwise.
	{"sync/pool.go", `		if runtime_randn(4) == 0 {
`, `		if runtime_randn(4) < 4 {
`},
	{"sync/pool.go", `var poolRaceHash [128]uint64
`, `var poolRaceHash [128]uint64

// SimClearPools empties all pools, so that a run finds them as a new process
// does.
func SimClearPools() {
	poolCleanup()
	poolCleanup()
}
`},
	{"syscall/syscall_linux.go", `//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
`, `// SimHandler is the simulated kernel.
var SimHandler func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr)

func runtime_simTask() bool

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if runtime_simTask() && SimHandler != nil {
		x1, x2, e := SimHandler(trap, a1, a2, a3, 0, 0, 0)
		return x1, x2, Errno(e)
	}
	return realSyscall(trap, a1, a2, a3)
}

//go:uintptrkeepalive
//go:nosplit
func realSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
`},
	{"syscall/syscall_linux.go", `//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
`, `//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if runtime_simTask() && SimHandler != nil {
		x1, x2, e := SimHandler(trap, a1, a2, a3, a4, a5, a6)
		return x1, x2, Errno(e)
	}
	return realSyscall6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrkeepalive
//go:nosplit
func realSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
`},
	{"syscall/env_unix.go", `func Getenv(key string) (value string, found bool) {
	copyenv()
`, `// SimGetenv is the simulated environment.
var SimGetenv func(key string) (value string, found bool)

func Getenv(key string) (value string, found bool) {
	if runtime_simTask() && SimGetenv != nil {
		return SimGetenv(key)
	}
	copyenv()
`},
	{"runtime/debug.go", `	return int(numCPUStartup)
`, `	if getg().simTask != 0 && SimProcs > 0 {
		return SimProcs
	}
	return int(numCPUStartup)
`},
	{"runtime/debug.go", `func GOMAXPROCS(n int) int {
`, `func GOMAXPROCS(n int) int {
	if getg().simTask != 0 && SimProcs > 0 {
		return SimProcs
	}
`},
	{"syscall/zsyscall_linux_amd64.go", `	r0, _ := rawSyscallNoError(SYS_GETUID, 0, 0, 0)
`, `	if runtime_simTask() && SimHandler != nil {
		x1, _, _ := SimHandler(SYS_GETUID, 0, 0, 0, 0, 0, 0)
		return int(x1)
	}
	r0, _ := rawSyscallNoError(SYS_GETUID, 0, 0, 0)
`},
	{"syscall/zsyscall_linux_amd64.go", `	r0, _ := rawSyscallNoError(SYS_GETPID, 0, 0, 0)
`, `	if runtime_simTask() && SimHandler != nil {
		x1, _, _ := SimHandler(SYS_GETPID, 0, 0, 0, 0, 0, 0)
		return int(x1)
	}
	r0, _ := rawSyscallNoError(SYS_GETPID, 0, 0, 0)
`},
	{"syscall/zsyscall_linux_amd64.go", `	r0, _ := rawSyscallNoError(SYS_GETPPID, 0, 0, 0)
`, `	if runtime_simTask() && SimHandler != nil {
		x1, _, _ := SimHandler(SYS_GETPPID, 0, 0, 0, 0, 0, 0)
		return int(x1)
	}
	r0, _ := rawSyscallNoError(SYS_GETPPID, 0, 0, 0)
`},
	{"syscall/zsyscall_linux_amd64.go", `	r0, _ := rawSyscallNoError(SYS_GETGID, 0, 0, 0)
`, `	if runtime_simTask() && SimHandler != nil {
		x1, _, _ := SimHandler(SYS_GETGID, 0, 0, 0, 0, 0, 0)
		return int(x1)
	}
	r0, _ := rawSyscallNoError(SYS_GETGID, 0, 0, 0)
`},
	{"syscall/zsyscall_linux_amd64.go", `	r0, _ := rawSyscallNoError(SYS_GETEUID, 0, 0, 0)
`, `	if runtime_simTask() && SimHandler != nil {
		x1, _, _ := SimHandler(SYS_GETEUID, 0, 0, 0, 0, 0, 0)
		return int(x1)
	}
	r0, _ := rawSyscallNoError(SYS_GETEUID, 0, 0, 0)
`},
	{"syscall/zsyscall_linux_amd64.go", `	r0, _ := rawSyscallNoError(SYS_GETEGID, 0, 0, 0)
`, `	if runtime_simTask() && SimHandler != nil {
		x1, _, _ := SimHandler(SYS_GETEGID, 0, 0, 0, 0, 0, 0)
		return int(x1)
	}
	r0, _ := rawSyscallNoError(SYS_GETEGID, 0, 0, 0)
`},
	{"syscall/zsyscall_linux_amd64.go", `	_, _, e1 := RawSyscall(SYS_UNAME, uintptr(unsafe.Pointer(buf)), 0, 0)
`, `	if runtime_simTask() && SimHandler != nil {
		for i, s := range [...]string{"Linux", SimHostname, "6.1.0", "#1", "x86_64"} {
			f := [...]*[65]int8{&buf.Sysname, &buf.Nodename, &buf.Release, &buf.Version, &buf.Machine}[i]
			*f = [65]int8{}
			for j := 0; j < len(s) && j < 64; j++ {
				f[j] = int8(s[j])
			}
		}
		return nil
	}
	_, _, e1 := RawSyscall(SYS_UNAME, uintptr(unsafe.Pointer(buf)), 0, 0)
`},
	{"syscall/syscall_linux.go", `func Getgroups() (gids []int, err error) {
`, `// SimHostname is the name of the simulated machine.
var SimHostname string

// SimTask tells whether the caller is a simulated task.
func SimTask() bool { return runtime_simTask() && SimHandler != nil }

func Getgroups() (gids []int, err error) {
	if SimTask() {
		return []int{Getgid()}, nil
	}
`},
	{"syscall/env_unix.go", `func Environ() []string {
	copyenv()
`, `// SimEnviron is all of the simulated environment.
var SimEnviron func() []string

func Environ() []string {
	if runtime_simTask() && SimEnviron != nil {
		return SimEnviron()
	}
	copyenv()
`},
	{"time/zoneinfo.go", `	if l == &localLoc {
		localOnce.Do(initLocal)
`, `	if l == &localLoc {
		if syscall.SimTask() {
			if SimLocal != nil {
				return SimLocal
			}
			return &utcLoc
		}
		localOnce.Do(initLocal)
`},
	{"time/zoneinfo.go", `func (l *Location) get() *Location {
`, `// SimLocal is the time zone of the simulated machine.
var SimLocal *Location

func (l *Location) get() *Location {
`},
	{"os/user/lookup.go", `	cache.Do(func() { cache.u, cache.err = current() })
`, `	if syscall.SimTask() {
		return current()
	}
	cache.Do(func() { cache.u, cache.err = current() })
`},
	{"os/user/lookup.go", `import "sync"
`, `import (
	"sync"
	"syscall"
)
`},
}

// writeOverlay puts the edited copies of the standard library below dir and
// returns the overlay file for "go build -overlay".
func writeOverlay(goroot, dir string) (string, error) {
	repl := map[string]string{}
	edited := map[string]string{}
	for _, p := range patches {
		src, ok := edited[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			if err != nil {
				return "", err
			}
			src = string(b)
		}
		if n := strings.Count(src, p.anchor); n != 1 {
			return "", fmt.Errorf("overlay: anchor occurs %d times in %s: %q", n, p.file, p.anchor)
		}
		edited[p.file] = strings.Replace(src, p.anchor, p.repl, 1)
	}
	edited["runtime/sim_verif.go"] = simRuntime
	for name, src := range edited {
		out := filepath.Join(dir, "std", name)
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return "", err
		}
		if err := os.WriteFile(out, []byte(src), 0o644); err != nil {
			return "", err
		}
		repl[filepath.Join(goroot, "src", name)] = out
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err != nil {
		return "", err
	}
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}
