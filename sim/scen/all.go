package scen

// All has the scenario of each property.
var All = map[string]func(*Run){
	"C01": IO, "C02": IO, "C03": IO, "C04": IO, "C05": IO,
	"C06": Same, "C07": Repeat, "C08": Parallel, "C09": Tables, "C10": References, "C11": Inputs,
}

// RaceLog is where the race detector writes its reports.
var RaceLog string

const ioRule = "A run draws from its seed: a program against the API (1 to 5 files, valid or not, sharing elements), an API to write files with, " +
	"what is on the file system before, GOPATH, root and working directory, 1 to 4 attempts by one or two concurrent calls, kinds and rates of faults, points of crashes and power losses, and every scheduling decision. " +
	"Non-trivial: at least one fault was injected or an attempt was repeated. Distinct: the hash over the interleaving and over kind and result of all simulated system calls differs."

const programRule = "The seed draws a program against the API (files that share types, code blocks, templates and data and refer to each other's declarations; some cannot be rendered). "

// Rules says, for each property, how runs are made and what makes one
// non-trivial.
var Rules = map[string]string{
	"C01": ioRule, "C02": ioRule, "C03": ioRule, "C04": ioRule, "C05": ioRule,
	"C06": programRule + "A run makes the same 2 to 15 calls (renderings with and without failing destinations, import lists, hand-outs, qualification, files written to a simulated file system) in 2 to 4 executions that differ in hash seeds, map iteration order, random numbers, clock and clock jumps, time zone, environment, arguments, number of processors, process and user id, host name, files found where none was written, order of addresses of map keys, working directory, what package-level variables were initialised with, heap layout, earlier activity of the process and activity of a concurrent task. " +
		"Non-trivial: at least two executions were compared. Distinct: the hash over the interleavings of all executions differs.",
	"C07": programRule + "A run adds contents and renders files 2 to 15 times in a drawn order, alone or several with one call, nested in callbacks of other renderings, with failing destinations, openers and callbacks in between. " +
		"Non-trivial: a file was rendered after an earlier rendering of it or within another one. Distinct: the hash over the sequence of preemption points differs.",
	"C08": programRule + "A run distributes the files over 2 to 4 tasks that render them 1 to 3 times with slow, failing and waiting callbacks and destinations; every scheduling decision is drawn. Half of the runs are built with the race detector. " +
		"Non-trivial: at least two tasks, and more switches between them than tasks. Distinct: the hash over the sequence of (task, statement) at which control changed hands differs.",
	"C09": programRule + "A run has 1 or 2 import tables (of a file, of a package, or the zero value) and 1 to 4 clients with 1 to 8 operations each (register, ensure, look up, qualify symbols, types, signatures and template data, render the table's file, operations that abort midway). " +
		"Non-trivial: at least two clients. Distinct: the hash over the interleaving differs.",
	"C10": programRule + "A run has 1 to 4 builders that add the parts of all files in a drawn order, with lookups, registrations and early renderings in between, then 1 to 3 renderers with failing attempts in between. A quarter of the runs is built without package unsafe. " +
		"Non-trivial: at least two builders that took turns. Distinct: the hash over the interleaving differs.",
	"C11": programRule + "A run has 1 to 3 builders, then 1 to 4 tasks with 1 to 5 operations each (render, write several files, qualify data, types and signatures for other tables, print; some abort midway), next to an observer that compares all inputs at drawn instants and in callbacks. A quarter of the runs is built without package unsafe. " +
		"Non-trivial: at least two tasks besides the observer. Distinct: the hash over the interleaving differs.",
}

var realAll = []string{
	"all of github.com/jhump/gopoet as it is in /repo's working tree, with a scheduling point compiled in front of every statement",
	"the Go standard library (os, path/filepath, bytes, fmt, go/format, text/template, reflect, go/types) above the system-call layer",
	"the Go runtime, except that the scheduler runs the one goroutine that the simulator names, and that map iteration, hash seeds, select and random numbers are drawn from the seed",
}

// Real lists the components that run real code.
var Real = map[string][]string{}

const (
	stubClock = "the clock: simulated, it moves when a task sleeps or nothing else can happen"
	stubEnv   = "environment variables, program arguments, process and user id, host name, time zone, number of processors and working directory: set by the simulator"
)

var ioStubs = []string{
	"system calls of packages syscall and os: an in-memory file system with a page cache, injected errors, crashes and power losses",
	"writers and openers of the caller: recorders that can be slow, fail, write short or panic",
	stubClock, stubEnv,
}

// Stubs lists the components that are simulated.
var Stubs = map[string][]string{"C01": ioStubs, "C02": ioStubs, "C03": ioStubs, "C04": ioStubs, "C05": ioStubs,
	"C06": {"system calls of packages syscall and os: an in-memory file system without faults", memStub, stubClock, stubEnv},
	"C07": {memStub, stubClock}, "C08": {memStub, stubClock}, "C09": {memStub, stubClock}, "C10": {memStub, stubClock}, "C11": {memStub, stubClock},
}

const memStub = "writers, openers, template functions and Stringers of the caller: recorders that can pause, fail, write short or panic"

var ioAssumptions = []string{
	"the complete source of a valid file is what WriteGoFile produces for a freshly built copy with no concurrent task and no fault; it is checked to be parseable, gofmt-stable and to declare everything that was modelled",
	"EINTR and short writes are retried by package os and need not be reported",
	"after a power loss a file that was not synced holds a prefix, a zero-padded prefix or nothing; directory entries created since may be lost",
	"import paths are clean and relative, and different files of one set have distinct paths (the same file may be requested twice)",
}

// Assumptions behind the check of each property.
var Assumptions = map[string][]string{"C01": ioAssumptions, "C02": ioAssumptions, "C03": ioAssumptions, "C04": ioAssumptions, "C05": ioAssumptions,
	"C06": {assumeScope, "executions run in one process, one after the other; the variables of the packages under test are initialised again for most of them, those of the standard library are not"},
	"C07": {assumeScope, "a file is rendered with what its declarations and those it refers to contain at that time"},
	"C08": {assumeScope, "one file is rendered by one task at a time, and nothing is built meanwhile", "the race detector sees two accesses as ordered only if the code under test or the caller synchronises them: the simulator's own handovers are hidden from it"},
	"C09": {assumeScope, "callers hold one lock per table during an operation", "packages are registered under the name they declare, or without a name"},
	"C10": {assumeScope, "callers hold one lock per file while they add to it", "packages are referred to under the name they declare, or without a name"},
	"C11": {assumeScope, "an observer runs between any two statements, not between the parts of one"},
}

const assumeScope = "programs follow the documented rules of construction, and template data has no cycles"

func init() {
	for p := range All {
		Real[p] = realAll
	}
}
