package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"verifsim/choice"
	"verifsim/kern"
	"verifsim/rt"
	"verifsim/scen"
)

// Job is what a worker process is asked to do: a batch of runs drawn from
// seeds, or one run from a tape.
type Job struct {
	Prop    string
	Seed    uint64
	Lo, Hi  int
	Variant string
	Warm    []int       `json:",omitempty"` // runs to make before, without looking at them
	Tape    choice.Tape `json:",omitempty"` // replay run Lo from it
	Replay  bool
	Verbose bool
}

// RunReport is one run.
type RunReport struct {
	Index   int
	Seed    uint64
	Variant string
	Prop    string
	Class   string
	Msg     string
	Tape    choice.Tape
	Hash    uint64
	Steps   uint64
	Trace   []string
	Faults  map[string]int
	Others  []string
}

// JobResult sums up a batch.
type JobResult struct {
	Runs       int
	Nontrivial []uint64 // hashes of the schedules of non-trivial runs
	All        []uint64
	Steps      uint64
	Switches   uint64
	Decisions  uint64
	SimTime    int64
	Counts     map[string]int
	Faults     map[string]int
	Sites      []int32 // statements in front of which a task was preempted
	Reached    []int32 // statements that a task reached
	Violation  *RunReport
	Others     map[string]int // violations of other properties, for information
	Sample     *RunReport
	Trouble    string
}

func runSeed(j *Job, index int) uint64 {
	return choice.Mix64(j.Seed, choice.Hash(j.Prop+"/"+j.Variant), uint64(index))
}

// one makes a run.
func one(j *Job, index int, tape choice.Tape, replay, verbose bool) (r *scen.Run, src *choice.Source, trouble string) {
	seed := runSeed(j, index)
	if replay {
		src = choice.Replay(seed, tape)
	} else {
		src = choice.New(seed)
	}
	runtime.SimClock = 1700000000e9
	sync.SimClearPools()
	r = scen.New(j.Prop, seed, src)
	r.Purego = strings.Contains(j.Variant, "purego")
	r.Race = strings.Contains(j.Variant, "race")
	r.Verbose = verbose
	func() {
		defer func() {
			if p := recover(); p != nil {
				trouble = fmt.Sprintf("run %d (seed %d) of %s: the simulator panicked: %v\n%s", index, seed, j.Prop, p, debug.Stack())
			}
		}()
		r.Begin()
		scen.All[j.Prop](r)
	}()
	return
}

func report(j *Job, index int, r *scen.Run, src *choice.Source) *RunReport {
	rep := &RunReport{Index: index, Seed: r.Seed, Variant: j.Variant, Hash: r.Hash, Steps: r.Steps, Trace: r.Trace, Faults: r.Faults, Tape: src.Tape()}
	if v := r.First(); v != nil {
		rep.Prop, rep.Class, rep.Msg = v.Prop, v.Class, v.Msg
	}
	for _, v := range r.Violations {
		if len(rep.Others) < 10 {
			rep.Others = append(rep.Others, v.Prop+": "+v.Msg)
		}
	}
	return rep
}

func worker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
	var j Job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
	scen.RaceLog = os.Getenv("VERIF_RACELOG")
	res := &JobResult{Counts: map[string]int{}, Faults: map[string]int{}, Others: map[string]int{}}
	n := 0
	collect := func() {
		n++
		var m runtime.MemStats
		if n%4 == 0 {
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 300<<20 {
				runtime.GC()
			}
		}
	}
	// initialise the code under test under the simulation
	first := choice.New(1)
	kern.New(first.Stream("kern")).Install()
	runtime.SimClock = 1700000000e9
	scen.New(j.Prop, 1, first).Restart(1)
	for _, w := range j.Warm {
		_, _, t := one(&j, w, nil, false, false)
		if t != "" {
			res.Trouble = t
		}
		collect()
	}
	for i := j.Lo; i < j.Hi; i++ {
		fmt.Fprintf(os.Stderr, "run %d\n", i) // tells the parent how far it got
		r, src, trouble := one(&j, i, j.Tape, j.Replay, j.Verbose)
		if trouble != "" {
			res.Trouble = trouble
			break
		}
		res.Runs++
		res.All = append(res.All, r.Hash)
		if r.Nontrivial {
			res.Nontrivial = append(res.Nontrivial, r.Hash)
		}
		res.Steps += r.Steps
		res.Switches += r.Switches
		res.Decisions += r.Decisions
		res.SimTime += r.SimTime
		for k, v := range r.Counts {
			res.Counts[k] += v
		}
		for k, v := range r.Faults {
			res.Faults[k] += v
		}
		for _, v := range r.Violations {
			if v.Prop != j.Prop {
				res.Others[v.Prop]++
			}
		}
		if j.Replay || r.Failed() {
			rep := report(&j, i, r, src)
			if r.Failed() {
				res.Violation = rep
			} else {
				res.Sample = rep
			}
			break
		}
		if r.Nontrivial && res.Sample == nil {
			res.Sample = report(&j, i, r, src)
		}
		collect()
	}
	for i := range rt.SiteHits {
		if rt.SiteHits[i] > 0 {
			res.Sites = append(res.Sites, int32(i))
		}
		if rt.SiteSeen[i] {
			res.Reached = append(res.Reached, int32(i))
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
