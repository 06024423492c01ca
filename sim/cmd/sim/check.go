package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/choice"
	"verifsim/rt"
	"verifsim/scen"
)

const verif = "/verif"

// exec runs a job in a fresh process.
func execJob(j *Job, timeout time.Duration) (*JobResult, string, error) {
	bin := os.Getenv("VERIF_BIN")
	name := "vsim"
	if j.Variant != "" {
		name += "-" + j.Variant
	}
	in, err := json.Marshal(j)
	if err != nil {
		return nil, "", err
	}
	cmd := exec.Command(filepath.Join(bin, name), "worker")
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	dir, err := os.MkdirTemp(bin, "job")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(dir)
	cmd.Dir = dir
	cmd.Env = []string{
		"PATH=/usr/bin:/bin", "HOME=/nonexistent", "LANG=C", "TMPDIR=" + dir,
		"GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=system",
		"GORACE=log_path=" + dir + "/race halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=7 exitcode=0 atexit_sleep_ms=0",
		"VERIF_RACELOG=" + dir + "/race",
	}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan struct{})
	timedOut := false
	var mu sync.Mutex
	go func() {
		select {
		case <-done:
		case <-time.After(timeout):
			mu.Lock()
			timedOut = true
			mu.Unlock()
			cmd.Process.Signal(syscall.SIGKILL)
		}
	}()
	err = cmd.Wait()
	close(done)
	mu.Lock()
	defer mu.Unlock()
	if timedOut {
		return nil, errb.String(), errTimeout
	}
	if err != nil {
		return nil, errb.String(), err
	}
	var res JobResult
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		return nil, errb.String(), fmt.Errorf("worker said %q: %v", clip(out.String(), 200), err)
	}
	return &res, errb.String(), nil
}

var errTimeout = fmt.Errorf("timeout")

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// variants of the build that decide a property.
func variants(prop string) []string {
	switch prop {
	case "C08":
		return []string{"", "race"}
	case "C10", "C11":
		return []string{"", "", "", "purego"}
	}
	return []string{""}
}

func batchSize(prop, variant string) int {
	if variant == "race" {
		return 12
	}
	return 25
}

type totals struct {
	JobResult
	jobs    int
	hashes  map[uint64]bool
	nontriv map[uint64]bool
	sites   map[int32]bool
	reached map[int32]bool
	perVar  map[string]int
	samples []interface{}
}

func check(prop string) int {
	if scen.All[prop] == nil {
		fmt.Fprintln(os.Stderr, "no such property:", prop)
		return 3
	}
	start := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = n
		} else if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(n)
		} else {
			seed = choice.Hash(s)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	budget := 45 * time.Second
	if tier == "thorough" {
		budget = 12 * time.Minute
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	workers := 8
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	fmt.Printf("%s: seed %d, tier %s, %v of simulation with %d workers\n", prop, seed, tier, budget, workers)

	t := &totals{hashes: map[uint64]bool{}, nontriv: map[uint64]bool{}, sites: map[int32]bool{}, reached: map[int32]bool{}, perVar: map[string]int{}}
	t.Counts, t.Faults, t.Others = map[string]int{}, map[string]int{}, map[string]int{}
	vs := variants(prop)
	next := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	var found *Job // a batch with a violation or a death
	var foundRep *RunReport
	var foundErr string
	trouble := ""
	deadline := start.Add(budget)
	code := 0
	nviol := 0
	var explored time.Duration
	// what was seen, but not again
	unsettled := map[string]int{}
	for {
		begin := time.Now()
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					if found != nil || trouble != "" || time.Now().After(deadline) {
						mu.Unlock()
						return
					}
					n := next
					next++
					v := vs[n%len(vs)]
					mu.Unlock()
					size := batchSize(prop, v)
					j := &Job{Prop: prop, Seed: seed, Lo: n * 25, Hi: n*25 + size, Variant: v}
					res, stderr, err := execJob(j, 300*time.Second)
					mu.Lock()
					if err != nil {
						if found == nil || found.Lo > j.Lo {
							found, foundRep, foundErr = j, nil, err.Error()+"\n"+stderr
						}
					} else {
						t.add(j, res)
						if res.Trouble != "" {
							trouble = res.Trouble
						}
						if res.Violation != nil && (found == nil || foundRep == nil || found.Lo > j.Lo) {
							found, foundRep = j, res.Violation
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		explored += time.Since(begin)
		if found == nil {
			break
		}
		path, msg, ok := settle(prop, found, foundRep, foundErr)
		if ok {
			nviol, code = 1, 1
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", msg, prop, path)
			break
		}
		fmt.Println(msg)
		code = 2
		if foundRep == nil {
			break
		}
		unsettled[foundRep.Class]++
		if unsettled[foundRep.Class] == 4 {
			// It is real, but depends on something that is not the same from
			// process to process, such as addresses.
			out := &Replay{Property: prop, Variant: found.Variant, VerifSeed: seed, Violation: foundRep.Msg, Class: foundRep.Class,
				Run: foundRep.Index, RunSeed: foundRep.Seed, Minimised: "not minimised: the violation does not occur in every execution",
				Hash: fmt.Sprintf("%016x", foundRep.Hash), Faults: foundRep.Faults, Trace: foundRep.Trace, Tape: foundRep.Tape}
			if path, err := out.write(); err == nil {
				nviol, code = 1, 1
				fmt.Printf("seen in 4 runs, but never again in the same one\nVIOLATION property=%s replay=%s\n", prop, path)
			}
			break
		}
		found, foundRep, foundErr = nil, nil, ""
		if d := time.Now().Add(15 * time.Second); d.After(deadline) && d.Before(start.Add(budget+2*time.Minute)) {
			deadline = d
		}
	}
	switch {
	case code != 0:
	case trouble != "":
		fmt.Println("the simulator is in trouble:", trouble)
		code = 2
	case t.Runs == 0:
		fmt.Println("no run was completed")
		code = 2
	}
	det := ""
	if code == 0 {
		det = determinism(prop, seed, t)
	}
	if err := t.evidence(prop, tier, seed, explored, time.Since(start), nviol, det); err != nil {
		fmt.Println("evidence:", err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s: %d runs (%d distinct schedules), %d statements, %d task switches, %d faults injected, %.0f s of simulated time in %.0f s\n",
		prop, t.Runs, len(t.hashes), t.Steps, t.Switches, sum(t.Faults), float64(t.SimTime)/1e9, explored.Seconds())
	if len(t.Others) > 0 {
		fmt.Printf("%s: seen on the way, to be decided by other checks: %v\n", prop, t.Others)
	}
	if code == 0 {
		fmt.Printf("%s: held in all of them\n", prop)
	}
	return code
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func (t *totals) add(j *Job, r *JobResult) {
	t.jobs++
	t.Runs += r.Runs
	t.perVar["vsim"+map[bool]string{true: "-"}[j.Variant != ""]+j.Variant] += r.Runs
	for _, h := range r.All {
		t.hashes[h] = true
	}
	for _, h := range r.Nontrivial {
		t.nontriv[h] = true
	}
	for _, s := range r.Sites {
		t.sites[s] = true
	}
	for _, s := range r.Reached {
		t.reached[s] = true
	}
	t.Steps += r.Steps
	t.Switches += r.Switches
	t.Decisions += r.Decisions
	t.SimTime += r.SimTime
	for k, v := range r.Counts {
		t.Counts[k] += v
	}
	for k, v := range r.Faults {
		if v > 0 {
			t.Faults[k] += v
		}
	}
	for k, v := range r.Others {
		t.Others[k] += v
	}
	if r.Sample != nil && len(t.samples) < 5 {
		trace := r.Sample.Trace
		if len(trace) > 25 {
			trace = trace[:25]
		}
		n := 0
		for _, s := range r.Sample.Tape {
			n += len(s)
		}
		t.samples = append(t.samples, map[string]interface{}{
			"run": r.Sample.Index, "variant": j.Variant, "seed": fmt.Sprint(r.Sample.Seed), "statements": r.Sample.Steps,
			"schedule_hash": fmt.Sprintf("%016x", r.Sample.Hash), "decisions": n, "faults": r.Sample.Faults, "trace": trace,
		})
	}
}

// determinism runs a few runs again, one per process, and compares.
func determinism(prop string, seed uint64, t *totals) string {
	same, all := 0, 0
	for i, v := range variants(prop) {
		if i > 0 && v == variants(prop)[i-1] {
			continue
		}
		for n := i; n < 4*len(variants(prop)); n += len(variants(prop)) {
			idx := n*25 + 3
			a, _, err1 := execJob(&Job{Prop: prop, Seed: seed, Lo: n * 25, Hi: idx + 1, Variant: v}, 120*time.Second)
			b, _, err2 := execJob(&Job{Prop: prop, Seed: seed, Lo: idx, Hi: idx + 1, Variant: v}, 120*time.Second)
			if err1 != nil || err2 != nil || len(a.All) == 0 || len(b.All) == 0 {
				continue
			}
			all++
			if a.All[len(a.All)-1] == b.All[0] {
				same++
			}
		}
	}
	return fmt.Sprintf("%d of %d runs gave the same schedule when repeated alone in a fresh process", same, all)
}

func (t *totals) evidence(prop, tier string, seed uint64, explored, wall time.Duration, violations int, det string) error {
	hours := explored.Hours()
	if hours == 0 {
		hours = 1
	}
	var sites []string
	for s := range t.sites {
		if int(s) < len(rt.Sites) {
			sites = append(sites, rt.Sites[s])
		}
	}
	sort.Strings(sites)
	missed := []string{}
	for i, s := range rt.Sites {
		if !t.reached[int32(i)] {
			missed = append(missed, s)
		}
	}
	sort.Strings(missed)
	cov := map[string]interface{}{
		"evaluations":                        t.Runs,
		"distinct_nontrivial":                len(t.nontriv),
		"rule":                               scen.Rules[prop],
		"samples":                            t.samples,
		"runs_per_hour":                      int(float64(t.Runs) / hours),
		"seeds":                              fmt.Sprintf("one seed per run, derived from VERIF_SEED=%d, the property, the build variant and the number of the run", seed),
		"seeds_per_hour":                     int(float64(t.Runs) / hours),
		"simulated_seconds":                  float64(t.SimTime) / 1e9,
		"faults_injected":                    t.Faults,
		"events":                             t.Counts,
		"statements_executed":                t.Steps,
		"task_switches":                      t.Switches,
		"scheduling_decisions_with_a_choice": t.Decisions,
		"distinct_interleavings":             len(t.hashes),
		"distinct_interleavings_measure":     "hash of the sequence of (task, statement) at which control changed hands and, where there are any, of the simulated system calls and their results, over all phases of a run",
		"statements_preempted":               len(sites),
		"statements_of_code_under_test":      len(rt.Sites),
		"statements_reached":                 len(rt.Sites) - len(missed),
		"statements_not_reached":             missed,
		"runs_by_build":                      t.perVar,
		"determinism":                        det,
		"violations_of_other_properties_observed": t.Others,
		"real_components":                         scen.Real[prop],
		"stub_components":                         scen.Stubs[prop],
	}
	if t.samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov,
		"wall_s": wall.Seconds(), "violations": violations,
		"assumptions": scen.Assumptions[prop],
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" {
		dir = d
	}
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

// Replay is a replay file.
type Replay struct {
	Property  string
	Violation string
	Class     string
	Variant   string
	VerifSeed uint64
	Run       int
	RunSeed   uint64
	Warm      []int `json:",omitempty"`
	Minimised string
	Hash      string
	Death     string `json:",omitempty"` // the process dies
	Exact     bool   // the replay repeats the execution exactly
	Faults    map[string]int
	Trace     []string
	Tape      choice.Tape
}

func deathClass(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIG") {
			return addresses.ReplaceAllString(l, "0x?")
		}
	}
	return "death"
}

var addresses = regexp.MustCompile(`0x[0-9a-f]+|goroutine [0-9]+`)

// ofGopoet tells whether the goroutine that ended the process was executing
// gopoet's code or started by it.
func ofGopoet(stderr string) bool {
	i := strings.Index(stderr, "[running")
	if i < 0 {
		return false
	}
	stack := stderr[i:]
	if i := strings.Index(stack, "\n\n"); i >= 0 {
		stack = stack[:i]
	}
	return strings.Contains(stack, "github.com/jhump/gopoet")
}

// settle confirms a violation in fresh processes, minimises it and writes
// the replay file.
func settle(prop string, j *Job, rep *RunReport, errText string) (path, msg string, ok bool) {
	timeout := 120 * time.Second
	rj := &Job{Prop: prop, Seed: j.Seed, Variant: j.Variant}
	out := &Replay{Property: prop, Variant: j.Variant, VerifSeed: j.Seed}
	var fails func(tape choice.Tape, warm []int) *RunReport
	if rep == nil {
		// the worker died or hung: which run was it?
		idx := -1
		for _, l := range strings.Split(errText, "\n") {
			if strings.HasPrefix(l, "run ") {
				if n, err := strconv.Atoi(l[4:]); err == nil {
					idx = n
				}
			}
		}
		if idx < 0 {
			return "", "a worker failed: " + clip(errText, 2000), false
		}
		class := deathClass(errText)
		one := &Job{Prop: prop, Seed: j.Seed, Variant: j.Variant, Lo: idx, Hi: idx + 1}
		warm := false
		_, e1, err1 := execJob(one, timeout)
		if err1 == nil {
			for i := j.Lo; i < idx; i++ {
				one.Warm = append(one.Warm, i)
			}
			warm = true
			_, e1, err1 = execJob(one, timeout)
		}
		if err1 == nil || err1 == errTimeout && class != "death" || deathClass(e1) != class {
			return "", "a worker failed, but not again: " + clip(errText, 3000), false
		}
		if class == "death" && err1 != errTimeout {
			return "", "a worker failed: " + clip(errText, 3000), false
		}
		_ = warm
		if strings.Contains(e1, "out of memory") || strings.Contains(e1, "too many simulated") || err1 != errTimeout && !ofGopoet(e1) {
			return "", "a worker failed: " + clip(e1, 3000), false
		}
		what := class
		if err1 == errTimeout {
			what = "it does not end"
		}
		out.Violation = "the process does not survive the run: " + what
		out.Class, out.Death = class, class
		out.Run, out.RunSeed, out.Warm = idx, runSeed(one, idx), one.Warm
		out.Minimised = "not minimised: the process dies"
		out.Trace = strings.Split(clip(e1, 4000), "\n")
		p, err := out.write()
		if err != nil {
			return "", err.Error(), false
		}
		return p, "run " + strconv.Itoa(idx) + ": " + out.Violation, true
	}
	idx := rep.Index
	rj.Lo, rj.Hi, rj.Replay = idx, idx+1, true
	fails = func(tape choice.Tape, warm []int) *RunReport {
		c := *rj
		c.Tape, c.Warm = tape, warm
		res, _, err := execJob(&c, timeout)
		if err != nil || res.Violation == nil || res.Violation.Class != rep.Class {
			return nil
		}
		return res.Violation
	}
	var warm []int
	got := fails(rep.Tape, nil)
	if got == nil {
		// it may take what earlier runs of the same process left behind
		for i := j.Lo; i < idx; i++ {
			warm = append(warm, i)
		}
		for try := 0; try < 3 && got == nil; try++ {
			got = fails(rep.Tape, warm)
		}
		if got == nil {
			for try := 0; try < 5 && got == nil; try++ {
				got = fails(rep.Tape, nil)
			}
			warm = nil
		}
		if got == nil {
			return "", fmt.Sprintf("run %d (seed %d) violated %s once, but not again: %s", idx, rep.Seed, prop, rep.Msg), false
		}
		// drop the earlier runs that do not matter
		for len(warm) > 0 {
			if g := fails(rep.Tape, warm[1:]); g != nil {
				warm, got = warm[1:], g
				continue
			}
			break
		}
	}
	before := tapeSize(got.Tape)
	limit := 75 * time.Second
	if d, err := time.ParseDuration(os.Getenv("VERIF_MINIMISE")); err == nil {
		limit = d
	}
	deadline := time.Now().Add(limit)
	got, rounds := minimise(got, warm, fails, deadline)
	// the final word: with a full trace, twice
	c := *rj
	c.Tape, c.Warm, c.Verbose = got.Tape, warm, true
	exact := true
	var final *RunReport
	for try := 0; try < 4; try++ {
		res, _, err := execJob(&c, timeout)
		if err != nil || res.Violation == nil || res.Violation.Class != rep.Class {
			exact = false
			continue
		}
		if final != nil && (final.Hash != res.Violation.Hash || final.Msg != res.Violation.Msg) {
			exact = false
		}
		final = res.Violation
	}
	if final == nil {
		final = got
	}
	out.Violation, out.Class = final.Msg, final.Class
	out.Run, out.RunSeed, out.Warm = idx, rep.Seed, warm
	out.Minimised = fmt.Sprintf("from %d to %d recorded decisions in %d trial runs", before, tapeSize(final.Tape), rounds)
	out.Hash = fmt.Sprintf("%016x", final.Hash)
	out.Exact = exact
	out.Faults, out.Trace, out.Tape = final.Faults, final.Trace, final.Tape
	p, err := out.write()
	if err != nil {
		return "", err.Error(), false
	}
	return p, fmt.Sprintf("run %d, seed %d%s: %s\n(%s; exact replay: %v)", idx, rep.Seed, map[bool]string{true: ", build " + j.Variant}[j.Variant != ""], final.Msg, out.Minimised, exact), true
}

func (r *Replay) write() (string, error) {
	dir := filepath.Join(verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return "", err
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", r.Property, r.VerifSeed, r.Run))
	return p, os.WriteFile(p, append(b, '\n'), 0o644)
}

// replay repeats a recorded violation.
func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	j := &Job{Prop: r.Property, Seed: r.VerifSeed, Variant: r.Variant, Lo: r.Run, Hi: r.Run + 1, Warm: r.Warm}
	if r.Death != "" {
		_, stderr, err := execJob(j, 120*time.Second)
		if err != nil && deathClass(stderr) == r.Death {
			fmt.Printf("the process dies again: %s\nVIOLATION property=%s replay=%s\n", r.Death, r.Property, file)
			return 1
		}
		fmt.Println("the process survives")
		return 0
	}
	j.Tape, j.Replay, j.Verbose = r.Tape, true, true
	res, stderr, err := execJob(j, 120*time.Second)
	if err != nil {
		fmt.Println(err, stderr)
		return 2
	}
	v := res.Violation
	if v == nil {
		fmt.Println("the violation does not occur")
		return 0
	}
	for _, l := range v.Trace {
		fmt.Println("  " + l)
	}
	fmt.Println(v.Msg)
	fmt.Printf("schedule hash %016x (recorded: %s)\n", v.Hash, r.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}

// selftest runs runs twice and compares everything that was recorded.
func selftest(args []string) int {
	prop := args[0]
	n, _ := strconv.Atoi(args[1])
	bad := 0
	for _, v := range variants(prop) {
		for i := 0; i < n; i++ {
			a, _, err1 := execJob(&Job{Prop: prop, Seed: 7, Lo: i, Hi: i + 1, Variant: v, Verbose: true, Replay: false}, time.Minute)
			if err1 != nil {
				fmt.Println(err1)
				bad++
				continue
			}
			warm := []int{i + 1, i + 2, i + 3}
			b, _, err2 := execJob(&Job{Prop: prop, Seed: 7, Lo: i, Hi: i + 1, Variant: v, Verbose: true, Warm: warm}, time.Minute)
			if err2 != nil {
				fmt.Println(err2)
				bad++
				continue
			}
			a.Sites, b.Sites = nil, nil
			a.Reached, b.Reached = nil, nil
			x, _ := json.Marshal(a)
			y, _ := json.Marshal(b)
			if !bytes.Equal(x, y) {
				bad++
				fmt.Printf("run %d differs:\n%s\n%s\n", i, clip(string(x), 1500), clip(string(y), 1500))
			}
		}
	}
	fmt.Println(prop, "differing runs:", bad)
	if bad > 0 {
		return 2
	}
	return 0
}
