package scen

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"io"
	"os"
	"path"
	"runtime"
	"strings"
	"syscall"

	"github.com/jhump/gopoet"
	"verifsim/choice"
	"verifsim/gen"
	"verifsim/kern"
	"verifsim/oracle"
	"verifsim/rt"
)

// The ways to write files.
const (
	apiWriter = iota // WriteGoFile
	apiOpener        // WriteGoFiles
	apiFS            // WriteGoFilesToFileSystem
	apiGoPath        // WriteGoFilesToGoPath
)

var apiNames = []string{"WriteGoFile", "WriteGoFiles", "WriteGoFilesToFileSystem", "WriteGoFilesToGoPath"}

// simErr is a failure that a destination of the simulation reports.
type simErr struct{ what string }

func (e *simErr) Error() string { return e.what }

// transient is a failure that claims to be gone soon.
type transient struct{ simErr }

func (e *transient) Temporary() bool { return true }
func (e *transient) Timeout() bool   { return true }

// wellKnown are failures that code may be tempted to treat specially.
var wellKnown = []error{
	io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, os.ErrClosed, os.ErrExist, os.ErrNotExist,
	os.ErrPermission, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, syscall.EEXIST, syscall.EINVAL,
}

// err picks how a destination reports a failure.
func (c *ioCall) err(format string, args ...interface{}) error {
	what := fmt.Sprintf(format, args...)
	switch c.io.Pick(8, 6, 2, 2, 1) {
	case 4:
		// no two of them can be compared, but their wrapping can
		return &os.PathError{Op: "simulated", Path: what, Err: listErr{what}}
	case 1:
		return wellKnown[c.io.N(len(wellKnown))]
	case 2:
		return &os.PathError{Op: "simulated", Path: what, Err: wellKnown[c.io.N(len(wellKnown))]}
	case 3:
		return &transient{simErr{what}}
	}
	return &simErr{what}
}

// listErr is a failure that cannot be compared.
type listErr []string

func (e listErr) Error() string { return strings.Join(e, "; ") }

type simPanic struct{ what string }

// ioRun is a run of the scenario behind C01 to C05: sets of files are
// written by several attempts that meet faults, crashes and power failures.
type ioRun struct {
	*Run
	st      *choice.Stream // structure of the run
	io      *choice.Stream // faults
	spec    *gen.Spec
	refs    [][]byte // complete source of each file; nil: the file is invalid
	api     int
	k       *kern.Kernel
	root    string // as given to gopoet
	absRoot string
	calls   []*ioCall // in flight
	active  map[int]bool
	wants   []*oracle.Want
	before  map[string]string
	made    map[string]bool // directories that calls have created
	allowed map[string]bool
	power   bool
	sched   *rt.Sched

	formatErrors []keptError
}

// keptError is a format error that the caller has kept.
type keptError struct {
	fe  *gopoet.FormatError
	unf string
	of  string
}

// ioCall is one call of a function that writes files.
type ioCall struct {
	r      *ioRun
	node   int
	label  string
	files  []*gen.File
	world  *gen.World
	dests  []*ioDest
	opened int // destinations requested so far
	// what the call has been told went wrong
	failures []error
	panics   bool
	task     *rt.Task // that makes the call
	anyError bool     // any error will do
	failed   string   // first failure of a destination, for C03
	clean    bool     // no faults are injected
	finished bool
	success  bool
	killed   bool
	judged   bool
	cfg      ioFaults
	io       *choice.Stream
}

// ioFaults configures the destinations that are not files.
type ioFaults struct {
	rate                           int // out of 1000
	write, short, wpanic, cl, clpn bool
	silent                         bool // writes that fall short without an error
	open, opanic, slow             bool
	exit                           bool // what panics may end its goroutine instead
	kind                           int  // of the destinations
}

// ioDest is one destination of a call.
type ioDest struct {
	c       *ioCall
	f       *gen.File
	path    string // absolute, for files
	real    string // without symbolic links
	entry   string // the same if only the last element may be one
	asked   int
	open    int
	opens   int
	closes  int
	got     []byte
	failed  bool // a write failed
	closeOK bool
	fd      int
}

// reference renders every file on its own, in a freshly built program.
func reference(r *Run, s *gen.Spec) ([][]byte, []*oracle.Want, bool) {
	refs := make([][]byte, len(s.Files))
	wants := make([]*oracle.Want, len(s.Files))
	for i, f := range s.Files {
		if f.Invalid != "" {
			continue
		}
		w, err := oracle.Expect(s, f)
		if err != nil {
			panic(err) // the generator is broken
		}
		wants[i] = w
		var buf bytes.Buffer
		var rerr error
		var p interface{}
		done := false
		out, tp := r.inQuiet(func() {
			rerr, p, done = guarded(func() error {
				return gopoet.WriteGoFile(&buf, gen.Build(s, nil).Files[i])
			})
		})
		switch {
		case !done && out.Limit:
			r.Fail("C01", "rendering the valid file %s does not end", s.FilePath(f))
			return nil, nil, false
		case !done && out.Deadlock:
			r.Fail("C01", "rendering the valid file %s blocks: %v", s.FilePath(f), out.Blocked)
			return nil, nil, false
		case !done:
			r.Fail("C01", "rendering the valid file %s to a writer that does not fail panics: %s%s", s.FilePath(f), text(p), text(tp))
			return nil, nil, false
		case rerr != nil:
			r.Fail("C01", "rendering the valid file %s to a writer that does not fail reports %s", s.FilePath(f), text(rerr))
			return nil, nil, false
		}
		refs[i] = append([]byte{}, buf.Bytes()...)
		if err := w.Complete(refs[i]); err != nil {
			r.Fail("C01", "WriteGoFile reports success, but the source of %s is not complete: %v", s.FilePath(f), err)
			return nil, nil, false
		}
		if fm, err := format.Source(refs[i]); err != nil || !bytes.Equal(fm, refs[i]) {
			r.Fail("C01", "WriteGoFile reports success, but the source of %s is not formatted: %s", s.FilePath(f), differ(fm, refs[i]))
			return nil, nil, false
		}
	}
	return refs, wants, true
}

// IO is the scenario for C01 to C05.
func IO(run *Run) {
	r := &ioRun{Run: run, st: run.Src.Stream("io.plan"), io: run.Src.Stream("io.faults"), active: map[int]bool{}}
	weights := map[string][]int{
		"C01": {2, 3, 4, 1}, "C02": {3, 3, 4, 0}, "C03": {0, 4, 3, 1}, "C04": {0, 1, 6, 1}, "C05": {0, 0, 4, 4},
	}[run.Prop]
	r.api = r.st.Pick(weights...)
	g := run.Src.Stream("gen")
	cfg := run.cfg(g)
	cfg.Files = 1 + g.N(5)
	cfg.Big = g.Chance(1, 6)
	if r.st.Chance(1, 3) {
		cfg.Invalid = 30
	}
	r.spec = gen.New(g, cfg)
	var ok bool
	if r.refs, r.wants, ok = reference(run, r.spec); !ok {
		return
	}
	r.k = kern.New(run.Src.Stream("kern"))
	r.k.Verbose = run.Verbose
	r.k.Pid = 1 + r.st.N(99999)
	r.k.Install()
	r.k.Mon = r.event
	r.k.OnCrash = r.crashed
	r.k.OnPower = r.powerFails
	r.place()
	r.attempts()
	for _, k := range r.formatErrors {
		if string(k.fe.Unformatted) != k.unf {
			r.Fail("C02", "the source in the format error for %s changed later on: %s", k.of, differ([]byte(k.unf), k.fe.Unformatted))
			break
		}
	}
	for f, n := range r.k.Faults {
		r.Faults[f] += n
	}
	for nr, n := range r.k.Unknown {
		r.Counts[fmt.Sprintf("unsupported system call %d", nr)] += n
	}
	r.Trace = append(r.Trace, r.k.Trace...)
}

var roots = []string{"/out", "/out/", "out", "/a/b//c", "./gen/../out", ".", "", "/", "/deep/er/tree/", "../up",
	"/out/$HOME/${PWD}", "~/gen", " /o u t ", "/out/*/[a]?", "/out/%d%20\\n", "/Out/\u00fc"}
var gopaths = []string{"/gp", "/gp:/other", "/go/path/:/x:/y", "gp", "/gp::", unset, "", ":/gp", "::",
	"/gp/$HOME:/other", "~/go:/gp", " /g p", "/gp/*:/gp"}

// place sets up what is on the file system before the first attempt.
func (r *ioRun) place() {
	if r.api < apiFS {
		return
	}
	if r.st.Chance(1, 2) {
		r.envSeed = uint64(1 + r.st.N(1<<20))
	}
	switch r.api {
	case apiFS:
		r.root = roots[r.st.N(len(roots))]
		// must not matter
		r.setenv("GOPATH", gopaths[r.st.N(len(gopaths))])
	case apiGoPath:
		gp := gopaths[r.st.Pick(8, 6, 4, 4, 2, 4, 4, 2, 1, 1, 1, 1, 1)]
		r.setenv("GOPATH", gp)
		r.root = strings.SplitN(gp, ":", 2)[0]
		if gp == unset {
			r.root = ""
		}
	}
	// the same program can be elsewhere than another run of it was
	r.k.Cwd = []string{"/work", "/work/sub", "/w2", "/home/u/src"}[r.st.Pick(3, 1, 1, 1)]
	r.k.Provide(r.k.Cwd+"/", nil)
	if r.st.Chance(1, 4) {
		r.k.Provide("/home/u/go/", nil)
	}
	if r.st.Chance(1, 8) {
		r.k.Provide("/home/u/go/src/", nil)
	}
	r.absRoot = r.k.Abs(r.root)
	r.allowed = map[string]bool{}
	r.made = map[string]bool{}
	if r.st.Chance(1, 6) {
		r.links()
	}
	for _, f := range r.spec.Files {
		for _, p := range []string{r.target(f), r.k.RealPath(r.target(f)), r.entry(f)} {
			for d := path.Dir(p); d != "/"; d = path.Dir(d) {
				r.allowed[d+"/"] = true
			}
			r.allowed[p] = true
		}
	}
	bare := r.st.Chance(1, 4) // the root need not exist
	for i, f := range r.spec.Files {
		p := r.target(f)
		if bare {
			break
		}
		switch r.st.Pick(5, 1, 1, 2, 1, 1, 1, 1) {
		case 1:
			r.k.Provide(path.Dir(p)+"/", nil)
		case 2: // as it will be
			r.k.Provide(p, r.refs[i])
		case 3: // an older version that is longer
			r.k.Provide(p, append(append([]byte{}, r.refs[i]...), []byte(strings.Repeat("// stale\n", 1+r.st.N(40)))...))
		case 4: // torn
			if n := len(r.refs[i]); n > 0 {
				r.k.Provide(p, r.refs[i][:r.st.N(n)])
			}
		case 5:
			r.k.Provide(p, []byte("not Go at all\x00\xff"))
		case 6:
			r.k.Provide(p, []byte{})
		case 7: // same length, different content
			b := append([]byte{}, r.refs[i]...)
			if len(b) > 0 && r.st.Chance(1, 2) {
				b[r.st.N(len(b))] ^= 1
			} else {
				for j := range b {
					b[j] = 'x'
				}
			}
			r.k.Provide(p, b)
		}
	}
	// what nobody asks gopoet to touch
	for i, f := range r.spec.Files {
		p := r.target(f)
		for _, other := range []string{p + ".tmp", p + "~", path.Dir(p) + "/." + f.Name, path.Dir(p) + "/other.go", path.Dir(p) + "/sub/x.go",
			strings.TrimSuffix(p, ".go") + "_test.go", path.Dir(path.Dir(p)) + "/" + f.Name, "/" + f.Name, r.k.Cwd + "/" + f.Name, "/src/x.go",
			r.absRoot + "/src/" + r.spec.FilePath(f), strings.ToLower(p), r.absRoot + "/" + strings.ToLower(r.spec.FilePath(f)), r.absRoot + "/" + f.Name, "/" + r.spec.FilePath(f), "/other/" + r.spec.FilePath(f)} {
			other = r.k.RealPath(other)
			if bare && strings.HasPrefix(other, r.absRoot+"/") {
				continue
			}
			if r.st.Chance(1, 4) && !r.allowed[other] && !r.allowed[other+"/"] && !r.covers(other) {
				r.k.Provide(other, []byte(fmt.Sprintf("unrelated %d", i)))
			}
		}
	}
	r.before = r.k.List()
}

func (r *ioRun) entry(f *gen.File) string {
	dir, name := path.Split(r.target(f))
	return path.Clean(r.k.RealPath(dir) + "/" + name)
}

// links puts symbolic links on the way to the files.
func (r *ioRun) links() {
	for i, f := range r.spec.Files {
		p := r.target(f)
		if r.st.Chance(1, 2) {
			continue
		}
		to := fmt.Sprintf("/links/l%d", i)
		if r.st.Chance(1, 4) {
			// the file itself, which need not exist yet
			r.k.Provide("/links/", nil)
			if r.k.Symlink(p, to) {
				r.Faults["symbolic link in place of a file"]++
			}
			continue
		}
		d := path.Dir(p)
		for d != "/" && r.st.Chance(1, 2) {
			d = path.Dir(d)
		}
		if d == "/" || r.k.Exists(d) {
			continue
		}
		r.k.Provide(to+"/", nil)
		if r.st.Chance(1, 3) {
			// relative
			to = strings.Repeat("../", strings.Count(r.k.RealPath(d), "/")-1) + strings.TrimPrefix(to, "/")
		}
		if r.k.Symlink(d, to) {
			r.Faults["symbolic link in place of a directory"]++
		}
	}
}

// covers tells whether a path lies below a file.
func (r *ioRun) covers(p string) bool {
	for d := p; d != "/" && d != "."; d = path.Dir(d) {
		if r.allowed[d] {
			return true
		}
		if _, ok := r.k.Read(d); ok {
			return true
		}
	}
	return false
}

// target is the absolute path of a file.
func (r *ioRun) target(f *gen.File) string {
	return path.Clean(r.absRoot + "/" + r.spec.FilePath(f))
}

func (r *ioRun) crashed(node int) {
	r.sched.Crash(node)
	for _, c := range r.calls {
		if c.node == node {
			c.killed = true
		}
	}
}

func (r *ioRun) powerFails() {
	r.power = true
	for _, c := range r.calls {
		r.sched.Crash(c.node)
		c.killed = true
	}
}

// attempts runs the attempts.
func (r *ioRun) attempts() {
	n := r.st.N(4)
	faults := ioFaults{
		rate: []int{0, 30, 100, 300, 600}[r.st.N(5)], write: r.st.Chance(2, 3), short: r.st.Chance(1, 2), wpanic: r.st.Chance(1, 6),
		cl: r.st.Chance(2, 3), clpn: r.st.Chance(1, 8), open: r.st.Chance(1, 2), opanic: r.st.Chance(1, 8), slow: r.st.Chance(1, 3),
		silent: r.st.Chance(1, 4), exit: r.st.Chance(1, 4), kind: r.st.N(3),
	}
	kcfg := kern.Cfg{
		Rate: []int{0, 10, 40, 120, 300}[r.st.N(5)], Open: r.st.Chance(1, 2), Mkdir: r.st.Chance(1, 2), Stat: r.st.Chance(1, 3),
		Write: r.st.Chance(2, 3), Close: r.st.Chance(2, 3), Short: r.st.Chance(1, 2), Intr: r.st.Chance(1, 2), ReadFault: r.st.Chance(1, 2),
	}
	if r.st.Chance(1, 3) {
		kcfg.Latency = 200
	}
	two := r.st.Chance(1, 3) && len(r.spec.Files) > 1
	sameProcess := r.st.Chance(1, 2) // the second call comes from the same process
	worlds := map[int]*gen.World{}
	node := 0
	for i := 0; i <= n && !r.Failed(); i++ {
		last := i == n
		order := r.permute(last && r.Prop == "C04" || r.st.Chance(1, 3))
		if len(order) == 0 {
			return
		}
		if r.st.Chance(1, 40) {
			order = nil
			r.Counts["calls without files"]++
		}
		sets := [][]*gen.File{order}
		if two && len(order) > 1 {
			cut := 1 + r.st.N(len(order)-1)
			sets = [][]*gen.File{order[:cut], order[cut:]}
		}
		kc, fc := kcfg, faults
		clean := last || r.st.Chance(1, 8)
		if clean {
			kc, fc = kern.Cfg{Latency: kcfg.Latency}, ioFaults{slow: faults.slow, kind: faults.kind}
		} else if r.api >= apiFS {
			switch r.st.Pick(4, 2, 2) {
			case 1:
				kc.CrashAt = 1 + r.st.LogN(60)
			case 2:
				kc.PowerAt = 1 + r.st.LogN(60)
			}
			if r.st.Chance(1, 6) {
				kc.Capacity = r.k.Used() + r.st.LogN(20000)
				if kc.Capacity == 0 {
					kc.Capacity = 1
				}
			}
		}
		obstacle, perm := "", -1
		if !clean && r.api >= apiFS && len(order) > 0 && r.st.Chance(1, 5) {
			obstacle, perm = r.obstruct(order)
		}
		killAt := 0
		if !clean && r.st.Chance(1, 8) {
			killAt = 1 + r.st.LogN(400)
		}
		r.k.Configure(kc)
		r.calls = nil
		r.power = false
		for j, files := range sets {
			nd := node
			if j == 1 && !sameProcess {
				nd = node + 100
			}
			c := &ioCall{r: r, node: nd, label: fmt.Sprintf("attempt %d.%d", i, j), files: files, clean: clean && obstacle == "", cfg: fc}
			if len(files) > 0 && r.st.Chance(1, 10) {
				// once more the same
				f := files[r.st.N(len(files))]
				at := r.st.N(len(files) + 1)
				files = append(append(append([]*gen.File(nil), files[:at]...), f), files[at:]...)
				c.files = files
				r.Counts["calls with a repeated file"]++
			}
			c.io = r.Src.Stream(fmt.Sprintf("io.%d.%d", i, j))
			for _, f := range files {
				c.dests = append(c.dests, &ioDest{c: c, f: f, path: r.target(f), real: r.k.RealPath(r.target(f)), entry: r.entry(f)})
			}
			if obstacle != "" {
				c.failures = append(c.failures, syscall.ENOTDIR, syscall.EISDIR, syscall.EEXIST, syscall.EACCES)
			}
			r.calls = append(r.calls, c)
		}
		for _, c := range r.calls {
			// both calls of a process use the same program
			if c.node == node && worlds[node] != nil {
				c.world = worlds[node]
				continue
			}
			r.inQuiet(func() { c.world = gen.Build(r.spec, r.callback) })
			if c.node == node {
				worlds[node] = c.world
			}
		}
		out := r.phase(fmt.Sprintf("attempt%d", i), func(s *rt.Sched) {
			r.sched = s
			steps := 0
			s.OnStep = func() {
				steps++
				if steps == killAt {
					r.Faults["process crash"]++
					r.k.Note(fmt.Sprintf("P%d dies", node))
					r.k.Exit(node)
					r.crashed(node)
				}
			}
			for _, c := range r.calls {
				s.Go(c.label, c.node, c.run)
			}
		})
		if out.Limit || out.Deadlock {
			for _, c := range r.calls {
				if !c.finished && !c.killed && !c.judged {
					prop := "C01"
					if c.clean && i > 0 {
						prop = "C04"
					}
					r.Fail(prop, "%s of %s does not end (%v)", apiNames[r.api], c.label, out.Blocked)
				}
			}
			return
		}
		for _, c := range r.calls {
			if !c.killed && c.finished && !c.judged {
				c.judge(i > 0)
			}
		}
		if r.api >= apiFS {
			r.leftovers()
		}
		if r.Failed() {
			return
		}
		if r.power {
			r.k.PowerLoss()
			r.k.Note("the machine starts again")
		}
		dead := false
		for _, c := range r.calls {
			dead = dead || c.killed
			r.k.Exit(c.node + 100)
		}
		if dead || r.st.Chance(1, 3) {
			r.k.Exit(node)
			node++
			r.Counts["restarts"]++
			r.Restart(uint64(node))
		} else if i > 0 || n > 0 {
			r.Counts["attempts with the same in-memory files"]++
		}
		if obstacle != "" {
			if perm >= 0 {
				r.k.Chmod(obstacle, uint32(perm))
			} else {
				r.k.Remove(obstacle)
				delete(r.before, obstacle)
				delete(r.before, obstacle+"/")
			}
		}
		if i > 0 || len(r.k.Faults) > 0 {
			r.Nontrivial = true
		}
		r.Counts["calls of "+apiNames[r.api]]++
	}
}

// callback is code of the caller that runs during rendering.
func (r *ioRun) callback(what string) {
	r.Counts["callbacks during rendering"]++
	rt.Point(20000)
}

// permute picks the files of an attempt.
func (r *ioRun) permute(validOnly bool) []*gen.File {
	var l []*gen.File
	for i, f := range r.spec.Files {
		if validOnly && r.refs[i] == nil {
			continue
		}
		l = append(l, f)
	}
	for i := len(l) - 1; i > 0; i-- {
		j := i - r.st.N(i+1)
		l[i], l[j] = l[j], l[i]
	}
	if len(l) > 1 && r.st.Chance(1, 6) {
		l = l[:1+r.st.N(len(l)-1)]
	}
	return l
}

// obstruct puts a directory where a file belongs or the other way round, or
// takes away the permission to write to what is there; then it returns what
// the permissions were.
func (r *ioRun) obstruct(order []*gen.File) (string, int) {
	f := order[r.st.N(len(order))]
	p := r.k.RealPath(r.target(f))
	root := r.k.RealPath(r.absRoot)
	atRoot := root != "/" && r.st.Chance(1, 3)
	if r.st.Chance(1, 3) {
		if atRoot {
			p = root
		} else if r.st.Chance(1, 2) {
			p = path.Dir(p)
		}
		for p != "/" && !r.k.Exists(p) {
			p = path.Dir(p)
		}
		if p == "/" {
			return "", -1
		}
		perm := []uint32{0o444, 0o555, 0, 0o111}[r.st.N(4)]
		old, _ := r.k.Chmod(p, perm)
		r.Faults["missing permission"]++
		r.k.Note(fmt.Sprintf("the permissions of %s are %#o", p, perm))
		return p, int(old)
	}
	if r.st.Chance(1, 2) {
		d := path.Dir(p)
		for d != "/" && r.st.Chance(1, 2) {
			d = path.Dir(d)
		}
		if atRoot {
			d = root
		}
		if d != "/" && !r.k.Exists(d) && r.k.Providable(d) {
			r.k.Provide(d, []byte("a file"))
			r.before[d] = "a file"
			r.Faults["file in place of a directory"]++
			return d, -1
		}
		return "", -1
	}
	if r.k.Exists(p) || !r.k.Providable(p) {
		return "", -1
	}
	r.k.Provide(p+"/", nil)
	r.before[p+"/"] = r.k.List()[p+"/"]
	r.Faults["directory in place of a file"]++
	return p, -1
}

// run makes the call.
func (c *ioCall) run() {
	r := c.r
	var gfs []*gopoet.GoFile
	for _, f := range c.files {
		gfs = append(gfs, c.world.Files[f.Idx])
	}
	var errs []error
	var pan interface{}
	var ret bool
	switch r.api {
	case apiWriter:
		for i, d := range c.dests {
			d := d
			d.asked, d.open, d.opens = 1, 1, 1
			var err error
			w, fill, after := c.standard(d)
			err, pan, ret = c.guarded(func() error { return fill(gopoet.WriteGoFile(w, gfs[i])) })
			if !rt.Alive() {
				return
			}
			after()
			d.open = 0
			c.judgeWriter(i, err, pan, ret)
		}
		c.judged = true
		return
	case apiOpener:
		var err error
		err, pan, ret = c.guarded(func() error { return gopoet.WriteGoFiles(c.opener, gfs...) })
		errs = append(errs, err)
	case apiFS:
		var err error
		err, pan, ret = guarded(func() error { return gopoet.WriteGoFilesToFileSystem(r.root, gfs...) })
		errs = append(errs, err)
	case apiGoPath:
		var err error
		err, pan, ret = guarded(func() error { return gopoet.WriteGoFilesToGoPath(gfs...) })
		errs = append(errs, err)
	}
	if !rt.Alive() {
		return
	}
	// at the moment of the return
	c.returned(errs[0], pan, ret)
	c.finished = true
}

// returned checks what has to hold as soon as the call returns or unwinds.
func (c *ioCall) returned(err error, pan interface{}, ret bool) {
	r := c.r
	name := apiNames[r.api]
	if ret && err == nil {
		c.success = true
	}
	if ret {
		r.Counts["calls that returned"]++
	} else {
		r.Counts["calls that unwound"]++
	}
	if err != nil {
		r.Counts["calls that reported an error"]++
		r.k.Note(fmt.Sprintf("%s: %s reports %s", c.label, name, text(err)))
	}
	if !ret {
		r.k.Note(fmt.Sprintf("%s: %s panics: %s", c.label, name, text(pan)))
	}
	gopathEmpty := r.api == apiGoPath && r.root == ""
	// C03, C05: everything is closed
	for _, d := range c.dests {
		if d.open != 0 {
			r.Fail("C03", "%s: %s has ended (error %s), but %s is still open", c.label, name, text(err), c.destName(d))
			if r.api >= apiFS {
				r.Fail("C05", "%s: %s has ended (error %s), but a file descriptor for %s is still open", c.label, name, text(err), c.destName(d))
			}
		}
		if d.opens != d.closes && d.open == 0 {
			r.Fail("C03", "%s: %s was opened %d times and closed %d times", c.label, c.destName(d), d.opens, d.closes)
		}
	}
	if r.api >= apiFS {
		alone := true
		for _, o := range r.calls {
			if o != c && o.node == c.node {
				alone = false
			}
		}
		if fds := r.k.OpenFDs(c.node); alone && len(fds) > 0 {
			r.Fail("C05", "%s: %s has ended, but file descriptors are still open: %v", c.label, name, fds)
		}
	}
	if gopathEmpty {
		if ret && err == nil {
			r.Fail("C05", "%s reports success although GOPATH is empty", name)
		}
		if !ret {
			r.Fail("C05", "%s panics although GOPATH is merely empty: %s", name, text(pan))
		}
		return
	}
	c.verdict(c.dests, err, pan, ret)
}

func (c *ioCall) destName(d *ioDest) string {
	if c.r.api >= apiFS {
		return d.path
	}
	return c.r.spec.FilePath(d.f)
}

// verdict checks that success and failure are reported correctly.
func (c *ioCall) verdict(dests []*ioDest, err error, pan interface{}, ret bool) {
	r := c.r
	name := apiNames[r.api]
	invalid := -1
	for i, d := range dests {
		if r.refs[d.f.Idx] == nil {
			invalid = i
			break
		}
	}
	if ret && err == nil {
		r.Counts["calls that reported success"]++
		for i, d := range dests {
			ref := r.refs[d.f.Idx]
			switch {
			case ref == nil:
				r.Fail("C02", "%s: %s reports success, but %s cannot be rendered", c.label, name, c.destName(d))
			case r.api != apiWriter && d.opens == 0:
				r.Fail("C01", "%s: %s reports success, but never opened %s (file %d of %d)", c.label, name, c.destName(d), i+1, len(dests))
			case d.failed:
				r.Fail("C01", "%s: %s reports success, but a write to %s failed", c.label, name, c.destName(d))
			case r.api != apiWriter && !d.closeOK:
				r.Fail("C01", "%s: %s reports success, but %s was not closed without an error", c.label, name, c.destName(d))
			default:
				got := d.got
				if r.api >= apiFS {
					got, _ = r.k.Read(d.path)
				}
				if !bytes.Equal(got, ref) {
					r.Fail("C01", "%s: %s reports success, but %s does not hold its complete source: %s", c.label, name, c.destName(d), differ(ref, got))
				}
			}
		}
		return
	}
	// files before the one that failed stay complete
	for i, d := range dests {
		if i+1 < len(dests) && dests[i+1].opens > 0 && r.api != apiWriter {
			ref := r.refs[d.f.Idx]
			got := d.got
			if r.api >= apiFS && !c.reopened(i) {
				got, _ = r.k.Read(d.path)
			}
			if ref != nil && !bytes.Equal(got, ref) {
				r.Fail("C03", "%s: %s went on to %s although %s was not complete: %s", c.label, name, c.destName(dests[i+1]), c.destName(d), differ(ref, got))
			}
			if ref == nil {
				r.Fail("C03", "%s: %s went on to %s although %s cannot be rendered", c.label, name, c.destName(dests[i+1]), c.destName(d))
			}
		}
	}
	reached := invalid >= 0 && (r.api == apiWriter || dests[invalid].opens > 0 || len(c.failures) == 0 && !c.panics)
	if !ret {
		if c.panics {
			return
		}
		for _, d := range dests {
			// a file may be rendered before any destination is opened
			if r.refs[d.f.Idx] == nil && d.f.Invalid == "abort" {
				return
			}
		}
		if reached {
			r.Fail("C02", "%s: %s panics on a syntax error instead of reporting it: %s", c.label, name, text(pan))
			return
		}
		r.Fail("C01", "%s: %s panics (%s) although nothing that it called did; failures: %s", c.label, name, text(pan), text(c.failures))
		return
	}
	// an error was reported: it has to carry a failure
	for _, f := range c.failures {
		if errors.Is(err, f) {
			return
		}
	}
	if c.anyError {
		return
	}
	if reached {
		d := dests[invalid]
		if d.f.Invalid == "abort" {
			return
		}
		c.formatError(d, err)
		return
	}
	if fe := (*gopoet.FormatError)(nil); errors.As(err, &fe) {
		// likewise
		for _, d := range dests {
			if r.refs[d.f.Idx] == nil && d.f.Invalid == "syntax" {
				c.formatError(d, err)
				return
			}
		}
	}
	if len(c.failures) == 0 && !c.panics {
		prop := "C01"
		r.Fail(prop, "%s: %s met no failure, but reports %s", c.label, name, text(err))
		return
	}
	r.Fail("C01", "%s: %s reports %s, which is none of the failures it met: %s", c.label, name, text(err), text(c.failures))
}

// formatError checks the error for a file that is not valid Go.
func (c *ioCall) formatError(d *ioDest, err error) {
	r := c.r
	var fe *gopoet.FormatError
	if !errors.As(err, &fe) {
		r.Fail("C02", "%s: a syntax error in %s is reported as %T (%s), not as a format error", c.label, c.destName(d), err, text(err))
		return
	}
	r.Counts["format errors"]++
	r.formatErrors = append(r.formatErrors, keptError{fe, string(fe.Unformatted), c.destName(d)})
	_, want := format.Source(fe.Unformatted)
	if want == nil {
		r.Fail("C02", "%s: the format error for %s carries source that is not the faulty one: %s", c.label, c.destName(d), short(fe.Unformatted))
		return
	}
	if fe.Err == nil || fe.Err.Error() != want.Error() {
		r.Fail("C02", "%s: the format error for %s carries %s instead of the formatter's error %s", c.label, c.destName(d), text(fe.Err), text(want))
		return
	}
	// complete: every declaration is there, in order
	src := string(fe.Unformatted)
	x := r.spec.Expect(d.f)
	at := 0
	for _, n := range x.Names {
		i := strings.Index(src[at:], n)
		if i < 0 {
			r.Fail("C02", "%s: the source in the format error for %s lacks the declaration of %s", c.label, c.destName(d), n)
			return
		}
		at += i + len(n)
	}
	if strings.Contains(x.Source, "x := broken") {
		return // what a panicking value is printed as is not known
	}
	w, g := oracle.Tokens([]byte(x.Source)), oracle.Tokens(fe.Unformatted)
	for i := 0; i < len(w) || i < len(g); i++ {
		if i >= len(g) || i < len(w) && w[i] < g[i] {
			r.Fail("C02", "%s: the source in the format error for %s is not complete: it lacks %q", c.label, c.destName(d), w[i])
			return
		}
		if i >= len(w) || w[i] != g[i] {
			r.Fail("C02", "%s: the source in the format error for %s is not the faulty one: it has an additional %q", c.label, c.destName(d), g[i])
			return
		}
	}
}

// judge checks what has to hold after a call, once nothing runs any more.
func (c *ioCall) judge(rerun bool) {
	r := c.r
	if !c.clean || r.api == apiGoPath && r.root == "" {
		return
	}
	for _, f := range c.files {
		if r.refs[f.Idx] == nil {
			return
		}
	}
	// C04: a clean attempt restores everything
	if !c.success {
		if rerun {
			r.Fail("C04", "%s: the attempt met no fault, but did not succeed", c.label)
		}
		return
	}
	if r.api >= apiFS {
		for _, d := range c.dests {
			got, ok := r.k.Read(d.path)
			if !ok {
				r.Fail("C04", "%s: the attempt met no fault, but %s is missing", c.label, d.path)
			} else if !bytes.Equal(got, r.refs[d.f.Idx]) {
				r.Fail("C04", "%s: the attempt met no fault, but %s does not hold what a first run produces: %s", c.label, d.path, differ(r.refs[d.f.Idx], got))
			}
		}
	} else {
		for _, d := range c.dests {
			if !bytes.Equal(d.got, r.refs[d.f.Idx]) {
				r.Fail("C04", "%s: the attempt met no fault, but %s was given something else than by a first run: %s", c.label, c.destName(d), differ(r.refs[d.f.Idx], d.got))
			}
		}
	}
}

// judgeWriter judges one call of WriteGoFile.
func (c *ioCall) judgeWriter(i int, err error, pan interface{}, ret bool) {
	c.verdict(c.dests[i:i+1], err, pan, ret)
	clean := c.clean && c.r.refs[c.files[i].Idx] != nil
	if clean && (!ret || err != nil) {
		c.r.Fail("C04", "%s: the attempt met no fault, but WriteGoFile reports %s", c.label, text(err))
	}
	c.r.Counts["calls of WriteGoFile"]++
	c.failures = nil
	c.panics, c.anyError = false, false
}

// leftovers compares the file system with what may have changed.
func (r *ioRun) leftovers() {
	now := r.k.List()
	for _, p := range sortedPaths(now) {
		old, was := r.before[p]
		if r.allowed[p] || was && old == now[p] {
			continue
		}
		if !was {
			r.Fail("C05", "%s was created, but nobody asked for it", p)
		} else {
			r.Fail("C05", "%s was changed, but nobody asked for it", p)
		}
	}
	for _, p := range sortedPaths(r.before) {
		if _, ok := now[p]; !ok && !r.allowed[p] {
			r.Fail("C05", "%s is gone", p)
		}
	}
}

// reopened tells whether a file that was requested again has been opened
// again.
func (c *ioCall) reopened(i int) bool {
	for _, d := range c.dests[i+1:] {
		if d.path == c.dests[i].path && d.opens > 0 {
			return true
		}
	}
	return false
}

// callFor returns the destination that an event is about: of a file that was
// requested several times the one that is opened next, or was opened last.
func (r *ioRun) callFor(node int, p string, opening bool) (*ioCall, *ioDest) {
	for _, c := range r.calls {
		if c.node != node {
			continue
		}
		var found *ioDest
		for _, d := range c.dests {
			if d.path != p && d.real != p && d.entry != p {
				continue
			}
			if found == nil || d.opens > 0 || opening && found.opens > 0 {
				found = d
			}
			if opening && d.opens == 0 {
				break
			}
		}
		if found != nil {
			return c, found
		}
	}
	return nil, nil
}

// current returns the call that the running task makes.
func (r *ioRun) current() *ioCall {
	if rt.Cur != nil {
		// tasks started by a call act for it
		name := strings.TrimRight(rt.Cur.Name, "+")
		for _, c := range r.calls {
			if c.label == name {
				return c
			}
		}
	}
	return nil
}

// event sees everything that happens to the file system.
func (r *ioRun) event(e kern.Event) {
	r.Hash = choice.Mix64(r.Hash, choice.Hash(e.Op), uint64(e.Err))
	c := r.current()
	if c == nil {
		r.Fail("C05", "%v outside of any call", e)
		return
	}
	name := apiNames[r.api]
	if e.Err != 0 {
		if e.Injected && e.Err != syscall.EINTR {
			c.failures = append(c.failures, e.Err)
			if e.Op == "stat" {
				// package os reports why it wanted to know instead
				c.failures = append(c.failures, syscall.EEXIST, syscall.ENOTDIR)
			}
		}
	} else if r.api == apiGoPath && r.root == "" {
		switch e.Op {
		case "create", "write", "truncate", "mkdir", "unlink", "rmdir", "rename", "link", "chmod", "chdir":
			r.Fail("C05", "%s: GOPATH is empty, but there was %v", c.label, e)
		}
		return
	}
	// C05
	if e.Err == 0 {
		switch e.Op {
		case "create", "write", "truncate", "unlink", "chmod", "sync":
			if e.Op == "chmod" && r.made[e.Path] {
				break
			}
			if _, d := r.callFor(e.Proc, e.Path, false); d == nil {
				if e.Op != "sync" {
					r.Fail("C05", "%s: %v, which is not a requested file", c.label, e)
				}
			} else if d.c != c {
				r.Fail("C05", "%s: %v, which another call was asked for", c.label, e)
			}
		case "mkdir":
			below := false
			for _, d := range c.dests {
				if strings.HasPrefix(d.path, e.Path+"/") || strings.HasPrefix(d.real, e.Path+"/") {
					below = true
				}
			}
			r.made[e.Path] = true
			if !below {
				r.Fail("C05", "%s: %v, which is not on the way to a requested file", c.label, e)
			}
		case "rmdir", "rename", "link", "chdir":
			r.Fail("C05", "%s: %v", c.label, e)
		}
	}
	_, d := r.callFor(e.Proc, e.Path, e.Op == "open")
	if d == nil {
		return
	}
	c = d.c
	wr := e.Flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	switch e.Op {
	case "open":
		if !wr || e.Err != 0 {
			return
		}
		c.destOpened(d, name)
		d.fd = e.FD
	case "write":
		if d.failed && e.Err != syscall.EINTR {
			r.Fail("C02", "%s: %v after a write to it had failed", c.label, e)
		}
		ref := r.refs[d.f.Idx]
		if ref == nil && len(e.Data) > 0 {
			r.Fail("C02", "%s: %s cannot be rendered, but was handed %s", c.label, d.path, short(e.Data))
			return
		}
		if e.Off != len(d.got) {
			r.Fail("C02", "%s: %v, but %d bytes had been handed to it", c.label, e, len(d.got))
			return
		}
		c.prefix(d, e.Data)
		if e.Err == 0 {
			d.got = append(d.got, e.Data[:e.N]...)
		} else if e.Err != syscall.EINTR {
			d.failed = true
			c.fail("a write to " + d.path + " failed")
		}
	case "close":
		if !wr {
			return
		}
		d.closes++
		d.open--
		if e.Err == 0 {
			d.closeOK = true
		} else {
			c.fail("closing " + d.path + " failed")
		}
	}
}

func (c *ioCall) fail(what string) {
	if c.failed == "" {
		c.failed = what
	}
}

// prefix checks that what is handed to a destination continues its source.
func (c *ioCall) prefix(d *ioDest, data []byte) {
	ref := c.r.refs[d.f.Idx]
	if ref == nil {
		if len(data) > 0 {
			c.r.Fail("C02", "%s: %s cannot be rendered, but was handed %s", c.label, c.destName(d), short(data))
		}
		return
	}
	n := len(d.got)
	if n+len(data) > len(ref) || !bytes.Equal(ref[n:n+len(data)], data) {
		end := n + len(data)
		if end > len(ref) {
			end = len(ref)
		}
		c.r.Fail("C02", "%s: after %d bytes %s was handed something that does not continue its source: %s", c.label, n, c.destName(d), differ(ref[n:end], data))
	}
}

// destOpened checks the order in which destinations are opened.
func (c *ioCall) destOpened(d *ioDest, name string) {
	r := c.r
	d.opens++
	d.open++
	d.closeOK = false
	if d.opens > 1 {
		r.Fail("C03", "%s: %s opened %s %d times", c.label, name, c.destName(d), d.opens)
	}
	for i, o := range c.dests {
		if o != d && o.open > 0 {
			r.Fail("C03", "%s: %s opened %s while %s was still open", c.label, name, c.destName(d), c.destName(o))
		}
		if o == d && i > 0 && c.dests[i-1].opens == 0 {
			r.Fail("C03", "%s: %s opened %s before %s", c.label, name, c.destName(d), c.destName(c.dests[i-1]))
		}
		if o == d {
			for _, later := range c.dests[i+1:] {
				if later.opens > 0 {
					r.Fail("C03", "%s: %s opened %s after %s", c.label, name, c.destName(d), c.destName(later))
				}
			}
		}
	}
	if c.failed != "" {
		r.Fail("C03", "%s: %s opened %s although %s", c.label, name, c.destName(d), c.failed)
	}
}

// chance draws whether a fault happens now.
func (c *ioCall) chance(on bool) bool {
	return on && c.cfg.rate > 0 && c.io.Chance(c.cfg.rate, 1000)
}

func (c *ioCall) note(format string, args ...interface{}) {
	c.r.k.Note(c.label + ": " + fmt.Sprintf(format, args...))
}

func (c *ioCall) slow() {
	rt.Point(20001)
	if c.cfg.slow && c.io.Chance(1, 4) {
		c.r.Faults["slow destination"]++
		rt.Sleep(int64(1+c.io.LogN(1<<20)) * 1000)
	}
}

// opener is the caller's function that opens destinations.
func (c *ioCall) opener(p string) (io.WriteCloser, error) {
	if !rt.Alive() {
		return nil, nil // what a dead process does has no effect
	}
	r := c.r
	c.slow()
	i := c.opened
	c.opened++
	if i >= len(c.dests) {
		r.Fail("C03", "%s: the opener is asked for %q after all %d destinations", c.label, p, len(c.dests))
		return nil, &simErr{"no such file was requested"}
	}
	d := c.dests[i]
	if want := r.spec.FilePath(d.f); p != want {
		r.Fail("C03", "%s: the opener is asked for %q instead of %q", c.label, p, want)
	}
	if c.failed != "" {
		r.Fail("C03", "%s: the opener is asked for %q although %s", c.label, p, c.failed)
	}
	for _, o := range c.dests {
		if o.open > 0 {
			r.Fail("C03", "%s: the opener is asked for %q while %s is still open", c.label, p, c.destName(o))
		}
	}
	d.asked++
	if c.chance(c.cfg.opanic) {
		r.Faults["opener panics"]++
		c.note("opener(%q) panics", p)
		c.panics = true
		c.fail("the opener panicked")
		c.blow("the opener panics")
	}
	if c.chance(c.cfg.open) {
		r.Faults["opener fails"]++
		e := c.err("opening %s fails", p)
		c.note("opener(%q) fails", p)
		c.failures = append(c.failures, e)
		c.fail("the opener failed")
		if c.io.Chance(1, 3) {
			// only the error counts
			return &noFile{d}, e
		}
		return nil, e
	}
	c.destOpened(d, apiNames[r.api])
	if r.Verbose {
		c.note("opener(%q)", p)
	}
	return c.file(d), nil
}

// blow ends what the call does: by a panic, or together with its goroutine.
func (c *ioCall) blow(what string) {
	if c.cfg.exit && c.task != nil && rt.Cur == c.task && c.io.Chance(1, 2) {
		c.r.Faults["caller's code ends the goroutine"]++
		c.note("what panics ends the goroutine")
		runtime.Goexit()
	}
	panic(simPanic{what})
}

// guarded makes the call, in a goroutine of its own if that may end.
func (c *ioCall) guarded(fn func() error) (err error, pan interface{}, ret bool) {
	c.task = nil
	if !c.cfg.exit {
		return guarded(fn)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { pan = recover() }()
		c.task = rt.Cur
		err = fn()
		ret = true
	}()
	<-done
	return
}

// The destinations are of different types.
const (
	plainDest   = iota
	richDest    // has more methods
	valuesDests // cannot be compared
)

func (c *ioCall) writer(d *ioDest) io.Writer {
	switch c.cfg.kind {
	case richDest:
		return &richFile{mockFile{mockWriter{d}}}
	case valuesDests:
		return listFile{{mockWriter{d}}}
	}
	return &mockWriter{d}
}

// standard is a destination of a type that everybody uses, or else one of the
// simulator's own. The error of the call passes through fill, and what the
// destination holds is known once after has been called.
func (c *ioCall) standard(d *ioDest) (w io.Writer, fill func(error) error, after func()) {
	fill = func(err error) error { return err }
	after = func() {}
	prior := ""
	if c.io.Chance(1, 2) {
		prior = []string{"x", "package old\n", "// Code generated. DO NOT EDIT.\n\n", "\x00\xff{", strings.Repeat("\n", 700)}[c.io.N(5)]
	}
	holds := func(all string) {
		if !strings.HasPrefix(all, prior) {
			c.r.Fail("C02", "%s: the buffer for %s no longer begins with what it had held: %s", c.label, c.destName(d), differ([]byte(prior), []byte(all)))
			return
		}
		c.prefix(d, []byte(all[len(prior):]))
		d.got = append(d.got, all[len(prior):]...)
	}
	switch c.io.Pick(9, 2, 1, 2) {
	case 1:
		b := &bytes.Buffer{}
		if c.io.Chance(1, 2) {
			b.Grow(c.io.LogN(1 << 16))
		}
		b.WriteString(prior)
		return b, fill, func() { holds(b.String()) }
	case 2:
		b := &strings.Builder{}
		b.WriteString(prior)
		return b, fill, func() { holds(b.String()) }
	case 3:
		b := bufio.NewWriterSize(c.writer(d), 16+c.io.LogN(1<<14))
		fill = func(err error) error {
			if err == nil || c.r.refs[d.f.Idx] == nil {
				if e := b.Flush(); err == nil {
					err = e
				}
			}
			return err
		}
		return b, fill, after
	}
	return c.writer(d), fill, after
}

func (c *ioCall) file(d *ioDest) io.WriteCloser {
	switch c.cfg.kind {
	case richDest:
		return &richFile{mockFile{mockWriter{d}}}
	case valuesDests:
		return listFile{{mockWriter{d}}}
	}
	return &mockFile{mockWriter{d}}
}

// noFile is what comes with an error.
type noFile struct{ d *ioDest }

func (f *noFile) Write(p []byte) (int, error) {
	c := f.d.c
	c.r.Fail("C02", "%s: %s was handed %s although it could not be opened", c.label, c.destName(f.d), short(p))
	return len(p), nil
}

func (f *noFile) Close() error { return nil }

// listFile is a destination that cannot be compared.
type listFile []mockFile

func (f listFile) Write(p []byte) (int, error) { return f[0].Write(p) }
func (f listFile) Close() error                { return f[0].Close() }

// richFile is a destination with more methods than needed.
type richFile struct{ mockFile }

func (f *richFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *richFile) ReadFrom(src io.Reader) (int64, error) {
	n := int64(0)
	buf := make([]byte, 1+f.d.c.io.N(5000))
	for {
		k, err := src.Read(buf)
		if k > 0 {
			m, werr := f.Write(buf[:k])
			n += int64(m)
			if werr == nil && m < k {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// mockWriter is a caller's writer.
type mockWriter struct{ d *ioDest }

func (w *mockWriter) Write(p []byte) (int, error) {
	if !rt.Alive() {
		return len(p), nil // what a dead process does has no effect
	}
	d := w.d
	c := d.c
	r := c.r
	data := append([]byte(nil), p...)
	c.slow()
	if d.open == 0 {
		r.Fail("C02", "%s: %s was handed %s after it had been closed", c.label, c.destName(d), short(data))
	}
	if d.failed {
		r.Fail("C02", "%s: %s was handed %s after a write to it had failed", c.label, c.destName(d), short(data))
	}
	c.prefix(d, data)
	if c.chance(c.cfg.wpanic) {
		r.Faults["writer panics"]++
		c.note("the writer of %s panics", c.destName(d))
		d.failed = true
		c.panics = true
		c.fail("the writer of " + c.destName(d) + " panicked")
		c.blow("the writer panics")
	}
	if c.chance(c.cfg.write) {
		n := 0
		if c.cfg.short && len(data) > 0 {
			n = c.io.N(len(data))
			if c.io.Chance(1, 5) {
				n = len(data) // and fails all the same
			}
			r.Faults["short write"]++
		} else {
			r.Faults["write fails"]++
		}
		e := c.err("writing %s fails", c.destName(d))
		c.note("the writer of %s fails after %d of %d bytes", c.destName(d), n, len(data))
		d.got = append(d.got, data[:n]...)
		d.failed = true
		c.failures = append(c.failures, e)
		c.fail("a write to " + c.destName(d) + " failed")
		return n, e
	}
	if len(data) > 0 && c.chance(c.cfg.silent) {
		n := c.io.N(len(data))
		switch c.io.N(6) {
		case 0:
			n = 0
		case 1:
			n = len(data) - 1
		}
		r.Faults["short write without an error"]++
		c.note("the writer of %s takes %d of %d bytes", c.destName(d), n, len(data))
		d.got = append(d.got, data[:n]...)
		c.anyError = true
		return n, nil
	}
	if r.Verbose {
		c.note("the writer of %s takes %d bytes", c.destName(d), len(data))
	}
	d.got = append(d.got, data...)
	return len(data), nil
}

// mockFile is what the caller's opener returns.
type mockFile struct{ mockWriter }

func (f *mockFile) Close() error {
	if !rt.Alive() {
		return nil // what a dead process does has no effect
	}
	d := f.d
	c := d.c
	r := c.r
	c.slow()
	d.closes++
	if d.open == 0 {
		r.Fail("C03", "%s: %s was closed twice", c.label, c.destName(d))
		return nil
	}
	d.open--
	if c.chance(c.cfg.clpn) {
		r.Faults["close panics"]++
		c.note("closing %s panics", c.destName(d))
		c.panics = true
		c.fail("closing " + c.destName(d) + " panicked")
		c.blow("close panics")
	}
	if c.chance(c.cfg.cl) {
		r.Faults["close fails"]++
		e := c.err("closing %s fails", c.destName(d))
		c.note("closing %s fails", c.destName(d))
		c.failures = append(c.failures, e)
		c.fail("closing " + c.destName(d) + " failed")
		return e
	}
	if r.Verbose {
		c.note("%s is closed", c.destName(d))
	}
	d.closeOK = true
	return nil
}
