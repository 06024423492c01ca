// Package kern is the kernel of the simulated machine as far as the code
// under test can see it: a file system in memory, file descriptors, process
// ids. The real os package of Go runs on top of it; every system call that a
// simulated task makes ends up here.
//
// Data that has been written but not synced is lost by a power failure at
// the granularity of single operations: each file and each directory keeps a
// prefix of the operations on it, the last write possibly torn.
package kern

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"verifsim/choice"
	"verifsim/rt"
)

const (
	fdBase = 1 << 20
	atCwd  = -100
)

// Inode is a file, a directory or a symbolic link.
type Inode struct {
	id      int
	dir     bool
	link    string // where a symbolic link leads
	perm    uint32
	data    []byte
	entries map[string]*Inode
	parent  *Inode

	// what survives a power failure: the base plus a prefix of the log
	baseData    []byte
	baseEntries map[string]*Inode
	log         []logOp
}

type logOp struct {
	name string // of a directory entry
	to   *Inode // nil: removed
	off  int    // of a write; -1: truncation to size n
	data []byte
	n    int
}

type openFile struct {
	ino    *Inode
	path   string
	off    int
	flags  int
	listed bool
	failed bool
}

type process struct {
	fds  map[int]*openFile
	next int
	dead bool
}

// Event is something a process did to the file system.
type Event struct {
	Proc     int
	Op       string // open, write, close, truncate, mkdir, create, unlink, rmdir, rename, chmod, sync
	Path     string
	Path2    string
	FD       int
	Flags    int
	Off      int
	Data     []byte
	N        int
	Err      syscall.Errno
	Injected bool
}

func (e Event) String() string {
	s := fmt.Sprintf("P%d %s %s", e.Proc, e.Op, e.Path)
	switch e.Op {
	case "open":
		s += fmt.Sprintf(" flags=%#x", e.Flags)
	case "write":
		s += fmt.Sprintf(" off=%d len=%d n=%d", e.Off, len(e.Data), e.N)
	case "rename", "link":
		s += " " + e.Path2
	case "truncate":
		s += fmt.Sprintf(" size=%d", e.N)
	}
	if e.Err != 0 {
		s += " = " + errName(e.Err)
	}
	if e.Injected {
		s += " (injected)"
	}
	return s
}

// Cfg says which faults happen how often (out of 1000 system calls).
type Cfg struct {
	Rate      int
	Open      bool
	Mkdir     bool
	Stat      bool
	Write     bool
	Close     bool
	Short     bool
	Intr      bool
	Latency   int // out of 1000
	Capacity  int // bytes of file data; 0: unlimited
	CrashAt   int // system call at which the process that makes it dies; 0: never
	PowerAt   int // system call at which the power fails
	ReadFault bool
}

// Kernel is the simulated kernel.
type Kernel struct {
	root  *Inode
	Cwd   string
	nIno  int
	used  int
	cfg   Cfg
	st    *choice.Stream
	procs map[int]*process
	calls int

	// Mon sees every event.
	Mon func(e Event)
	// OnCrash is called when a process dies at a system call.
	OnCrash func(node int)
	// OnPower is called when the power fails; the controller has to call
	// PowerLoss once no task runs any more.
	OnPower func()
	Power   bool
	// Imagine, if set, says what a file holds that is looked for but was
	// never written.
	Imagine func(p string) ([]byte, bool)

	Faults  map[string]int // injected, by kind
	Trace   []string
	Verbose bool
	Unknown map[uintptr]int
	Pid     int
	Uid     int
	Umask   uint32
	Real    bool // symbolic links exist
}

// New makes a kernel with an empty file system.
func New(st *choice.Stream) *Kernel {
	k := &Kernel{Cwd: "/work", st: st, procs: map[int]*process{}, Faults: map[string]int{}, Unknown: map[uintptr]int{}, Pid: 4242, Uid: 1000, Umask: 0o22}
	k.root = k.inode(true)
	k.root.parent = k.root
	k.Provide("/work/", nil)
	return k
}

// Install makes it the kernel of all tasks.
func (k *Kernel) Install() { syscall.SimHandler = k.call }

// Configure sets the faults of the next phase.
func (k *Kernel) Configure(c Cfg) {
	k.cfg = c
	k.calls = 0
	k.Power = false
}

// Calls is the number of system calls since Configure.
func (k *Kernel) Calls() int { return k.calls }

func (k *Kernel) inode(dir bool) *Inode {
	k.nIno++
	i := &Inode{id: k.nIno, dir: dir, perm: 0o644}
	if dir {
		i.perm = 0o755
		i.entries = map[string]*Inode{}
		i.baseEntries = map[string]*Inode{}
	}
	return i
}

// Provide creates a file, or a directory if the path ends in a slash, as
// durable content that was there before.
func (k *Kernel) Provide(p string, data []byte) {
	isDir := strings.HasSuffix(p, "/")
	parts := split(k.RealPath(p))
	d := k.root
	for i, name := range parts {
		n := d.entries[name]
		if n == nil {
			n = k.inode(i < len(parts)-1 || isDir)
			n.parent = d
			d.entries[name] = n
			d.baseEntries[name] = n
		}
		d = n
	}
	if !isDir && !d.dir {
		k.used += len(data) - len(d.data)
		d.data = append([]byte(nil), data...)
		d.baseData = append([]byte(nil), data...)
		d.log = nil
	}
}

// Used is the number of bytes stored.
func (k *Kernel) Used() int { return k.used }

// Read returns the content of a file.
// It has to be readable for the user.
func (k *Kernel) Read(p string) ([]byte, bool) {
	_, _, n, e := k.resolve(&process{}, atCwd, p, true)
	if e != 0 || n == nil || n.dir || n.perm&mayRead == 0 {
		return nil, false
	}
	return n.data, true
}

// List returns all paths with what they hold; directories end in a slash.
func (k *Kernel) List() map[string]string {
	m := map[string]string{}
	var walk func(p string, d *Inode)
	walk = func(p string, d *Inode) {
		for name, n := range d.entries {
			if n.dir {
				m[p+name+"/"] = ""
				walk(p+name+"/", n)
			} else if n.link != "" {
				m[p+name] = "symbolic link to " + n.link
			} else {
				m[p+name] = string(n.data)
			}
		}
	}
	walk("/", k.root)
	return m
}

// OpenFDs returns the descriptors that a process has open.
func (k *Kernel) OpenFDs(node int) []string {
	p := k.procs[node]
	if p == nil {
		return nil
	}
	var l []string
	for fd, of := range p.fds {
		l = append(l, fmt.Sprintf("%d:%s", fd-fdBase, of.path))
	}
	sort.Strings(l)
	return l
}

// Exit ends a process.
func (k *Kernel) Exit(node int) {
	if p := k.procs[node]; p != nil {
		p.dead = true
		p.fds = map[int]*openFile{}
	}
}

// PowerLoss reverts the file system to a state that a power failure now may
// leave behind.
func (k *Kernel) PowerLoss() {
	for n := range k.procs {
		k.Exit(n)
	}
	// in a fixed order
	var all []*Inode
	seen := map[*Inode]bool{}
	var collect func(n *Inode)
	collect = func(n *Inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		all = append(all, n)
		for _, m := range []map[string]*Inode{n.entries, n.baseEntries} {
			var names []string
			for name := range m {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				collect(m[name])
			}
		}
		for _, op := range n.log {
			if op.to != nil {
				collect(op.to)
			}
		}
	}
	collect(k.root)
	for _, n := range all {
		// 0: everything had reached the disk
		lost := 0
		if len(n.log) > 0 {
			lost = k.st.N(len(n.log) + 1)
			k.Faults["power loss: lost operations"] += lost
		}
		keep := n.log[:len(n.log)-lost]
		if n.dir {
			e := map[string]*Inode{}
			for name, c := range n.baseEntries {
				e[name] = c
			}
			for _, op := range keep {
				if op.to == nil {
					delete(e, op.name)
				} else {
					e[op.name] = op.to
				}
			}
			n.entries = e
			n.baseEntries = map[string]*Inode{}
			for name, c := range e {
				n.baseEntries[name] = c
			}
		} else {
			d := append([]byte(nil), n.baseData...)
			for i, op := range keep {
				data := op.data
				zero := 0
				if i == len(keep)-1 && len(data) > 0 && lost > 0 {
					switch k.st.N(3) {
					case 1: // torn
						data = data[:k.st.N(len(data))]
						k.Faults["power loss: torn write"]++
					case 2: // allocated, but never written
						zero = len(data) - k.st.N(len(data))
						k.Faults["power loss: zeroed tail"]++
					}
				}
				d = apply(d, logOp{off: op.off, data: data, n: op.n})
				for j := len(d) - zero; zero > 0 && j < len(d); j++ {
					d[j] = 0
				}
			}
			n.data = d
			n.baseData = append([]byte(nil), d...)
		}
		n.log = nil
	}
	k.used = 0
	var fix func(n *Inode)
	fix = func(n *Inode) {
		k.used += len(n.data)
		for _, c := range n.entries {
			c.parent = n
			fix(c)
		}
	}
	fix(k.root)
	k.Power = false
}

func apply(d []byte, op logOp) []byte {
	if op.off < 0 {
		for len(d) < op.n {
			d = append(d, 0)
		}
		return d[:op.n]
	}
	for len(d) < op.off+len(op.data) {
		d = append(d, 0)
	}
	copy(d[op.off:], op.data)
	return d
}

func split(p string) []string {
	var l []string
	for _, s := range strings.Split(p, "/") {
		if s != "" && s != "." {
			l = append(l, s)
		}
	}
	return l
}

// Abs returns the absolute form of a path, cleaned.
func (k *Kernel) Abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = k.Cwd + "/" + p
	}
	return path.Clean(p)
}

// The processes run as the user to whom everything belongs.
const (
	mayRead  = 0o400
	mayWrite = 0o200
	mayPass  = 0o100
)

func may(pr *process, n *Inode, what uint32) bool {
	return pr == nil || n.perm&what == what
}

// resolve finds the parent directory, the last name and the inode, if any.
// Without a process nothing is forbidden.
func (k *Kernel) resolve(pr *process, dirfd int, p string, follow bool) (*Inode, string, *Inode, syscall.Errno) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	cur := k.root
	if !strings.HasPrefix(p, "/") {
		if dirfd == atCwd {
			_, _, n, e := k.resolve(nil, atCwd, k.Cwd, true)
			if e != 0 || n == nil {
				return nil, "", nil, syscall.ENOENT
			}
			cur = n
		} else {
			of := pr.fds[dirfd]
			if of == nil {
				return nil, "", nil, syscall.EBADF
			}
			cur = of.ino
		}
	}
	return k.walk(pr, cur, p, follow, 0)
}

func (k *Kernel) walk(pr *process, cur *Inode, p string, follow bool, depth int) (*Inode, string, *Inode, syscall.Errno) {
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	if strings.HasPrefix(p, "/") {
		cur = k.root
	}
	if !cur.dir {
		return nil, "", nil, syscall.ENOTDIR
	}
	parts := split(p)
	if len(parts) == 0 {
		return cur.parent, ".", cur, 0
	}
	for i, name := range parts {
		if len(name) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if !cur.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if !may(pr, cur, mayPass) {
			return nil, "", nil, syscall.EACCES
		}
		var n *Inode
		if name == ".." {
			n = cur.parent
		} else {
			n = cur.entries[name]
		}
		last := i == len(parts)-1
		if n != nil && n.link != "" && (!last || follow || strings.HasSuffix(p, "/")) {
			d, nm, to, e := k.walk(pr, cur, n.link, true, depth+1)
			if e != 0 {
				return nil, "", nil, e
			}
			if last {
				if to != nil && !to.dir && strings.HasSuffix(p, "/") {
					return nil, "", nil, syscall.ENOTDIR
				}
				return d, nm, to, 0
			}
			n = to
		}
		if last {
			if n != nil && !n.dir && strings.HasSuffix(p, "/") {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, name, n, 0
		}
		if n == nil {
			return nil, "", nil, syscall.ENOENT
		}
		cur = n
	}
	panic("unreachable")
}

// RealPath is the absolute path without symbolic links; of what does not
// exist, as far as it does.
func (k *Kernel) RealPath(p string) string {
	p = k.Abs(p)
	if !k.Real {
		return p
	}
	for depth := 0; depth < 40; depth++ {
		cur, at, again := k.root, "", false
		parts := split(p)
		for i, name := range parts {
			n := cur.entries[name]
			if n != nil && n.link != "" {
				to := n.link
				if !strings.HasPrefix(to, "/") {
					to = at + "/" + to
				}
				p = path.Clean("/" + to + "/" + strings.Join(parts[i+1:], "/"))
				again = true
				break
			}
			if n == nil || !n.dir {
				break
			}
			at += "/" + name
			cur = n
		}
		if !again {
			break
		}
	}
	return p
}

// where is the absolute path of what a call names.
func (k *Kernel) where(pr *process, dirfd int, p string) string {
	if !strings.HasPrefix(p, "/") && dirfd != atCwd {
		if of := pr.fds[dirfd]; of != nil {
			return k.RealPath(of.path + "/" + p)
		}
	}
	return k.RealPath(p)
}

// entry is the path of the directory entry that a call names.
func (k *Kernel) entry(pr *process, dirfd int, p string) string {
	p = strings.TrimRight(p, "/")
	dir, name := path.Split(p)
	if name == "" || name == "." || name == ".." {
		return k.where(pr, dirfd, p)
	}
	if dir == "" {
		dir = "."
	}
	return path.Clean(k.where(pr, dirfd, dir) + "/" + name)
}

func (k *Kernel) setEntry(d *Inode, name string, n *Inode) {
	if n == nil {
		delete(d.entries, name)
	} else {
		d.entries[name] = n
		n.parent = d
	}
	d.log = append(d.log, logOp{name: name, to: n})
}

func (k *Kernel) emit(e Event) {
	if e.Injected {
		k.Faults[faultName(e)]++
	}
	if k.Verbose || e.Injected {
		k.Note(e.String())
	}
	if k.Mon != nil {
		k.Mon(e)
	}
}

// Note adds a line to the trace.
func (k *Kernel) Note(s string) {
	if len(k.Trace) < 2000 {
		k.Trace = append(k.Trace, s)
	}
}

func faultName(e Event) string {
	if e.Err == 0 {
		return "short " + e.Op
	}
	return e.Op + " " + errName(e.Err)
}

func errName(e syscall.Errno) string {
	for n, s := range map[syscall.Errno]string{syscall.EIO: "EIO", syscall.EACCES: "EACCES", syscall.EMFILE: "EMFILE", syscall.ENFILE: "ENFILE",
		syscall.ENOSPC: "ENOSPC", syscall.EDQUOT: "EDQUOT", syscall.EROFS: "EROFS", syscall.EINTR: "EINTR", syscall.ENOENT: "ENOENT",
		syscall.EEXIST: "EEXIST", syscall.ENOTDIR: "ENOTDIR", syscall.EISDIR: "EISDIR", syscall.EPERM: "EPERM", syscall.EBADF: "EBADF"} {
		if n == e {
			return s
		}
	}
	return fmt.Sprintf("errno %d", int(e))
}

var (
	openErrs  = []syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.ENOSPC, syscall.EROFS, syscall.EIO, syscall.EPERM, syscall.ENOMEM}
	mkdirErrs = []syscall.Errno{syscall.EACCES, syscall.ENOSPC, syscall.EDQUOT, syscall.EROFS, syscall.EIO, syscall.ENOMEM}
	writeErrs = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
	closeErrs = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
	statErrs  = []syscall.Errno{syscall.EACCES, syscall.EIO, syscall.ENOMEM}
)

// fault decides whether a call fails.
func (k *Kernel) fault(on bool, errs []syscall.Errno) syscall.Errno {
	if k.cfg.Rate == 0 || !on {
		return 0
	}
	if !k.st.Chance(k.cfg.Rate, 1000) {
		return 0
	}
	i := k.st.N(len(errs))
	return errs[i]
}

func (k *Kernel) intr() bool {
	return k.cfg.Intr && k.cfg.Rate > 0 && k.st.Chance(k.cfg.Rate, 1000)
}

func cstr(p uintptr) string {
	var b []byte
	for {
		c := *(*byte)(unsafe.Pointer(p))
		if c == 0 {
			return string(b)
		}
		b = append(b, c)
		p++
	}
}

func buf(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

// call is the entry point for system calls.
//
//go:nocheckptr
func (k *Kernel) call(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, uintptr) {
	t := rt.Cur
	if t == nil || t.Dying {
		return 0, 0, uintptr(syscall.EBADF)
	}
	switch trap {
	case syscall.SYS_GETPID:
		return uintptr(k.Pid), 0, 0
	case syscall.SYS_GETPPID:
		return uintptr(k.Pid*7%99991 + 1), 0, 0
	case syscall.SYS_GETUID, syscall.SYS_GETEUID, syscall.SYS_GETGID, syscall.SYS_GETEGID:
		return uintptr(k.Uid), 0, 0
	}
	// Other tasks may run before the call takes effect.
	rt.Point(int32(10000 + trap))
	if k.cfg.Latency > 0 && k.st.Chance(k.cfg.Latency, 1000) {
		k.Faults["slow system call"]++
		rt.Sleep(int64(1+k.st.LogN(1<<20)) * 1000)
	}
	k.calls++
	if k.calls == k.cfg.PowerAt {
		k.Faults["power loss"]++
		k.Note(fmt.Sprintf("power fails at system call %d (P%d)", k.calls, t.Node))
		k.Power = true
		k.OnPower()
		rt.Kill()
	}
	if k.calls == k.cfg.CrashAt {
		k.Faults["process crash"]++
		k.Note(fmt.Sprintf("P%d dies at system call %d", t.Node, k.calls))
		k.Exit(t.Node)
		k.OnCrash(t.Node)
		rt.Kill()
	}
	pr := k.procs[t.Node]
	if pr == nil {
		pr = &process{fds: map[int]*openFile{}, next: fdBase}
		k.procs[t.Node] = pr
	}
	c := &sysCall{k: k, pr: pr, node: t.Node, trap: trap, a: [6]uintptr{a1, a2, a3, a4, a5, a6}}
	r, e := c.do()
	return r, 0, uintptr(e)
}

type sysCall struct {
	k    *Kernel
	pr   *process
	node int
	trap uintptr
	a    [6]uintptr
}

func (c *sysCall) do() (uintptr, syscall.Errno) {
	a := c.a
	dfd := func(i int) int { return int(int32(a[i])) }
	if c.k.Imagine != nil {
		switch c.trap {
		case syscall.SYS_OPENAT:
			if a[2]&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_DIRECTORY) == 0 {
				c.imagine(dfd(0), cstr(a[1]), false)
			}
		case syscall.SYS_NEWFSTATAT, syscall.SYS_FACCESSAT, 439:
			c.imagine(dfd(0), cstr(a[1]), false)
		case syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_ACCESS:
			c.imagine(atCwd, cstr(a[0]), false)
		case syscall.SYS_READLINKAT:
			c.imagine(dfd(0), cstr(a[1]), true)
		case syscall.SYS_READLINK:
			c.imagine(atCwd, cstr(a[0]), true)
		}
	}
	switch c.trap {
	case syscall.SYS_OPENAT:
		return c.open(dfd(0), cstr(a[1]), int(a[2]), uint32(a[3]))
	case syscall.SYS_OPEN:
		return c.open(atCwd, cstr(a[0]), int(a[1]), uint32(a[2]))
	case syscall.SYS_CREAT:
		return c.open(atCwd, cstr(a[0]), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a[1]))
	case syscall.SYS_WRITE:
		return c.write(int(a[0]), buf(a[1], a[2]), -1)
	case syscall.SYS_PWRITE64:
		return c.write(int(a[0]), buf(a[1], a[2]), int(a[3]))
	case syscall.SYS_WRITEV:
		total := uintptr(0)
		for i := uintptr(0); i < a[2]; i++ {
			v := (*syscall.Iovec)(unsafe.Pointer(a[1] + i*unsafe.Sizeof(syscall.Iovec{})))
			b := buf(uintptr(unsafe.Pointer(v.Base)), uintptr(v.Len))
			n, e := c.write(int(a[0]), b, -1)
			total += n
			if e != 0 {
				if total > 0 {
					return total, 0
				}
				return 0, e
			}
			if int(n) < len(b) {
				break
			}
		}
		return total, 0
	case syscall.SYS_READ:
		return c.read(int(a[0]), buf(a[1], a[2]), -1)
	case syscall.SYS_PREAD64:
		return c.read(int(a[0]), buf(a[1], a[2]), int(a[3]))
	case syscall.SYS_LSEEK:
		of := c.pr.fds[int(a[0])]
		if of == nil {
			return 0, syscall.EBADF
		}
		off := int(a[1])
		switch a[2] {
		case 1:
			off += of.off
		case 2:
			off += len(of.ino.data)
		}
		if off < 0 {
			return 0, syscall.EINVAL
		}
		of.off = off
		return uintptr(off), 0
	case syscall.SYS_CLOSE:
		return c.close(int(a[0]))
	case syscall.SYS_MKDIRAT:
		return c.mkdir(dfd(0), cstr(a[1]), uint32(a[2]))
	case syscall.SYS_MKDIR:
		return c.mkdir(atCwd, cstr(a[0]), uint32(a[1]))
	case syscall.SYS_NEWFSTATAT:
		return c.stat(dfd(0), cstr(a[1]), a[2], int(a[3]))
	case syscall.SYS_STAT:
		return c.stat(atCwd, cstr(a[0]), a[1], 0)
	case syscall.SYS_LSTAT:
		return c.stat(atCwd, cstr(a[0]), a[1], 0x100)
	case syscall.SYS_FSTAT:
		of := c.pr.fds[int(a[0])]
		if of == nil {
			return 0, syscall.EBADF
		}
		c.fill(a[1], of.ino)
		return 0, 0
	case syscall.SYS_FACCESSAT, 439:
		return c.access(dfd(0), cstr(a[1]), uint32(a[2]))
	case syscall.SYS_ACCESS:
		return c.access(atCwd, cstr(a[0]), uint32(a[1]))
	case syscall.SYS_UNLINKAT:
		return c.unlink(dfd(0), cstr(a[1]), a[2]&0x200 != 0)
	case syscall.SYS_UNLINK:
		return c.unlink(atCwd, cstr(a[0]), false)
	case syscall.SYS_RMDIR:
		return c.unlink(atCwd, cstr(a[0]), true)
	case syscall.SYS_RENAMEAT, 316:
		return c.rename(dfd(0), cstr(a[1]), dfd(2), cstr(a[3]))
	case syscall.SYS_RENAME:
		return c.rename(atCwd, cstr(a[0]), atCwd, cstr(a[1]))
	case syscall.SYS_LINKAT:
		return c.link(dfd(0), cstr(a[1]), dfd(2), cstr(a[3]))
	case syscall.SYS_LINK:
		return c.link(atCwd, cstr(a[0]), atCwd, cstr(a[1]))
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		return c.sync(int(a[0]))
	case syscall.SYS_SYNC:
		return 0, 0
	case syscall.SYS_FTRUNCATE:
		of := c.pr.fds[int(a[0])]
		if of == nil {
			return 0, syscall.EBADF
		}
		return c.truncate(of.ino, of.path, int(a[1]))
	case syscall.SYS_TRUNCATE:
		p := cstr(a[0])
		_, _, n, e := c.k.resolve(c.pr, atCwd, p, true)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && n.dir {
			e = syscall.EISDIR
		}
		if e == 0 && !may(c.pr, n, mayWrite) {
			e = syscall.EACCES
		}
		if e != 0 {
			return 0, e
		}
		return c.truncate(n, c.k.where(c.pr, atCwd, p), int(a[1]))
	case syscall.SYS_FCHMOD, syscall.SYS_FCHOWN:
		of := c.pr.fds[int(a[0])]
		if of == nil {
			return 0, syscall.EBADF
		}
		if c.trap == syscall.SYS_FCHMOD {
			of.ino.perm = uint32(a[1]) & 0o777
		}
		c.k.emit(Event{Proc: c.node, Op: "chmod", Path: of.path})
		return 0, 0
	case syscall.SYS_FCHMODAT, 452, syscall.SYS_FCHOWNAT, syscall.SYS_UTIMENSAT:
		p := cstr(a[1])
		_, _, n, e := c.k.resolve(c.pr, dfd(0), p, true)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 {
			if c.trap == syscall.SYS_FCHMODAT || c.trap == 452 {
				n.perm = uint32(a[2]) & 0o777
			}
			c.k.emit(Event{Proc: c.node, Op: "chmod", Path: c.k.where(c.pr, dfd(0), p)})
		}
		return 0, e
	case syscall.SYS_CHMOD:
		p := cstr(a[0])
		_, _, n, e := c.k.resolve(c.pr, atCwd, p, true)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 {
			n.perm = uint32(a[1]) & 0o777
			c.k.emit(Event{Proc: c.node, Op: "chmod", Path: c.k.where(c.pr, atCwd, p)})
		}
		return 0, e
	case syscall.SYS_READLINKAT:
		return c.readlink(dfd(0), cstr(a[1]), buf(a[2], a[3]))
	case syscall.SYS_READLINK:
		return c.readlink(atCwd, cstr(a[0]), buf(a[1], a[2]))
	case syscall.SYS_GETDENTS64:
		return c.getdents(int(a[0]), buf(a[1], a[2]))
	case syscall.SYS_GETCWD:
		b := buf(a[0], a[1])
		if len(b) < len(c.k.Cwd)+1 {
			return 0, syscall.ERANGE
		}
		copy(b, c.k.Cwd+"\x00")
		return uintptr(len(c.k.Cwd) + 1), 0
	case syscall.SYS_CHDIR:
		p := cstr(a[0])
		_, _, n, e := c.k.resolve(c.pr, atCwd, p, true)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && !n.dir {
			e = syscall.ENOTDIR
		}
		if e == 0 {
			c.k.emit(Event{Proc: c.node, Op: "chdir", Path: c.k.Abs(p)})
			c.k.Cwd = c.k.Abs(p)
		}
		return 0, e
	case syscall.SYS_UMASK:
		old := c.k.Umask
		c.k.Umask = uint32(a[0]) & 0o777
		return uintptr(old), 0
	case syscall.SYS_FLOCK, syscall.SYS_FADVISE64, syscall.SYS_FALLOCATE:
		if c.pr.fds[int(a[0])] == nil {
			return 0, syscall.EBADF
		}
		return 0, 0
	case syscall.SYS_FCNTL:
		if c.pr.fds[int(a[0])] == nil {
			return 0, syscall.EBADF
		}
		return 0, 0
	}
	c.k.Unknown[c.trap]++
	return 0, syscall.ENOSYS
}

// imagine makes a file that is looked for exist, if Imagine says so.
func (c *sysCall) imagine(dirfd int, p string, link bool) {
	if p == "" || dirfd != atCwd && !strings.HasPrefix(p, "/") {
		return
	}
	abs := c.k.Abs(p)
	if c.k.Exists(abs) {
		return
	}
	data, ok := c.k.Imagine(abs)
	if !ok || !c.k.Providable(abs) {
		return
	}
	if link {
		c.k.Symlink(abs, "/"+string(data))
	} else {
		c.k.Provide(abs, data)
	}
}

func (c *sysCall) access(dirfd int, p string, mode uint32) (uintptr, syscall.Errno) {
	_, _, n, e := c.k.resolve(c.pr, dirfd, p, true)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && !may(c.pr, n, mode&7<<6) {
		e = syscall.EACCES
	}
	return 0, e
}

func (c *sysCall) readlink(dirfd int, p string, b []byte) (uintptr, syscall.Errno) {
	_, _, n, e := c.k.resolve(c.pr, dirfd, p, false)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && n.link == "" {
		e = syscall.EINVAL
	}
	if e != 0 {
		return 0, e
	}
	return uintptr(copy(b, n.link)), 0
}

func (c *sysCall) open(dirfd int, p string, flags int, perm uint32) (uintptr, syscall.Errno) {
	k := c.k
	ev := Event{Proc: c.node, Op: "open", Path: k.where(c.pr, dirfd, p), Flags: flags}
	fail := func(e syscall.Errno, injected bool) (uintptr, syscall.Errno) {
		ev.Err, ev.Injected = e, injected
		k.emit(ev)
		return 0, e
	}
	if k.intr() {
		return fail(syscall.EINTR, true)
	}
	writing := flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if e := k.fault(k.cfg.Open && (writing || k.cfg.ReadFault), openErrs); e != 0 {
		return fail(e, true)
	}
	follow := flags&syscall.O_NOFOLLOW == 0 && flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL
	d, name, n, e := k.resolve(c.pr, dirfd, p, follow)
	if e != 0 {
		return fail(e, false)
	}
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return fail(syscall.ENOENT, false)
		}
		if strings.HasSuffix(p, "/") {
			return fail(syscall.EISDIR, false)
		}
		if !may(c.pr, d, mayWrite|mayPass) {
			return fail(syscall.EACCES, false)
		}
		n = k.inode(false)
		n.perm = perm & 0o777 &^ k.Umask
		k.setEntry(d, name, n)
		k.emit(Event{Proc: c.node, Op: "create", Path: ev.Path})
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return fail(syscall.EEXIST, false)
		}
		if n.dir && (writing || flags&syscall.O_CREAT != 0) {
			return fail(syscall.EISDIR, false)
		}
		if !n.dir && flags&syscall.O_DIRECTORY != 0 {
			return fail(syscall.ENOTDIR, false)
		}
		if n.link != "" {
			return fail(syscall.ELOOP, false)
		}
		if writing && !may(c.pr, n, mayWrite) || flags&syscall.O_WRONLY == 0 && !may(c.pr, n, mayRead) {
			return fail(syscall.EACCES, false)
		}
	}
	if writing && flags&syscall.O_TRUNC != 0 && len(n.data) > 0 {
		c.truncate(n, ev.Path, 0)
	}
	fd := c.pr.next
	c.pr.next++
	c.pr.fds[fd] = &openFile{ino: n, path: ev.Path, flags: flags}
	ev.FD = fd
	k.emit(ev)
	return uintptr(fd), 0
}

func (c *sysCall) truncate(n *Inode, p string, size int) (uintptr, syscall.Errno) {
	k := c.k
	k.used += size - len(n.data)
	op := logOp{off: -1, n: size}
	n.data = apply(n.data, op)
	n.log = append(n.log, op)
	k.emit(Event{Proc: c.node, Op: "truncate", Path: p, N: size})
	return 0, 0
}

func (c *sysCall) write(fd int, b []byte, at int) (uintptr, syscall.Errno) {
	k := c.k
	of := c.pr.fds[fd]
	if fd == 1 || fd == 2 {
		return uintptr(len(b)), 0
	}
	if of == nil || of.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, syscall.EBADF
	}
	off := at
	if at < 0 {
		off = of.off
		if of.flags&syscall.O_APPEND != 0 {
			off = len(of.ino.data)
		}
	}
	ev := Event{Proc: c.node, Op: "write", Path: of.path, FD: fd, Off: off, Data: append([]byte(nil), b...)}
	fail := func(e syscall.Errno, injected bool) (uintptr, syscall.Errno) {
		ev.Err, ev.Injected = e, injected
		k.emit(ev)
		return 0, e
	}
	if k.intr() {
		return fail(syscall.EINTR, true)
	}
	if e := k.fault(k.cfg.Write, writeErrs); e != 0 {
		// the device may have taken part of the data all the same
		if n := k.st.LogN(len(b) + 1); n > 0 && n <= len(b) {
			c.store(of.ino, off, b[:n])
			k.Faults["partial data behind a failed write"]++
		}
		return fail(e, true)
	}
	n := len(b)
	if k.cfg.Capacity > 0 {
		grow := off + n - len(of.ino.data)
		if room := k.cfg.Capacity - k.used; grow > room {
			n -= grow - room
			if room <= 0 || n <= 0 {
				return fail(syscall.ENOSPC, true)
			}
			ev.Injected = true
		}
	}
	if k.cfg.Short && n > 1 && k.cfg.Rate > 0 && k.st.Chance(2*k.cfg.Rate, 1000) {
		n = 1 + k.st.N(n-1)
		ev.Injected = true
	}
	c.store(of.ino, off, b[:n])
	if at < 0 {
		of.off = off + n
	}
	ev.N = n
	k.emit(ev)
	return uintptr(n), 0
}

func (c *sysCall) store(n *Inode, off int, b []byte) {
	old := len(n.data)
	op := logOp{off: off, data: append([]byte(nil), b...)}
	n.data = apply(n.data, op)
	n.log = append(n.log, op)
	c.k.used += len(n.data) - old
}

func (c *sysCall) read(fd int, b []byte, at int) (uintptr, syscall.Errno) {
	of := c.pr.fds[fd]
	if of == nil || of.flags&syscall.O_WRONLY != 0 {
		return 0, syscall.EBADF
	}
	if of.ino.dir {
		return 0, syscall.EISDIR
	}
	off := at
	if at < 0 {
		off = of.off
	}
	if off >= len(of.ino.data) {
		return 0, 0
	}
	n := copy(b, of.ino.data[off:])
	if at < 0 {
		of.off = off + n
	}
	return uintptr(n), 0
}

func (c *sysCall) close(fd int) (uintptr, syscall.Errno) {
	k := c.k
	of := c.pr.fds[fd]
	if of == nil {
		k.emit(Event{Proc: c.node, Op: "close", FD: fd, Err: syscall.EBADF})
		return 0, syscall.EBADF
	}
	delete(c.pr.fds, fd)
	ev := Event{Proc: c.node, Op: "close", Path: of.path, FD: fd, Flags: of.flags}
	if of.flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		if e := k.fault(k.cfg.Close, closeErrs); e != 0 {
			// The file system had not stored everything yet, and cannot.
			if n := k.st.LogN(len(of.ino.data) + 1); n > 0 && n <= len(of.ino.data) {
				size := len(of.ino.data) - n
				op := logOp{off: -1, n: size}
				k.used -= n
				of.ino.data = apply(of.ino.data, op)
				of.ino.log = append(of.ino.log, op)
				k.Faults["data lost behind a failed close"]++
			}
			ev.Err, ev.Injected = e, true
		}
	}
	k.emit(ev)
	return 0, ev.Err
}

func (c *sysCall) mkdir(dirfd int, p string, perm uint32) (uintptr, syscall.Errno) {
	k := c.k
	ev := Event{Proc: c.node, Op: "mkdir", Path: k.where(c.pr, dirfd, p)}
	fail := func(e syscall.Errno, injected bool) (uintptr, syscall.Errno) {
		ev.Err, ev.Injected = e, injected
		k.emit(ev)
		return 0, e
	}
	if k.intr() {
		return fail(syscall.EINTR, true)
	}
	if e := k.fault(k.cfg.Mkdir, mkdirErrs); e != 0 {
		return fail(e, true)
	}
	d, name, n, e := k.resolve(c.pr, dirfd, p, false)
	if e != 0 {
		return fail(e, false)
	}
	if n != nil {
		return fail(syscall.EEXIST, false)
	}
	if !may(c.pr, d, mayWrite|mayPass) {
		return fail(syscall.EACCES, false)
	}
	n = k.inode(true)
	n.perm = perm & 0o777 &^ k.Umask
	k.setEntry(d, name, n)
	k.emit(ev)
	return 0, 0
}

func (c *sysCall) stat(dirfd int, p string, out uintptr, flags int) (uintptr, syscall.Errno) {
	k := c.k
	if p == "" && flags&0x1000 != 0 {
		of := c.pr.fds[dirfd]
		if of == nil {
			return 0, syscall.EBADF
		}
		c.fill(out, of.ino)
		return 0, 0
	}
	if k.intr() {
		k.emit(Event{Proc: c.node, Op: "stat", Path: k.where(c.pr, dirfd, p), Err: syscall.EINTR, Injected: true})
		return 0, syscall.EINTR
	}
	if e := k.fault(k.cfg.Stat, statErrs); e != 0 {
		k.emit(Event{Proc: c.node, Op: "stat", Path: k.where(c.pr, dirfd, p), Err: e, Injected: true})
		return 0, e
	}
	_, _, n, e := k.resolve(c.pr, dirfd, p, flags&0x100 == 0)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return 0, e
	}
	c.fill(out, n)
	return 0, 0
}

func (c *sysCall) fill(out uintptr, n *Inode) {
	st := (*syscall.Stat_t)(unsafe.Pointer(out))
	*st = syscall.Stat_t{Ino: uint64(n.id), Dev: 1, Nlink: 1, Blksize: 4096, Size: int64(len(n.data))}
	st.Uid, st.Gid = uint32(c.k.Uid), uint32(c.k.Uid)
	switch {
	case n.dir:
		st.Mode = syscall.S_IFDIR | n.perm
	case n.link != "":
		st.Mode = syscall.S_IFLNK | 0o777
		st.Size = int64(len(n.link))
	default:
		st.Mode = syscall.S_IFREG | n.perm
	}
}

func (c *sysCall) unlink(dirfd int, p string, dir bool) (uintptr, syscall.Errno) {
	k := c.k
	real := k.entry(c.pr, dirfd, p)
	d, name, n, e := k.resolve(c.pr, dirfd, p, false)
	switch {
	case e != 0:
	case n == nil:
		e = syscall.ENOENT
	case !may(c.pr, d, mayWrite|mayPass):
		e = syscall.EACCES
	case dir && !n.dir:
		e = syscall.ENOTDIR
	case !dir && n.dir:
		e = syscall.EISDIR
	case dir && len(n.entries) > 0:
		e = syscall.ENOTEMPTY
	}
	if e != 0 {
		return 0, e
	}
	k.setEntry(d, name, nil)
	if !n.dir {
		k.used -= len(n.data)
	}
	op := "unlink"
	if dir {
		op = "rmdir"
	}
	k.emit(Event{Proc: c.node, Op: op, Path: real})
	return 0, 0
}

func (c *sysCall) rename(fd1 int, p1 string, fd2 int, p2 string) (uintptr, syscall.Errno) {
	k := c.k
	d1, n1, i1, e := k.resolve(c.pr, fd1, p1, false)
	if e == 0 && i1 == nil {
		e = syscall.ENOENT
	}
	if e == 0 && !may(c.pr, d1, mayWrite|mayPass) {
		e = syscall.EACCES
	}
	if e != 0 {
		return 0, e
	}
	d2, n2, i2, e := k.resolve(c.pr, fd2, p2, false)
	if e == 0 && !may(c.pr, d2, mayWrite|mayPass) {
		e = syscall.EACCES
	}
	if e != 0 {
		return 0, e
	}
	if i2 != nil {
		if i2.dir != i1.dir {
			return 0, syscall.EISDIR
		}
		if i2.dir && len(i2.entries) > 0 {
			return 0, syscall.ENOTEMPTY
		}
		k.used -= len(i2.data)
	}
	k.setEntry(d2, n2, i1)
	k.setEntry(d1, n1, nil)
	if d1 == d2 && n1 == n2 {
		k.setEntry(d2, n2, i1)
	}
	i1.parent = d2
	k.emit(Event{Proc: c.node, Op: "rename", Path: k.entry(c.pr, fd1, p1), Path2: k.entry(c.pr, fd2, p2)})
	return 0, 0
}

func (c *sysCall) link(fd1 int, p1 string, fd2 int, p2 string) (uintptr, syscall.Errno) {
	k := c.k
	_, _, i1, e := k.resolve(c.pr, fd1, p1, false)
	if e == 0 && i1 == nil {
		e = syscall.ENOENT
	}
	if e == 0 && i1.dir {
		e = syscall.EPERM
	}
	if e != 0 {
		return 0, e
	}
	d2, n2, i2, e := k.resolve(c.pr, fd2, p2, false)
	if e == 0 && !may(c.pr, d2, mayWrite|mayPass) {
		e = syscall.EACCES
	}
	if e == 0 && i2 != nil {
		e = syscall.EEXIST
	}
	if e != 0 {
		return 0, e
	}
	k.setEntry(d2, n2, i1)
	k.emit(Event{Proc: c.node, Op: "link", Path: k.entry(c.pr, fd1, p1), Path2: k.entry(c.pr, fd2, p2)})
	return 0, 0
}

func (c *sysCall) sync(fd int) (uintptr, syscall.Errno) {
	k := c.k
	of := c.pr.fds[fd]
	if of == nil {
		return 0, syscall.EBADF
	}
	ev := Event{Proc: c.node, Op: "sync", Path: of.path, FD: fd}
	if e := k.fault(k.cfg.Write, writeErrs); e != 0 {
		ev.Err, ev.Injected = e, true
		k.emit(ev)
		return 0, e
	}
	n := of.ino
	n.baseData = append([]byte(nil), n.data...)
	if n.dir {
		n.baseEntries = map[string]*Inode{}
		for name, c := range n.entries {
			n.baseEntries[name] = c
		}
	}
	n.log = nil
	k.emit(ev)
	return 0, 0
}

func (c *sysCall) getdents(fd int, b []byte) (uintptr, syscall.Errno) {
	of := c.pr.fds[fd]
	if of == nil {
		return 0, syscall.EBADF
	}
	if !of.ino.dir {
		return 0, syscall.ENOTDIR
	}
	var names []string
	for n := range of.ino.entries {
		names = append(names, n)
	}
	sort.Strings(names)
	n := 0
	for of.off < len(names) {
		name := names[of.off]
		l := (19 + len(name) + 1 + 7) &^ 7
		if n+l > len(b) {
			if n == 0 {
				return 0, syscall.EINVAL
			}
			break
		}
		ino := of.ino.entries[name]
		r := b[n : n+l]
		for i := range r {
			r[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&r[0])) = uint64(ino.id)
		*(*uint64)(unsafe.Pointer(&r[8])) = uint64(of.off + 1)
		*(*uint16)(unsafe.Pointer(&r[16])) = uint16(l)
		r[18] = syscall.DT_REG
		if ino.dir {
			r[18] = syscall.DT_DIR
		} else if ino.link != "" {
			r[18] = syscall.DT_LNK
		}
		copy(r[19:], name)
		n += l
		of.off++
	}
	return uintptr(n), 0
}

// Exists tells whether there is anything at a path.
func (k *Kernel) Exists(p string) bool {
	_, _, n, e := k.resolve(nil, atCwd, p, false)
	return e == 0 && n != nil
}

// Providable tells whether something can be put at a path.
func (k *Kernel) Providable(p string) bool {
	d := k.root
	for _, name := range split(k.RealPath(p)) {
		if !d.dir {
			return false
		}
		n := d.entries[name]
		if n == nil {
			return true
		}
		d = n
	}
	return false
}

// Remove takes away what is at a path, durably.
func (k *Kernel) Remove(p string) {
	d, name, n, e := k.resolve(nil, atCwd, p, false)
	if e != 0 || n == nil {
		return
	}
	if !n.dir {
		k.used -= len(n.data)
	}
	delete(d.entries, name)
	delete(d.baseEntries, name)
	var log []logOp
	for _, op := range d.log {
		if op.name != name {
			log = append(log, op)
		}
	}
	d.log = log
}

// Chmod sets the permissions of what is at a path and returns the former.
func (k *Kernel) Chmod(p string, perm uint32) (uint32, bool) {
	_, _, n, e := k.resolve(nil, atCwd, p, true)
	if e != 0 || n == nil {
		return 0, false
	}
	old := n.perm
	n.perm = perm
	return old, true
}

// Perms lists the permissions of everything.
func (k *Kernel) Perms() map[string]uint32 {
	m := map[string]uint32{}
	var walk func(p string, d *Inode)
	walk = func(p string, d *Inode) {
		for name, n := range d.entries {
			if n.dir {
				m[p+name+"/"] = n.perm
				walk(p+name+"/", n)
			} else if n.link == "" {
				m[p+name] = n.perm
			}
		}
	}
	walk("/", k.root)
	return m
}

// Symlink puts a symbolic link where nothing is yet, durably.
func (k *Kernel) Symlink(p, to string) bool {
	p = path.Clean(p)
	k.Provide(path.Dir(p)+"/", nil)
	d, name, n, e := k.resolve(nil, atCwd, p, false)
	if e != 0 || n != nil || !d.dir {
		return false
	}
	n = k.inode(false)
	n.link = to
	n.parent = d
	d.entries[name] = n
	d.baseEntries[name] = n
	k.Real = true
	return true
}
