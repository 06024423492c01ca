package scen

import (
	"errors"
	"fmt"
	"io"

	"github.com/jhump/gopoet"
	"verifsim/choice"
	"verifsim/gen"
	"verifsim/rt"
)

// outcome of an attempt to render a file.
type outcome struct {
	ok   bool   // reported success
	data string // what the destination was handed
	err  string // the error that was reported, or the panic
	unf  string // the source in a format error
}

func (o outcome) String() string {
	if o.ok {
		return "success, " + short([]byte(o.data))
	}
	return o.err
}

// sink is a destination in memory.
type sink struct {
	data  []byte
	pause func()
	mode  int // sinkOK...
}

const (
	sinkOK = iota
	sinkFails
	sinkTorn // fails after a part
	sinkShort
	sinkPanics
	sinkModes
)

var sinkNames = []string{"", "write error", "torn write", "short write", "writer panic"}

var errSink = errors.New("the destination fails")

func (s *sink) Write(b []byte) (int, error) {
	if s.pause != nil {
		s.pause()
	}
	switch s.mode {
	case sinkFails:
		return 0, errSink
	case sinkTorn:
		s.data = append(s.data, b[:len(b)/2]...)
		return len(b) / 2, errSink
	case sinkShort:
		s.data = append(s.data, b[:len(b)/3]...)
		return len(b) / 3, io.ErrShortWrite
	case sinkPanics:
		panic("the destination panics")
	}
	s.data = append(s.data, b...)
	if s.pause != nil {
		s.pause()
	}
	return len(b), nil
}

func (s *sink) Close() error {
	if s.pause != nil {
		s.pause()
	}
	return nil
}

// render makes one attempt.
func render(f *gopoet.GoFile, s *sink) outcome {
	err, pan, ret := guarded(func() error { return gopoet.WriteGoFile(s, f) })
	return describe(s, err, pan, ret)
}

func describe(s *sink, err error, pan interface{}, ret bool) outcome {
	o := outcome{ok: ret && err == nil}
	if s != nil {
		o.data = string(s.data)
	}
	switch {
	case !ret:
		o.err = fmt.Sprintf("panic: %v", pan)
	case err != nil:
		o.err = fmt.Sprintf("error: %v", err)
		var fe *gopoet.FormatError
		if errors.As(err, &fe) {
			o.unf = string(fe.Unformatted)
		}
	}
	return o
}

// alone renders each file on its own, in a freshly built copy of the program.
// It returns nil if a valid file cannot be rendered: that is for C01 and C10
// to decide.
func (r *Run) alone(s *gen.Spec) []outcome {
	outs := make([]outcome, len(s.Files))
	for i, f := range s.Files {
		done := false
		r.inQuiet(func() {
			outs[i] = render(gen.Build(s, nil).Files[i], &sink{})
			done = true
		})
		if !done || outs[i].ok != (f.Invalid == "") {
			return nil
		}
	}
	return outs
}

// pause is what code of the caller does during rendering: it lets other
// tasks run, or takes its time.
func pause(st *choice.Stream) {
	switch st.N(4) {
	case 1:
		rt.Point(20000)
	case 2:
		rt.Sleep(int64(1 + st.N(5)))
	case 3:
		rt.Sleep(int64(1+st.N(50)) * 1e6)
	}
}

// runTasks runs the functions concurrently. It tells which of them did not
// end and why, and what the code under test panicked with, if it did so where
// that should not matter.
func (r *Run) runTasks(name string, fns ...func()) (out rt.Outcome, stuck, crash string) {
	ended := make([]bool, len(fns))
	var tasks []*rt.Task
	out = r.phase(name, func(s *rt.Sched) {
		for i, fn := range fns {
			tasks = append(tasks, s.Go(fmt.Sprintf("%s %d", name, i), i, func() {
				fn()
				ended[i] = true
			}))
		}
	})
	for i, t := range tasks {
		if c := crashed(t); c != "" {
			crash = c
			continue
		}
		if !ended[i] {
			stuck = t.Name
		}
	}
	if stuck != "" {
		why := "blocked: " + fmt.Sprint(out.Blocked)
		if out.Limit {
			why = "does not end"
		}
		stuck += " " + why
	}
	return
}

// crashed is what the code under test panicked with in a task, outside the
// calls that may panic. A panic of the harness is passed on.
func crashed(t *rt.Task) string {
	if t.Panic == nil {
		return ""
	}
	if !t.Guilty {
		panic(fmt.Sprintf("%s panicked in the harness: %v", t.Name, t.Panic))
	}
	return fmt.Sprintf("panic: %v", t.Panic)
}

// program draws a program whose files share elements.
func (r *Run) program(g *choice.Stream, invalid bool) *gen.Spec {
	cfg := r.cfg(g)
	cfg.Files = 2 + g.N(4)
	if invalid {
		cfg.Invalid = 25
	}
	return gen.New(g, cfg)
}

func shuffled(st *choice.Stream, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - st.N(i+1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}
