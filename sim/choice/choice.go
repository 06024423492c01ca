// Package choice provides every random decision of a run as labelled streams
// of small numbers. They are drawn from a seed and recorded; a recorded tape
// replays the run. In every stream 0 is the simplest choice (stop, leave out,
// no fault, do not preempt), which is also what a tape yields past its end,
// so that a run is made simpler by shortening or zeroing a tape.
package choice

import "sort"

// Tape is a recording of all decisions of a run.
type Tape map[string][]uint32

// Clone copies the tape.
func (t Tape) Clone() Tape {
	c := Tape{}
	for k, v := range t {
		c[k] = append([]uint32(nil), v...)
	}
	return c
}

// Labels returns the labels in order.
func (t Tape) Labels() []string {
	var ls []string
	for k := range t {
		ls = append(ls, k)
	}
	sort.Strings(ls)
	return ls
}

// Source makes streams.
type Source struct {
	seed    uint64
	replay  Tape // nil: draw
	streams map[string]*Stream
}

// New draws from seed.
func New(seed uint64) *Source { return &Source{seed: seed, streams: map[string]*Stream{}} }

// Replay takes all decisions from the tape.
func Replay(seed uint64, t Tape) *Source {
	return &Source{seed: seed, replay: t, streams: map[string]*Stream{}}
}

// Stream is a sequence of decisions. It must not be used by two tasks.
type Stream struct {
	state  uint64
	replay bool
	in     []uint32
	pos    int
	rec    []uint32
}

// Stream returns the stream with the given label.
func (s *Source) Stream(label string) *Stream {
	if st, ok := s.streams[label]; ok {
		return st
	}
	st := &Stream{state: mix(s.seed ^ hash(label))}
	if s.replay != nil {
		st.replay = true
		st.in = s.replay[label]
	}
	s.streams[label] = st
	return st
}

// Tape returns what was decided so far.
func (s *Source) Tape() Tape {
	t := Tape{}
	for k, st := range s.streams {
		rec := st.rec
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1] // same as the end of the tape
		}
		if len(rec) > 0 {
			t[k] = append([]uint32(nil), rec...)
		}
	}
	return t
}

func (st *Stream) raw() uint64 {
	st.state += 0x9e3779b97f4a7c15
	return mix(st.state)
}

// N returns a number in [0,n).
func (st *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if st.replay {
		if st.pos < len(st.in) {
			v = int(st.in[st.pos])
			if v >= n {
				v = n - 1
			}
		}
		st.pos++
	} else {
		v = int(st.raw() % uint64(n))
	}
	st.rec = append(st.rec, uint32(v))
	return v
}

// Chance is true in num of den cases.
func (st *Stream) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	// the true outcomes are the large numbers: 0 means no
	return st.N(den) >= den-num
}

// Geo returns 0, 1, 2, ... with geometrically decreasing probability, at
// most max.
func (st *Stream) Geo(num, den, max int) int {
	if max <= 0 {
		return 0
	}
	if st.replay {
		return st.N(max + 1)
	}
	n := 0
	for n < max && st.raw()%uint64(den) < uint64(num) {
		n++
	}
	st.rec = append(st.rec, uint32(n))
	return n
}

// LogN returns a number in [0,n), small ones being more likely.
func (st *Stream) LogN(n int) int {
	if st.replay {
		return st.N(n)
	}
	if n <= 1 {
		return 0
	}
	bits := 0
	for 1<<uint(bits) < n {
		bits++
	}
	b := uint(st.raw() % uint64(bits+1))
	v := int(st.raw() % (1 << b))
	if v >= n {
		v = n - 1
	}
	st.rec = append(st.rec, uint32(v))
	return v
}

// Pick chooses by weight; index 0 is the simplest.
func (st *Stream) Pick(weights ...int) int {
	if st.replay {
		v := st.N(len(weights))
		if weights[v] == 0 {
			for i, w := range weights {
				if w > 0 {
					return i
				}
			}
		}
		return v
	}
	sum := 0
	for _, w := range weights {
		sum += w
	}
	if sum == 0 {
		return 0
	}
	x := int(st.raw() % uint64(sum))
	v := 0
	for i, w := range weights {
		if x < w {
			v = i
			break
		}
		x -= w
	}
	st.rec = append(st.rec, uint32(v))
	return v
}

// Mix64 derives a number from others.
func Mix64(x ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range x {
		h = mix(h ^ v)
	}
	return h
}

// Hash hashes a string.
func Hash(s string) uint64 { return hash(s) }

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h)
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
