package main

import (
	"sync"
	"time"

	"verifsim/choice"
)

func tapeSize(t choice.Tape) int {
	n := 0
	for _, s := range t {
		n += len(s)
	}
	return n
}

// weight orders tapes: shorter ones first, then those with smaller numbers.
func weight(t choice.Tape) (int, uint64) {
	n, s := 0, uint64(0)
	for _, l := range t {
		for _, v := range l {
			if v != 0 {
				n++
			}
			s += uint64(v)
		}
	}
	return tapeSize(t) + n, s
}

func lighter(a, b choice.Tape) bool {
	n1, s1 := weight(a)
	n2, s2 := weight(b)
	return n1 < n2 || n1 == n2 && s1 < s2
}

// minimise looks for a simpler tape that fails in the same way.
func minimise(got *RunReport, warm []int, fails func(choice.Tape, []int) *RunReport, deadline time.Time) (*RunReport, int) {
	rounds := 0
	// try evaluates candidates, several at a time, and takes the first one
	// that is simpler and still fails.
	try := func(cands []choice.Tape) bool {
		const width = 8
		for i := 0; i < len(cands); i += width {
			if time.Now().After(deadline) {
				return false
			}
			end := i + width
			if end > len(cands) {
				end = len(cands)
			}
			res := make([]*RunReport, end-i)
			var wg sync.WaitGroup
			for k := i; k < end; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					res[k-i] = fails(cands[k], warm)
				}(k)
			}
			wg.Wait()
			rounds += end - i
			var best *RunReport
			for _, r := range res {
				if r != nil && lighter(r.Tape, got.Tape) && (best == nil || lighter(r.Tape, best.Tape)) {
					best = r
				}
			}
			if best != nil {
				got = best
				return true
			}
		}
		return false
	}
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		// without whole streams
		for again := true; again && time.Now().Before(deadline); {
			var cands []choice.Tape
			for _, l := range got.Tape.Labels() {
				c := got.Tape.Clone()
				delete(c, l)
				cands = append(cands, c)
			}
			again = try(cands)
			progress = progress || again
		}
		// shorter streams
		for _, l := range got.Tape.Labels() {
			for again := true; again && time.Now().Before(deadline); {
				n := len(got.Tape[l])
				var cands []choice.Tape
				for d := n; d > 0; d /= 2 {
					c := got.Tape.Clone()
					c[l] = c[l][:n-d]
					cands = append(cands, c)
				}
				again = try(cands)
				progress = progress || again
			}
		}
		// zeroed and deleted blocks
		for _, l := range got.Tape.Labels() {
			for size := len(got.Tape[l]); size > 0 && time.Now().Before(deadline); size /= 2 {
				for again := true; again && time.Now().Before(deadline); {
					n := len(got.Tape[l])
					var cands []choice.Tape
					for at := 0; at < n; at += size {
						end := at + size
						if end > n {
							end = n
						}
						zero := false
						for _, v := range got.Tape[l][at:end] {
							zero = zero || v != 0
						}
						if zero {
							c := got.Tape.Clone()
							for k := at; k < end; k++ {
								c[l][k] = 0
							}
							cands = append(cands, c)
						}
						c := got.Tape.Clone()
						c[l] = append(c[l][:at:at], c[l][end:]...)
						cands = append(cands, c)
						if len(cands) > 400 {
							break
						}
					}
					again = try(cands)
					progress = progress || again
				}
			}
		}
		// smaller numbers
		for _, l := range got.Tape.Labels() {
			if len(got.Tape[l]) > 300 {
				continue
			}
			for again := true; again && time.Now().Before(deadline); {
				var cands []choice.Tape
				for k, v := range got.Tape[l] {
					for _, w := range []uint32{v / 2, v - 1} {
						if v > 1 {
							c := got.Tape.Clone()
							c[l][k] = w
							cands = append(cands, c)
						}
					}
				}
				again = try(cands)
				progress = progress || again
			}
		}
	}
	return got, rounds
}
