package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"

	"github.com/jhump/gopoet"
	"verifsim/choice"
	"verifsim/gen"
	"verifsim/oracle"
	"verifsim/rt"
)

type quiet struct{}

func (quiet) Next(n int) int { return 0 }
func (quiet) Gap() int       { return 0 }

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	lo, _ := strconv.Atoi(os.Args[1])
	hi, _ := strconv.Atoi(os.Args[2])
	bad := 0
	files, invalid := 0, 0
	for seed := lo; seed < hi && bad < 5; seed++ {
		st := choice.New(uint64(seed)).Stream("gen")
		cfg := gen.Cfg{Files: 1 + st.N(4), Elems: 1 + st.N(5), Stmts: st.N(5), Depth: st.N(4), Pkgs: 1 + st.N(12),
			Templates: st.Chance(2, 3), Reflect: st.Chance(1, 2), GoTypes: st.Chance(1, 2), Callbacks: st.Chance(1, 2), Comments: st.Chance(1, 2),
			Hid: len(os.Args) < 4 && st.Chance(1, 2), Invalid: 20 * st.N(2), Big: st.Chance(1, 8), Shared: st.N(4)}
		if seed%200 == 0 {
			runtime.GC()
		}
		s := gen.New(st, cfg)
		sc := rt.NewSched(quiet{}, 1, 1e8)
		var outs []bytes.Buffer = make([]bytes.Buffer, len(s.Files))
		var errs []error = make([]error, len(s.Files))
		sc.Go("x", 0, func() {
			w := gen.Build(s, nil)
			for i, f := range w.Files {
				func() {
					defer func() {
						if r := recover(); r != nil {
							errs[i] = fmt.Errorf("panic: %v", r)
						}
					}()
					errs[i] = gopoet.WriteGoFile(&outs[i], f)
				}()
			}
		})
		sc.Run()
		for i, f := range s.Files {
			files++
			fail := func(format string, a ...interface{}) {
				bad++
				fmt.Printf("seed %d file %d: %s\n", seed, i, fmt.Sprintf(format, a...))
			}
			if f.Invalid != "" {
				invalid++
				if errs[i] == nil {
					fail("invalid (%s) but ok\n%s", f.Invalid, outs[i].String())
				}
				continue
			}
			if errs[i] != nil {
				if fe, ok := errs[i].(*gopoet.FormatError); ok {
					fail("%v\n%s", fe, fe.Unformatted)
				} else {
					fail("%v", errs[i])
				}
				continue
			}
			w, err := oracle.Expect(s, f)
			if err != nil {
				fail("%v", err)
				continue
			}
			if err := w.Complete(outs[i].Bytes()); err != nil {
				fail("%v\n%s", err, outs[i].String())
			} else if err := w.References(outs[i].Bytes(), nil); err != nil {
				fail("%v\n%s\nEXPECTED\n%s", err, outs[i].String(), w.X.Source)
			}
		}
	}
	fmt.Println("files", files, "invalid", invalid, "bad", bad)
}
