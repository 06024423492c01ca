// Command verifmk builds the simulator together with an instrumented copy of
// the code under test and runs it.
package main

import (
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
)

const (
	verif = "/verif"
)

var repo = "/repo"

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "verifmk: "+format+"\n", args...)
	os.Exit(3)
}

func copyTree(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
}

// module writes a go.mod with the module path and language version of the
// original one, but without its requirements: they are lint tools only.
func module(repo, dir string) error {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	mod, lang := "", ""
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "module" {
			mod = f[1]
		}
		if len(f) >= 2 && f[0] == "go" {
			lang = f[1]
		}
	}
	if mod == "" {
		return fmt.Errorf("no module line in go.mod")
	}
	if lang == "" {
		lang = "1.13"
	}
	return os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n\ngo "+lang+"\n"), 0o644)
}

type variant struct {
	race, purego bool
}

func (v variant) name() string {
	n := "vsim"
	if v.race {
		n += "-race"
	}
	if v.purego {
		n += "-purego"
	}
	return n
}

// build leaves the binary of each variant in dir.
func build(dir string, variants []variant) error {
	err := buildWith(dir, variants, &instrumenter{})
	if err == nil {
		return nil
	}
	fmt.Fprintf(os.Stderr, "verifmk: %v; once more without renewing package-level state\n", err)
	for _, d := range []string{"gopoet", "sim"} {
		if err := os.RemoveAll(filepath.Join(dir, d)); err != nil {
			return err
		}
	}
	return buildWith(dir, variants, &instrumenter{plain: true})
}

func buildWith(dir string, variants []variant, in *instrumenter) error {
	gopoet, sim := filepath.Join(dir, "gopoet"), filepath.Join(dir, "sim")
	if err := in.tree(repo, gopoet); err != nil {
		return err
	}
	if err := module(repo, gopoet); err != nil {
		return err
	}
	if err := copyTree(filepath.Join(verif, "sim"), sim); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(sim, "rt", "sites_gen.go"), in.table(), 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.work"), []byte("go 1.27\n\nuse ./gopoet\nuse ./sim\n"), 0o644); err != nil {
		return err
	}
	overlay, err := writeOverlay(runtime.GOROOT(), dir)
	if err != nil {
		return err
	}
	for _, v := range variants {
		args := []string{"build", "-trimpath", "-overlay", overlay, "-o", filepath.Join(dir, v.name())}
		env := append(os.Environ(), "GOWORK="+filepath.Join(dir, "go.work"), "GOFLAGS=", "GOEXPERIMENT=norandomizedheapbase64")
		if v.purego {
			args = append(args, "-tags", "purego")
		}
		if v.race {
			args = append(args, "-race")
			env = append(env, "CGO_ENABLED=1")
		} else {
			env = append(env, "CGO_ENABLED=0")
		}
		args = append(args, "./cmd/sim")
		cmd := exec.Command("go", args...)
		cmd.Dir = sim
		cmd.Env = env
		cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
		if err := cmd.Run(); err != nil {
			return fmt.Errorf("building %s: %v", v.name(), err)
		}
	}
	return nil
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: verifmk setup | check PROP [args] | replay FILE | build DIR")
	}
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repo = r // development only: a scratch copy with a planted bug
	}
	if len(os.Args) == 3 && os.Args[1] == "build" {
		if err := build(os.Args[2], []variant{{}, {race: true}, {purego: true}}); err != nil {
			fatal("%v", err)
		}
		return
	}
	scratch := filepath.Join(verif, ".build", fmt.Sprint(os.Getpid()))
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		fatal("%v", err)
	}
	code := 3
	func() {
		defer os.RemoveAll(scratch)
		if exe, err := os.Executable(); err == nil {
			if d := filepath.Dir(exe); strings.HasPrefix(d, verif+"/.build/mk.") {
				defer os.RemoveAll(d)
			}
		}
		variants := []variant{{}}
		var args []string
		switch os.Args[1] {
		case "setup":
			variants = []variant{{}, {race: true}, {purego: true}}
		case "check", "replay", "selftest":
			args = append(args, os.Args[1:]...)
			// C08 needs the race detector, the properties about template
			// data are also decided for the build without package unsafe.
			if os.Args[1] != "check" || os.Args[2] == "C08" {
				variants = append(variants, variant{race: true})
			}
			if os.Args[1] != "check" || os.Args[2] == "C10" || os.Args[2] == "C11" {
				variants = append(variants, variant{purego: true})
			}
		default:
			fmt.Fprintln(os.Stderr, "verifmk: unknown command", os.Args[1])
			return
		}
		if err := build(scratch, variants); err != nil {
			fmt.Fprintln(os.Stderr, "verifmk:", err)
			return
		}
		if args == nil {
			code = 0
			return
		}
		cmd := exec.Command(filepath.Join(scratch, "vsim"), args...)
		cmd.Dir = verif
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		cmd.Env = append(os.Environ(), "VERIF_BIN="+scratch)
		sig := make(chan os.Signal, 1)
		signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, "verifmk:", err)
			return
		}
		go func() {
			<-sig
			cmd.Process.Signal(syscall.SIGTERM)
		}()
		err := cmd.Wait()
		if err == nil {
			code = 0
		} else if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() >= 0 {
			code = ee.ExitCode()
		} else {
			fmt.Fprintln(os.Stderr, "verifmk:", err)
		}
	}()
	os.Exit(code)
}
