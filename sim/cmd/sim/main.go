// Command vsim runs simulated executions of gopoet and decides properties.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check PROP | replay FILE | selftest")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(3)
	}
}
