// Package betapkg has a name that differs from the last element of its path.
package betapkg

type T0 struct{ Z bool }
type T1 map[string]int
type I0 interface{ M0() }
