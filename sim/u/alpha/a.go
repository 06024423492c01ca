// Package alpha declares types for reflection.
package alpha

type T0 struct{ X int }
type T1 int
type I0 interface{ M0() }

// M0 is a method.
func (T0) M0() {}

// K and KS are map keys.
type K int
type KS struct{ N int }
