// Package alpha has the same name as another package.
package alpha

type T0 struct{ Y string }
type T1 []byte
type I0 interface{ M0() }

// K and KS are map keys.
type K int
type KS struct{ N int }
