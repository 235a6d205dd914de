//go:build verif_sym

// Package zzvt is the harness API. Under the symbolic executor every function
// is an intrinsic; the bodies below are never executed.
package zzvt

// Int draws an integer in [lo, hi].
func Int(name string, lo, hi int) int { panic("sym") }

// Int64 draws an integer in [lo, hi].
func Int64(name string, lo, hi int64) int64 { panic("sym") }

// Bool draws a boolean.
func Bool(name string) bool { panic("sym") }

// Byte draws a byte of the alphabet (any byte when empty).
func Byte(name, alphabet string) byte { panic("sym") }

// String draws a string of length minLen..maxLen over the alphabet.
func String(name string, minLen, maxLen int, alphabet string) string { panic("sym") }

// Choose draws 0..n-1, one path per value.
func Choose(name string, n int) int { panic("sym") }

// Pick draws one of xs, one path per value.
func Pick(name string, xs ...string) string { panic("sym") }

// Param is a bound set by the check configuration.
func Param(name string, def int) int { panic("sym") }

// Assume restricts the inputs.
func Assume(ok bool) { panic("sym") }

// Assert states the property.
func Assert(label string, ok bool, msg string) { panic("sym") }

// Fail reports a violation.
func Fail(label, msg string) { panic("sym") }

// Reach records that a situation was reached (vacuity witness).
func Reach(label string) {}

// Expect declares the situations that have to be reached by some path.
func Expect(labels ...string) {}

// Known tags everything after it as the known finding tag.
func Known(tag string) {}

// Go starts a goroutine.
func Go(f func()) { panic("sym") }

// Yield is a preemption point.
func Yield() {}

// WaitUntil blocks until f holds; f must only read.
func WaitUntil(f func() bool) { panic("sym") }

// Atomic runs f without preemption.
func Atomic(f func()) { panic("sym") }

// HTTPDate formats seconds since the epoch as an HTTP date.
func HTTPDate(unix int64) string { panic("sym") }

// Dec formats n in base 10.
func Dec(n int64) string { panic("sym") }

// Now is the virtual clock in nanoseconds since the epoch.
func Now() int64 { panic("sym") }

// SetNow moves the virtual clock.
func SetNow(ns int64) { panic("sym") }

// And, Or, Not, Implies and Iff build conditions without branching.
func And(xs ...bool) bool             { panic("sym") }
func Or(xs ...bool) bool              { panic("sym") }
func Not(x bool) bool                 { panic("sym") }
func Implies(x, y bool) bool          { panic("sym") }
func Iff(x, y bool) bool              { panic("sym") }
func EqStr(x, y string) bool          { panic("sym") }
func IteInt(c bool, a, b int64) int64 { panic("sym") }

// Force branches on x.
func Force(x bool) bool { panic("sym") }

// Concrete splits over the values of n.
func Concrete(n int64) int64 { panic("sym") }

// Log adds a line to the counterexample.
func Log(format string, args ...interface{}) {}

// Symbolic reports whether the harness runs in the executor.
func Symbolic() bool { panic("sym") }

// Blocked counts the other goroutines that are blocked.
func Blocked() int { panic("sym") }

// Live counts the other goroutines that have not ended.
func Live() int { panic("sym") }

// Quiesce waits until no other goroutine can run.
func Quiesce() { panic("sym") }
