// Package nd supplies the nondeterministic values of the harnesses. The symbolic engine
// intercepts every function of this package; natively (replay) the values are read from
// the counterexample, in the order in which they were requested.
package nd

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
)

// V is one recorded value.
type V struct {
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

var (
	values   []V
	pos      int
	thorough bool
)

// Load sets the values for a replay.
func Load(vs []V, th bool) { values, pos, thorough, Reached = vs, 0, th, nil }

// Consumed is the number of values requested so far.
func Consumed() int { return pos }

// Reached collects the labels passed to Reach.
var Reached []string

// Diverged is the panic value used when a replay asks for other values than recorded.
type Diverged struct{ Msg string }

// Violation is the panic value of a failed assertion.
type Violation struct{ Label string }

// AssumptionFailed is the panic value of a failed assumption.
type AssumptionFailed struct{}

func next(kind string) uint64 {
	if pos >= len(values) {
		// values never constrained: zero
		pos++
		return 0
	}
	v := values[pos]
	if v.Kind != kind {
		panic(Diverged{fmt.Sprintf("value %d: have %s, want %s", pos, v.Kind, kind)})
	}
	pos++
	return v.Val
}

func Int64() int64     { return int64(next("Int64")) }
func Int() int         { return int(next("Int")) }
func Uint64() uint64   { return next("Uint64") }
func Uint() uint       { return uint(next("Uint")) }
func Int32() int32     { return int32(next("Int32")) }
func Uint32() uint32   { return uint32(next("Uint32")) }
func Int16() int16     { return int16(next("Int16")) }
func Uint16() uint16   { return uint16(next("Uint16")) }
func Int8() int8       { return int8(next("Int8")) }
func Uint8() uint8     { return uint8(next("Uint8")) }
func Byte() byte       { return byte(next("Byte")) }
func Bool() bool       { return next("Bool") != 0 }
func Float64() float64 { return math.Float64frombits(next("Float64")) }
func Float32() float32 { return math.Float32frombits(uint32(next("Float32"))) }

// Choice returns 0..n-1; the engine explores every value on a path of its own.
func Choice(n int) int { return int(next("Choice")) }

// StringN returns a string of n arbitrary bytes.
func StringN(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(AssumptionFailed{})
	}
}

// Failed collects the labels of failed assertions during a replay.
var (
	mu     sync.Mutex
	Failed []string
)

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		mu.Lock()
		Failed = append(Failed, label)
		mu.Unlock()
		panic(Violation{label})
	}
}

// Reach marks a location that must be reachable (vacuity guard).
func Reach(label string) { Reached = append(Reached, label) }

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// Concrete forks over the feasible values of i under the engine.
func Concrete(i int) int { return i }

// And and Or do not short circuit (no fork under the engine).
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Thorough reports the tier.
func Thorough() bool { return thorough }

// Attempt is the number of the native attempt to show a race; the two goroutines of ReadOnly start with another
// distance in each.
var Attempt int

var spin int64

// ReadOnly runs f, which must not write (unsynchronised) to memory that existed before.
// Natively f runs in two goroutines at once, for the race detector. What they return or panic with depends on the
// schedule and isn't looked at.
func ReadOnly(label string, f func()) {
	var wg sync.WaitGroup
	var started int32
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { _ = recover() }()
			for atomic.AddInt32(&started, 1); atomic.LoadInt32(&started) < 2; {
				runtime.Gosched()
			}
			if Attempt > 0 && i == Attempt&1 {
				for n := Attempt / 2 * Attempt * 20; n > 0; n-- {
					atomic.AddInt64(&spin, 1)
				}
			}
			f()
		}(i)
	}
	wg.Wait()
}
