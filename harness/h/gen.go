// Package h holds the harnesses. A function Cxx_Name decides (part of) property Cxx in both
// tiers, CxxT_Name only in the thorough tier. The doc comment of each harness states its
// bounds; it ends up in the evidence.
package h

import (
	"reflect"
	"runtime"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// ascii returns n arbitrary bytes below 0x80.
func ascii(n int) string {
	b := make([]byte, n)
	for i := range b {
		c := nd.Byte()
		nd.Assume(c < 0x80)
		b[i] = c
	}
	return string(b)
}

// asciiUpTo returns an arbitrary ASCII string of at most n bytes.
func asciiUpTo(n int) string { return ascii(nd.Choice(n + 1)) }

// letters returns n arbitrary bytes in a..z.
func letters(n int) string {
	b := make([]byte, n)
	for i := range b {
		c := nd.Byte()
		nd.Assume(nd.And(c >= 'a', c <= 'z'))
		b[i] = c
	}
	return string(b)
}

func bytesN(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte()
	}
	return b
}

// number returns an arbitrary float64 except NaN.
func number() float64 {
	f := nd.Float64()
	nd.Assume(f == f)
	return f
}

// between returns an arbitrary int64 in lo..hi.
func between(lo, hi int64) int64 {
	i := nd.Int64()
	nd.Assume(nd.And(i >= lo, i <= hi))
	return i
}

const nScalar = 7

// scalarK returns an arbitrary scalar of kind k.
func scalarK(k int) dgo.Value {
	switch k {
	case 0:
		return vf.Integer(nd.Int64())
	case 1:
		return vf.String(asciiUpTo(2))
	case 2:
		return vf.Float(number())
	case 3:
		return vf.Boolean(nd.Bool())
	case 4:
		return vf.Nil
	case 5:
		return vf.Binary(bytesN(nd.Choice(3)), nd.Choice(2) == 0)
	default:
		return vf.Time(time.Unix(nd.Int64(), between(0, 999999999)))
	}
}

func scalar() dgo.Value { return scalarK(nd.Choice(nScalar)) }

// small returns an arbitrary integer, one letter string, boolean or nil.
func small() dgo.Value {
	switch nd.Choice(4) {
	case 0:
		return vf.Integer(nd.Int64())
	case 1:
		return vf.String(ascii(1))
	case 2:
		return vf.Boolean(nd.Bool())
	default:
		return vf.Nil
	}
}

// panics reports whether f panics with something that is not a runtime error of the harness.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case nd.Violation, nd.AssumptionFailed, nd.Diverged:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return
}

// refused is panics, and asserts that the panic isn't one of the Go runtime or of reflection.
func refused(label string, f func()) (p bool) {
	crashed := false
	defer func() {
		nd.Assert(!crashed, label)
	}()
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case nd.Violation, nd.AssumptionFailed, nd.Diverged:
				panic(r)
			case runtime.Error, *reflect.ValueError:
				crashed = true
			}
			p = true
		}
	}()
	f()
	return
}

// items returns the elements of an iterable.
func items(i dgo.Iterable) []dgo.Value {
	var r []dgo.Value
	i.Each(func(v dgo.Value) { r = append(r, v) })
	return r
}

// typeK returns an arbitrary type of kind k. The parameters are symbolic.
const nFlatType = 22

func typeK(k int) dgo.Type {
	switch k {
	case 0:
		return typ.Any
	case 1:
		return typ.Integer
	case 2:
		return intRange()
	case 3:
		return vf.Integer(nd.Int64()).Type()
	case 4:
		return typ.Float
	case 5:
		return floatRange()
	case 6:
		return vf.Float(number()).Type()
	case 7:
		return typ.String
	case 8:
		return tf.String(nd.Int64(), nd.Int64())
	case 9:
		return vf.String(ascii(nd.Choice(2))).Type()
	case 10:
		return tf.CiString(ascii(1))
	case 11:
		return typ.Boolean
	case 12:
		if nd.Choice(2) == 0 {
			return typ.True
		}
		return typ.False
	case 13:
		return typ.Nil
	case 14:
		return typ.Binary
	case 15:
		return tf.Binary(nd.Int(), nd.Int())
	case 16:
		return vf.Binary(bytesN(1), true).Type()
	case 17:
		return typ.Time
	case 18:
		return vf.Time(time.Unix(nd.Int64(), 0)).Type()
	case 19:
		return typ.Regexp
	case 20:
		return typ.Error
	default:
		return typ.DgoString
	}
}

// intRange returns an arbitrary integer range type.
func intRange() dgo.Type {
	lo, hi := nd.Int64(), nd.Int64()
	if nd.Choice(2) == 0 {
		return tf.Integer(lo, hi, true)
	}
	nd.Assume(lo != hi)
	return tf.Integer(lo, hi, false)
}

// floatRange returns an arbitrary float range type.
func floatRange() dgo.Type {
	lo, hi := number(), number()
	if nd.Choice(2) == 0 {
		return tf.Float(lo, hi, true)
	}
	nd.Assume(lo != hi)
	return tf.Float(lo, hi, false)
}

// mapKey returns one of a few integers chosen so that both equal and different keys collide
// in the hash table or not.
func mapKey() int64 {
	k := nd.Int64()
	switch k {
	case 0:
		return 0
	case 1:
		return 1
	case 16:
		return 16
	}
	nd.Assume(k == 1<<36)
	return 1 << 36
}
