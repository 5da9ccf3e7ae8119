package h

import (
	"math"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// Bounds: every int64 min and max in either order, inclusive or not; every int64.
func C12_IntegerRange() {
	a, b := nd.Int64(), nd.Int64()
	incl := nd.Choice(2) == 0
	var t dgo.IntegerType
	p := panics(func() { t = tf.Integer(a, b, incl) })
	nd.Reach("range")
	nd.Assert(p == nd.And(!incl, a == b), "a range is refused exactly when it is empty")
	if p {
		return
	}
	lo, hi := swap(a, b)
	x := nd.Int64()
	in := nd.And(lo <= x, nd.Or(x < hi, nd.And(incl, x == hi)))
	nd.Assert(t.Min() == lo && t.Max() == hi, "Min and Max are the bounds in order")
	nd.Assert(t.Inclusive() == incl, "Inclusive tells if Max is included")
	nd.Assert(t.IsInstance(x) == in, "IsInstance follows the bounds")
	nd.Assert(t.Instance(vf.Integer(x)) == in, "Instance follows the bounds")
	nd.Assert(t.Assignable(vf.Integer(x).Type()) == in, "assignable from the exact types within the bounds")
	nd.Assert(!t.Instance(vf.Float(float64(x))) && !t.Instance(vf.Nil) && !t.Instance(vf.String("1")), "only integers are instances")
}

// Bounds: every pair of integer ranges (int64 bounds in any order, inclusive or not).
func C12_IntegerRangeAssignable() {
	a, b := tIntRange(), tIntRange()
	nd.Reach("ranges")
	top := func(t *ty) int64 {
		if t.incl {
			return t.hi
		}
		return t.hi - 1
	}
	// an exact type is not comparable to a range that excludes its end but has one element only
	nd.Assume(nd.Or(a.lo != a.hi, nd.Or(b.lo == b.hi, b.incl)))
	nd.Assert(a.t.Assignable(b.t) == nd.And(a.lo <= b.lo, top(b) <= top(a)), "a range is assignable exactly from the ranges within it")
	nd.Assert(typ.Integer.Assignable(b.t) && !typ.Float.Assignable(b.t), "integer is assignable from every range")
	nd.Assert(!b.t.Assignable(typ.Integer) || nd.And(b.incl, nd.And(b.lo == math.MinInt64, b.hi == math.MaxInt64)), "a range is not assignable from integer")
	same := nd.And(a.lo == b.lo, nd.And(a.hi == b.hi, a.incl == b.incl))
	nd.Assert(a.t.Equals(b.t) == same, "ranges are equal exactly when the bounds are")
	nd.Assert(!same || a.t.HashCode() == b.t.HashCode(), "equal ranges have equal hash codes")
}

// Bounds: every float64 min and max but NaN, in either order, inclusive or not; every float64 but NaN.
func C12_FloatRange() {
	a, b := number(), number()
	incl := nd.Choice(2) == 0
	var t dgo.FloatType
	p := panics(func() { t = tf.Float(a, b, incl) })
	nd.Reach("range")
	nd.Assert(p == nd.And(!incl, a == b), "a range is refused exactly when it is empty")
	if p {
		return
	}
	lo, hi := a, b
	if b < a {
		lo, hi = b, a
	}
	if incl && lo == -math.MaxFloat64 && hi == math.MaxFloat64 {
		return // the unconstrained type
	}
	x := number()
	in := nd.And(lo <= x, nd.Or(x < hi, nd.And(incl, x == hi)))
	nd.Assert(t.Min() == lo && t.Max() == hi, "Min and Max are the bounds in order")
	nd.Assert(t.Inclusive() == incl, "Inclusive tells if Max is included")
	nd.Assert(t.IsInstance(x) == in, "IsInstance follows the bounds")
	nd.Assert(t.Instance(vf.Float(x)) == in, "Instance follows the bounds")
	nd.Assert(t.Assignable(vf.Float(x).Type()) == in, "assignable from the exact types within the bounds")
	nd.Assert(!t.Instance(vf.Integer(1)) && !t.Instance(vf.Nil) && !t.Instance(vf.String("1")), "only floats are instances")
}

// Bounds: every pair of float ranges (any bounds but NaN in any order, inclusive or not) and
// every float64 but NaN.
func C12_FloatRangeAssignable() {
	a, b := tFloatRange(), tFloatRange()
	nd.Assume(a.k == "floatrange" && b.k == "floatrange")
	nd.Reach("ranges")
	ok := nd.And(a.flo <= b.flo, nd.Or(b.fhi < a.fhi, nd.And(b.fhi == a.fhi, nd.Or(a.incl, !b.incl))))
	nd.Assert(a.t.Assignable(b.t) == ok, "a range is assignable exactly from the ranges within it")
	nd.Assert(typ.Float.Assignable(b.t) && !typ.Integer.Assignable(b.t), "float is assignable from every range")
	same := nd.And(a.flo == b.flo, nd.And(a.fhi == b.fhi, a.incl == b.incl))
	nd.Assert(a.t.Equals(b.t) == same, "ranges are equal exactly when the bounds are")
}

// native is an arbitrary Go value and the dgo value for it.
func native() (interface{}, dgo.Value) {
	switch nd.Choice(16) {
	case 0:
		x := int8(nd.Int64())
		return x, vf.Integer(int64(x))
	case 1:
		x := int16(nd.Int64())
		return x, vf.Integer(int64(x))
	case 2:
		x := int32(nd.Int64())
		return x, vf.Integer(int64(x))
	case 3:
		x := nd.Int64()
		return x, vf.Integer(x)
	case 4:
		x := nd.Int()
		return x, vf.Integer(int64(x))
	case 5:
		x := uint8(nd.Int64())
		return x, vf.Integer(int64(x))
	case 6:
		x := uint16(nd.Int64())
		return x, vf.Integer(int64(x))
	case 7:
		x := uint32(nd.Int64())
		return x, vf.Integer(int64(x))
	case 8:
		x := nd.Int64()
		nd.Assume(x >= 0)
		return uint64(x), vf.Integer(x)
	case 9:
		x := nd.Int64()
		nd.Assume(x >= 0)
		return uint(x), vf.Integer(x)
	case 10:
		x := number()
		return x, vf.Float(x)
	case 11:
		x := float32(number())
		return x, vf.Float(float64(x))
	case 12:
		x := asciiUpTo(2)
		return x, vf.String(x)
	case 13:
		x := nd.Bool()
		return x, vf.Boolean(x)
	case 14:
		x := bytesN(nd.Choice(3))
		return x, vf.Binary(x, true)
	default:
		x := time.Unix(nd.Int64(), between(0, 999999999))
		return x, vf.Time(x)
	}
}

// Bounds: every flat type and every Go value of the 10 integer types (unsigned within int64), the
// 2 float types (no NaN), ASCII strings and binaries of up to 2 bytes, booleans, times.
func C12_Natives() {
	a := flatTy(nd.Choice(nFlat))
	g, v := native()
	nd.Reach("native")
	nd.Assert(a.t.Instance(g) == a.has(v), "a Go value is an instance exactly when the value for it belongs to the type: "+a.k)
}

// Bounds: every uint64 and uint beyond int64.
func C12_Overflow() {
	x := nd.Int64()
	nd.Assume(x < 0)
	var g interface{} = uint64(x)
	if nd.Choice(2) == 0 {
		g = uint(x)
	}
	nd.Reach("overflow")
	nd.Assert(panics(func() { vf.Value(g) }), "an unsigned integer that does not fit is refused")
}

// Bounds: every flat type and every scalar (int64, float64 without NaN, ASCII strings of up to 2
// bytes, booleans, nil, binaries of up to 2 bytes, times).
func C12_Flat() {
	a := flatTy(nd.Choice(nFlat))
	v := scalar()
	nd.Reach("flat")
	nd.Assert(a.t.Instance(v) == a.has(v), "a value is an instance exactly when it belongs to the type: "+a.k)
}
