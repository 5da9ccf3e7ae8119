package h

import (
	"math"
	"regexp"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// orderLeaf is one of nOrderLeaf types that are neither collections nor logical.
const nOrderLeaf = 27

func orderLeaf(k int) dgo.Type {
	switch k {
	case 0:
		return typ.Any
	case 1:
		return typ.Integer
	case 2:
		return tf.Integer(1, 3, true)
	case 3:
		return tf.Integer(1, 3, false)
	case 4:
		return vf.Integer(2).Type()
	case 5:
		return typ.String
	case 6:
		return tf.String(1, 2)
	case 7:
		return vf.String("a").Type()
	case 8:
		return tf.Pattern(regexp.MustCompile("^a*$"))
	case 9:
		return tf.Enum("a", "aa")
	case 10:
		return tf.CiString("A")
	case 11:
		return typ.Float
	case 12:
		return tf.Float(1, 2, true)
	case 13:
		return vf.Float(1.5).Type()
	case 14:
		return typ.Boolean
	case 15:
		return typ.True
	case 16:
		return typ.Nil
	case 17:
		return typ.Binary
	case 18:
		return tf.Binary(1, 2)
	case 19:
		return vf.Binary([]byte{1}, true).Type()
	case 20:
		return tf.Meta(typ.Any)
	case 21:
		return tf.Meta(typ.Integer)
	case 22:
		return typ.Integer.Type().Type()
	case 23:
		return typ.Sensitive
	case 24:
		return tf.Sensitive(tf.Integer(1, 3, true))
	case 25:
		return typ.Error
	default:
		return typ.Time
	}
}

// orderColl is one of nOrderColl collection, function or logical types.
const nOrderColl = 34

func orderColl(k int) dgo.Type {
	r := tf.Integer(1, 3, true)
	switch k {
	case 0:
		return typ.Array
	case 1:
		return tf.Array(typ.Integer)
	case 2:
		return tf.Array(r, 1, 2)
	case 3:
		return tf.Array(typ.Any, 2, 2)
	case 4:
		return tf.Tuple(typ.Integer)
	case 5:
		return tf.Tuple(r, r)
	case 6:
		return tf.VariadicTuple(r)
	case 7:
		return tf.VariadicTuple(r, typ.Any)
	case 8:
		return vf.Values(2).Type()
	case 9:
		return vf.Values(2, 3).Type()
	case 10:
		return vf.Values().Type()
	case 11:
		return typ.Map
	case 12:
		return tf.Map(typ.String, typ.Integer)
	case 13:
		return tf.Map(typ.Any, r, 1, 1)
	case 14:
		return tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, true))
	case 15:
		return tf.StructMap(true, tf.StructMapEntry("a", r, true))
	case 16:
		return tf.StructMap(false, tf.StructMapEntry("a", r, false), tf.StructMapEntry("b", typ.String, false))
	case 17:
		return tf.StructMap(true)
	case 18:
		return vf.Map("a", 2).Type()
	case 19:
		return vf.Map().Type()
	case 20:
		return tf.AnyOf(typ.Integer, typ.String)
	case 21:
		return tf.AnyOf(tf.Integer(1, 2, true), tf.Integer(3, 4, true))
	case 22:
		return tf.AllOf(tf.Integer(0, 3, true), tf.Integer(1, 9, true))
	case 23:
		return tf.AllOf(typ.String, tf.String(1, 1))
	case 24:
		return tf.Array(tf.AnyOf(r, typ.Nil))
	case 25:
		return vf.Values(1, 2).Type().(dgo.ArrayType).ElementType()
	case 26:
		return typ.Function
	case 27:
		return tf.Function(tf.Tuple(typ.Integer), tf.Tuple(typ.Integer))
	case 28:
		return tf.Function(tf.Tuple(r), tf.Tuple(typ.Any))
	case 29:
		return vf.Value(func(i int64) int64 { return i }).Type()
	case 30:
		return tf.Meta(tf.AnyOf(typ.Integer, typ.String))
	case 31:
		return tf.AnyOf(tf.Meta(typ.Integer), typ.Nil)
	case 32:
		return tf.Map(typ.Any, typ.Any, 0, 1)
	default:
		return tf.Array(typ.Any, 0, 1)
	}
}

func orderType() dgo.Type {
	k := nd.Choice(nOrderLeaf + nOrderColl)
	if k < nOrderLeaf {
		return orderLeaf(k)
	}
	return orderColl(k - nOrderLeaf)
}

// C38_Transitive: Bounds: every three types out of 61 (27 scalar, meta and sensitive ones, 34 collection,
// function and logical ones): what is assignable to something assignable is assignable.
func C38_Transitive() {
	a, b := orderType(), orderType()
	nd.Assume(a.Assignable(b))
	c := orderType()
	nd.Assume(b.Assignable(c))
	nd.Assert(a.Assignable(c), "assignability is transitive")
}

func logical(t dgo.Type) bool {
	switch t.TypeIdentifier() {
	case dgo.TiAllOf, dgo.TiAnyOf, dgo.TiOneOf, dgo.TiNot, dgo.TiAllOfValue:
		return true
	}
	return false
}

var orderFew = []int{0, 1, 2, 4, 5, 7, 14, 16, 21, 24, 28, 29, 31, 38, 42, 47, 54}

func fewTypes() dgo.Type {
	k := orderFew[nd.Choice(len(orderFew))]
	if k < nOrderLeaf {
		return orderLeaf(k)
	}
	return orderColl(k - nOrderLeaf)
}

// C38_Logic: Bounds: any of the 61 types with anyOf, allOf and oneOf of every two of 17 of them: anyOf is
// assignable from exactly what one of its operands is, allOf from what all are; something is
// assignable from anyOf or oneOf exactly when it is from all of its operands, from allOf when it is from all,
// and only when it is from one.
// (An argument, or for allOf a receiver, that is logical itself may be assignable in addition.)
func C38_Logic() {
	t, x, y := orderType(), fewTypes(), fewTypes()
	tx, ty := t.Assignable(x), t.Assignable(y)
	xt, yt := x.Assignable(t), y.Assignable(t)
	any, all := tf.AnyOf(x, y), tf.AllOf(x, y)
	nd.Assert(t.Assignable(any) == (tx && ty), "assignable from anyOf when from all operands")
	nd.Assert(t.Assignable(tf.OneOf(x, y)) == (tx && ty), "assignable from oneOf when from all operands")
	s := t.Assignable(all)
	nd.Assert(s || !(tx && ty), "assignable from allOf when from all operands")
	nd.Assert(!s || tx || ty || logical(t), "assignable from allOf when from an operand only")
	s = any.Assignable(t)
	nd.Assert(s || !xt && !yt, "anyOf is assignable when an operand is")
	nd.Assert(!s || xt || yt || logical(t), "anyOf is assignable when an operand is only")
	s = all.Assignable(t)
	nd.Assert(s || !(xt && yt), "allOf is assignable when the operands are")
	nd.Assert(!s || xt && yt || logical(t), "allOf is assignable when the operands are only")
}

func orderSize() (int, int) {
	switch nd.Choice(4) {
	case 0:
		return 0, math.MaxInt64
	case 1:
		return 1, math.MaxInt64
	case 2:
		return 0, 2
	default:
		return 2, 2
	}
}

// C38_Structure: Bounds: types with sizes (2 to 4 kinds) over every two or, for tuples and structs,
// four of 17 types: collection types are assignable exactly when the sizes are within the sizes and
// the element, key and value types are assignable. (Tuples of exact types are exact array types, which
// are not assignable from arrays with sizes.)
func C38_Structure() {
	a, b := fewTypes(), fewTypes()
	ab := a.Assignable(b)
	switch nd.Choice(7) {
	case 0:
		l1, h1 := orderSize()
		l2, h2 := orderSize()
		nd.Assert(tf.Array(a, l1, h1).Assignable(tf.Array(b, l2, h2)) == (ab && l1 <= l2 && h2 <= h1), "arrays")
	case 1:
		l1, h1 := orderSize()
		l2, h2 := orderSize()
		in := l1 <= l2 && h2 <= h1
		nd.Assert(tf.Array(a, l1, h1).Assignable(vf.Values().Type()) == (l1 == 0), "arrays from the empty array")
		nd.Assert(tf.Map(a, b, l1, h1).Assignable(vf.Map().Type()) == (l1 == 0), "maps from the empty map")
		nd.Assert(tf.Map(a, typ.Integer, l1, h1).Assignable(tf.Map(b, typ.Integer, l2, h2)) == (ab && in), "keys of maps")
		nd.Assert(tf.Map(typ.String, a, l1, h1).Assignable(tf.Map(typ.String, b, l2, h2)) == (ab && in), "values of maps")
		nd.Assert(!tf.Map(typ.String, a, l1, h1).Assignable(tf.Map(typ.Any, b, l2, h2)), "wider keys")
	case 2:
		c, d := fewTypes(), fewTypes()
		cd := c.Assignable(d)
		nd.Assert(tf.Tuple(a, c).Assignable(tf.Tuple(b, d)) == (ab && cd), "tuples")
		nd.Assert(tf.VariadicTuple(a, c).Assignable(tf.Tuple(b, d)) == (ab && cd), "variadic tuples from tuples")
		nd.Assert(tf.VariadicTuple(a, c).Assignable(tf.VariadicTuple(b, d)) == (ab && cd), "variadic tuples")
		nd.Assert(!tf.Tuple(a, c).Assignable(tf.VariadicTuple(b, d)), "a tuple has a size")
		nd.Assert(tf.Array(a).Assignable(tf.Tuple(b, d)) == (ab && a.Assignable(d)), "arrays from tuples")
		nd.Assert(tf.Array(a, 1, 2).Assignable(tf.VariadicTuple(b, d)) == false, "sized arrays from tuples")
		nd.Assert(tf.VariadicTuple(a, c).Assignable(tf.Array(b, 1)) == (ab && c.Assignable(b)), "variadic tuples from arrays")
		nd.Assert(dgo.IsExact(a) || tf.Tuple(a, c).Assignable(tf.Array(d, 2, 2)) == (a.Assignable(d) && cd), "tuples from arrays")
		nd.Assert(tf.VariadicTuple(a, c).Assignable(tf.Tuple(b)) == ab, "variadic tuples from short tuples")
		nd.Assert(tf.VariadicTuple(c).Assignable(tf.Tuple(b, d)) == (c.Assignable(b) && cd), "variadic tuples from long tuples")
	case 3:
		nd.Assert(tf.Sensitive(a).Assignable(tf.Sensitive(b)) == ab, "sensitives")
		nd.Assert(tf.Meta(a).Assignable(tf.Meta(b)) == a.Equals(b), "metas")
		nd.Assert(!a.Assignable(tf.Sensitive(b)) || a == typ.Any || a.TypeIdentifier() == dgo.TiSensitive, "a sensitive is no other")
	case 4, 5:
		ra, rb := nd.Choice(2) == 0, nd.Choice(2) == 0
		aa, bb := nd.Choice(2) == 0, nd.Choice(2) == 0
		t := tf.StructMap(aa, tf.StructMapEntry("a", a, ra))
		s := tf.StructMap(bb, tf.StructMapEntry("a", b, rb))
		nd.Assert(t.Assignable(s) == (ab && (!ra || rb) && (aa || !bb)), "struct types")
		e := tf.StructMap(bb)
		nd.Assert(t.Assignable(e) == (!ra && !bb), "a struct type from one without the key")
		nd.Assert(e.Assignable(s) == bb, "a struct type without the key")
		two := tf.StructMap(bb, tf.StructMapEntry("b", typ.Nil, rb), tf.StructMapEntry("a", b, rb))
		nd.Assert(t.Assignable(two) == (ab && (!ra || rb) && aa), "a struct type with one more key")
		nd.Assert(two.Assignable(tf.StructMap(bb, tf.StructMapEntry("a", a, ra), tf.StructMapEntry("b", typ.Nil, ra))) == (b.Assignable(a) && (!rb || ra)), "struct types in another order")
	default:
		nd.Assert(tf.Map(typ.String, a).Assignable(tf.StructMap(false, tf.StructMapEntry("a", b, false))) == ab, "maps from struct types")
		nd.Assert(tf.Map(typ.String, a, 1, 1).Assignable(tf.StructMap(false, tf.StructMapEntry("a", b, true))) == ab, "sized maps from struct types")
		nd.Assert(!tf.Map(typ.String, a, 1, 1).Assignable(tf.StructMap(false, tf.StructMapEntry("a", b, false))), "sized maps from struct types without required")
		nd.Assert(!tf.Map(typ.Integer, a).Assignable(tf.StructMap(false, tf.StructMapEntry("a", b, true))), "maps with other keys")
	}
}

// orderSizes are arbitrary sizes with min not above max.
func orderSizes() (int, int) {
	lo, hi := between(0, math.MaxInt64), between(0, math.MaxInt64)
	nd.Assume(lo <= hi)
	return int(lo), int(hi)
}

// orderRange is a type of family f with arbitrary bounds.
func orderRange(f int) dgo.Type {
	switch f {
	case 0:
		switch nd.Choice(4) {
		case 0:
			return tIntRange().t
		case 1:
			return tIntIs(nd.Int64()).t
		case 2:
			return typ.Integer
		default:
			return tf.AnyOf(tRange().t, typ.String)
		}
	case 1:
		switch nd.Choice(3) {
		case 0:
			return tFloatRange().t
		case 1:
			return tFloatIs(number()).t
		default:
			return typ.Float
		}
	case 2:
		switch nd.Choice(3) {
		case 0:
			lo, hi := orderSizes()
			return tf.String(lo, hi)
		case 1:
			return vf.String(asciiUpTo(2)).Type()
		default:
			return typ.String
		}
	case 3:
		lo, hi := orderSizes()
		return tf.Binary(lo, hi)
	case 4:
		lo, hi := orderSizes()
		switch nd.Choice(4) {
		case 0:
			return tf.Array(typ.Any, lo, hi)
		case 1:
			return tf.Array(tRange().t)
		case 2:
			return tf.Tuple(tRange().t, typ.Integer)
		default:
			return vf.Values(nd.Int64(), nd.Int64()).Type()
		}
	case 5:
		lo, hi := orderSizes()
		switch nd.Choice(3) {
		case 0:
			return tf.Map(typ.String, typ.Integer, lo, hi)
		case 1:
			return tf.StructMap(nd.Choice(2) == 0, tf.StructMapEntry("a", tRange().t, nd.Choice(2) == 0))
		default:
			return vf.Map("a", nd.Int64()).Type()
		}
	default:
		switch nd.Choice(3) {
		case 0:
			return tf.Sensitive(tRange().t)
		case 1:
			return tf.VariadicTuple(tRange().t, tRange().t)
		default:
			return tf.Function(tf.Tuple(tRange().t), tf.Tuple(tRange().t))
		}
	}
}

// C38_Ranges: Bounds: every three types of one of 7 families with arbitrary (64 bit) bounds and sizes: integer and
// float ranges, exact values and anyOf; strings, binaries, arrays, tuples, maps and structs with sizes;
// sensitives, variadic tuples and functions: what is assignable to something assignable is assignable, and a type is
// assignable to itself.
func C38_Ranges() {
	f := nd.Choice(7)
	a, b := orderRange(f), orderRange(f)
	nd.Assert(a.Assignable(a), "a type is assignable to itself: bounds")
	nd.Assume(a.Assignable(b))
	c := orderRange(f)
	nd.Assume(b.Assignable(c))
	nd.Assert(a.Assignable(c), "assignability is transitive: bounds")
	nd.Reach("ranges")
}
