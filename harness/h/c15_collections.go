package h

import (
	"math"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// Bounds: every collection type (arrays with and without sizes, tuples of 1 and 2 elements,
// variadic tuples, exact arrays, maps with and without sizes, struct types of 1 and 2 keys with
// and without additional keys, exact maps) over inclusive integer ranges, any and string; arrays
// of up to 3 elements and maps over the keys a, b and c, elements any int64 or a string.
func C15_Collections() {
	k := nd.Choice(nColl)
	t := collTy(k, rangeOrAny, tString)
	v := collValue(nd.Choice(2) == 0)
	nd.Reach("has")
	nd.Assert(t.t.Instance(v) == t.has(v), "a collection is an instance exactly when it belongs to the type: "+t.sketch())
	if nd.Choice(2) == 0 {
		v = v.(dgo.Freezable).FrozenCopy()
		nd.Assert(t.t.Instance(v) == t.has(v), "freezing does not matter: "+t.sketch())
	}
}

// Bounds: array and map types of every pair of int64 sizes in either order, or a minimum only;
// collections of up to 3 elements.
func C15_Sizes() {
	a, b := nd.Int64(), nd.Int64()
	lo, hi := a, b
	if lo < 0 {
		lo = 0
	}
	if hi < 0 {
		hi = 0
	}
	lo, hi = swap(lo, hi)
	one := nd.Choice(2) == 0
	n := nd.Choice(4)
	var t dgo.SizedType
	var v dgo.Value
	if nd.Choice(2) == 0 {
		x := vf.MutableValues()
		for i := 0; i < n; i++ {
			x.Add(i)
		}
		v = x
		switch {
		case one && nd.Choice(2) == 0:
			t = tf.Array(typ.Integer, a)
		case one:
			t = tf.Array(a)
		case nd.Choice(2) == 0:
			t = tf.Array(typ.Integer, a, b)
		default:
			t = tf.Array(a, b)
		}
	} else {
		x := vf.MutableMap()
		for i := 0; i < n; i++ {
			x.Put(i, i)
		}
		v = x
		switch {
		case one && nd.Choice(2) == 0:
			t = tf.Map(typ.Integer, typ.Integer, a)
		case one:
			t = tf.Map(a)
		case nd.Choice(2) == 0:
			t = tf.Map(typ.Integer, typ.Integer, a, b)
		default:
			t = tf.Map(a, b)
		}
	}
	if one {
		lo, hi = a, math.MaxInt64
		if lo < 0 {
			lo = 0
		}
	}
	nd.Reach("size")
	nd.Assert(t.Instance(v) == nd.And(lo <= int64(n), int64(n) <= hi), "the size is within the bounds")
	nd.Assert(nd.And(int64(t.Min()) == lo, int64(t.Max()) == hi), "Min and Max are the bounds in order")
	nd.Assert(t.Unbounded() == nd.And(lo == 0, hi == math.MaxInt64), "Unbounded exactly without limits")
}

// Bounds: arrays of arrays and maps of maps of integer ranges with sizes, tuples and struct types in
// each other, one level; values of the same shapes with up to 2 elements per level.
func C15_Nested() {
	inner := func() (*ty, func() dgo.Value) {
		r := tRange()
		val := func(isMap bool) dgo.Value {
			n := nd.Choice(3)
			if isMap {
				m := vf.MutableMap()
				for i := 0; i < n; i++ {
					m.Put(string(rune('a'+i)), nd.Int64())
				}
				return m
			}
			a := vf.MutableValues()
			for i := 0; i < n; i++ {
				a.Add(nd.Int64())
			}
			return a
		}
		switch nd.Choice(5) {
		case 0:
			return tArray(r, 0, 1), func() dgo.Value { return val(false) }
		case 1:
			return tTuple(r, tInt()), func() dgo.Value { return val(false) }
		case 2:
			return tVariadic(tInt(), r), func() dgo.Value { return val(false) }
		case 3:
			return tMap(tString(), r, 1, 2), func() dgo.Value { return val(true) }
		default:
			return tStruct(nd.Choice(2) == 0, []bool{nd.Choice(2) == 0}, r), func() dgo.Value { return val(true) }
		}
	}
	in, mk := inner()
	var t *ty
	var v dgo.Value
	switch nd.Choice(5) {
	case 0:
		t = tArrayOf(in)
		v = vf.Values(mk(), mk())
	case 1:
		t = tVariadic(tString(), in)
		v = vf.Values("x", mk())
	case 2:
		t = tMap(tString(), in, 0, 1)
		v = vf.Map("a", mk())
	case 3:
		t = tStruct(true, []bool{false, true}, in, tAny())
		v = vf.Map("a", mk(), "b", 1)
	default:
		t = tAnyOf(tArrayOf(in), tMapOf(tAny(), in))
		v = vf.Map("x", mk())
	}
	nd.Reach("has")
	nd.Assert(t.t.Instance(v) == t.has(v), "a collection is an instance exactly when it belongs to the type: "+t.sketch())
}

// Bounds: map types whose keys are an integer range, string or any; maps of up to 2 entries with any
// of four int64 keys or the string x.
func C15_MapKeys() {
	mx := int64(nd.Choice(3))
	var t *ty
	switch nd.Choice(3) {
	case 0:
		t = tMap(tString(), tRange(), mx, 3)
	case 1:
		t = tMap(tRange(), tAny(), 0, mx)
	default:
		t = tMap(tRange(), tRange(), 0, 2)
	}
	m := vf.MutableMap()
	n := nd.Choice(3)
	for i := 0; i < n; i++ {
		if nd.Choice(2) == 0 {
			m.Put("x", nd.Int64())
		} else {
			m.Put(mapKey(), elem())
		}
	}
	nd.Reach("has")
	nd.Assert(t.t.Instance(m) == t.has(m), "a map is an instance exactly when it belongs to the type: "+t.sketch())
}

// Bounds: tuples and variadic tuples of 1 to 3 types; positions -1..3.
func C15_TupleParts() {
	n := 1 + nd.Choice(3)
	ts := make([]*ty, n)
	for i := range ts {
		ts[i] = rangeOrAny()
	}
	variadic := nd.Choice(2) == 0
	var t dgo.TupleType
	if variadic {
		t = tf.VariadicTuple(args(ts...)...)
	} else {
		t = tf.Tuple(args(ts...)...)
	}
	nd.Reach("parts")
	nd.Assert(t.Len() == n && t.Variadic() == variadic, "a tuple has the types it was made from")
	for i := range ts {
		nd.Assert(t.Element(i).Equals(ts[i].t), "a tuple has the types it was made from")
	}
	nd.Assert(t.ElementTypes().Len() == n, "a tuple has the types it was made from")
	if variadic {
		nd.Assert(t.Min() == n-1 && t.Max() == math.MaxInt64, "sizes of a variadic tuple")
	} else {
		nd.Assert(t.Min() == n && t.Max() == n, "sizes of a tuple")
	}
	// every element of an instance belongs to the element type
	v := vf.Values(elem(), elem())
	if t.Instance(v) {
		for i := 0; i < 2; i++ {
			j := i
			if j >= n {
				j = n - 1
			}
			nd.Assert(ts[j].has(v.Get(i)), "every element of an instance belongs to its type")
		}
	}
}

// Bounds: array and map types with integer ranges or any and sizes 0..3, collections of up to 3.
func C15_TypedNew() {
	lo, hi := int64(nd.Choice(3)), int64(nd.Choice(4))
	array := nd.Choice(2) == 0
	var t *ty
	if array {
		t = tArray(rangeOrAny(), lo, hi)
	} else {
		t = tMap(tString(), rangeOrAny(), lo, hi)
	}
	v := collValue(array)
	nd.Reach("new")
	in := t.has(v)
	var r dgo.Value
	p := panics(func() { r = vf.New(t.t, v) })
	nd.Assert(p == !in, "New makes instances only and refuses other values")
	nd.Assert(p || r.Equals(v), "New of a collection type gives the collection")
}
