package h

import (
	"encoding/json"
	"errors"
	"regexp"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// sameScalar is the reference: what it means for two scalars to be equal.
func sameScalar(a, b dgo.Value) bool {
	switch a := a.(type) {
	case dgo.Integer:
		b, ok := b.(dgo.Integer)
		return ok && a.GoInt() == b.GoInt()
	case dgo.Float:
		b, ok := b.(dgo.Float)
		return ok && a.GoFloat() == b.GoFloat()
	case dgo.String:
		b, ok := b.(dgo.String)
		return ok && a.GoString() == b.GoString()
	case dgo.Boolean:
		b, ok := b.(dgo.Boolean)
		return ok && a.GoBool() == b.GoBool()
	case dgo.Binary:
		b, ok := b.(dgo.Binary)
		return ok && string(a.GoBytes()) == string(b.GoBytes())
	case dgo.Time:
		b, ok := b.(dgo.Time)
		return ok && a.GoTime().Equal(b.GoTime())
	case dgo.Nil:
		_, ok := b.(dgo.Nil)
		return ok
	}
	return false
}

// Bounds: every pair of scalars (int64, string of up to 2 ASCII bytes, float64 except NaN,
// boolean, nil, binary of up to 2 bytes, time of any second and nanosecond).
func C01_ScalarPairs() {
	a, b := scalar(), scalar()
	nd.Reach("pair")
	nd.Assert(a.Equals(a), "reflexive")
	e := a.Equals(b)
	nd.Assert(e == b.Equals(a), "symmetric")
	nd.Assert(e == sameScalar(a, b), "equal exactly when same kind and content")
	if e {
		nd.Reach("equal")
	}
}

// Bounds: every triple of scalars as in ScalarPairs, with strings and binaries of one byte.
func C01_ScalarTransitive() {
	var v [3]dgo.Value
	for i := range v {
		switch nd.Choice(5) {
		case 0:
			v[i] = vf.Integer(nd.Int64())
		case 1:
			v[i] = vf.Float(number())
		case 2:
			v[i] = vf.String(ascii(1))
		case 3:
			v[i] = vf.Boolean(nd.Bool())
		default:
			v[i] = vf.Nil
		}
	}
	nd.Reach("triple")
	if v[0].Equals(v[1]) && v[1].Equals(v[2]) {
		nd.Reach("chain")
		nd.Assert(v[0].Equals(v[2]), "transitive")
	}
}

// Bounds: a dgo scalar compared with the Go native form of another, all int64, int32, uint8,
// float64 (no NaN), strings of up to 2 ASCII bytes, booleans, byte slices of up to 2 bytes.
func C01_NativeArgument() {
	a := scalar()
	var n interface{}
	switch nd.Choice(8) {
	case 0:
		n = nd.Int64()
	case 1:
		n = number()
	case 2:
		n = asciiUpTo(2)
	case 3:
		n = nd.Bool()
	case 4:
		n = nil
	case 5:
		n = bytesN(nd.Choice(3))
	case 6:
		n = nd.Int32()
	default:
		n = nd.Uint8()
	}
	b := vf.Value(n)
	nd.Reach("native")
	nd.Assert(a.Equals(n) == a.Equals(b), "comparing with a Go value is comparing with its dgo value")
	nd.Assert(b.Equals(n), "a value equals the Go value it was made from")
}

// Bounds: arrays of 0 to 3 elements, each an arbitrary int64, one-byte string, boolean or nil.
func C01_Arrays() {
	n, m := nd.Choice(4), nd.Choice(4)
	a, b := vf.MutableValues(), vf.MutableValues()
	va, vb := make([]dgo.Value, n), make([]dgo.Value, m)
	for i := range va {
		va[i] = small2()
		a.Add(va[i])
	}
	for i := range vb {
		vb[i] = small2()
		b.Add(vb[i])
	}
	same := n == m
	for i := 0; same && i < n; i++ {
		same = va[i].Equals(vb[i])
	}
	nd.Reach("arrays")
	nd.Assert(a.Equals(b) == same, "arrays are equal exactly when their elements are pairwise equal")
	nd.Assert(b.Equals(a) == same, "array equality is symmetric")
	nd.Assert(a.Equals(a.Copy(true)) && a.Copy(true).Equals(a), "frozen state does not matter")
}

func small2() dgo.Value {
	if nd.Choice(2) == 0 {
		return vf.Integer(nd.Int64())
	}
	return vf.String(ascii(1))
}

// Bounds: maps of 0 to 2 entries, keys from {0, 1, 16, 2^36}, values arbitrary int64 or nil, in
// every insertion order.
func C01_Maps() {
	mk := func() (dgo.Map, []dgo.Value, []dgo.Value) {
		n := nd.Choice(3)
		m := vf.MutableMap()
		ks := make([]dgo.Value, n)
		vs := make([]dgo.Value, n)
		for i := range ks {
			ks[i] = vf.Integer(mapKey())
			vs[i] = vf.Nil
			if nd.Choice(2) == 0 {
				vs[i] = vf.Integer(nd.Int64())
			}
			for j := 0; j < i; j++ {
				nd.Assume(!ks[j].Equals(ks[i]))
			}
			m.Put(ks[i], vs[i])
		}
		return m, ks, vs
	}
	a, ka, va := mk()
	b, kb, vb := mk()
	same := len(ka) == len(kb)
	for i := 0; same && i < len(ka); i++ {
		same = false
		for j := range kb {
			if ka[i].Equals(kb[j]) && va[i].Equals(vb[j]) {
				same = true
			}
		}
	}
	nd.Reach("maps")
	nd.Assert(a.Equals(b) == same, "maps are equal exactly when they associate the same keys with equal values")
	nd.Assert(b.Equals(a) == same, "map equality is symmetric")
}

// Bounds: nested values: arrays, maps, entries, sensitives and scalars (int64, one-byte
// string) with collections of at most 1 element, nesting depth 2.
func C01_Nested() {
	a, b := nested(2), nested(2)
	nd.Reach("nested")
	nd.Assert(a.Equals(a) && b.Equals(b), "reflexive")
	e := a.Equals(b)
	nd.Assert(e == b.Equals(a), "symmetric")
	if e {
		nd.Assert(shape(a) == shape(b), "values of different shape are not equal")
	}
}

func nested(d int) dgo.Value {
	k := 2
	if d > 0 {
		k = 7
	}
	switch nd.Choice(k) {
	case 0:
		return vf.Integer(nd.Int64())
	case 1:
		return vf.String(ascii(1))
	case 2:
		return vf.Values()
	case 3:
		return vf.Values(nested(d - 1))
	case 4:
		return vf.Map("k", nested(d-1))
	case 5:
		return vf.MapEntry("k", nested(d-1))
	default:
		return vf.Sensitive(nested(d - 1))
	}
}

func shape(v dgo.Value) string {
	switch v := v.(type) {
	case dgo.Integer:
		return "i"
	case dgo.String:
		return "s"
	case dgo.Array:
		r := "["
		v.Each(func(e dgo.Value) { r += shape(e) })
		return r + "]"
	case dgo.Map:
		r := "{"
		v.EachEntry(func(e dgo.MapEntry) { r += shape(e.Key()) + ":" + shape(e.Value()) })
		return r + "}"
	case dgo.MapEntry:
		return "(" + shape(v.Key()) + shape(v.Value()) + ")"
	case dgo.Sensitive:
		return "!" + shape(v.Unwrap())
	}
	return "?"
}

// compound builds types over types.
const nCompType = 14

func compType(k int, a, b dgo.Type) dgo.Type {
	switch k {
	case 0:
		return tf.Array(a, between(0, 4), between(0, 4))
	case 1:
		return tf.Tuple(a, b)
	case 2:
		return tf.VariadicTuple(a, b)
	case 3:
		return tf.Map(a, b, between(0, 4), between(0, 4))
	case 4:
		return tf.StructMap(nd.Choice(2) == 0, tf.StructMapEntry("a", a, nd.Choice(2) == 0))
	case 5:
		return tf.StructMap(nd.Choice(2) == 0, tf.StructMapEntry("a", a, true), tf.StructMapEntry("b", b, false))
	case 6:
		return tf.AllOf(a, b)
	case 7:
		return tf.AnyOf(a, b)
	case 8:
		return tf.OneOf(a, b)
	case 9:
		return tf.Not(a)
	case 10:
		return a.Type()
	case 11:
		return tf.Sensitive(a)
	case 12:
		return tf.Function(tf.Tuple(a), tf.Tuple(b))
	default:
		return tf.Array(a)
	}
}

// Bounds: every pair of flat types (22 kinds: any, integer, float, string, boolean, nil,
// binary, time, regexp, error and their range, size, exact and case-insensitive variants),
// parameters arbitrary; strings and binaries of one byte.
func C01_FlatTypes() {
	a, b := typeK(nd.Choice(nFlatType)), typeK(nd.Choice(nFlatType))
	nd.Reach("types")
	nd.Assert(a.Equals(a), "reflexive")
	nd.Assert(a.Equals(b) == b.Equals(a), "symmetric")
}

// simpleType gives a few types that matter for composition.
func simpleType() dgo.Type {
	switch nd.Choice(4) {
	case 0:
		return typ.Integer
	case 1:
		return vf.Integer(nd.Int64()).Type()
	case 2:
		return tf.Integer(nd.Int64(), nd.Int64(), true)
	default:
		return typ.String
	}
}

// Bounds: every pair of compound types (array, tuple, variadic tuple, map, struct, allOf,
// anyOf, oneOf, not, meta, sensitive, function) over integer, exact integer, integer range
// and string, with arbitrary integer parameters and sizes 0 to 4.
func C01_CompoundTypes() {
	a := compType(nd.Choice(nCompType), simpleType(), typ.String)
	b := compType(nd.Choice(nCompType), simpleType(), typ.String)
	nd.Reach("types")
	nd.Assert(a.Equals(a), "reflexive")
	nd.Assert(a.Equals(b) == b.Equals(a), "symmetric")
}

// Bounds: exact types of collections and the collection types that describe the same values,
// elements arbitrary int64.
func C01_ExactTypes() {
	mk := func() dgo.Type {
		x := vf.Integer(nd.Int64())
		switch nd.Choice(14) {
		case 9:
			return tf.Tuple()
		case 10:
			return vf.Values().Type()
		case 11:
			return vf.Map().Type()
		case 12:
			return tf.StructMap(false)
		case 13:
			return tf.VariadicTuple(x.Type())
		case 0:
			return vf.Values(x).Type()
		case 1:
			return tf.Tuple(x.Type())
		case 2:
			return tf.Array(x.Type(), 1, 1)
		case 3:
			return vf.Map("a", x).Type()
		case 4:
			return tf.StructMap(false, tf.StructMapEntry("a", x.Type(), true))
		case 5:
			return tf.Map(vf.String("a").Type(), x.Type(), 1, 1)
		case 6:
			return tf.AllOf(x.Type())
		case 7:
			return tf.AnyOf(x.Type())
		default:
			return tf.Integer(int64(x.GoInt()), int64(x.GoInt()), true)
		}
	}
	a, b := mk(), mk()
	nd.Reach("types")
	nd.Assert(a.Equals(a), "reflexive")
	nd.Assert(a.Equals(b) == b.Equals(a), "symmetric")
}

// Bounds: logical types over two or three operands in every order, operands exact integers.
func C01_LogicalOrder() {
	x, y, z := vf.Integer(nd.Int64()).Type(), vf.Integer(nd.Int64()).Type(), vf.Integer(nd.Int64()).Type()
	mk := func(k int, ts ...interface{}) dgo.Type {
		switch k {
		case 0:
			return tf.AllOf(ts...)
		case 1:
			return tf.AnyOf(ts...)
		default:
			return tf.OneOf(ts...)
		}
	}
	k := nd.Choice(3)
	a := mk(k, x, y)
	b := mk(k, y, x)
	c := mk(nd.Choice(3), y, z)
	nd.Reach("types")
	nd.Assert(a.Equals(b) == b.Equals(a), "symmetric")
	nd.Assert(a.Equals(c) == c.Equals(a), "symmetric")
	if a.Equals(b) && b.Equals(c) {
		nd.Assert(a.Equals(c), "transitive")
	}
}

// oneValue is an arbitrary value of one of 14 kinds, the scalars among them.
func oneValue(k int) dgo.Value {
	switch k {
	case 0:
		return vf.Regexp(regexp.MustCompile([]string{"a", "b+"}[nd.Choice(2)]))
	case 1:
		return vf.Value(errors.New([]string{"a", "b+"}[nd.Choice(2)]))
	case 2:
		return vf.Values(pickInt(), "a")
	case 3:
		return vf.Strings("a")
	case 4:
		return vf.Map("a", pickInt())
	case 5:
		return vf.Sensitive(pickInt())
	case 6:
		return vf.Value(3 + 4i)
	default:
		return scalarK(k - 7)
	}
}

// oneGo is an arbitrary Go value.
func oneGo(k int) interface{} {
	i := int64(nd.Choice(2))
	switch k {
	case 0:
		return regexp.MustCompile([]string{"a", "b+"}[i])
	case 1:
		return errors.New([]string{"a", "b+"}[i])
	case 2:
		return (*regexp.Regexp)(nil)
	case 3:
		return (*time.Time)(nil)
	case 4:
		return time.Unix(i, 0)
	case 5:
		t := time.Unix(i, 0)
		return &t
	case 6:
		return (*int)(nil)
	case 7:
		return &i
	case 8:
		return []int{int(i)}
	case 9:
		return []string{"a", "b"}[:i+1]
	case 10:
		return []interface{}{i, "a"}
	case 11:
		return map[string]int{"a": int(i)}
	case 12:
		return map[string]interface{}{"a": i}
	case 13:
		return float32(i)
	case 14:
		return uint64(i)
	case 15:
		return []byte(nil)
	case 16:
		return []string(nil)
	case 17:
		return map[string]string(nil)
	case 18:
		return 3 + 4i
	case 19:
		s := "a"
		return &s
	case 20:
		return json.Number([]string{"0", "1.5"}[i])
	case 21:
		return int16(i)
	default:
		return tf.IllegalSize(typ.String, int(i))
	}
}

// Bounds: one of 14 kinds of values (scalars, regexps, errors, arrays, maps, sensitives, natives)
// compared with one of 23 kinds of Go values: slices, maps, pointers (also nil), regexps, times,
// errors, numbers. (Values other than nil slices that are made from something nil, from a pointer
// to something other than a time or regexp, or from a json.Number need not equal that.)
func C01_NativeKinds() {
	a := oneValue(nd.Choice(14))
	k := nd.Choice(23)
	n := oneGo(k)
	loose := k == 2 || k == 3 || k == 6 || k == 7 || k == 17 || k == 19 || k == 20
	var b dgo.Value
	f := failure(func() { b = vf.Value(n) })
	nd.Assert(f == "", "a Go value becomes a value: "+f)
	e, r, s := false, false, false
	f = failure(func() { e, r, s = a.Equals(n), a.Equals(b), b.Equals(a) })
	nd.Assert(f == "", "comparing does not panic: "+f)
	nd.Assert(e == r || loose, "comparing with a Go value of any kind is comparing with its dgo value")
	nd.Assert(r == s, "symmetric for values of any kind")
	nd.Assert(loose || b.Equals(n), "a value of any kind equals the Go value it was made from")
	nd.Assert(!(k == 2 || k == 3 || k == 6) || b == vf.Nil, "a nil pointer is nil")
	nd.Assert(!r || a.HashCode() == b.HashCode(), "equal values of any kind have equal hash codes")
}

// elementType is the element type of the array of 2 or 3 integers out of -1, 0, 1, or the same as allOf.
func elementType(max int) dgo.Type {
	a := vf.MutableValues()
	ts := make([]interface{}, 0, 3)
	for n := 2 + nd.Choice(max-1); n > 0; n-- {
		i := vf.Integer(int64(nd.Choice(3) - 1))
		a.Add(i)
		ts = append(ts, i.Type())
	}
	switch nd.Choice(3) {
	case 0:
		return a.FrozenCopy().Type().(dgo.ArrayType).ElementType()
	case 1:
		m := vf.MutableMap()
		a.EachWithIndex(func(e dgo.Value, i int) { m.Put(i, e) })
		return m.FrozenCopy().Type().(dgo.MapType).ValueType()
	default:
		return tf.AllOf(ts...)
	}
}

// Bounds: every pair of element types of exact arrays, value types of exact maps and allOf types,
// of 2 or 3 integers out of 3: equality is symmetric, equal ones have equal hash codes, accept each
// other, and have the same instances; a third one of 2 is equal to both or none.
func C01_ElementTypes() {
	a, b := elementType(3), elementType(3)
	nd.Assert(a.Equals(a) && a.Assignable(a) && a.Type().Equals(a.Type()) && a.Type().Instance(a), "an element type equals itself")
	e := a.Equals(b)
	nd.Assert(e == b.Equals(a), "equality of element types is symmetric")
	nd.Assert(e == a.Type().Equals(b.Type()), "equality of the types of element types")
	if e {
		nd.Assert(a.HashCode() == b.HashCode(), "equal element types have equal hash codes")
		nd.Assert(a.Assignable(b) && b.Assignable(a), "equal element types accept each other")
		for i := -1; i < 2; i++ {
			nd.Assert(a.Instance(i) == b.Instance(i), "equal element types have the same instances")
		}
		c := elementType(2)
		nd.Assert(a.Equals(c) == b.Equals(c), "equality of element types is transitive")
	}
}
