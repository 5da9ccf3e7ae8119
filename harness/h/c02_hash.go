package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

func hashAgrees(a, b dgo.Value) {
	nd.Assert(a.HashCode() == a.HashCode(), "hash is stable")
	if a.Equals(b) {
		nd.Reach("equal")
		nd.Assert(a.HashCode() == b.HashCode(), "equal values have the same hash code")
	}
}

// Bounds: every pair of scalars (int64, string of up to 2 ASCII bytes, float64 except NaN,
// boolean, nil, binary of up to 2 bytes, time of any second and nanosecond).
func C02_Scalars() { hashAgrees(scalar(), scalar()) }

// Bounds: two equal strings of 2 arbitrary bytes (any UTF-8 or not), built separately.
func C02_UnicodeStrings() {
	a := nd.StringN(2)
	nd.Reach("string")
	hashAgrees(vf.String(a), vf.String(a+""))
}

// Bounds: arrays of 0 to 2 arbitrary int64 or one-byte strings, frozen or not.
func C02_Arrays() {
	mk := func() dgo.Value {
		a := vf.MutableValues()
		for n := nd.Choice(3); n > 0; n-- {
			a.Add(small2())
		}
		return a
	}
	a, b := mk(), mk()
	hashAgrees(a, b)
	hashAgrees(a, a.(dgo.Array).FrozenCopy())
}

// Bounds: maps of 0 to 2 entries, keys from {0, 1, 16, 2^36}, values arbitrary int64, any insertion order, with
// and without a removed third entry in the history.
func C02_Maps() {
	mk := func() dgo.Value {
		m := vf.MutableMap()
		n := nd.Choice(3)
		for i := 0; i < n; i++ {
			m.Put(mapKey(), nd.Int64())
		}
		if nd.Choice(2) == 0 {
			m.Put("x", 1)
			m.Remove("x")
		}
		return m
	}
	hashAgrees(mk(), mk())
}

// Bounds: the values of C01_Nested: nested arrays, maps, entries, sensitives, depth 2.
func C02_Nested() { hashAgrees(nested(2), nested(2)) }

// Bounds: every pair of flat types of C01_FlatTypes.
func C02_FlatTypes() {
	hashAgrees(typeK(nd.Choice(nFlatType)), typeK(nd.Choice(nFlatType)))
}

// Bounds: every pair of compound types of C01_CompoundTypes.
func C02_CompoundTypes() {
	hashAgrees(compType(nd.Choice(nCompType), simpleType(), typ.String), compType(nd.Choice(nCompType), simpleType(), typ.String))
}

// Bounds: logical types over two operands in either order and string enumerations; operands
// exact integers or one-byte exact strings.
func C02_Logical() {
	mk := func(k int, ts ...interface{}) dgo.Type {
		switch k {
		case 0:
			return tf.AllOf(ts...)
		case 1:
			return tf.AnyOf(ts...)
		default:
			return tf.OneOf(ts...)
		}
	}
	var x, y dgo.Type
	if nd.Choice(2) == 0 {
		x, y = vf.Integer(nd.Int64()).Type(), vf.Integer(nd.Int64()).Type()
	} else {
		x, y = vf.String(ascii(1)).Type(), vf.Integer(nd.Int64()).Type()
	}
	hashAgrees(mk(nd.Choice(3), x, y), mk(nd.Choice(3), y, x))
	hashAgrees(mk(nd.Choice(3), x, typ.String), mk(nd.Choice(3), y, typ.String))
}

// Bounds: exact types of one-element collections and the types that describe the same values.
func C02_ExactTypes() {
	mk := func() dgo.Type {
		x := vf.Integer(nd.Int64())
		switch nd.Choice(6) {
		case 0:
			return vf.Values(x).Type()
		case 1:
			return tf.Tuple(x.Type())
		case 2:
			return tf.Array(x.Type(), 1, 1)
		case 3:
			return vf.Map("a", x).Type()
		case 4:
			return tf.StructMap(false, tf.StructMapEntry("a", x.Type(), true))
		default:
			return tf.Map(vf.String("a").Type(), x.Type(), 1, 1)
		}
	}
	hashAgrees(mk(), mk())
}

// Bounds: case insensitive strings and enumerations of one ASCII letter of either case, or of one of 24 characters
// whose case folding is special.
func C02_CaseInsensitive() {
	a, b := ascii(1), ascii(1)
	if nd.Choice(2) == 0 {
		a, b = folding[nd.Choice(len(folding))], folding[nd.Choice(len(folding))]
	}
	hashAgrees(tf.CiString(a), tf.CiString(b))
	hashAgrees(tf.CiEnum(a, b), tf.CiEnum(b, a))
	hashAgrees(tf.Enum(a, b), tf.Enum(b, a))
}
