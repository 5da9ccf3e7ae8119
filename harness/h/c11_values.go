package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

func checkOwnType(v, w dgo.Value) {
	nd.Reach("own")
	t := v.Type()
	eq := v.Equals(w)
	nd.Assert(t.Instance(v), "a value is an instance of its own type")
	nd.Assert(t.Instance(w) == eq, "the type of a value has exactly the values equal to it")
	wt := w.Type()
	nd.Assert(t.Equals(wt) == eq, "the types of values are equal exactly when the values are")
	nd.Assert(t.Assignable(wt) == eq, "the types of values are assignable exactly when the values are equal")
	if _, ok := v.(dgo.Map); !ok {
		nd.Assert(!eq || t.HashCode() == wt.HashCode(), "equal types have equal hash codes")
	}
	nd.Assert(typ.Any.Instance(v) && typ.Any.Assignable(t), "everything is assignable to any")
	g := typ.Generic(t)
	nd.Assert(g.Instance(v) && g.Assignable(t), "the generic type is assignable from the type")
	nd.Assert(t.Assignable(t) && g.Assignable(g), "a type is assignable to itself")
}

// Bounds: every pair of scalars (int64, float64 without NaN, ASCII strings of up to 2 bytes,
// booleans, nil, binaries of up to 2 bytes, times).
func C11_Scalars() { checkOwnType(scalar(), scalar()) }

// Bounds: every pair of arrays of up to 3 elements (any int64 or a string), frozen or not.
func C11_Arrays() {
	v, w := collValue(true).(dgo.Array), collValue(true).(dgo.Array)
	if nd.Choice(2) == 0 {
		w = w.FrozenCopy().(dgo.Array)
	}
	checkOwnType(v, w)
}

// Bounds: every pair of maps over the keys a, b and c (values any int64 or a string) with keys
// added in this order or the opposite.
func C11_Maps() {
	v, w := collValue(false).(dgo.Map), collValue(false).(dgo.Map)
	if nd.Choice(2) == 0 {
		r := vf.MutableMap()
		ks := items(w.Keys())
		for i := len(ks) - 1; i >= 0; i-- {
			r.Put(ks[i], w.Get(ks[i]))
		}
		w = r
	}
	checkOwnType(v, w)
}

// Bounds: arrays and maps nested in arrays and maps, one int64 each.
func C11_Nested() {
	mk := func() dgo.Value {
		i := nd.Int64()
		switch nd.Choice(4) {
		case 0:
			return vf.Values(vf.Values(i))
		case 1:
			return vf.Values(vf.Map("a", i))
		case 2:
			return vf.Map("a", vf.Values(i))
		default:
			return vf.Map("a", vf.Map("a", i))
		}
	}
	checkOwnType(mk(), mk())
}

// Bounds: sensitives of scalars and of an array; their types are generic since they must not tell
// what is wrapped.
func C11_Sensitive() {
	mk := func() (dgo.Value, dgo.Value) {
		v := scalar()
		if nd.Choice(4) == 0 {
			v = vf.Values(v)
		}
		return v, vf.Sensitive(v)
	}
	x, v := mk()
	y, w := mk()
	nd.Reach("own")
	t := v.Type()
	nd.Assert(t.Instance(v), "a value is an instance of its own type")
	nd.Assert(t.Instance(w) == typ.Generic(x.Type()).Instance(y), "the type of a sensitive has every sensitive of the same generic type")
	nd.Assert(t.Assignable(t) && t.Equals(vf.Sensitive(x).Type()), "a type is assignable to itself")
}

func checkCopies(a, b *ty) {
	nd.Reach("copies")
	nd.Assert(a.t.Equals(b.t), "types made from the same arguments are equal: "+a.sketch())
	nd.Assert(a.t.HashCode() == b.t.HashCode(), "equal types have equal hash codes: "+a.sketch())
	nd.Assert(a.t.Assignable(b.t), "equal types are assignable: "+a.sketch())
	g := typ.Generic(a.t)
	nd.Assert(g.Assignable(a.t), "the generic type is assignable from the type: "+a.sketch())
	nd.Assert(typ.Any.Assignable(a.t), "every type is assignable to any: "+a.sketch())
	nd.Assert(a.t.Type().Instance(b.t), "a type is an instance of its meta type: "+a.sketch())
}

// Bounds: every flat type, made twice from the same arbitrary parameters.
func C11_FlatCopies() {
	a := flatTy(nd.Choice(nFlat))
	checkCopies(a, a.dup())
}

// Bounds: every collection type (kinds as in C10_Collections) over integer ranges and any, made twice.
func C11_CollectionCopies() {
	a := collTy(nd.Choice(nColl), rangeOrAny, tString)
	checkCopies(a, a.dup())
}

// Bounds: allOf, anyOf, oneOf, not and sensitive over integer ranges, string and any, nested once, made twice.
func C11_LogicalCopies() {
	a := logicTy(1, true)
	if nd.Choice(4) == 0 {
		a = tSensitive(logicTy(1, true))
	}
	checkCopies(a, a.dup())
}
