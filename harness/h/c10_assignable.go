package h

import (
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// Bounds: every pair of flat types (17 kinds with arbitrary parameters; sizes up to 3) and every
// scalar (int64, float64 without NaN, ASCII strings of up to 2 bytes, booleans, nil, binaries of
// up to 2 bytes, times).
func C10_Flat() {
	a, b := flatTy(nd.Choice(nFlat)), flatTy(nd.Choice(nFlat))
	nd.Assume(a.t.Assignable(b.t))
	v := scalar()
	nd.Assume(b.t.Instance(v))
	nd.Reach("assignable")
	nd.Assert(a.t.Instance(v), "a type has every value of the types assignable to it: "+a.name()+" from "+b.name())
}

// Bounds: every pair of collection types (arrays with and without sizes, tuples of 1 and 2
// elements, variadic tuples, exact arrays, maps with and without sizes, struct types of 1 and 2
// keys, exact maps) over inclusive integer ranges (exact ones included) and any; arrays of up to 3
// elements and maps over the keys a, b and c, elements arbitrary int64 or a string.
func C10_Collections() {
	ka, kb := nd.Choice(nColl), nd.Choice(nColl)
	nd.Assume((ka < 8) == (kb < 8))
	a := collTy(ka, rangeOrAny, tString)
	b := collTy(kb, rangeOrAny, tString)
	nd.Assume(a.t.Assignable(b.t))
	v := collValue(ka < 8)
	nd.Assume(b.t.Instance(v))
	nd.Reach("assignable")
	nd.Assert(a.t.Instance(v), "a type has every value of the types assignable to it: "+a.name()+" from "+b.name())
}

func checkLogical(a, b *ty) {
	nd.Assume(a.t.Assignable(b.t))
	v := value2()
	nd.Assume(b.has(v))
	nd.Reach("assignable")
	nd.Assert(a.t.Instance(v), "a type has every value of the types assignable to it: "+a.sketch()+" from "+b.sketch())
}

// Bounds: receiver and argument: inclusive integer ranges, string, any or, for one of the two,
// allOf or anyOf (for the argument also oneOf and not) of these; every int64 and a string.
func C10_Logical() {
	d := nd.Choice(2)
	checkLogical(logicTy(d, false), logicTy(1-d, true))
}

// Bounds: receiver: allOf or anyOf of two inclusive integer ranges; argument: allOf, anyOf, oneOf
// or not of such; every int64 and a string.
func C10T_LogicalRanges() {
	var a, b *ty
	if nd.Choice(2) == 0 {
		a = tAllOf(tRange(), tRange())
	} else {
		a = tAnyOf(tRange(), tRange())
	}
	switch nd.Choice(4) {
	case 0:
		b = tAllOf(tRange(), tRange())
	case 1:
		b = tAnyOf(tRange(), tRange())
	case 2:
		b = tOneOf(tRange(), tRange())
	default:
		b = tNot(tRange())
	}
	checkLogical(a, b)
}

// Bounds: as Logical, both of them compound.
func C10T_LogicalBoth() { checkLogical(logicTy(1, false), logicTy(1, true)) }

// Bounds: not and oneOf as receivers: of ranges that are disjoint from, or contain, the argument
// range; every int64.
func C10_Negation() {
	x, y, b := tRange(), tRange(), tRange()
	apart := func(p, q *ty) bool { return nd.Or(p.hi < q.lo, q.hi < p.lo) }
	within := func(p, q *ty) bool { return nd.And(p.lo <= q.lo, q.hi <= p.hi) }
	nd.Assume(nd.Or(apart(x, b), within(x, b)))
	var a *ty
	if nd.Choice(2) == 0 {
		a = tNot(x)
	} else {
		nd.Assume(nd.Or(apart(y, b), within(y, b)))
		a = tOneOf(x, y)
	}
	nd.Assume(a.t.Assignable(b.t))
	v := vf.Integer(nd.Int64())
	nd.Assume(b.has(v))
	nd.Reach("assignable")
	nd.Assert(a.t.Instance(v), "a type has every value of the types assignable to it: "+a.name())
}

// Bounds: as Negation, ranges that overlap in any way.
func C10_NegationOverlap() {
	x, y, b := tRange(), tRange(), tRange()
	var a *ty
	if nd.Choice(2) == 0 {
		a = tNot(x)
	} else {
		a = tOneOf(x, y)
	}
	nd.Assume(a.t.Assignable(b.t))
	v := vf.Integer(nd.Int64())
	nd.Assume(b.has(v))
	nd.Reach("assignable")
	nd.Assert(a.t.Instance(v), "a type has every value of the types assignable to it: "+a.k+" from "+b.k)
}

// Bounds: a type and the values of it: every flat type and every scalar; the type is assignable
// from the exact type of every value it has, and from no other.
func C10_FlatExact() {
	a := flatTy(nd.Choice(nFlat))
	v := scalar()
	nd.Reach("exact")
	nd.Assert(a.t.Assignable(v.Type()) == a.t.Instance(v), "assignable from the exact types of its values: "+a.name())
}

// Bounds: as FlatExact for collection types of kinds as in Collections; the collections include the empty ones.
func C10_CollectionExact() {
	k := nd.Choice(nColl)
	a := collTy(k, rangeOrAny, tString)
	v := collValue(k < 8)
	nd.Reach("exact")
	nd.Assert(a.t.Assignable(v.Type()) == a.t.Instance(v), "assignable from the exact types of its values: "+a.name())
}

// Bounds: unions nested up to 5 deep over array types.
func C10_DeepUnion() {
	leaf := func() *ty {
		if nd.Choice(2) == 0 {
			return tArrayOf(tInt())
		}
		return tArrayOf(tString())
	}
	b := leaf()
	n := nd.Choice(5)
	for i := 0; i < n; i++ {
		if nd.Choice(2) == 0 {
			b = tAnyOf(b, tArrayOf(tInt()))
		} else {
			b = tAnyOf(tArrayOf(tInt()), b)
		}
	}
	a := tArrayOf(tInt())
	if nd.Choice(2) == 0 {
		a = tAnyOf(a, tArrayOf(tFloat()))
	}
	nd.Assume(a.t.Assignable(b.t))
	v := vf.Values("x")
	if nd.Choice(2) == 0 {
		v = vf.Values(nd.Int64())
	}
	nd.Assume(b.has(v))
	nd.Reach("assignable")
	nd.Assert(a.t.Instance(v), "a type has every value of the types assignable to it: "+a.name()+" from nested unions")
}
