package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

func checkHas(t *ty, v dgo.Value) {
	nd.Reach("has")
	nd.Assert(t.t.Instance(v) == t.has(v), "a value is an instance exactly when it belongs to the type: "+t.sketch())
}

// Bounds: allOf, anyOf, oneOf of two and not over inclusive integer ranges, string and any; every
// int64 and a string.
func C14_Logical() { checkHas(logicTy(1, true), value2()) }

// Bounds: allOf, anyOf, oneOf and not over a range and one of these over ranges and string; every int64
// and a string.
func C14_LogicalNested() {
	leaf := func() *ty {
		if nd.Choice(2) == 0 {
			return tString()
		}
		return tRange()
	}
	var d *ty
	switch nd.Choice(4) {
	case 0:
		d = tAllOf(leaf(), leaf())
	case 1:
		d = tAnyOf(leaf(), leaf())
	case 2:
		d = tOneOf(leaf(), leaf())
	default:
		d = tNot(leaf())
	}
	switch nd.Choice(4) {
	case 0:
		d = tNot(d)
	case 1:
		d = tAnyOf(tRange(), d)
	case 2:
		d = tOneOf(d, tRange())
	default:
		d = tAllOf(tRange(), d)
	}
	checkHas(d, value2())
}

// Bounds: as Logical, both operands compound.
func C14T_LogicalDeep() { checkHas(logicTy(2, true), value2()) }

// Bounds: allOf, anyOf and oneOf of 0 to 3 integer ranges, float and an exact string; every
// int64, a float and every ASCII string of 1 byte.
func C14_Many() {
	n := nd.Choice(4)
	ts := make([]*ty, n)
	for i := range ts {
		switch nd.Choice(3) {
		case 0:
			ts[i] = tRange()
		case 1:
			ts[i] = tFloat()
		default:
			ts[i] = tStringIs("x")
		}
	}
	var v dgo.Value
	switch nd.Choice(3) {
	case 0:
		v = vf.Integer(nd.Int64())
	case 1:
		v = vf.Float(1.5)
	default:
		v = vf.String(ascii(1))
	}
	var t *ty
	switch nd.Choice(3) {
	case 0:
		t = tAllOf(ts...)
	case 1:
		t = tAnyOf(ts...)
	default:
		t = tOneOf(ts...)
	}
	nd.Reach("has")
	want := t.has(v)
	nd.Assert(t.t.Instance(v) == want, "a value is an instance exactly when it belongs to the type: "+t.k)
	if n > 1 {
		o := t.t.(dgo.TernaryType)
		nd.Assert(o.Operands().Len() == n, "the operands are the given types")
		if n == 2 {
			i := nd.Choice(2)
			nd.Assert(o.Operands().Get(i).Equals(ts[i].t), "the operands are the given types")
		}
	}
}

// Bounds: not of every flat type against every scalar; double negation.
func C14_Not() {
	a := flatTy(nd.Choice(nFlat))
	v := scalar()
	nd.Reach("not")
	n := tf.Not(a.t)
	nd.Assert(n.Instance(v) == !a.has(v), "not has exactly the values that the type does not have: "+a.k)
	nd.Assert(tf.Not(n).Equals(a.t), "double negation is the type itself: "+a.k)
	nd.Assert(tf.Not(n).Instance(v) == a.has(v), "double negation is the type itself: "+a.k)
}

// Bounds: anyOf and allOf of two integer ranges or string: against the laws of boolean algebra.
func C14_Laws() {
	a, b := logicTy(0, true), logicTy(0, true)
	v := value2()
	nd.Reach("laws")
	or, and, one := tf.AnyOf(a.t, b.t), tf.AllOf(a.t, b.t), tf.OneOf(a.t, b.t)
	nd.Assert(or.Equals(tf.AnyOf(b.t, a.t)) && and.Equals(tf.AllOf(b.t, a.t)) && one.Equals(tf.OneOf(b.t, a.t)), "the order of the operands is not significant")
	nd.Assert(tf.Not(or).Instance(v) == tf.AllOf(tf.Not(a.t), tf.Not(b.t)).Instance(v), "not(a|b) has the values of not a & not b")
	nd.Assert(tf.Not(and).Instance(v) == tf.AnyOf(tf.Not(a.t), tf.Not(b.t)).Instance(v), "not(a&b) has the values of not a | not b")
	nd.Assert(one.Instance(v) == (or.Instance(v) && !and.Instance(v)), "a^b has the values of a|b but not those of a&b")
	nd.Assert(or.Assignable(a.t) && or.Assignable(b.t), "a|b is assignable from a and from b")
}
