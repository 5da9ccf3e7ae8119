package h

import (
	"errors"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

type plainError string

func (e plainError) Error() string { return string(e) }

type wrapError struct{ err error }

func (e *wrapError) Error() string { return e.err.Error() }
func (e *wrapError) Unwrap() error { return e.err }

var errTypes = []func() dgo.Type{
	func() dgo.Type { return typ.Integer },
	func() dgo.Type { return tf.Integer(1, 3, true) },
	func() dgo.Type { return tf.String(1, 2) },
	func() dgo.Type { return tf.Array(typ.String, 0, 1) },
	func() dgo.Type { return tf.AnyOf(typ.String, typ.Nil) },
}

func errStruct(k int) dgo.StructMapType {
	if k == 0 {
		return tf.StructMap(false)
	}
	return tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, true))
}

func errValue(k int) dgo.Value {
	return []dgo.Value{vf.Integer(4), vf.String("a b"), vf.Values(1, "x"), vf.True, vf.Nil, vf.Map("a", 2)}[k]
}

// anError is an arbitrary error value and what tells it from the others.
func anError(k int) (dgo.Value, string, string) {
	switch k {
	case 0, 1, 2:
		s := []string{"", "a", "size constraint violation on type int when attempting resize to 0"}[nd.Choice(3)]
		switch k {
		case 0:
			return vf.Value(errors.New(s)), "plain", s
		case 1:
			return vf.Value(plainError(s)), "plain", s
		default:
			return vf.Value(&wrapError{plainError(s)}), "plain", s
		}
	case 3:
		i, n := nd.Choice(len(errTypes)), nd.Choice(2)
		return tf.IllegalSize(errTypes[i](), n), "size", string([]byte{'0' + byte(i), '0' + byte(n)})
	case 4:
		i, n := nd.Choice(len(errTypes)), nd.Choice(6)
		return tf.IllegalAssignment(errTypes[i](), errValue(n)), "assignment", string([]byte{'0' + byte(i), '0' + byte(n)})
	default:
		i, n := nd.Choice(2), nd.Choice(6)
		return tf.IllegalMapKey(errStruct(i), errValue(n)), "key", string([]byte{'0' + byte(i), '0' + byte(n)})
	}
}

// C36_Equal: Bounds: every pair of error values out of 4 kinds (Go errors of 3 types with 3
// texts, one of them that of a size violation; size, assignment and map key violations of 5 or 2
// types with 2 sizes or 6 values), made apart: equal, with equal hash codes, exactly when made
// from the same.
func C36_Equal() {
	a, ka, sa := anError(nd.Choice(6))
	b, kb, sb := anError(nd.Choice(6))
	same := ka == kb && sa == sb
	nd.Assert(a.Equals(a) && a.HashCode() == a.HashCode(), "an error equals itself")
	nd.Assert(a.Equals(b) == same, "errors are equal when they are made from the same")
	nd.Assert(b.Equals(a) == a.Equals(b), "equality of errors is symmetric")
	nd.Assert(!same || a.HashCode() == b.HashCode(), "equal errors have equal hash codes")
	nd.Assert(vf.Values(a, 1).Equals(vf.Values(b, 1)) == same, "arrays of errors")
	m := vf.MutableMap()
	m.Put(a, 1)
	nd.Assert((m.Get(b) != nil) == same, "an error as key")
	for _, v := range []dgo.Value{vf.String(a.String()), vf.Nil, vf.Integer(1), a.Type()} {
		nd.Assert(!a.Equals(v) && !v.Equals(a), "an error isn't anything else")
	}
	nd.Assert(a.Type().Equals(b.Type()) == same || ka != "plain" && kb != "plain", "the types of errors")
}

// C36_Value: Bounds: the error values as in Equal: they are Go errors whose text is the one they
// were made from or names the type and the value or size, instances of their type and of error,
// and are passed to Go as errors.
func C36_Value() {
	k := nd.Choice(6)
	v, what, s := anError(k)
	e, ok := v.(error)
	nd.Assert(ok, "an error value is an error")
	nd.Assert(v.String() == e.Error(), "the string form of an error is its text")
	n := 0
	if what != "plain" {
		n = int(s[1] - '0')
	}
	switch what {
	case "plain":
		nd.Assert(e.Error() == s, "the text of an error")
	case "size":
		nd.Assert(strings.Contains(e.Error(), errTypes[s[0]-'0']().String()) && strings.HasSuffix(e.Error(), " "+string([]byte{s[1]})), "the text of a size violation")
	case "assignment":
		nd.Assert(strings.HasSuffix(e.Error(), " "+errTypes[s[0]-'0']().String()), "an assignment violation names the type")
		nd.Assert(strings.Contains(e.Error(), errValue(n).String()), "an assignment violation names the value")
	default:
		nd.Assert(strings.Contains(e.Error(), errStruct(int(s[0]-'0')).String()), "a map key violation names the type")
		nd.Assert(strings.Contains(e.Error(), errValue(n).Type().String()), "a map key violation names the key")
	}
	t := v.Type()
	nd.Assert(t.Instance(v) && typ.Error.Instance(v) && typ.Generic(t).Equals(typ.Error), "an error is an instance of its type")
	nd.Assert(typ.Error.Assignable(t) && t.Assignable(t), "an error type is assignable")
	nd.Assert(!typ.String.Instance(v) && !typ.Nil.Instance(v), "an error is not a string")
	nd.Assert(vf.Value(v) == v && vf.Value(e) == v, "an error value is its own value")
	for _, f := range []dgo.Value{vf.Values(v), vf.Map("a", v)} {
		c := f.(dgo.Freezable).FrozenCopy().(dgo.Iterable)
		nd.Assert(c.(dgo.Value).Equals(f), "a frozen copy of a collection of errors")
	}
	if what == "plain" {
		var ge error
		vf.ReflectTo(v, reflect.ValueOf(&ge).Elem())
		nd.Assert(ge != nil && ge.Error() == s && vf.Value(ge).Equals(v), "an error in Go")
		u := errors.Unwrap(e)
		if k == 2 {
			nd.Assert(u == plainError(s), "what an error wraps")
		} else {
			nd.Assert(u == nil, "an error that wraps nothing")
		}
		et := t.(dgo.ExactType)
		nd.Assert(et.ExactValue() == v && dgo.IsExact(t), "the exact type of an error")
		nd.Assert(t.(dgo.ErrorType).IsInstance(errors.New(s)) && !t.(dgo.ErrorType).IsInstance(errors.New(s+"x")), "instances of the type of an error")
		nd.Assert(t.Instance(plainError(s)) && !t.Instance(plainError("x"+s)) && !t.Instance(s), "values of the type of an error")
		nd.Assert(strings.HasPrefix(t.String(), "error["), "the string form of the type of an error")
	}
}

// C36_Raised: Bounds: 11 types that are asked for values or texts that they do not have: New
// panics with an error value that equals the violation with the type and value.
func C36_Raised() {
	type c struct {
		t    dgo.Type
		v, w dgo.Value
	}
	cs := []c{
		{tf.Integer(1, 3, true), vf.Integer(4), vf.Integer(4)},
		{tf.Integer(1, 3, true), vf.String("16"), vf.Integer(16)},
		{tf.Float(1, 3, true), vf.Float(4), vf.Float(4)},
		{tf.String(2, 3), vf.String("a"), vf.String("a")},
		{tf.Array(typ.String), vf.Values(1), vf.Values(1)},
		{tf.Array(typ.Any, 2, 3), vf.Values(1), vf.Values(1)},
		{tf.Map(typ.String, typ.String), vf.Map("a", 1), vf.Map("a", 1)},
		{typ.True, vf.String("false"), vf.False},
		{tf.Binary(2, 3), vf.Binary([]byte{1}, true), vf.Binary([]byte{1}, true)},
		{typ.Integer.Type(), vf.String("string"), typ.String},
		{vf.Integer(3).Type(), vf.Integer(5), vf.Integer(5)},
	}
	x := cs[nd.Choice(len(cs))]
	var r interface{}
	func() {
		defer func() { r = recover() }()
		vf.New(x.t, x.v)
	}()
	e, ok := r.(dgo.Value)
	nd.Assert(ok, "a violation is raised")
	nd.Assert(e.Equals(tf.IllegalAssignment(x.t, x.w)), "the violation tells the type and value")
	_, ok = r.(error)
	nd.Assert(ok, "a raised violation is an error")
}
