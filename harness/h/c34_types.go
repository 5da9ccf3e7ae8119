package h

import (
	"errors"
	"math"
	"regexp"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// C34_Integer: the default integer type, any range (bounds in either order, inclusive or not),
// any exact type, a range out of a notation, and the type of each Go integer kind, with any
// int64: IsInstance, Instance and Min, Max and Inclusive tell the same.
func C34_Integer() {
	var t dgo.IntegerType
	switch k := nd.Choice(6); k {
	case 0:
		t = typ.Integer
	case 1:
		a, b, incl := nd.Int64(), nd.Int64(), nd.Choice(2) == 0
		nd.Assume(nd.Or(incl, a != b))
		t = tf.Integer(a, b, incl)
		lo, hi := swap(a, b)
		full := nd.And(lo == math.MinInt64, hi == math.MaxInt64)
		nd.Assert(nd.And(t.Min() == lo, t.Max() == hi), "the limits of the range")
		nd.Assert(nd.Or(nd.Or(full, a == b), t.Inclusive() == incl), "inclusive")
	case 2:
		i := nd.Int64()
		t = vf.Integer(i).Type().(dgo.IntegerType)
		nd.Assert(nd.And(nd.And(t.Min() == i, t.Max() == i), t.Inclusive()), "limits of the exact type")
	case 3:
		t = tf.ParseType(`-3..4`).(dgo.IntegerType)
	case 4:
		t = tf.ParseType(`-3...4`).(dgo.IntegerType)
	default:
		t = typ.Generic(vf.Integer(nd.Int64()).Type()).(dgo.IntegerType)
		nd.Assert(t == typ.Integer, "generic integer")
	}
	x := nd.Int64()
	is := t.IsInstance(x)
	below := nd.Or(x < t.Max(), nd.And(t.Inclusive(), x == t.Max()))
	nd.Assert(is == nd.And(t.Min() <= x, below), "an instance is within the limits")
	nd.Assert(is == t.Instance(vf.Integer(x)), "Instance of the value")
	nd.Assert(is == t.Instance(x), "Instance of the Go value")
	nd.Assert(!t.Instance(vf.Float(1)), "a float is not an integer")
}

// C34_Float: the default float type, any range over finite bounds, any exact type, a range out
// of a notation: IsInstance, Instance, and Min, Max and Inclusive tell the same about any finite
// number.
func C34_Float() {
	var t dgo.FloatType
	switch nd.Choice(5) {
	case 0:
		t = typ.Float
	case 1:
		a, b, incl := number(), number(), nd.Choice(2) == 0
		nd.Assume(nd.And(nd.And(a-a == 0, b-b == 0), nd.Or(incl, a != b)))
		t = tf.Float(a, b, incl)
		lo, hi := a, b
		if b < a {
			lo, hi = b, a
		}
		full := nd.And(lo == -math.MaxFloat64, hi == math.MaxFloat64)
		nd.Assert(nd.And(t.Min() == lo, t.Max() == hi), "the limits of the range")
		nd.Assert(nd.Or(nd.Or(full, a == b), t.Inclusive() == incl), "inclusive")
	case 2:
		f := number()
		t = vf.Float(f).Type().(dgo.FloatType)
		nd.Assert(nd.And(nd.And(t.Min() == f, t.Max() == f), t.Inclusive()), "limits of the exact type")
	case 3:
		t = tf.ParseType(`-3.5..4.25`).(dgo.FloatType)
	default:
		t = tf.ParseType(`-3.5...4.25`).(dgo.FloatType)
	}
	x := number()
	nd.Assume(x-x == 0)
	is := t.IsInstance(x)
	below := nd.Or(x < t.Max(), nd.And(t.Inclusive(), x == t.Max()))
	nd.Assert(is == nd.And(t.Min() <= x, below), "an instance is within the limits")
	nd.Assert(is == t.Instance(vf.Float(x)), "Instance of the value")
	nd.Assert(is == t.Instance(x), "Instance of the Go value")
	nd.Assert(!t.Instance(vf.Integer(1)), "an integer is not a float")
}

// C34_Scalars: booleans, strings of a size or pattern, binaries, times, regexps and errors: the
// type's IsInstance of the Go value is its Instance of that and of the dgo value.
func C34_Scalars() {
	switch nd.Choice(6) {
	case 0:
		b := nd.Bool()
		for _, t := range []dgo.Type{typ.Boolean, typ.True, typ.False, vf.Boolean(nd.Bool()).Type()} {
			is := t.(dgo.BooleanType).IsInstance(b)
			nd.Assert(is == t.Instance(vf.Boolean(b)), "Instance of the boolean")
			nd.Assert(is == t.Instance(b), "Instance of the Go boolean")
			nd.Assert(!t.Instance(vf.String("true")), "a string is not a boolean")
		}
	case 1:
		s := asciiUpTo(3)
		t := tSized().t
		if nd.Choice(2) == 0 {
			t = tf.Pattern(regexp.MustCompile(`^[a-c]+$`))
		}
		if it, ok := t.(interface{ IsInstance(string) bool }); ok {
			is := it.IsInstance(s)
			nd.Assert(is == t.Instance(vf.String(s)), "Instance of the string")
			nd.Assert(is == t.Instance(s), "Instance of the Go string")
		}
	case 2:
		bs := bytesN(nd.Choice(4))
		t := flatTy(14 + nd.Choice(2)).t
		is := t.(dgo.BinaryType).IsInstance(bs)
		nd.Assert(is == t.Instance(vf.Binary(bs, nd.Choice(2) == 0)), "Instance of the binary")
		nd.Assert(is == t.Instance(bs), "Instance of the bytes")
	case 3:
		ta, tb := time.Unix(nd.Int64(), between(0, 999999999)), time.Unix(nd.Int64(), between(0, 999999999))
		t := vf.Time(ta).Type()
		is := t.(dgo.TimeType).IsInstance(tb)
		nd.Assert(is == ta.Equal(tb), "a time is an instance of the type of an equal time")
		nd.Assert(is == t.Instance(vf.Time(tb)), "Instance of the time value")
		nd.Assert(is == t.Instance(tb), "Instance of the Go time")
		nd.Assert(is == t.Instance(&tb), "Instance of the pointer to a time")
		nd.Assert(typ.Time.Instance(tb) && typ.Time.Instance(vf.Time(tb)), "every time is a time")
	case 4:
		xs := []string{"a+", "b", ""}
		ra, rb := regexp.MustCompile(xs[nd.Choice(3)]), regexp.MustCompile(xs[nd.Choice(3)])
		t := vf.Regexp(ra).Type()
		is := t.(dgo.RegexpType).IsInstance(rb)
		nd.Assert(is == (ra.String() == rb.String()), "a regexp is an instance of the type of an equal regexp")
		nd.Assert(is == t.Instance(vf.Regexp(rb)), "Instance of the regexp value")
		nd.Assert(is == t.Instance(rb), "Instance of the Go regexp")
		nd.Assert(typ.Regexp.Instance(rb) && typ.Regexp.Instance(vf.Regexp(rb)), "every regexp is a regexp")
		nd.Assert(typ.Regexp.(dgo.RegexpType).IsInstance(rb), "IsInstance of a regexp")
	default:
		sa, sb := asciiUpTo(1), asciiUpTo(1)
		ea, eb := errors.New(sa), errors.New(sb)
		t := vf.Value(ea).Type()
		is := t.(dgo.ErrorType).IsInstance(eb)
		nd.Assert(is == (sa == sb), "an error is an instance of the type of an equal error")
		nd.Assert(is == t.Instance(vf.Value(eb)), "Instance of the error value")
		nd.Assert(is == t.Instance(eb), "Instance of the Go error")
		nd.Assert(typ.Error.Instance(eb) && typ.Error.Instance(vf.Value(eb)), "every error is an error")
		nd.Assert(typ.Error.(dgo.ErrorType).IsInstance(eb), "IsInstance of an error")
	}
}

// limits are the sizes that the model says a type has.
func (t *ty) limits() (lo, hi int64) {
	switch t.k {
	case "string":
		return 0, math.MaxInt64
	case "string=":
		return int64(len(t.s)), int64(len(t.s))
	case "ci":
		return int64(len(t.s)), int64(len(t.s))
	case "binary=":
		return int64(len(t.bs)), int64(len(t.bs))
	case "tuple":
		return int64(len(t.sub)), int64(len(t.sub))
	case "variadic":
		return int64(len(t.sub)) - 1, math.MaxInt64
	case "struct":
		for _, r := range t.req {
			if r {
				lo++
			}
		}
		if t.add {
			return lo, math.MaxInt64
		}
		return lo, int64(len(t.req))
	}
	return t.lo, t.hi
}

// C34_Sized: any type with a size: a string type (default, of sizes -1..3 in either order,
// exact, case independent), a binary type, and the 13 kinds of collection types over integer
// ranges: Min and Max are the sizes it was made from, Unbounded tells whether it is without
// limits (tuples: whether it is variadic), and every instance of 0 to 3 elements or bytes has a
// size between them.
func C34_Sized() {
	var t *ty
	var v dgo.Value
	switch nd.Choice(3) {
	case 0:
		t = flatTy([]int{7, 8, 9, 10}[nd.Choice(4)])
		v = vf.String(asciiUpTo(3))
	case 1:
		t = flatTy(14 + nd.Choice(2))
		v = vf.Binary(bytesN(nd.Choice(4)), true)
	default:
		k := nd.Choice(nColl + 2)
		switch k {
		case nColl:
			t = tStruct(nd.Choice(2) == 0, nil)
		case nColl + 1:
			t = tMapIs(nd.Int64(), nd.Int64())
		default:
			t = collTy(k, rangeOrAny, tString)
		}
		if t.t.Equals(typ.Map) || t.t.Equals(typ.Array) {
			return
		}
		v = collValue(t.k == "array" || t.k == "tuple" || t.k == "variadic")
	}
	st := t.t.(dgo.SizedType)
	lo, hi := t.limits()
	nd.Assert(nd.And(int64(st.Min()) == lo, int64(st.Max()) == hi), "the limits of "+t.sketch())
	if t.k == "variadic" {
		nd.Assert(st.Unbounded(), "a variadic tuple is unbounded")
	} else {
		nd.Assert(st.Unbounded() == nd.And(lo == 0, hi == math.MaxInt64), "unbounded "+t.sketch())
	}
	if st.Instance(v) {
		n := 0
		switch v := v.(type) {
		case dgo.String:
			n = len(v.GoString())
		case dgo.Binary:
			n = len(v.GoBytes())
		case dgo.Iterable:
			n = v.Len()
		}
		nd.Assert(nd.And(st.Min() <= n, n <= st.Max()), "the size of an instance of "+t.sketch())
	}
}

// sameMeaning tells whether the types decide alike about the integers x and y, and strings.
func sameMeaning(a dgo.Type, b *ty, vs ...dgo.Value) bool {
	for _, v := range vs {
		if a.Instance(v) != b.has(v) {
			return false
		}
	}
	return true
}

// C34_Parts: any of the 13 kinds of collection types (and {} structs) over ranges of integers
// and strings: what the type says about its parts (ElementType, KeyType, ValueType, Len,
// Element, ElementTypes, Variadic, Additional, Get, Each, Required) is what it was made from.
func C34_Parts() {
	x := vf.Integer(nd.Int64())
	s := vf.String("x")
	probe := func(p dgo.Type, m *ty, label string) {
		nd.Assert(p.Instance(x) == m.has(x), label+" (integer)")
		nd.Assert(p.Instance(s) == m.has(s), label+" (string)")
	}
	k := nd.Choice(nColl + 2)
	var t *ty
	switch k {
	case nColl:
		t = tStruct(nd.Choice(2) == 0, nil)
	case nColl + 1:
		t = tMapIs(nd.Int64(), nd.Int64())
	default:
		t = collTy(k, rangeOrAny, tString)
	}
	n := len(t.sub)
	all := func(ts ...*ty) *ty {
		if len(ts) == 0 {
			return tAny()
		}
		return &ty{k: "allof", sub: ts}
	}
	switch t.k {
	case "array":
		probe(t.t.(dgo.ArrayType).ElementType(), t.sub[0], "the element type of "+t.sketch())
	case "map":
		m := t.t.(dgo.MapType)
		probe(m.KeyType(), t.sub[0], "the key type of "+t.sketch())
		probe(m.ValueType(), t.sub[1], "the value type of "+t.sketch())
	case "tuple", "variadic":
		if t.t.Equals(typ.Array) {
			return
		}
		tt := t.t.(dgo.TupleType)
		nd.Assert(tt.Len() == n && tt.ElementTypes().Len() == n, "the length of a tuple")
		nd.Assert(tt.Variadic() == (t.k == "variadic"), "variadic")
		for i, e := range t.sub {
			probe(tt.Element(i), e, "an element of a tuple")
			probe(tt.ElementTypes().Get(i).(dgo.Type), e, "one of the element types")
		}
		probe(tt.ElementType(), all(t.sub...), "the element type of "+t.sketch())
	case "struct":
		st := t.t.(dgo.StructMapType)
		nd.Assert(st.Len() == n, "the length of a struct")
		nd.Assert(st.Additional() == t.add, "additional")
		nd.Assert(st.Get("z") == nil, "an entry that isn't there")
		i := 0
		st.Each(func(e dgo.StructMapEntry) {
			key := string(rune('a' + i))
			nd.Assert(e.Key().Equals(vf.String(key).Type()), "the key of an entry")
			nd.Assert(e.Required() == t.req[i], "required")
			probe(e.Value().(dgo.Type), t.sub[i], "the type of an entry")
			for _, g := range []dgo.StructMapEntry{st.Get(key), st.Get(vf.String(key)), st.Get(vf.String(key).Type())} {
				nd.Assert(g != nil, "an entry by its key")
				nd.Assert(g.Key().Equals(e.Key()) && g.Required() == t.req[i], "the entry with the key")
				probe(g.Value().(dgo.Type), t.sub[i], "the type of the entry with the key")
			}
			i++
		})
		nd.Assert(i == n, "all entries were shown")
		if t.add {
			probe(st.KeyType(), tAny(), "the key type of an open struct")
			probe(st.ValueType(), tAny(), "the value type of an open struct")
		} else {
			ks := make([]*ty, n)
			for i := range ks {
				ks[i] = &ty{k: "string=", s: string(rune('a' + i))}
			}
			probe(st.KeyType(), all(ks...), "the key type of "+t.sketch())
			probe(st.ValueType(), all(t.sub...), "the value type of "+t.sketch())
		}
	}
}

// C34_Exact: the type of any scalar, or of an array or map of up to two of them: it is exact,
// its exact value equals the value, exactly the equal values are instances of it, and its type
// identifier is the one of all values of the same kind and no other.
func C34_Exact() {
	kinds := nScalar + 2
	mk := func(k int) dgo.Value {
		switch k {
		case nScalar:
			a := vf.MutableValues()
			for i := nd.Choice(3); i > 0; i-- {
				a.Add(small())
			}
			return a.FrozenCopy()
		case nScalar + 1:
			m := vf.MutableMap()
			for i := nd.Choice(3); i > 0; i-- {
				m.Put(string(rune('a'+i)), small())
			}
			return m.FrozenCopy()
		}
		return scalarK(k)
	}
	k := nd.Choice(kinds)
	v := mk(k)
	l := nd.Choice(kinds)
	w := mk(l)
	t := v.Type()
	nd.Assert(dgo.IsExact(t), "the type of a value is exact")
	nd.Assert(typ.ExactValue(t).Equals(v), "the exact value")
	nd.Assert(typ.ExactValue(v).Equals(v), "the exact value of a value")
	nd.Assert(typ.AsType(v).Equals(t) && typ.AsType(t).Equals(t), "AsType")
	if et, ok := t.(dgo.ExactType); ok {
		nd.Assert(et.ExactValue().Equals(v), "ExactValue")
	} else {
		nd.Assert(false, "is an exact type")
	}
	nd.Assert(t.Instance(v), "a value is an instance of its type")
	nd.Assert(t.Instance(w) == v.Equals(w), "the instances of an exact type")
	nd.Assert(t.Equals(w.Type()) == v.Equals(w), "exact types of equal values")
	nd.Assert((t.TypeIdentifier() == w.Type().TypeIdentifier()) == (k == l), "the type identifier")
	g := typ.Generic(t)
	nd.Assert(!dgo.IsExact(g) || k == 4, "the generic type isn't exact")
	nd.Assert(g.Instance(v), "a value is an instance of the generic type")
}

// C34_Operands: not, meta and sensitive of, and all, any and one of two types of the 17 kinds:
// operator and operands are those it was made from, meta types describe what they are the type
// of and have the types as instances that it is assignable from.
func C34_Operands() {
	a, b := flatTy(nd.Choice(nFlat)), flatTy(nd.Choice(nFlat))
	switch nd.Choice(5) {
	case 0:
		u := tf.Not(a.t)
		if un, ok := u.(dgo.UnaryType); ok {
			nd.Assert(un.Operator() == dgo.OpNot && un.Operand().Equals(a.t), "not")
		} else {
			nd.Assert(false, "not is an unary type")
		}
		nd.Assert(u.TypeIdentifier() == dgo.TiNot, "identifier of not")
	case 1:
		u := tf.Sensitive(a.t).(dgo.UnaryType)
		nd.Assert(u.Operator() == dgo.OpSensitive && u.Operand().Equals(a.t), "sensitive")
		nd.Assert(u.TypeIdentifier() == dgo.TiSensitive, "identifier of sensitive")
	case 2:
		m := a.t.Type()
		nd.Assert(m.(dgo.Meta).Describes().Equals(a.t), "what the meta type describes")
		nd.Assert(m.(dgo.UnaryType).Operator() == dgo.OpMeta && m.(dgo.UnaryType).Operand().Equals(a.t), "meta")
		nd.Assert(m.TypeIdentifier() == dgo.TiMeta, "identifier of meta")
		nd.Assert(m.Instance(b.t) == a.t.Assignable(b.t), "the instances of a meta type")
		nd.Assert(m.Assignable(b.t.Type()) == a.t.Equals(b.t), "assignable meta types")
		nd.Assert(typ.AsType(m).Equals(m), "a meta type is a type")
	default:
		nd.Assume(!a.t.Equals(b.t))
		var u dgo.Type
		var op dgo.TypeOp
		var id dgo.TypeIdentifier
		switch nd.Choice(3) {
		case 0:
			u, op, id = tf.AllOf(a.t, b.t), dgo.OpAnd, dgo.TiAllOf
		case 1:
			u, op, id = tf.AnyOf(a.t, b.t), dgo.OpOr, dgo.TiAnyOf
		default:
			u, op, id = tf.OneOf(a.t, b.t), dgo.OpOne, dgo.TiOneOf
		}
		tt := u.(dgo.TernaryType)
		nd.Assert(tt.Operator() == op && u.TypeIdentifier() == id, "the operator")
		os := tt.Operands()
		nd.Assert(os.Len() == 2 && os.Get(0).Equals(a.t) && os.Get(1).Equals(b.t), "the operands")
	}
}
