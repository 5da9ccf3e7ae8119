package h

import (
	"math"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const (
	c33Reg    = "the registry of named types is a dictionary: "
	c33Assign = "assignability of named types follows their Go types: "
	c33New    = "New gives an instance of the named type: "
	c33Text   = "the text of a named value denotes its type: "
	c33Eq     = "named types are equal when name, parameters and value are: "
)

// values of user defined types
type c33Able interface{ Able() }

type c33Int int64

func (a c33Int) String() string                { return a.Type().(dgo.NamedType).ValueString(a) }
func (a c33Int) Type() dgo.Type                { return tf.ExactNamed(tf.Named(`vInt`), a) }
func (a c33Int) Equals(other interface{}) bool { b, ok := other.(c33Int); return ok && a == b }
func (a c33Int) HashCode() int                 { return int(a) }
func (a c33Int) Able()                         {}

type c33Box struct{ v dgo.Value }

func (a *c33Box) String() string { return a.Type().(dgo.NamedType).ValueString(a) }
func (a *c33Box) Type() dgo.Type { return tf.ExactNamed(tf.Named(`vBox`), a) }
func (a *c33Box) Equals(other interface{}) bool {
	b, ok := other.(*c33Box)
	return ok && a.v.Equals(b.v)
}
func (a *c33Box) HashCode() int { return a.v.HashCode() + 1 }

type c33Other struct{ c33Int }

func intArg(arg dgo.Value) int64 {
	if as, ok := arg.(dgo.Arguments); ok {
		as.AssertSize(`vInt`, 1, 1)
		arg = as.Get(0)
	}
	return vf.New(typ.Integer, arg).(dgo.Integer).GoInt()
}

func newVInt(check dgo.AssignableChecker) dgo.NamedType {
	return tf.NewNamed(`vInt`,
		func(arg dgo.Value) dgo.Value { return c33Int(intArg(arg)) },
		func(v dgo.Value) dgo.Value { return vf.Integer(int64(v.(c33Int))) },
		reflect.TypeOf(c33Int(0)), nil, check)
}

func newVBox() dgo.NamedType {
	return tf.NewNamed(`vBox`,
		func(arg dgo.Value) dgo.Value {
			if as, ok := arg.(dgo.Arguments); ok {
				arg = as.Get(0)
			}
			return &c33Box{arg}
		},
		func(v dgo.Value) dgo.Value { return v.(*c33Box).v },
		reflect.TypeOf(&c33Box{}), nil, nil)
}

func removeNamed() {
	for _, n := range []string{`vInt`, `vBox`, `vAble`, `vBare`, `vBlank`, `vOther`} {
		tf.RemoveNamed(n)
	}
}

// inRange is a checker for types that are parameterized with a range of integers.
func inRange(self dgo.NamedType, other dgo.Type) bool {
	ot, ok := other.(dgo.NamedType)
	if !ok || ot.Name() != self.Name() {
		return false
	}
	bounds := func(t dgo.NamedType) (int64, int64) {
		if et, ok := t.(dgo.ExactType); ok {
			i := int64(et.ExactValue().(c33Int))
			return i, i
		}
		if ps := t.Parameters(); ps != nil {
			return ps.Get(0).(dgo.Integer).GoInt(), ps.Get(1).(dgo.Integer).GoInt()
		}
		return math.MinInt64, math.MaxInt64
	}
	sl, sh := bounds(self)
	ol, oh := bounds(ot)
	return sl <= ol && oh <= sh
}

// C33_Registry: every sequence of 3 registrations and removals of 3 names and 2 Go types: a name that is registered is refused and keeps its type, lookups by name, by Go type and by the parser find what is registered and nothing else.
func C33_Registry() { c33Registry(3) }

// C33T_Registry: the same with 5 steps.
func C33T_Registry() { c33Registry(5) }

func c33Registry(n int) {
	defer removeNamed()
	names := []string{`vInt`, `vBox`, `vBare`}
	rts := []reflect.Type{reflect.TypeOf(c33Int(0)), reflect.TypeOf(&c33Box{}), nil}
	var ref [3]dgo.NamedType
	for i := 0; i < n; i++ {
		at := nd.Choice(3)
		if nd.Choice(3) > 0 {
			var t dgo.NamedType
			refused := panics(func() { t = tf.NewNamed(names[at], nil, nil, rts[at], nil, nil) })
			nd.Assert(refused == (ref[at] != nil), c33Reg+"a name can be registered once")
			if !refused {
				ref[at] = t
			}
		} else {
			tf.RemoveNamed(names[at])
			ref[at] = nil
		}
	}
	nd.Reach("registry")
	for i, name := range names {
		t := tf.Named(name)
		nd.Assert((t == nil) == (ref[i] == nil), c33Reg+"found iff registered")
		if t != nil {
			nd.Assert(t == ref[i] && t.Name() == name && t.String() == name && t.ReflectType() == rts[i] && t.Parameters() == nil, c33Reg+"the type that was registered")
			nd.Assert(tf.ParseType(name) == dgo.Type(t), c33Reg+"the parser finds it")
			nd.Assert(tf.ParseType(`[]`+name).(dgo.ArrayType).ElementType() == dgo.Type(t), c33Reg+"the parser finds it")
		} else {
			nd.Assert(panics(func() { tf.ParseType(name) }), c33Reg+"the parser does not find it")
		}
		if rts[i] != nil {
			t = tf.NamedFromReflected(rts[i])
			nd.Assert((t == nil) == (ref[i] == nil) && (t == nil || t == ref[i]), c33Reg+"found by Go type")
		}
	}
	nd.Assert(tf.Named(`vOther`) == nil && tf.NamedFromReflected(reflect.TypeOf(1)) == nil, c33Reg+"nothing else")
}

// C33_Assignable: 6 named types (of a Go type, of a pointer type, with an interface type, without a Go type, of a type that embeds another), their exact types with symbolic integers, and 5 other types, against each other: assignable and instance exactly as the Go types are, exact types for equal values only.
func C33_Assignable() {
	defer removeNamed()
	able := reflect.TypeOf((*c33Able)(nil)).Elem()
	type row struct {
		t    dgo.Type
		rt   reflect.Type // implementation
		at   reflect.Type // what is assignable
		name string
		v    dgo.Value // exact
	}
	ti, tb := reflect.TypeOf(c33Int(0)), reflect.TypeOf(&c33Box{})
	to := reflect.TypeOf(&c33Other{})
	vInt, vBox := newVInt(nil), newVBox()
	vAble := tf.NewNamed(`vAble`, nil, nil, to, able, nil)
	vOther := tf.NewNamed(`vOther`, nil, nil, to, nil, nil)
	vBare, vBlank := tf.NewNamed(`vBare`, nil, nil, nil, nil, nil), tf.NewNamed(`vBlank`, nil, nil, nil, able, nil)
	pick := func() row {
		switch nd.Choice(10) {
		case 0:
			return row{vInt, ti, ti, `vInt`, nil}
		case 1:
			return row{vBox, tb, tb, `vBox`, nil}
		case 2:
			return row{vAble, to, able, `vAble`, nil}
		case 3:
			return row{vOther, to, to, `vOther`, nil}
		case 4:
			return row{vBare, nil, nil, `vBare`, nil}
		case 5:
			return row{vBlank, nil, able, `vBlank`, nil}
		case 6:
			v := c33Int(nd.Int64())
			return row{v.Type(), ti, nil, `vInt`, v}
		case 7:
			v := &c33Box{vf.String(ascii(1))}
			return row{v.Type(), tb, nil, `vBox`, v}
		case 8:
			return row{tf.Parameterized(vInt, vf.Values(1, 2)), ti, ti, `vInt`, nil}
		default:
			return row{[]dgo.Type{typ.Any, typ.Integer, typ.String, tf.Array(vInt, 0, 3), typ.Native}[nd.Choice(5)], nil, nil, ``, nil}
		}
	}
	a, b := pick(), pick()
	nd.Assume(a.name != ``)
	var want bool
	switch {
	case b.name == ``:
		want = false
	case a.v != nil:
		want = b.v != nil && a.v.Equals(b.v)
	case a.at == nil || b.rt == nil:
		want = a.name == b.name
	default:
		want = b.rt.AssignableTo(a.at)
	}
	nd.Reach("assignable")
	nd.Assert(a.t.Assignable(b.t) == want, c33Assign+"Assignable")
	if b.v != nil {
		nd.Assert(a.t.Instance(b.v) == want, c33Assign+"Instance")
		nd.Assert(tf.AnyOf(a.t, typ.Integer).Instance(b.v) == want, c33Assign+"instance of any of")
		nd.Assert(tf.Array(a.t, 0, 9).Instance(vf.Values(b.v)) == want, c33Assign+"element")
		nd.Assert(!typ.Integer.Instance(b.v) && !typ.String.Instance(b.v) && typ.Any.Instance(b.v), c33Assign+"other types")
	}
	nd.Assert(a.t.Assignable(a.t) || a.name == `vBlank`, c33Assign+"reflexive")
	nd.Assert(!a.t.Instance(3) && !a.t.Instance(`x`) && !a.t.Instance(nil), c33Assign+"other values")
	nd.Assert(tf.AnyOf(a.t, typ.String).Assignable(b.t) == (want || b.t == typ.String), c33Assign+"any of")
	nd.Assert(a.t.Type().Instance(a.t) && !a.t.Type().Instance(3), c33Assign+"meta type")
	nd.Assert(a.t.Assignable(tf.AnyOf(b.t, b.t)) == want && !a.t.Assignable(tf.AnyOf(b.t, typ.Integer)), c33Assign+"from any of")
}

// C33_Range: a named type with a checker that compares ranges, parameterized with two arbitrary bounds, against values, other parameters, and New: the checker decides.
func C33_Range() {
	defer removeNamed()
	t := newVInt(inRange)
	lo, hi, i := nd.Int64(), nd.Int64(), nd.Int64()
	params := vf.MutableValues(lo, hi)
	p := tf.Parameterized(t, params)
	params.Set(0, math.MinInt64)
	params.Set(1, math.MaxInt64)
	in := nd.And(lo <= i, i <= hi)
	v := c33Int(i)
	nd.Assert(p.Instance(v) == in, c33Assign+"parameterized instance")
	nd.Assert(p.Assignable(v.Type()) == in, c33Assign+"parameterized and exact")
	nd.Assert(t.Instance(v) && t.Assignable(p), c33Assign+"parameterized type is assignable to its named type")
	lo2, hi2 := nd.Int64(), nd.Int64()
	q := tf.Parameterized(t, vf.Values(lo2, hi2))
	nd.Assert(p.Assignable(q) == nd.And(lo <= lo2, hi2 <= hi), c33Assign+"parameters")
	eq := nd.And(lo == lo2, hi == hi2)
	nd.Assert(p.Equals(q) == eq && q.Equals(p) == eq, c33Eq+"parameters")
	if eq {
		nd.Assert(p.HashCode() == q.HashCode(), c33Eq+"hash code")
	}
	nd.Assert(!p.Equals(t) && !t.Equals(p) && typ.Generic(p) == dgo.Type(t) && p.Name() == `vInt`, c33Eq+"parameterized and named")
	var r dgo.Value
	lo, hi, i = pickInt(), pickInt(), pickInt()
	p = tf.Parameterized(t, vf.Values(lo, hi))
	f := failure(func() { r = vf.New(p, vf.Integer(i)) })
	nd.Assert(!crash(f) && (f == "") == (lo <= i && i <= hi), c33New+"parameterized")
	if f == "" {
		nd.Reach("in range")
		nd.Assert(r.Equals(c33Int(i)), c33New+"value")
	} else {
		nd.Reach("out of range")
	}
}

// C33_New: New of a named type, of its exact type for a symbolic value, and of the exact type of a parameterized type, with a symbolic (exact: boundary) integer, a text, one and two arguments: an instance made by the constructor, or a refusal. Types without constructor or extractor refuse.
func C33_New() {
	defer removeNamed()
	t := newVInt(nil)
	i, j := nd.Int64(), int64(0)
	var r dgo.Value
	k := nd.Choice(6)
	if k == 3 || k == 4 {
		i, j = pickInt(), pickInt()
	}
	switch k {
	case 0:
		r = vf.New(t, vf.Integer(i))
		nd.Assert(r.Equals(c33Int(i)) && t.Instance(r), c33New+"integer")
		nd.Assert(t.ExtractInitArg(r).Equals(i), c33New+"the init argument makes the value")
	case 1:
		r = vf.New(t, vf.Arguments(i))
		nd.Assert(r.Equals(c33Int(i)), c33New+"arguments")
	case 2:
		nd.Assert(panics(func() { vf.New(t, vf.Arguments(1, 2)) }) && panics(func() { vf.New(t, vf.String(`x`)) }), c33New+"the constructor refuses")
	case 3:
		var et dgo.Type = c33Int(j).Type()
		f := failure(func() { r = vf.New(et, vf.Integer(i)) })
		nd.Assert((f == "") == (i == j) && !crash(f), c33New+"exact type")
		nd.Assert(f != "" || r.Equals(c33Int(j)), c33New+"exact type")
	case 4:
		et := tf.ExactNamed(tf.Parameterized(t, vf.Values(1)), c33Int(j))
		f := failure(func() { r = vf.New(et, vf.Integer(i)) })
		nd.Assert((f == "") == (i == j) && !crash(f), c33New+"exact parameterized type")
	default:
		b := tf.NewNamed(`vBare`, nil, nil, nil, nil, nil)
		f, g := failure(func() { vf.New(b, vf.Integer(i)) }), failure(func() { b.ExtractInitArg(c33Int(0)) })
		nd.Assert(f != "" && g != "" && !crash(f) && !crash(g), c33New+"no constructor")
		nd.Assert(b.ValueString(c33Int(0)) == `vBare`, c33Text+"no extractor")
	}
	nd.Reach("new")
}

// initArg is data with a notation in the type language.
func initArg(k int) dgo.Value {
	switch k {
	case 0:
		return vf.Integer(pickInt())
	case 1:
		return vf.Float(pickFloat())
	case 2:
		return vf.Boolean(nd.Bool())
	case 3:
		return vf.Nil
	case 4:
		return vf.String([]string{``, `a"b`, `x y`, "\n", "`", `|`}[nd.Choice(6)])
	case 5:
		return vf.Values(1, `a`)
	case 6:
		return vf.Map(`a`, 1, `b`, vf.Values(2.5))
	case 7:
		return vf.Map(1, true)
	case 8:
		return vf.Map()
	case 9:
		return c33Int(3)
	case 10:
		return vf.Values(c33Int(3), &c33Box{vf.String(`x`)})
	default:
		return vf.Map(`a`, 1)
	}
}

const nInitArg = 12

// C33_Text: the string form of the exact type of a named value with every kind of data (boundary numbers, texts, arrays, maps, other named values) as init argument, alone and as part of 12 kinds of types, parses to an equal type.
func C33_Text() {
	defer removeNamed()
	newVInt(nil)
	newVBox()
	v := &c33Box{initArg(nd.Choice(nInitArg))}
	t := v.Type()
	o := c33Int(7).Type()
	switch nd.Choice(13) {
	case 0:
		nd.Assert(t.String() == v.String(), c33Text+"value and exact type")
		want := v.v.String()
		switch v.v.(type) {
		case dgo.Array, dgo.Map:
			want = tf.Named(`vBox`).Name() + want
		default:
			want = tf.Named(`vBox`).Name() + ` ` + want
		}
		_, is := v.v.(dgo.String)
		nd.Assert(is || v.v == vf.Nil || tf.Named(`vBox`).ValueString(v) == want, c33Text+"the name and the init argument")
	case 1:
		t = tf.AnyOf(t, o)
	case 2:
		t = tf.AllOf(t, o)
	case 3:
		t = tf.OneOf(typ.String, t, o)
	case 4:
		t = tf.Not(t)
	case 5:
		t = tf.Array(t, 1, 2)
	case 6:
		t = tf.Map(t, o, 1, 2)
	case 7:
		t = tf.Tuple(t, o)
	case 8:
		t = tf.StructMap(false, tf.StructMapEntry(`a`, t, false), tf.StructMapEntry(`b`, o, true))
	case 9:
		t = t.Type()
	case 10:
		t = tf.Function(tf.Tuple(t, o), tf.Tuple(t))
	case 11:
		t = tf.AnyOf(tf.AllOf(t, tf.Not(o)), tf.Array(t, 0, 4), o)
	default:
		t = vf.Values(v, c33Int(1)).Type()
	}
	nd.Reach("text")
	roundTrip(t, "named")
}

// C33_Stream: a named value with every kind of data as init argument, also rich and also nested, twice in an array, as map value and map key, streamed to JSON and back, and to a decoder at every level of deduplication: an equal value.
func C33_Stream() {
	defer removeNamed()
	newVInt(nil)
	newVBox()
	k := nd.Choice(nInitArg + 5)
	var x dgo.Value
	switch k - nInitArg {
	case 0:
		x = vf.Binary([]byte{1, 2}, true)
	case 1:
		x = vf.Sensitive(1)
	case 2:
		x = vf.Map(`__value`, 3)
	case 3:
		x = vf.Map(`__value`, 3, `__valu`, 4)
	case 4:
		x = vf.Values()
	default:
		x = initArg(k)
	}
	var v dgo.Value = &c33Box{x}
	switch nd.Choice(6) {
	case 0:
	case 1:
		v = vf.Values(v, v, c33Int(2), c33Int(2))
	case 2:
		v = vf.Map(`k`, v, `l`, c33Int(2))
	case 3:
		v = vf.Map(v, 1, c33Int(2), v)
	case 4:
		v = &c33Box{vf.Map(`k`, v)}
	default:
		v = vf.Sensitive(v)
	}
	nd.Reach("stream")
	if nd.Choice(2) == 0 {
		jsonRoundTrip(v, nil, "named")
	} else {
		sameStream(v, decoded(v, streamer.DedupLevel(nd.Choice(4)), nd.Choice(2) == 0), "named")
	}
}

// C33_Equal: exact types of symbolic named values and named types against each other: equal exactly when they are of the same type and the values are equal, with equal hash codes; named values are found in maps and arrays by equality.
func C33_Equal() {
	defer removeNamed()
	t, u := newVInt(nil), newVBox()
	i, j := nd.Int64(), nd.Int64()
	a, b := c33Int(i), c33Int(j)
	eq := i == j
	nd.Assert(a.Type().Equals(b.Type()) == eq, c33Eq+"exact")
	if eq {
		nd.Assert(a.Type().HashCode() == b.Type().HashCode(), c33Eq+"hash code of exact types")
	}
	nd.Assert(t.Equals(t) && !t.Equals(u) && !u.Equals(t) && t.HashCode() == tf.Named(`vInt`).HashCode(), c33Eq+"names")
	nd.Assert(!a.Type().Equals(t) && !t.Equals(a.Type()) && typ.Generic(a.Type()) == dgo.Type(t), c33Eq+"exact and named")
	box := &c33Box{vf.Integer(i)}
	nd.Assert(!a.Type().Equals(box.Type()) && !box.Type().Equals(a.Type()), c33Eq+"different types")
	nd.Assert(!a.Type().Equals(vf.Integer(i).Type()) && !vf.Integer(i).Type().Equals(a.Type()), c33Eq+"integer")
	nd.Assert(a.Type().(dgo.ExactType).ExactValue() == dgo.Value(a), c33Eq+"value")
	i, j = pickInt(), pickInt()
	a, b = c33Int(i), c33Int(j)
	m := vf.Map(a, 1, `x`, 2)
	nd.Assert(m.ContainsKey(b) == (i == j), c33Eq+"as key of a map")
	nd.Assert((vf.Values(`x`, a).IndexOf(b) == 1) == (i == j), c33Eq+"in an array")
	nd.Reach("equal")
}
