package h

import (
	"errors"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"verif/harness/nd"
)

// zoned is the instant in one of four zones.
func zoned(sec, nsec int64, k int) time.Time {
	t := time.Unix(sec, nsec)
	return t.In([]*time.Location{time.UTC, time.FixedZone("", 20700), time.FixedZone("a", -3600), time.FixedZone("a", 50400)}[k])
}

// C01_Zones: Bounds: times at the turn of a year, a day or another second, with or without fractions, each in one of four zones: equal
// exactly when they are the same instant, as dgo values and as Go values.
func C01_Zones() {
	s := []int64{0, 1577836799, 1577836800, 1588720000}
	i, j, n := nd.Choice(4), nd.Choice(4), nd.Choice(2)
	g := zoned(s[i], int64(n), nd.Choice(4))
	h := zoned(s[j], 1, nd.Choice(4))
	a, b := vf.Time(g), vf.Time(h)
	same := i == j && n == 1
	nd.Reach("zones")
	nd.Assert(a.Equals(b) == same && b.Equals(a) == same, "times are equal when they are the same instant")
	nd.Assert(a.Equals(h) == same && a.Equals(&h) == same, "a time equals a Go time that is the same instant")
	nd.Assert(vf.Values(a).Equals([]time.Time{h}) == same, "times in arrays")
	nd.Assert(a.Type().Equals(b.Type()) == same && a.Type().Instance(h) == same, "the types of times are equal when they are the same instant")
}

// C02_Zones: Bounds: as C01_Zones.
func C02_Zones() {
	s := []int64{0, 1577836799, 1577836800, 1588720000}[nd.Choice(4)]
	n := int64(nd.Choice(2))
	a, b := vf.Time(zoned(s, n, nd.Choice(4))), vf.Time(zoned(s, n, nd.Choice(4)))
	nd.Reach("zones")
	hashAgrees(a, b)
	hashAgrees(a.Type(), b.Type())
	nd.Assert(a.HashCode() == b.HashCode(), "equal times have equal hash codes")
	nd.Assert(vf.Map(a, 1).Get(b) != nil, "equal times are the same key")
}

type someBytes []byte

// C08_GoBytes: Bounds: a frozen binary of 1 to 3 bytes, made so or frozen, given to a Go variable of six kinds which is then changed.
func C08_GoBytes() {
	n := 1 + nd.Choice(3)
	bs := bytesN(n)
	b := vf.Binary(bs, true)
	if nd.Choice(2) == 0 {
		m := vf.Binary(bs, false)
		m.Freeze()
		b = m
	}
	keep := string(bs)
	nd.Reach("bytes")
	var s []byte
	var v dgo.Value = b
	switch nd.Choice(7) {
	case 0:
		vf.FromValue(v, &s)
	case 1:
		var x interface{}
		vf.FromValue(v, &x)
		s, _ = x.([]byte)
	case 2:
		var x someBytes
		nd.Assert(!panics(func() { vf.FromValue(v, &x) }), "a named slice of bytes can be given")
		s = x
	case 3:
		s = b.GoBytes()
	case 4:
		var x *[]byte
		vf.FromValue(v, &x)
		s = *x
	case 5:
		var x [][]byte
		vf.FromValue(vf.Values(v), &x)
		s = x[0]
	default:
		x := map[string][]byte{}
		vf.FromValue(vf.Map("a", v), &x)
		s = x["a"]
	}
	nd.Assert(string(s) == keep, "a Go slice has the bytes of the binary")
	for i := range s {
		s[i]++
	}
	bs[0]++
	nd.Assert(string(b.GoBytes()) == keep && b.Frozen(), "a frozen binary doesn't change")
}

// C08_Arguments: Bounds: arguments made of up to 2 values of 5 kinds, mutable ones included.
func C08_Arguments() {
	n := nd.Choice(3)
	vs := make([]interface{}, n)
	ms := make([]dgo.Value, n)
	for i := range vs {
		switch nd.Choice(5) {
		case 0:
			ms[i] = vf.MutableValues(1, vf.MutableValues(2))
		case 1:
			ms[i] = vf.MutableMap("a", vf.MutableValues(2))
		case 2:
			ms[i] = vf.Binary([]byte{1}, false)
		case 3:
			ms[i] = vf.Sensitive(vf.MutableValues(1))
		default:
			ms[i] = vf.Nil
		}
		vs[i] = ms[i]
	}
	a := vf.Arguments(vs...)
	nd.Reach("arguments")
	nd.Assert(deepFrozen(a), "arguments are frozen throughout")
	p := picture(a)
	for _, m := range ms {
		touchAny(m)
	}
	nd.Assert(samePicture(p, picture(a)), "arguments don't change")
	nd.Assert(panics(func() { a.Add(1) }) && panics(func() { a.Set(0, 1) }) && a.Len() == n, "arguments can't be changed")
	b := a.With(vf.MutableValues(1))
	nd.Assert(deepFrozen(b) && b.Len() == n+1, "what is derived from arguments is frozen throughout")
}

// C05_EmptySlices: Bounds: every slice of a mutable array of up to 3 elements, empty ones included, and of arguments made of it: the slice
// is another array, and what is added to or set in either doesn't show in the other.
func C05_EmptySlices() {
	n := nd.Choice(4)
	a := vf.MutableValues()
	for i := 0; i < n; i++ {
		a.Add(nd.Int64())
	}
	j := nd.Choice(n + 1)
	i := nd.Choice(j + 1)
	s := a.Slice(i, j)
	nd.Reach("slice")
	nd.Assert(s.Len() == j-i && s != a && !s.Frozen(), "a slice of a mutable array is another one")
	k := 0
	for ; k < s.Len(); k++ {
		nd.Assert(s.Get(k) == a.Get(i+k), "the elements of a slice")
	}
	s.Add("x")
	nd.Assert(a.Len() == n, "the array has its elements when one is added to a slice")
	for k = 0; k < n; k++ {
		nd.Assert(!a.Get(k).Equals("x"), "the elements of the array when one is added to a slice")
	}
	a.Add("y")
	nd.Assert(s.Len() == j-i+1 && s.Get(j-i).Equals("x"), "a slice has its elements when one is added to the array")
}

// C36_Wrapped: Bounds: two errors with texts out of three, plain or wrapping another with one of the texts (or themselves two levels
// down): equal exactly when their own texts are, with equal hash codes, both ways.
func C36_Wrapped() {
	txt := func() string { return []string{"a", "b", ""}[nd.Choice(3)] }
	mk := func() (dgo.Value, string) {
		s := txt()
		switch nd.Choice(3) {
		case 0:
			return vf.Value(errors.New(s)), s
		case 1:
			return vf.Value(&textError{s, errors.New(txt())}), s
		default:
			return vf.Value(&textError{s, &textError{"c", errors.New(txt())}}), s
		}
	}
	a, sa := mk()
	b, sb := mk()
	nd.Reach("wrapped")
	nd.Assert(a.Equals(b) == (sa == sb) && b.Equals(a) == (sa == sb), "errors are equal when their texts are")
	nd.Assert(sa != sb || a.HashCode() == b.HashCode(), "equal errors have equal hash codes")
	nd.Assert(a.(error).Error() == sa && a.String() == sa, "an error has its text")
	nd.Assert(a.Type().Equals(b.Type()) == (sa == sb) && a.Type().Instance(b) == (sa == sb), "the types of errors are equal when their texts are")
}

type textError struct {
	s string
	e error
}

func (e *textError) Error() string { return e.s }
func (e *textError) Unwrap() error { return e.e }

// C36_Sizes: Bounds: size violations of two types by every pair of ints.
func C36_Sizes() {
	x, y := nd.Int(), nd.Int()
	ts := []dgo.Type{tf.Array(typ.Any, 0, 1), tf.String(0, 1)}
	i, j := nd.Choice(2), nd.Choice(2)
	a, b := tf.IllegalSize(ts[i], x), tf.IllegalSize(ts[j], y)
	nd.Reach("sizes")
	nd.Assert(a.Equals(b) == nd.And(i == j, x == y), "size violations are equal when the types and sizes are")
	nd.Assert(nd.Or(i != j, x != y) || a.HashCode() == b.HashCode(), "equal size violations have equal hash codes")
}

// evenOnly is a checker that accepts even numbers only, as a value, and every parameterized or plain type of the name
func evenOnly(self dgo.NamedType, other dgo.Type) bool {
	ot, ok := other.(dgo.NamedType)
	if !ok || ot.Name() != self.Name() {
		return false
	}
	if et, ok := other.(dgo.ExactType); ok {
		i := int64(et.ExactValue().(c33Int))
		if ps := self.Parameters(); ps != nil && ps.Len() > 0 {
			return i%ps.Get(0).(dgo.Integer).GoInt() == 0
		}
		return i%2 == 0
	}
	return true
}

// C33_Refused: Bounds: a named type whose checker accepts even numbers - or, with a parameter, multiples of three - with none or one
// parameter; New of every integer from -7 to 7, as an integer, a text or arguments: what the checker doesn't accept is refused.
func C33_Refused() {
	defer removeNamed()
	nt := newVInt(evenOnly)
	i := int64(nd.Choice(15) - 7)
	ok := i%2 == 0
	var t dgo.NamedType = nt
	switch nd.Choice(3) {
	case 0:
		t = tf.Parameterized(nt, vf.Values(3))
		ok = i%3 == 0
	case 1:
		t = tf.Parameterized(nt, vf.Values())
	}
	var arg dgo.Value = vf.Integer(i)
	switch nd.Choice(3) {
	case 0:
		arg = vf.Arguments(i)
	case 1:
		arg = vf.String(strconv.FormatInt(i, 10))
	}
	var v dgo.Value
	p := panics(func() { v = vf.New(t, arg) })
	nd.Reach("refused")
	nd.Assert(p == !ok, "New refuses what the checker doesn't accept")
	nd.Assert(p || t.Instance(v) && v.Equals(c33Int(i)), "New gives an instance")
	nd.Assert(t.Instance(c33Int(i)) == ok, "the checker tells what is an instance")
}

// C33_FrozenParameters: Bounds: a parameterized type made of a mutable array of 0 to 3 mutable or frozen parameters which is changed afterwards.
func C33_FrozenParameters() {
	defer removeNamed()
	nt := newVInt(nil)
	n := nd.Choice(4)
	ps := vf.MutableValues()
	for i := 0; i < n; i++ {
		if nd.Choice(2) == 0 {
			ps.Add(vf.MutableValues(i))
		} else {
			ps.Add(i)
		}
	}
	keep := ps.FrozenCopy()
	t := tf.Parameterized(nt, ps)
	h := t.HashCode()
	touchAny(ps)
	ps.Add("x")
	nd.Reach("parameters")
	nd.Assert(t.Parameters().Equals(keep) && deepFrozen(t.Parameters()), "the parameters never change")
	nd.Assert(t.HashCode() == h && t.Equals(tf.Parameterized(nt, keep.(dgo.Array))), "a parameterized type never changes")
}

// C17_FunctionParts: Bounds: one of five function types in each of 13 positions (element, key, value, entry, parameter, result, sensitive, not,
// meta, alone), which in turn is alone, negated or one of 2 or 3 operands of the three logical types, first or last.
func C17_FunctionParts() {
	f := func() dgo.Type {
		switch nd.Choice(5) {
		case 0:
			return typ.Function
		case 1:
			return tf.Function(tf.Tuple(), tf.Tuple())
		case 2:
			return tf.Function(tf.Tuple(typ.Integer), tf.Tuple(typ.String))
		case 3:
			return tf.Function(tf.VariadicTuple(typ.Integer), tf.Tuple(typ.String, typ.Integer))
		default:
			return tf.Function(tf.Tuple(), tf.Tuple(tf.AnyOf(typ.String, typ.Integer)))
		}
	}()
	var p dgo.Type
	switch nd.Choice(13) {
	case 0:
		p = f
	case 1:
		p = tf.Array(f)
	case 2:
		p = tf.Array(f, 1, 2)
	case 3:
		p = tf.Map(typ.String, f)
	case 4:
		p = tf.Map(f, typ.String)
	case 5:
		p = tf.Map(typ.String, f, 1, 2)
	case 6:
		p = tf.StructMap(false, tf.StructMapEntry("a", f, true), tf.StructMapEntry("b", f, false))
	case 7:
		p = tf.Tuple(f, typ.Integer)
	case 8:
		p = tf.Function(tf.Tuple(f), tf.Tuple(f))
	case 9:
		p = tf.Sensitive(f)
	case 10:
		p = tf.Not(f)
	case 11:
		p = tf.Meta(f)
	default:
		p = tf.VariadicTuple(typ.Integer, f)
	}
	op := []func(...interface{}) dgo.Type{tf.AnyOf, tf.AllOf, tf.OneOf}[nd.Choice(3)]
	switch nd.Choice(5) {
	case 0:
	case 1:
		p = tf.Not(p)
	case 2:
		p = op(p, typ.Integer)
	case 3:
		p = op(typ.Integer, p)
	default:
		p = op(typ.Integer, p, typ.String)
	}
	nd.Reach("function")
	roundTrip(p, "function parts")
}

// C17_IntEdges: Bounds: integer ranges, inclusive or not, with limits at and next to the least and the largest integer and zero.
func C17_IntEdges() {
	e := []int64{math.MinInt64, math.MinInt64 + 1, math.MinInt64 + 2, -1, 0, 1, math.MaxInt64 - 2, math.MaxInt64 - 1, math.MaxInt64}
	lo, hi := e[nd.Choice(9)], e[nd.Choice(9)]
	if lo >= hi {
		return
	}
	nd.Reach("edges")
	t := tf.Integer(lo, hi, nd.Choice(2) == 0)
	roundTrip(t, "integer edges")
	if nd.Choice(2) == 0 {
		roundTrip(tf.Array(t, int(lo&3), int(hi&3)), "integer edges within")
	}
}

// exprList is a list of expressions and what they denote.
func exprList() ([]string, []dgo.Type) {
	i := func(n int) dgo.Type { return vf.Integer(int64(n)).Type() }
	return []string{"int", "1|2", "1^2^3", "(1^2^3)", "1&2|3", "!1", "(1|2)&3", "1..2", "[]int|string", "map[string]int^bool", "[](1^2)", "{1^2,3}", "(1^2)^3", "{a:1|2}"},
		[]dgo.Type{typ.Integer, tf.AnyOf(i(1), i(2)), tf.OneOf(i(1), i(2), i(3)), tf.OneOf(i(1), i(2), i(3)), tf.AnyOf(tf.AllOf(i(1), i(2)), i(3)), tf.Not(i(1)), tf.AllOf(tf.AnyOf(i(1), i(2)), i(3)), tf.Integer(1, 2, true),
			tf.AnyOf(tf.Array(typ.Integer), typ.String), tf.OneOf(tf.Map(typ.String, typ.Integer), typ.Boolean), tf.Array(tf.OneOf(i(1), i(2))), tf.Tuple(tf.OneOf(i(1), i(2)), i(3)), tf.OneOf(tf.OneOf(i(1), i(2)), i(3)),
			tf.StructMap(false, tf.StructMapEntry("a", tf.AnyOf(i(1), i(2)), true))}
}

// C18_Lists: Bounds: lists of 1 to 5 expressions, of which one or two are any of 14, as elements of a tuple, entries of a struct and parameters
// and results of a function: each is what it is alone.
func C18_Lists() {
	ss, ts := exprList()
	n := 1 + nd.Choice(5)
	at := nd.Choice(n)
	k := nd.Choice(len(ss))
	at2, k2 := -1, 0
	if nd.Thorough() {
		at2, k2 = nd.Choice(n), nd.Choice(len(ss))
	}
	texts := make([]string, n)
	types := make([]interface{}, n)
	for i := range texts {
		texts[i], types[i] = "int", typ.Integer
		switch i {
		case at:
			texts[i], types[i] = ss[k], ts[k]
		case at2:
			texts[i], types[i] = ss[k2], ts[k2]
		}
	}
	text := strings.Join(texts, ",")
	var want dgo.Type
	switch nd.Choice(5) {
	case 0:
		text = "{" + text + "}"
		want = tf.Tuple(types...)
	case 1:
		text = "[]{" + text + "}"
		want = tf.Array(tf.Tuple(types...))
	case 2:
		es := make([]dgo.StructMapEntry, n)
		for i := range es {
			name := string([]byte{'a' + byte(i)})
			texts[i] = name + ":" + texts[i]
			es[i] = tf.StructMapEntry(name, types[i], true)
		}
		text = "{" + strings.Join(texts, ",") + "}"
		want = tf.StructMap(false, es...)
	case 3:
		text = "func(" + text + ")"
		want = tf.Function(tf.Tuple(types...), typ.EmptyTuple)
	default:
		text = "func(bool)(" + text + ")"
		want = tf.Function(tf.Tuple(typ.Boolean), tf.Tuple(types...))
	}
	var r dgo.Type
	s := failure(func() { r = tf.ParseType(text) })
	nd.Reach("list")
	nd.Assert(s == "", "a list of expressions is accepted")
	nd.Assert(r.Equals(want) && want.Equals(r), "every element of a list of expressions is what it is alone")
}

// C18_LineBreaks: Bounds: regular expressions and strings of up to 3 characters out of five, among them a line break and escapes, closed or
// not, alone or in a list: refused exactly when they have a line break or are not closed, else what was written.
func C18_LineBreaks() {
	n := nd.Choice(4)
	body, brk := "", false
	for i := 0; i < n; i++ {
		switch nd.Choice(4) {
		case 0:
			body += "a"
		case 1:
			body += "\n"
			brk = true
		case 2:
			body += "\r"
		default:
			body += " "
		}
	}
	q := []string{"/", "\""}[nd.Choice(2)]
	text := q + body
	if nd.Choice(4) > 0 {
		text += q
	} else {
		brk = true
	}
	l := nd.Choice(2) == 1
	if l {
		text = "{int," + text + ",int}"
	}
	var v dgo.Value
	s := failure(func() { v = tf.ParseType(text) })
	nd.Reach("breaks")
	nd.Assert((s != "") == brk && !crash(s), "what spans lines or isn't closed is refused")
	if brk {
		return
	}
	if l {
		v = v.(dgo.TupleType).Element(1)
	}
	if q == "/" {
		nd.Assert(v.(dgo.ExactType).ExactValue().(dgo.Regexp).GoRegexp().String() == body, "a regular expression is what was written")
	} else {
		nd.Assert(v.Equals(vf.String(body).Type()), "a string is what was written")
	}
}

// C35_GoArrays: Bounds: the types of six Go arrays and arrays of arrays, and every float64 against the types of the two Go floats: the values of the Go
// type, as dgo values, are instances of the type; a float is one of float32 exactly when it is within its limits.
func C35_GoArrays() {
	if nd.Choice(2) == 0 {
		f := number()
		nd.Reach("floats")
		nd.Assert(tf.FromReflected(reflect.TypeOf(float64(0))).Instance(f), "every float is a float64")
		nd.Assert(tf.FromReflected(reflect.TypeOf(float32(0))).Instance(vf.Float(f)) == nd.And(-math.MaxFloat32 <= f, f <= math.MaxFloat32), "the floats of a float32 are those within its limits")
		nd.Assert(tf.FromReflected(reflect.TypeOf([]float32{})).Instance(vf.Values(f)) == nd.And(-math.MaxFloat32 <= f, f <= math.MaxFloat32), "the floats in a slice of float32 are those within its limits")
		return
	}
	gs := []interface{}{[0]string{}, [1]string{"a"}, [3]int64{1, 2, 3}, [2][1]int64{{1}, {2}}, [][2]string{{"a", "b"}}, map[string][2]int64{"a": {1, 2}}}
	vs := []dgo.Value{vf.Values(), vf.Values("a"), vf.Values(1, 2, 3), vf.Values(vf.Values(1), vf.Values(2)), vf.Values(vf.Values("a", "b")), vf.Map("a", vf.Values(1, 2))}
	k := nd.Choice(len(gs))
	t := tf.FromReflected(reflect.TypeOf(gs[k]))
	nd.Reach("arrays")
	nd.Assert(t.Instance(vs[k]) && t.Assignable(vs[k].Type()), "the values of a Go array are instances of its type")
	nd.Assert(k == 2 || k == 3 || !t.Instance(vf.Values(1, 2, 3)), "other values are not instances of the type of a Go array")
}

// C12_Float32: Bounds: every float64 against the type of float32 and the range with its limits.
func C12_Float32() {
	f := number()
	t := tf.FromReflected(reflect.TypeOf(float32(0))).(dgo.FloatType)
	in := nd.And(-math.MaxFloat32 <= f, f <= math.MaxFloat32)
	nd.Reach("float32")
	nd.Assert(t.IsInstance(f) == in && t.Instance(f) == in && t.Instance(vf.Float(f)) == in && t.Assignable(vf.Float(f).Type()) == in, "the type of float32 has the floats within its limits")
	nd.Assert(t.Min() == -math.MaxFloat32 && t.Max() == math.MaxFloat32 && t.Inclusive(), "the limits of the type of float32")
	nd.Assert(t.Equals(tf.Float(-math.MaxFloat32, math.MaxFloat32, true)), "the type of float32 is the range with its limits")
	nd.Assert(t.Instance(float32(math.MaxFloat32)) && t.Instance(float32(-math.MaxFloat32)), "the largest float32 is one")
}

// C34_Unbounded: Bounds: the eight kinds of types with sizes, made with a minimum out of 0, 1 and 3 and a maximum out of 3, the largest but one and the largest
// integer, or a minimum only: the sizes are those, and unbounded tells whether there are none.
func C34_Unbounded() {
	lo := []int64{0, 1, 3}[nd.Choice(3)]
	hi := []int64{3, math.MaxInt64 - 1, math.MaxInt64}[nd.Choice(3)]
	sz := []interface{}{lo, hi}
	if hi == math.MaxInt64 && nd.Choice(2) == 0 {
		sz = sz[:1]
	}
	with := func(ps ...interface{}) []interface{} { return append(ps, sz...) }
	var t dgo.SizedType
	switch nd.Choice(6) {
	case 0:
		t = tf.Binary(sz...)
	case 1:
		t = tf.String(sz...)
	case 2:
		t = tf.Array(sz...)
	case 3:
		t = tf.Array(with(typ.Integer)...)
	case 4:
		t = tf.Map(with(typ.String, typ.Integer)...)
	default:
		t = tf.Map(sz...)
	}
	nd.Reach("unbounded")
	nd.Assert(int64(t.Min()) == lo && int64(t.Max()) == hi, "the sizes are what the type was made from")
	nd.Assert(t.Unbounded() == (lo == 0 && hi == math.MaxInt64), "unbounded tells whether there are no limits")
	sliceFunctions()
}

// sliceFunctions checks the parameters of functions some of which are slices.
func sliceFunctions() {
	gf := []interface{}{
		func(a []int64, b ...string) {},
		func(a ...[]int64) {},
		func(a []int64, b []string) {},
		func(a map[string]int64, b []int64, c ...[]string) {},
		func() ([]int64, []string) { return nil, nil },
	}[nd.Choice(5)]
	rt := reflect.TypeOf(gf)
	ft := vf.Value(gf).Type().(dgo.FunctionType)
	in, out := ft.In(), ft.Out()
	nd.Assert(in.Len() == rt.NumIn() && out.Len() == rt.NumOut(), "a function has its parameters and results")
	for i := 0; i < rt.NumIn(); i++ {
		e := rt.In(i)
		if rt.IsVariadic() && i == rt.NumIn()-1 {
			e = e.Elem()
		}
		nd.Assert(in.Element(i).Equals(tf.FromReflected(e)) && in.ElementTypes().Get(i).Equals(in.Element(i)), "the parameters of a function with slices")
	}
	for i := 0; i < rt.NumOut(); i++ {
		nd.Assert(out.Element(i).Equals(tf.FromReflected(rt.Out(i))) && out.ElementTypes().Get(i).Equals(out.Element(i)), "the results of a function with slices")
	}
}

// C27_Slices: Bounds: the five functions with slices as parameters, variadic or not, as C34_Unbounded, and variadic functions over four element types called with
// 0 to 2 arguments that are arrays of 0 to 2 elements themselves: an array is one argument.
func C27_Slices() {
	sliceFunctions()
	n := nd.Choice(3)
	args := vf.MutableValues()
	for i := 0; i < n; i++ {
		a := vf.MutableValues()
		for j := nd.Choice(3); j > 0; j-- {
			a.Add(nd.Int64())
		}
		args.Add(a)
	}
	var got dgo.Array
	pre := nd.Choice(2) == 0
	as := args
	if pre {
		as = vf.MutableValues(7)
		as.AddAll(args)
	}
	var f interface{}
	switch nd.Choice(4) {
	case 0:
		f = func(vs ...interface{}) {
			got = vf.MutableValues()
			for _, v := range vs {
				got.Add(vf.Value(v))
			}
		}
		if pre {
			g := f.(func(...interface{}))
			f = func(i int, vs ...interface{}) { g(vs...) }
		}
	case 1:
		f = func(vs ...dgo.Value) { got = vf.Array(vs) }
		if pre {
			g := f.(func(...dgo.Value))
			f = func(i int, vs ...dgo.Value) { g(vs...) }
		}
	case 2:
		f = func(vs ...[]int64) { got = vf.Array(vs) }
		if pre {
			g := f.(func(...[]int64))
			f = func(i int, vs ...[]int64) { g(vs...) }
		}
	default:
		f = func(vs ...dgo.Array) {
			got = vf.MutableValues()
			for _, v := range vs {
				got.Add(v)
			}
		}
		if pre {
			g := f.(func(...dgo.Array))
			f = func(i int, vs ...dgo.Array) { g(vs...) }
		}
	}
	before := as.FrozenCopy()
	vf.Value(f).(dgo.Function).Call(as)
	nd.Reach("slices")
	nd.Assert(got != nil && got.Equals(args), "an array given to a variadic function is one argument")
	nd.Assert(as.Equals(before), "the arguments are as they were")
}

// C35_Operands: Bounds: any-of, all-of and one-of over 2 or 3 of six types: the Go type is the one that all the Go types of the operands are assignable to, in any order, or interface{}.
func C35_Operands() {
	ts := []dgo.Type{tf.Integer(1, 2, true), typ.Integer, typ.String, typ.Any, tf.Array(typ.Integer), vf.True.Type()}
	n := 2 + nd.Choice(2)
	os := make([]interface{}, n)
	k0 := -1
	one := true
	for i := range os {
		k := nd.Choice(len(ts))
		os[i] = ts[k]
		if k == 1 {
			k = 0
		}
		if i > 0 && k != k0 {
			one = false
		}
		k0 = k
	}
	t := []func(...interface{}) dgo.Type{tf.AnyOf, tf.AllOf, tf.OneOf}[nd.Choice(3)](os...)
	nd.Reach("operands")
	want := anyGo
	if one {
		want = os[0].(dgo.Type).ReflectType()
	}
	nd.Assert(t.ReflectType() == want, "the Go type of a logical type is the one of its operands or interface{}")
}

// C11_Permuted: Bounds: the three logical types over 1 to 3 of five types and negations of them, and the same in any order: equal, assignable to
// each other and from the type made of the same, whichever order.
func C11_Permuted() {
	ts := []dgo.Type{typ.Any, typ.String, tf.String(1, 5), tf.Integer(1, 2, true), tf.Not(typ.Integer), vf.String("ab").Type()}
	n := 1 + nd.Choice(3)
	as, bs := make([]interface{}, n), make([]interface{}, n)
	p := permutation(n)
	for i := range as {
		as[i] = ts[nd.Choice(len(ts))]
	}
	for i := range bs {
		bs[i] = as[p[i]]
	}
	mk := []func(...interface{}) dgo.Type{tf.AnyOf, tf.AllOf, tf.OneOf}[nd.Choice(3)]
	a, b := mk(as...), mk(bs...)
	nd.Reach("permuted")
	nd.Assert(a.Equals(b) && b.Equals(a) && a.HashCode() == b.HashCode(), "the order of the operands doesn't matter")
	nd.Assert(a.Assignable(b) && b.Assignable(a), "a type is assignable from an equal one: operands")
	nd.Assert(tf.Array(a).Assignable(tf.Array(b)) && tf.Tuple(a, typ.String).Assignable(tf.Tuple(b, typ.String)), "a type is assignable from an equal one: operands within")
	nd.Assert(a.Type().Instance(b) && a.Type().Assignable(b.Type()), "a type is an instance of the type of an equal one: operands")
}

// C07_Nil: Bounds: nil against nil, the Go nil, values of eight kinds and nil in arrays, nested up to two levels and at either place.
func C07_Nil() {
	k := nd.Choice(10)
	vs := []interface{}{vf.Nil, nil, 1, "", false, 0.5, vf.Values(), vf.Values(nil), vf.Values(vf.Values(1)), []byte{}}
	want := -1
	if k < 2 {
		want = 0
	}
	c, ok := vf.Nil.CompareTo(vs[k])
	nd.Reach("nil")
	nd.Assert(ok && c == want, "nil is less than everything else")
	v := vf.Value(vs[k]).(dgo.Comparable)
	c, ok = v.CompareTo(vf.Nil)
	nd.Assert(ok && c == -want, "everything else is more than nil")
	c, ok = v.CompareTo(nil)
	nd.Assert(ok && c == -want, "everything else is more than the Go nil")
	a, b := vf.Values(vs[k]), vf.Values(nil)
	if nd.Choice(2) == 0 {
		a, b = vf.Values(1, vs[k], 3), vf.Values(1, nil, 5)
		if want == 0 {
			c, ok = a.CompareTo(b)
			nd.Assert(ok && c == -1, "what comes after nil decides")
			return
		}
	}
	c, ok = a.CompareTo(b)
	nd.Assert(ok && c == -want, "arrays with nil")
	c, ok = b.CompareTo(a)
	nd.Assert(ok && c == want, "arrays with nil, reversed")
	c, ok = vf.Values(a).CompareTo(vf.Values(b))
	nd.Assert(ok && c == -want, "nested arrays with nil")
}

// C19_NilTo: Bounds: nil given to Go variables of 14 types with and without content: the variable is the zero value.
func C19_NilTo() {
	full := nd.Choice(2) == 0
	i, s := 1, []string{}
	var x interface{}
	nd.Reach("nil")
	zero := func(p interface{}) {
		vf.FromValue(vf.Nil, p)
		e := reflect.ValueOf(p).Elem()
		nd.Assert(e.IsZero(), "a variable that nil is assigned to is the zero value: "+e.Type().String())
	}
	switch nd.Choice(14) {
	case 0:
		if full {
			s = append(s, "a")
		}
		zero(&s)
	case 1:
		m := map[string]int{}
		if full {
			m["a"] = 1
		}
		zero(&m)
	case 2:
		p := &i
		zero(&p)
	case 3:
		x = s
		zero(&x)
	case 4:
		x = vf.Integer(1)
		zero(&x)
	case 5:
		e := errors.New("a")
		zero(&e)
	case 6:
		b := []byte{}
		if full {
			b = []byte{1}
		}
		zero(&b)
	case 7:
		f := func() {}
		zero(&f)
	case 8:
		p := &s
		zero(&p)
	case 9:
		m := map[string]interface{}{}
		if full {
			m["a"] = nil
		}
		zero(&m)
	case 10:
		v := []interface{}{}
		if full {
			v = append(v, nil)
		}
		zero(&v)
	case 11:
		v := []dgo.Value{}
		zero(&v)
	case 12:
		v := []*int{&i}
		zero(&v)
	default:
		v := [][]int{}
		if full {
			v = append(v, []int{1})
		}
		zero(&v)
	}
}

// C31_Lines: Bounds: text of up to 4 characters out of a letter, a blank and a line break appended indented at level 0 to 2, with or without indentation, after
// some text: every line break of it is there, followed by the indentation, and no blanks at the end of lines.
func C31_Lines() {
	n := nd.Choice(5)
	s := ""
	for i := 0; i < n; i++ {
		s += []string{"\n", "a", " "}[nd.Choice(3)]
	}
	in := []string{"", "  ", "\t"}[nd.Choice(3)]
	w := util.NewIndenter(in)
	top := w
	l := nd.Choice(3)
	for i := 0; i < l; i++ {
		w = w.Indent()
	}
	w.Append("x")
	w.AppendIndented(s)
	w.Append("y")
	nl := ""
	if in != "" {
		nl = "\n" + strings.Repeat(in, l)
	}
	want := noTrailing("x" + strings.Replace(s, "\n", nl, -1) + "y")
	nd.Reach("lines")
	nd.Assert(w.String() == want && top.String() == want, "every line of indented text is there")
	nd.Assert(w.String() == want, "asking for the text doesn't change it")
	nd.Assert(w.Level() == l && w.Indenting() == (in != ""), "an indenter has its level")
}

type c32Two struct {
	A int64
	B string
}

// C32_MergeEqual: Bounds: a map made from a struct or a pointer to one, with arbitrary integers, merged with a map that has the same, other or no values for its fields: the
// result has the values of the merged map, is not affected by changes of the struct and leaves it alone.
func C32_MergeEqual() {
	i, j := nd.Int64(), nd.Int64()
	s := &c32Two{i, "a"}
	m := vf.Map(s)
	var o dgo.Map
	switch nd.Choice(4) {
	case 0:
		o = vf.Map("A", j)
	case 1:
		o = vf.Map("A", j, "B", "a")
	case 2:
		o = vf.MutableMap("B", "a", "A", j)
	default:
		o = vf.Map(&c32Two{j, "a"})
	}
	c := m.Merge(o)
	nd.Reach("merge")
	nd.Assert(c != m, "merging with associations gives another map")
	nd.Assert(c.Get("A").Equals(j) && c.Get("B").Equals("a") && c.Len() == 2, "the merged map has what was merged")
	nd.Assert(s.A == i && m.Get("A").Equals(i), "merging leaves the struct alone")
	s.A, s.B = i+1, "b"
	nd.Assert(c.Get("A").Equals(j) && c.Get("B").Equals("a"), "the merged map doesn't change with the struct")
}

// C25_Grandchild: Bounds: three generations of loaders, each with or without a namespace n with an entry of its own and one that all have: the namespace gives the entries
// of all generations, those of the eldest first; without any of them there is no namespace.
func C25_Grandchild() {
	mk := func(k string, v int) dgo.NsCreator {
		if nd.Choice(2) == 0 {
			return nil
		}
		return func(l dgo.Loader, n string) dgo.Loader {
			if n != "n" {
				return nil
			}
			return loader.New(l, n, vf.Map(k, v, "all", v), nil, nil)
		}
	}
	ca, cb, cc := mk("a", 1), mk("b", 2), mk("c", 3)
	p := loader.New(nil, "", nil, nil, ca)
	c := p.NewChild(nil, cb)
	g := c.NewChild(nil, cc)
	nd.Reach("grandchild")
	has := func(l dgo.Loader, k string, v int, ok bool) {
		x := l.Load("n/" + k)
		nd.Assert(sameOrNil(x, vf.Integer(int64(v))) == ok && (ok || x == nil), "a namespace has the entries of all generations")
		ns := l.Namespace("n")
		if ns == nil {
			nd.Assert(!ok, "a namespace that a generation has is found")
			return
		}
		x = ns.Get(k)
		nd.Assert(sameOrNil(x, vf.Integer(int64(v))) == ok && (ok || x == nil), "a namespace has the entries of all generations: Get")
	}
	ls := []dgo.Loader{p, c, g}
	cs := []dgo.NsCreator{ca, cb, cc}
	for i, l := range ls {
		first := 0
		for j := 2; j >= 0; j-- {
			k := string([]byte{'a' + byte(j)})
			ok := j <= i && cs[j] != nil
			has(l, k, j+1, ok)
			if ok {
				first = j + 1
			}
		}
		has(l, "all", first, first > 0)
		nd.Assert(l.Namespace("m") == nil && l.Load("n/d") == nil, "what no generation has is nil")
	}
}

// C22_LargeNumbers: Bounds: the integers next to the limits of 64 bits, some far beyond them, with and without fractions and exponents, alone, in an array, as a value: an integer
// when it is written as one and fits, else the nearest float.
func C22_LargeNumbers() {
	ss := []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551616", "100000000000000000000000000000",
		"9223372036854775807.0", "1e3", "-0", "0", "-1"}
	k := nd.Choice(len(ss))
	s := ss[k]
	text, at := s, nd.Choice(3)
	switch at {
	case 0:
		text = "[" + s + ",1]"
	case 1:
		text = `{"a":` + s + "}"
	}
	v := streamer.UnmarshalJSON([]byte(text), nil)
	switch at {
	case 0:
		nd.Assert(v.(dgo.Array).Get(1).Equals(1), "what follows a number")
		v = v.(dgo.Array).Get(0)
	case 1:
		v = v.(dgo.Map).Get("a")
	}
	nd.Reach("numbers")
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		nd.Assert(v.Equals(i), "an integer that fits is an integer")
		_, ok := v.(dgo.Integer)
		nd.Assert(ok, "an integer is no float")
		return
	}
	f, _ := strconv.ParseFloat(s, 64)
	x, ok := v.(dgo.Float)
	nd.Assert(ok && x.GoFloat() == f, "a number that isn't an integer that fits is a float")
}

// C22_BadReferences: Bounds: 14 values of a reference, in an array with one or two values before it: what isn't the number of a value is refused by an error.
func C22_BadReferences() {
	r := []string{"0", "1", "2", "3", "-1", "0.5", "1.0", "1e0", `"0"`, "null", "true", "9223372036854775808", "[]", "{}"}[nd.Choice(14)]
	two := nd.Choice(2) == 0
	text := `[["x"],{"__ref":` + r + `}]`
	if two {
		text = `[["x"],["y"],{"__ref":` + r + `}]`
	}
	var v dgo.Value
	s := failure(func() { v = streamer.UnmarshalJSON([]byte(text), nil) })
	nd.Reach("references")
	nd.Assert(!crash(s), "a reference that is refused is refused by an error")
	switch r {
	case "0", "1", "2", "3":
	default:
		nd.Assert(s != "", "what isn't the number of a value is refused")
		return
	}
	if r == "1" {
		nd.Assert(s == "", "a reference to a value is accepted")
		a := v.(dgo.Array)
		nd.Assert(a.Get(a.Len()-1) == a.Get(0), "a reference is the value with that number")
	}
}

// C38_Metas: Bounds: types of types up to three levels over three types, and their types: a type of types accepts the types of equal types, the type of these what is a type of types, and nothing else.
func C38_Metas() {
	base := []dgo.Type{typ.Any, typ.Integer, vf.Integer(1).Type()}
	mk := func() (dgo.Type, int, int) {
		k, d := nd.Choice(3), nd.Choice(4)
		t := base[k]
		for i := 0; i < d; i++ {
			if nd.Choice(2) == 0 || i > 0 {
				t = t.Type().(dgo.Type)
			} else {
				t = tf.Meta(t)
			}
		}
		if d >= 2 {
			k, d = 0, 2
		}
		return t, k, d
	}
	a, ka, da := mk()
	b, kb, db := mk()
	if da == 0 || db == 0 {
		return
	}
	want := da == db && ka == kb
	nd.Reach("metas")
	nd.Assert(a.Assignable(b) == want, "types of types accept the types of equal types")
	nd.Assert(a.Equals(b) == want, "types of types are equal when the types are")
	nd.Assert(tf.Array(a).Assignable(tf.Array(b)) == want, "types of types within")
}

// C14_ManyNegated: Bounds: not, or not of not, of any-of, all-of and one-of over 4 to 6 types (the types of a string, booleans, floats, nil, and ranges of integers), and the types
// themselves; every int64 and a value of each of the other kinds: exactly the values that belong.
func C14_ManyNegated() {
	ts := []dgo.Type{typ.String, tf.Integer(0, 9, true), tf.Integer(5, 20, true), typ.Boolean, typ.Float, typ.Nil}
	n := 4 + nd.Choice(3)
	var v dgo.Value
	in := make([]bool, 6)
	switch nd.Choice(6) {
	case 0:
		x := nd.Int64()
		v = vf.Integer(x)
		in[1], in[2] = nd.And(0 <= x, x <= 9), nd.And(5 <= x, x <= 20)
	case 1:
		v, in[0] = vf.String("a"), true
	case 2:
		v, in[3] = vf.True, true
	case 3:
		v, in[4] = vf.Float(1.5), true
	case 4:
		v, in[5] = vf.Nil, true
	default:
		v = vf.Values()
	}
	rot := nd.Choice(n)
	os := make([]interface{}, n)
	c := 0
	for i := range os {
		k := (i + rot) % n
		os[i] = ts[k]
		if in[k] {
			c++
		}
	}
	var t dgo.Type
	has := false
	switch nd.Choice(3) {
	case 0:
		t, has = tf.AnyOf(os...), c > 0
	case 1:
		t, has = tf.AllOf(os...), c == n
	default:
		t, has = tf.OneOf(os...), c == 1
	}
	nd.Reach("many")
	nd.Assert(t.Instance(v) == has, "the values of a logical type over many types")
	nd.Assert(tf.Not(t).Instance(v) == !has, "the values of the negation of a logical type over many types")
	nd.Assert(tf.Array(tf.Not(t)).Instance(vf.Values(v)) == !has, "the values of the negation of a logical type, in an array")
	nd.Assert(tf.AnyOf(typ.Binary, tf.Not(t)).Instance(v) == !has, "the values of the negation of a logical type, in another")
	nd.Assert(tf.Not(tf.Not(t)).Instance(v) == has, "the negation of the negation is the type")
}

// C21_Arguments: Bounds: 0 to 3 arguments out of five (nil included): AssertSize of limits from 0 to 3 refuses exactly other numbers, and Arg gives an argument of the type and refuses others
// by an error.
func C21_Arguments() {
	n := nd.Choice(4)
	vs := make([]interface{}, n)
	ks := make([]int, n)
	for i := range vs {
		ks[i] = nd.Choice(4)
		vs[i] = []interface{}{nil, "a", 1, true}[ks[i]]
	}
	as := vf.Arguments(vs...)
	nd.Reach("arguments")
	if nd.Choice(2) == 0 {
		lo := nd.Choice(4)
		hi := lo + nd.Choice(4-lo)
		s := failure(func() { as.AssertSize("f", lo, hi) })
		nd.Assert((s == "") == (lo <= n && n <= hi) && !crash(s), "another number of arguments is refused")
		return
	}
	if n == 0 {
		return
	}
	i := nd.Choice(n)
	tk := nd.Choice(6)
	t := []dgo.Type{typ.Nil, typ.String, typ.Integer, typ.Boolean, typ.Any, tf.AnyOf(typ.Nil, typ.String)}[tk]
	ok := tk == ks[i] || tk == 4 || tk == 5 && ks[i] < 2
	var v dgo.Value
	s := failure(func() { v = as.Arg("f", i, t) })
	nd.Assert((s == "") == ok && !crash(s), "an argument that isn't of the type is refused")
	nd.Assert(!ok || v.Equals(vs[i]), "an argument is what was given")
}

// C37_VariantKeys: Bounds: keys of a struct that are variants of 1 to 3 types out of Undef and three enums, optional or not: accepted when the variant is a key or Undef and a key.
func C37_VariantKeys() {
	n := 1 + nd.Choice(3)
	os := make([]string, n)
	undef := 0
	for i := range os {
		k := nd.Choice(4)
		os[i] = []string{"Undef", "Enum['a']", "Enum['b']", "Enum['c']"}[k]
		if k == 0 {
			undef++
		}
	}
	var v dgo.Value
	s := failure(func() { v = pc("Struct[{Variant[" + strings.Join(os, ",") + "] => Integer}]") })
	nd.Reach("keys")
	nd.Assert(!crash(s), "a key is refused by an error")
	if n == 3 && undef > 0 {
		nd.Assert(s != "", "a variant of three is no key")
	}
	if n == 1 && undef == 0 {
		nd.Assert(s == "" && v.(dgo.StructMapType).Get(vf.String(os[0][6:7])).Required(), "a variant of one is that key")
	}
	if n == 2 && os[0] == "Undef" && undef == 1 {
		nd.Assert(s == "" && !v.(dgo.StructMapType).Get(vf.String(os[1][6:7])).Required(), "a variant of Undef and another is an optional key")
	}
}
