package h

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// C08_Binary: Bounds: binaries of up to 3 arbitrary bytes in a slice with or without spare capacity, which they share until they are frozen; as such, in an array, or in a map.
func C08_Binary() {
	n := nd.Choice(4)
	bs := append(make([]byte, 0, n+nd.Choice(2)), bytesN(n)...)
	b := vf.Binary(bs, false)
	want := string(bs)
	nd.Assert(b.Frozen() == false && string(b.GoBytes()) == want, "a binary has the bytes that it is made of")
	var f dgo.Binary
	switch nd.Choice(5) {
	case 0:
		b.Freeze()
		f = b
	case 1:
		f = b.FrozenCopy().(dgo.Binary)
	case 2:
		f = b.Copy(true)
	case 3:
		a := vf.MutableValues(b)
		a.Freeze()
		f = a.Get(0).(dgo.Binary)
	default:
		m := vf.MutableMap("a", b)
		m.Freeze()
		f = m.Get("a").(dgo.Binary)
	}
	nd.Assert(f.Frozen(), "a frozen binary is frozen")
	h := f.HashCode()
	for i := range bs {
		bs[i] ^= 0x55
	}
	nd.Assert(string(f.GoBytes()) == want, "a frozen binary doesn't change when the slice does that it was made of")
	for i, g := 0, f.GoBytes(); i < len(g); i++ {
		g[i] ^= 0x55
	}
	nd.Assert(string(f.GoBytes()) == want && f.HashCode() == h, "a frozen binary doesn't change when its bytes are changed")
	nd.Reach("binary")
}

// C09_FlattenNested: Bounds: arrays of up to 3 elements that are integers, or arrays of 0, 1 or 2 integers, or such an array in another, mutable or not; the flat array or the original is changed.
func C09_FlattenNested() {
	a := vf.MutableValues()
	for n := nd.Choice(4); n > 0; n-- {
		switch nd.Choice(5) {
		case 0:
			a.Add(nd.Int64())
		case 1:
			a.Add(vf.MutableValues())
		case 2:
			a.Add(vf.MutableValues(1))
		case 3:
			a.Add(vf.MutableValues(2, 3))
		default:
			a.Add(vf.MutableValues(vf.MutableValues(4)))
		}
	}
	if nd.Choice(3) == 0 {
		a.Freeze()
	}
	d := a.Flatten()
	p, q := picture(a), picture(d)
	d.Each(func(e dgo.Value) {
		_, is := e.(dgo.Array)
		nd.Assert(!is, "there are no arrays in a flat array")
	})
	nd.Assert(d.Frozen() == a.Frozen(), "Flatten keeps the frozen state")
	if a.Frozen() {
		return
	}
	if nd.Choice(2) == 0 {
		touchAny(d)
		nd.Assert(samePicture(p, picture(a)), "changing the flat array does not change the receiver")
	} else {
		touchAny(a)
		nd.Assert(samePicture(q, picture(d)), "changing the receiver does not change the flat array")
	}
	nd.Reach("flat")
}

// limited is the k:th kind of type with two bounds and, for ranges, an end that is included or not.
func limited(k int) *ty {
	switch k {
	case 0:
		return tIntRange()
	case 1:
		return tFloatRange()
	case 2:
		return tSized()
	}
	lo := int(between(0, 3))
	hi := int(between(0, 3))
	nd.Assume(lo <= hi)
	t := &ty{k: "size" + string(rune('0'+k)), lo: int64(lo), hi: int64(hi)}
	switch k {
	case 3:
		t.t = tf.Array(typ.Integer, lo, hi)
	case 4:
		t.t = tf.Map(typ.String, typ.Integer, lo, hi)
	default:
		t.t = tf.Binary(lo, hi)
	}
	return t
}

// C01_Limits: Bounds: two ranges or sized types of the same of 6 kinds (integers, floats, strings, arrays, maps, binaries), each with arbitrary bounds: they are equal exactly when the bounds are, with equal hash codes.
func C01_Limits() {
	k := nd.Choice(6)
	a, b := limited(k), limited(k)
	if a.k != b.k {
		nd.Assert(!a.t.Equals(b.t) && !b.t.Equals(a.t), "a type with limits does not equal one without")
		return
	}
	same := nd.And(nd.And(a.lo == b.lo, a.hi == b.hi), nd.And(nd.And(a.flo == b.flo, a.fhi == b.fhi), a.incl == b.incl))
	nd.Assert(a.t.Equals(b.t) == same, "types with limits are equal exactly when the limits are")
	nd.Assert(b.t.Equals(a.t) == same, "equality of types with limits is symmetric")
	nd.Assert(!same || a.t.HashCode() == b.t.HashCode(), "equal types with limits have equal hash codes")
	nd.Reach("limits")
}

// C07_SortEqual: Bounds: arrays of up to 4 (thorough 5) elements, integers and floats of 0 and 1, which compare as equal but can be told apart: they keep their order.
func C07_SortEqual() {
	max := 5
	if nd.Thorough() {
		max = 6
	}
	pool := []dgo.Value{vf.Integer(0), vf.Float(0), vf.Integer(1), vf.Float(1)}
	a := vf.MutableValues()
	var low, high []dgo.Value
	for n := nd.Choice(max); n > 0; n-- {
		v := pool[nd.Choice(4)]
		a.Add(v)
		if v == pool[0] || v == pool[1] {
			low = append(low, v)
		} else {
			high = append(high, v)
		}
	}
	s := a.Sort()
	for i, v := range append(low, high...) {
		_, is := s.Get(i).(dgo.Integer)
		_, want := v.(dgo.Integer)
		nd.Assert(is == want && s.Get(i).Equals(v), "elements that compare as equal keep their order")
	}
	nd.Reach("sorted")
}

// C16_Missing: Bounds: struct types with 4 keys, required or not, and maps with any of them and up to 2 other keys: one error for each required key that is missing and each key that is not known, with the key in it.
func C16_Missing() {
	keys := []string{"alpha", "beta", "gamma", "delta"}
	es := make([]dgo.StructMapEntry, len(keys))
	m := vf.MutableMap()
	var bad []string
	for i, k := range keys {
		req := nd.Choice(2) == 0
		es[i] = tf.StructMapEntry(k, typ.Integer, req)
		if nd.Choice(2) == 0 {
			m.Put(k, i)
		} else if req {
			bad = append(bad, k)
		}
	}
	for n := nd.Choice(3); n > 0; n-- {
		k := []string{"other", "more"}[n-1]
		m.Put(k, n)
		bad = append(bad, k)
	}
	st := tf.StructMap(false, es...)
	errs := st.Validate(nil, m)
	nd.Assert(len(errs) == len(bad), "Validate gives one error per key that is missing or unknown")
	for _, k := range bad {
		n := 0
		for _, e := range errs {
			if strings.Contains(e.Error(), k) {
				n++
			}
		}
		nd.Assert(n == 1, "an error for each key that is missing or unknown")
	}
	nd.Assert(st.Instance(m) == (len(bad) == 0), "a map is an instance when no key is missing or unknown")
	nd.Reach("missing")
}

// operands is the combination of n operands out of int, string, bool and float in one of three ways.
func operands(n int) (int, []dgo.Type, dgo.Type) {
	ts := make([]dgo.Type, n)
	is := make([]interface{}, n)
	for i := range ts {
		ts[i] = []dgo.Type{typ.Integer, typ.String, typ.Boolean, tf.Integer(0, 3, true)}[nd.Choice(4)]
		is[i] = ts[i]
	}
	op := nd.Choice(3)
	switch op {
	case 0:
		return op, ts, tf.AnyOf(is...)
	case 1:
		return op, ts, tf.OneOf(is...)
	default:
		return op, ts, tf.AllOf(is...)
	}
}

// operandValue is one of the values that tell the operands apart.
func operandValue() dgo.Value {
	return []dgo.Value{vf.Integer(2), vf.Integer(9), vf.String("a"), vf.True, vf.Nil}[nd.Choice(5)]
}

// countHas is the number of types that have v.
func countHas(ts []dgo.Type, v dgo.Value) (n int) {
	for _, t := range ts {
		if t.Instance(v) {
			n++
		}
	}
	return
}

// C14_Operands: Bounds: anyOf, oneOf and allOf of 2, 3 or 4 operands out of int, 0..3, string and bool, in any order, also the same ones, and 5 values: an instance of any, of exactly one, or of all.
func C14_Operands() {
	n := 2 + nd.Choice(3)
	op, ts, t := operands(n)
	v := operandValue()
	has := countHas(ts, v)
	want := has > 0
	switch op {
	case 1:
		want = has == 1
	case 2:
		want = has == n
	}
	nd.Assert(t.Instance(v) == want, "a combination of up to 4 types has the values it says")
	nd.Reach("operands")
}

// C10_Operands: Bounds: anyOf or allOf of 1 or 2, and anyOf, oneOf or allOf of up to 4 operands out of int, 0..3, string and bool, in any order, also the same ones, and 5 values.
func C10_Operands() {
	var a dgo.Type
	op, _, b := operands(2 + nd.Choice(3))
	x, xs, c := operands(2)
	switch x {
	case 1:
		a = xs[0]
	default:
		a = c
	}
	nd.Assume(a.Assignable(b))
	nd.Reach("assignable")
	v := operandValue()
	nd.Assert(!b.Instance(v) || a.Instance(v), "a type has every value of the combinations of up to 4 types assignable to it: "+[]string{"any", "one", "all"}[op])
}

type c10Namer interface {
	Name() string
	SetName(string)
	Len() int
}

type c10Named struct{ n string }

func (c *c10Named) Name() string     { return c.n }
func (c *c10Named) SetName(n string) { c.n = n }
func (c *c10Named) Len() int         { return len(c.n) }
func (c *c10Named) String() string   { return c.n }

type c10Word struct{ c chan int }

func (c c10Word) String() string { return "word" }

// C10_Natives: Bounds: 9 types of native Go values (all of them, interfaces with 1 and 3 methods, pointers, structs, channels) against each other, any and string, and 6 native values: a type has the values of the types that are assignable to it.
func C10_Natives() {
	ts := []dgo.Type{
		typ.Native,
		tf.FromReflected(reflect.TypeOf((*fmt.Stringer)(nil)).Elem()),
		tf.FromReflected(reflect.TypeOf((*c10Namer)(nil)).Elem()),
		tf.FromReflected(reflect.TypeOf(&c10Named{})),
		tf.FromReflected(reflect.TypeOf(c10Word{})),
		tf.FromReflected(reflect.TypeOf(make(chan int))),
		vf.Value(make(chan string)).Type(),
		vf.Value(reflect.ValueOf(&c10Named{"a"})).Type(),
		vf.Value(c10Word{}).Type(),
		typ.Any,
		typ.String,
	}
	var vs []dgo.Value
	for _, v := range []interface{}{reflect.ValueOf(&c10Named{"a"}), c10Word{make(chan int)}, make(chan int), make(chan string), make(<-chan int), complex(1, 2)} {
		vs = append(vs, vf.Value(v))
	}
	i, j, k := nd.Choice(len(ts)), nd.Choice(len(ts)), nd.Choice(len(vs))
	a, b, v := ts[i], ts[j], vs[k]
	nd.Assert(i == 10 || i == 9 || i == 3 || typ.Native.Assignable(a), "native is assignable from every native type")
	nd.Assert(!(a.Assignable(b) && b.Instance(v)) || a.Instance(v), "a native type has every value of the types assignable to it")
	nd.Assert(a.Assignable(v.Type()) == a.Instance(v), "a native type is assignable from the types of its values")
	nd.Assert(!a.Equals(b) || b.Equals(a) && a.HashCode() == b.HashCode() && a.Assignable(b) && b.Assignable(a), "equal native types")
	nd.Assert(v.Type().Instance(v) && v.Equals(v) && typ.Native.Instance(v) && typ.Any.Instance(v) && !typ.String.Instance(v), "a native value is an instance of its type")
	nd.Reach("natives")
}

type c19Rec struct {
	I  int8
	b  []byte
	m  map[string]int
	F  float64
	u  uintptr
	p  *int
	C  chan int
	e  error
	i  interface{}
	s  string
	t  bool
	in struct{ a uint16 }
	f  func()
}

// C19_NativeStructs: Bounds: two structs, by value or by pointer, with fields of 13 kinds, exported or not, some with symbolic contents: native values that are equal have equal hash codes, equal contents make equal values wherever they are, and others don't.
func C19_NativeStructs() {
	mk := func(how, k int, x int8, same bool) (dgo.Value, *c19Rec) {
		n := int(x)
		r := &c19Rec{I: 1, b: []byte{1, 2}, m: map[string]int{"a": 1}, F: 1, u: 5, s: "x", t: true}
		switch k {
		case 0:
			r.I = x
		case 1:
			r.b = []byte{byte(x), 2, 3}[:1+nd.Choice(2)]
		case 2:
			r.F = []float64{0, math.Copysign(0, -1), 1, 2.5}[nd.Choice(4)]
		case 3:
			r.p = &n
		case 4:
			r.u = uintptr(uint8(x))
		case 5:
			r.i = []interface{}{1, "a", nil, []int{1}, &n}[nd.Choice(5)]
		case 6:
			r.s = string(rune('a' + nd.Choice(2)))
		case 7:
			r.t = nd.Choice(2) == 0
		case 8:
			r.in.a = uint16(uint8(x))
		case 9:
			r.e = []error{nil, fmt.Errorf("e")}[nd.Choice(2)]
		case 10:
			r.m = map[string]int{"a": nd.Choice(2)}
		}
		if how == 0 {
			return vf.Value(reflect.ValueOf(r)), r
		}
		return vf.Value(reflect.ValueOf(*r)), r
	}
	how, k := nd.Choice(2), nd.Choice(11)
	x := int8(nd.Uint8())
	a, ra := mk(how, k, x, true)
	b, rb := mk(how, k, int8(nd.Uint8()), true)
	want := reflect.DeepEqual(ra, rb)
	nd.Assert(a.Equals(b) == want && b.Equals(a) == want, "native values are equal exactly when they are deeply equal")
	h := 0
	f := failure(func() { h = a.HashCode() })
	nd.Assert(f == "", "the hash code of a native value")
	nd.Assert(!want || h == b.HashCode(), "equal native values have equal hash codes")
	nd.Assert(a.Equals(a) && a.Type().Instance(a) && a.Type().Equals(b.Type()), "a native value equals itself and is an instance of its type")
	ra.f = func() {}
	c := vf.Value(reflect.ValueOf(*ra))
	nd.Assert(c.Equals(c) && c.HashCode() == c.HashCode(), "a native value with a function equals itself")
	nd.Reach("structs")
}

// C19_Channels: Bounds: two of 7 channels, with or without a buffer: equal exactly when they are the same, then with equal hash codes.
func C19_Channels() {
	pool := []interface{}{make(chan int), make(chan int), make(chan int, 2), make(chan int, 2), make(chan int, 3), make(chan bool, 2), uintptr(7)}
	i, j := nd.Choice(len(pool)), nd.Choice(len(pool))
	a, b := vf.Value(pool[i]), vf.Value(pool[j])
	nd.Assert(a.Equals(b) == (i == j), "channels with and without buffer are equal when they are the same")
	nd.Assert(i != j || a.HashCode() == b.HashCode(), "equal channels have equal hash codes")
	nd.Reach("channels")
}

// C17_Operands: Bounds: anyOf, oneOf and allOf of 2, 3 or 4 types, themselves single or combinations of 2, alone and as operand of 11 kinds of types.
func C17_Operands() {
	join := func(op int, ts ...interface{}) dgo.Type {
		switch op {
		case 0:
			return tf.AnyOf(ts...)
		case 1:
			return tf.OneOf(ts...)
		default:
			return tf.AllOf(ts...)
		}
	}
	n := 2 + nd.Choice(3)
	ts := make([]interface{}, n)
	for i := range ts {
		ts[i] = []dgo.Type{typ.Integer, typ.String, typ.Boolean, typ.Nil}[i]
	}
	if at := nd.Choice(n + 1); at < n {
		switch nd.Choice(5) {
		case 0:
			ts[at] = tf.Not(typ.Float)
		case 1:
			ts[at] = tf.Function(typ.EmptyTuple, tf.Tuple(typ.Float))
		default:
			ts[at] = join(nd.Choice(3), typ.Float, vf.String("a").Type())
		}
	}
	t := join(nd.Choice(3), ts...)
	switch nd.Choice(12) {
	case 0:
	case 1:
		t = tf.Not(t)
	case 2:
		t = tf.Array(t)
	case 3:
		t = tf.Array(t, 1, 2)
	case 4:
		t = tf.Map(t, t)
	case 5:
		t = tf.Tuple(t, typ.Integer)
	case 6:
		t = tf.VariadicTuple(t)
	case 7:
		t = tf.StructMap(false, tf.StructMapEntry("a", t, false))
	case 8:
		t = tf.Sensitive(t)
	case 9:
		t = tf.Meta(t)
	case 10:
		t = tf.Function(tf.Tuple(t), tf.Tuple(t))
	default:
		t = tf.Not(tf.Array(tf.Not(t)))
	}
	roundTrip(t, "operands")
	nd.Reach("operands")
}

// C23_CyclicMany: a value that contains itself, once to three times, directly or in an array, map or map with complex keys, next to other values, once or twice, is decoded to one that contains itself in all of the same places, with keys deduplicated or not, with and without rich data.
func C23_CyclicMany() {
	l := streamer.NoKeyDedup + streamer.DedupLevel(nd.Choice(2))
	data := nd.Choice(2) == 0
	var v dgo.Value
	in := func() dgo.Value {
		switch nd.Choice(6) {
		case 0:
			return v
		case 1:
			return vf.MutableValues(v, v)
		case 2:
			return vf.MutableValues(v, 1, v, "x", v)
		case 3:
			return vf.MutableMap("a", v, "b", v)
		case 4:
			return vf.MutableMap("a", v, 3, v, "c", vf.MutableValues(v, v))
		default:
			return vf.MutableValues(vf.MutableMap(4, vf.MutableValues(2, v)), vf.MutableMap("k", v))
		}
	}
	switch nd.Choice(3) {
	case 0:
		a := vf.MutableValues()
		v = a
		a.Add(in())
		a.Add(in())
	case 1:
		m := vf.MutableMap()
		v = m
		m.Put("a", in())
		m.Put("b", in())
	default:
		m := vf.MutableMap()
		v = m
		m.Put(1, in())
		m.Put("b", in())
	}
	r := decoded(v, l, data)
	var walk func(a, b dgo.Value, top bool)
	walk = func(a, b dgo.Value, top bool) {
		if a == v && !top {
			nd.Assert(b == r, "a value that contains itself in many places is decoded to one that does so in the same places")
			return
		}
		switch a := a.(type) {
		case dgo.Array:
			o, ok := b.(dgo.Array)
			nd.Assert(ok && o.Len() == a.Len(), "an array in a value that contains itself is kept")
			for i := 0; i < a.Len(); i++ {
				walk(a.Get(i), o.Get(i), false)
			}
		case dgo.Map:
			o, ok := b.(dgo.Map)
			nd.Assert(ok && o.Len() == a.Len(), "a map in a value that contains itself is kept")
			a.EachEntry(func(e dgo.MapEntry) { walk(e.Value(), o.Get(e.Key()), false) })
		default:
			nd.Assert(b != nil && a.Equals(b), "a scalar in a value that contains itself is kept")
		}
	}
	walk(v, r, true)
	nd.Reach("cyclic")
}

// C35_Functions: Bounds: the Go types of 24 functions with up to 3 parameters, variadic or not: their dgo type has the types of the parameters and results.
func C35_Functions() {
	n := 0
	gf, text, parse := goFunction(nd.Choice(nSig), &n)
	rt := reflect.TypeOf(gf)
	t := tf.FromReflected(rt).(dgo.FunctionType)
	nd.Assert(t.In().Len() == rt.NumIn() && t.Out().Len() == rt.NumOut() && t.Variadic() == rt.IsVariadic(), "the type of a Go function has its parameters and results")
	for i := 0; i < rt.NumIn(); i++ {
		e := rt.In(i)
		if rt.IsVariadic() && i == rt.NumIn()-1 {
			e = e.Elem()
		}
		nd.Assert(t.In().Element(i).Equals(tf.FromReflected(e)), "the type of a Go function has the types of its parameters")
	}
	for i := 0; i < rt.NumOut(); i++ {
		nd.Assert(t.Out().Element(i).Equals(tf.FromReflected(rt.Out(i))), "the type of a Go function has the types of its results")
	}
	if text != "" {
		nd.Assert(t.String() == text, "the text of the type of a Go function")
	}
	if parse {
		nd.Assert(tf.ParseType(text).Equals(t), "the type of a Go function equals the one that its text denotes")
	}
	nd.Assert(t.Instance(gf) && t.Instance(vf.Value(gf)), "a Go function is an instance of its type")
	nd.Reach("functions")
}
