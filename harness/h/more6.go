package h

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"verif/harness/nd"
)

// C23_ReferenceKeys: Bounds: maps of two or three entries among whose keys are the keys of references and values, at the top or in an array,
// at three levels of deduplication: they are data, not references.
func C23_ReferenceKeys() {
	n := 2 + nd.Choice(2)
	m := vf.MutableMap()
	for i := 0; i < n; i++ {
		m.Put([]string{"__ref", "__value", "a", "__typ"}[nd.Choice(4)], []interface{}{0, "x", nil, vf.Values(1)}[nd.Choice(4)])
	}
	nd.Assume(m.Len() > 1)
	v := dgo.Value(m)
	if nd.Choice(2) == 0 {
		v = vf.Values("x", m)
	}
	o := streamer.DefaultOptions()
	o.DedupLevel = []streamer.DedupLevel{streamer.NoDedup, streamer.NoKeyDedup, streamer.MaxDedup}[nd.Choice(3)]
	c := streamer.DataDecoder(nil, nil)
	streamer.New(nil, o).Stream(v, c)
	nd.Reach("keys")
	nd.Assert(c.Value().Equals(v), "a map of several entries is data whatever its keys are")
}

type c10Int32 struct{ a int32 }
type c10Int32b struct{ a int32 }
type c10Chan chan int
type c10Complex complex64

// C10_Convertible: Bounds: native types of Go values of the same kind (structs with the same fields, channels, complex numbers, unnamed and
// named) against each other: the values of one are values of the types it is assignable to.
func C10_Convertible() {
	var st struct{ a int32 }
	vs := []dgo.Value{vf.Value(c10Int32{1}), vf.Value(c10Int32b{1}), vf.Value(reflect.ValueOf(st)), vf.Value(make(chan int)), vf.Value(make(c10Chan)),
		vf.Value(make(<-chan int)), vf.Value(complex64(1)), vf.Value(complex(1, 2)), vf.Value(c10Complex(1))}
	i, j := nd.Choice(len(vs)), nd.Choice(len(vs))
	a, b := vs[i].Type(), vs[j].Type()
	nd.Reach("convertible")
	nd.Assert(a.Assignable(b) == a.Instance(vs[j]), "a native type is assignable from exactly the types of its values: convertible")
	nd.Assert(tf.Array(a).Assignable(tf.Array(b)) == a.Assignable(b), "a native type is assignable from exactly the types of its values: elements")
	nd.Assert(i != j || a.Assignable(b), "a native type is assignable from itself")
}

// C21_EveryKind: Bounds: 9 types with constraints and arguments of 10 kinds, given as such or as the only argument: the result is an instance of
// the type, and it is what the type without constraints converts to.
func C21_EveryKind() {
	ts := []struct{ t, g dgo.Type }{
		{tf.Integer(5, 9, true), typ.Integer},
		{tf.Integer(0, 1, false), typ.Integer},
		{tf.Float(0.5, 9, true), typ.Float},
		{vf.Integer(1).Type(), typ.Integer},
		{vf.Float(0).Type(), typ.Float},
		{vf.False.Type(), typ.Boolean},
		{tf.String(4, 5), typ.String},
		{tf.Binary(2, 3), typ.Binary},
		{tf.Array(typ.Integer, 2, 3), typ.Array},
	}
	t := ts[nd.Choice(len(ts))]
	as := []dgo.Value{vf.True, vf.False, vf.Integer(0), vf.Integer(7), vf.Float(1), vf.Float(7.5), vf.Time(zoned(7, 0, 0)), vf.String("true"), vf.String("7"), vf.Values(1, 7), vf.Values(),
		vf.Binary([]byte{1}, true), vf.Binary([]byte{1, 7}, false)}
	a := as[nd.Choice(len(as))]
	arg := a
	if nd.Choice(2) == 0 {
		arg = vf.Arguments(a)
	}
	var v, w dgo.Value
	if panics(func() { w = vf.New(t.g, arg) }) {
		w = nil
	}
	if panics(func() { v = vf.New(t.t, arg) }) {
		v = nil
	}
	nd.Reach("kinds")
	nd.Assert((v != nil) == (w != nil && t.t.Instance(w)), "New gives instances of the type only")
	nd.Assert(v == nil || v.Equals(w), "a constraint doesn't change what New converts to")
}

// C21_Numerals: Bounds: texts of up to three of eight characters that start numerals of any radix, in one argument, as argument, or with radix
// ten: all are read as decimal numbers.
func C21_Numerals() {
	s := ""
	for n := 1 + nd.Choice(3); n > 0; n-- {
		s += []string{"0", "x", "b", "_", "1", "8", "-", "o"}[nd.Choice(8)]
	}
	want, err := strconv.ParseInt(s, 10, 64)
	var v dgo.Value
	how := nd.Choice(3)
	f := panics(func() {
		v = vf.New(typ.Integer, []dgo.Value{vf.String(s), vf.Arguments(s), vf.Arguments(s, 10)}[how])
	})
	nd.Reach("numerals")
	nd.Assert(f == (err != nil), "a numeral without radix is a decimal number")
	nd.Assert(f || v.Equals(want), "a numeral without radix is a decimal number: value")
}

// C03_EqualValues: Bounds: a mutable map of one to three entries into which a value is put, in four ways, that is equal to or differs from the one that is there but isn't the
// same: the new one is there afterwards, in the same place.
func C03_EqualValues() {
	n := 1 + nd.Choice(3)
	at := nd.Choice(n)
	x := vf.MutableValues(nd.Choice(2))
	ks := []string{"a", "b", "c"}
	m := vf.MutableMap()
	for i := 0; i < n; i++ {
		m.Put(ks[i], vf.MutableValues(0))
	}
	switch nd.Choice(4) {
	case 0:
		m.Put(ks[at], x)
	case 1:
		m.PutAll(vf.MutableMap(ks[at], x))
	case 2:
		m = m.Merge(vf.MutableMap(ks[at], x))
	case 3:
		nd.Assume(!x.Equals(vf.Values(0))) // a map with an equal value is the map itself
		m = m.With(ks[at], x)
	}
	x.Add(5)
	nd.Reach("put")
	nd.Assert(m.Get(ks[at]) == dgo.Value(x), "the value of a key is the last one that was put")
	nd.Assert(m.Len() == n && m.Keys().Equals(vf.Strings(ks[:n]...)), "an entry whose value is replaced stays where it is")
}

// C04_GoMaps: Bounds: Go maps with 0 to 20 integers, strings or floats as keys, in any order: the keys are sorted, every value is there.
func C04_GoMaps() {
	n := nd.Choice(21)
	var v interface{}
	switch nd.Choice(3) {
	case 0:
		g := map[int]int{}
		for i := 0; i < n; i++ {
			g[i*7%23] = i
		}
		v = g
	case 1:
		g := map[string]int{}
		for i := 0; i < n; i++ {
			g[string([]byte{byte('a' + i*7%23)})] = i
		}
		v = g
	case 2:
		g := map[float64]int{}
		for i := 0; i < n; i++ {
			g[float64(i*7%23)/2] = i
		}
		v = g
	}
	m := vf.Map(v)
	if nd.Choice(2) == 0 {
		m = vf.MutableMap(v)
	}
	ks := m.Keys()
	nd.Reach("go map")
	nd.Assert(m.Len() == n && ks.Len() == n && ks.Equals(ks.Sort()), "the keys of a Go map are sorted")
	sum := 0
	m.EachValue(func(v dgo.Value) { sum += int(v.(dgo.Integer).GoInt()) })
	nd.Assert(sum == n*(n-1)/2, "the values of a Go map are there")
}

// C05_First: Bounds: arrays of up to four mutable arrays out of two equal ones and a different one: what is removed, found or kept by value is the first
// of the equal ones.
func C05_First() {
	n := 1 + nd.Choice(4)
	vs := make([]dgo.Value, n)
	for i := range vs {
		vs[i] = vf.MutableValues(nd.Choice(2))
	}
	q := vf.Values(nd.Choice(2))
	at := -1
	for i := range vs {
		if at < 0 && vs[i].Equals(q) {
			at = i
		}
	}
	a := vf.MutableValues()
	for _, v := range vs {
		a.Add(v)
	}
	nd.Reach("first")
	nd.Assert(a.IndexOf(q) == at, "the first equal element is found")
	nd.Assert(a.RemoveValue(q) == (at >= 0), "a value is removed when it is there")
	k := 0
	ok := true
	for i := range vs {
		if i != at {
			ok = ok && k < a.Len() && a.Get(k) == vs[i]
			k++
		}
	}
	nd.Assert(ok && k == a.Len(), "the first of equal elements is removed, the others stay")
}

// C05_ToItself: Bounds: arrays of 0 to 6 elements, with room for more or not, that are added to themselves in four ways.
func C05_ToItself() {
	n := nd.Choice(7)
	a := vf.ArrayWithCapacity([]int{0, n, n + 1, 2 * n}[nd.Choice(4)])
	for i := 0; i < n; i++ {
		a.Add(i)
	}
	b := a
	switch nd.Choice(4) {
	case 0:
		a.AddAll(a)
	case 1:
		b = a.WithAll(a)
	case 2:
		a.AddAll(a.Slice(0, n))
	case 3:
		b = a.WithValues(a.InterfaceSlice()...)
	}
	ok := b.Len() == 2*n
	for i := 0; ok && i < 2*n; i++ {
		ok = b.Get(i).Equals(i % n)
	}
	nd.Reach("itself")
	nd.Assert(ok, "an array that is added to itself has its elements twice")
	nd.Assert(b == a || a.Len() == n, "what an array is added to doesn't change")
}

// C15_MapSizes: Bounds: map types with any sizes from 0 to 6 and keys and values of any type, of integers, or of strings, and maps of 0 to 6 integers by integers.
func C15_MapSizes() {
	min, max, n := nd.Choice(7), nd.Choice(7), nd.Choice(7)
	nd.Assume(min <= max)
	k, v := nd.Choice(3), nd.Choice(3)
	ts := []dgo.Type{typ.Any, typ.Integer, typ.String}
	t := tf.Map(ts[k], ts[v], min, max)
	m := vf.MapWithCapacity(n)
	for i := 0; i < n; i++ {
		m.Put(i, i)
	}
	want := min <= n && n <= max && (n == 0 || k < 2 && v < 2)
	nd.Reach("sizes")
	nd.Assert(t.Instance(m) == want, "a map type has the maps of its sizes")
	nd.Assert(t.Assignable(m.Type()) == want, "a map type has the types of the maps of its sizes")
	nd.Assert(tf.Array(ts[k], min, max).Instance(m.Keys()) == (min <= n && n <= max && (n == 0 || k < 2)), "an array type has the arrays of its sizes")
}

// C32_MergeStructs: Bounds: a map made from a struct, frozen or not, merged with a map made of a struct of the same or another type, frozen or not, with
// arbitrary integers: another map that has the entries of the latter and is frozen as the former, and none is affected by changes of the others.
func C32_MergeStructs() {
	x, y := nd.Int64(), nd.Int64()
	a := vf.Map(&c32Two{x, "a"})
	same := nd.Choice(2) == 0
	var b dgo.Map = vf.Map(&struct{ A, C int64 }{y, 1})
	if same {
		b = vf.Map(&c32Two{y, "b"})
	}
	fa, fb := nd.Choice(2) == 0, nd.Choice(2) == 0
	if fa {
		a = a.FrozenCopy().(dgo.Map)
	}
	if fb {
		b = b.FrozenCopy().(dgo.Map)
	}
	r := a.Merge(b)
	nd.Reach("structs")
	nd.Assert(r.Frozen() == fa, "a merged map is frozen as the receiver is")
	nd.Assert(r.Get("A").Equals(y), "a merged map has the values of the argument")
	if same {
		nd.Assert(r.Len() == 2 && r.Get("B").Equals("b"), "a merged map has the values of the argument: all")
	} else {
		nd.Assert(r.Len() == 3 && r.Get("B").Equals("a") && r.Get("C").Equals(1), "a merged map has the entries of both")
	}
	if !fa {
		r.Put("A", 4)
		nd.Assert(a.Get("A").Equals(x) && b.Get("A").Equals(y), "a change of a merged map affects none that it was made of")
	}
	if !fb {
		b.Put("A", 3)
		nd.Assert(a.Get("A").Equals(x) && (r.Get("A").Equals(4) || r.Get("A").Equals(y)), "a change of what was merged affects no other")
	}
}

// C31_WhiteSpace: Bounds: texts of up to five line breaks, tabs, spaces and letters, appended or appended indented after nothing or a letter: what is there is the
// text except for white space at the end of lines.
func C31_WhiteSpace() {
	n := nd.Choice(6)
	s := ""
	for i := 0; i < n; i++ {
		s += []string{"\n", "a", " ", "\t"}[nd.Choice(4)]
	}
	w := util.NewIndenter("  ")
	p := []string{"", "b"}[nd.Choice(2)]
	w.Append(p)
	if nd.Choice(2) == 0 {
		w.Append(s)
	} else {
		w.AppendIndented(s)
	}
	ls := strings.Split(p+s, "\n")
	for i := range ls {
		ls[i] = strings.TrimRight(ls[i], " \t")
	}
	nd.Reach("white space")
	nd.Assert(w.String() == strings.Join(ls, "\n"), "the text of an indenter is what was appended")
}

// C17_SizedOf: Bounds: array, map, sensitive and negated types and types of types, with sizes from 0 to 2 or none, of 12 types with and without operators and sizes.
func C17_SizedOf() {
	of := []dgo.Type{tf.AnyOf(typ.String, typ.Integer), tf.OneOf(typ.String, typ.Integer), tf.AllOf(typ.String, tf.Not(vf.String("a").Type())), tf.Not(typ.Integer), tf.Binary(0, 0), tf.Binary(0, 1),
		tf.String(0, 0), tf.String(1, 1), tf.Array(typ.Integer, 0, 0), tf.Map(typ.Integer, typ.Any, 0, 0), tf.Integer(0, 1, false), tf.Sensitive(tf.String(0, 0))}[nd.Choice(12)]
	lo, hi := nd.Choice(3), nd.Choice(4)
	nd.Assume(lo <= hi)
	if hi == 3 {
		hi = int(^uint(0) >> 1)
	}
	var t dgo.Type
	switch nd.Choice(8) {
	case 0:
		t = tf.Array(of, lo, hi)
	case 1:
		t = tf.Map(typ.String, of, lo, hi)
	case 2:
		t = tf.Map(of, typ.Any, lo, hi)
	case 3:
		t = tf.Map(of, of, lo, hi)
	case 4:
		t = tf.Sensitive(tf.Array(of, lo, hi))
	case 5:
		t = tf.Not(tf.Map(of, of, lo, hi))
	case 6:
		t = tf.Map(typ.Integer, of, lo, hi).Type()
	default:
		t = tf.AnyOf(tf.Map(typ.Integer, of, lo, hi), tf.Sensitive(of))
	}
	nd.Reach("sized")
	s := t.String()
	nd.Assert(!panics(func() {
		nd.Assert(tf.ParseType(s).Equals(t), "the string form of a type parses to an equal type: sized")
	}), "the string form of a type can be parsed: sized")
}
