package h

import (
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"verif/harness/nd"
)

// goFunctions are Go functions that all have different types, and what these are written as.
func goFunctions() ([]interface{}, []string) {
	return []interface{}{
		func() {},
		func(string) {},
		func(...string) {},
		func(bool) {},
		func(string, string) {},
		func(string, ...string) {},
		func(string, ...bool) {},
		func(bool, string) {},
		func(string, bool, ...string) {},
		func(string, bool, string) {},
		func([]string) {},
		func(...[]string) {},
		func() string { return `` },
		func() (string, bool) { return ``, false },
		func() (bool, string) { return false, `` },
		func(string) string { return `` },
		func(...string) string { return `` },
	}, []string{
		"func()",
		"func(string)",
		"func(...string)",
		"func(bool)",
		"func(string,string)",
		"func(string,...string)",
		"func(string,...bool)",
		"func(bool,string)",
		"func(string,bool,...string)",
		"func(string,bool,string)",
		"func([]string)",
		"func(...[]string)",
		"func() string",
		"func() (string,bool)",
		"func() (bool,string)",
		"func(string) string",
		"func(...string) string",
	}
}

// C01_Functions: Bounds: the types of 17 Go functions with 0 to 3 parameters and 0 to 2 results, and the types that their texts parse
// to, against each other: equal exactly when they are of the same function, and so are the tuples of their parameters.
func C01_Functions() {
	gs, ts := goFunctions()
	pick := func() (int, dgo.FunctionType) {
		k := nd.Choice(len(gs))
		if nd.Choice(2) == 0 {
			return k, vf.Value(gs[k]).Type().(dgo.FunctionType)
		}
		return k, tf.ParseType(ts[k]).(dgo.FunctionType)
	}
	i, x := pick()
	j, y := pick()
	nd.Reach("functions")
	nd.Assert(x.Equals(y) == (i == j) && y.Equals(x) == (i == j), "function types are equal when the parameters and results are")
	nd.Assert(i != j || x.HashCode() == y.HashCode(), "equal function types have equal hash codes")
	nd.Assert((vf.Map(x, 1).Get(y) != nil) == (i == j), "function types are equal when the parameters and results are: keys")
	nd.Assert(x.In().Equals(y.In()) == y.In().Equals(x.In()), "equality of parameters is symmetric")
	nd.Assert(!x.In().Equals(y.In()) || x.In().HashCode() == y.In().HashCode(), "equal parameters have equal hash codes")
	nd.Assert(x.Variadic() == x.In().Variadic() && (!x.In().Equals(y.In()) || x.Variadic() == y.Variadic()), "equal parameters are variadic both or not")
	nd.Assert(x.In().Equals(y.In()) && x.Out().Equals(y.Out()) == (i == j) || i != j, "function types are equal when the parameters and results are: parts")
	if i == j {
		nd.Assert(x.Assignable(y) && x.String() == y.String(), "equal function types are assignable")
	}
}

// C02_Functions: Bounds: the types of 17 Go functions and those that their texts parse to, and their parameters and results.
func C02_Functions() {
	gs, ts := goFunctions()
	k := nd.Choice(len(gs))
	x := vf.Value(gs[k]).Type().(dgo.FunctionType)
	y := tf.ParseType(ts[k]).(dgo.FunctionType)
	nd.Reach("functions")
	hashAgrees(x, y)
	hashAgrees(x.In(), y.In())
	hashAgrees(x.Out(), y.Out())
	nd.Assert(x.Equals(y) && x.HashCode() == y.HashCode(), "a function type equals the one that its text parses to")
	l := nd.Choice(len(gs))
	hashAgrees(x.In(), tf.ParseType(ts[l]).(dgo.FunctionType).In())
	hashAgrees(tf.Array(x, 1, 2), tf.Array(tf.ParseType(ts[l]), 1, 2))
}

type oneField struct{ B int8 }
type twoFields struct{ B, A int8 }
type threeFields struct {
	C int8
	A string
	B bool
}

// C02_Structs: Bounds: maps made from structs, or pointers to structs, of 1 to 3 fields with arbitrary integers and booleans, and maps of the same
// associations in both orders.
func C02_Structs() {
	i, j, b := nd.Int8(), nd.Int8(), nd.Bool()
	var m, o, r dgo.Map
	p := nd.Choice(2) == 0
	mk := func(v, pv interface{}) dgo.Map {
		if p {
			return vf.Map(pv)
		}
		return vf.Map(v)
	}
	switch nd.Choice(3) {
	case 0:
		s := oneField{i}
		m, o, r = mk(s, &s), vf.Map("B", i), vf.MutableMap("B", i)
	case 1:
		s := twoFields{i, j}
		m, o, r = mk(s, &s), vf.Map("A", j, "B", i), vf.MutableMap("B", i, "A", j)
	default:
		s := threeFields{i, "x", b}
		m, o, r = mk(s, &s), vf.Map("A", "x", "B", b, "C", i), vf.Map("C", i, "A", "x", "B", b)
	}
	nd.Reach("structs")
	nd.Assert(m.Equals(o) && o.Equals(m) && m.Equals(r) && r.Equals(m), "a map made from a struct equals the map of the same associations")
	nd.Assert(m.HashCode() == o.HashCode() && m.HashCode() == r.HashCode(), "equal values have equal hash codes: structs")
	nd.Assert(m.FrozenCopy().HashCode() == o.HashCode() && vf.Values(m).HashCode() == vf.Values(r).HashCode(), "equal values have equal hash codes: structs")
}

// C10_Tuples: Bounds: tuples of 0 to 3 elements out of 4 types, variadic or not, parameters of Go functions, and arrays with sizes up to
// 3, against each other: whichever is assignable from the other has each of the arrays of up to 3 elements out of 3
// values that the other has.
func C10_Tuples() {
	gs, _ := goFunctions()
	es := []dgo.Type{typ.String, typ.Boolean, typ.Any, tf.AnyOf(typ.String, typ.Boolean)}
	made := func() dgo.Type {
		switch nd.Choice(6) {
		case 0:
			return vf.Value(gs[nd.Choice(10)]).Type().(dgo.FunctionType).In()
		case 1:
			lo := nd.Choice(3)
			if nd.Choice(2) == 0 {
				return tf.Array(es[nd.Choice(4)], lo)
			}
			return tf.Array(es[nd.Choice(4)], lo, lo+nd.Choice(2))
		default:
			n := nd.Choice(4)
			ts := make([]interface{}, n)
			for i := range ts {
				ts[i] = es[nd.Choice(3)]
			}
			if n > 0 && nd.Choice(2) == 0 {
				return tf.VariadicTuple(ts...)
			}
			return tf.Tuple(ts...)
		}
	}
	x, y := made(), made()
	xy, yx := x.Assignable(y), y.Assignable(x)
	nd.Reach("tuples")
	nd.Assert(x.Assignable(x) && y.Assignable(y), "a type is assignable from itself: tuples")
	if !xy && !yx {
		return
	}
	vs := []interface{}{"a", true, nil}
	check := func(a dgo.Array) {
		nd.Assert(!xy || !y.Instance(a) || x.Instance(a), "a type has every value of the types assignable to it: tuples")
		nd.Assert(!yx || !x.Instance(a) || y.Instance(a), "a type has every value of the types assignable to it: tuples")
	}
	check(vf.Values())
	for _, a := range vs {
		check(vf.Values(a))
		for _, b := range vs {
			check(vf.Values(a, b))
			for _, c := range vs {
				check(vf.Values(a, b, c))
			}
		}
	}
}

// C10_ManyOperands: Bounds: any of, all of and one of 3 or 4 out of 6 types of strings and integers, in any order, asked about the exact types of 4
// values: they are assignable exactly when the value is an instance.
func C10_ManyOperands() {
	ts := []dgo.Type{typ.String, tf.String(1, 10), tf.String(3), typ.Integer, tf.Integer(0, 5, true), typ.Any}
	n := 3 + nd.Choice(2)
	os := make([]interface{}, n)
	for i := range os {
		os[i] = ts[nd.Choice(6)]
	}
	v := vf.Value([]interface{}{"", "ab", "abcd", 3, 9}[nd.Choice(5)])
	var t dgo.Type
	switch nd.Choice(3) {
	case 0:
		t = tf.OneOf(os...)
	case 1:
		t = tf.AnyOf(os...)
	default:
		t = tf.AllOf(os...)
	}
	nd.Reach("operands")
	nd.Assert(t.Assignable(v.Type()) == t.Instance(v), "a type is assignable from the type of a value when it has the value: many operands")
}

// C08_FromSlices: Bounds: slices of 0 to 2 elements of 6 Go types, given to 6 constructors: what is frozen doesn't change when the slice does, and has what the slice had.
func C08_FromSlices() {
	n := nd.Choice(3)
	var s interface{}
	var change func()
	switch nd.Choice(6) {
	case 0:
		x := make([]dgo.Value, n)
		for i := range x {
			x[i] = []dgo.Value{vf.Integer(1), vf.String("a"), vf.MutableValues(1), vf.Nil}[nd.Choice(4)]
		}
		s, change = x, func() {
			for i := range x {
				x[i] = vf.Integer(9)
			}
		}
	case 1:
		x := make([]interface{}, n)
		for i := range x {
			x[i] = []interface{}{1, "a", []int{1}, nil}[nd.Choice(4)]
		}
		s, change = x, func() {
			for i := range x {
				x[i] = 9
			}
		}
	case 2:
		x := make([]int8, n)
		for i := range x {
			x[i] = nd.Int8()
		}
		s, change = x, func() {
			for i := range x {
				x[i]++
			}
		}
	case 3:
		x := make([]string, n)
		s, change = x, func() {
			for i := range x {
				x[i] = "9"
			}
		}
	case 4:
		x := make([]dgo.Integer, n)
		for i := range x {
			x[i] = vf.Integer(1)
		}
		s, change = x, func() {
			for i := range x {
				x[i] = vf.Integer(9)
			}
		}
	default:
		x := make([][]int, n)
		for i := range x {
			x[i] = []int{1}
		}
		s, change = x, func() {
			for i := range x {
				x[i][0] = 9
			}
		}
	}
	var v dgo.Value
	switch nd.Choice(6) {
	case 0:
		v = vf.Value(s)
	case 1:
		v = vf.Value(reflect.ValueOf(s))
	case 2:
		v = vf.ValueFromReflected(reflect.ValueOf(s))
	case 3:
		v = vf.Array(s)
	case 4:
		v = vf.Array(reflect.ValueOf(s))
	default:
		v = vf.Values(s).Get(0)
	}
	a, ok := v.(dgo.Array)
	nd.Assert(ok && a.Len() == n, "a slice is converted to an array of its elements")
	if !a.Frozen() {
		return
	}
	was := a.Map(func(e dgo.Value) interface{} {
		if f, ok := e.(dgo.Freezable); ok {
			nd.Assert(f.Frozen(), "everything in a frozen array is frozen")
			return f.FrozenCopy()
		}
		return e
	})
	text, hash := a.String(), a.HashCode()
	change()
	nd.Reach("slices")
	nd.Assert(a.Equals(was) && a.String() == text && a.HashCode() == hash, "a frozen array doesn't change when the slice does that it was made of")
}

// C27_SameTypes: Bounds: functions with 2 or 3 parameters of the same type, variadic or not, called with arbitrary integers or 2 strings each, and up to 2 variadic arguments.
func C27_SameTypes() {
	i, j, k := nd.Int8(), nd.Int8(), nd.Int8()
	s, u := []string{"", "a"}[nd.Choice(2)], []string{"", "b", "bc"}[nd.Choice(3)]
	var f interface{}
	var args dgo.Array
	var want []interface{}
	switch nd.Choice(5) {
	case 0:
		f = func(a, b, c int8) (int8, int8, int8) { return a, b, c }
		args, want = vf.Values(i, j, k), []interface{}{i, j, k}
	case 1:
		f = func(a, b string, c ...int8) (string, string, []int8) { return a, b, c }
		args, want = vf.Values(s, u, i, j), []interface{}{s, u, []int8{i, j}}
	case 2:
		f = func(a, b int8, c ...int8) (int8, int8, []int8) { return a, b, c }
		args, want = vf.Values(i, j, k), []interface{}{i, j, []int8{k}}
	case 3:
		f = func(a, b []int8, c ...[]int8) ([]int8, []int8, int) { return a, b, len(c) }
		args, want = vf.Values(vf.Values(i), vf.Values(j, k)), []interface{}{[]int8{i}, []int8{j, k}, 0}
	default:
		f = func(a, b map[string]int8, c ...string) (map[string]int8, map[string]int8, []string) { return a, b, c }
		args, want = vf.Values(vf.Map("x", i), vf.Map("y", j), s, u), []interface{}{vf.Map("x", i), vf.Map("y", j), []string{s, u}}
	}
	r := vf.Value(f).(dgo.Function).Call(args)
	nd.Reach("same types")
	nd.Assert(len(r) == len(want), "calling a function gives what the Go function returns: number of results")
	for x := range want {
		nd.Assert(vf.Value(want[x]).Equals(r[x]), "calling a function gives what the Go function returns: parameters of the same type")
	}
}

type putStruct struct {
	A int8
	B *string
	C []int8
	d int8
}

// C32_PutAll: Bounds: a map made from a struct of 3 exported fields and a map of 1 or 2 associations of 6 keys with 6 kinds of values: refused when a
// key is no field or a value doesn't fit, and otherwise they are in the struct.
func C32_PutAll() {
	s := &putStruct{A: 1, C: []int8{1}, d: 4}
	m := vf.Map(s)
	keys := []interface{}{"A", "B", "C", "d", "X", 1}
	i := []int64{5, -128, 128, 1 << 32}[nd.Choice(4)]
	vals := []interface{}{i, nil, "x", vf.Values(2), true, 1.5}
	p := vf.MutableMap()
	bad := false
	n := 1 + nd.Choice(2)
	for ; n > 0; n-- {
		k, v := nd.Choice(6), nd.Choice(6)
		p.Put(keys[k], vals[v])
	}
	p.EachEntry(func(e dgo.MapEntry) {
		fits := false
		switch {
		case e.Key().Equals("A"):
			x, ok := e.Value().(dgo.Integer)
			fits = ok && x.GoInt() >= -128 && x.GoInt() <= 127 || e.Value() == vf.Nil // nil is the zero value
		case e.Key().Equals("B"):
			_, ok := e.Value().(dgo.String)
			fits = ok || e.Value() == vf.Nil
		case e.Key().Equals("C"):
			_, ok := e.Value().(dgo.Array)
			fits = ok || e.Value() == vf.Nil
		}
		bad = bad || !fits
	})
	r := panics(func() { m.PutAll(p) })
	nd.Reach("put all")
	nd.Assert(r == bad, "putting something that is no field or doesn't fit is refused: put all")
	nd.Assert(s.d == 4 && m.Len() == 3, "the fields of the struct stay")
	if !bad {
		p.EachEntry(func(e dgo.MapEntry) {
			v := e.Value()
			if v == vf.Nil && e.Key().Equals("A") {
				v = vf.Integer(0)
			}
			nd.Assert(m.Get(e.Key()).Equals(v), "what is put is there: put all")
		})
	}
}
