package h

import (
	"encoding/json"
	"errors"
	"math"
	"reflect"
	"regexp"
	"strconv"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// C12_IntEnum: Bounds: types of 0 to 3 given integers (any int) against every int64.
func C12_IntEnum() {
	x := nd.Int64()
	in := false
	is := make([]int, nd.Choice(4))
	ts := make([]interface{}, len(is))
	for i := range is {
		is[i] = nd.Int()
		ts[i] = vf.Integer(int64(is[i])).Type()
		in = nd.Or(in, int64(is[i]) == x)
	}
	t := tf.IntEnum(is...)
	nd.Assert(t.Instance(x) == in && t.Instance(vf.Integer(x)) == in, "an int enum has its integers")
	nd.Assert(t.Assignable(vf.Integer(x).Type()) == in, "an int enum is assignable from its integers")
	nd.Assert(!t.Instance(vf.Float(float64(len(is)))) && !t.Instance("1") && !t.Instance(nil), "an int enum has integers only")
	nd.Assert((len(is) == 0 || typ.Integer.Assignable(t)) && !t.Assignable(typ.Integer), "an int enum is an integer type")
	if len(is) > 1 {
		nd.Assert(t.Equals(tf.AnyOf(ts...)) && tf.AnyOf(ts...).Equals(t), "an int enum is any of its integers")
	}
}

// C12_Numbers: Bounds: every int64, every finite float64 within the range of int64.
func C12_Numbers() {
	i := nd.Int64()
	n, ok := vf.Integer(i).(dgo.Number)
	nd.Assert(ok && n.ToInt() == i && n.ToFloat() == float64(i), "the number of an integer")
	f := nd.Float64()
	nd.Assume(f > -9e18 && f < 9e18)
	n, ok = vf.Float(f).(dgo.Number)
	nd.Assert(ok && n.ToFloat() == f && n.ToInt() == int64(f), "the number of a float")
	nd.Assert(vf.Nil.GoNil() == nil, "nil in Go")
}

// C27_Tuples: Bounds: the tuples of the parameters and results of 6 Go functions: they are as the
// tuple types of the same types.
func C27_Tuples() {
	var f interface{}
	var in, out dgo.TupleType
	switch nd.Choice(6) {
	case 0:
		f, in, out = func() {}, tf.Tuple(), tf.Tuple()
	case 1:
		f, in, out = func(int64) string { return "" }, tf.Tuple(typ.Integer), tf.Tuple(typ.String)
	case 2:
		f, in, out = func(...string) {}, tf.VariadicTuple(typ.String), tf.Tuple()
	case 3:
		f, in, out = func(int64, ...int64) (int64, int64) { return 0, 0 }, tf.VariadicTuple(typ.Integer, typ.Integer), tf.Tuple(typ.Integer, typ.Integer)
	case 4:
		f, in, out = func([]int64, map[string]bool) error { return nil }, tf.Tuple(tf.Array(typ.Integer), tf.Map(typ.String, typ.Boolean)), tf.Tuple(typ.Error)
	default:
		f, in, out = func(string, ...bool) float64 { return 0 }, tf.VariadicTuple(typ.String, typ.Boolean), tf.Tuple(typ.Float)
	}
	ft := vf.Value(f).Type().(dgo.FunctionType)
	t, w := ft.In(), in
	if nd.Choice(2) == 0 {
		t, w = ft.Out(), out
	}
	nd.Assert(t.Equals(w) && w.Equals(t) && t.HashCode() == w.HashCode(), "the tuple of a function equals the tuple of its types")
	nd.Assert(t.Len() == w.Len() && t.Min() == w.Min() && t.Max() == w.Max() && t.Variadic() == w.Variadic(), "the sizes of the tuple of a function")
	nd.Assert(t.Unbounded() == (t.Variadic() && t.Len() == 1), "the tuple of a function is unbounded")
	nd.Assert(t.ElementType().Equals(w.ElementType()), "the element type of the tuple of a function")
	nd.Assert(t.ElementTypes().Equals(w.ElementTypes()), "the element types of the tuple of a function")
	for i := 0; i < t.Len(); i++ {
		nd.Assert(t.Element(i).Equals(w.Element(i)), "an element of the tuple of a function")
	}
	nd.Assert(t.ReflectType() == w.ReflectType(), "the Go type of the tuple of a function")
	nd.Assert(t.Type().Equals(w.Type()) && t.Type().Instance(w) && w.Type().Instance(t), "the type of the tuple of a function")
	nd.Assert(t.String() == w.String() && t.TypeIdentifier() == w.TypeIdentifier(), "the string form of the tuple of a function")
	nd.Assert(t.Assignable(w) && w.Assignable(t), "the tuple of a function is assignable")
	a := vf.MutableValues()
	for n := nd.Choice(4); n > 0; n-- {
		a.Add([]interface{}{1, "a", true}[nd.Choice(3)])
	}
	nd.Assert(t.Instance(a) == w.Instance(a) && t.Assignable(a.Type()) == w.Assignable(a.Type()), "the instances of the tuple of a function")
}

// C34_Strings: Bounds: pattern, dgo string and case independent types against strings of up to 2
// ASCII bytes: the limits hold for every instance.
func C34_Strings() {
	var t dgo.StringType
	switch nd.Choice(3) {
	case 0:
		t = tf.Pattern(regexp.MustCompile([]string{"", "^a", "^..?$"}[nd.Choice(3)])).(dgo.StringType)
		nd.Assert(t.Unbounded() && t.Min() == 0 && t.Max() == math.MaxInt64, "a pattern doesn't tell sizes")
	case 1:
		t = typ.DgoString
		nd.Assert(t.Min() == 1 && t.Max() == math.MaxInt64 && !t.Unbounded(), "the sizes of dgo strings")
	default:
		c := asciiUpTo(2)
		t = tf.CiString(c)
		mx := len(c)
		for i := 0; i < len(c); i++ {
			switch c[i] {
			case 'k', 'K': // the Kelvin sign, which is three bytes
				mx += 2
			case 's', 'S': // the long s, which is two bytes
				mx++
			}
		}
		nd.Assert(t.Min() == len(c) && t.Max() == mx && !t.Unbounded(), "the sizes of a case independent string")
	}
	s := asciiUpTo(2)
	if t == typ.DgoString {
		s = []string{"", " ", "a", "1", "{", "\"a\"", "int"}[nd.Choice(7)]
		ok := len(s) > 0 && failure(func() { tf.Parse(s) }) == ""
		nd.Assert(t.Instance(s) == ok && t.Instance(vf.String(s)) == ok && t.Assignable(vf.String(s).Type()) == ok, "a dgo string can be parsed")
	}
	nd.Assert(!t.Instance(s) || len(s) >= t.Min() && len(s) <= t.Max(), "the size of a string is within the limits")
}

// C34_AllOfValues: Bounds: the element type of arrays of 2 or 3 integers out of -1, 0, 1, or value type of maps of them.
func C34_AllOfValues() {
	a := vf.MutableValues()
	for n := 2 + nd.Choice(2); n > 0; n-- {
		a.Add(nd.Choice(3) - 1)
	}
	t := a.FrozenCopy().Type().(dgo.ArrayType).ElementType()
	if nd.Choice(2) == 0 {
		m := vf.MutableMap()
		a.EachWithIndex(func(e dgo.Value, i int) { m.Put(i, e) })
		t = m.FrozenCopy().Type().(dgo.MapType).ValueType()
	}
	x, ok := t.(dgo.TernaryType)
	nd.Assert(ok == (t.TypeIdentifier() == dgo.TiAllOfValue) && ok == !dgo.IsExact(t) || ok, "the element type is all of the values or the only one")
	all := a.All(func(e dgo.Value) bool { return e.Equals(a.Get(0)) })
	if ok {
		nd.Assert(x.Operator() == dgo.OpAnd, "the operator of the element type")
		nd.Assert(a.ContainsAll(x.Operands()) && x.Operands().ContainsAll(a.Unique()), "the operands of the element type are the values")
	} else {
		nd.Assert(all, "values that differ are all of them")
	}
	for i := -1; i < 3; i++ {
		nd.Assert(t.Instance(i) == (all && a.Get(0).Equals(i)), "the instances of the element type")
	}
	s := ""
	x2 := a
	if !ok {
		x2 = a.Unique()
	}
	x2.Each(func(e dgo.Value) {
		if s != "" {
			s += "&"
		}
		s += e.String()
	})
	nd.Assert(t.String() == s, "the string form of the element type")
}

// C35_RegexpError: Bounds: the types regexp and error and the types of values of them.
func C35_RegexpError() {
	var rt, et dgo.Type = typ.Regexp, typ.Error
	if nd.Choice(2) == 0 {
		rt, et = vf.Value(regexp.MustCompile("a")).Type(), vf.Value(errors.New("a")).Type()
	}
	nd.Assert(rt.ReflectType() == reflect.TypeOf((*regexp.Regexp)(nil)), "the Go type of a regexp type")
	nd.Assert(et.ReflectType() == reflect.TypeOf((*error)(nil)).Elem(), "the Go type of an error type")
}

// C19_JSONNumber: Bounds: the text of an integer out of 9 (limits included), 8 texts of floats, 4 that are no numbers.
func C19_JSONNumber() {
	switch nd.Choice(3) {
	case 0:
		i := []int64{0, 1, -1, 10, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, 1 << 62}[nd.Choice(9)]
		v := vf.Value(json.Number(strconv.FormatInt(i, 10)))
		nd.Assert(v == vf.Integer(i), "the value of an integer in JSON")
	case 1:
		s := []string{"1.5", "-0.25", "1e3", "9223372036854775808", "-9223372036854775809", "1E-2", "0.0", "1.7976931348623157e308"}[nd.Choice(8)]
		f, _ := strconv.ParseFloat(s, 64)
		nd.Assert(vf.Value(json.Number(s)) == vf.Float(f), "the value of a float in JSON")
	default:
		s := []string{"", "x", "1e999", "1.5.2"}[nd.Choice(4)]
		e := failure(func() { vf.Value(json.Number(s)) })
		nd.Assert(e != "" && !crash(e), "what is no number in JSON is refused")
	}
}

// C23_Collector: Bounds: leaves as in Leaf that are data, in constructs as in Nested, collected by a plain collector at every level of
// deduplication; a reference to something unknown.
func C23_Collector() {
	a := streamLeaf(nd.Choice(nStreamLeaf))
	nd.Assume(onlyData(a) || a.Type().TypeIdentifier() == dgo.TiBinaryExact || a.Type().TypeIdentifier() == dgo.TiTimeExact)
	b := streamNode(nd.Choice(nStreamNode), a, vf.String("abcdefghijklmnopqrstuv"))
	nd.Assume(typ.Generic(b.Type()).TypeIdentifier() != dgo.TiSensitive)
	b = vf.Values(b, b, a)
	o := streamer.DefaultOptions()
	o.DedupLevel = dedupLevel()
	c := streamer.NewCollector()
	streamer.New(nil, o).Stream(b, c)
	nd.Assert(b.Equals(c.Value()) && c.Value().Equals(b), "a collected value is equal to the value that was streamed")
	n := []int{-1, 9999}[nd.Choice(2)]
	s := failure(func() { c.AddRef(n) })
	nd.Assert(s != "" && !crash(s), "a reference to something unknown is refused")
}

// C37_ParseType: Bounds: 6 texts of Pcore types and values: ParseType gives the type, or the exact type of the value, that Parse gives.
func C37_ParseType() {
	s := []string{"Integer[1,3]", "Optional[String]", "3", "'a'", "[1,2]", "Enum[a,b]"}[nd.Choice(6)]
	v := pcore.Parse(s)
	t := pcore.ParseType(s)
	nd.Assert(t.Equals(typ.AsType(v)) && typ.AsType(v).Equals(t), "the type of a text")
	if vt, ok := v.(dgo.Type); ok {
		nd.Assert(t.Equals(vt), "the type of the text of a type")
	} else {
		nd.Assert(t.Instance(v) && dgo.IsExact(t), "the type of the text of a value")
	}
}

// C26_Unresolved: Bounds: an alias that isn't resolved, alone or in an array or map.
func C26_Unresolved() {
	a := parser.NewAlias(vf.String("unresolved").(dgo.String))
	f, ok := a.(dgo.Freezable)
	nd.Assert(ok && !f.Frozen(), "an alias isn't frozen")
	var s string
	switch nd.Choice(4) {
	case 0:
		s = failure(func() { f.Freeze() })
	case 1:
		s = failure(func() { f.FrozenCopy() })
	case 2:
		s = failure(func() { vf.MutableValues(a).FrozenCopy() })
	default:
		s = failure(func() { vf.MutableMap("a", a).Freeze() })
	}
	nd.Assert(s != "" && !crash(s), "an alias that isn't resolved cannot be frozen")
	nd.Assert(f.ThawedCopy() == dgo.Value(a), "a thawed copy of an alias is the alias")
}

// C09_Entries: Bounds: the entries of a mutable or frozen map with an arbitrary int64 in an array,
// frozen and thawed copies of them; the copy or the original is changed.
func C09_Entries() {
	x, y := nd.Int64(), nd.Int64()
	m := vf.MutableMap("a", vf.MutableValues(x))
	var e dgo.MapEntry
	switch nd.Choice(3) {
	case 0:
		e = vf.MapEntry("a", vf.MutableValues(x))
	case 1:
		m = m.FrozenCopy().(dgo.Map)
		m.EachEntry(func(v dgo.MapEntry) { e = v })
	default:
		m.EachEntry(func(v dgo.MapEntry) { e = v })
	}
	ef := e.(dgo.Freezable)
	want := vf.MapEntry("a", vf.Values(x))
	if nd.Choice(2) == 0 {
		c := ef.ThawedCopy().(dgo.MapEntry)
		nd.Assert(c.Equals(e) && e.Equals(c) && c.Equals(want), "a thawed entry is equal")
		v := c.Value().(dgo.Array)
		nd.Assert(!v.Frozen(), "the value of a thawed entry can be changed")
		v.Add(y)
		nd.Assert(e.Equals(want), "changing a thawed entry leaves the entry alone")
	} else {
		c := ef.FrozenCopy().(dgo.MapEntry)
		nd.Assert(c.Equals(e) && e.Equals(c) && c.Equals(want), "a frozen entry is equal")
		nd.Assert(c.(dgo.Freezable).Frozen() && c.Value().(dgo.Array).Frozen(), "a frozen entry is frozen")
		if v := e.Value().(dgo.Array); !v.Frozen() {
			v.Add(y)
		}
		nd.Assert(c.Equals(want), "changing an entry leaves a frozen copy alone")
	}
}
