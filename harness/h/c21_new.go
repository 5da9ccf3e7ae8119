package h

import (
	"fmt"
	"math"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const (
	c21Inst   = "New gives an instance of the type: "
	c21Conv   = "New converts exactly: "
	c21Refuse = "New refuses what it can't convert: "
)

// made is what New gives, nil if it refuses. The argument is given alone or in arguments.
func made(t dgo.Type, arg ...interface{}) (v dgo.Value) {
	var a dgo.Value = vf.Arguments(arg...)
	if len(arg) == 1 && nd.Choice(2) == 0 {
		a = vf.Value(arg[0])
	}
	if refused(c21Refuse+"by an error that describes it", func() { v = vf.New(t, a) }) {
		return nil
	}
	nd.Assert(v != nil && t.Instance(v), c21Inst+"result")
	return v
}

// C21_IntFromFloat: the integer of an arbitrary float (also NaN and infinity) is the float without its fraction, and refused when an integer can't hold it.
func C21_IntFromFloat() {
	var f float64
	if nd.Choice(2) == 0 {
		f = nd.Float64()
		nd.Assume(nd.And(f >= -(1<<63), f < 1<<63))
		v := made(typ.Integer, f)
		nd.Assert(v != nil, c21Conv+"int from float")
		i := v.(dgo.Integer).GoInt()
		nd.Assert(i == int64(f), c21Conv+"int from float")
		nd.Reach("int")
	} else {
		f = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1 << 63, math.Nextafter(-(1 << 63), math.Inf(-1)), 1e300, -1e300}[nd.Choice(7)]
		nd.Assert(made(typ.Integer, f) == nil, c21Refuse+"int from float")
		nd.Reach("refused")
	}
}

// C21_Int: the integer of an arbitrary integer, boolean or time is that integer, 1 or 0, or the seconds since 1970; nil, arrays, maps, binaries and types are refused.
func C21_Int() {
	switch nd.Choice(4) {
	case 0:
		i := nd.Int64()
		nd.Assert(made(typ.Integer, i).(dgo.Integer).GoInt() == i, c21Conv+"int from int")
	case 1:
		b := nd.Bool()
		nd.Assert(made(typ.Integer, b).(dgo.Integer).GoInt() == int64(nd01(b)), c21Conv+"int from bool")
	case 2:
		s := nd.Int64()
		nd.Assert(made(typ.Integer, vf.Time(time.Unix(s, between(0, 999999999)))).(dgo.Integer).GoInt() == s, c21Conv+"int from time")
	default:
		nd.Assert(made(typ.Integer, notScalar()) == nil, c21Refuse+"int")
		nd.Reach("refused")
	}
	nd.Reach("int")
}

// notScalar is a value that is neither text nor a number.
func notScalar() dgo.Value {
	return []dgo.Value{vf.Nil, vf.Values(), vf.Strings("1"), vf.Map("a", 1), vf.Binary([]byte("1"), true), typ.Integer, vf.Sensitive(1)}[nd.Choice(7)]
}

// C21_IntFromString: an arbitrary text of up to 3 characters from the digits, letters, signs, space and separators gives, with radix 2, 8, 10 or 16 (10 if none is given), the number that it is the representation of, and is refused if it isn't one; and another radix is refused.
func C21_IntFromString() {
	n := nd.Choice(4)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte()
		nd.Assume(b[i] < 0x80)
	}
	radix := []int{10, 2, 8, 10, 16, 3}[nd.Choice(6)]
	var v dgo.Value
	if radix == 3 {
		nd.Assert(made(typ.Integer, string(b), radix) == nil, c21Refuse+"radix")
		return
	}
	s := string(b)
	// the oracle: an optional sign followed by digits of the radix
	neg := false
	d := b
	if n > 0 && (b[0] == '-' || b[0] == '+') {
		neg = b[0] == '-'
		d = b[1:]
	}
	want, ok := int64(0), len(d) > 0
	for _, c := range d {
		x := int64(99)
		switch {
		case nd.And(c >= '0', c <= '9'):
			x = int64(c - '0')
		case nd.And(c >= 'a', c <= 'z'):
			x = int64(c-'a') + 10
		case nd.And(c >= 'A', c <= 'Z'):
			x = int64(c-'A') + 10
		}
		if x >= int64(radix) {
			ok = false
			break
		}
		want = want*int64(radix) + x
	}
	if neg {
		want = -want
	}
	v = nil
	if panics(func() {
		if radix == 10 && nd.Choice(2) == 0 {
			v = vf.New(typ.Integer, vf.String(s))
		} else {
			v = vf.New(typ.Integer, vf.Arguments(s, radix))
		}
	}) {
		nd.Assert(!ok, c21Conv+"int from string")
		nd.Reach("refused")
	} else {
		nd.Assert(ok, c21Refuse+"int from string")
		nd.Assert(v.(dgo.Integer).GoInt() == want, c21Conv+"int from string")
		nd.Reach("int")
	}
}

// C21_IntRoundTrip: an arbitrary integer of up to 3 digits, and integers at the limits, converted to string and back (and formatted with each radix) is the same; numbers beyond the limits are refused.
func C21_IntRoundTrip() {
	var i int64
	if nd.Choice(2) == 0 {
		i = between(-999, 999)
	} else {
		i = pickInt()
	}
	var s dgo.Value
	k := nd.Choice(5)
	switch k {
	case 0:
		s = made(typ.String, i)
	default:
		s = made(typ.String, i, []string{"%b", "%o", "%d", "%x"}[k-1])
	}
	var r dgo.Value
	if k == 0 {
		r = made(typ.Integer, s)
	} else {
		r = made(typ.Integer, s, []int{2, 8, 10, 16}[k-1])
	}
	nd.Assert(r != nil && r.(dgo.Integer).GoInt() == i, c21Conv+"int to string and back")
	if i == 0 {
		nd.Assert(made(typ.Integer, "9223372036854775808") == nil && made(typ.Integer, "-9223372036854775809") == nil, c21Refuse+"int from string")
	}
	nd.Reach("back")
}

// C21_Float: the float of an arbitrary float, integer or boolean is that number; of a text the number it represents (to string and back is the same); of a time the seconds since 1970; other values are refused.
func C21_Float() {
	switch nd.Choice(6) {
	case 0:
		f := nd.Float64()
		nd.Assert(math.Float64bits(made(typ.Float, f).(dgo.Float).GoFloat()) == math.Float64bits(f), c21Conv+"float from float")
	case 1:
		i := nd.Int64()
		nd.Assert(made(typ.Float, i).(dgo.Float).GoFloat() == float64(i), c21Conv+"float from int")
	case 2:
		b := nd.Bool()
		nd.Assert(made(typ.Float, b).(dgo.Float).GoFloat() == float64(nd01(b)), c21Conv+"float from bool")
	case 3:
		f := pickFloat()
		r := made(typ.Float, made(typ.String, f))
		nd.Assert(r != nil && math.Float64bits(r.(dgo.Float).GoFloat()) == math.Float64bits(f), c21Conv+"float to string and back")
	case 4:
		if nd.Choice(2) == 0 {
			nd.Assert(made(typ.Float, []string{"", "a", "1,5", "1.5x", "1e", "."}[nd.Choice(6)]) == nil, c21Refuse+"float from string")
		} else {
			s := []int64{0, 1, -1, 1 << 31, -1 << 33, 9223372035, 9223372037, 1 << 40, 9223372036853, 9223372036856, -9223372036856, 1 << 60, math.MaxInt64, math.MinInt64}[nd.Choice(14)]
			n := []int64{0, 500000000}[nd.Choice(2)]
			f := made(typ.Float, vf.Time(time.Unix(s, n))).(dgo.Float).GoFloat()
			w := float64(s) + float64(n)/1e9
			nd.Assert(math.Abs(f-w) <= 1e-6+math.Abs(w)/(1<<50), c21Conv+"float from time")
		}
	default:
		nd.Assert(made(typ.Float, notScalar()) == nil, c21Refuse+"float")
	}
	nd.Reach("float")
}

// C21_Boolean: the boolean of an arbitrary boolean, integer or float is that boolean or that the number isn't zero; of an arbitrary text of up to 3 ASCII characters (and true, false and longer ones) it is true for true, yes and y, false for false, no and n, ignoring case, and refused for others; other values are refused.
func C21_Boolean() {
	switch nd.Choice(6) {
	case 0:
		b := nd.Bool()
		nd.Assert(made(typ.Boolean, b).(dgo.Boolean).GoBool() == b, c21Conv+"bool from bool")
	case 1:
		i := nd.Int64()
		nd.Assert(made(typ.Boolean, i).(dgo.Boolean).GoBool() == (i != 0), c21Conv+"bool from int")
	case 2:
		f := number()
		nd.Assert(made(typ.Boolean, f).(dgo.Boolean).GoBool() == (f != 0), c21Conv+"bool from float")
	case 3:
		s := asciiUpTo(3)
		is := func(w string) bool {
			if len(s) != len(w) {
				return false
			}
			r := true
			for i := range w {
				r = nd.And(r, nd.Or(s[i] == w[i], s[i] == w[i]-'a'+'A'))
			}
			return r
		}
		yes, no := nd.Or(is("y"), is("yes")), nd.Or(is("n"), is("no"))
		// %s of the text is part of the error: the text is not concrete
		v := made(typ.Boolean, s)
		nd.Assert((v == nil) == !nd.Or(yes, no), c21Refuse+"bool from string")
		if v != nil {
			nd.Assert(v.(dgo.Boolean).GoBool() == yes, c21Conv+"bool from string")
		}
	case 4:
		s := []string{"true", "TRUE", "True", "tRuE", "false", "FALSE", "False", "falsy", "1", "yess", " yes", "truE\x00"}
		k := nd.Choice(len(s))
		v := made(typ.Boolean, s[k])
		nd.Assert((v == nil) == (k > 6), c21Refuse+"bool from string")
		if v != nil {
			nd.Assert(v.(dgo.Boolean).GoBool() == (k < 4), c21Conv+"bool from string")
		}
	default:
		nd.Assert(made(typ.Boolean, notScalar()) == nil, c21Refuse+"bool")
	}
	nd.Reach("bool")
}

// C21_String: the string of an arbitrary text is that text, of other values their string form, and with a format what fmt.Sprintf gives for the Go value; something that isn't a format is refused.
func C21_String() {
	switch nd.Choice(4) {
	case 0:
		s := asciiUpTo(2)
		nd.Assert(made(typ.String, s).(dgo.String).GoString() == s, c21Conv+"string from string")
	case 1:
		v := []dgo.Value{vf.Integer(pickInt()), vf.Boolean(nd.Bool()), vf.Nil, vf.Values(1, "a"), vf.Map("a", 1), vf.Binary([]byte("ab"), true), vf.Float(1), typ.Integer}[nd.Choice(8)]
		nd.Assert(made(typ.String, v).(dgo.String).GoString() == v.String(), c21Conv+"string of a value")
	case 2:
		f := []string{"%d", "%5d", "%-5d|", "%x", "%v", "%s", "%q", "%05.1f", "%08b", "%+d", "%X", "%c", "%t"}
		g := []interface{}{int64(-42), "ab", 2.5, true, []byte("ab")}[nd.Choice(5)]
		k := nd.Choice(len(f))
		v := made(typ.String, g, f[k])
		if k == 2 {
			nd.Assert(v == nil, c21Refuse+"format")
		} else {
			nd.Assert(v.(dgo.String).GoString() == fmt.Sprintf(f[k], g), c21Conv+"formatted string")
		}
	default:
		nd.Assert(made(typ.String, 1, []string{"", "d", "%", "%d%d", "a%d", "%d ", "%1$d"}[nd.Choice(7)]) == nil, c21Refuse+"format")
	}
	nd.Reach("string")
}

// C21_Binary: the binary of a binary equals it, of an array of up to 2 arbitrary integers has those bytes and is refused when one isn't a byte, of a text in each of the encodings has the encoded bytes, and its string is decoded to it; other texts and values are refused.
func C21_Binary() {
	switch nd.Choice(6) {
	case 0:
		b := bytesN(nd.Choice(3))
		v := made(typ.Binary, vf.Binary(b, nd.Choice(2) == 0))
		nd.Assert(string(v.(dgo.Binary).GoBytes()) == string(b), c21Conv+"binary from binary")
	case 1:
		i, j := between(-300, 300), between(-1, 256)
		v := made(typ.Binary, vf.Values(i, j))
		ok := nd.And(nd.And(i >= 0, i <= 255), nd.And(j >= 0, j <= 255))
		nd.Assert((v != nil) == ok, c21Refuse+"binary from array")
		if ok {
			b := v.(dgo.Binary).GoBytes()
			nd.Assert(nd.And(int64(b[0]) == i, int64(b[1]) == j) && len(b) == 2, c21Conv+"binary from array")
		}
	case 2:
		nd.Assert(made(typ.Binary, vf.Values(1, []interface{}{"a", nil, 1.5, true, vf.Integers(1)}[nd.Choice(5)])) == nil, c21Refuse+"binary from array")
	case 3:
		b := bytesN(nd.Choice(3))
		x := vf.Binary(b, true)
		e := nd.Choice(3)
		var v dgo.Value
		switch e {
		case 0:
			v = made(typ.Binary, x.String())
		case 1:
			v = made(typ.Binary, x.Encode(), "%b")
		default:
			v = made(typ.Binary, x.Encode(), "%B")
		}
		nd.Assert(v != nil && string(v.(dgo.Binary).GoBytes()) == string(b), c21Conv+"binary to string and back")
	case 4:
		s := nd.StringN(2)
		e := nd.Choice(2)
		v := made(typ.Binary, s, []string{"%r", "%s"}[e])
		if e == 1 && !validUTF8(s) {
			nd.Assert(v == nil, c21Refuse+"binary from invalid utf-8")
		} else {
			nd.Assert(v != nil && string(v.(dgo.Binary).GoBytes()) == s, c21Conv+"binary from characters")
		}
	default:
		a := []interface{}{"A", "!", "AA=", "AB==", "YWI", "-_8=", 1, nil, true, vf.Map("a", 1), typ.Integer}
		k := nd.Choice(len(a))
		nd.Assert(made(typ.Binary, a[k]) == nil, c21Refuse+"binary")
		if k < 6 {
			v := made(typ.Binary, a[k], "%u")
			nd.Assert((v != nil) == (k == 3 || k == 5), c21Refuse+"url encoded binary")
			nd.Assert(made(typ.Binary, a[k], "%x") == nil, c21Refuse+"encoding")
		}
	}
	nd.Reach("binary")
}

// validUTF8 is true if the two bytes of s are valid UTF-8.
func validUTF8(s string) bool {
	a, b := s[0], s[1]
	return nd.Or(nd.And(a < 0x80, b < 0x80), nd.And(nd.And(a >= 0xc2, a <= 0xdf), nd.And(b >= 0x80, b <= 0xbf)))
}

// C21_Time: the time of a time or of an arbitrary integer is that time or that many seconds after 1970; of a float (with a fraction of a multiple of 1/4) that many seconds; of an RFC 3339 text that time, and its string converts back to it; others are refused.
func C21_Time() {
	switch nd.Choice(5) {
	case 0:
		t := time.Unix(nd.Int64(), between(0, 999999999)).UTC()
		nd.Assert(made(typ.Time, t).(dgo.Time).GoTime() == t, c21Conv+"time from time")
	case 1:
		i := nd.Int64()
		nd.Assert(made(typ.Time, i).(dgo.Time).GoTime().Equal(time.Unix(i, 0)), c21Conv+"time from int")
	case 2:
		i := []int64{0, 1, -1, -2, 1234567890, -1 << 40, 1 << 40}[nd.Choice(7)]
		q := int64(nd.Choice(4))
		t := made(typ.Time, float64(i)+float64(q)/4).(dgo.Time).GoTime()
		nd.Assert(t.Equal(time.Unix(i, q*250000000)), c21Conv+"time from float")
	case 3:
		t := time.Date(2019+nd.Choice(2), time.Month(1+nd.Choice(12)), 28, 23, 59, 58, []int{0, 1, 120000000}[nd.Choice(3)], []*time.Location{time.UTC, time.FixedZone("", -3600), time.FixedZone("", 20700)}[nd.Choice(3)])
		s := made(typ.String, t)
		r := made(typ.Time, s)
		nd.Assert(r != nil && r.(dgo.Time).GoTime().Equal(t), c21Conv+"time to string and back")
		nd.Assert(r.Equals(vf.Time(t)) && r.HashCode() == vf.Time(t).HashCode(), c21Conv+"time to string and back")
	default:
		a := []interface{}{"", "2019-02-30T00:00:00Z", "2019-01-01", "2019-01-01T24:00:00Z", nil, true, vf.Values(), math.NaN(), math.Inf(1), math.Inf(-1), 1e300, float64(1 << 63)}
		nd.Assert(made(typ.Time, a[nd.Choice(len(a))]) == nil, c21Refuse+"time")
	}
	nd.Reach("time")
}

// C21_Collection: the array of an array equals it and is frozen, of a map it has the entries; the map of a map equals it and is frozen, of an array with pairs or a flat list it has those associations; neither is affected by changes of the argument; other values are refused.
func C21_Collection() {
	x, y := nd.Int64(), nd.Int64()
	switch nd.Choice(6) {
	case 0:
		a := vf.MutableValues(x, vf.MutableValues(y))
		v := made(typ.Array, a).(dgo.Array)
		nd.Assert(v.Frozen() && v.Equals(a), c21Conv+"array from array")
		a.Get(1).(dgo.Array).Set(0, x)
		a.Set(0, y)
		nd.Assert(v.Equals(vf.Values(x, vf.Values(y))), c21Conv+"array from array is not affected by changes")
	case 1:
		v := made(typ.Array, vf.Map("a", x, "b", y)).(dgo.Array)
		nd.Assert(v.Len() == 2 && v.Get(0).(dgo.MapEntry).Key().Equals("a") && v.Get(1).(dgo.MapEntry).Value().Equals(y), c21Conv+"array from map")
	case 2:
		m := vf.MutableMap("a", x, "b", vf.MutableValues(y))
		v := made(typ.Map, m).(dgo.Map)
		nd.Assert(v.Frozen() && v.Equals(m), c21Conv+"map from map")
		m.Get("b").(dgo.Array).Set(0, x)
		m.Put("a", y)
		m.Put("c", y)
		nd.Assert(v.Equals(vf.Map("a", x, "b", vf.Values(y))), c21Conv+"map from map is not affected by changes")
	case 3:
		v := made(typ.Map, vf.Values("a", x, "b", y)).(dgo.Map)
		nd.Assert(v.Equals(vf.Map("a", x, "b", y)) && v.Frozen(), c21Conv+"map from flat list")
	case 4:
		a := []interface{}{1, "ab", 1.5, true, nil, vf.Time(time.Unix(1, 0)), vf.Sensitive("a"), typ.Integer, vf.Values(1), vf.Binary([]byte("ab"), true)}
		k := nd.Choice(len(a))
		nd.Assert(made(typ.Map, a[k]) == nil, c21Refuse+"map")
		if k < 8 {
			nd.Assert(made(typ.Array, a[k]) == nil, c21Refuse+"array")
		}
	default:
		st := tf.ParseType("{a:int,b?:string}")
		v := made(st, vf.Map("a", x))
		nd.Assert(v != nil && v.Equals(vf.Map("a", x)), c21Conv+"struct map from map")
		nd.Assert(made(st, vf.Map("a", x, "b", y)) == nil, c21Refuse+"struct map")
		nd.Assert(made(tf.ParseType("{int,string}"), vf.Values(x, "a")).Equals(vf.Values(x, "a")), c21Conv+"tuple from array")
		nd.Assert(made(tf.ParseType("{int,string}"), vf.Values(x, y)) == nil, c21Refuse+"tuple")
	}
	nd.Reach("collection")
}

// C21_Type: the type of a text is the type that it parses to (a value gives its type), of a type that type; only types that are assignable to the requested type, others are refused.
func C21_Type() {
	s := []string{"int", "0..3", "string", "[]int", "map[string]int", "3", `"a"`, "type", "func(int)"}[nd.Choice(9)]
	p := tf.ParseType(s)
	var a interface{} = s
	if nd.Choice(2) == 0 {
		a = p
	}
	v := made(typ.Type, a)
	nd.Assert(v != nil && v.Equals(p), c21Conv+"type")
	of := []dgo.Type{typ.Integer, typ.String, typ.Array, tf.Integer(0, 5, true)}[nd.Choice(4)]
	v = made(of.Type(), a)
	nd.Assert((v != nil) == of.Assignable(p), c21Refuse+"type")
	nd.Assert(v == nil || v.Equals(p), c21Conv+"type")
	nd.Assert(made(typ.Type, []dgo.Value{vf.Nil, vf.Integer(1), vf.Values("int"), vf.Map("a", 1)}[nd.Choice(4)]) == nil, c21Refuse+"type")
	nd.Reach("type")
}

// C21_Constrained: for types with constraints (integer and float ranges, exact values, sizes, patterns, enums, nested sizes, sensitive), New converts an arbitrary argument like the type without constraints and refuses the result when it is not an instance.
func C21_Constrained() {
	i := between(-20, 20)
	var t, g dgo.Type
	switch k := nd.Choice(12); k {
	case 0:
		t, g = tf.Integer(-3, 7, nd.Choice(2) == 0), typ.Integer
	case 1:
		t, g = tf.Float(-3, 7.5, nd.Choice(2) == 0), typ.Float
	case 2:
		t, g = vf.Integer(5).Type(), typ.Integer
	case 3:
		t, g = vf.Float(5).Type(), typ.Float
	case 4:
		t, g = vf.True.Type(), typ.Boolean
	case 5:
		t, g = vf.String("5").Type(), typ.String
	case 6:
		t, g = tf.String(2, 3), typ.String
	case 7:
		t, g = tf.ParseType("/^[57]/"), typ.String
	case 8:
		t, g = tf.ParseType("/[12]/"), typ.String
	case 9:
		t, g = tf.ParseType(`~"5"`), typ.String
	case 10:
		t, g = vf.Time(time.Unix(5, 0)).Type(), typ.Time
	default:
		t, g = tf.ParseType("sensitive[0..9]"), tf.ParseType("sensitive")
	}
	var v, w dgo.Value
	if panics(func() { w = vf.New(g, vf.Integer(i)) }) {
		w = nil
	}
	v = made(t, i)
	nd.Assert((v != nil) == (w != nil && t.Instance(w)), c21Refuse+"not an instance")
	nd.Assert(v == nil || v.Equals(w), c21Conv+"constrained")
	nd.Reach("constrained")
}

// C21_Other: for types that have no conversion (any, nil, union, negated, function, regexp, error), an instance gives itself and anything else, and any other number of arguments, is refused.
func C21_Other() {
	t := []dgo.Type{typ.Any, typ.Nil, tf.ParseType("int|string"), tf.ParseType("!string"), tf.ParseType("0..5&3..9"), typ.Regexp, typ.Error}[nd.Choice(7)]
	a := []interface{}{2, 4, 20, "a", 1.5, true, nil, vf.Values("a")}[nd.Choice(8)]
	if nd.Choice(2) == 0 {
		f := []dgo.Type{typ.Integer, typ.Float, typ.String, typ.Boolean, typ.Binary, typ.Time, typ.Array, typ.Map, typ.Type, tf.ParseType("sensitive"), tf.ParseType("type[int]"), typ.Any, typ.Nil, tf.ParseType("{int,string}"), tf.ParseType("{a:int}"), typ.Function, typ.Error, typ.Regexp, tf.ParseType("[]int"), tf.ParseType("0..3"), tf.ParseType("string[2]")}[nd.Choice(21)]
		nd.Assert(made(f) == nil && made(f, a, a, 3) == nil, c21Refuse+"number of arguments")
		nd.Reach("arguments")
		return
	}
	v := made(t, a)
	nd.Assert((v != nil) == t.Instance(a), c21Refuse+"not an instance")
	nd.Assert(v == nil || v.Equals(a), c21Conv+"instance")
	nd.Assert(made(t) == nil && made(t, a, a) == nil, c21Refuse+"number of arguments")
	nd.Reach("other")
}
