package h

import (
	"math"
	"regexp"
	"strconv"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// roundTrip asserts that the string form of t parses to a type that is equal to t.
func roundTrip(t dgo.Type, what string) {
	s := t.String()
	var r dgo.Type
	nd.Assert(!panics(func() { r = tf.ParseType(s) }), "the string form of a type can be parsed: "+what)
	nd.Assert(nd.And(t.Equals(r), r.Equals(t)), "the string form of a type parses to an equal type: "+what)
	nd.Assert(r.HashCode() == t.HashCode(), "the parsed type has the same hash code: "+what)
	nd.Assert(r.String() == s, "the parsed type has the same string form: "+what)
}

func pickInt() int64 {
	return []int64{math.MinInt64, math.MinInt32, -12, 0, 7, math.MaxInt32, math.MaxInt64}[nd.Choice(7)]
}

func pickFloat() float64 {
	return []float64{-math.MaxFloat64, -math.MaxFloat32, -2.5, 0, 1e-7, 3, 12.25, 1e21, math.MaxFloat32, math.MaxFloat64}[nd.Choice(10)]
}

// textLeaf is a type without operands.
func textLeaf() dgo.Type {
	switch nd.Choice(8) {
	case 0:
		return []dgo.Type{typ.Any, typ.Integer, typ.Float, typ.String, typ.Boolean, typ.True, typ.False, typ.Nil, typ.Binary, typ.DgoString}[nd.Choice(10)]
	case 1:
		i, j := pickInt(), pickInt()
		nd.Assume(i < j)
		return tf.Integer(i, j, nd.Choice(2) == 0)
	case 2:
		return vf.Integer(pickInt()).Type()
	case 3:
		i, j := pickFloat(), pickFloat()
		nd.Assume(i < j)
		return tf.Float(i, j, nd.Choice(2) == 0)
	case 4:
		return vf.Float(pickFloat()).Type()
	case 5:
		return sized(func(a ...interface{}) dgo.Type { return tf.String(a...) })
	case 6:
		return sized(func(a ...interface{}) dgo.Type { return tf.Binary(a...) })
	default:
		return []dgo.Type{vf.String("a").Type(), tf.CiString("b"), tf.Pattern(regexp.MustCompile("^c.*/d$")), vf.Binary([]byte{1, 2}, true).Type(),
			tf.StructMap(false), tf.StructMap(true), typ.Tuple, typ.Array, typ.Map, typ.Sensitive, typ.Any.Type(), typ.Integer.Type().Type()}[nd.Choice(12)]
	}
}

func sized(f func(a ...interface{}) dgo.Type) dgo.Type {
	switch nd.Choice(3) {
	case 0:
		return f(3)
	case 1:
		return f(0, 4)
	default:
		return f(2, 15)
	}
}

// textSmall is one of the leafs whose notation interacts with what surrounds it.
func textSmall() dgo.Type {
	switch nd.Choice(10) {
	case 0:
		return typ.Integer
	case 1:
		return vf.String("a").Type()
	case 2:
		return tf.Integer(3, math.MaxInt64, nd.Choice(2) == 0)
	case 3:
		return tf.Integer(math.MinInt64, 3, nd.Choice(2) == 0)
	case 4:
		return tf.Float(3, math.MaxFloat64, nd.Choice(2) == 0)
	case 5:
		return tf.CiString("b")
	case 6:
		return typ.Nil
	case 7:
		return typ.True
	case 8:
		return vf.Float(-2.5).Type()
	default:
		return typ.Sensitive
	}
}

// nTextOver is the number of ways in which textOver combines types.
const nTextOver = 16

// textOver is the k:th combination of a and b.
func textOver(k int, a, b func() dgo.Type) dgo.Type {
	switch k {
	case 0:
		return tf.Array(a())
	case 1:
		return tf.Array(a(), 1, 3)
	case 2:
		return tf.Map(a(), b())
	case 3:
		return tf.Map(a(), b(), 2)
	case 4:
		return tf.Tuple(a(), b())
	case 5:
		return tf.VariadicTuple(a(), b())
	case 6:
		return tf.VariadicTuple(a())
	case 7:
		return tf.StructMap(nd.Choice(2) == 0, tf.StructMapEntry("int", a(), nd.Choice(2) == 0), tf.StructMapEntry("b c", b(), true))
	case 8:
		return tf.StructMap(false, tf.StructMapEntry(1, a(), nd.Choice(2) == 0), tf.StructMapEntry(true, b(), nd.Choice(2) == 0))
	case 9:
		return tf.AnyOf(a(), b())
	case 10:
		return tf.OneOf(a(), b())
	case 11:
		return tf.AllOf(a(), b())
	case 12:
		return tf.Not(a())
	case 13:
		return a().Type()
	case 14:
		return tf.Function(tf.VariadicTuple(a(), b()), tf.Tuple(a()))
	default:
		return tf.Function(tf.Tuple(a()), tf.Tuple(typ.String, b()))
	}
}

// Bounds: every type without operands; ranges over 6 integers and 8 floats, inclusive or not.
func C17_Leaf() {
	t := textLeaf()
	nd.Reach("leaf")
	roundTrip(t, "leaf")
}

// Bounds: 16 ways to combine two of 14 types.
func C17_Combined() {
	k := nd.Choice(nTextOver)
	t := textOver(k, textSmall, func() dgo.Type { return typ.String })
	if nd.Thorough() {
		t = textOver(k, textSmall, textSmall)
	}
	nd.Reach("combined")
	roundTrip(t, "combined")
}

// Bounds: 16 ways to combine 16 combinations.
func C17_Nested() {
	in := func() dgo.Type { return textOver(nd.Choice(nTextOver), textInt, textA) }
	t := textOver(nd.Choice(nTextOver), in, textInt)
	nd.Reach("nested")
	roundTrip(t, "nested")
}

func textInt() dgo.Type { return typ.Integer }
func textA() dgo.Type   { return vf.String("a").Type() }

// Bounds: strings of up to 2 ASCII characters or one other rune, as exact type, case independent type, key and element.
func C17_Strings() {
	var s string
	if nd.Choice(3) == 0 {
		s = []string{"\u00e5", "\u00a0", "\u2028", "\ufffd", "\U0001f600", "\U000e0001", "\u00e5\"", "\xff"}[nd.Choice(8)]
	} else {
		s = asciiUpTo(1)
		if nd.Thorough() {
			s = asciiUpTo(2)
		}
	}
	x := vf.String(s).Type()
	switch nd.Choice(4) {
	case 0:
	case 1:
		nd.Assume(s != "\xff")
		x = tf.CiString(s)
	case 2:
		x = tf.StructMap(false, tf.StructMapEntry(s, typ.Integer, true))
	default:
		x = vf.Values(s, 1).Type()
	}
	nd.Reach("strings")
	roundTrip(x, "strings")
}

// Bounds: exact arrays and maps of up to 2 elements: an integer of one digit, a letter, true, false, nil or a float.
func C17_Exact() {
	el := func() interface{} {
		switch nd.Choice(5) {
		case 0:
			return between(0, 9)
		case 1:
			return letters(1)
		case 2:
			return nd.Choice(2) == 0
		case 3:
			return nil
		default:
			return 2.5
		}
	}
	var x dgo.Type
	switch nd.Choice(3) {
	case 0:
		x = vf.Values(el()).Type()
	case 1:
		x = vf.Values(el(), el()).Type()
	default:
		x = vf.Map(el(), el()).Type()
	}
	nd.Reach("exact")
	roundTrip(x, "exact")
}

// Bounds: patterns of one of the forms below around any printable ASCII character that is not special.
func C17_Pattern() {
	c := ascii(1)
	nd.Assume(nd.And(c[0] >= ' ', c[0] < 0x7f))
	for _, x := range []byte("\\()[]{}*+?.^$|") {
		nd.Assume(c[0] != x)
	}
	p := []string{"%", "^%$", "[%]", "a|%", "(%)*", "%/%", "\"%\""}[nd.Choice(7)]
	var s string
	for i := 0; i < len(p); i++ {
		if p[i] == '%' {
			s += c
		} else {
			s += p[i : i+1]
		}
	}
	nd.Assume(s != "[^]")
	nd.Reach("pattern")
	roundTrip(tf.Pattern(regexp.MustCompile(s)), "pattern")
}

// The escapes of a pattern are doubled when it is written, and not when it is read.
// Bounds: three patterns with a backslash and two with a control character.
func C17_PatternEscape() {
	s := []string{`a\d`, `\.`, `\\`, "\t", "\x14"}[nd.Choice(5)]
	nd.Reach("escape")
	roundTrip(tf.Pattern(regexp.MustCompile(s)), "pattern with escapes")
}

// The empty tuple and the type of the empty array have the notation of the type of the empty map.
// Bounds: both.
func C17_EmptyArray() {
	t := []dgo.Type{typ.EmptyTuple, vf.Values().Type()}[nd.Choice(2)]
	nd.Reach("empty")
	roundTrip(t, "empty array")
}

// digits returns n arbitrary decimal digits, the first one not 0 unless it is the only one.
func digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		c := nd.Byte()
		nd.Assume(nd.And(c >= '0', c <= '9'))
		b[i] = c
	}
	if n > 1 {
		nd.Assume(b[0] != '0')
	}
	return string(b)
}

func decimal(s string) int64 {
	v := int64(0)
	for i := 0; i < len(s); i++ {
		v = v*10 + int64(s[i]-'0')
	}
	return v
}

// Bounds: up to 4 arbitrary digits (thorough 18), with and without sign.
func C17_Integer() {
	m := 4
	if nd.Thorough() {
		m = 18
	}
	s := digits(1 + nd.Choice(m))
	v := decimal(s)
	switch nd.Choice(3) {
	case 0:
	case 1:
		s = "+" + s
	default:
		s, v = "-"+s, -v
	}
	nd.Reach("integer")
	i, ok := tf.Parse(s).(dgo.Integer)
	nd.Assert(ok && i.GoInt() == v, "an integer literal is parsed as the integer it denotes")
}

// Bounds: ranges with bounds of up to 2 arbitrary digits, with and without sign, inclusive or exclusive, with one bound or both.
func C17_Range() {
	sl, sh := digits(1+nd.Choice(2)), digits(1)
	lo, hi := decimal(sl), decimal(sh)
	if nd.Choice(2) == 0 {
		sl, lo = "-"+sl, -lo
	}
	op, incl := "..", true
	if nd.Choice(2) == 0 {
		op, incl = "...", false
	}
	var want dgo.Type
	switch nd.Choice(3) {
	case 0:
		nd.Assume(lo < hi)
		want = tf.Integer(lo, hi, incl)
	case 1:
		sh = ""
		want = tf.Integer(lo, math.MaxInt64, incl)
	default:
		sl = ""
		want = tf.Integer(math.MinInt64, hi, incl)
	}
	nd.Reach("range")
	got, ok := tf.ParseType(sl + op + sh).(dgo.IntegerType)
	nd.Assert(ok, "a range is parsed as an integer type")
	w := want.(dgo.IntegerType)
	nd.Assert(nd.And(got.Min() == w.Min(), got.Max() == w.Max()), "a range has the bounds that it was written with")
	nd.Assert(got.Inclusive() == w.Inclusive(), "a range is inclusive when it was written so")
}

// Bounds: numbers with up to 2 integer digits, a fraction of one digit and an exponent, as float bounds.
func C17_Float() {
	lits := []string{"1.5", "-0.25", "3e2", "1E+21", "2.5e-7", "0.0"}
	s := lits[nd.Choice(len(lits))]
	f, _ := strconv.ParseFloat(s, 64)
	var want dgo.Type
	switch nd.Choice(6) {
	case 0:
		want = vf.Float(f).Type()
	case 1:
		s, want = s+"..", tf.Float(f, math.MaxFloat64, true)
	case 2:
		s, want = s+"...", tf.Float(f, math.MaxFloat64, false)
	case 3:
		s, want = ".."+s, tf.Float(-math.MaxFloat64, f, true)
	case 4:
		s, want = s+"..1e30", tf.Float(f, 1e30, true)
	default:
		s, want = "-5..."+s, tf.Float(-5, f, false)
	}
	// what follows must not be lost
	switch nd.Choice(4) {
	case 0:
	case 1:
		s, want = "["+"]("+s+")", tf.Array(want)
	case 2:
		s, want = "{"+s+", string}", tf.Tuple(want, typ.String)
	default:
		s, want = s+"|string", tf.AnyOf(want, typ.String)
	}
	nd.Reach("float")
	nd.Assert(want.Equals(tf.ParseType(s)), "float literals and ranges are parsed as the type they denote")
}

// expr is a text with its reference type. prec: 0 any-of, 1 one-of, 2 all-of, 3 a single term.
type expr struct {
	s string
	t dgo.Type
}

// sp is arbitrary white space, possibly none.
func sp() string { return []string{"", " ", "\t\n"}[nd.Choice(2)] }

// Bounds: four operands joined by any three of |, ^ and &, without parentheses, operands int, "a", !bool and []float.
func C17_Precedence() {
	texts := []string{`int`, `"a"`, `!bool`, `[]float`}
	terms := []dgo.Type{typ.Integer, vf.String("a").Type(), tf.Not(typ.Boolean), tf.Array(typ.Float)}
	var ops [3]int
	s := texts[0]
	w := sp()
	for i := range ops {
		ops[i] = nd.Choice(3)
		s += w + []string{"|", "^", "&"}[ops[i]] + w + texts[i+1]
	}
	var or, xor, and []interface{}
	flushAnd := func() {
		if len(and) == 1 {
			xor = append(xor, and[0])
		} else {
			xor = append(xor, tf.AllOf(and...))
		}
		and = nil
	}
	flushXor := func() {
		flushAnd()
		if len(xor) == 1 {
			or = append(or, xor[0])
		} else {
			or = append(or, tf.OneOf(xor...))
		}
		xor = nil
	}
	and = append(and, terms[0])
	for i, op := range ops {
		switch op {
		case 0:
			flushXor()
		case 1:
			flushAnd()
		}
		and = append(and, terms[i+1])
	}
	flushXor()
	want := or[0].(dgo.Type)
	if len(or) > 1 {
		want = tf.AnyOf(or...)
	}
	nd.Reach("precedence")
	nd.Assert(want.Equals(tf.ParseType(s)), "& binds tighter than ^ which binds tighter than |")
}

// term is a text of the grammar with the type it denotes.
func term(d int) expr {
	if d == 0 {
		switch nd.Choice(4) {
		case 0:
			return expr{"int", typ.Integer}
		case 1:
			return expr{"2..5", tf.Integer(2, 5, true)}
		case 2:
			return expr{"`x\"`", vf.String("x\"").Type()}
		default:
			return expr{"string[1,3]", tf.String(1, 3)}
		}
	}
	a := term(d - 1)
	b := expr{"bool", typ.Boolean}
	switch nd.Choice(18) {
	case 0:
		return expr{"[" + "]" + a.s, tf.Array(a.t)}
	case 1:
		return expr{"[1]" + a.s, tf.Array(a.t, 1)}
	case 2:
		return expr{"[ 2 , 4 ]" + a.s, tf.Array(a.t, 2, 4)}
	case 3:
		return expr{"map[" + a.s + "]bool", tf.Map(a.t, typ.Boolean)}
	case 4:
		return expr{"map[bool, 1, 2]" + a.s, tf.Map(typ.Boolean, a.t, 1, 2)}
	case 5:
		return expr{"{" + a.s + "," + b.s + "}", tf.Tuple(a.t, b.t)}
	case 6:
		return expr{"{bool,..." + a.s + "}", tf.VariadicTuple(b.t, a.t)}
	case 7:
		return expr{"{key:" + a.s + ", \"k 2\"?: bool}", tf.StructMap(false, tf.StructMapEntry("key", a.t, true), tf.StructMapEntry("k 2", b.t, false))}
	case 8:
		return expr{"{ key?: " + a.s + ", ... }", tf.StructMap(true, tf.StructMapEntry("key", a.t, false))}
	case 9:
		return expr{"(" + a.s + "|bool)", tf.AnyOf(a.t, b.t)}
	case 10:
		return expr{"(bool^" + a.s + ")", tf.OneOf(b.t, a.t)}
	case 11:
		return expr{"(" + a.s + "&bool)", tf.AllOf(a.t, b.t)}
	case 12:
		return expr{"!" + a.s, tf.Not(a.t)}
	case 13:
		return expr{"type[" + a.s + "]", a.t.Type()}
	case 14:
		return expr{"func(" + a.s + ",...bool) (bool, " + a.s + ")", tf.Function(tf.VariadicTuple(a.t, b.t), tf.Tuple(b.t, a.t))}
	case 15:
		return expr{"func() (" + a.s + ")", tf.Function(typ.EmptyTuple, tf.Tuple(a.t))}
	case 16:
		return expr{"(" + a.s + ")", a.t}
	default:
		return expr{"{1:" + a.s + ", 2?:bool , nil:bool}", tf.StructMap(false, tf.StructMapEntry(1, a.t, true), tf.StructMapEntry(2, b.t, false), tf.StructMapEntry(nil, b.t, true))}
	}
}

// Bounds: texts of the grammar of depth 2 (18 forms in 18 forms over 4 terms) next to the type that they denote.
func C17_Grammar() {
	e := term(2)
	nd.Reach("grammar")
	nd.Assert(e.t.Equals(tf.ParseType(e.s)), "a type expression denotes the type that its grammar says")
}
