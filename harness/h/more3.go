package h

import (
	"math"
	"regexp"
	"strconv"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const c18Mix = "a text is a type or refused by an error that describes it: "

// Bounds: lists in curly brackets of up to 3 members (elements, entries with names and strings as keys, optional entries, a variadic element, an ellipsis): accepted exactly when all are elements or all are entries, with the element or the ellipsis that stands for others last.
func C18_Mix() {
	items := []string{"int", "a:int", `"b":int`, "c?:int", `"d"?:int`, "...int", "...", "1"}
	n := 1 + nd.Choice(3)
	text := ""
	entries, elements, others := 0, 0, 0
	for i := 0; i < n; i++ {
		k := nd.Choice(len(items))
		nd.Assume(k < 5 || i == n-1 || nd.Choice(2) == 0)
		if i > 0 {
			text += ","
		}
		text += items[k]
		switch {
		case k == 0 || k == 7:
			elements++
		case k < 5:
			entries++
		default:
			if i < n-1 {
				others = 9
			}
			if others == 0 {
				others = k
			}
		}
	}
	trail := nd.Choice(2) == 1
	if trail {
		text += ","
	}
	ok := true
	switch others {
	case 0:
		ok = entries == 0 || elements == 0
	case 5:
		ok = entries == 0 && !trail
	case 6:
		ok = elements == 0 && !trail
	default:
		ok = false
	}
	var v dgo.Value
	f := failure(func() { v = tf.ParseFile(nil, "", "{"+text+"}") })
	nd.Reach("mix")
	nd.Assert(!crash(f), c18Mix+"mix")
	nd.Assert((f == "") == ok, c18Mix+"elements and entries are not mixed")
	if !ok {
		return
	}
	switch t := v.(type) {
	case dgo.StructMapType:
		nd.Assert(t.Len() == entries && t.Additional() == (others == 6) && elements == 0, c18Mix+"entries of a list")
	case dgo.TupleType:
		nd.Assert(t.Variadic() == (others == 5) && entries == 0, c18Mix+"elements of a list")
		if others == 5 {
			elements++
		}
		nd.Assert(t.Len() == elements, c18Mix+"elements of a list")
	default:
		nd.Assert(entries == 0, c18Mix+"kind of a list")
	}
}

// Bounds: the escapes of 16 character codes at the ends of the ranges (with 4 and 8 digits): those of characters denote them, others are refused.
func C18_Codes() {
	cs := []int64{0, 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdabc, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000041, 0xffffffff}
	c := cs[nd.Choice(len(cs))]
	h := strconv.FormatInt(c, 16)
	u, n := `\U`, 8
	if c < 0x10000 && nd.Choice(2) == 0 {
		u, n = `\u`, 4
	}
	for len(h) < n {
		h = "0" + h
	}
	var v dgo.Value
	f := failure(func() { v = tf.ParseFile(nil, "", `"x`+u+h+`y"`) })
	ok := c < 0xd800 || c > 0xdfff && c < 0x110000
	nd.Reach("codes")
	nd.Assert(!crash(f), c18Mix+"codes")
	nd.Assert((f == "") == ok, c18Mix+"the code of a character")
	nd.Assert(!ok || typ.ExactValue(v).Equals("x"+string(rune(c))+"y"), c18Mix+"the character of a code")
}

// Bounds: Pcore lists and hashes of up to 3 words, commas and rockets, in every order: accepted exactly when each rocket has a word on both sides, a word never has two of them, and words are parted by one comma or rocket; a hash has only entries.
func C37_Lists() {
	n := 1 + nd.Choice(5)
	hash := nd.Choice(2) == 1
	text := ""
	ok := true
	need, rock, entries, elements := true, false, 0, 0
	for i := 0; i < n; i++ {
		switch nd.Choice(3) {
		case 0:
			ok = ok && need
			need = false
			if rock {
				entries++
			} else {
				elements++
			}
			text += "1 "
		case 1:
			ok = ok && !need && !(hash && !rock)
			need, rock = true, false
			text += ","
		default:
			ok = ok && !need && !rock
			need, rock = true, true
			elements--
			text += "=>"
		}
	}
	ok = ok && !(need && rock) && !(hash && !need && !rock)
	if hash {
		text = "{" + text + "}"
	} else {
		text = "[" + text + "]"
	}
	var v dgo.Value
	f := failure(func() { v = pc(text) })
	nd.Reach("lists")
	nd.Assert(!crash(f), c37Err+"lists")
	nd.Assert((f == "") == ok, c37Err+"lists of words and entries")
	if ok && !hash && entries == 0 {
		nd.Assert(typ.ExactValue(v).(dgo.Array).Len() == elements, c37Value+"lists")
	}
}

// Bounds: times of 5 years around the ends of what fits in 64 bits of nanoseconds, and around 1970, with nanoseconds: the number of seconds is nearest to the time, to the microsecond and to the nanosecond.
func C21_Seconds() {
	s := []int64{0, 1, 1000, 100000, -1, -1000}[nd.Choice(6)]
	ns := []int64{0, 1, 999, 1500, 999999999, 123456789}[nd.Choice(6)]
	f := vf.Time(time.Unix(s, ns)).SecondsWithFraction()
	nd.Reach("seconds")
	nd.Assert(math.Abs(f-float64(s*1000000000+ns)/1e9) < 5e-10, c21Conv+"seconds with fraction")
}

// C10_DgoString: Bounds: string types with sizes of up to 10^6, patterns, case independent and exact strings, and one of or
// not those, against dgo strings: whichever is assignable from the other has each of 8 strings that the other has.
func C10_DgoString() {
	var t dgo.Type
	s := []string{"1", "7", "int", "map[string]int", "{a:1,b:string}", "\"a\"", "", "no type"}
	switch nd.Choice(5) {
	case 0:
		lo, hi := nd.Int(), nd.Int()
		nd.Assume(lo >= 0 && lo < 1000000 && hi >= 0 && hi < 1000000)
		t = tf.String(lo, hi)
	case 1:
		lo := nd.Int()
		nd.Assume(lo >= 0 && lo < 1000000)
		t = tf.String(lo)
	case 2:
		t = tf.Pattern(regexp.MustCompile([]string{"", "^.", "^[a-z]+$", "."}[nd.Choice(4)]))
	case 3:
		t = tf.CiString(s[nd.Choice(8)])
	default:
		t = vf.String(s[nd.Choice(8)]).Type()
	}
	switch nd.Choice(4) {
	case 1:
		t = tf.OneOf(t, typ.Integer)
	case 2:
		t = tf.AllOf(t, typ.String)
	case 3:
		t = tf.AnyOf(t, vf.String("int").Type())
	}
	ta, da := t.Assignable(typ.DgoString), typ.DgoString.Assignable(t)
	nd.Reach("dgo string")
	for _, v := range s {
		nd.Assert(!ta || !typ.DgoString.Instance(v) || t.Instance(v), "a type has every dgo string when it is assignable from their type")
		nd.Assert(!da || !t.Instance(v) || typ.DgoString.Instance(v), "dgo strings have every value of the types assignable to them")
	}
}

// C01_Arguments: Bounds: arguments of 0 to 2 integers out of 3, or an array of one, against arguments and arrays of the
// same kind, and sized array and tuple types: arguments are equal to, compare with and are instances of types as the array
// of the same elements.
func C01_Arguments() {
	made := func() ([]interface{}, dgo.Array, dgo.Array) {
		es := make([]interface{}, nd.Choice(3))
		for i := range es {
			es[i] = nd.Choice(3)
		}
		if nd.Choice(2) == 0 {
			es = []interface{}{vf.Values(es...)}
		}
		return es, vf.Arguments(es...), vf.Values(es...)
	}
	_, x, a := made()
	_, y, b := made()
	eq := a.Equals(b)
	nd.Reach("arguments")
	nd.Assert(x.Equals(x) && x.Equals(a) && a.Equals(x), "arguments are equal to the array of the same elements")
	nd.Assert(x.Equals(y) == eq && x.Equals(b) == eq && a.Equals(y) == eq, "arguments are equal when their elements are")
	nd.Assert(x.HashCode() == a.HashCode(), "equal values have equal hash codes: arguments")
	nd.Assert(vf.Values(x).Equals(vf.Values(b)) == eq && vf.Values(a).Equals(vf.Values(y)) == eq, "arguments are equal when their elements are: elements")
	nd.Assert(vf.Map(x, 1).Get(b) != nil == eq && vf.Map(a, 1).Get(y) != nil == eq, "arguments are equal when their elements are: keys")
	w, wo := a.CompareTo(b)
	for i, p := range [][2]dgo.Array{{x, y}, {x, b}, {a, y}} {
		c, ok := p[0].CompareTo(p[1])
		nd.Assert(ok == wo && c == w && i >= 0, "arguments are compared as arrays are")
	}
	for _, t := range []dgo.Type{typ.Array, tf.Array(typ.Integer), tf.Array(1, 1), tf.Tuple(typ.Integer, typ.Any), tf.VariadicTuple(typ.Any, typ.Integer), a.Type(), b.Type(), typ.Any, typ.Map, tf.Not(tf.Array(typ.Integer))} {
		nd.Assert(t.Instance(x) == t.Instance(a), "arguments are instances of the types that have the array of the same elements")
	}
	nd.Assert(x.Type().Equals(a.Type()), "arguments are instances of the types that have the array of the same elements: type")
}

// C01_StructTypes: Bounds: struct types of 0 to 2 of 3 keys with 2 types, required or not, with or without additional keys, made
// with StructMap or parsed: they are equal, with equal hash codes, when everything is the same, and not when the keys, the
// types, what is required or additional keys differ.
func C01_StructTypes() {
	type field struct {
		k   int
		v   int
		req bool
	}
	keys := []string{"a", "b", "c"}
	types := []dgo.Type{typ.Integer, typ.String}
	made := func(parsed bool) (fs []field, more bool, t dgo.Type) {
		var es []dgo.StructMapEntry
		text := ""
		for n := nd.Choice(3); n > 0; n-- {
			f := field{nd.Choice(3), nd.Choice(2), nd.Choice(2) == 0}
			for _, o := range fs {
				nd.Assume(o.k < f.k)
			}
			fs = append(fs, f)
			es = append(es, tf.StructMapEntry(keys[f.k], types[f.v], f.req))
			if text != "" {
				text += ","
			}
			text += keys[f.k]
			if !f.req {
				text += "?"
			}
			text += ":" + types[f.v].String()
		}
		more = nd.Choice(2) == 0
		if len(fs) > 0 && parsed {
			if more {
				text += ",..."
			}
			return fs, more, tf.ParseType("{" + text + "}")
		}
		return fs, more, tf.StructMap(more, es...)
	}
	fx, mx, x := made(false)
	fy, my, y := made(true)
	eq := mx == my && len(fx) == len(fy)
	for i := 0; eq && i < len(fx); i++ {
		eq = fx[i] == fy[i]
	}
	nd.Reach("struct types")
	nd.Assert(x.Equals(x) && x.Equals(y) == eq && y.Equals(x) == eq, "struct types are equal when all parts are")
	nd.Assert(!eq || x.HashCode() == y.HashCode(), "equal struct types have equal hash codes")
	nd.Assert((vf.Map(x, 1).Get(y) != nil) == eq, "struct types are equal when all parts are: keys")
	nd.Assert(!eq || x.String() == y.String(), "equal struct types have equal texts")
	nd.Assert(eq || x.String() != y.String(), "different struct types have different texts")
}
