package h

import (
	"math"
	"regexp"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

func checkString(t dgo.StringType, s string, in bool, what string) {
	if st, ok := t.(interface{ IsInstance(string) bool }); ok {
		nd.Assert(st.IsInstance(s) == in, "IsInstance: "+what)
	}
	nd.Assert(t.Instance(s) == in, "Instance of a Go string: "+what)
	nd.Assert(t.Instance(vf.String(s)) == in, "Instance of a string: "+what)
	nd.Assert(t.Assignable(vf.String(s).Type()) == in, "Assignable from the exact type of a string: "+what)
	nd.Assert(!in || (t.Min() <= len(s) && len(s) <= t.Max()), "strings are within Min and Max: "+what)
	nd.Assert(!in || typ.String.Assignable(t), "every string type is assignable to string: "+what)
}

// Bounds: every int64 size, alone or a pair in either order; ASCII strings of up to 4 bytes.
func C13_Sized() {
	a, b := nd.Int64(), nd.Int64()
	s := asciiUpTo(4)
	l := int64(len(s))
	nd.Reach("sized")
	if nd.Choice(3) == 0 {
		checkString(tf.String(a), s, a <= l, "minimum size")
		return
	}
	lo, hi := a, b
	if lo < 0 {
		lo = 0
	}
	if hi < 0 {
		hi = 0
	}
	lo, hi = swap(lo, hi)
	t := tf.String(a, b)
	checkString(t, s, nd.And(lo <= l, l <= hi), "sized")
	nd.Assert(int64(t.Min()) == lo && int64(t.Max()) == hi, "Min and Max are the bounds in order")
	nd.Assert(t.Unbounded() == nd.And(lo == 0, hi == math.MaxInt64), "Unbounded exactly without limits")
}

// Bounds: two ASCII strings of up to 3 bytes.
func C13_Exact() {
	s, x := asciiUpTo(3), asciiUpTo(3)
	nd.Reach("exact")
	checkString(tf.String(s), x, s == x, "exact string")
	checkString(vf.String(s).Type().(dgo.StringType), x, s == x, "type of a string")
}

// Bounds: two strings of up to 2 ASCII characters.
func C13_Ci() {
	mk := func() string {
		n := nd.Choice(3)
		b := make([]byte, n)
		for i := range b {
			b[i] = nd.Byte()
			nd.Assume(b[i] < 0x80)
		}
		return string(b)
	}
	s, x := mk(), mk()
	nd.Reach("ci")
	in := strings.ToLower(s) == strings.ToLower(x)
	t := tf.CiString(s)
	checkString(t, x, in, "case independent string")
	o := tf.CiString(x)
	nd.Assert(t.Equals(o) == in, "case independent types are equal when the strings are, ignoring case")
	nd.Assert(t.Assignable(o) == in, "case independent types are assignable when equal")
}

// folding are letters with case foldings of other sizes, several of them, or none.
var folding = []string{"k", "K", "\u212a", "s", "S", "\u017f", "\u0130", "i", "I", "\u0131", "\u00df", "\u1e9e", "\u00e5", "\u00c5", "\u212b",
	"\u03c3", "\u03c2", "\u03a3", "\u01c4", "\u01c5", "\u01c6", "\ufffd", "\xff", "1"}

// Bounds: every pair of 24 characters whose case folding is special, alone, behind ASCII letters, or behind
// each other; sized types of sizes around those of the string.
func C13_CiUnicode() {
	s, x := folding[nd.Choice(len(folding))], folding[nd.Choice(len(folding))]
	switch nd.Choice(3) {
	case 0:
		s, x = "aK"+s, "Ak"+x
	case 1:
		s, x = s+x, x+s
	}
	in := strings.EqualFold(s, x)
	t, o := tf.CiString(s), tf.CiString(x)
	nd.Reach("unicode")
	checkString(t, x, in, "case independent Unicode string")
	checkString(t, s, true, "a case independent Unicode string has the string it was made from")
	nd.Assert(t.Equals(o) == in && o.Equals(t) == in, "case independent types are equal when the strings are, ignoring case, in Unicode")
	nd.Assert(!in || t.HashCode() == o.HashCode(), "equal case independent types have equal hash codes")
	nd.Assert(t.Assignable(o) == in, "case independent types are assignable when equal, in Unicode")
	nd.Assert(!vf.String(s).Type().Assignable(o), "an exact type is not assignable from a case independent one")
	z := tf.String(len(s)-nd.Choice(3), len(s)+nd.Choice(3))
	nd.Assert(!z.Assignable(t) || nd.Or(!in, z.Instance(x)), "a sized type is assignable from a case independent one only if it has all its strings")
	r := tf.ParseType(t.String())
	nd.Assert(r.Equals(t), "the string form of a case independent type parses to an equal type")
}

// Bounds: up to 3 strings of 1 letter, one of them, another one.
func C13_Enum() {
	n := nd.Choice(4)
	ss := make([]string, n)
	x := ascii(1)
	in, inCi := false, false
	ci := nd.Choice(2) == 0
	for i := range ss {
		ss[i] = ascii(1)
		in = in || ss[i] == x
		inCi = inCi || strings.ToLower(ss[i]) == strings.ToLower(x)
	}
	var t dgo.Type
	if ci {
		t, in = tf.CiEnum(ss...), inCi
	} else {
		t = tf.Enum(ss...)
	}
	nd.Reach("enum")
	nd.Assert(t.Instance(x) == in, "an enum has the given strings only")
	nd.Assert(t.Instance(vf.String(x)) == in, "an enum has the given strings only")
	nd.Assert(t.Assignable(vf.String(x).Type()) == in, "an enum is assignable from the types of the given strings only")
	nd.Assert(!t.Instance(vf.Integer(1)), "an enum has strings only")
}

// Bounds: the patterns ^[a-m]+$, b.?c, (x|yz)*$ against ASCII strings of up to 3 bytes.
func C13_Pattern() {
	s := asciiUpTo(3)
	k := nd.Choice(3)
	t := tf.Pattern(regexp.MustCompile([]string{`^[a-m]+$`, `b.?c`, `^(x|yz)*$`}[k]))
	nd.Reach("pattern")
	var in bool
	switch k {
	case 0:
		in = len(s) > 0
		for i := 0; i < len(s); i++ {
			in = in && s[i] >= 'a' && s[i] <= 'm'
		}
	case 1:
		for i := 0; i+1 < len(s); i++ {
			in = in || s[i] == 'b' && (s[i+1] == 'c' || i+2 < len(s) && s[i+1] != '\n' && s[i+2] == 'c')
		}
	default:
		in = true
		for i := 0; i < len(s) && in; i++ {
			if s[i] == 'y' && i+1 < len(s) && s[i+1] == 'z' {
				i++
			} else {
				in = s[i] == 'x'
			}
		}
	}
	nd.Assert(t.Instance(s) == in, "a pattern has the strings that match")
	nd.Assert(t.Instance(vf.String(s)) == in, "a pattern has the strings that match")
	nd.Assert(t.Assignable(vf.String(s).Type()) == in, "a pattern is assignable from the types of strings that match")
	nd.Assert(typ.String.Assignable(t) && !t.Assignable(typ.String), "a pattern is a string type")
}

// Bounds: pairs of sized string types, exact strings (2 bytes), case independent strings (1 byte).
func C13_Assignable() {
	mk := func() *ty {
		switch nd.Choice(4) {
		case 0:
			return tString()
		case 1:
			return tSized()
		case 2:
			return tStringIs(asciiUpTo(2))
		default:
			return tCi(letterOrDigit())
		}
	}
	a, b := mk(), mk()
	nd.Reach("pair")
	// all (lo, hi) lengths are inhabited, so inclusion is decided by the parameters
	var want bool
	min := func(t *ty) (int64, int64) {
		switch t.k {
		case "string":
			return 0, math.MaxInt64
		case "sized":
			return t.lo, t.hi
		case "ci":
			return 1, 1
		}
		return int64(len(t.s)), int64(len(t.s))
	}
	alo, ahi := min(a)
	blo, bhi := min(b)
	switch {
	case a.k == "string" || a.k == "sized":
		want = nd.And(alo <= blo, bhi <= ahi)
	case b.k == "string" || b.k == "sized":
		want = nd.And(a.k == "string=", nd.And(a.s == "", bhi == 0))
		if want {
			return // "" and string[0,0] denote the same string but are not comparable as types
		}
	case a.k == "string=":
		want = b.k == "string=" && a.s == b.s
		if b.k == "ci" {
			return // a case independent string without letters has one element only
		}
	default:
		want = strings.ToLower(b.s) == a.s
	}
	nd.Assert(a.t.Assignable(b.t) == want, "string types are assignable exactly from the string types within them: "+a.k+" from "+b.k)
}
