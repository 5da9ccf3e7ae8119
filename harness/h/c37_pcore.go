package h

import (
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const (
	c37Type  = "a Pcore type denotes the dgo type with the same values: "
	c37Value = "a Pcore literal denotes its value: "
	c37Err   = "Pcore text is parsed or refused by an error that describes it: "
)

// pc parses the Pcore text without changing the default aliases.
func pc(text string) dgo.Value {
	return pcore.ParseFile(nil, "", text)
}

func itoa(i int64) string { return strconv.FormatInt(i, 10) }

// pcLeaf is the k:th Pcore type without parameters and what it denotes.
func pcLeaf(k int) (string, dgo.Type) {
	switch k {
	case 0:
		return "Any", typ.Any
	case 1:
		return "Boolean", typ.Boolean
	case 2:
		return "False", typ.False
	case 3:
		return "True", typ.True
	case 4:
		return "Timestamp", typ.Time
	case 5:
		return "Undef", typ.Nil
	case 6:
		return "Array", typ.Array
	case 7:
		return "Binary", typ.Binary
	case 8:
		return "Callable", typ.Function
	case 9:
		return "Float", typ.Float
	case 10:
		return "Enum", typ.String
	case 11:
		return "Hash", typ.Map
	case 12:
		return "Integer", typ.Integer
	case 13:
		return "Number", tf.AnyOf(typ.Integer, typ.Float)
	case 14:
		return "NotUndef", tf.Not(typ.Nil)
	case 15:
		return "Optional", typ.Any
	case 16:
		return "Pattern", typ.String
	case 17:
		return "Regexp", typ.Regexp
	case 18:
		return "Sensitive", typ.Sensitive
	case 19:
		return "String", typ.String
	case 20:
		return "Struct", tf.StructMap(true)
	case 21:
		return "Tuple", typ.Tuple
	case 22:
		return "Type", typ.Any.Type()
	default:
		return "Variant", typ.AnyOf
	}
}

const nPcLeaf = 24

// size is the notation of an optional lower and upper limit, each possibly default, and their values.
func pcSize() (string, int64, int64) {
	ls := []int64{0, 1, 3}
	lo := ls[nd.Choice(3)]
	hi := lo + []int64{0, 1, 5}[nd.Choice(3)]
	switch nd.Choice(5) {
	case 0:
		return itoa(lo), lo, math.MaxInt64
	case 1:
		return itoa(lo) + ", " + itoa(hi), lo, hi
	case 2:
		return "default, " + itoa(hi), 0, hi
	case 3:
		return itoa(lo) + ",default", lo, math.MaxInt64
	default:
		return "default", 0, math.MaxInt64
	}
}

// pcScalar is the k:th parameterized Pcore type without element types.
func pcScalar(k int) (string, dgo.Type) {
	switch k {
	case 0:
		s, lo, hi := pcSize()
		if strings.HasPrefix(s, "default") {
			lo = math.MinInt64
		}
		return "Integer[" + s + "]", tf.Integer(lo, hi, true)
	case 1:
		fs := []string{"-1.5", "2", "1e3", "default", "-1e300"}
		vs := []float64{-1.5, 2, 1000, -math.MaxFloat64, -1e300}
		i := nd.Choice(5)
		switch nd.Choice(3) {
		case 0:
			return "Float[" + fs[i] + "]", tf.Float(vs[i], math.MaxFloat64, true)
		case 1:
			return "Float[" + fs[i] + ",default]", tf.Float(vs[i], math.MaxFloat64, true)
		}
		return "Float[" + fs[i] + ",2000.0]", tf.Float(vs[i], 2000, true)
	case 2:
		s, lo, hi := pcSize()
		nd.Assume(!strings.Contains(s, "default"))
		return "String[" + s + "]", tf.String(lo, hi)
	case 3:
		s, lo, hi := pcSize()
		return "Binary[" + s + "]", tf.Binary(lo, hi)
	case 4:
		return "Enum[a, 'b', \"c d\"]", tf.Enum("a", "b", "c d")
	case 5:
		return "Enum[a,b,false]", tf.Enum("a", "b")
	case 6:
		return "Enum[a,b,true]", tf.CiEnum("a", "b")
	case 7:
		return "Enum[a]", tf.Enum("a")
	case 8:
		return "Pattern[/a+/]", tf.Pattern(regexp.MustCompile("a+"))
	case 9:
		return "Pattern['a+', /b/]", tf.AnyOf(tf.Pattern(regexp.MustCompile("a+")), tf.Pattern(regexp.MustCompile("b")))
	case 10:
		return "Regexp[/a+/]", vf.Regexp(regexp.MustCompile("a+")).Type()
	case 11:
		s, lo, hi := pcSize()
		return "Array[" + s + "]", tf.Array(lo, hi)
	case 12:
		s, lo, hi := pcSize()
		return "Hash[" + s + "]", tf.Map(lo, hi)
	case 13:
		return "Struct[{}]", tf.StructMap(false)
	default:
		return "Callable[0,0]", tf.Function(typ.EmptyTuple, typ.EmptyTuple)
	}
}

const nPcScalar = 15

// pcAny is a Pcore type that is used as parameter.
func pcAny() (string, dgo.Type) {
	switch nd.Choice(6) {
	case 0:
		return "String", typ.String
	case 1:
		return "Integer[1, 5]", tf.Integer(1, 5, true)
	case 2:
		return "Undef", typ.Nil
	case 3:
		return "Array[Hash[String,Integer],1]", tf.Array(tf.Map(typ.String, typ.Integer), 1)
	case 4:
		return "Any", typ.Any
	default:
		return "Variant[Undef, String]", tf.AnyOf(typ.Nil, typ.String)
	}
}

// pcNested is the k:th Pcore type with types as parameters.
func pcNested(k int) (string, dgo.Type) {
	s, t := pcAny()
	switch k {
	case 0:
		return "Array[" + s + "]", tf.Array(t)
	case 1:
		z, lo, hi := pcSize()
		return "Array[" + s + "," + z + "]", tf.Array(t, lo, hi)
	case 2:
		r, u := pcAny()
		return "Hash[" + s + "," + r + "]", tf.Map(t, u)
	case 3:
		z, lo, hi := pcSize()
		return "Hash[" + s + ",String , " + z + "]", tf.Map(t, typ.String, lo, hi)
	case 4:
		return "Sensitive[" + s + "]", tf.Sensitive(t)
	case 5:
		return "Type[" + s + "]", tf.Meta(t)
	case 6:
		switch s {
		case "Undef":
			return "NotUndef[Undef]", tf.AllOf(tf.Not(typ.Nil), typ.Nil)
		case "Any":
			return "NotUndef[Any]", tf.Not(typ.Nil)
		case "Variant[Undef, String]":
			return "NotUndef[" + s + "]", tf.AllOf(tf.Not(typ.Nil), t)
		}
		return "NotUndef[" + s + "]", t
	case 7:
		switch s {
		case "Undef", "Any", "Variant[Undef, String]":
			return "Optional[" + s + "]", t
		}
		return "Optional[" + s + "]", tf.AnyOf(typ.Nil, t)
	case 8:
		return "Optional['a b']", tf.AnyOf(typ.Nil, vf.String("a b").Type())
	case 9:
		r, u := pcAny()
		return "Variant[" + s + "," + r + "]", tf.AnyOf(t, u)
	case 10:
		r, u := pcAny()
		return "Tuple[" + s + "," + r + "]", tf.Tuple(t, u)
	case 11:
		return "Tuple[Float," + s + ",default]", tf.VariadicTuple(typ.Float, t)
	case 12:
		r, u := pcAny()
		return "Struct[{a => " + s + ", Optional['b c'] => " + r + "}]", tf.StructMap(false, tf.StructMapEntry("a", t, true), tf.StructMapEntry("b c", u, false))
	case 13:
		return "Struct[Optional[a] => " + s + "]", tf.StructMap(false, tf.StructMapEntry("a", t, false))
	case 14:
		r, u := pcAny()
		return "Callable[" + s + "," + r + "]", tf.Function(tf.Tuple(t, u), typ.EmptyTuple)
	case 15:
		r, u := pcAny()
		return "Callable[[" + s + "]," + r + "]", tf.Function(tf.Tuple(t), tf.Tuple(u))
	case 16:
		return "Callable[[0,0]," + s + "]", tf.Function(typ.EmptyTuple, tf.Tuple(t))
	case 17:
		return "Callable[Float," + s + ",default]", tf.Function(tf.VariadicTuple(typ.Float, t), typ.EmptyTuple)
	case 18:
		return "Callable[" + s + ",Callable[Float]]", tf.Function(tf.Tuple(tf.Function(tf.Tuple(typ.Float), typ.EmptyTuple), t), typ.EmptyTuple)
	default:
		return "Variant[" + s + "]", tf.AnyOf(t)
	}
}

const nPcNested = 20

// pcType is any Pcore type.
func pcType() (string, dgo.Type) {
	switch nd.Choice(3) {
	case 0:
		return pcLeaf(nd.Choice(nPcLeaf))
	case 1:
		return pcScalar(nd.Choice(nPcScalar))
	default:
		return pcNested(nd.Choice(nPcNested))
	}
}

// C37_Types: Bounds: every Pcore type name, alone, and with every form of parameters (limits of 3 lower and 3 upper sizes, default at either place, 6 types as type parameters).
func C37_Types() {
	s, t := pcType()
	v := pc(s)
	r, ok := v.(dgo.Type)
	nd.Assert(ok, c37Type+"a type")
	nd.Assert(r.Equals(t) && t.Equals(r), c37Type+"equal")
	nd.Reach("types")
}

// C37_Nested: Bounds: every Pcore type as parameter of an array, hash, variant, tuple, struct, type and callable, with and without white space and comments.
func C37_Nested() {
	s, t := pcType()
	w := []string{"", " ", "\n", "\t# comment ]\n "}[nd.Choice(4)]
	var v dgo.Value
	var want dgo.Value
	switch nd.Choice(8) {
	case 0:
		v, want = pc("Array["+w+s+w+","+w+"2]"), tf.Array(t, 2)
	case 1:
		v, want = pc("Hash"+w+"[String"+w+","+s+"]"), tf.Map(typ.String, t)
	case 2:
		v, want = pc(w+"Variant[Sensitive,"+w+s+"]"+w), tf.AnyOf(typ.Sensitive, t)
	case 3:
		v, want = pc("Tuple["+s+w+",Float,]"), tf.Tuple(t, typ.Float)
	case 4:
		v, want = pc("Struct[{x"+w+"=>"+s+"}]"), tf.StructMap(false, tf.StructMapEntry("x", t, true))
	case 5:
		v, want = pc("Type["+s+"]"), tf.Meta(t)
	case 6:
		v, want = pc("["+s+","+w+s+w+"]"), vf.Values(t, t)
	default:
		v, want = pc("{"+s+w+"=>"+w+s+"}"), vf.Map(t, t)
	}
	nd.Assert(v.Equals(want) && want.Equals(v), c37Type+"nested")
	nd.Reach("nested")
}

// C37_Number: Bounds: number types with limits from 9 numbers, integer or not, have exactly the integers and floats in between: every integer (symbolic), 9 floats.
func C37_Number() {
	ts := []string{"-2", "-1.5", "0", "0.5", "1", "1.5", "3", "1e300", "-1e300"}
	fs := []float64{-2, -1.5, 0, 0.5, 1, 1.5, 3, 1e300, -1e300}
	i, j := nd.Choice(9), nd.Choice(9)
	lo, hi := fs[i], fs[j]
	nd.Assume(lo <= hi)
	var t dgo.Type
	switch nd.Choice(3) {
	case 0:
		t = pc("Number[" + ts[i] + "," + ts[j] + "]").(dgo.Type)
	case 1:
		t, hi = pc("Number["+ts[i]+"]").(dgo.Type), math.MaxFloat64
	default:
		t, lo = pc("Number[default,"+ts[j]+"]").(dgo.Type), -math.MaxFloat64
	}
	f := fs[nd.Choice(9)]
	nd.Assert(t.Instance(f) == (lo <= f && f <= hi), c37Type+"number with a float")
	// the least and the greatest integer within the limits
	ceil := []int64{-2, -1, 0, 1, 1, 2, 3, math.MaxInt64, math.MinInt64}
	floor := []int64{-2, -2, 0, 0, 1, 1, 3, math.MaxInt64, math.MinInt64}
	from, to := int64(math.MinInt64), int64(math.MaxInt64)
	if lo != -math.MaxFloat64 {
		from = ceil[i]
	}
	if hi != math.MaxFloat64 {
		to = floor[j]
	}
	n := nd.Int64()
	in := nd.And(from <= n, n <= to)
	if lo == 1e300 || hi == -1e300 {
		in = false
	}
	nd.Assert(t.Instance(n) == in, c37Type+"number with an integer")
	nd.Reach("number")
}

// C37_Values: Bounds: literals of every kind, strings with every printable byte and escape, alone and in arrays, hashes and entries.
func C37_Values() {
	var s string
	var v dgo.Value
	switch nd.Choice(12) {
	case 0:
		i := pickInt()
		s, v = itoa(i), vf.Integer(i)
	case 1:
		s, v = []string{"0x1F", "-0x10", "+5", "017", "0"}[nd.Choice(5)], nil
		v = map[string]dgo.Value{"0x1F": vf.Integer(31), "-0x10": vf.Integer(-16), "+5": vf.Integer(5), "017": vf.Integer(15), "0": vf.Integer(0)}[s]
	case 2:
		s = []string{"1.5", "-2.25", "1e3", "1.5E-3", "+0.5", "-0.0"}[nd.Choice(6)]
		f, _ := strconv.ParseFloat(s, 64)
		v = vf.Float(f)
	case 3:
		c := nd.Byte()
		nd.Assume(c >= ' ' && c < 0x7f && c != '\'' && c != '\\' && c != '"' && c != '$')
		q := []string{"'", "\""}[nd.Choice(2)]
		s, v = q+string([]byte{'a', c})+q, vf.String(string([]byte{'a', c}))
	case 4:
		e := []string{"\\n", "\\t", "\\r", "\\\\", "\\\""}[nd.Choice(5)]
		s, v = "\"x"+e+"\"", vf.String("x"+map[string]string{"\\n": "\n", "\\t": "\t", "\\r": "\r", "\\\\": "\\", "\\\"": "\""}[e])
	case 5:
		s, v = "true", vf.True
	case 6:
		s, v = "false", vf.False
	case 7:
		s, v = "undef", vf.Nil
	case 8:
		s, v = []string{"abc", "a_b::c1", "default", "type"}[nd.Choice(4)], nil
		v = vf.String(s)
	case 9:
		s, v = "/a\\/b+/", vf.Regexp(regexp.MustCompile("a/b+"))
	case 10:
		s, v = "'ä世'", vf.String("ä世")
	default:
		s, v = []string{"Integer('12')", "String(12)", "Array[Integer]([1,2])", "Float(3)"}[nd.Choice(4)], nil
		v = map[string]dgo.Value{"Integer('12')": vf.Integer(12), "String(12)": vf.String("12"), "Array[Integer]([1,2])": vf.Values(1, 2), "Float(3)": vf.Float(3)}[s]
	}
	text, want := s, v
	switch nd.Choice(9) {
	case 0:
	case 1:
		text, want = "["+s+"]", vf.Values(v)
	case 2:
		text, want = "[1,"+s+", ]", vf.Values(1, v)
	case 3:
		text, want = "{k => "+s+"}", vf.Map("k", v)
	case 4:
		text, want = "{"+s+" => 1, z => [], }", vf.Map(v, 1, "z", vf.Values())
	case 5:
		text, want = s+" => 1", vf.Map(v, 1)
	case 6:
		text, want = "k => "+s, vf.Map("k", v)
	case 7:
		text, want = "[0, a => "+s+", "+s+" => b, 9]", vf.Values(0, vf.Map("a", v, v, "b"), 9)
	default:
		text, want = "["+s+"=>{}, 1, x=>"+s+"]", vf.Values(vf.Map(v, vf.Map()), 1, vf.Map("x", v))
	}
	if s == "type" {
		// a name after type is a declaration
		nd.Assume(text != s)
	}
	r := typ.ExactValue(pc(text))
	nd.Assert(r.Equals(want) && want.Equals(r), c37Value+"equal")
	nd.Reach("values")
}

// C37_Aliases: Bounds: 8 declarations and uses of aliases, some of them recursive, against the same in the dgo notation.
func C37_Aliases() {
	ps := [][2]string{
		{"type Verifa = Integer", "int"},
		{"type Verifa = Array[Variant[Integer, Verifa]]", "verifa=[](int|verifa)"},
		{"type Verifa::Sub = Hash[String,Verifa::Sub]", "verifs=map[string]verifs"},
		{"Tuple[type Verifa = Array[Integer,1], Verifa]", "{[1]int,[1]int}"},
		{"[type Verifa = Integer, Array[Verifa]][1]", ""},
		{"Struct[{a => type Verifa = String[2], b => Optional[Verifa]}]", "{a:string[2],b:nil|string[2]}"},
		{"Array[Verifb]", ""},
		{"type Verifa = Struct[{n => Optional[Verifa], v => Integer}]", "verifa={n:nil|verifa,v:int}"},
	}
	k := nd.Choice(len(ps))
	if ps[k][1] == "" {
		f := failure(func() { pc(ps[k][0]) })
		nd.Assert(f != "" && !crash(f), c37Err+"alias")
		nd.Reach("refused alias")
		return
	}
	t := pc(ps[k][0]).(dgo.Type)
	var u dgo.Type
	tf.DefaultAliases().Collect(func(a dgo.AliasAdder) { u = typ.AsType(tf.ParseFile(a, "", ps[k][1])) })
	nd.Assert(t.Equals(u) && u.Equals(t), c37Type+"alias")
	nd.Assert(t.Assignable(u) && u.Assignable(t), c37Type+"assignable alias")
	nd.Assert(tf.DefaultAliases().GetType(vf.String("verifa")) == nil, c37Type+"aliases are local")
	nd.Reach("aliases")
}

// C37_Dialect: Bounds: the types of every form parsed by the Pcore dialect, using and declaring aliases in the given map.
func C37_Dialect() {
	d := pcore.Dialect()
	s, t := pcType()
	known := nd.Choice(2) == 0
	r := t
	am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) {
		if known {
			a.Add(t, vf.String("verifa"))
			r = d.ParseType(a, vf.String("Array[Verifa,1,2]"))
		} else {
			r = d.ParseType(a, vf.String("Array[type Verifa = "+s+",1,2]"))
		}
	})
	want := tf.Array(t, 1, 2)
	nd.Assert(r.Equals(want) && want.Equals(r), c37Type+"dialect")
	nd.Assert(am.GetType(vf.String("verifa")) != nil && t.Equals(am.GetType(vf.String("verifa"))), c37Type+"dialect declares aliases")
	nd.Assert(tf.DefaultAliases().GetType(vf.String("verifa")) == nil, c37Type+"dialect and default aliases")
	nd.Reach("dialect")
}

// pcParsed asserts that the text is refused by a describing error or denotes a value.
func pcParsed(text, what string) bool {
	var v dgo.Value
	f := failure(func() { v = pc(text) })
	nd.Assert(!crash(f), c37Err+what)
	nd.Assert(f != "" || v != nil, c37Err+"a value: "+what)
	return f == ""
}

// C37_Short: Bounds: every text of up to 2 bytes (3 in the thorough tier).
func C37_Short() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	pcParsed(anyText(nd.Choice(n)), "short")
	nd.Reach("short")
}

// C37_Framed: Bounds: every type name with up to one arbitrary byte, or one of 24 other parameter lists, in brackets.
func C37_Framed() {
	s, _ := pcLeaf(nd.Choice(nPcLeaf))
	p := []string{"", "?", "String", "1", "-1", "1,2", "2,1", "String,1", "1,String", "String,Integer,1,2,3", "a", "a,1", "1.5", "2.5,1.5", "[]", "[],String", "[String],1", "[String],String", "{}", "{a=>1}", "{1=>String}",
		"default", "default,default", "true", "/a/", "'('", "Undef", "Foo", "String,Callable", "Callable,1,1", "1,1,Callable", "undef", "99999999999999999999", "1e999"}[nd.Choice(34)]
	if p == "?" {
		p = ascii(1)
	}
	pcParsed(s+"["+p+"]", "framed")
	nd.Reach("framed")
}

var pcTexts = []string{
	"Struct[{a => Integer[1, 5], Optional['b'] => Array[String[1],1,default]}]", "Callable[[String,1,Callable],Hash[String,Float[1.5,2]]]", "[1, a => -0x1f, 'b\\n' => /r\\//, # x\n2.5e3]",
	"type Verifa=Variant[Integer,Array[Verifa]]", "Enum[a,'b',true]", "Timestamp('2020')", "Sensitive[Pattern[/a/,'b']]",
}

// C37_Edited: Bounds: 7 texts with any one byte replaced by, or preceded by, an arbitrary one (below 0x80), removed, or cut at any place.
func C37_Edited() {
	t := pcTexts[nd.Choice(len(pcTexts))]
	i := nd.Choice(len(t))
	switch nd.Choice(4) {
	case 0:
		pcParsed(t[:i]+ascii(1)+t[i+1:], "replaced")
	case 1:
		pcParsed(t[:i]+ascii(1)+t[i:], "inserted")
	case 2:
		pcParsed(t[:i]+t[i+1:], "removed")
	default:
		nd.Assert(!pcParsed(t[:i], "cut") || i <= strings.IndexAny(t, "[("), c37Err+"incomplete text is refused")
	}
	nd.Reach("edited")
}

// C37_Whole: Bounds: 8 complete expressions followed by an optional space and any byte below 0x80: accepted exactly when that byte is white space or begins a comment.
func C37_Whole() {
	t := []string{"Array[Integer]", "[1]", "{a=>1}", "'a'", "\"a\"", "/a/", "Struct[{}]", "Integer('1')"}[nd.Choice(8)]
	sp := []string{"", " "}[nd.Choice(2)]
	c := nd.Byte()
	nd.Assume(c < 0x80)
	acc := pcParsed(t+sp+string([]byte{c}), "trailing byte")
	white := nd.Or(c == ' ', nd.Or(c == '\t', nd.Or(c == '\n', c == '#')))
	nd.Assert(nd.Or(nd.And(acc, white), nd.And(!acc, !white)), c37Err+"all of the text is part of the expression")
	nd.Reach("whole")
}
