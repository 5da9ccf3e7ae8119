package h

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// C37_Enums: Bounds: enums of 1 to 4 strings out of five (in any notation, also several times), optionally followed by true or false: exactly the strings are instances, in any case
// after true.
func C37_Enums() {
	words := []string{"a", "B", "cd", "ab", "e"}
	n := nd.Choice(4) + 1
	text := "Enum["
	var has [5]bool
	for i := 0; i < n; i++ {
		w := nd.Choice(5)
		has[w] = true
		if i > 0 {
			text += ","
		}
		switch w {
		case 0, 4:
			text += words[w]
		case 1:
			text += `"B"`
		default:
			text += "'" + words[w] + "'"
		}
	}
	mode := nd.Choice(3)
	text += []string{"]", ",true]", ", false]"}[mode]
	t := pc(text).(dgo.Type)
	nd.Reach("enum")
	for i, w := range words {
		nd.Assert(t.Instance(w) == has[i], c37Type+"the strings of an enum")
		o := strings.ToUpper(w)
		if o == w {
			o = strings.ToLower(w)
		}
		nd.Assert(t.Instance(o) == (has[i] && mode == 1), c37Type+"the strings of an enum in another case")
	}
	nd.Assert(!t.Instance("") && !t.Instance("x") && !t.Instance(1), c37Type+"nothing but the strings of an enum")
}

// C37_Redeclared: Bounds: two declarations of aliases, named the same or not, or like a built-in alias, a named type or a type of the notation, for the same or different types: refused
// exactly when the name is taken.
func C37_Redeclared() {
	nt := tf.NewNamed("verifTaken", nil, nil, reflect.TypeOf(vf.True), nil, nil)
	defer tf.RemoveNamed("verifTaken")
	_ = nt
	names := []string{"Verifa", "Verifb", "Data", "RichData", "VerifTaken", "Integer", "Any", "Variant", "Verifa::Sub"}
	types := []string{"Integer", "String", "Array[Integer]", "Verifc"}
	taken := map[string]bool{"Data": true, "Richdata": true, "VerifTaken": true, "Integer": true, "Any": true, "Variant": true}
	a, b := names[nd.Choice(9)], names[nd.Choice(9)]
	if a == "RichData" || b == "RichData" {
		nd.Assume(false)
	}
	bad := taken[a]
	taken[a] = true
	bad = bad || taken[b]
	t, u := types[nd.Choice(3)], types[nd.Choice(3)]
	text := "type " + a + " = " + t + ", type " + b + " = " + u
	switch nd.Choice(3) {
	case 0:
		text = "[" + text + "]"
	case 1:
		text = "Tuple[" + text + "]"
	default:
		text = "{a => type " + a + " = " + t + ", b => type " + b + " = " + u + "}"
	}
	s := failure(func() { pc(text) })
	nd.Reach("redeclared")
	nd.Assert((s != "") == bad && !crash(s), c37Err+"a name is declared once")
	if bad {
		nd.Assert(strings.Contains(s, "attempt to redeclare identifier"), c37Err+"the message of a redeclaration")
	}
}

// C37_Top: Bounds: a value, or an entry of two values, followed by up to two tokens out of eight (none, white space, a comma, a rocket, a bracket, a value): accepted exactly when
// nothing but one value or one entry is there.
func C37_Top() {
	vs := []string{"1", "a", "[1]", "{}", "Integer"}
	text := vs[nd.Choice(5)]
	want := pc(text)
	ok := true
	if nd.Choice(2) == 1 {
		v := vs[nd.Choice(5)]
		want = vf.Map(want, pc(v))
		text += " => " + v
	}
	for i := 0; i < 2; i++ {
		switch nd.Choice(8) {
		case 0:
		case 1:
			text += " \n"
		case 2:
			text += ","
			ok = false
		case 3:
			text += " => "
			ok = false
		case 4:
			text += "]"
			ok = false
		case 5:
			text += " 2"
			ok = false
		case 6:
			text += "}"
			ok = false
		default:
			text += ")"
			ok = false
		}
	}
	var v dgo.Value
	s := failure(func() { v = pc(text) })
	nd.Reach("top")
	if text == "1 =>  2" || strings.Count(text, "=>") > 0 && s == "" && !ok {
		// a value and then a rocket and a value
		nd.Assert(strings.Count(text, "=>") == 1 && strings.HasSuffix(text, " =>  2"), c37Err+"one entry")
		return
	}
	nd.Assert((s == "") == ok && !crash(s), c37Err+"one value or one entry")
	nd.Assert(!ok || v.Equals(want), c37Value+"one value or one entry")
}

// zeroLike is one of the values that are easily taken for nothing.
func zeroLike(k int) dgo.Value {
	switch k {
	case 0:
		return vf.String("")
	case 1:
		return vf.Integer(0)
	case 2:
		return vf.False
	case 3:
		return vf.Float(0)
	case 4:
		return vf.Values()
	case 5:
		return vf.Map()
	case 6:
		return vf.Binary(nil, true)
	default:
		return vf.Sensitive(nil)
	}
}

// C25_Empty: Bounds: an entry of each kind of value that is like nothing (empty, zero, false), in a loader of each kind, as an entry, found by a finder or in a namespace, with or without
// another value for the same name in a child: Get gives that value, and again.
func C25_Empty() {
	v := zeroLike(nd.Choice(8))
	asked := 0
	f := func(l dgo.Loader, n string) interface{} {
		asked++
		if n == "a" {
			return v
		}
		return nil
	}
	ns := func(l dgo.Loader, n string) dgo.Loader {
		if n != "n" {
			return nil
		}
		return loader.New(l, n, vf.Map("a", v), nil, nil)
	}
	var l dgo.Loader
	k := nd.Choice(4)
	path := "a"
	switch k {
	case 0:
		l = loader.New(nil, "", vf.Map("a", v), nil, nil)
	case 1:
		l = loader.New(nil, "", nil, f, nil)
	case 2:
		l = loader.New(nil, "", vf.Map("a", v), nil, ns)
	default:
		l = loader.New(nil, "", nil, nil, ns)
		path = "n/a"
	}
	switch nd.Choice(3) {
	case 1:
		l = l.NewChild(func(l dgo.Loader, n string) interface{} { return "child" }, func(l dgo.Loader, n string) dgo.Loader {
			return loader.New(l, n, vf.Map("a", "child"), nil, nil)
		})
	case 2:
		l = l.NewChild(nil, nil)
	}
	nd.Reach("empty")
	for i := 0; i < 2; i++ {
		nd.Assert(sameOrNil(l.Load(path), v), "what is like nothing is found as any value")
	}
	nd.Assert(asked <= 1 && (k != 1 || asked == 1), "what is like nothing is asked for once")
	x := l.Load("x/a")
	nd.Assert(x == nil || x.Equals("child"), "what isn't there is nil")
}

// C25_Children: Bounds: children of equal parents, or of parents with another entry, in which none, the same or other entries were found, and with none, the same or other namespaces:
// equal exactly when all of that is.
func C25_Children() {
	mk := func() (dgo.Loader, [3]int) {
		k := [3]int{nd.Choice(2), nd.Choice(3), nd.Choice(3)}
		p := loader.New(nil, "", vf.Map("p", k[0]), nil, nil)
		c := p.NewChild(func(l dgo.Loader, n string) interface{} { return n + "found" }, func(l dgo.Loader, n string) dgo.Loader {
			return loader.New(l, n, vf.Map("n", n), nil, nil)
		})
		if k[1] > 0 {
			c.Get([]string{"", "x", "y"}[k[1]])
		}
		if k[2] > 0 {
			c.Namespace([]string{"", "m", "n"}[k[2]])
		}
		return c, k
	}
	a, i := mk()
	b, j := mk()
	nd.Reach("children")
	eq := i == j
	nd.Assert(a.Equals(b) == eq && b.Equals(a) == eq, "children are equal when their parents, entries and namespaces are")
	nd.Assert(!eq || a.HashCode() == b.HashCode(), "equal children have equal hash codes")
	nd.Assert(a.Equals(a) && !a.Equals(nil) && !a.Equals("x"), "a child is equal to itself and to no other value")
}

// C25_Requested: Bounds: a finder that returns up to two entries at once, with or without the requested one, whose values may be nil: exactly what lacks the requested entry is
// refused, and then nothing is added.
func C25_Requested() {
	m := vf.MutableMap()
	n := nd.Choice(3)
	for i := 0; i < n; i++ {
		v := vf.Value(i)
		if nd.Choice(3) == 0 {
			v = vf.Nil
		}
		m.Put([]string{"x", "y", "z"}[nd.Choice(3)], v)
	}
	all := true
	l := loader.New(nil, "", nil, func(l dgo.Loader, n string) interface{} {
		if all {
			return loader.Multiple(m)
		}
		return nil
	}, nil)
	var v dgo.Value
	s := failure(func() { v = l.Get("x") })
	nd.Reach("requested")
	nd.Assert((s != "") == !m.ContainsKey("x") && !crash(s), "entries without the requested one are refused")
	nd.Assert(sameOrNil(v, goNil(m.Get("x"))), "the requested entry is given")
	all = false
	for _, k := range []string{"y", "z"} {
		w := goNil(m.Get(k))
		if s != "" {
			w = nil
		}
		nd.Assert(sameOrNil(l.Get(k), w), "the other entries are added, or none of them")
	}
}

type c33Shape interface{ Sides() int }

type c33Square struct{ dgo.Boolean }

func (c33Square) Sides() int { return 4 }

// C33_Reflected: Bounds: up to two named types with each combination of implementation and interface type: a named type is found by its implementation type only, as long as it is
// registered.
func C33_Reflected() {
	it := reflect.TypeOf((*c33Shape)(nil)).Elem()
	st := reflect.TypeOf(c33Square{})
	ot := reflect.TypeOf(struct{ A int }{})
	defer tf.RemoveNamed("verifR1")
	defer tf.RemoveNamed("verifR2")
	var impl [2]reflect.Type
	var nts [2]dgo.NamedType
	for i, n := range []string{"verifR1", "verifR2"} {
		impl[i] = []reflect.Type{st, ot, it}[nd.Choice(3)]
		var ifd reflect.Type
		if nd.Choice(2) == 0 {
			ifd = it
		}
		nts[i] = tf.NewNamed(n, nil, nil, impl[i], ifd, nil)
	}
	nd.Assume(impl[0] != impl[1])
	if nd.Choice(2) == 0 {
		tf.RemoveNamed("verifR1")
		impl[0] = nil
	}
	nd.Reach("reflected")
	for _, rt := range []reflect.Type{st, ot, it, reflect.TypeOf(""), reflect.PtrTo(st)} {
		nt := tf.NamedFromReflected(rt)
		switch rt {
		case impl[0]:
			nd.Assert(nt == nts[0], "a named type is found by its implementation type")
		case impl[1]:
			nd.Assert(nt == nts[1], "a named type is found by its implementation type")
		default:
			nd.Assert(nt == nil, "a named type is found by its implementation type only")
		}
	}
}

// C33_ValueString: Bounds: named types whose extractor gives a value of each kind: the text of a value is the name followed by the text of what is extracted, with a space between unless
// that text starts with a delimiter.
func C33_ValueString() {
	k := nd.Choice(12)
	var x dgo.Value
	switch k {
	case 0:
		x = vf.Integer(3)
	case 1:
		x = vf.Float(-1.5)
	case 2:
		x = vf.True
	case 3:
		x = vf.Binary([]byte{1, 2}, true)
	case 4:
		x = vf.Time(time.Unix(5, 0).UTC())
	case 5:
		x = typ.String
	case 6:
		x = vf.Nil
	case 7:
		x = tf.Integer(1, 2, true)
	case 8:
		x = vf.Values(1, "a")
	case 9:
		x = vf.Map("a", 1)
	case 10:
		x = vf.Values()
	default:
		x = vf.Map()
	}
	nt := tf.NewNamed("verifV", nil, func(dgo.Value) dgo.Value { return x }, reflect.TypeOf(c33Square{}), nil, nil)
	defer tf.RemoveNamed("verifV")
	s := nt.ValueString(c33Square{vf.True})
	nd.Reach("value string")
	want := "verifV"
	if k < 8 {
		want += " "
	}
	nd.Assert(strings.HasPrefix(s, want), "the text of a named value starts with the name of its type")
	rest := s[len(want):]
	nd.Assert(k == 6 || k == 4 || rest == x.String(), "the text of a named value ends with the text of its argument")
}

// C10_Functions: Bounds: function types with up to two parameters and results out of four types, the last parameter variadic or not, declared or those of Go functions: one that accepts
// another accepts its parameters and its results.
func C10_Functions() {
	fs := []string{
		"func()", "func(string)", "func(string) string", "func() (string, int)", "func(int) int", "func(...string)", "func(string, ...int) string",
		"func(string|int)", "func(any) any", "func() any", "func() (string|int)", "func(string, int)", "func(...any) (any, any)", "func(...any)",
	}
	gs := []interface{}{func() {}, func(string) {}, func(string) string { return "" }, func() (string, int) { return "", 1 }, func(...string) {}, func() interface{} { return 1 }}
	pick := func() dgo.FunctionType {
		k := nd.Choice(len(fs) + len(gs))
		if k < len(fs) {
			return tf.ParseType(fs[k]).(dgo.FunctionType)
		}
		return vf.Value(gs[k-len(fs)]).Type().(dgo.FunctionType)
	}
	a, b := pick(), pick()
	nd.Reach("functions")
	want := a.In().Assignable(b.In()) && a.Out().Assignable(b.Out()) && a.Variadic() == b.Variadic()
	nd.Assert(a.Assignable(b) == want, "a function type accepts another when the parameters and the results accept those of the other")
	nd.Assert(!a.Assignable(b) || a.Out().Len() == b.Out().Len(), "a function type accepts one with as many results")
}

// C18_Lines: Bounds: text with up to two line breaks and up to two spaces before and after one of five types or none, followed by what isn't accepted, with and without a file name: the
// error tells the file name, the line (unless it is the first of no file) and the column where it ends.
func C18_Lines() {
	text := ""
	line, col := 1, 0
	white := func() {
		for i := nd.Choice(3); i > 0; i-- {
			text += "\n"
			line++
			col = 0
		}
		sp := nd.Choice(3)
		text += "  "[:sp]
		col += sp
	}
	add := func(s string) { text += s; col += len(s) }
	white()
	bad := ")"
	add([]string{"", "[]", "int", "\"a\"", "3..4"}[nd.Choice(5)])
	white()
	text += bad
	col++
	file := []string{"", "f.dgo"}[nd.Choice(2)]
	s := failure(func() { parser.ParseFile(nil, file, text) })
	nd.Reach("lines")
	nd.Assert(s != "" && !crash(s), "what isn't accepted is refused")
	want := ": ("
	if file != "" {
		want += "file: f.dgo, "
	}
	if file != "" || line > 1 {
		want += "line: " + itoa(int64(line)) + ", "
	}
	want += "column: " + itoa(int64(col)) + ")"
	nd.Assert(strings.HasSuffix(s, want), "an error tells where it is")
}

// C37_Comments: Bounds: a line comment of up to three arbitrary ASCII characters other than a line break or NUL, before, in or after a value, ended by a line break or, at the end, by the
// text: the value is what it is without the comment.
func C37_Comments() {
	n := nd.Choice(4)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte()
		nd.Assume(nd.And(b[i] > 0, b[i] < 0x80))
		nd.Assume(b[i] != '\n')
	}
	c := "#" + string(b)
	var text string
	want := vf.Value(1)
	switch nd.Choice(4) {
	case 0:
		text = c + "\n1"
	case 1:
		text = "1" + c + "\n"
	case 2:
		text = "1" + c
	default:
		text = "[1,2" + c + "\n,3]"
		want = vf.Values(1, 2, 3)
	}
	var v dgo.Value
	s := failure(func() { v = pc(text) })
	nd.Reach("comment")
	nd.Assert(s == "" && v.Equals(want), c37Value+"comments make no difference")
}

// C37_Colons: Bounds: words of up to three segments out of four with one to three colons between them, and none to two after them, alone or before white space, a comma or a bracket:
// accepted exactly when two colons are between segments, none after them, and all segments start in upper case, or none of them does.
func C37_Colons() {
	segs := []string{"ab", "Ab", "_a", "a1"}
	n := nd.Choice(3) + 1
	text := ""
	ok := true
	upper := false
	for i := 0; i < n; i++ {
		k := nd.Choice(4)
		if i == 0 {
			upper = k == 1
			ok = k != 2 // a word starts with a letter
		} else {
			c := nd.Choice(3) + 1
			text += ":::"[:c]
			ok = ok && c == 2
		}
		ok = ok && (k == 1) == upper
		text += segs[k]
	}
	nd.Assume(!upper)
	c := nd.Choice(3)
	word := text
	text += "::"[:c]
	ok = ok && c == 0
	want := vf.Value(word)
	switch nd.Choice(3) {
	case 0:
	case 1:
		text += " "
	default:
		text = "[" + text + "]"
		want = vf.Values(word)
	}
	var v dgo.Value
	s := failure(func() { v = pc(text) })
	nd.Reach("colons")
	nd.Assert((s == "") == ok && !crash(s), c37Err+"the colons of a word")
	nd.Assert(!ok || v.Equals(want), c37Value+"a word with colons")
}

// C21_Formats: Bounds: ten values of each kind that has a Go value, nine formats: the string made of a value and a format of one verb is what Go formats, other formats are refused.
func C21_Formats() {
	gs := []interface{}{
		int64(12), -1.5, true, "a b", []byte{1, 2}, nil, []interface{}{"a", int64(1)}, map[string]int{"a": 1}, []int{1, 2}, [][]string{{"a"}, {}},
	}
	ws := []interface{}{
		int64(12), -1.5, true, "a b", []byte{1, 2}, nil, []interface{}{"a", int64(1)}, map[string]int64{"a": 1}, []interface{}{int64(1), int64(2)},
		[]interface{}{[]interface{}{"a"}, []interface{}{}},
	}
	k := nd.Choice(10)
	i := nd.Choice(9)
	f := []string{"%v", "%s", "%d", "%8v", "%-3x", "%+v", "<%v>", "%%", "%8v|"}[i]
	var s dgo.Value
	r := failure(func() { s = vf.New(typ.String, vf.Arguments(gs[k], f)) })
	nd.Reach("format")
	nd.Assert((r == "") == (i < 6) && !crash(r), "a value is formatted with one verb")
	nd.Assert(r != "" || s.Equals(fmt.Sprintf(f, ws[k])), "a string made with a format is what Go formats")
}

// C10_Patterns: Bounds: ten string types of each kind, among them patterns that the empty string, all strings, or strings of one length match, and 12 strings: a type has every string of
// the types assignable to it.
func C10_Patterns() {
	mk := func() dgo.Type {
		ps := []string{"", "^a*$", "^.$", "^.{2,3}$", "a", "^(a|)$", "(?i)^AB$"}
		k := nd.Choice(len(ps) + 8)
		if k < len(ps) {
			return tf.Pattern(regexp.MustCompile(ps[k]))
		}
		switch k - len(ps) {
		case 0:
			return typ.String
		case 1:
			return tf.String(0, 1)
		case 2:
			return tf.String(2, 3)
		case 3:
			return tf.String(1)
		case 4:
			return tf.CiString("ab")
		case 5:
			return vf.String("").Type()
		case 6:
			return vf.String("ab").Type()
		default:
			return typ.DgoString
		}
	}
	a, b := mk(), mk()
	asg := a.Assignable(b)
	nd.Reach("patterns")
	for _, s := range []string{"", "a", "b", "A", "aa", "ab", "AB", "aB", "\n", "aaa", "int", "bb"} {
		nd.Assert(!asg || !b.Instance(s) || a.Instance(s), "a type has every string of the types assignable to it")
		nd.Assert(!a.Assignable(vf.String(s).Type()) || a.Instance(s), "a type has every string whose type is assignable to it")
	}
}
