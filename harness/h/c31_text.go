package h

import (
	"errors"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// noTrailing removes blanks at the end of every line.
func noTrailing(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		ls[i] = strings.TrimRight(l, " \t")
	}
	return strings.Join(ls, "\n")
}

// C31_Indenter: Bounds: histories of 2 (thorough: 3) operations on indenters of level 0 to 2
// (thorough: 1) that share a buffer, with and without indentation, plain and protected from recursion: Append,
// AppendRune, AppendIndented, AppendValue, AppendInt, AppendBool, NewLine, Printf, Write,
// WriteString and Reset with 6 (thorough: 3) texts, 3 runes, 3 integers; after each the text, asked for twice,
// is all that was appended without the blanks at the end of lines.
func C31_Indenter() {
	mode := nd.Choice(4)
	indent := []string{"", " ", "\t ", "--"}[mode]
	is := make([]dgo.Indenter, 3)
	if mode < 2 {
		is[0] = util.NewIndenter(indent)
	} else {
		is[0] = util.NewERPIndenter(indent)
	}
	is[1] = is[0].Indent()
	is[2] = is[1].Indent()
	raw := ""
	line := func(level int) {
		if indent != "" {
			raw += "\n" + strings.Repeat(indent, level)
		}
	}
	texts := []string{"x \n", "\n \ny", "\xff ", "", "a", "é\t"}
	steps, levels := 2, 3
	if nd.Thorough() {
		texts = texts[:3]
		steps, levels = 3, 2
	}
	for ; steps > 0; steps-- {
		l := nd.Choice(levels)
		i := is[l]
		switch op := nd.Choice(11); op {
		case 0, 1, 2, 3:
			s := texts[nd.Choice(len(texts))]
			switch op {
			case 0:
				i.Append(s)
			case 1:
				n, err := i.WriteString(s)
				nd.Assert(n == len(s) && err == nil, "the number of bytes of a string")
			case 2:
				n, err := i.Write([]byte(s))
				nd.Assert(n == len(s) && err == nil, "the number of bytes")
			default:
				i.AppendValue(vf.String(s))
				s = strconv.Quote(s)
			}
			raw += s
		case 4:
			r := []rune{'\n', 'é', ' '}[nd.Choice(3)]
			i.AppendRune(r)
			raw += string(r)
		case 5:
			s := texts[nd.Choice(len(texts))]
			i.AppendIndented(s)
			for k, p := range strings.Split(s, "\n") {
				if k > 0 {
					line(l)
				}
				raw += p
			}
		case 6:
			n := []int{0, -7, 12}[nd.Choice(3)]
			i.AppendInt(n)
			raw += strconv.Itoa(n)
		case 7:
			b := nd.Choice(2) == 0
			i.AppendBool(b)
			raw += strconv.FormatBool(b)
		case 8:
			i.NewLine()
			line(l)
		case 9:
			i.Printf("%d%s|", 3, "x")
			raw += "3x|"
		default:
			i.Reset()
			raw = ""
		}
		want := noTrailing(raw)
		for l, i := range is {
			nd.Assert(i.Len() == len(raw), "the number of bytes appended")
			nd.Assert(i.Level() == l && i.Indenting() == (indent != ""), "the level of an indenter")
			nd.Assert(i.String() == want, "the text of an indenter")
			nd.Assert(i.String() == want, "the text of an indenter when asked for again")
		}
	}
}

// C31_Reader: Bounds: texts of up to 3 (thorough: 4) characters, each an arbitrary byte below
// 0x80, a character of 2, 3 or 4 bytes, the replacement character or a byte that is no UTF-8, read to
// and beyond the end and again after a Rewind at any place.
func C31_Reader() {
	max := 4
	if nd.Thorough() {
		max = 5
	}
	s := ""
	for n := nd.Choice(max); n > 0; n-- {
		k := nd.Choice(6)
		if k == 0 {
			s += ascii(1)
		} else {
			s += []string{"é", "€", "😀", "\uFFFD", "\xff"}[k-1]
		}
	}
	rd := util.NewStringReader(s)
	back := nd.Choice(max + 1)
	for round := 0; round < 2; round++ {
		p, line, col := 0, 1, 1
		for k := 0; ; k++ {
			nd.Assert(rd.Pos() == p && rd.Line() == line && rd.Column() == col, "the position of a reader")
			if round == 0 && k == back {
				break
			}
			at := func(p int) (rune, int) {
				if p >= len(s) {
					return 0, 0
				}
				return utf8.DecodeRuneInString(s[p:])
			}
			c, n := at(p)
			bad := c == utf8.RuneError && n == 1
			nd.Assert(rd.AtEnd() == (p > len(s)), "the end of a reader")
			var c1, c2, c0 rune
			nd.Assert(failure(func() { c1 = rd.Peek() }) == map[bool]string{true: "unicode error"}[bad], "Peek refuses what is not UTF-8")
			d, m := at(p + n)
			bad2 := bad || d == utf8.RuneError && m == 1
			nd.Assert(failure(func() { c2 = rd.Peek2() }) == map[bool]string{true: "unicode error"}[bad2], "Peek2 refuses what is not UTF-8")
			nd.Assert(bad || c1 == c, "the next character")
			nd.Assert(bad2 || c2 == d, "the second next character")
			nd.Assert(rd.Pos() == p, "Peek does not move")
			nd.Assert(failure(func() { c0 = rd.Next() }) == map[bool]string{true: "unicode error"}[bad], "Next refuses what is not UTF-8")
			if bad {
				break
			}
			nd.Assert(c0 == c, "the character read")
			switch {
			case p == len(s):
				p++
				col++
			case p > len(s):
			case c == '\n':
				p++
				line++
				col = 1
			default:
				p += n
				col++
			}
			if k > max+1 {
				break
			}
		}
		rd.Rewind()
	}
}

// printed is the reference of the string form of arrays and maps.
func printed(v dgo.Value, level int, indent bool, outer []dgo.Value) string {
	for _, o := range outer {
		if o == v {
			return "<recursive self reference to " + v.Type().TypeIdentifier().String() + ">"
		}
	}
	nl := func(n int) string {
		if indent {
			return "\n" + strings.Repeat("  ", n)
		}
		return ""
	}
	in := append(append([]dgo.Value{}, outer...), v)
	var ps []string
	switch v := v.(type) {
	case dgo.Array:
		v.Each(func(e dgo.Value) { ps = append(ps, nl(level+1)+printed(e, level+1, indent, in)) })
	case dgo.Map:
		sp := ":"
		if indent {
			sp = ": "
		}
		v.EachEntry(func(e dgo.MapEntry) {
			ps = append(ps, nl(level+1)+printed(e.Key(), level+1, indent, in)+sp+printed(e.Value(), level+1, indent, in))
		})
	case dgo.String:
		return strconv.Quote(v.GoString())
	default:
		return v.String()
	}
	return "{" + strings.Join(ps, ",") + nl(level) + "}"
}

// C31_Values: Bounds: arrays and maps of up to 2 levels, each with up to 2 elements out of an
// integer, a string with a line end and blanks, another array or map, the same array or map
// again, or (recursion protected) the one that contains it: the string form with and without
// indentation, protected from recursion or not.
func C31_Values() {
	cyclic := nd.Choice(2) == 0
	inner := vf.MutableValues()
	for n := nd.Choice(3); n > 0; n-- {
		switch nd.Choice(3) {
		case 0:
			inner.Add(vf.String("a \n"))
		case 1:
			inner.Add(pickInt())
		default:
			inner.Add(vf.Map("k", 1))
		}
	}
	var v dgo.Value
	if nd.Choice(2) == 0 {
		a := vf.MutableValues()
		for n := nd.Choice(3); n > 0; n-- {
			switch nd.Choice(4) {
			case 0:
				a.Add(7)
			case 1:
				a.Add(inner)
			case 2:
				a.Add(vf.MutableMap("x", inner, "y", inner))
			default:
				if cyclic {
					a.Add(a)
				}
			}
		}
		if cyclic {
			inner.Add(a)
		}
		v = a
	} else {
		m := vf.MutableMap()
		for n := nd.Choice(3); n > 0; n-- {
			k := string(rune('a' + n))
			switch nd.Choice(4) {
			case 0:
				m.Put(k, 7)
			case 1:
				m.Put(k, inner)
			case 2:
				m.Put(k, vf.MutableValues(inner, inner))
			default:
				if cyclic {
					m.Put(k, m)
				}
			}
		}
		if cyclic {
			inner.Add(m)
		}
		v = m
	}
	flat := printed(v, 0, false, nil)
	tall := printed(v, 0, true, nil)
	nd.Assert(v.String() == flat, "the string form of a collection")
	nd.Assert(util.ToStringERP(v.(dgo.Indentable)) == flat, "the protected string form")
	nd.Assert(util.ToIndentedStringERP(v.(dgo.Indentable)) == tall, "the protected indented string form")
	if !cyclic {
		nd.Assert(util.ToString(v.(dgo.Indentable)) == flat, "the unprotected string form")
		nd.Assert(util.ToIndentedString(v.(dgo.Indentable)) == tall, "the indented string form")
	}
	i := util.NewERPIndenter("  ")
	i.AppendValue(v)
	i.Append("|")
	i.AppendValue(v)
	nd.Assert(i.String() == tall+"|"+tall, "a value that is appended twice")
}

type failWriter struct{ n int }

func (f *failWriter) Write(b []byte) (int, error) {
	if f.n--; f.n < 0 {
		return 0, errors.New("full")
	}
	return len(b), nil
}

// C31_Helpers: Bounds: Catch of a function that does nothing or panics with an error, a string or
// something else; ContainsString and RecursionHit over up to 3 arbitrary strings of one byte;
// SliceCopy of up to 2 values; Ftoa of 9 floats; writing to a writer that is full at once or after
// the first write.
func C31_Helpers() {
	switch nd.Choice(5) {
	case 0:
		e := errors.New("x")
		nd.Assert(util.Catch(func() {}) == nil, "nothing to catch")
		nd.Assert(util.Catch(func() { panic(e) }) == e, "the error that is caught")
		err := util.Catch(func() { panic("y") })
		nd.Assert(err != nil && err.Error() == "y", "the string that is caught")
		var r interface{}
		func() {
			defer func() { r = recover() }()
			err = util.Catch(func() { panic(7) })
		}()
		nd.Assert(r == 7, "what is not caught")
	case 1:
		var ss []string
		var vs []dgo.Value
		x := ascii(1)
		found := false
		for n := nd.Choice(4); n > 0; n-- {
			s := ascii(1)
			found = nd.Or(found, s == x)
			ss = append(ss, s)
			vs = append(vs, vf.String(s))
		}
		nd.Assert(util.ContainsString(ss, x) == found, "a string in a slice")
		nd.Assert(!util.RecursionHit(vs, vf.MutableValues()), "a value that isn't in the slice")
		for _, v := range vs {
			nd.Assert(util.RecursionHit(vs, v), "a value in a slice")
		}
		a, b := vf.MutableValues(1), vf.MutableValues(1)
		nd.Assert(util.RecursionHit([]dgo.Value{a}, a) && !util.RecursionHit([]dgo.Value{a}, b), "the very same value")
	case 2:
		var vs []dgo.Value
		for n := nd.Choice(3); n > 0; n-- {
			vs = append(vs, small())
		}
		c := util.SliceCopy(vs)
		nd.Assert(len(c) == len(vs), "the length of a copy")
		for i := range vs {
			nd.Assert(c[i] == vs[i], "an element of a copy")
			c[i] = vf.String("changed")
			nd.Assert(vs[i] != c[i], "a copy is independent")
		}
	case 3:
		f := []float64{0, 1, -1, 1.5, 1e300, 1e-300, 123456789, 1e20, 1e21}[nd.Choice(9)]
		s := util.Ftoa(f)
		g, err := strconv.ParseFloat(s, 64)
		nd.Assert(err == nil && g == f && strings.ContainsAny(s, ".E"), "the text of a float")
	default:
		n := nd.Choice(2)
		w := &failWriter{n: n}
		var ops []func()
		ops = append(ops,
			func() { util.WriteString(w, "a") }, func() { util.WriteByte(w, 'a') }, func() { util.WriteRune(w, 'a') },
			func() { util.WriteRune(w, 'é') }, func() { util.Fprintf(w, "%d", 1) }, func() { util.Fprintln(w, "x") })
		op := ops[nd.Choice(len(ops))]
		for ; n > 0; n-- {
			nd.Assert(failure(op) == "", "a write")
		}
		nd.Assert(failure(op) == "full", "a write that fails")
		b := &strings.Builder{}
		nd.Assert(util.WriteString(b, "é") == 2 && util.WriteRune(b, 'é') == 2 && util.WriteRune(b, 'a') == 1 && util.Fprintf(b, "%d", 12) == 2 && util.Fprintln(b, "x") == 2, "the number of bytes written")
		util.WriteByte(b, '!')
		nd.Assert(b.String() == "ééa12x\n!", "what was written")
	}
}
