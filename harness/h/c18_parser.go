package h

import (
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// failure returns the text of the error that f panics with, or "" if it doesn't panic.
func failure(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case nd.Violation, nd.AssumptionFailed, nd.Diverged:
				panic(r)
			case error:
				s = r.Error()
			case string:
				s = r
			default:
				s = "other"
			}
			if s == "" {
				s = "empty"
			}
		}
	}()
	f()
	return
}

// crash tells if s is the text of an error that the Go runtime raised.
func crash(s string) bool {
	return strings.HasPrefix(s, "runtime error") || strings.HasPrefix(s, "interface conversion") || strings.HasPrefix(s, "reflect") || s == "other" || s == "empty"
}

// parsed asserts that the text is refused by an error or parses to a type whose string form parses to an equal type.
// It returns true when the text is accepted.
func parsed(text, what string) bool {
	var t dgo.Type
	f := failure(func() { t = tf.ParseType(text) })
	nd.Assert(!crash(f), "text is parsed or refused by an error that describes it: "+what)
	if f != "" {
		return false
	}
	nd.Assert(t != nil, "text that is accepted denotes a type: "+what)
	s := t.String()
	if s == "{}" || strings.IndexByte(s, '/') >= 0 || strings.IndexByte(text, '=') >= 0 {
		// known findings of C17, and aliases
		return true
	}
	var r dgo.Type
	nd.Assert(failure(func() { r = tf.ParseType(s) }) == "", "the string form of a parsed type can be parsed: "+what)
	nd.Assert(r.Equals(t), "the string form of a parsed type parses to an equal type: "+what)
	return true
}

// anyText is an arbitrary text of n bytes. Bytes of the multi byte characters are represented by a few.
func anyText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = textByte()
	}
	return string(b)
}

func textByte() byte {
	c := nd.Byte()
	nd.Assume(nd.Or(c < 0x80, nd.Or(c == 0xc3, nd.Or(c == 0xa4, c == 0xff))))
	return c
}

// C18_Short: every text of up to 2 bytes (below 0x80, or one of c3, a4 and ff).
func C18_Short() {
	parsed(anyText(nd.Choice(3)), "short")
	nd.Reach("short")
}

// C18T_Short: every text of 3 bytes (below 0x80, or one of c3, a4 and ff).
func C18T_Short() {
	parsed(anyText(3), "short")
	nd.Reach("short")
}

// C18_Framed: every text of up to 1 arbitrary byte (2 in the thorough tier) between brackets, braces, parentheses and
// quotes, in a range, after a keyword with brackets, and in a function or map.
func C18_Framed() {
	f := [][2]string{{"[", "]int"}, {"{", "}"}, {"{a:", "}"}, {"{", ":int}"}, {"(", ")"}, {"\"", "\""}, {"`", "`"}, {"map[", "]int"}, {"map[string,", "]int"},
		{"string[", "]"}, {"binary[", "]"}, {"sensitive[", "]"}, {"type[", "]"}, {"func(", ") int"}, {"func(int)", ""}, {"3..", ""}, {"", "..3"}, {"1.", ""}, {"0x", ""},
		{"-", ""}, {"!", ""}, {"~", ""}, {"int|", ""}, {"x=", ""}, {"\"\\", "\""}, {"\"\\x", "\""}, {"\"\\u00", "4\""}, {"1e", "2"}, {"{...", "}"}, {"int", "..."}, {"'", "'"}}
	k := f[nd.Choice(len(f))]
	n := 1
	if nd.Thorough() {
		n = 2
	}
	parsed(k[0]+anyText(nd.Choice(n+1))+k[1], "framed")
	nd.Reach("framed")
}

var validTexts = []string{
	"map[string,1,3]int", "[1,3]?int", "{a?:int,\"b\":[]string,...}", "{int,...string}", "(int|string)&!3", "func(int,...string) (int,bool)", "string[1,3]^\"a\"",
	"2..4", "2.5...3", "-7", "0x1f", "~\"a\\n\"", "`a`", "type[type[int]]", "sensitive[int]", "{1:nil,true?:any}", "binary[2]", "1.5e3", "..7",
}

// C18_Edited: valid texts of every construct with any one byte replaced by, or preceded by, an arbitrary one (below 0x80),
// with one byte removed, or cut at any place.
func C18_Edited() {
	t := validTexts[nd.Choice(len(validTexts))]
	i := nd.Choice(len(t))
	switch nd.Choice(4) {
	case 0:
		parsed(t[:i]+ascii(1)+t[i+1:], "replaced")
	case 1:
		parsed(t[:i]+ascii(1)+t[i:], "inserted")
	case 2:
		parsed(t[:i]+t[i+1:], "removed")
	default:
		parsed(t[:i], "cut")
	}
	nd.Reach("edited")
}

// C18_Whole: a text is only accepted when all of it is part of the expression: a complete bracketed expression that is
// followed by an optional space and an arbitrary byte is accepted exactly when that byte is white space; and an
// arbitrary byte before it must be white space, ! or a byte that begins a longer construct.
func C18_Whole() {
	t := []string{"[]int", "map[string]int", "{a:int}", "(int)", "string[3]", "func(int) int", "\"a\"", "`a`", "type[int]", "nil", "3", "2.5", "3..4", "/a/"}[nd.Choice(14)]
	sp := ""
	c := nd.Byte()
	nd.Assume(c < 0x80)
	last := t[len(t)-1]
	if nd.Choice(2) == 0 {
		sp = " "
	} else if last != ']' && last != '}' && last != ')' && last != '"' && last != '`' && last != '/' {
		// the byte may continue the last word, number or range
		nd.Assume(nd.Or(c == 0, nd.Or(c == ' ', nd.Or(c == '#', nd.Or(c == ')', nd.Or(c == '"', nd.Or(c == '~', c == '!')))))))
	}
	acc := parsed(t+sp+string([]byte{c}), "trailing byte")
	white := nd.Or(c == ' ', nd.Or(c == '\t', c == '\n'))
	nd.Assert(nd.Or(nd.And(acc, white), nd.And(!acc, !white)), "text is accepted only if all of it is part of the expression")
	nd.Reach("whole")
}

// C18_White: white space between the tokens of an expression makes no difference.
func C18_White() {
	ts := [][]string{{"map", "[", "string", ",", "1", ",", "3", "]", "int"}, {"{", "a", "?", ":", "int", ",", "\"b\"", ":", "[", "]", "string", ",", "...", "}"},
		{"(", "int", "|", "string", ")", "&", "!", "3"}, {"func", "(", "int", ",", "...", "string", ")", "(", "int", ",", "bool", ")"}, {"2", "..", "4"}, {"type", "[", "int", "]"}}[nd.Choice(6)]
	i := nd.Choice(len(ts) + 1)
	c := nd.Byte()
	nd.Assume(nd.Or(c == ' ', nd.Or(c == '\t', c == '\n')))
	plain := tf.ParseType(strings.Join(ts, ""))
	spaced := tf.ParseType(strings.Join(ts[:i], "") + string([]byte{c}) + strings.Join(ts[i:], ""))
	nd.Assert(plain.Equals(spaced), "white space between tokens makes no difference")
	nd.Reach("white")
}

// C18_Aliases: a text with an alias declaration that is refused, because of an arbitrary byte after it, declares nothing; a text that is accepted declares the alias.
func C18_Aliases() {
	c := nd.Byte()
	nd.Assume(c < 0x80)
	t := []string{"verifa=int", "{verifa=int", "verifa={a:int,b:verifa}", "[]verifa=int"}[nd.Choice(4)] + " " + string([]byte{c})
	var v dgo.Value
	m := tf.BuiltInAliases()
	f := failure(func() {
		tf.AddAliases(&m, &sync.Mutex{}, func(a dgo.AliasAdder) { v = tf.ParseFile(a, "", t) })
	})
	nd.Assert(!crash(f), "text is parsed or refused by an error that describes it: alias")
	n := m.GetType(vf.String("verifa"))
	nd.Assert((n != nil) == (f == ""), "aliases are declared exactly when the whole text is accepted")
	if f == "" {
		nd.Assert(v != nil, "text that is accepted denotes a value")
	}
	nd.Reach("aliases")
}

// C18T_Edited: valid texts of every construct with any two adjacent bytes replaced by arbitrary ones (below 0x80).
func C18T_Edited() {
	t := validTexts[nd.Choice(len(validTexts))]
	i := nd.Choice(len(t) - 1)
	parsed(t[:i]+ascii(2)+t[i+2:], "two replaced")
	nd.Reach("edited")
}
