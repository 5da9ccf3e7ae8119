package h

import (
	"encoding/json"
	"math"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

func jsonRoundTrip(v dgo.Value, d streamer.Dialect, what string) {
	b := streamer.MarshalJSON(v, d)
	nd.Assert(json.Valid(b), "what a value is encoded to is JSON: "+what)
	r := streamer.UnmarshalJSON(b, d)
	sameStream(v, r, what)
	nd.Assert(string(streamer.MarshalJSON(r, d)) == string(b), "a decoded value is encoded to the same JSON: "+what)
}

const nJSONLeaf = 10

// jsonLeaf is a value of every kind without elements.
func jsonLeaf(k int, pc bool) dgo.Value {
	switch k {
	case 0:
		return vf.Integer(pickInt())
	case 1:
		return vf.Float([]float64{0, math.Copysign(0, -1), 3, -2.5, 1e-7, 1e21, 123456789012, math.MaxFloat64, math.SmallestNonzeroFloat64}[nd.Choice(9)])
	case 2:
		return vf.String("abcdefghijklmnopqrstu\"\\")
	case 3:
		return vf.String("<ä\u2028\x01>")
	default:
		if k == 9 && pc {
			k = 11
		}
		return streamLeaf([]int{3, 4, 6, 7, 8, 9, 10, 11}[map[bool]int{false: k - 4, true: 7}[k == 11]])
	}
}

func dialect() (streamer.Dialect, bool) {
	if nd.Choice(2) == 0 {
		return nil, false
	}
	return pcore.Dialect(), true
}

// C22_Leaf: values of every kind without elements (boundary integers and floats, strings with escapes, symbolic booleans, bytes and letters), at the top, twice in an array, and as values and keys of maps, in both dialects (types in one).
func C22_Leaf() {
	d, pc := dialect()
	k := nd.Choice(nJSONLeaf)
	nd.Assume(!pc || k != 8)
	a := jsonLeaf(k, pc)
	var v dgo.Value
	switch nd.Choice(4) {
	case 0:
		v = a
	case 1:
		v = vf.Values(a, a)
	case 2:
		v = vf.Map("k", a, "l", a)
	default:
		v = vf.Map(a, 1, "k", a)
	}
	jsonRoundTrip(v, d, "leaf")
	nd.Reach("leaf")
}

// C22_Nested: every construct with the same (or equal but distinct) construct in both places that contains a value of every kind, in both dialects.
func C22_Nested() {
	d, pc := dialect()
	k := nd.Choice(7) + 2
	nd.Assume(!pc || k != 8)
	k1, k2 := nd.Choice(nStreamNode), nd.Choice(nStreamNode)
	a := jsonLeaf(k, pc)
	b := streamNode(k1, a, vf.String("abcdefghijklmnopqrstuv"))
	c := b
	if nd.Choice(2) == 0 {
		c = streamNode(k1, a, vf.String("abcdefghijklmnopqrstuv"))
	}
	jsonRoundTrip(streamNode(k2, b, c), d, "nested")
	nd.Reach("nested")
}

// C22_String: strings with up to 2 arbitrary bytes (below 0x80) as values and keys.
func C22_String() {
	s := asciiUpTo(2)
	v := vf.Map(s, 1)
	if nd.Choice(2) == 0 {
		v = vf.Map("k", s)
	}
	jsonRoundTrip(v, nil, "string")
	nd.Reach("string")
}

// C22_Integer: integers with 1 to 3 arbitrary digits, and the ends of the range with an arbitrary last digit, decode to the integer; fractions and exponents with an arbitrary digit to a float.
func C22_Integer() {
	dig := func() string {
		b := nd.Byte()
		nd.Assume(nd.And(b >= '0', b <= '9'))
		return string([]byte{b})
	}
	a := dig()
	switch nd.Choice(4) {
	case 0:
		nd.Assume(a != "0")
		b := dig()
		v := streamer.UnmarshalJSON([]byte("-"+a+b), nil)
		nd.Assert(v.Equals(vf.Integer(-int64((a[0]-'0'))*10-int64(b[0]-'0'))), "a number without fraction is the integer")
	case 1:
		v := streamer.UnmarshalJSON([]byte("[922337203685477580"+a+"]"), nil).(dgo.Array).Get(0)
		if a <= "7" {
			nd.Assert(v.Equals(vf.Integer(math.MaxInt64-int64('7'-a[0]))), "a number without fraction is the integer, if an integer can hold it")
		} else {
			_, ok := v.(dgo.Float)
			nd.Assert(ok, "a number that an integer can't hold is a float")
		}
	case 2:
		v := streamer.UnmarshalJSON([]byte(a+".5"), nil)
		f, ok := v.(dgo.Float)
		nd.Assert(ok && f.GoFloat() == float64(a[0]-'0')+0.5, "a number with fraction is the float")
	default:
		v := streamer.UnmarshalJSON([]byte(a+"e2"), nil)
		f, ok := v.(dgo.Float)
		nd.Assert(ok && f.GoFloat() == float64(a[0]-'0')*100, "a number with exponent is the float")
	}
	nd.Reach("integer")
}

// C22_Data: the JSON of plain data is what encoding/json makes of the corresponding Go values.
func C22_Data() {
	s := asciiUpTo(1)
	b := nd.Bool()
	i := pickInt()
	f := []float64{-2.5, 1e-7, 1e21, 12.25}[nd.Choice(4)]
	g := []interface{}{s, b, i, f, nil, []interface{}{}, map[string]interface{}{}, []interface{}{map[string]interface{}{"k" + s: b}, i}}
	if nd.Choice(2) == 0 {
		g = []interface{}{map[string]interface{}{"k": g}}
	}
	want, err := json.Marshal(g)
	nd.Assert(err == nil && string(streamer.MarshalJSON(g, nil)) == string(want), "data is encoded as the Go values it was made from are")
	nd.Reach("data")
}

// C22_Text: every text of up to 2 (thorough 3) arbitrary bytes below 0x80, and every such byte inserted into, or replacing a byte of, a JSON text of every construct: what isn't JSON is refused.
func C22_Text() {
	var t string
	if nd.Choice(2) == 0 {
		n := 2
		if nd.Thorough() {
			n = 3
		}
		t = asciiUpTo(n)
	} else {
		t = []string{`{"a":[1,true,null]}`, `["\u00e4\n",-1.5e3]`, `{"__ref":0}`, `[[],{"__ref":1}]`, `{"__type":"int"}`}[nd.Choice(5)]
		i := nd.Choice(len(t) + 1)
		if nd.Choice(2) == 0 || i == len(t) {
			t = t[:i] + ascii(1) + t[i:]
		} else {
			t = t[:i] + ascii(1) + t[i+1:]
		}
	}
	valid := json.Valid([]byte(t))
	var v dgo.Value
	f := failure(func() { v = streamer.UnmarshalJSON([]byte(t), nil) })
	nd.Assert(valid || f != "", "text that isn't JSON is refused")
	nd.Assert(!crash(f), "text is decoded or refused by an error that describes it")
	nd.Assert(!valid || f == "" || hasRef(t), "JSON is decoded")
	nd.Assert(f != "" || v != nil, "JSON is decoded to a value")
	if f == "" && !hasRef(t) {
		jsonRoundTrip(v, nil, "text")
	}
	nd.Reach("text")
}

// hasRef tells if a template that had dialect keys was used.
func hasRef(t string) bool {
	for i := 0; i+2 <= len(t); i++ {
		if t[i] == '_' {
			return true
		}
	}
	return false
}

// C22_Refs: arrays with a complete array before a reference with an arbitrary digit: the reference denotes the value with that number, in the order they appear, or is refused.
func C22_Refs() {
	b := nd.Byte()
	nd.Assume(nd.And(b >= '0', b <= '9'))
	t := `[["x",true],{"k":[7]},{"__ref":` + string([]byte{b}) + `}]`
	var v dgo.Value
	f := failure(func() { v = streamer.UnmarshalJSON([]byte(t), nil) })
	nd.Assert(!crash(f), "text is decoded or refused by an error that describes it")
	if b == '0' {
		nd.Assert(f == "" && v.(dgo.Array).Get(2) == v, "a reference denotes the value with that number")
		return
	}
	if f != "" {
		nd.Assert(b > '7', "a reference to an existing value is accepted")
		return
	}
	nd.Assert(b <= '7', "a reference to an unknown value is refused")
	all := vf.Values(vf.Values("x", true), "x", true, vf.Map("k", vf.Values(7)), "k", vf.Values(7), 7)
	nd.Assert(v.(dgo.Array).Get(2).Equals(all.Get(int(b-'1'))), "a reference denotes the value with that number")
	nd.Reach("refs")
}
