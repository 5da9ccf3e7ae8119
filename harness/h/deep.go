package h

import (
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// permutation is one of the orders of n things.
func permutation(n int) []int {
	r := make([]int, 0, n)
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	for len(left) > 0 {
		k := nd.Choice(len(left))
		r = append(r, left[k])
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
	}
	return r
}

// Bounds: maps of 0 to 4 entries that are added in any order, with keys of 3 kinds: equal, with equal hash codes.
func C02_MapOrder() {
	n := nd.Choice(5)
	kind := nd.Choice(3)
	mk := func(p []int) dgo.Map {
		m := vf.MutableMap()
		for _, i := range p {
			switch kind {
			case 0:
				m.Put(i, -i)
			case 1:
				m.Put(string([]byte{byte('a' + i)}), "x")
			default:
				m.Put([]interface{}{1, "b", true, 2.5}[i], i)
			}
		}
		return m
	}
	base := make([]int, n)
	for i := range base {
		base[i] = i
	}
	a, b := mk(base), mk(permutation(n))
	nd.Reach("order")
	nd.Assert(a.Equals(b) && b.Equals(a), "maps with the same associations are equal")
	nd.Assert(a.HashCode() == b.HashCode(), "equal values have equal hash codes")
	nd.Assert(a.Type().Equals(b.Type()), "equal maps have equal types")
	nd.Assert(a.Type().HashCode() == b.Type().HashCode(), "equal types have equal hash codes")
}

// Bounds: arrays of 0 to 4 elements, each one of two (strings, arbitrary floats or integers, arrays or maps), the same instance as an equal one or not.
func C02_Instances() {
	kind := nd.Choice(5)
	is, fs := []int64{nd.Int64(), nd.Int64()}, []float64{number(), number()}
	mk := func(i int) dgo.Value {
		switch kind {
		case 0:
			return vf.String([]string{"ab", "cd"}[i])
		case 1:
			return vf.Float(fs[i])
		case 2:
			return vf.Integer(is[i])
		case 3:
			return vf.Values(i)
		default:
			return vf.Map("a", i)
		}
	}
	shared := []dgo.Value{mk(0), mk(1)}
	n := nd.Choice(5)
	a, b := vf.MutableValues(), vf.MutableValues()
	for i := 0; i < n; i++ {
		k := nd.Choice(2)
		a.Add(shared[k])
		b.Add(mk(k))
	}
	nd.Reach("instances")
	nd.Assert(a.Equals(b) && b.Equals(a), "arrays with equal elements are equal")
	nd.Assert(a.HashCode() == b.HashCode(), "equal values have equal hash codes")
}

// Bounds: arrays of 0 to 4 elements out of 1, 1.0, 2, 2.0 and 0.5: sorting gives the same elements in order, and those that are neither greater nor less than each other keep their order.
func C07_SortNumbers() {
	pool := []dgo.Value{vf.Integer(1), vf.Float(1), vf.Integer(2), vf.Float(2), vf.Float(0.5)}
	rank := []int{1, 1, 2, 2, 0}
	n := nd.Choice(5)
	a := vf.MutableValues()
	var r [3][]dgo.Value
	for i := 0; i < n; i++ {
		k := nd.Choice(len(pool))
		a.Add(pool[k])
		r[rank[k]] = append(r[rank[k]], pool[k])
	}
	s := a.Sort()
	nd.Reach("sort")
	want := cat(cat(r[0], r[1]...), r[2]...)
	nd.Assert(s.Len() == len(want), "Sort keeps the elements")
	for i := range want {
		nd.Assert(s.Get(i).Equals(want[i]), "elements are in order, and those that compare equal keep their order")
	}
}

// Bounds: mutable maps of 0 to 4 associations that are merged with, or get all of, another of 0 to 4 arbitrary int64, some with the same keys: the receiver and the argument of Merge keep their content, and changing one of the three doesn't change another.
func C09_Merge() {
	mk := func(first, n int) dgo.Map {
		m := vf.MutableMap()
		for i := 0; i < n; i++ {
			m.Put(first+i, nd.Int64())
		}
		return m
	}
	first := nd.Choice(3) * 2
	a, b := mk(0, nd.Choice(5)), mk(first, nd.Choice(5))
	switch nd.Choice(4) {
	case 0:
		a.Freeze()
	case 1:
		b.Freeze()
	}
	p, q := picture(a), picture(b)
	d := a.Merge(b)
	nd.Reach("merge")
	nd.Assert(samePicture(p, picture(a)) && samePicture(q, picture(b)), "Merge changes neither the receiver nor the argument")
	nd.Assert(d.Frozen() == a.Frozen(), "what is derived is frozen exactly when the receiver is")
	a.EachEntry(func(e dgo.MapEntry) {
		w := b.Get(e.Key())
		if w == nil {
			w = e.Value()
		}
		nd.Assert(same(d.Get(e.Key()), w), "Merge has the associations of the receiver, or those of the argument where there are such")
	})
	n := a.Len()
	b.EachEntry(func(e dgo.MapEntry) {
		if !a.ContainsKey(e.Key()) {
			n++
		}
		nd.Assert(same(d.Get(e.Key()), e.Value()), "Merge has the associations of the argument")
	})
	nd.Assert(d.Len() == n, "Merge has no other associations")
	r := picture(d)
	switch nd.Choice(3) {
	case 0:
		if !a.Frozen() {
			touch(a)
			nd.Assert(samePicture(r, picture(d)) && samePicture(q, picture(b)), "changing the receiver changes neither the result nor the argument")
		}
	case 1:
		if !b.Frozen() {
			touch(b)
			nd.Assert(samePicture(r, picture(d)) && samePicture(p, picture(a)), "changing the argument changes neither the result nor the receiver")
		}
	default:
		if !d.Frozen() {
			touch(d)
			nd.Assert(samePicture(p, picture(a)) && samePicture(q, picture(b)), "changing the result changes neither the receiver nor the argument")
		}
	}
}

// c09S is a struct that is used as a map
type c09S struct{ A, B int }

// Bounds: empty maps, frozen or not, and maps with one association merged with a mutable or frozen struct map: changes on either side do not show on the other.
func C09_MergeStruct() {
	s := &c09S{1, 2}
	m := vf.Map(s)
	if nd.Choice(2) == 0 {
		m = m.Copy(true)
	}
	a := vf.MutableMap()
	if nd.Choice(2) == 0 {
		a.Put("C", 3)
	}
	if nd.Choice(2) == 0 {
		a.Freeze()
	}
	d := a.Merge(m)
	nd.Reach("merge")
	nd.Assert(d.Len() == a.Len()+2 && same(d.Get("A"), vf.Integer(1)) && same(d.Get("B"), vf.Integer(2)), "Merge has the associations of the argument")
	if a.Frozen() && a.Len() == 0 && !m.Frozen() {
		nd.Assert(d != m && d.Frozen(), "merging a mutable struct map into an empty frozen map gives a frozen map")
	}
	nd.Assert(d.Frozen() == a.Frozen(), "what is derived is frozen exactly when the receiver is")
	if nd.Choice(2) == 0 {
		s.A = 7
		if !m.Frozen() {
			m.Put("B", 8)
		}
		nd.Assert(same(d.Get("A"), vf.Integer(1)) && same(d.Get("B"), vf.Integer(2)), "changing the argument doesn't change the result")
	} else if !d.Frozen() {
		d.Put("A", 9)
		nd.Assert(s.A == 1 && same(m.Get("A"), vf.Integer(1)), "changing the result doesn't change the argument")
	}
}

// tFew is a type and the values that it has.
func tFew(k int) *ty {
	switch k {
	case 0:
		return tAny()
	case 1:
		return tString()
	case 2:
		return tStringIs("x")
	case 3:
		return tFloat()
	default:
		return &ty{k: "intrange", lo: 3, hi: 9, incl: true, t: tf.Integer(3, 9, true)}
	}
}

// Bounds: allOf, anyOf and oneOf of 0 to 5 types out of 5, and a string, an integer or a float.
func C14_Alternatives() {
	n := nd.Choice(6)
	ts := make([]*ty, n)
	for i := range ts {
		// the number of them that have the value is what counts
		ts[i] = tFew(nd.Choice(5))
		if i > 2 {
			nd.Assume(ts[i].k != "float")
		}
	}
	v := []dgo.Value{vf.String("x"), vf.Integer(5), vf.Float(1.5)}[nd.Choice(3)]
	has := 0
	ds := make([]interface{}, n)
	for i := range ts {
		ds[i] = ts[i].t
		if ts[i].has(v) {
			has++
		}
	}
	nd.Reach("has")
	nd.Assert(tf.OneOf(ds...).Instance(v) == (has == 1), "one of: exactly one has the value")
	nd.Assert(tf.AnyOf(ds...).Instance(v) == (has > 0), "any of: some have the value")
	nd.Assert(n == 0 || tf.AllOf(ds...).Instance(v) == (has == n), "all of: all have the value")
	nd.Assert(tf.OneOf(ds...).Assignable(v.Type()) == (has == 1), "one of: the exact type is assignable when exactly one has the value")
	nd.Assert(tf.AnyOf(ds...).Assignable(v.Type()) == (has > 0), "any of: the exact type is assignable when some have the value")
}

// Bounds: struct types of 0 to 4 keys of type string, any or an integer range, required or not, with and without additional keys, and maps over up to 4 of the keys and one unknown, with strings or an arbitrary integer.
func C16_Many() {
	n := nd.Choice(5)
	es := make([]dgo.StructMapEntry, n)
	keys := []string{"a", "b", "c", "d"}
	add := nd.Choice(2) == 0
	kind := nd.Choice(2)
	rng := &ty{k: "intrange", lo: 3, hi: 9, incl: true, t: tf.Integer(3, 9, true)}
	x := vf.Integer(5)
	sym := nd.Choice(2) == 0
	if sym {
		rng, x = tRange(), vf.Integer(nd.Int64())
	}
	in := rng.has(x)
	m := vf.MutableMap()
	want := true
	for i := 0; i < n; i++ {
		req := nd.Choice(2) == 0
		t := []dgo.Type{typ.String, rng.t}[(i+kind)&1]
		es[i] = tf.StructMapEntry(keys[i], t, req)
		switch nd.Choice(3) {
		case 0:
			want = want && !req
		case 1:
			m.Put(keys[i], []interface{}{"x", x}[(i+kind)&1])
			want = want && ((i+kind)&1 == 0 || in)
		default:
			m.Put(keys[i], []interface{}{"x", x}[(i+kind+1)&1])
			want = false
		}
	}
	if nd.Choice(2) == 0 {
		m.Put("e", 1)
		want = want && add
	}
	t := tf.StructMap(add, es...)
	nd.Reach("struct")
	nd.Assert(t.Instance(m) == want, "a map is an instance exactly when it belongs to the struct type")
	nd.Assert(t.Assignable(m.Type()) == want, "the exact type of a map is assignable exactly when the map belongs to the struct type")
	nd.Assert(sym || (len(t.(dgo.StructMapType).Validate(nil, m)) == 0) == want, "validation gives errors exactly when the map does not belong to the struct type")
}

// Bounds: arrays and strings after a map with keys of 5 kinds: what occurs twice after it is a reference the second time, and is shared by the decoded elements.
func C23_AfterKey() {
	long := vf.String("abcdefghijklmnopqrstuvwxyz")
	shared := []dgo.Value{vf.Values(long, 1), vf.Map("a", long), long, vf.Map(vf.Values(1), 2), vf.Binary([]byte{1, 2}, true)}[nd.Choice(5)]
	key := []dgo.Value{vf.String("k"), vf.Values(1, 2), vf.Map("k", 1), vf.Map(vf.Values(1), 2), vf.Values(vf.Map("k", 1)), vf.Sensitive("x")}[nd.Choice(6)]
	m := vf.Map(key, 1)
	if nd.Choice(2) == 0 {
		m = vf.Map(key, shared)
	}
	v := vf.Values(m, shared, 3, shared)
	l := []streamer.DedupLevel{streamer.NoKeyDedup, streamer.MaxDedup}[nd.Choice(2)]
	r := decoded(v, l, nd.Choice(2) == 0)
	nd.Reach("after")
	sameStream(v, r, "after a key")
	a := r.(dgo.Array)
	nd.Assert(a.Get(1) == a.Get(3), "elements are the same instance when they were")
	e := &events{threshold: 20, complexKeys: true}
	o := streamer.DefaultOptions()
	o.DedupLevel = l
	streamer.New(nil, o).Stream(v, e)
	nd.Assert(e.refs > 0 && !e.bad, "what occurs twice is a reference the second time")
}

// Bounds: strings of up to 2 of 3 pieces, two of which have equal hash codes, as elements and as keys of maps: equal ones are streamed once when they are at least as long as the threshold of the consumer, and what is decoded is equal.
func C23_DedupHash() {
	str := func() string {
		s := ""
		for n := nd.Choice(3); n > 0; n-- {
			s += []string{"Aa", "BB", "cc"}[nd.Choice(3)]
		}
		return s
	}
	s1, s2 := str(), str()
	v := vf.Values(s1, vf.Map("k", s2), s2)
	e := &events{threshold: nd.Choice(2) * 4}
	o := streamer.DefaultOptions()
	o.DedupLevel = dedupLevel()
	streamer.New(nil, o).Stream(v, e)
	refs := 0
	if o.DedupLevel != streamer.NoDedup {
		if len(s2) >= e.threshold {
			refs++
		}
		if s1 == s2 && len(s1) >= e.threshold {
			refs++
		}
	}
	nd.Reach("dedup")
	nd.Assert(e.refs == refs && len(e.strings) == 4-refs, "equal strings that are long enough are streamed once")
	a, b, c := vf.String("abcdefghijklmnopqrst"+s1), vf.String("abcdefghijklmnopqrst"+s2), vf.Values(s1, s2)
	w := vf.Values(a, b, c, vf.Map("k", b, "l", a), c)
	sameStream(w, decoded(w, o.DedupLevel, nd.Choice(2) == 0), "strings with equal hash codes")
}

// Bounds: sensitive types nested up to 3 deep over 4 types, and sensitive values nested up to 3 deep around an integer or a string: a value is an instance exactly when it is nested as deep and what it wraps is an instance.
func C24_Nested() {
	k := nd.Choice(6)
	t := []dgo.Type{typ.Any, typ.Integer, typ.String, tf.Integer(1, 3, true), typ.Sensitive, typ.Nil}[k]
	// the type of a sensitive value doesn't tell the value
	ranged := k == 3
	v := []dgo.Value{vf.Integer(2), vf.Integer(7), vf.String("x"), vf.Nil}[nd.Choice(4)]
	t0 := t
	x, has := v, func(v dgo.Value) bool { return t0.Instance(v) }
	for n := nd.Choice(4); n > 0; n-- {
		in := has
		t = tf.Sensitive(t)
		has = func(v dgo.Value) bool {
			s, ok := v.(dgo.Sensitive)
			return ok && in(s.Unwrap())
		}
	}
	for n := nd.Choice(4); n > 0; n-- {
		x = vf.Sensitive(x)
	}
	nd.Reach("nested")
	nd.Assert(t.Instance(x) == has(x), "a sensitive value is an instance exactly when what it wraps is an instance of what the type wraps")
	nd.Assert(ranged || t.Assignable(x.Type()) == has(x), "the type of a sensitive value is assignable exactly when the value is an instance")
	nd.Assert(x.Type().Instance(x) && (x == v || !v.Type().Instance(x)), "a sensitive value is an instance of its type and not of the type of what it wraps")
}

// Bounds: named types with 0 to 2 parameters out of 3, parameterized or not, of two names.
func C33_Parameters() {
	defer removeNamed()
	t, u := newVInt(nil), newVBox()
	mk := func() (dgo.Type, int, dgo.Array) {
		k := nd.Choice(2)
		n := nd.Choice(4)
		if n == 3 {
			return []dgo.Type{t, u}[k], k, nil
		}
		ps := vf.MutableValues()
		for i := 0; i < n; i++ {
			ps.Add([]interface{}{1, "a", vf.Values(1)}[nd.Choice(3)])
		}
		ps.Freeze()
		return tf.Parameterized([]dgo.NamedType{t, u}[k], ps), k, ps
	}
	a, ka, pa := mk()
	b, kb, pb := mk()
	eq := ka == kb && (pa == nil) == (pb == nil) && (pa == nil || pa.Equals(pb))
	nd.Reach("parameters")
	nd.Assert(a.Equals(b) == eq && b.Equals(a) == eq, c33Eq+"parameters")
	nd.Assert(!eq || a.HashCode() == b.HashCode(), c33Eq+"hash code with parameters")
	nd.Assert(typ.Generic(a).Equals(typ.Generic(b)) == (ka == kb), c33Eq+"generic")
	nd.Assert(a.Type().Equals(b.Type()) == eq, c33Eq+"meta type")
	nd.Assert(tf.Array(a).Equals(tf.Array(b)) == eq, c33Eq+"as element type")
}

type (
	c32s1 struct{ A bool }
	c32s2 struct {
		A int
		B bool
	}
	c32s3 struct {
		A int
		B string
		C bool
	}
	c32s4 struct {
		A string
		B bool
		c int
		D float64
		E []int
	}
	c32s0 struct{ a int }
)

// Bounds: structs with 0 to 4 exported fields of the kinds int, string, bool, float and slice, with and without an unexported one, and a predicate that holds for any subset of the fields: quantifiers, iteration and lookup visit exactly the exported fields, in order.
func C32_Shapes() {
	var s interface{}
	var keys []string
	switch nd.Choice(5) {
	case 0:
		s = &c32s0{}
	case 1:
		s, keys = &c32s1{true}, []string{"A"}
	case 2:
		s, keys = &c32s2{1, false}, []string{"A", "B"}
	case 3:
		s, keys = &c32s3{1, "x", true}, []string{"A", "B", "C"}
	default:
		s, keys = &c32s4{"a", true, 1, 2.5, []int{1}}, []string{"A", "B", "D", "E"}
	}
	m := vf.Map(s)
	if nd.Choice(2) == 0 {
		m = m.Copy(true)
	}
	sub := map[string]bool{}
	all, any := true, false
	firstOf := ""
	for _, k := range keys {
		in := nd.Choice(2) == 0
		sub[k] = in
		all = all && in
		any = any || in
		if in && firstOf == "" {
			firstOf = k
		}
	}
	nd.Reach("shapes")
	in := func(v dgo.Value) bool { return sub[v.(dgo.String).GoString()] }
	inE := func(e dgo.MapEntry) bool { return in(e.Key()) }
	nd.Assert(m.Len() == len(keys), c32Entry+"Len")
	nd.Assert(m.AllKeys(in) == all, c32Entry+"AllKeys")
	nd.Assert(m.AnyKey(in) == any, c32Entry+"AnyKey")
	nd.Assert(m.All(inE) == all, c32Entry+"All")
	nd.Assert(m.Any(inE) == any, c32Entry+"Any")
	i := 0
	visit := func() dgo.Predicate {
		i = 0
		return func(dgo.Value) bool { r := sub[keys[i]]; i++; return r }
	}
	nd.Assert(m.AllValues(visit()) == all, c32Entry+"AllValues")
	nd.Assert(m.AnyValue(visit()) == any, c32Entry+"AnyValue")
	f := m.Find(inE)
	nd.Assert((f == nil) == !any && (f == nil || f.Key().Equals(firstOf)), c32Entry+"Find")
	i = 0
	m.EachKey(func(k dgo.Value) { nd.Assert(k.Equals(keys[i]), c32Entry+"EachKey"); i++ })
	nd.Assert(i == len(keys), c32Entry+"EachKey")
	i = 0
	m.EachValue(func(v dgo.Value) { nd.Assert(same(v, m.Get(keys[i])), c32Entry+"EachValue"); i++ })
	nd.Assert(i == len(keys), c32Entry+"EachValue")
	i = 0
	m.EachEntry(func(e dgo.MapEntry) {
		nd.Assert(e.Key().Equals(keys[i]) && same(e.Value(), m.Get(keys[i])), c32Entry+"EachEntry")
		i++
	})
	nd.Assert(i == len(keys), c32Entry+"EachEntry")
	nd.Assert(m.Keys().Len() == len(keys) && m.Values().Len() == len(keys), c32Entry+"Keys and Values")
	nd.Assert(!m.ContainsKey("a") && !m.ContainsKey("c") && m.Get("c") == nil, c32Entry+"unexported")
	for _, k := range keys {
		nd.Assert(m.ContainsKey(k), c32Entry+"ContainsKey")
	}
}

// numeral tells if s is a number: an optional sign and either 0x with hexadecimal digits, or digits with an optional fraction and an optional exponent.
func numeral(s string) (float, ok bool) {
	digits := func() bool {
		n := 0
		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
			n++
		}
		s = s[n:]
		return n > 0
	}
	if s != "" && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}
	if strings.HasPrefix(s, "0x") {
		for s = s[2:]; s != "" && (s[0] >= '0' && s[0] <= '9' || s[0] == 'e'); s = s[1:] {
			ok = true
		}
		return false, ok && s == ""
	}
	if !digits() {
		return false, false
	}
	if s != "" && s[0] == '.' {
		s = s[1:]
		float = true
		if !digits() {
			return false, false
		}
	}
	if s != "" && s[0] == 'e' {
		s = s[1:]
		float = true
		if s != "" && (s[0] == '-' || s[0] == '+') {
			s = s[1:]
		}
		if !digits() {
			return false, false
		}
	}
	return float, s == ""
}

// Bounds: every text of 1 to 5 (thorough 6) characters out of 0, 7, -, +, e, . and x that has no two dots in a row: accepted exactly when it is a number, which then denotes the number that Go reads from the text.
func C18_Numbers() {
	n := 4
	if nd.Thorough() {
		n = 5
	}
	s := string([]byte{"07-+"[nd.Choice(4)]})
	for n = nd.Choice(n + 1); n > 0; n-- {
		c := "07-+e.x"[nd.Choice(7)]
		nd.Assume(c != '.' || s[len(s)-1] != '.')
		s += string([]byte{c})
	}
	var t dgo.Type
	f := failure(func() { t = tf.ParseType(s) })
	nd.Assert(!crash(f), "text is parsed or refused by an error that describes it: number")
	float, ok := numeral(s)
	nd.Reach("number")
	if !ok {
		nd.Assert(f != "", "a text that is no number is refused")
		return
	}
	if float {
		g, err := strconv.ParseFloat(s, 64)
		if err == nil {
			nd.Assert(f == "" && t.Equals(vf.Float(g).Type()), "a text of a float denotes the float")
		}
		return
	}
	i, err := strconv.ParseInt(s, 0, 64)
	nd.Assert((f == "") == (err == nil), "a text of an integer is accepted")
	nd.Assert(err != nil || t.Equals(vf.Integer(i).Type()), "a text of an integer denotes the integer")
}

// Bounds: regular expressions with an escaped punctuation character (slash included) or digit class next to a letter, in 3 places.
func C18_Regexps() {
	const punct = "!\"#$%&'()*+,-.:;<=>?@[\\]^_`{|}~/dwb"
	c := string([]byte{punct[nd.Choice(len(punct))]})
	p := []string{"a%", "%b", "[%]"}[nd.Choice(3)]
	text := strings.Replace(p, "%", "\\"+c, 1)
	want := text
	if c == "/" {
		// the escape is not part of the expression
		want = strings.Replace(p, "%", "/", 1)
	}
	r, err := regexp.Compile(want)
	var t dgo.Type
	f := failure(func() { t = tf.ParseType("/" + text + "/") })
	nd.Reach("regexp")
	nd.Assert((f == "") == (err == nil), "a regular expression is accepted when it is valid")
	nd.Assert(err != nil || t.Equals(tf.Pattern(r)), "a text of a regular expression denotes the expression")
}

// Bounds: channels, functions and pointers to structs as native values: equal exactly when they are the same or what they point at is equal.
func C19_References() {
	c1, c2 := make(chan int), make(chan int)
	var c3 <-chan int = c1
	pool := []interface{}{c1, c2, c3, make(chan string), (chan int)(nil)}
	i, j := nd.Choice(len(pool)), nd.Choice(len(pool))
	a, b := vf.ValueFromReflected(reflect.ValueOf(pool[i])), vf.ValueFromReflected(reflect.ValueOf(pool[j]))
	nd.Reach("references")
	nd.Assert(a.Equals(b) == (i == j) && b.Equals(a) == (i == j), "channels are equal when they are the same")
	nd.Assert(a.Equals(pool[i]), "a native value equals what it was made from")
	nd.Assert(!a.Equals(nil) && !a.Equals(1), "a native value equals no other value")
}

// pcWord tells if s is a qualified name: names that begin with a lower case letter or an underscore, separated by ::
func pcWord(s string) bool {
	for _, p := range strings.Split(s, "::") {
		if p == "" || !(p[0] == '_' || p[0] >= 'a' && p[0] <= 'z') || strings.IndexByte(p, ':') >= 0 {
			return false
		}
	}
	return true
}

// Bounds: words that begin with a, followed by up to 4 (thorough 5) characters out of b, B, 1, _ and :, in a list, are accepted exactly when they are qualified names, which are strings.
func C37_Words() {
	n := 4
	if nd.Thorough() {
		n = 5
	}
	s := "a"
	for n = nd.Choice(n + 1); n > 0; n-- {
		s += string([]byte{"bB1_:"[nd.Choice(5)]})
	}
	var v dgo.Value
	f := failure(func() { v = pc("[" + s + "]") })
	nd.Assert(!crash(f), c37Err+"words")
	nd.Reach("words")
	nd.Assert((f == "") == pcWord(s), c37Err+"a word is accepted when it is a qualified name")
	nd.Assert(f != "" || v.Equals(vf.Values(s)), c37Value+"a word denotes itself")
}

// Bounds: Struct types with 10 kinds of keys: names, strings and optional ones are accepted, types that are no single string are not.
func C37_StructKeys() {
	e := func(req bool) dgo.Type { return tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, req)) }
	t := []struct {
		text string
		want dgo.Type
	}{
		{"a", e(true)}, {"'a'", e(true)}, {"Optional['a']", e(false)}, {"Optional[a]", e(false)}, {"Enum['a']", e(true)}, {"Variant['a', 'b']", nil}, {"Variant['a', Undef]", nil}, {"String", nil},
		{"Optional[String]", nil}, {"Enum['a', 'b']", nil}, {"Optional[Enum['a', 'b']]", nil}, {"Variant[Integer, 'b']", nil},
	}[nd.Choice(12)]
	var v dgo.Value
	f := failure(func() { v = pc("Struct[{" + t.text + " => Integer}]") })
	nd.Reach("keys")
	nd.Assert(!crash(f), c37Err+"struct keys")
	nd.Assert((f == "") == (t.want != nil), c37Err+"a key of a struct is one string")
	nd.Assert(f != "" || v.Equals(t.want), c37Type+"keys of structs")
}

// Bounds: any of 8 times in 1700..2261 (nanoseconds in an int64), given to the millisecond and below: the float made from it is the number of seconds that is nearest.
func C21_TimeFloat() {
	s := []int64{0, 1, -1, 1571234567, -1571234567, 9000000000, -8000000000, 86399}[nd.Choice(8)]
	ns := []int64{0, 1, 250000000, 123456789, 999999999, 500}[nd.Choice(6)]
	t := time.Unix(s, ns).UTC()
	f := made(typ.Float, vf.Time(t))
	nd.Reach("float")
	nd.Assert(f != nil && f.(dgo.Float).GoFloat() == float64(s*1000000000+ns)/1e9, c21Conv+"float from time")
}

// Bounds: functions against integers, strings, nil, types, arrays and Go functions: equal to the same function only, with the same hash code.
func C27_Equal() {
	f1 := func(i int) int { return i }
	f2 := func(i int) int { return i + 1 }
	a := vf.Value(f1)
	other := []interface{}{f2, vf.Value(f2), 1, "f", nil, vf.Nil, typ.Function, a.Type(), vf.Values(a), vf.Integer(nd.Int64()), vf.Sensitive(a), true, 1.5, []int{1}, (func(int) int)(nil)}
	o := other[nd.Choice(len(other))]
	nd.Reach("equal")
	nd.Assert(a.Equals(a) && a.Equals(f1) && a.Equals(vf.Value(f1)), c27Type+"equal to itself")
	nd.Assert(!a.Equals(o), c27Type+"other values are not equal")
	nd.Assert(!vf.Value(o).Equals(a), c27Type+"other values are not equal")
	nd.Assert(vf.Values(1, o, a).IndexOf(a) == 2, c27Type+"found in an array")
}

// Bounds: a struct given by value, directly and as an element: the map shows its fields, can be changed, and the struct it was made from doesn't change.
func C32_ByValue() {
	s := c32s3{3, "x", nd.Bool()}
	m := vf.Map(s)
	if nd.Choice(2) == 0 {
		m = vf.Map(&s).Copy(false)
	}
	i := int64(nd.Int8())
	nd.Reach("value")
	nd.Assert(m.Len() == 3 && same(m.Get("C"), vf.Boolean(s.C)), c32Entry+"by value")
	old := m.Put("A", i)
	nd.Assert(same(old, vf.Integer(3)) && same(m.Get("A"), vf.Integer(i)), c32Write+"by value")
	nd.Assert(s.A == 3, c32Thaw+"by value")
}
