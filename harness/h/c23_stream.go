package h

import (
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const nStreamLeaf = 12

// streamLeaf is a value of every kind that has no elements. Integers and one letter of the strings are symbolic.
func streamLeaf(k int) dgo.Value {
	switch k {
	case 0:
		return vf.Integer(nd.Int64())
	case 1:
		return vf.String(letters(1))
	case 2:
		return vf.String("abcdefghijklmnopqrs" + letters(1))
	case 3:
		return vf.Boolean(nd.Bool())
	case 4:
		return vf.Nil
	case 5:
		return vf.Float(pickFloat())
	case 6:
		return vf.Binary([]byte{nd.Byte(), 2}, true)
	case 7:
		return vf.Time(time.Unix(1571234567, 123456789).UTC())
	case 8:
		return vf.Sensitive(letters(1))
	case 9:
		return []dgo.Type{typ.Integer, tf.Integer(1, 3, true), tf.Map(typ.String, typ.Any), typ.Integer.Type(), vf.String("a").Type()}[nd.Choice(5)]
	case 10:
		return vf.Array([]dgo.Value{})
	default:
		return vf.Map()
	}
}

const nStreamNode = 6

// streamNode is the k:th construct with the elements a and b.
func streamNode(k int, a, b dgo.Value) dgo.Value {
	switch k {
	case 0:
		return vf.Values(a, b)
	case 1:
		return vf.Map("k", a, "l", b)
	case 2:
		return vf.Map(1, a, "l", b)
	case 3:
		return vf.Sensitive(vf.Values(a, b))
	case 4:
		return vf.Map(vf.Values(a), b)
	default:
		return vf.Map("k", vf.Values(a), "l", vf.Map(true, b))
	}
}

func dedupLevel() streamer.DedupLevel {
	return []streamer.DedupLevel{streamer.NoDedup, streamer.NoKeyDedup, streamer.MaxDedup}[nd.Choice(3)]
}

// dataConsumer is a decoder that cannot do rich data.
type dataConsumer struct {
	streamer.Collector
}

func (dataConsumer) CanDoBinary() bool         { return false }
func (dataConsumer) CanDoTime() bool           { return false }
func (dataConsumer) CanDoComplexKeys() bool    { return false }
func (dataConsumer) StringDedupThreshold() int { return 20 }

// decoded is the value that v becomes when it is streamed to a decoder with or without the ability to handle rich data.
func decoded(v dgo.Value, l streamer.DedupLevel, data bool) dgo.Value {
	o := streamer.DefaultOptions()
	o.DedupLevel = l
	c := streamer.DataDecoder(nil, nil)
	if data {
		c = dataConsumer{c}
	}
	streamer.New(nil, o).Stream(v, c)
	return c.Value()
}

func sameStream(v, r dgo.Value, what string) {
	nd.Assert(nd.And(v.Equals(r), r.Equals(v)), "a decoded value is equal to the value that was streamed: "+what)
	nd.Assert(typ.Generic(r.Type()).Equals(typ.Generic(v.Type())), "a decoded value is of the same kind: "+what)
}

// C23_Leaf: every kind of value without elements, at the top, in an array, and as value and key of a map, at every level of deduplication, streamed to a decoder with and without rich data.
func C23_Leaf() {
	a := streamLeaf(nd.Choice(nStreamLeaf))
	var v dgo.Value
	switch nd.Choice(4) {
	case 0:
		v = a
	case 1:
		v = vf.Values(a, a)
	case 2:
		v = vf.Map("k", a, "l", a)
	default:
		v = vf.Map(a, 1, "k", a)
	}
	sameStream(v, decoded(v, dedupLevel(), nd.Choice(2) == 0), "leaf")
	nd.Reach("leaf")
}

// C23_Nested: every construct with the same (or equal but distinct) construct in both places, that contains a value of every kind; at every level of deduplication, streamed to a decoder with and without rich data.
func C23_Nested() {
	k := nd.Choice(nStreamLeaf)
	k1, k2 := nd.Choice(nStreamNode), nd.Choice(nStreamNode)
	a := streamLeaf(k)
	b := streamNode(k1, a, vf.String("abcdefghijklmnopqrstuv"))
	c := b
	if nd.Choice(2) == 0 {
		c = streamNode(k1, a, vf.String("abcdefghijklmnopqrstuv"))
	}
	v := streamNode(k2, b, c)
	sameStream(v, decoded(v, dedupLevel(), nd.Choice(2) == 0), "nested")
	nd.Reach("nested")
}

// C23_Sequence: an array with any 3 (thorough 4) of 6 values (long strings, arrays, maps, binaries, maps with complex keys and sensitives, two of which contain another), that occur repeatedly, with and without rich data: the decoded array is
// equal, and elements are the same instance exactly when they were.
func C23_Sequence() {
	s := vf.String("abcdefghijklmnopqrstuv")
	bin := vf.Binary([]byte{1, 2}, true)
	ar := vf.Values(s, 1)
	pool := []dgo.Value{s, ar, bin, vf.Map(1, ar), vf.Sensitive(bin), vf.Map("a", s, "b", bin)}
	n := 3
	if nd.Thorough() {
		n = 4
	}
	v := vf.MutableValues()
	ks := make([]int, n)
	for i := range ks {
		ks[i] = nd.Choice(len(pool))
		v.Add(pool[ks[i]])
	}
	l := []streamer.DedupLevel{streamer.NoKeyDedup, streamer.MaxDedup}[nd.Choice(2)]
	r := decoded(v, l, nd.Choice(2) == 0).(dgo.Array)
	sameStream(v, r, "sequence")
	for i := range ks {
		for j := range ks {
			if ks[i] != 0 && ks[j] != 0 {
				nd.Assert((r.Get(i) == r.Get(j)) == (ks[i] == ks[j]), "what is the same instance stays the same instance and nothing else becomes it")
			}
		}
	}
	nd.Reach("sequence")
}

// C23_NoDedup: without deduplication, arrays, maps and long strings that occur repeatedly are streamed every time.
func C23_NoDedup() {
	a := streamNode(nd.Choice(2), vf.String("abcdefghijklmnopqrstuv"), vf.Integer(nd.Int64()))
	e := &events{}
	o := streamer.DefaultOptions()
	o.DedupLevel = streamer.NoDedup
	streamer.New(nil, o).Stream(vf.Values(a, a), e)
	nd.Assert(e.refs == 0, "nothing is a reference without deduplication")
	nd.Reach("nodedup")
}

// events is a consumer that counts. It does rich data.
type events struct {
	adds, refs, threshold int
	complexKeys           bool
	strings               []string
	bad                   bool
}

func (e *events) CanDoBinary() bool         { return true }
func (e *events) CanDoTime() bool           { return true }
func (e *events) CanDoComplexKeys() bool    { return e.complexKeys }
func (e *events) StringDedupThreshold() int { return e.threshold }
func (e *events) AddArray(n int, doer dgo.Doer) {
	e.adds++
	doer()
}
func (e *events) AddMap(n int, doer dgo.Doer) {
	e.adds++
	doer()
}
func (e *events) Add(v dgo.Value) {
	e.adds++
	if s, ok := v.(dgo.String); ok {
		e.strings = append(e.strings, s.GoString())
	}
}
func (e *events) AddRef(r int) {
	e.refs++
	if r < 0 || r >= e.adds {
		e.bad = true
	}
}

// C23_Dedup: strings of 0 to 3 arbitrary letters a and b, as elements and as keys of maps: equal ones are streamed once when they are at least as long as the threshold of the consumer (keys only with
// maximum deduplication and a consumer that handles complex keys), and references only refer to values that have been streamed.
func C23_Dedup() {
	e := &events{threshold: nd.Choice(4), complexKeys: nd.Choice(2) == 0}
	o := streamer.DefaultOptions()
	o.DedupLevel = dedupLevel()
	str := func() string {
		b := make([]byte, nd.Choice(4))
		for i := range b {
			b[i] = 'a'
			if nd.Choice(2) == 0 {
				b[i] = 'b'
			}
		}
		return string(b)
	}
	s1, s2 := str(), str()
	v := vf.Values(s1, vf.Map(s2, s1), s2)
	streamer.New(nil, o).Stream(v, e)
	want := 4
	long := func(s string) bool { return len(s) >= e.threshold }
	keys := o.DedupLevel == streamer.MaxDedup && e.complexKeys
	if o.DedupLevel != streamer.NoDedup {
		// s1, key, s1, s2
		if long(s1) {
			want--
		}
		if keys && long(s2) && s1 != s2 {
			want--
		}
		if s1 == s2 && long(s1) {
			want--
			if keys {
				want--
			}
		}
	}
	nd.Assert(len(e.strings) == want && e.refs == 4-want, "equal strings that are long enough are streamed once")
	nd.Assert(!e.bad, "a reference is to a value that has been streamed")
	nd.Reach("dedup")
}

// C23_Cyclic: an array or map that contains itself, directly, in an array, in a map, or in a map with complex keys, next to an arbitrary integer, keeps its shape, with and without rich data.
func C23_Cyclic() {
	n := nd.Int64()
	data := nd.Choice(2) == 0
	l := []streamer.DedupLevel{streamer.NoKeyDedup, streamer.MaxDedup}[nd.Choice(2)]
	get := func(v dgo.Value, k int) dgo.Value {
		switch v := v.(type) {
		case dgo.Array:
			return v.Get(k)
		case dgo.Map:
			return v.Get([]interface{}{"a", "b"}[k])
		}
		return nil
	}
	var v dgo.Value
	in := func() dgo.Value {
		switch nd.Choice(4) {
		case 0:
			return v
		case 1:
			return vf.MutableValues(v, 1)
		case 2:
			return vf.MutableMap("a", v, "b", 1)
		default:
			return vf.MutableMap("a", v, "b", 1, 3, v)
		}
	}
	switch nd.Choice(3) {
	case 0:
		a := vf.MutableValues()
		v = a
		a.Add(in())
		a.Add(n)
		if nd.Choice(2) == 0 {
			a.Add(in())
		}
	case 1:
		m := vf.MutableMap()
		v = m
		m.Put("a", in())
		m.Put("b", n)
	default:
		m := vf.MutableMap()
		v = m
		m.Put("a", in())
		m.Put("b", n)
		m.Put(1, 2)
	}
	r := decoded(v, l, data)
	nd.Assert(get(r, 1) != nil && get(r, 1).Equals(n), "what surrounds a cycle is kept")
	i := get(r, 0)
	if get(v, 0) != v {
		nd.Assert(get(i, 1).Equals(1), "the content of a cycle is kept")
		i = get(i, 0)
	}
	nd.Assert(i == r, "a value that contains itself is decoded to a value that contains itself")
	if a, ok := r.(dgo.Array); ok && a.Len() == 3 {
		i = a.Get(2)
		if v.(dgo.Array).Get(2) != v {
			i = get(i, 0)
		}
		nd.Assert(i == r, "a value that contains itself twice is decoded to a value that contains itself twice")
	}
	nd.Reach("cyclic")
}

// C23_Data: a collector of data only gets data: whatever is streamed, the collected value is made of strings, numbers, booleans, nil, arrays and maps with string keys.
// When rich data is disabled, everything that isn't data is refused.
func C23_Data() {
	rich := nd.Choice(2) == 0
	k := nd.Choice(nStreamLeaf)
	var a dgo.Value
	switch {
	case rich || k == 1 || k > 2 && k != 6 && k != 8:
		a = streamLeaf(k)
	case k == 6:
		a = vf.Binary([]byte{1, 2}, true)
	case k == 8:
		a = vf.Sensitive("x")
	default:
		// the error text shows it
		a = vf.Integer(3)
	}
	v := a
	if nd.Choice(2) == 0 {
		v = streamNode(nd.Choice(nStreamNode), a, vf.Nil)
	}
	o := streamer.DefaultOptions()
	o.RichData = rich
	c := streamer.DataCollector()
	isData := onlyData(v)
	if o.RichData {
		streamer.New(nil, o).Stream(v, c)
		nd.Assert(onlyData(c.Value()), "a data collector collects data")
		nd.Assert(!isData || c.Value().Equals(v), "data is collected as it is")
		nd.Reach("rich")
		return
	}
	p := panics(func() { streamer.New(nil, o).Stream(v, c) })
	nd.Assert(p != isData, "what isn't data is refused when rich data is disabled, and only that")
	nd.Assert(p || c.Value().Equals(v), "data is collected as it is")
	nd.Reach("data")
}

func onlyData(v dgo.Value) bool {
	switch v := v.(type) {
	case dgo.String, dgo.Integer, dgo.Float, dgo.Boolean, dgo.Nil:
		return true
	case dgo.Array:
		return v.All(onlyData)
	case dgo.Map:
		return v.StringKeys() && v.All(func(e dgo.MapEntry) bool { return onlyData(e.Value()) })
	}
	return false
}

// C23_Order: maps with up to 3 arbitrary (possibly equal) of 4 letters as keys keep their order.
func C23_Order() {
	m := vf.MutableMap()
	for i := nd.Choice(4); i > 0; i-- {
		m.Put(loaderKey(), i)
	}
	if nd.Choice(2) == 0 {
		m.Put(1, 1)
	}
	r := decoded(m, dedupLevel(), nd.Choice(2) == 0).(dgo.Map)
	nd.Assert(r.Keys().Equals(m.Keys()) && r.Values().Equals(m.Values()), "maps keep their order")
	nd.Reach("order")
}

// C23_Alias: types streamed with an alias map: those that have a name declare that name when decoded, the others don't, and all are equal to what was streamed.
func C23_Alias() {
	am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) {
		a.Add(tf.String(1, 7), vf.String("verifs"))
		a.Add(tf.Array(typ.Integer), vf.String("verifa"))
	})
	pool := []dgo.Type{tf.String(1, 7), tf.Array(typ.Integer), typ.Integer, tf.Map(typ.String, tf.String(1, 7))}
	i, j := nd.Choice(4), nd.Choice(4)
	v := vf.Values(pool[i], pool[j])
	var r dgo.Value
	dm := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) {
		c := streamer.DataDecoder(a, nil)
		streamer.New(am, nil).Stream(v, c)
		r = c.Value()
	})
	sameStream(v, r, "aliases")
	for k, n := range []string{"verifs", "verifa"} {
		t := dm.GetType(vf.String(n))
		nd.Assert((t != nil) == (i == k || j == k), "names of types are declared when the types are decoded")
		nd.Assert(t == nil || t.Equals(pool[k]), "names of types denote the same type when decoded")
	}
	nd.Reach("alias")
}
