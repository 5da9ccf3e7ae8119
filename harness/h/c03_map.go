package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// refMap is the reference: an insertion ordered association list.
type refMap struct {
	ks []dgo.Value
	vs []dgo.Value
}

func (r *refMap) find(k dgo.Value) int {
	for i := range r.ks {
		if r.ks[i].Equals(k) {
			return i
		}
	}
	return -1
}

func (r *refMap) get(k dgo.Value) dgo.Value {
	if i := r.find(k); i >= 0 {
		return r.vs[i]
	}
	return nil
}

func (r *refMap) put(k, v dgo.Value) (old dgo.Value) {
	if i := r.find(k); i >= 0 {
		old = r.vs[i]
		r.vs[i] = v
		return old
	}
	r.ks = append(r.ks, k)
	r.vs = append(r.vs, v)
	return nil
}

func (r *refMap) remove(k dgo.Value) (old dgo.Value) {
	i := r.find(k)
	if i < 0 {
		return nil
	}
	old = r.vs[i]
	r.ks = append(append([]dgo.Value{}, r.ks[:i]...), r.ks[i+1:]...)
	r.vs = append(append([]dgo.Value{}, r.vs[:i]...), r.vs[i+1:]...)
	return old
}

func (r *refMap) clone() *refMap {
	return &refMap{append([]dgo.Value{}, r.ks...), append([]dgo.Value{}, r.vs...)}
}

func same(a, b dgo.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Equals(b)
}

// checkMap compares everything that can be observed of m with the reference.
func checkMap(m dgo.Map, r *refMap) {
	nd.Assert(m.Len() == len(r.ks), "Len is the number of different keys")
	i := 0
	m.EachEntry(func(e dgo.MapEntry) {
		nd.Assert(i < len(r.ks), "iteration visits each association once")
		nd.Assert(e.Key().Equals(r.ks[i]), "iteration follows insertion order")
		nd.Assert(same(e.Value(), r.vs[i]), "iteration yields the current value")
		i++
	})
	nd.Assert(i == len(r.ks), "iteration visits every association")
	for j := range r.ks {
		nd.Assert(same(m.Get(r.ks[j]), r.vs[j]), "Get returns the value last put")
		nd.Assert(m.ContainsKey(r.ks[j]), "ContainsKey is true for present keys")
	}
}

// checkViews compares the other read operations with the reference.
func checkViews(m dgo.Map, r *refMap) {
	ks, vs := m.Keys(), m.Values()
	nd.Assert(ks.Len() == len(r.ks) && vs.Len() == len(r.ks), "Keys and Values have one element for each association")
	for j := range r.ks {
		nd.Assert(ks.Get(j).Equals(r.ks[j]), "Keys follow insertion order")
		nd.Assert(same(vs.Get(j), r.vs[j]), "Values follow insertion order")
	}
	i := 0
	m.EachKey(func(k dgo.Value) { nd.Assert(k.Equals(r.ks[i]), "EachKey follows insertion order"); i++ })
	nd.Assert(i == len(r.ks), "EachKey visits every key")
	i = 0
	m.EachValue(func(v dgo.Value) { nd.Assert(v.Equals(r.vs[i]), "EachValue follows insertion order"); i++ })
	nd.Assert(i == len(r.ks), "EachValue visits every value")
	i = 0
	m.Each(func(e dgo.Value) {
		nd.Assert(e.(dgo.MapEntry).Key().Equals(r.ks[i]), "Each visits the entries in insertion order")
		i++
	})
	nd.Assert(i == len(r.ks), "Each visits every entry")
	pivot := vf.Integer(nd.Int64())
	ge := func(v dgo.Value) bool { c, ok := v.(dgo.Comparable).CompareTo(pivot); return ok && c >= 0 }
	all, any, first := true, false, -1
	for j := range r.vs {
		if ge(r.vs[j]) {
			if !any {
				first = j
			}
			any = true
		} else {
			all = false
		}
	}
	pe := func(e dgo.MapEntry) bool { return ge(e.Value()) }
	nd.Assert(m.All(pe) == all, "All")
	nd.Assert(m.Any(pe) == any, "Any")
	nd.Assert(m.AllValues(ge) == all, "AllValues")
	nd.Assert(m.AnyValue(ge) == any, "AnyValue")
	if f := m.Find(pe); first < 0 {
		nd.Assert(f == nil, "Find without match")
	} else {
		nd.Assert(f != nil && f.Key().Equals(r.ks[first]), "Find returns the first match")
	}
	all, any = true, false
	ki := func(v dgo.Value) bool { _, ok := v.(dgo.Integer); return ok }
	for j := range r.ks {
		if ki(r.ks[j]) {
			any = true
		} else {
			all = false
		}
	}
	nd.Assert(m.AllKeys(ki) == all, "AllKeys")
	nd.Assert(m.AnyKey(ki) == any, "AnyKey")
	str := true
	for j := range r.ks {
		if _, ok := r.ks[j].(dgo.String); !ok {
			str = false
		}
	}
	nd.Assert(m.StringKeys() == str, "StringKeys")
}

// aKey returns a key: integers that share or do not share a bucket, or a string.
func aKey() dgo.Value {
	switch nd.Choice(4) {
	case 0:
		return vf.Integer(0)
	case 1:
		return vf.Integer(1)
	case 2:
		return vf.Integer(1 << 20)
	default:
		return vf.String("a")
	}
}

func mapOps(n int) (dgo.Map, *refMap) {
	m := vf.MutableMap()
	r := &refMap{}
	for i := 0; i < n; i++ {
		k := aKey()
		switch nd.Choice(2) {
		case 0:
			v := vf.Integer(nd.Int64())
			nd.Assert(same(m.Put(k, v), r.put(k, v)), "Put returns the old value")
		default:
			nd.Assert(same(m.Remove(k), r.remove(k)), "Remove returns the old value")
		}
	}
	return m, r
}

// startMap gives maps in a few different states: empty, with entries that share a bucket, with
// string keys, with room to spare.
func startMap() (dgo.Map, *refMap) {
	var m dgo.Map
	r := &refMap{}
	fill := func(ks ...interface{}) {
		for i, k := range ks {
			v := vf.Integer(int64(i))
			m.Put(k, v)
			r.put(vf.Value(k), v)
		}
	}
	switch nd.Choice(6) {
	case 0:
		m = vf.MutableMap()
	case 1:
		m = vf.MapWithCapacity(8)
		fill("a")
	case 2:
		m = vf.MutableMap()
		fill(0, 1<<20, 1<<21)
	case 3:
		m = vf.MutableMap()
		fill("a", 1, 0)
	case 4:
		m = vf.MapWithCapacity(1)
		fill(1<<20, 0)
	default:
		m = vf.MutableMap("a", 1, 1<<21, 2, 0, 3, 7, 4, 8, 5)
		r.ks = []dgo.Value{vf.String("a"), vf.Integer(1 << 21), vf.Integer(0), vf.Integer(7), vf.Integer(8)}
		r.vs = []dgo.Value{vf.Integer(1), vf.Integer(2), vf.Integer(3), vf.Integer(4), vf.Integer(5)}
	}
	return m, r
}

// changeKey returns a key: present in some of the start maps or in none of them.
func changeKey() dgo.Value {
	switch nd.Choice(5) {
	case 0:
		return vf.Integer(0)
	case 1:
		return vf.Integer(1 << 20)
	case 2:
		return vf.Integer(1 << 21)
	case 3:
		return vf.String("a")
	default:
		return vf.Integer(99)
	}
}

func changeMap(m dgo.Map, r *refMap) {
	switch nd.Choice(4) {
	case 0:
		k, v := changeKey(), vf.Integer(nd.Int64())
		nd.Assert(same(m.Put(k, v), r.put(k, v)), "Put returns the old value")
	case 1:
		k := changeKey()
		nd.Assert(same(m.Remove(k), r.remove(k)), "Remove returns the old value")
	case 2:
		k, v := changeKey(), vf.Integer(nd.Int64())
		m.PutAll(vf.Map(k, v, 5, 6))
		r.put(k, v)
		r.put(vf.Integer(5), vf.Integer(6))
	default:
		k := changeKey()
		m.RemoveAll(vf.Values(k, "a"))
		r.remove(k)
		r.remove(vf.String("a"))
	}
}

// Bounds: maps in 6 states (empty, one entry, three entries in one bucket, mixed keys, five
// entries, little room) to which every history of 2 operations out of Put, Remove, PutAll and
// RemoveAll over 5 keys (present, absent, in the same bucket) is applied, arbitrary values.
func C03_History() {
	m, r := startMap()
	changeMap(m, r)
	changeMap(m, r)
	nd.Reach("history")
	checkMap(m, r)
	k := changeKey()
	nd.Assert(same(m.Get(k), r.get(k)), "Get of any key")
	nd.Assert(m.ContainsKey(k) == (r.find(k) >= 0), "ContainsKey of any key")
}

// Bounds: as History with 3 operations.
func C03T_History3() {
	m, r := startMap()
	changeMap(m, r)
	changeMap(m, r)
	changeMap(m, r)
	nd.Reach("history")
	checkMap(m, r)
	k := changeKey()
	nd.Assert(same(m.Get(k), r.get(k)), "Get of any key")
}

// Bounds: every history of 4 Put and Remove operations on a new map over 4 keys (integers with
// equal and different buckets, a string) with arbitrary int64 values.
func C03_FromEmpty() {
	m, r := mapOps(4)
	nd.Reach("history")
	checkMap(m, r)
}

// Bounds: as History with 6 operations.
func C03T_LongHistory() {
	m, r := mapOps(6)
	nd.Reach("history")
	checkMap(m, r)
}

// Bounds: every history of 2 Put/Remove operations with arbitrary values followed by every
// read operation, the predicates comparing with an arbitrary int64.
func C03_Views() {
	m, r := mapOps(2)
	nd.Reach("views")
	checkViews(m, r)
	checkViews(m.Copy(true), r)
}

// Bounds: a map of 0, 1, 5, 6, 7, 11, 12, 13, 23, 24, 25, 48 or 49 entries (around every resize
// of the table) to which two arbitrary int64 keys are put and from which one is removed.
func C03_Resize() {
	n := []int{0, 1, 5, 6, 7, 11, 12, 13, 23, 24, 25, 48, 49}[nd.Choice(13)]
	var m dgo.Map
	switch nd.Choice(2) {
	case 0:
		m = vf.MutableMap()
	default:
		m = vf.MapWithCapacity(n)
	}
	r := &refMap{}
	for i := 0; i < n; i++ {
		k, v := vf.Integer(int64(i*3)), vf.Integer(int64(i))
		m.Put(k, v)
		r.put(k, v)
	}
	k1 := vf.Integer(between(0, 15))
	nd.Assert(same(m.Put(k1, 1000), r.put(k1, vf.Integer(1000))), "Put returns the old value")
	k2 := vf.Integer(between(60, 63))
	nd.Assert(same(m.Put(k2, 1001), r.put(k2, vf.Integer(1001))), "Put returns the old value")
	if nd.Choice(2) == 0 {
		nd.Assert(same(m.Remove(k1), r.remove(k1)), "Remove returns the old value")
	}
	nd.Reach("resized")
	checkMap(m, r)
}

// Bounds: three arbitrary int64 keys put in a new map, then the lookup of an arbitrary int64.
func C03_AnyKey() {
	m := vf.MutableMap()
	r := &refMap{}
	for i := 0; i < 2; i++ {
		k, v := vf.Integer(nd.Int64()), vf.Integer(int64(i))
		m.Put(k, v)
		r.put(k, v)
	}
	q := nd.Int64()
	nd.Reach("lookup")
	nd.Assert(same(m.Get(q), r.get(vf.Integer(q))), "Get by Go int64")
	nd.Assert(same(m.Get(vf.Integer(q)), r.get(vf.Integer(q))), "Get by Integer")
	checkMap(m, r)
}

// Bounds: keys of different kinds (arbitrary int64, float64, string of 1 ASCII byte, boolean,
// nil, array, binary) looked up with an arbitrary key of any of the kinds.
func C03_KeyKinds() {
	key := func() dgo.Value {
		switch nd.Choice(7) {
		case 0:
			return vf.Integer(nd.Int64())
		case 1:
			return vf.Float(number())
		case 2:
			return vf.String(ascii(1))
		case 3:
			return vf.Boolean(nd.Bool())
		case 4:
			return vf.Nil
		case 5:
			return vf.Values(between(0, 1))
		default:
			return vf.Binary(bytesN(1), true)
		}
	}
	m := vf.MapWithCapacity(1)
	r := &refMap{}
	k := key()
	m.Put(k, 1)
	r.put(k, vf.Integer(1))
	q := key()
	nd.Reach("kinds")
	nd.Assert(same(m.Get(q), r.get(q)), "Get")
	if s, ok := q.(dgo.String); ok {
		nd.Assert(same(m.Get(s.GoString()), r.get(q)), "Get by Go string")
	}
	nd.Assert(same(m.Put(q, 2), r.put(q, vf.Integer(2))), "Put returns the old value")
	checkMap(m, r)
}

// Bounds: maps built by 2 operations and an argument map built by 2 operations; PutAll, Merge,
// RemoveAll, WithoutAll, With, Without with arbitrary values; the operands are checked too.
func C03_Derived() {
	m, r := mapOps(2)
	before := r.clone()
	switch nd.Choice(6) {
	case 0, 1:
		o, ro := mapOps(2)
		want := r.clone()
		for i := range ro.ks {
			want.put(ro.ks[i], ro.vs[i])
		}
		nd.Reach("merge")
		checkMap(m.Merge(o), want)
		checkMap(m, before)
		checkMap(o, ro)
		m.PutAll(o)
		checkMap(m, want)
		checkMap(o, ro)
	case 2:
		k, v := aKey(), vf.Integer(nd.Int64())
		want := r.clone()
		want.put(k, v)
		nd.Reach("with")
		checkMap(m.With(k, v), want)
		checkMap(m, before)
	case 3:
		k := aKey()
		want := r.clone()
		want.remove(k)
		nd.Reach("without")
		checkMap(m.Without(k), want)
		checkMap(m, before)
	case 4:
		k1, k2 := aKey(), aKey()
		want := r.clone()
		want.remove(k1)
		want.remove(k2)
		nd.Reach("withoutall")
		checkMap(m.WithoutAll(vf.Values(k1, k2)), want)
		checkMap(m, before)
		m.RemoveAll(vf.Values(k1, k2))
		checkMap(m, want)
	default:
		d := nd.Int64()
		want := r.clone()
		for i := range want.vs {
			want.vs[i] = vf.Values(want.vs[i], d)
		}
		nd.Reach("map")
		checkMap(m.Map(func(e dgo.MapEntry) interface{} { return vf.Values(e.Value(), d) }), want)
		checkMap(m, before)
	}
}

// Bounds: a map with nil values: the difference between a missing key and a nil value is kept.
func C03_NilValues() {
	m := vf.MutableMap()
	k := aKey()
	m.Put(k, nil)
	q := aKey()
	nd.Reach("nil")
	nd.Assert(m.ContainsKey(q) == k.Equals(q), "a key associated with nil is present")
	if k.Equals(q) {
		nd.Assert(m.Get(q) == vf.Nil, "Get of a nil value")
	} else {
		nd.Assert(m.Get(q) == nil, "Get of a missing key")
	}
}

// C03_SameValues: Bounds: every operation that gives a mutable map a value, or derives a mutable map from one, with mutable
// arrays as values: the value is the given one itself, which can still be changed.
func C03_SameValues() {
	x, y := vf.MutableValues(nd.Int64()), vf.MutableValues(nd.Int64())
	m := vf.MutableMap("a", x)
	switch nd.Choice(10) {
	case 0:
		m.Put("b", y)
	case 1:
		m.Put("b", 1)
		nd.Assert(m.Put("b", y).Equals(1), "Put returns the previous value")
	case 2:
		m.PutAll(vf.MutableMap("b", y))
	case 3:
		m = m.With("b", y)
	case 4:
		m = m.Merge(vf.MutableMap("b", y))
	case 5:
		m = vf.MutableMap("a", x, "b", y, "c", 1).Without("c")
	case 6:
		m = vf.MutableMap("a", x, "b", y, "c", 1).WithoutAll(vf.Values("c", "d"))
	case 7:
		m = vf.MutableMap("a", 1, "b", 2).Map(func(e dgo.MapEntry) interface{} {
			if e.Key().Equals("a") {
				return x
			}
			return y
		})
	case 8:
		m = vf.MutableValues("a", x, "b", y).ToMap()
	default:
		var ok bool
		m, ok = vf.MutableValues(vf.MapEntry("a", x), vf.MutableValues("b", y)).ToMapFromEntries()
		nd.Assert(ok, "entries")
	}
	nd.Assert(m.Len() == 2 && m.Get("a") == dgo.Value(x) && m.Get("b") == dgo.Value(y), "a mutable map holds the given values")
	vs := m.Values()
	nd.Assert(vs.Get(0) == dgo.Value(x) && vs.Get(1) == dgo.Value(y), "a mutable map holds the given values: Values")
	m.EachEntry(func(e dgo.MapEntry) {
		nd.Assert(e.Value() == m.Get(e.Key()), "a mutable map holds the given values: EachEntry")
	})
	nd.Assert(!x.Frozen() && !y.Frozen() && !m.Frozen(), "the values of a mutable map remain mutable")
	y.Add(3)
	nd.Assert(m.Get("b").(dgo.Array).Len() == 2, "a change of a value is seen")
	nd.Reach("same values")
}
