package h

import (
	"errors"
	"reflect"
	"regexp"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// Bounds: Map and MutableMap from a flat list of 0 to 3 associations over 4 keys (so that keys
// repeat), values arbitrary int64.
func C04_Arguments() {
	n := nd.Choice(4)
	var args []interface{}
	r := &refMap{}
	for i := 0; i < n; i++ {
		k, v := aKey(), vf.Integer(nd.Int64())
		args = append(args, k, v)
		r.put(k, v)
	}
	nd.Reach("args")
	switch nd.Choice(4) {
	case 0:
		m := vf.Map(args...)
		checkMap(m, r)
		nd.Assert(m.Frozen(), "Map gives a frozen map")
	case 1:
		m := vf.MutableMap(args...)
		checkMap(m, r)
		nd.Assert(!m.Frozen(), "MutableMap gives a mutable map")
		k := aKey()
		nd.Assert(same(m.Put(k, 7), r.put(k, vf.Integer(7))), "Put returns the old value")
		checkMap(m, r)
		nd.Assert(same(m.Remove(k), r.remove(k)), "Remove returns the old value")
		checkMap(m, r)
	case 2:
		m := vf.Map(vf.Values(args...))
		checkMap(m, r)
	default:
		m := vf.MutableMap(vf.Values(args...))
		checkMap(m, r)
		nd.Assert(!m.Frozen(), "MutableMap gives a mutable map")
	}
}

// Bounds: ToMap of an array of 0 to 5 elements (an odd number included), keys as above.
func C04_ToMap() {
	n := nd.Choice(6)
	a := vf.MutableValues()
	r := &refMap{}
	for i := 0; i < n; i += 2 {
		k := aKey()
		a.Add(k)
		if i+1 < n {
			v := vf.Integer(nd.Int64())
			a.Add(v)
			r.put(k, v)
		} else {
			r.put(k, vf.Nil)
		}
	}
	frozen := nd.Choice(2) == 0
	if frozen {
		a.Freeze()
	}
	m := a.ToMap()
	nd.Reach("tomap")
	checkMap(m, r)
	nd.Assert(m.Frozen() == frozen, "the frozen status is inherited")
}

// Bounds: ToMapFromEntries of 0 to 3 elements, each a pair, a new entry, or an entry of
// another map; keys as above, values arbitrary int64. The other map must stay as it was.
func C04_ToMapFromEntries() {
	src := vf.MutableMap(0, 10, 1, 11, 1<<20, 12)
	rs := &refMap{}
	src.EachEntry(func(e dgo.MapEntry) { rs.put(e.Key(), e.Value()) })
	n := nd.Choice(4)
	a := vf.MutableValues()
	r := &refMap{}
	for i := 0; i < n; i++ {
		switch nd.Choice(2) {
		case 0:
			k, v := aKey(), vf.Integer(nd.Int64())
			a.Add(vf.Values(k, v))
			r.put(k, v)
		default:
			k := vf.Integer([]int64{0, 1, 1 << 20}[nd.Choice(3)])
			e := src.Find(func(e dgo.MapEntry) bool { return e.Key().Equals(k) })
			a.Add(e)
			r.put(k, e.Value())
		}
	}
	frozen := nd.Choice(2) == 0
	if frozen {
		a.Freeze()
	}
	m, ok := a.ToMapFromEntries()
	nd.Reach("entries")
	nd.Assert(ok, "pairs and entries are accepted")
	checkMap(m, r)
	nd.Assert(m.Frozen() == frozen, "the frozen status is inherited")
	checkMap(src, rs)
	if !frozen {
		k := aKey()
		m.Put(k, 99)
		r.put(k, vf.Integer(99))
		checkMap(m, r)
		checkMap(src, rs)
	}
}

// Bounds: arrays with one element that is not a pair or entry.
func C04_NotEntries() {
	var x interface{}
	switch nd.Choice(4) {
	case 0:
		x = nd.Int64()
	case 1:
		x = vf.Values(1)
	case 2:
		x = vf.Values(1, 2, 3)
	default:
		x = vf.Map("a", 1)
	}
	a := vf.MutableValues(vf.Values(1, 2))
	a.Insert(nd.Choice(2), x)
	_, ok := a.ToMapFromEntries()
	nd.Reach("not entries")
	nd.Assert(!ok, "other elements are refused")
}

// Bounds: Go maps of 0, 1, 2 and 4 entries from int64 to int64, keys from a set that shares
// buckets, arbitrary values.
func C04_GoMap() {
	gm := map[int64]int64{}
	r := &refMap{}
	switch nd.Choice(3) {
	case 0:
	case 1:
		for i := 0; i < 2; i++ {
			gm[mapKey()] = nd.Int64()
		}
	default:
		for _, k := range []int64{0, 1, 16, 1 << 36} {
			gm[k] = nd.Int64()
		}
	}
	for _, k := range []int64{0, 1, 16, 1 << 36} {
		if v, ok := gm[k]; ok {
			r.put(vf.Integer(k), vf.Integer(v))
		}
	}
	nd.Reach("gomap")
	switch nd.Choice(3) {
	case 0:
		m := vf.Value(gm).(dgo.Map)
		checkMap(m, r)
		nd.Assert(m.Frozen(), "the value of a Go map is frozen")
	case 1:
		m := vf.Map(gm)
		checkMap(m, r)
		nd.Assert(m.Frozen(), "Map gives a frozen map")
	default:
		m := vf.MutableMap(gm)
		checkMap(m, r)
		nd.Assert(!m.Frozen(), "MutableMap gives a mutable map")
		k := aKey()
		m.Put(k, 5)
		r.put(k, vf.Integer(5))
		checkMap(m, r)
	}
}

// Bounds: Go maps of 1 to 5 entries from string to slices of an arbitrary int64 and from int to
// maps; the result is frozen with everything in it, or, for MutableMap, can be changed.
func C04_GoMapNested() {
	n := 1 + nd.Choice(5)
	x := nd.Int64()
	var g interface{}
	if nd.Choice(2) == 0 {
		gm := map[string][]int64{}
		for i := 0; i < n; i++ {
			gm[string(rune('a'+i))] = []int64{x}
		}
		g = gm
	} else {
		gm := map[int]map[string]int64{}
		for i := 0; i < n; i++ {
			gm[i] = map[string]int64{"k": x}
		}
		g = gm
	}
	nd.Reach("nested")
	switch nd.Choice(3) {
	case 0:
		m := vf.Map(g)
		nd.Assert(m.Len() == n && deepFrozen(m), "Map of a Go map is frozen")
		nd.Assert(panics(func() { m.Put("z", 1) }) && m.Len() == n, "Map of a Go map cannot be changed")
	case 1:
		m := vf.Value(g).(dgo.Map)
		nd.Assert(m.Len() == n && deepFrozen(m), "Value of a Go map is frozen")
	default:
		m := vf.MutableMap(g)
		nd.Assert(m.Len() == n && !m.Frozen(), "MutableMap of a Go map is mutable")
		m.Put("z", x)
		nd.Assert(m.Len() == n+1 && same(m.Get("z"), vf.Integer(x)), "MutableMap of a Go map is mutable")
	}
}

// Bounds: a mutable array or map of one arbitrary int64 used as key in every construction; it
// is changed afterwards.
func C04_MutableKey() {
	x := nd.Int64()
	key := vf.MutableValues(x)
	var m dgo.Map
	switch nd.Choice(5) {
	case 0:
		m = vf.MutableMap()
		m.Put(key, 1)
	case 1:
		m = vf.MutableMap(key, 1)
	case 2:
		m = vf.MutableValues(key, 1).ToMap()
	case 3:
		m, _ = vf.MutableValues(vf.MutableValues(key, 1)).ToMapFromEntries()
	default:
		m = vf.MutableMap()
		m.PutAll(vf.MutableMap(key, 1))
	}
	key.Set(0, nd.Int64())
	nd.Reach("changed")
	nd.Assert(same(m.Get(vf.Values(x)), vf.Integer(1)), "changing the value used as key does not change the map")
}

// C04_OneArgument: Bounds: Map, MutableMap and FromReflectedMap of one argument out of 27: nil and empty Go maps,
// scalars, types, entries, errors, arrays of an odd number of elements, maps, structs, Go maps with
// keys and values of several kinds. (Formatting a Go pointer is not encoded, so nil pointers are out.)
func C04_OneArgument() {
	x := int64(nd.Choice(2))
	type pt struct{ A int64 }
	var a interface{}
	var want dgo.Map
	goMap := false
	switch nd.Choice(27) {
	case 0:
		a, goMap = map[string]int(nil), true
	case 1:
		a, want, goMap = map[string]int{}, vf.Map(), true
	case 2:
		a = vf.Value(regexp.MustCompile("a"))
	case 3:
		a = vf.MutableValues(x, 1, 2)
	case 4:
		a = nil
	case 5:
		a = vf.Nil
	case 6:
		a = x
	case 7:
		a = vf.Integer(x)
	case 8:
		a = "ab"
	case 9:
		a = vf.String("ab")
	case 10:
		a = vf.Values(x)
	case 11:
		a = vf.Binary([]byte{1, 2}, true)
	case 12:
		a = vf.MapEntry("a", x)
	case 13:
		a = vf.Sensitive(vf.Map("a", x))
	case 14:
		a = typ.Map
	case 15:
		a = 2.5
	case 16:
		a = vf.Value(errors.New("a"))
	case 17:
		a = [1]int{1}
	case 18:
		a = map[bool]int64{true: x, false: 7}
		want, goMap = vf.Map(true, x, false, 7), true
	case 19:
		a = map[interface{}]interface{}{"a": x, 1: nil, 2.5: true}
		want, goMap = vf.Map("a", x, 1, nil, 2.5, true), true
	case 20:
		a = map[int8]*pt{3: nil}
		want, goMap = vf.Map(3, nil), true
	case 21:
		a = vf.Value(map[string]int64{"a": x})
		want = vf.Map("a", x)
	case 22:
		a = vf.MutableMap("a", x)
		want = vf.Map("a", x)
	case 23:
		a = vf.Values("a", x)
		want = vf.Map("a", x)
	case 24:
		a = pt{x}
		want = vf.Map("A", x)
	case 25:
		a = &pt{x}
		want = vf.Map("A", x)
	default:
		a = map[string][]int64{"a": {x}, "b": nil}
		want, goMap = vf.Map("a", vf.Values(x), "b", nil), true
	}
	frozen := nd.Bool()
	var m dgo.Map
	how := nd.Choice(2)
	f := func() {
		if frozen {
			m = vf.Map(a)
		} else {
			m = vf.MutableMap(a)
		}
	}
	if how == 1 {
		nd.Assume(goMap)
		f = func() { m = vf.FromReflectedMap(reflect.ValueOf(a), frozen) }
	}
	nd.Reach("one argument")
	s := failure(f)
	if want == nil {
		nd.Assert(s != "" && !crash(s), "what is not a map is refused with an error that tells so")
		return
	}
	nd.Assert(s == "", "a map is accepted")
	nd.Assert(m.Len() == want.Len() && same(m, want) && same(want, m), "the map has the given associations")
	want.EachKey(func(k dgo.Value) {
		nd.Assert(m.ContainsKey(k) && same(m.Get(k), want.Get(k)), "a key is found")
	})
	if goMap || !frozen {
		nd.Assert(m.Frozen() == frozen, "the map is frozen as asked for")
		if frozen {
			nd.Assert(deepFrozen(m), "all of a frozen map is frozen")
			nd.Assert(refused("a frozen map refuses", func() { m.Put(1, 1) }) && same(m, want), "a frozen map is not changed")
		} else if _, st := m.(dgo.Struct); !st {
			m.Put(vf.Values("k"), 2)
			nd.Assert(m.Len() == want.Len()+1 && same(m.Get(vf.Values("k")), vf.Integer(2)), "a mutable map can be changed")
		}
	}
}
