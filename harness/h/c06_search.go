package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

func arrOf(n int) (dgo.Array, []dgo.Value) {
	a := vf.MutableValues()
	var r []dgo.Value
	for i := 0; i < n; i++ {
		v := vf.Integer(nd.Int64())
		a.Add(v)
		r = append(r, v)
	}
	return a, r
}

func count(r []dgo.Value, v dgo.Value) (n int) {
	for i := range r {
		if r[i].Equals(v) {
			n++
		}
	}
	return
}

// Bounds: IndexOf of an arbitrary value (int64, one-byte string, boolean, nil or Go int64) in
// arrays of 0 to 3 such values.
func C06_IndexOf() {
	a := vf.MutableValues()
	var r []dgo.Value
	for n := nd.Choice(4); n > 0; n-- {
		v := small()
		a.Add(v)
		r = append(r, v)
	}
	v := small()
	want := -1
	for i := range r {
		if v.Equals(r[i]) {
			want = i
			break
		}
	}
	nd.Reach("index")
	nd.Assert(a.IndexOf(v) == want, "IndexOf is the first equal position")
	if i, ok := v.(dgo.Integer); ok {
		nd.Assert(a.IndexOf(i.GoInt()) == want, "IndexOf of a Go value")
	}
}

// Bounds: arrays of 0 to 3 and 0 to 2 arbitrary int64. Duplicates count: an element is found as
// many times as it occurs.
func C06_ContainsAll() {
	a, ra := arrOf(nd.Choice(4))
	b, rb := arrOf(nd.Choice(3))
	want := true
	for _, v := range rb {
		if count(rb, v) > count(ra, v) {
			want = false
		}
	}
	nd.Reach("contains")
	nd.Assert(a.ContainsAll(b) == want, "ContainsAll")
	nd.Assert(a.SameValues(b) == (want && len(ra) == len(rb)), "SameValues")
	nd.Assert(b.SameValues(a) == a.SameValues(b), "SameValues is symmetric")
}

// Bounds: an array of 0 to 2 entries against a map of 0 to 2 entries.
func C06_ContainsMap() {
	m := vf.MutableMap()
	for n := nd.Choice(3); n > 0; n-- {
		m.Put(mapKey(), nd.Int64())
	}
	a := vf.MutableValues()
	var ra []dgo.Value
	for n := nd.Choice(3); n > 0; n-- {
		e := vf.MapEntry(mapKey(), nd.Int64())
		a.Add(e)
		ra = append(ra, e)
	}
	want := true
	m.EachEntry(func(e dgo.MapEntry) {
		if count(ra, e) == 0 {
			want = false
		}
	})
	nd.Reach("map")
	nd.Assert(a.ContainsAll(m) == want, "ContainsAll of a map")
}

// Bounds: arrays of 0 to 4 values out of int64 {0, 1, 2^20} (colliding) and arbitrary strings of
// one byte.
func C06_Unique() {
	a := vf.MutableValues()
	var want []dgo.Value
	for n := nd.Choice(4); n > 0; n-- {
		v := aKey()
		a.Add(v)
		if count(want, v) == 0 {
			want = append(want, v)
		}
	}
	x := vf.Integer(nd.Int64())
	a.Add(x)
	if count(want, x) == 0 {
		want = append(want, x)
	}
	nd.Reach("unique")
	checkArray(a.Unique(), want)
}

// Bounds: arrays with up to 3 levels of nesting and at most 2 elements in each.
func C06_Flatten() {
	var flat []dgo.Value
	var mk func(d int) dgo.Array
	mk = func(d int) dgo.Array {
		a := vf.MutableValues()
		for n := nd.Choice(3); n > 0; n-- {
			if d > 0 && nd.Choice(2) == 0 {
				a.Add(mk(d - 1))
			} else {
				v := vf.Integer(nd.Int64())
				flat = append(flat, v)
				a.Add(v)
			}
		}
		return a
	}
	a := mk(2)
	before := a.Copy(false)
	nd.Reach("flatten")
	checkArray(a.Flatten(), flat)
	nd.Assert(a.Equals(before), "Flatten leaves the receiver alone")
}
