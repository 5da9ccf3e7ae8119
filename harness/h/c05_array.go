package h

import (
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// checkArray compares everything that can be observed of a with the reference.
func checkArray(a dgo.Array, r []dgo.Value) {
	nd.Assert(a.Len() == len(r), "Len")
	i := 0
	a.Each(func(v dgo.Value) {
		nd.Assert(i < len(r) && same(v, r[i]), "Each visits the elements in order")
		i++
	})
	nd.Assert(i == len(r), "Each visits every element")
	for j := range r {
		nd.Assert(same(a.Get(j), r[j]), "Get")
	}
}

func newArr(n int) (dgo.Array, []dgo.Value) {
	var a dgo.Array
	switch nd.Choice(3) {
	case 0:
		a = vf.MutableValues()
	case 1:
		a = vf.ArrayWithCapacity(2)
	default:
		a = vf.ArrayWithCapacity(8)
	}
	var r []dgo.Value
	for i := 0; i < n; i++ {
		v := vf.Integer(nd.Int64())
		a.Add(v)
		r = append(r, v)
	}
	return a, r
}

func cat(x []dgo.Value, y ...dgo.Value) []dgo.Value {
	return append(append([]dgo.Value{}, x...), y...)
}

// arrayOp applies one arbitrary operation to both.
func arrayOp(a dgo.Array, r []dgo.Value) []dgo.Value {
	var v dgo.Value = vf.Nil
	if nd.Choice(2) == 0 {
		v = vf.Integer(nd.Int64())
	}
	switch nd.Choice(8) {
	case 0:
		a.Add(v)
		return cat(r, v)
	case 1:
		p := nd.Choice(len(r) + 1)
		a.Insert(p, v)
		return cat(cat(r[:p], v), r[p:]...)
	case 2:
		if len(r) == 0 {
			return r
		}
		p := nd.Choice(len(r))
		nd.Assert(same(a.Remove(p), r[p]), "Remove returns the removed element")
		return cat(r[:p], r[p+1:]...)
	case 3:
		if len(r) == 0 {
			return r
		}
		p := nd.Choice(len(r))
		nd.Assert(same(a.Set(p, v), r[p]), "Set returns the old element")
		r = cat(r)
		r[p] = v
		return r
	case 4:
		e, ok := a.Pop()
		nd.Assert(ok == (len(r) > 0), "Pop reports whether there was an element")
		if !ok {
			nd.Assert(e == nil, "Pop of an empty array")
			return r
		}
		nd.Assert(same(e, r[len(r)-1]), "Pop returns the last element")
		return cat(r[:len(r)-1])
	case 5:
		p := -1
		for i := range r {
			if r[i].Equals(v) {
				p = i
				break
			}
		}
		nd.Assert(a.RemoveValue(v) == (p >= 0), "RemoveValue reports whether it removed")
		if p < 0 {
			return r
		}
		return cat(r[:p], r[p+1:]...)
	case 6:
		a.AddValues(v, 1)
		return cat(r, v, vf.Integer(1))
	default:
		a.AddAll(vf.Values(v, 2))
		return cat(r, v, vf.Integer(2))
	}
}

// Bounds: an array of 0 to 3 arbitrary int64 (created with capacity 0, 2 or 8) followed by
// every history of 2 operations out of Add, Insert, Remove, Set, Pop, RemoveValue, AddValues,
// AddAll with arbitrary int64 or nil and every position.
func C05_History() {
	a, r := newArr(nd.Choice(4))
	r = arrayOp(a, r)
	r = arrayOp(a, r)
	nd.Reach("history")
	checkArray(a, r)
}

// Bounds: as History with 3 operations on an array of 0 to 3 elements.
func C05T_LongHistory() {
	a, r := newArr(nd.Choice(4))
	r = arrayOp(a, r)
	r = arrayOp(a, r)
	r = arrayOp(a, r)
	nd.Reach("history")
	checkArray(a, r)
}

// Bounds: arrays of 0 to 3 arbitrary int64: Slice with every pair of bounds, Select, Reject, Map,
// Reduce, All, Any, One, Find, EachWithIndex, AppendToSlice, InterfaceSlice, GoSlice with a
// predicate that compares with an arbitrary int64.
func C05_Reads() {
	a, r := newArr(nd.Choice(4))
	frozen := nd.Choice(2) == 0
	if frozen {
		a.Freeze()
	}
	pv := nd.Int64()
	p := func(v dgo.Value) bool { return v.(dgo.Integer).GoInt() >= pv }
	var sel, rej []dgo.Value
	var sum int64
	first := -1
	for i, v := range r {
		if p(v) {
			if first < 0 {
				first = i
			}
			sel = append(sel, v)
		} else {
			rej = append(rej, v)
		}
		sum = sum*3 + v.(dgo.Integer).GoInt()
	}
	nd.Reach("reads")
	switch nd.Choice(6) {
	case 0:
		i := nd.Choice(len(r) + 1)
		j := i + nd.Choice(len(r)-i+1)
		s := a.Slice(i, j)
		checkArray(s, r[i:j])
		nd.Assert(s.Frozen() == frozen, "Slice keeps the frozen state")
	case 1:
		checkArray(a.Select(p), sel)
		checkArray(a.Reject(p), rej)
	case 2:
		nd.Assert(a.All(p) == (len(rej) == 0), "All")
		nd.Assert(a.Any(p) == (len(sel) > 0), "Any")
		nd.Assert(a.One(p) == (len(sel) == 1), "One")
		f := a.Find(func(v dgo.Value) interface{} {
			if p(v) {
				return v
			}
			return nil
		})
		if first < 0 {
			nd.Assert(f == nil, "Find without match")
		} else {
			nd.Assert(f != nil && r[first].Equals(f), "Find returns the first match")
		}
	case 3:
		m := make([]dgo.Value, len(r))
		for i := range r {
			m[i] = vf.Values(r[i])
		}
		checkArray(a.Map(func(v dgo.Value) interface{} { return vf.Values(v) }), m)
		got := a.Reduce(0, func(memo, v dgo.Value) interface{} {
			return memo.(dgo.Integer).GoInt()*3 + v.(dgo.Integer).GoInt()
		})
		nd.Assert(same(got, vf.Integer(sum)), "Reduce folds from the left")
	case 4:
		n := 0
		a.EachWithIndex(func(v dgo.Value, i int) {
			nd.Assert(i == n && same(v, r[i]), "EachWithIndex passes the position")
			n++
		})
		nd.Assert(n == len(r), "EachWithIndex visits every element")
		pre := []dgo.Value{vf.True}
		s := a.AppendToSlice(pre)
		nd.Assert(len(s) == len(r)+1 && s[0] == vf.True, "AppendToSlice")
		is, gs := a.InterfaceSlice(), a.GoSlice()
		nd.Assert(len(is) == len(r) && len(gs) == len(r), "InterfaceSlice and GoSlice")
		for i := range r {
			nd.Assert(same(s[i+1], r[i]), "AppendToSlice")
			nd.Assert(r[i].Equals(is[i]) && same(gs[i], r[i]), "InterfaceSlice and GoSlice")
		}
	default:
		checkArray(a, r)
		checkArray(a.Copy(true), r)
		checkArray(a.Copy(false), r)
		checkArray(vf.Array(a), r)
		v := vf.Integer(nd.Int64())
		checkArray(a.With(v), cat(r, v))
		checkArray(a.WithAll(vf.Values(v, 1)), cat(r, v, vf.Integer(1)))
		checkArray(a.WithValues(v, 1), cat(r, v, vf.Integer(1)))
		checkArray(a, r)
	}
}

// Bounds: positions -1 to len+1 of arrays of 0 to 2 elements: Get, Set and Slice outside of the
// array panic and leave it alone, Remove outside of the array is refused.
func C05_OutOfRange() {
	a, r := newArr(nd.Choice(3))
	p := nd.Int()
	nd.Assume(p < 0 || p >= len(r))
	nd.Reach("outside")
	switch nd.Choice(5) {
	case 0:
		nd.Assert(panics(func() { a.Get(p) }), "Get outside of the array panics")
	case 1:
		nd.Assert(panics(func() { a.Set(p, 1) }), "Set outside of the array panics")
	case 2:
		nd.Assume(p != len(r))
		nd.Assert(panics(func() { a.Insert(p, 1) }), "Insert outside of the array panics")
	case 3:
		nd.Assert(a.Remove(p) == nil, "Remove outside of the array does nothing")
	default:
		nd.Assume(p != len(r))
		nd.Assert(panics(func() { a.Slice(0, p) }), "Slice outside of the array panics")
	}
	checkArray(a, r)
}

// Bounds: constructors Values, MutableValues, Strings, Integers, Array, WrapSlice, Arguments of 0
// to 3 elements with unset (nil) positions.
func C05_Constructors() {
	n := nd.Choice(4)
	is := []interface{}{}
	vs := []dgo.Value{}
	var r []dgo.Value
	for i := 0; i < n; i++ {
		if nd.Choice(2) == 0 {
			is = append(is, nil)
			vs = append(vs, nil)
			r = append(r, vf.Nil)
		} else {
			x := nd.Int64()
			is = append(is, x)
			vs = append(vs, vf.Integer(x))
			r = append(r, vf.Integer(x))
		}
	}
	nd.Reach("constructors")
	switch nd.Choice(9) {
	case 0:
		a := vf.Values(is...)
		checkArray(a, r)
		nd.Assert(a.Frozen(), "Values is frozen")
	case 1:
		a := vf.MutableValues(is...)
		checkArray(a, r)
		nd.Assert(!a.Frozen(), "MutableValues is mutable")
	case 2:
		checkArray(vf.Array(is), r)
	case 3:
		checkArray(vf.WrapSlice(vs), r)
	case 4:
		checkArray(vf.Arguments(is...), r)
	case 5:
		checkArray(vf.Array(vs), r)
	case 6:
		checkArray(vf.Value(vs).(dgo.Array), r)
	case 7:
		checkArray(vf.Array(reflect.ValueOf(vs)), r)
	default:
		checkArray(vf.Value(is).(dgo.Array), r)
	}
}

// Bounds: Strings and Integers of 0 to 3 elements (one-byte ASCII strings, arbitrary ints).
func C05_TypedConstructors() {
	n := nd.Choice(4)
	ss := make([]string, n)
	is := make([]int, n)
	rs, ri := make([]dgo.Value, n), make([]dgo.Value, n)
	for i := range ss {
		ss[i] = ascii(1)
		rs[i] = vf.String(ss[i])
		is[i] = nd.Int()
		ri[i] = vf.Integer(int64(is[i]))
	}
	nd.Reach("typed")
	checkArray(vf.Strings(ss...), rs)
	checkArray(vf.Integers(is...), ri)
}

// Bounds: every operation that gives a mutable array an element, or derives a mutable array from one, with mutable
// arrays as elements: the new element is the given value itself, which can still be changed.
func C05_SameElements() {
	x, y := vf.MutableValues(nd.Int64()), vf.MutableValues(nd.Int64())
	a := vf.MutableValues(x)
	switch nd.Choice(16) {
	case 0:
		a.Add(y)
	case 1:
		a.AddValues(y)
	case 2:
		a.AddAll(vf.WrapSlice([]dgo.Value{y}))
	case 3:
		a.Insert(1, y)
	case 4:
		a.Add(1)
		nd.Assert(a.Set(1, y).Equals(1), "Set returns the old element")
	case 5:
		a = a.With(y)
	case 6:
		a = a.WithValues(y)
	case 7:
		a = vf.MutableValues(1).WithAll(vf.WrapSlice([]dgo.Value{x, y})).Slice(1, 3)
	case 8:
		a = vf.MutableValues(1, x, y, 2).Slice(1, 3)
	case 9:
		a = vf.MutableValues(x, y).Select(func(dgo.Value) bool { return true })
	case 10:
		a = vf.MutableValues(x, y).Reject(func(dgo.Value) bool { return false })
	case 11:
		a = vf.MutableValues(0, 1).Map(func(v dgo.Value) interface{} {
			if v.Equals(0) {
				return x
			}
			return y
		})
	case 12:
		nd.Assume(!x.Equals(y))
		a = vf.MutableValues(x, y, x).Unique()
	case 13:
		nd.Assume(x.Get(0).(dgo.Integer).GoInt() < y.Get(0).(dgo.Integer).GoInt())
		a = vf.MutableValues(x, y).Sort()
	case 14:
		a = vf.MutableMap("a", x, "b", y).Values()
		if a.Frozen() {
			a = vf.MutableValues(a.Get(0), a.Get(1))
		}
	default:
		m := vf.MutableMap("k", x)
		a = vf.MutableValues(m, vf.MutableValues(y.Get(0), m)).Flatten()
		nd.Assert(a.Len() == 3 && a.Get(0) == dgo.Value(m) && a.Get(2) == dgo.Value(m), "a mutable array holds the given values")
		a = vf.MutableValues(m.Get("k"), y)
	}
	nd.Assert(a.Len() == 2 && a.Get(0) == dgo.Value(x) && a.Get(1) == dgo.Value(y), "a mutable array holds the given values")
	nd.Assert(!x.Frozen() && !y.Frozen() && !a.Frozen(), "the elements of a mutable array remain mutable")
	y.Add(3)
	nd.Assert(a.Get(1).(dgo.Array).Len() == 2, "a change of an element is seen")
	nd.Reach("same elements")
}
