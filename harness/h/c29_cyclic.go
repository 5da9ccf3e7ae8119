package h

import (
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const (
	c29Eq   = "values that contain themselves are equal when their contents are: "
	c29Copy = "the copy of a value that contains itself contains itself and not the original: "
	c29Type = "the type of a value that contains itself describes it: "
	c29Term = "operations on values that contain themselves terminate: "
)

const nCyclic = 19

// cyclic is a value of shape k that contains itself and x.
func cyclic(k int, x dgo.Value) dgo.Value {
	return shaped(k, x, nil)
}

// shaped is a value of shape k that contains x and self, or, if that is nil, itself.
func shaped(k int, x, self dgo.Value) dgo.Value {
	a := vf.MutableValues()
	m := vf.MutableMap()
	as, ms := self, self
	if self == nil {
		as, ms = a, m
	}
	switch k {
	case 0:
		a.Add(x)
		a.Add(as)
	case 1:
		a.Add(as)
		a.Add(x)
	case 2:
		m.Put("a", x)
		m.Put("self", ms)
		return m
	case 3:
		m.Put("self", ms)
		m.Put("a", x)
		return m
	case 4:
		a.Add(x)
		a.Add(vf.MutableValues(as))
	case 5:
		a.Add(vf.MutableMap("x", as))
		a.Add(x)
	case 6:
		m.Put("a", x)
		m.Put("b", vf.MutableValues(ms))
		return m
	case 7:
		m.Put("a", vf.MutableMap("b", ms, "c", x))
		return m
	case 8:
		a.Add(vf.Sensitive(as))
		a.Add(x)
	case 9:
		m.Put("s", vf.Sensitive(vf.MutableValues(ms, x)))
		return m
	case 10:
		b := vf.MutableValues(as)
		a.Add(x)
		a.Add(b)
		a.Add(b)
	case 11:
		a.Add(vf.MapEntry("k", as))
		a.Add(x)
	case 12:
		a.Add(as)
		a.Add(as)
		a.Add(x)
	case 13:
		a.Add(vf.Sensitive(vf.Sensitive(as)))
		a.Add(x)
	case 14:
		a.Add(vf.MutableMap("x", vf.MutableValues(x, as)))
	case 15:
		m.Put("a", vf.MutableMap("b", vf.MutableValues(x, ms, ms)))
		return m
	case 16:
		a.Add(vf.MapEntry("k", vf.Sensitive(vf.MutableValues(as, x))))
	case 17:
		m.Put(1, ms)
		m.Put(true, vf.MutableValues(ms, x))
		return m
	default:
		a.Add(vf.Sensitive(vf.MutableValues(x, as)))
	}
	return a
}

// hasSensitive returns true if there are sensitives in shape k. Their types don't tell what they contain.
func hasSensitive(k int) bool {
	return k == 8 || k == 9 || k == 13 || k == 16 || k == 18
}

// reach calls f with everything that is in v, once each.
func reach(v dgo.Value, seen map[dgo.Value]bool, f func(dgo.Value)) {
	switch v := v.(type) {
	case dgo.Array, dgo.Map, dgo.Sensitive, dgo.MapEntry:
		if seen[v] {
			return
		}
		seen[v] = true
	}
	f(v)
	switch v := v.(type) {
	case dgo.Array:
		v.Each(func(e dgo.Value) { reach(e, seen, f) })
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { reach(e.Key(), seen, f); reach(e.Value(), seen, f) })
	case dgo.MapEntry:
		reach(v.Key(), seen, f)
		reach(v.Value(), seen, f)
	case dgo.Sensitive:
		reach(v.Unwrap(), seen, f)
	}
}

// containers are the arrays and maps in v.
func containers(v dgo.Value) (cs []dgo.Value) {
	reach(v, map[dgo.Value]bool{}, func(e dgo.Value) {
		switch e.(type) {
		case dgo.Array, dgo.Map:
			cs = append(cs, e)
		}
	})
	return
}

// leafC is an arbitrary integer or letter.
func leafC() dgo.Value {
	if nd.Choice(2) == 0 {
		return vf.Integer(nd.Int64())
	}
	return vf.String(letters(1))
}

// C29_Equal: Bounds: two of 19 shapes of values that contain themselves (arrays, maps, entries and sensitives, one or two levels down, once or twice), each with an arbitrary integer or letter.
func C29_Equal() {
	k, l := nd.Choice(nCyclic), nd.Choice(nCyclic)
	x, y := leafC(), leafC()
	v, w := cyclic(k, x), cyclic(l, y)
	if nd.Choice(2) == 0 {
		w.(dgo.Freezable).Freeze()
	}
	nd.Assert(v.Equals(v) && w.Equals(w), c29Eq+"itself")
	eq := v.Equals(w)
	nd.Assert(eq == w.Equals(v), c29Eq+"symmetric")
	if k == l || k == 2 && l == 3 || k == 3 && l == 2 {
		nd.Assert(eq == x.Equals(y), c29Eq+"same shape")
	}
	if eq {
		nd.Assert(v.HashCode() == w.HashCode(), c29Eq+"hash code")
		nd.Assert(v.Type().Equals(w.Type()), c29Eq+"types")
	}
	c, isC := v.(dgo.Comparable)
	d, isD := w.(dgo.Comparable)
	if isC && isD {
		n, ok := c.CompareTo(w)
		m, mk := d.CompareTo(v)
		nd.Assert(ok == mk && (!ok || n == -m), c29Eq+"order")
	}
	nd.Reach("equal")
}

// C29_Copy: Bounds: the 19 shapes with an arbitrary integer or letter, copied in every way; something is added to the original or to the copy.
func C29_Copy() {
	k := nd.Choice(nCyclic)
	x := leafC()
	v := cyclic(k, x)
	how := nd.Choice(6)
	if nd.Choice(2) == 0 && how > 1 {
		v.(dgo.Freezable).Freeze()
	}
	frozen := false
	var c dgo.Value
	switch how {
	case 0:
		c, frozen = v.(dgo.Freezable).FrozenCopy(), true
	case 1:
		c, frozen = vf.Values(v).Get(0), true
	case 2:
		c = v.(dgo.Freezable).ThawedCopy()
	case 3:
		if a, ok := v.(dgo.Array); ok {
			c = a.Copy(false)
		} else {
			c = v.(dgo.Map).Copy(false)
		}
	case 4:
		m := vf.MutableMap()
		m.Put(v, 1)
		c, frozen = m.Keys().Get(0), true
	default:
		c = vf.New(v.Type(), v)
		nd.Assert(c.Equals(v), c29Copy+"New gives an equal value")
		nd.Reach("copied")
		return
	}
	nd.Assert(c.Equals(v) && v.Equals(c), c29Copy+"equal")
	nd.Assert(c.HashCode() == v.HashCode(), c29Copy+"hash code")
	vs, cs := containers(v), containers(c)
	nd.Assert(len(cs) <= 5 && len(vs) <= 5, c29Copy+"it is as large")
	wasFrozen := v.(dgo.Freezable).Frozen()
	for _, e := range cs {
		nd.Assert(e.(dgo.Freezable).Frozen() == frozen, c29Copy+"all of it is frozen, or nothing")
		if !(frozen && wasFrozen) {
			for _, o := range vs {
				nd.Assert(o != e, c29Copy+"nothing of the original")
			}
		}
	}
	if !frozen {
		// changing one doesn't show in the other
		o := cyclic(k, x)
		change := cs[nd.Choice(len(cs))]
		if a, ok := change.(dgo.Array); ok {
			a.Add(1)
		} else {
			change.(dgo.Map).Put("added", 1)
		}
		nd.Assert(v.Equals(o), c29Copy+"original is not affected")
	} else if !wasFrozen {
		o := cyclic(k, x)
		if a, ok := v.(dgo.Array); ok {
			a.Add(1)
		} else {
			v.(dgo.Map).Put("added", 1)
		}
		nd.Assert(c.Equals(o), c29Copy+"copy is not affected")
	}
	nd.Reach("copied")
}

// C29_Freeze: Bounds: the 19 shapes with an arbitrary integer or letter, or an array or map that is not frozen; everything in them is frozen.
func C29_Freeze() {
	k := nd.Choice(nCyclic)
	x := leafC()
	switch nd.Choice(3) {
	case 0:
		x = vf.MutableValues(x, vf.MutableMap("a", x))
	case 1:
		x = vf.MutableMap("a", vf.MutableValues(x))
	}
	v := cyclic(k, x)
	f := v.(dgo.Freezable)
	nd.Assert(!f.Frozen(), c29Term+"frozen before")
	f.Freeze()
	nd.Assert(f.FrozenCopy() == v, c29Term+"frozen copy")
	for _, e := range containers(v) {
		nd.Assert(e.(dgo.Freezable).Frozen(), c29Term+"everything is frozen")
	}
	nd.Assert(v.Equals(cyclic(k, x)), c29Term+"the content remains")
	nd.Reach("frozen")
}

// C29_Type: Bounds: the 19 shapes with an arbitrary integer or letter against another of the same or another shape.
func C29_Type() {
	k := nd.Choice(nCyclic)
	x, y := leafC(), leafC()
	v, w := cyclic(k, x), cyclic(k, y)
	t := v.Type()
	nd.Assert(t.Instance(v), c29Type+"instance")
	if !hasSensitive(k) {
		nd.Assert(t.Instance(w) == x.Equals(y), c29Type+"instance of other contents")
		nd.Assert(t.Equals(w.Type()) == x.Equals(y), c29Type+"equal types")
		nd.Assert(t.Assignable(w.Type()) == x.Equals(y), c29Type+"assignable types")
	}
	nd.Assert(t.Assignable(cyclic(k, x).Type()), c29Type+"assignable from itself")
	nd.Assert(t.HashCode() == cyclic(k, x).Type().HashCode(), c29Type+"hash code")
	nd.Assert(typ.Any.Instance(v) && t.Type().Instance(t), c29Type+"meta type")
	g := typ.Generic(t)
	nd.Assert(g.Instance(v) && g.Instance(w), c29Type+"generic type")
	nd.Assert(g.Assignable(t), c29Type+"generic type is assignable")
	kind := reflect.Slice
	if _, ok := v.(dgo.Map); ok {
		kind = reflect.Map
	}
	nd.Assert(t.ReflectType().Kind() == kind, c29Type+"reflected type")
	s := vf.Sensitive(v)
	nd.Assert(s.Type().Instance(vf.Sensitive(w)), c29Type+"sensitive")
	nd.Reach("type")
}

// C29_Text: Bounds: the 19 shapes: the texts of equal values, and of their types, are the same.
func C29_Text() {
	k := nd.Choice(nCyclic)
	x := vf.Value("x")
	v, w := cyclic(k, x), cyclic(k, x)
	nd.Assert(v.String() == w.String() && v.String() != "", c29Term+"string")
	nd.Assert(v.Type().String() == w.Type().String() && v.Type().String() != "", c29Term+"string of the type")
	nd.Assert(vf.New(typ.String, v).Equals(v.String()), c29Term+"conversion to string")
	nd.Reach("text")
}

// C29_Derive: Bounds: the 19 shapes with an arbitrary integer or letter: the operations that derive a value from them, or search them.
func C29_Derive() {
	k := nd.Choice(nCyclic)
	x := leafC()
	v, w := cyclic(k, x), cyclic(k, x)
	switch v := v.(type) {
	case dgo.Array:
		w := w.(dgo.Array)
		nd.Assert(k >= 14 || v.IndexOf(x) >= 0, c29Term+"search")
		nd.Assert((k >= 14 || v.ContainsAll(vf.Values(x))) && v.ContainsAll(v) && v.SameValues(w), c29Term+"contains all")
		nd.Assert(v.With(v).Len() == v.Len()+1 && v.WithAll(w).Len() == 2*v.Len(), c29Term+"with")
		nd.Assert(v.Unique().Len() <= v.Len(), c29Term+"unique")
		nd.Assert(v.Sort().Len() == v.Len(), c29Term+"sort")
		nd.Assert(v.Map(func(e dgo.Value) interface{} { return e }).Equals(v), c29Term+"map")
		nd.Assert(tf.Array(typ.Any).Instance(v), c29Term+"instance")
		nd.Assert(vf.New(typ.Array, v).Equals(v), c29Term+"new")
	case dgo.Map:
		w := w.(dgo.Map)
		nd.Assert(v.Merge(w).Equals(v), c29Term+"merge")
		nd.Assert(v.Values().Len() == v.Len() && v.Keys().Len() == v.Len(), c29Term+"keys and values")
		nd.Assert(v.With("q", v).Len() == v.Len()+1, c29Term+"with")
		nd.Assert(v.Map(func(e dgo.MapEntry) interface{} { return e.Value() }).Equals(v), c29Term+"map")
		nd.Assert(tf.Map(typ.Any, typ.Any).Instance(v), c29Term+"instance")
		nd.Assert(vf.New(typ.Map, v).Equals(v), c29Term+"new")
	}
	nd.Reach("derive")
}

// C29_Unrolled: Bounds: the 19 shapes with an arbitrary integer or letter, and another where the value is contained once more: what both contain is the same.
func C29_Unrolled() {
	k := nd.Choice(nCyclic)
	x, y := leafC(), leafC()
	v := cyclic(k, x)
	w := shaped(k, y, v)
	eq := x.Equals(y)
	nd.Assert(v.Equals(w) == eq && w.Equals(v) == eq, c29Eq+"unrolled")
	if eq {
		nd.Assert(v.HashCode() == w.HashCode(), c29Eq+"hash code when unrolled")
		m := vf.MutableMap()
		m.Put(w, 1)
		nd.Assert(m.ContainsKey(v), c29Eq+"as keys")
		nd.Assert(v.Type().Instance(w) && w.Type().Instance(v), c29Type+"instance when unrolled")
		nd.Assert(vf.Values(v, w).Unique().Len() == 1, c29Eq+"unique")
		c := shaped(k, x, w)
		nd.Assert(c.Equals(v) && c.Equals(w) && c.HashCode() == v.HashCode(), c29Eq+"unrolled twice")
	}
	if !hasSensitive(k) {
		nd.Assert(v.Type().Equals(w.Type()) == eq, c29Type+"type when unrolled")
	}
	nd.Reach("unrolled")
}

// C29_Stream: Bounds: the 19 shapes but those with map entries, in a sensitive or not, streamed with deduplication to a decoder with and without rich data, and encoded to and decoded from JSON in both dialects.
func C29_Stream() {
	k := nd.Choice(nCyclic)
	nd.Assume(k != 11 && k != 16)
	x := vf.Value("x")
	if nd.Choice(2) == 0 {
		x = vf.Value(int64(42))
	}
	v := cyclic(k, x)
	switch nd.Choice(4) {
	case 0:
	case 1:
		v.(dgo.Freezable).Freeze()
	case 2:
		v = vf.Sensitive(v)
	default:
		a := vf.MutableValues(x)
		v = vf.Sensitive(a)
		a.Add(v)
	}
	var r dgo.Value
	if nd.Choice(2) == 0 {
		l := []streamer.DedupLevel{streamer.NoKeyDedup, streamer.MaxDedup}[nd.Choice(2)]
		r = decoded(v, l, nd.Choice(2) == 0)
	} else {
		d, _ := dialect()
		r = streamer.UnmarshalJSON(streamer.MarshalJSON(v, d), d)
	}
	nd.Assert(r.Equals(v) && v.Equals(r), c29Term+"streamed")
	nd.Assert(r.String() == v.String() && len(containers(r)) == len(containers(v)), c29Term+"the structure is streamed")
	nd.Reach("streamed")
}

// C29_RecursiveType: Bounds: arrays, maps, structs and tuples that refer to themselves (in C26), unrolled up to 2 extra times, over ranges with arbitrary ends: values that contain themselves, an arbitrary number down, are instances exactly when the number is in the range; the generic type, the reflected type, the hash code, the text and the negation of such a type.
func C29_RecursiveType() {
	hi, x := nd.Int64(), nd.Int64()
	nd.Assume(nd.And(hi > 0, x >= 0))
	k := nd.Choice(4)
	t := recursive(k, nd.Choice(3), tf.Integer(0, hi, true))
	what := c29Type + "recursive type: "
	g := typ.Generic(t)
	switch nd.Choice(5) {
	case 0:
		var v dgo.Value
		switch k {
		case 0, 3:
			v = cyclic(0, vf.Integer(x))
		case 1:
			v = cyclic(2, vf.Integer(x))
		default:
			m := vf.MutableMap("v", x)
			m.Put("n", m)
			v = m
		}
		nd.Assert(t.Instance(v) == (x <= hi), what+"instance")
		nd.Assert(tf.Not(t).Instance(v) == (x > hi), what+"instance of the negation")
		nd.Assert(g.Instance(v) || x > hi, what+"instance of the generic type")
		nd.Assert(t.Assignable(v.Type()) == (x <= hi), what+"assignable from the exact type")
		nd.Assert(!t.Instance(cyclic(1, vf.String("x"))), what+"not an instance")
	case 1:
		nd.Assert(g.Assignable(t), what+"generic type is assignable")
		nd.Assert(typ.Generic(g).Equals(g), what+"generic type is generic")
	case 2:
		kind := reflect.Slice
		if k == 1 || k == 2 {
			kind = reflect.Map
		}
		nd.Assert(t.ReflectType().Kind() == kind && g.ReflectType().Kind() == kind, what+"reflected type")
	case 3:
		t2 := recursive(k, 0, typ.Integer)
		nd.Assert(t2.String() != "" && t2.String() == recursive(k, 0, typ.Integer).String(), what+"text")
		nd.Assert(!t2.Equals(typ.Generic(t2)) || typ.Generic(t2).Equals(t2), what+"generic")
		nd.Assert(t2.HashCode() == recursive(k, 0, typ.Integer).HashCode(), what+"hash code")
		nd.Assert(t.Type().Instance(t) && typ.Any.Assignable(t), what+"meta type")
	default:
		n := tf.Not(t)
		nd.Assert(!t.Assignable(n) && !n.Assignable(t), what+"negation")
		nd.Assert(tf.AnyOf(t, typ.String).Assignable(t), what+"combinations")
	}
	nd.Reach("recursive type")
}
