package h

import (
	"math"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// structTy is a struct type with up to n keys a, b, ... over ranges, string and any.
func structTy(n int) *ty {
	n = nd.Choice(n + 1)
	ts := make([]*ty, n)
	req := make([]bool, n)
	for i := range ts {
		switch nd.Choice(3) {
		case 0:
			ts[i] = tString()
		case 1:
			ts[i] = tAny()
		default:
			ts[i] = tRange()
		}
		req[i] = nd.Choice(2) == 0
	}
	return tStruct(nd.Choice(2) == 0, req, ts...)
}

// abcMap is a map over some of the keys a, b and c, values any int64, a string or nil.
func abcMap() dgo.Map {
	m := vf.MutableMap()
	for _, k := range []string{"a", "b", "c"} {
		switch nd.Choice(4) {
		case 0:
		case 1:
			m.Put(k, nd.Int64())
		case 2:
			m.Put(k, "x")
		default:
			m.Put(k, nil)
		}
	}
	return m
}

// Bounds: struct types of up to 2 keys (string, any or an integer range; required or not) with and
// without additional keys; maps over the keys a, b and c (any int64, a string or nil).
func C16_Struct() {
	t := structTy(2)
	m := abcMap()
	st := t.t.(dgo.StructMapType)
	nd.Reach("struct")
	nd.Assert(st.Instance(m) == t.has(m), "a map is an instance exactly when it belongs to the struct type")
}

// validateCase is a struct type and a map as in C16_Struct, where the ranges and the integers are
// one of two.
func validateCase(keys int) (*ty, dgo.Map) {
	n := nd.Choice(keys + 1)
	ts := make([]*ty, n)
	req := make([]bool, n)
	for i := range ts {
		switch nd.Choice(3) {
		case 0:
			ts[i] = tString()
		case 1:
			ts[i] = tAny()
		default:
			ts[i] = &ty{k: "intrange", lo: 3, hi: 9, incl: true, t: tf.Integer(3, 9, true)}
		}
		req[i] = nd.Choice(2) == 0
	}
	m := vf.MutableMap()
	for _, k := range []string{"a", "b", "c"} {
		switch nd.Choice(5) {
		case 0:
		case 1:
			m.Put(k, 5)
		case 2:
			m.Put(k, 50)
		case 3:
			m.Put(k, "x")
		default:
			m.Put(k, nil)
		}
	}
	return tStruct(nd.Choice(2) == 0, req, ts...), m
}

// Bounds: struct types of up to 2 keys (string, any or 3..9; required or not) with and without
// additional keys; maps over the keys a, b and c (5, 50, a string or nil).
func C16_Validate() {
	t, m := validateCase(2)
	st := t.t.(dgo.StructMapType)
	want := t.has(m)
	bad := 0
	for i, s := range t.sub {
		k := string(rune('a' + i))
		if v := m.Get(k); v == nil {
			if t.req[i] {
				bad++
			}
		} else if !s.has(v) {
			bad++
		}
	}
	if !t.add {
		for i := len(t.sub); i < 3; i++ {
			if m.ContainsKey(string(rune('a' + i))) {
				bad++
			}
		}
	}
	nd.Reach("validate")
	nd.Assert((len(st.Validate(nil, m)) == 0) == want, "Validate gives no errors exactly for instances")
	nd.Assert(len(st.Validate(nil, m)) == bad, "Validate gives one error per key that is not acceptable")
	nd.Assert(st.ValidateVerbose(m, util.NewIndenter("  ")) == want, "ValidateVerbose holds exactly for instances")
}

// Bounds: struct types of up to 2 keys against an array and a scalar.
func C16_NotMap() {
	t, _ := validateCase(2)
	st := t.t.(dgo.StructMapType)
	nd.Reach("notmap")
	nd.Assert(len(st.Validate(nil, vf.Values())) == 1, "only maps are instances")
	nd.Assert(!st.Instance(vf.Values()) && !st.Instance(nd.Int64()), "only maps are instances")
	nd.Assert(!st.ValidateVerbose(1, util.NewIndenter("")), "only maps are instances")
}

// Bounds: struct types of up to 3 keys: what they tell about themselves.
func C16_Parts() {
	t := structTy(3)
	st := t.t.(dgo.StructMapType)
	nd.Reach("parts")
	nd.Assert(st.Len() == len(t.sub), "a struct type has the entries it was made from")
	nd.Assert(st.Additional() == t.add, "a struct type has the entries it was made from")
	i, reqs := 0, 0
	st.Each(func(e dgo.StructMapEntry) {
		k := string(rune('a' + i))
		nd.Assert(vf.String(k).Type().Equals(e.Key()) && t.sub[i].t.Equals(e.Value()) && e.Required() == t.req[i], "a struct type has the entries it was made from, in order")
		g := st.Get(k)
		nd.Assert(g != nil && g.Equals(e), "Get finds the entry of a key")
		if t.req[i] {
			reqs++
		}
		i++
	})
	nd.Assert(i == len(t.sub), "a struct type has the entries it was made from")
	nd.Assert(st.Get("z") == nil, "Get finds nothing for other keys")
	nd.Assert(st.Min() == reqs, "Min is the number of required keys")
	if t.add {
		nd.Assert(st.Max() == math.MaxInt64, "Max is unlimited with additional keys")
	} else {
		nd.Assert(st.Max() == len(t.sub), "Max is the number of keys")
	}
}

// Bounds: struct types of up to 2 keys made from entries and from a map that describes them;
// maps over these keys.
func C16_FromMap() {
	t := structTy(2)
	d := vf.MutableMap()
	for i, s := range t.sub {
		k := string(rune('a' + i))
		switch {
		case !t.req[i]:
			d.Put(k, vf.Map("type", s.t, "required", false))
		case nd.Choice(2) == 0:
			d.Put(k, vf.Map("type", s.t))
		default:
			d.Put(k, s.t)
		}
	}
	o := tf.StructMapFromMap(t.add, d)
	m := vf.MutableMap()
	for i := 0; i < 2; i++ {
		if nd.Choice(2) == 0 {
			m.Put(string(rune('a'+i)), elem())
		}
	}
	nd.Reach("frommap")
	nd.Assert(o.Equals(t.t) && t.t.Equals(o), "the struct type described by a map equals the one made from entries")
	nd.Assert(o.Instance(m) == t.has(m), "the struct type described by a map has the same instances")
}
