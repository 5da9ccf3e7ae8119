package h

import (
	"bytes"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// touch changes v in some way that its picture shows, if it can be changed.
func touch(v dgo.Value) {
	switch v := v.(type) {
	case dgo.Array:
		switch nd.Choice(3) {
		case 0:
			v.Add(77)
		case 1:
			v.Insert(0, 77)
		default:
			if v.Len() > 0 {
				v.Remove(0)
			}
		}
	case dgo.Map:
		switch nd.Choice(3) {
		case 0:
			v.Put(77, 77)
		case 1:
			v.Put(1, 77)
		default:
			v.Remove(1)
		}
	case dgo.Binary:
		v.GoBytes()[0] ^= 0xff
	}
}

// mutables returns the mutable arrays, maps and binaries inside of v.
func mutables(v dgo.Value) (r []dgo.Value) {
	var walk func(v dgo.Value)
	walk = func(v dgo.Value) {
		switch v := v.(type) {
		case dgo.Array:
			if !v.Frozen() {
				r = append(r, v)
			}
			v.Each(walk)
		case dgo.Map:
			if !v.Frozen() {
				r = append(r, v)
			}
			v.EachValue(walk)
		case dgo.MapEntry:
			walk(v.Value())
		case dgo.Sensitive:
			walk(v.Unwrap())
		case dgo.Binary:
			if !v.Frozen() {
				r = append(r, v)
			}
		}
	}
	walk(v)
	return
}

func touchAny(v dgo.Value) {
	ms := mutables(v)
	if len(ms) > 0 {
		touch(ms[nd.Choice(len(ms))])
	}
}

// Bounds: values nested 2 deep (thorough also 4 deep) with up to 2 children. A frozen or thawed copy is taken
// of the value, frozen or not; then one side is changed anywhere.
func C09_DeepCopies() {
	v := anyTree()
	f, ok := v.(dgo.Freezable)
	nd.Assume(ok)
	wasFrozen := nd.Choice(2) == 0
	if wasFrozen {
		f.Freeze()
	}
	p := picture(v)
	var c dgo.Value
	thaw := false
	switch nd.Choice(3) {
	case 0:
		c = f.ThawedCopy()
		thaw = true
	case 1:
		c = f.FrozenCopy()
	default:
		switch v := v.(type) {
		case dgo.Array:
			c = v.Copy(false)
		case dgo.Map:
			c = v.Copy(false)
		case dgo.Binary:
			c = v.Copy(false)
		default:
			c = f.ThawedCopy()
		}
		thaw = true
	}
	nd.Reach("copy")
	nd.Assert(samePicture(p, picture(c)), "a copy has the content of the original")
	nd.Assert(samePicture(p, picture(v)), "copying does not change the original")
	if wasFrozen {
		nd.Assert(deepFrozen(v), "copying does not thaw the original")
	}
	if thaw {
		switch c.(type) {
		case dgo.Array, dgo.Map, dgo.Binary:
			nd.Assert(!c.(dgo.Freezable).Frozen(), "a thawed copy can be changed")
		}
	} else {
		nd.Assert(deepFrozen(c), "a frozen copy is frozen")
	}
	if nd.Choice(2) == 0 {
		touchAny(c)
		nd.Assert(samePicture(p, picture(v)), "changing the copy does not change the original")
	} else {
		touchAny(v)
		nd.Assert(samePicture(p, picture(c)), "changing the original does not change the copy")
	}
}

// Bounds: every operation that derives an array from a mutable array of 0 to 3 int64 with or
// without spare capacity, followed by a second derivation or a change on either side.
func C09_DerivedArrays() {
	n := nd.Choice(4)
	var a dgo.Array
	if nd.Choice(2) == 0 {
		a = vf.ArrayWithCapacity(8)
	} else {
		a = vf.MutableValues()
	}
	for i := 0; i < n; i++ {
		a.Add(between(-1, 1))
	}
	d := deriveArray(a)
	p, q := picture(a), picture(d)
	nd.Reach("derived")
	switch nd.Choice(3) {
	case 0:
		touch(d)
		nd.Assert(samePicture(p, picture(a)), "changing the result does not change the receiver")
	case 1:
		touch(a)
		nd.Assert(samePicture(q, picture(d)), "changing the receiver does not change the result")
	default:
		e := deriveArray(a)
		nd.Assert(samePicture(q, picture(d)), "deriving twice does not change the first result")
		touch(e)
		nd.Assert(samePicture(q, picture(d)) && samePicture(p, picture(a)), "changing a second result changes neither")
	}
}

func deriveArray(a dgo.Array) dgo.Array {
	switch nd.Choice(13) {
	case 0:
		return a.With(5)
	case 1:
		return a.WithAll(vf.Values(5))
	case 2:
		return a.WithValues(5, 6)
	case 3:
		return a.WithAll(vf.Values())
	case 4:
		return a.WithValues()
	case 5:
		return a.Map(func(v dgo.Value) interface{} { return v })
	case 6:
		return a.Select(func(dgo.Value) bool { return true })
	case 7:
		return a.Reject(func(dgo.Value) bool { return false })
	case 8:
		return a.Slice(0, a.Len())
	case 9:
		return a.Flatten()
	case 10:
		return a.Unique()
	case 11:
		return a.Sort()
	default:
		if a.Len() < 1 {
			return a.Copy(false)
		}
		return a.Slice(0, a.Len()-1)
	}
}

// Bounds: every operation that derives a map, or an array, from a mutable map of 0 to 2
// associations, followed by a change on either side.
func C09_DerivedMaps() {
	m := vf.MutableMap()
	n := nd.Choice(3)
	for i := 0; i < n; i++ {
		m.Put(i+1, nd.Int64())
	}
	o := vf.MutableMap()
	if nd.Choice(2) == 0 {
		o.Put(1, nd.Int64())
	}
	var d dgo.Value
	switch nd.Choice(12) {
	case 0:
		d = m.With(1, nd.Int64())
	case 1:
		d = m.With(9, nil)
	case 2:
		d = m.Without(1)
	case 3:
		d = m.Without(9)
	case 4:
		d = m.WithoutAll(vf.Values(1))
	case 5:
		d = m.WithoutAll(vf.Values())
	case 6:
		d = m.Merge(o)
	case 7:
		d = o.Merge(m)
	case 8:
		d = m.Map(func(e dgo.MapEntry) interface{} { return e.Value() })
	case 9:
		d = m.Merge(m)
	case 10:
		d = m.Values()
	default:
		d = m.Keys()
	}
	p, q, r := picture(m), picture(d), picture(o)
	nd.Reach("derived")
	if nd.Choice(2) == 0 {
		if !d.(dgo.Freezable).Frozen() {
			touch(d)
		}
		nd.Assert(samePicture(p, picture(m)) && samePicture(r, picture(o)), "changing the result does not change the receiver or the argument")
	} else {
		touch(m)
		touch(o)
		nd.Assert(samePicture(q, picture(d)), "changing the receiver or the argument does not change the result")
	}
}

// Bounds: mutable arrays, maps and Go slices of up to 2 elements given to AddAll, PutAll, Values,
// Map, Array, Strings, Binary(frozen); the receiver is not affected by later changes.
func C09_Arguments() {
	x := nd.Int64()
	src := vf.MutableValues(x, x)
	nd.Reach("argument")
	switch nd.Choice(6) {
	case 0:
		a := vf.MutableValues(1)
		a.AddAll(src)
		p := picture(a)
		touch(src)
		nd.Assert(samePicture(p, picture(a)), "AddAll copies")
		p = picture(src)
		touch(a)
		nd.Assert(samePicture(p, picture(src)), "AddAll copies")
	case 1:
		m, o := vf.MutableMap(), vf.MutableMap(1, x)
		m.PutAll(o)
		p := picture(m)
		touch(o)
		nd.Assert(samePicture(p, picture(m)), "PutAll copies")
		p = picture(o)
		touch(m)
		nd.Assert(samePicture(p, picture(o)), "PutAll copies")
	case 2:
		a := vf.Array(src)
		p := picture(a)
		touch(src)
		nd.Assert(samePicture(p, picture(a)), "Array copies")
	case 3:
		s := []interface{}{x, x}
		a := vf.Values(s...)
		b := vf.MutableValues(s...)
		p := picture(a)
		s[0] = nd.Int64()
		b.Set(1, nd.Int64())
		nd.Assert(samePicture(p, picture(a)), "Values copies")
		nd.Assert(same(b.Get(0), vf.Integer(x)), "MutableValues copies")
	case 4:
		bs := []byte{nd.Byte()}
		c := bs[0]
		b := vf.Binary(bs, true)
		bs[0] = nd.Byte()
		nd.Assert(b.Equals([]byte{c}), "a frozen binary copies")
		d := vf.Binary(bs, false)
		d.Freeze()
		c = bs[0]
		bs[0] = nd.Byte()
		nd.Assert(d.Equals([]byte{c}), "freezing a binary copies")
	default:
		g := map[string]int64{"a": x}
		m, mm := vf.Map(g), vf.MutableMap(g)
		g["a"] = nd.Int64()
		nd.Assert(same(m.Get("a"), vf.Integer(x)) && same(mm.Get("a"), vf.Integer(x)), "Map copies")
	}
}

// Bounds: binaries of 3 arbitrary bytes from every constructor (bytes frozen or not, reader,
// encoded string, copies), copied in every way; the copy or the original is changed.
func C09_Binary() {
	bs := bytesN(3)
	var b dgo.Binary
	switch nd.Choice(5) {
	case 0:
		b = vf.Binary(bs, true)
	case 1:
		b = vf.Binary(bs, false)
	case 2:
		b = vf.BinaryFromData(bytes.NewReader(bs))
	case 3:
		b = vf.BinaryFromEncoded(string(letters(3)), "%r")
		bs = b.Copy(false).GoBytes()
	default:
		b = vf.Value(bs).(dgo.Binary)
	}
	want := string(bs)
	var c dgo.Binary
	frozen := false
	switch nd.Choice(5) {
	case 0:
		c = b.Copy(false)
	case 1:
		c, frozen = b.Copy(true), true
	case 2:
		c, frozen = b.FrozenCopy().(dgo.Binary), true
	case 3:
		c = b.ThawedCopy().(dgo.Binary)
	default:
		c = b.Copy(true).Copy(false)
	}
	nd.Reach("binary")
	nd.Assert(string(c.GoBytes()) == want, "the copy has the bytes of the original")
	nd.Assert(c.Frozen() == frozen, "the copy has the frozen state asked for")
	c.GoBytes()[1] ^= 1
	nd.Assert(string(b.GoBytes()) == want, "changing the bytes of the copy does not change the original")
	if !b.Frozen() {
		b.GoBytes()[1] ^= 2
		x := []byte(want)
		x[1] ^= 1
		if !frozen {
			nd.Assert(string(c.GoBytes()) == string(x), "changing the bytes of the original does not change the copy")
		} else {
			nd.Assert(string(c.GoBytes()) == want, "a frozen binary gives away copies of its bytes")
		}
	}
}
