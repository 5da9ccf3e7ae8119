package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// tree returns an arbitrary mutable value that nests containers up to depth d. The outermost
// container has at most n children, the others at most 1.
func tree(d, n int) dgo.Value {
	k := nd.Choice(6)
	if d == 0 && k < 4 {
		k = 4 + k%2
	}
	switch k {
	case 0:
		a := vf.MutableValues()
		for i := nd.Choice(n + 1); i > 0; i-- {
			a.Add(tree(d-1, 1))
		}
		return a
	case 1:
		m := vf.MutableMap()
		for i := nd.Choice(n + 1); i > 0; i-- {
			m.Put(i, tree(d-1, 1))
		}
		return m
	case 2:
		return vf.Sensitive(tree(d-1, 1))
	case 3:
		return vf.MapEntry(nd.Int64(), tree(d-1, 1))
	case 4:
		return vf.Binary([]byte{nd.Byte()}, false)
	default:
		return vf.Integer(nd.Int64())
	}
}

// snap is a picture of the content of a value that shares nothing with it.
type snap struct {
	leaf  dgo.Value
	bytes []byte
	kids  []*snap
}

func picture(v dgo.Value) *snap {
	s := &snap{}
	switch v := v.(type) {
	case dgo.Array:
		for i := 0; i < v.Len(); i++ {
			s.kids = append(s.kids, picture(v.Get(i)))
		}
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { s.kids = append(s.kids, picture(e.Key()), picture(e.Value())) })
	case dgo.MapEntry:
		s.kids = []*snap{picture(v.Key()), picture(v.Value())}
	case dgo.Sensitive:
		s.kids = []*snap{picture(v.Unwrap())}
	case dgo.Binary:
		s.bytes = append([]byte{}, v.GoBytes()...)
	default:
		s.leaf = v
	}
	return s
}

func samePicture(a, b *snap) bool {
	if len(a.kids) != len(b.kids) || (a.leaf == nil) != (b.leaf == nil) || string(a.bytes) != string(b.bytes) {
		return false
	}
	if a.leaf != nil && !a.leaf.Equals(b.leaf) {
		return false
	}
	for i := range a.kids {
		if !samePicture(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

// deepFrozen reports whether v and everything it contains is frozen.
func deepFrozen(v dgo.Value) bool {
	if f, ok := v.(dgo.Freezable); ok && !f.Frozen() {
		return false
	}
	r := true
	switch v := v.(type) {
	case dgo.Array:
		for i := 0; i < v.Len(); i++ {
			r = r && deepFrozen(v.Get(i))
		}
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { r = r && e.Frozen() && deepFrozen(e.Key()) && deepFrozen(e.Value()) })
	case dgo.MapEntry:
		r = deepFrozen(v.Key()) && deepFrozen(v.Value())
	case dgo.Sensitive:
		r = deepFrozen(v.Unwrap())
	}
	return r
}

// mutate attempts one arbitrary modification of v. Reports whether it was refused.
func mutate(v dgo.Value) bool {
	switch v := v.(type) {
	case dgo.Array:
		x := nd.Int64()
		return panics(func() {
			switch nd.Choice(8) {
			case 0:
				v.Add(x)
			case 1:
				v.AddAll(vf.Values(x))
			case 2:
				v.AddValues(x, x)
			case 3:
				v.Insert(0, x)
			case 4:
				v.Remove(0)
			case 5:
				if v.Len() > 0 {
					v.RemoveValue(v.Get(v.Len() - 1))
				} else {
					v.RemoveValue(x)
				}
			case 6:
				v.Set(0, x)
			default:
				v.Pop()
			}
		})
	case dgo.Map:
		x := nd.Int64()
		return panics(func() {
			switch nd.Choice(7) {
			case 0:
				v.Put(x, x)
			case 1:
				v.Put(1, x)
			case 2:
				v.PutAll(vf.Map(x, x))
			case 3:
				v.Remove(1)
			case 4:
				v.Remove(x)
			case 5:
				v.RemoveAll(vf.Values(1))
			default:
				v.RemoveAll(vf.Values())
			}
		})
	}
	return true
}

// part returns v or an arbitrary container inside of v.
func part(v dgo.Value) dgo.Value {
	var parts []dgo.Value
	var walk func(v dgo.Value)
	walk = func(v dgo.Value) {
		switch v := v.(type) {
		case dgo.Array:
			parts = append(parts, v)
			v.Each(walk)
		case dgo.Map:
			parts = append(parts, v)
			v.EachEntry(func(e dgo.MapEntry) { walk(e.Key()); walk(e.Value()) })
		case dgo.MapEntry:
			walk(v.Key())
			walk(v.Value())
		case dgo.Sensitive:
			walk(v.Unwrap())
		}
	}
	walk(v)
	if len(parts) == 0 {
		return nil
	}
	return parts[nd.Choice(len(parts))]
}

// anyTree returns a value nested 2 deep with 2 children or (thorough only) 4 deep with 1 child.
func anyTree() dgo.Value {
	if nd.Thorough() && nd.Choice(2) == 0 {
		return tree(4, 1)
	}
	return tree(2, 2)
}

// Bounds: values nested 2 deep (thorough also 4 deep) with up to 2 children in the outermost array, map, entry, sensitive
// or binary. Frozen in place or by FrozenCopy, or by adding to an array or map that is frozen.
func C08_FreezeIsDeep() {
	k := nd.Choice(5)
	var v dgo.Value
	if k == 4 {
		v = tree(1, 2)
	} else {
		v = anyTree()
	}
	p := picture(v)
	nd.Reach("frozen")
	switch k {
	case 0:
		if f, ok := v.(dgo.Freezable); ok {
			f.Freeze()
		}
		nd.Assert(deepFrozen(v), "Freeze freezes everything that is contained")
		nd.Assert(samePicture(p, picture(v)), "Freeze keeps the content")
		if f, ok := v.(dgo.Freezable); ok {
			nd.Assert(f.FrozenCopy() == v, "FrozenCopy of a frozen value is the value")
		}
	case 1:
		c := v
		if f, ok := v.(dgo.Freezable); ok {
			c = f.FrozenCopy()
		}
		nd.Assert(deepFrozen(c), "FrozenCopy is frozen throughout")
		nd.Assert(samePicture(p, picture(c)) && samePicture(p, picture(v)), "FrozenCopy keeps the content")
	case 2:
		a := vf.Values(v)
		nd.Assert(deepFrozen(a) && samePicture(p, picture(a.Get(0))), "a frozen array freezes its elements")
	case 3:
		m := vf.Map(1, v)
		nd.Assert(deepFrozen(m) && samePicture(p, picture(m.Get(1))), "a frozen map freezes its values")
	default:
		m := vf.MutableMap()
		m.Put(v, 1)
		m.EachKey(func(k dgo.Value) {
			nd.Assert(deepFrozen(k) && samePicture(p, picture(k)), "the keys of a mutable map are frozen")
		})
	}
}

// Bounds: as FreezeIsDeep, followed by one arbitrary mutator call on any container inside.
func C08_MutatorsRefuse() {
	v := anyTree()
	f, ok := v.(dgo.Freezable)
	nd.Assume(ok)
	if nd.Choice(2) == 0 {
		f.Freeze()
	} else {
		v = f.FrozenCopy()
	}
	p := picture(v)
	c := part(v)
	if c == nil {
		return
	}
	nd.Reach("mutator")
	nd.Assert(mutate(c), "a mutator of a frozen value panics")
	nd.Assert(samePicture(p, picture(v)), "a refused mutator changes nothing")
}

// Bounds: a mutable value nested 2 deep is used as argument of every operation that derives a
// value from a frozen array of 2 elements; everything returned is frozen throughout.
func C08_DerivedFromFrozenArray() {
	a := vf.Values(1, vf.Values(2))
	p := picture(a)
	v := tree(1, 1)
	all := vf.MutableValues(v)
	var r dgo.Value
	nd.Reach("derived")
	switch nd.Choice(16) {
	case 0:
		r = a.With(v)
	case 1:
		r = a.WithAll(all)
	case 2:
		r = a.WithValues(v, v)
	case 3:
		r = a.Map(func(dgo.Value) interface{} { return v })
	case 4:
		r = a.Select(func(dgo.Value) bool { return true })
	case 5:
		r = a.Reject(func(dgo.Value) bool { return false })
	case 6:
		r = a.Slice(0, 1)
	case 7:
		r = a.Slice(0, 2)
	case 8:
		r = a.Flatten()
	case 9:
		r = a.Unique()
	case 10:
		r = vf.Values(2, 1).Sort()
	case 11:
		r = a.ToMap()
	case 12:
		r, _ = vf.Values(vf.Values(1, v)).ToMapFromEntries()
	case 13:
		r = a.Copy(true)
	case 14:
		r = a.WithAll(vf.MutableMap())
	default:
		m := vf.MutableMap()
		m.Put(1, v)
		r = a.WithAll(m)
	}
	nd.Assert(deepFrozen(r), "everything derived from a frozen array is frozen")
	nd.Assert(samePicture(p, picture(a)), "deriving does not change the receiver")
	s := a.GoSlice()
	s[0] = vf.True
	nd.Assert(samePicture(p, picture(a)), "GoSlice of a frozen array is a copy")
	b := vf.Binary([]byte{1, 2}, true)
	b.GoBytes()[0] = nd.Byte()
	nd.Assert(b.Equals([]byte{1, 2}), "GoBytes of a frozen binary is a copy")
}

// Bounds: as DerivedFromFrozenArray for maps of 0 to 2 associations.
func C08_DerivedFromFrozenMap() {
	m := vf.MutableMap()
	for i := nd.Choice(3); i > 0; i-- {
		m.Put(i, vf.Values(i))
	}
	m.Freeze()
	p := picture(m)
	v := tree(1, 1)
	o := vf.MutableMap()
	o.Put(2, v)
	var r dgo.Value
	nd.Reach("derived")
	switch nd.Choice(9) {
	case 0:
		r = m.With(3, v)
	case 1:
		r = m.With(1, v)
	case 2:
		r = m.Merge(o)
	case 3:
		r = m.Map(func(dgo.MapEntry) interface{} { return v })
	case 4:
		r = m.Without(1)
	case 5:
		r = m.WithoutAll(vf.Values(1, 2))
	case 6:
		r = m.Keys()
	case 7:
		r = m.Values()
	default:
		r = m.Copy(true)
	}
	nd.Assert(deepFrozen(r), "everything derived from a frozen map is frozen")
	nd.Assert(samePicture(p, picture(m)), "deriving does not change the receiver")
}
