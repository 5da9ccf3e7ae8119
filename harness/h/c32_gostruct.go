package h

import (
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// C32Base is embedded in c32Node: its field X is promoted but it is no field of c32Node.
type C32Base struct {
	X int
}

type c32Node struct {
	hidden int
	I      int8
	S      string
	B      bool
	V      dgo.Value
	L      []int
	M      map[string]int
	P      *int64
	A      interface{}
}

type c32Emb struct {
	C32Base
	Name string
}

var c32Keys = []string{`I`, `S`, `B`, `V`, `L`, `M`, `P`, `A`}

const (
	c32Entry  = "the entries are the exported fields: "
	c32Write  = "a change shows in the struct and in the map: "
	c32Refuse = "what is no entry of a field is refused: "
	c32Equal  = "a struct map equals the map with the same associations: "
	c32Derive = "deriving a map leaves the struct as it is: "
	c32Frozen = "a frozen struct map never changes: "
	c32Thaw   = "copies are independent: "
)

// c32New is a struct with arbitrary content. The kind selects what the fields of reference type hold.
func c32New(k int) *c32Node {
	s := &c32Node{hidden: 1, I: nd.Int8(), S: ascii(1), B: nd.Bool(), A: int64(3)}
	switch k {
	case 0:
		s.A = nil
	case 1:
		s.V = vf.MutableValues(1, vf.MutableValues(2))
		s.L = []int{1, 2}
		s.M = map[string]int{`a`: 1}
		p := nd.Int64()
		s.P = &p
	default:
		s.V = vf.MutableMap(`a`, 1)
		s.L = []int{}
		s.M = map[string]int{}
		p := int64(7)
		s.P = &p
		s.A = []int{4}
	}
	return s
}

// c32Ref is what the map of s should contain, taken from the struct by Go code.
func c32Ref(s *c32Node) *refMap {
	r := &refMap{}
	for _, k := range c32Keys {
		r.ks = append(r.ks, vf.String(k))
	}
	l, m, p := vf.Value(nil), vf.Value(nil), vf.Value(nil)
	if s.L != nil {
		a := vf.MutableValues()
		for _, i := range s.L {
			a.Add(i)
		}
		l = a
	}
	if s.M != nil {
		h := vf.MutableMap()
		for _, k := range []string{`a`, `b`} {
			if i, ok := s.M[k]; ok {
				h.Put(k, i)
			}
		}
		m = h
	}
	if s.P != nil {
		p = vf.Integer(*s.P)
	}
	v := s.V
	if v == nil {
		v = vf.Nil
	}
	a := vf.Value(nil)
	switch x := s.A.(type) {
	case int64:
		a = vf.Integer(x)
	case []int:
		a = vf.Values(x[0])
	}
	r.vs = []dgo.Value{vf.Integer(int64(s.I)), vf.String(s.S), vf.Boolean(s.B), v, l, m, p, a}
	return r
}

// C32_Entries: a struct with 8 exported fields (int8, string, bool, value, slice, map, pointer, interface) holding arbitrary scalars and one of 3 sets of references, and an unexported field: every read operation shows the exported fields in the order they are declared, and nothing else.
func C32_Entries() {
	s := c32New(nd.Choice(3))
	var m dgo.Map
	switch nd.Choice(4) {
	case 0:
		m = vf.Map(s)
	case 1:
		m = vf.Map(*s)
	case 2:
		m = vf.Map(vf.Value(s))
	default:
		m = vf.Map(s).FrozenCopy().(dgo.Map)
	}
	r := c32Ref(s)
	nd.Reach("entries")
	nd.Assert(m.Len() == len(r.ks), c32Entry+"Len")
	i := 0
	m.EachEntry(func(e dgo.MapEntry) {
		nd.Assert(i < len(r.ks) && e.Key().Equals(r.ks[i]) && e.Value().Equals(r.vs[i]), c32Entry+"EachEntry")
		i++
	})
	nd.Assert(i == len(r.ks), c32Entry+"EachEntry")
	i = 0
	m.EachKey(func(k dgo.Value) { nd.Assert(k.Equals(r.ks[i]), c32Entry+"EachKey"); i++ })
	nd.Assert(i == len(r.ks), c32Entry+"EachKey")
	i = 0
	m.EachValue(func(v dgo.Value) { nd.Assert(v.Equals(r.vs[i]), c32Entry+"EachValue"); i++ })
	nd.Assert(i == len(r.ks), c32Entry+"EachValue")
	nd.Assert(m.Keys().Len() == len(r.ks) && m.Values().Len() == len(r.ks), c32Entry+"Keys and Values")
	at := nd.Choice(len(r.ks))
	k := c32Keys[at]
	nd.Assert(m.Keys().Get(at).Equals(k) && m.Values().Get(at).Equals(r.vs[at]), c32Entry+"Keys and Values")
	nd.Assert(m.Get(k).Equals(r.vs[at]) && m.Get(vf.String(k)).Equals(r.vs[at]), c32Entry+"Get")
	nd.Assert(m.ContainsKey(k) && m.ContainsKey(vf.String(k)), c32Entry+"ContainsKey")
	f := m.Find(func(e dgo.MapEntry) bool { return e.Key().Equals(k) })
	nd.Assert(f != nil && f.Value().Equals(r.vs[at]), c32Entry+"Find")
	nd.Assert(m.AnyKey(func(v dgo.Value) bool { return v.Equals(k) }), c32Entry+"AnyKey")
	nd.Assert(!m.AllKeys(func(v dgo.Value) bool { return !v.Equals(k) }), c32Entry+"AllKeys")
	nd.Assert(m.Any(func(e dgo.MapEntry) bool { return e.Key().Equals(k) }), c32Entry+"Any")
	nd.Assert(!m.All(func(e dgo.MapEntry) bool { return !e.Key().Equals(k) }), c32Entry+"All")
	n := 0
	m.AnyValue(func(v dgo.Value) bool {
		nd.Assert(v.Equals(r.vs[n]), c32Entry+"AnyValue")
		n++
		return n > at
	})
	nd.Assert(n == at+1, c32Entry+"AnyValue stops at the first match")
	n = 0
	m.AllValues(func(v dgo.Value) bool { n++; return n <= at })
	nd.Assert(n == at+1, c32Entry+"AllValues stops at the first that does not match")
	for _, x := range []string{`hidden`, `X`, `x`, ``, `i`, `c32Node`} {
		nd.Assert(m.Get(x) == nil && !m.ContainsKey(x), c32Entry+"other names")
	}
	nd.Assert(m.Get(1) == nil && !m.ContainsKey(vf.Nil) && m.StringKeys(), c32Entry+"only strings are keys")

	e := vf.Map(&c32Emb{C32Base{3}, `n`})
	nd.Assert(e.Len() == 2 && e.Get(`X`) == nil && !e.ContainsKey(`X`) && e.Get(`Name`).Equals(`n`), c32Entry+"promoted fields are no entries")
	nd.Assert(panics(func() { e.Put(`X`, 1) }), c32Refuse+"promoted field")
}

// c32Step changes one field, through the map or directly.
func c32Step(s *c32Node, m dgo.Map) {
	i, c := nd.Int8(), nd.Bool()
	k := vf.Value(c32Keys[nd.Choice(len(c32Keys))])
	old := m.Get(k)
	var put interface{}
	viaMap := nd.Choice(2) == 0
	switch k.String() {
	case `I`:
		if put = i; !viaMap {
			s.I = i
		}
	case `S`:
		if put = `zz`; !viaMap {
			s.S = `zz`
		}
	case `B`:
		if put = c; !viaMap {
			s.B = c
		}
	case `V`:
		put = vf.MutableValues(5)
		if nd.Choice(2) == 0 {
			put = nil
		}
		if !viaMap {
			s.V = vf.Value(put)
		}
	case `L`:
		if put = vf.Values(8, 9); !viaMap {
			if s.L != nil && len(s.L) > 0 {
				s.L[0] = 9
				put = nil
				nd.Assert(m.Get(`L`).(dgo.Array).Get(0).Equals(9), c32Write+"element of slice")
				break
			}
			s.L = []int{8, 9}
		}
	case `M`:
		if put = vf.Map(`a`, 5); !viaMap {
			if s.M != nil {
				s.M[`b`] = 7
				put = nil
				nd.Assert(m.Get(`M`).(dgo.Map).Get(`b`).Equals(7), c32Write+"entry of map")
				break
			}
			s.M = map[string]int{`a`: 5}
		}
	case `P`:
		if put = int64(i); !viaMap {
			p := int64(i)
			s.P = &p
		}
	default:
		if put = int64(i); !viaMap {
			s.A = int64(i)
		}
	}
	if viaMap {
		if nd.Choice(2) == 0 {
			nd.Assert(m.Put(k, put).Equals(old), c32Write+"Put returns the old value")
		} else {
			m.PutAll(vf.Map(k, put))
		}
	}
	if put != nil {
		nd.Assert(m.Get(k).Equals(put), c32Write+"the new value")
	}
}

func c32History(n int) {
	s := c32New(nd.Choice(3))
	m := vf.Map(s)
	for i := 0; i < n; i++ {
		c32Step(s, m)
		checkMap(m, c32Ref(s))
	}
	nd.Assert(m.(dgo.Struct).GoStruct() == interface{}(s) && s.hidden == 1, c32Write+"GoStruct is the struct itself")
	nd.Reach("history")
}

// C32_Write: one change of any field, made through the map (Put, PutAll) or in the Go struct, with arbitrary int8 and bool values: the map always shows what the struct holds.
func C32_Write() { c32History(1) }

// C32T_History: 2 such changes.
func C32T_History() { c32History(2) }

// C32_Refuse: Put of a name that is no exported field, of a value that the field can't hold, and all removals panic and change nothing.
func C32_Refuse() {
	s := c32New(1)
	before := *s
	m := vf.Map(s)
	r := c32Ref(s)
	var refused bool
	switch nd.Choice(12) {
	case 0:
		refused = panics(func() { m.Put(`hidden`, 2) })
	case 1:
		refused = panics(func() { m.Put(`Other`, 2) })
	case 2:
		refused = panics(func() { m.Put(3, 2) })
	case 3:
		i := nd.Int64()
		nd.Assume(nd.Or(nd.And(i > 127, i < 227), nd.And(i < -128, i > -228)))
		refused = panics(func() { m.Put(`I`, i) })
	case 4:
		refused = panics(func() { m.Put(`I`, `x`) })
	case 5:
		refused = panics(func() { m.Put(`S`, 3) })
	case 6:
		refused = panics(func() { m.Put(`B`, `true`) })
	case 7:
		refused = panics(func() { m.Put(`L`, vf.Values(`x`)) })
	case 8:
		refused = panics(func() { m.Put(`M`, vf.Map(`a`, `x`)) })
	case 9:
		refused = panics(func() { m.Remove(`I`) })
	case 10:
		refused = panics(func() { m.RemoveAll(vf.Values(`I`)) })
	default:
		refused = panics(func() { m.PutAll(vf.Map(`other`, 1)) })
	}
	nd.Reach("refuse")
	nd.Assert(refused, c32Refuse+"panics")
	nd.Assert(s.hidden == before.hidden && s.I == before.I && s.S == before.S && s.P == before.P, c32Refuse+"nothing is changed")
	checkMap(m, r)
}

// C32_Equal: a struct with arbitrary int8, string and bool fields against an ordinary map and another struct map, each field taken from it or arbitrary: equal both ways iff all associations are equal, and equal ones have equal hash codes.
func C32_Equal() {
	s := c32New(nd.Choice(3))
	m := vf.Map(s)
	r := c32Ref(s)
	t := *s
	switch nd.Choice(4) {
	case 0:
		t.I = nd.Int8()
	case 1:
		t.S = ascii(1)
	case 2:
		t.B = nd.Bool()
	default:
		t.L = []int{nd.Choice(2), 2}
	}
	q := c32Ref(&t)
	eq := true
	for i := range r.vs {
		eq = nd.And(eq, r.vs[i].Equals(q.vs[i]))
	}
	var o dgo.Map
	switch nd.Choice(4) {
	case 0:
		o = vf.Map(&t)
	case 1:
		o = vf.Map(t).FrozenCopy().(dgo.Map)
	case 2:
		h := vf.MutableMap()
		for i := range q.ks {
			h.Put(q.ks[i], q.vs[i])
		}
		o = h
	default:
		h := vf.MutableMap()
		for i := range q.ks {
			j := len(q.ks) - 1 - i
			h.Put(q.ks[j], q.vs[j])
		}
		if nd.Choice(2) == 0 {
			h.Remove(`V`)
			eq = false
		}
		o = h.FrozenCopy().(dgo.Map)
	}
	nd.Assert(m.Equals(o) == eq, c32Equal+"Equals")
	nd.Assert(o.Equals(m) == eq, c32Equal+"symmetric")
	if eq {
		nd.Reach("equal")
		nd.Assert(m.HashCode() == o.HashCode(), c32Equal+"hash codes")
	} else {
		nd.Reach("unequal")
	}
	nd.Assert(m.Type().Instance(m), c32Equal+"it is an instance of its type")
	nd.Assert(m.Type().Instance(o) == eq, c32Equal+"type")
}

// C32_Derive: With, Without, WithoutAll, Merge, Map and toMap style constructors give the map that the associations of the struct give; neither the struct nor, when the struct map is frozen, the result can be changed.
func C32_Derive() {
	s := c32New(nd.Choice(3))
	before := *s
	m := vf.Map(s)
	frozen := nd.Choice(2) == 0
	if frozen {
		m = m.FrozenCopy().(dgo.Map)
	}
	r := c32Ref(s)
	q := r.clone()
	var d dgo.Map
	switch nd.Choice(7) {
	case 0:
		k, i := vf.String(c32Keys[nd.Choice(len(c32Keys))]), vf.Integer(nd.Int64())
		d = m.With(k, i)
		q.put(k, i)
	case 1:
		v := vf.MutableValues(1)
		d = m.With(7, v)
		q.put(vf.Integer(7), v)
	case 2:
		k := vf.String(append(c32Keys, `hidden`, `X`)[nd.Choice(len(c32Keys)+2)])
		d = m.Without(k)
		q.remove(k)
	case 3:
		d = m.WithoutAll(vf.Values(`I`, `hidden`, 3, `A`))
		q.remove(vf.String(`I`))
		q.remove(vf.String(`A`))
	case 4:
		v := vf.MutableValues(1)
		d = m.Merge(vf.MutableMap(`S`, v, `new`, 1))
		q.put(vf.String(`S`), v)
		q.put(vf.String(`new`), vf.Integer(1))
	case 5:
		d = m.Map(func(e dgo.MapEntry) interface{} { return vf.MutableValues(e.Key()) })
		for i := range q.vs {
			q.vs[i] = vf.Values(q.ks[i])
		}
	default:
		d = vf.Map(`I`, 1, `x`, 2).Merge(m)
		q = &refMap{}
		q.put(vf.String(`I`), vf.Integer(1))
		q.put(vf.String(`x`), vf.Integer(2))
		for i := range r.ks {
			q.put(r.ks[i], r.vs[i])
		}
		frozen = true
	}
	nd.Reach("derive")
	checkMap(d, q)
	if frozen {
		nd.Assert(deepFrozen(d), c32Derive+"derived from a frozen map it is frozen")
	}
	nd.Assert(s.I == before.I && s.S == before.S && s.B == before.B && s.P == before.P, c32Derive+"struct")
	checkMap(m, r)
	if !d.Frozen() && d != m {
		d.Put(`I`, 1)
		d.Put(`more`, 1)
		checkMap(m, r)
		nd.Assert(s.I == before.I, c32Derive+"struct")
	}
}

// c32Smash changes everything that can be reached from the struct with Go code.
func c32Smash(s *c32Node) {
	s.I++
	s.S += `+`
	s.B = !s.B
	switch v := s.V.(type) {
	case dgo.Array:
		if !v.Frozen() {
			if e, ok := v.Get(1).(dgo.Array); ok && !e.Frozen() {
				e.Add(9)
			}
			v.Add(9)
		}
	case dgo.Map:
		if !v.Frozen() {
			v.Put(`a`, 9)
		}
	}
	if len(s.L) > 0 {
		s.L[0] += 5
	}
	if s.M != nil {
		s.M[`a`] = 6
		s.M[`b`] = 6
	}
	if s.P != nil {
		*s.P++
	}
	if a, ok := s.A.([]int); ok {
		a[0]++
	} else {
		s.A = 66
	}
}

// C32_Frozen: a struct map frozen in one of 4 ways; then everything that can be reached from the original struct, GoStruct, and the Go structs it is assigned to is changed, and every operation that changes is tried: it is what it was when it was frozen.
func C32_Frozen() {
	s := c32New(nd.Choice(3))
	m := vf.Map(s)
	p := c32Ref(s)
	for i := range p.vs {
		if f, ok := p.vs[i].(dgo.Freezable); ok {
			p.vs[i] = f.FrozenCopy()
		}
	}
	var f dgo.Map
	switch nd.Choice(5) {
	case 0:
		m.Freeze()
		f = m
	case 1:
		f = m.FrozenCopy().(dgo.Map)
	case 2:
		f = m.Copy(true)
	case 3:
		f = vf.Values(m).Get(0).(dgo.Map)
	default:
		f = vf.MutableValues(m).FrozenCopy().(dgo.Array).Get(0).(dgo.Map)
	}
	nd.Reach("frozen")
	nd.Assert(f.Frozen(), c32Frozen+"Frozen")
	f.EachValue(func(v dgo.Value) { nd.Assert(deepFrozen(v), c32Frozen+"values are frozen") })
	checkMap(f, p)
	switch nd.Choice(6) {
	case 0:
		c32Smash(s)
	case 1:
		c32Smash(f.(dgo.Struct).GoStruct().(*c32Node))
	case 2:
		var t c32Node
		vf.FromValue(f, &t)
		nd.Assert(t.I == s.I && t.S == s.S && t.hidden == s.hidden, c32Frozen+"it can be assigned to a struct")
		c32Smash(&t)
	case 3:
		var t *c32Node
		vf.FromValue(f, &t)
		nd.Assert(t != s && t.I == s.I, c32Frozen+"it can be assigned to a pointer")
		c32Smash(t)
	case 4:
		var t interface{}
		vf.FromValue(f, &t)
		if t, ok := t.(*c32Node); ok {
			c32Smash(t)
		}
		if t, ok := t.(c32Node); ok {
			c32Smash(&t)
		}
	default:
		nd.Assert(panics(func() { f.Put(`I`, 1) }), c32Frozen+"Put panics")
		nd.Assert(panics(func() { f.PutAll(vf.Map(`B`, true)) }), c32Frozen+"PutAll panics")
		nd.Assert(panics(func() { f.Remove(`I`) }), c32Frozen+"Remove panics")
		nd.Assert(panics(func() { f.RemoveAll(vf.Values(`I`)) }), c32Frozen+"RemoveAll panics")
	}
	checkMap(f, p)
	nd.Assert(f.FrozenCopy() == dgo.Value(f) && f.Copy(true) == f, c32Frozen+"its frozen copy is itself")
}

// C32_Thawed: an unfrozen copy of a struct map, frozen or not, is a struct map of its own with the same content: changing everything that can be reached from either leaves the other as it is.
func C32_Thawed() {
	s := c32New(nd.Choice(3))
	m := vf.Map(s)
	if nd.Choice(2) == 0 {
		m = m.FrozenCopy().(dgo.Map)
	}
	var c dgo.Map
	switch nd.Choice(3) {
	case 0:
		c = m.Copy(false)
	case 1:
		c = m.ThawedCopy().(dgo.Map)
	default:
		c = vf.MutableMap(m)
	}
	nd.Reach("thawed")
	nd.Assert(!c.Frozen(), c32Thaw+"not frozen")
	t := c.(dgo.Struct).GoStruct().(*c32Node)
	nd.Assert(t != s && reflect.TypeOf(t) == reflect.TypeOf(s), c32Thaw+"of the same Go type")
	p := c32Ref(s)
	checkMap(c, p)
	for i := range p.vs {
		if f, ok := p.vs[i].(dgo.Freezable); ok {
			p.vs[i] = f.FrozenCopy()
		}
	}
	switch nd.Choice(3) {
	case 0:
		c32Smash(s)
		checkMap(c, p)
	case 1:
		c32Smash(t)
		checkMap(m, p)
	default:
		c.Put(`I`, 1)
		c.Put(`P`, 4)
		c.Put(`V`, 4)
		c.Put(`L`, vf.Values(4))
		checkMap(m, p)
	}
}
