package h

import (
	"math"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// ty is the reference model of a type: what it was asked to be. has is the reference meaning.
type ty struct {
	k        string
	lo, hi   int64
	flo, fhi float64
	incl     bool
	s        string
	bs       []byte
	tm       time.Time
	sub      []*ty
	req      []bool
	add      bool
	t        dgo.Type
}

func swap(a, b int64) (int64, int64) {
	if b < a {
		return b, a
	}
	return a, b
}

func size(n int, lo, hi int64) bool { return nd.And(lo <= int64(n), int64(n) <= hi) }

// has reports whether v belongs to the type.
func (t *ty) has(v dgo.Value) bool {
	switch t.k {
	case "any":
		return true
	case "int":
		_, ok := v.(dgo.Integer)
		return ok
	case "intrange":
		i, ok := v.(dgo.Integer)
		if !ok {
			return false
		}
		x := i.GoInt()
		return nd.And(t.lo <= x, nd.Or(nd.And(t.incl, x <= t.hi), x < t.hi))
	case "float":
		_, ok := v.(dgo.Float)
		return ok
	case "floatrange":
		f, ok := v.(dgo.Float)
		if !ok {
			return false
		}
		x := f.GoFloat()
		return nd.And(t.flo <= x, nd.Or(nd.And(t.incl, x <= t.fhi), x < t.fhi))
	case "string":
		_, ok := v.(dgo.String)
		return ok
	case "sized":
		s, ok := v.(dgo.String)
		return ok && size(len(s.GoString()), t.lo, t.hi)
	case "string=":
		s, ok := v.(dgo.String)
		return ok && s.GoString() == t.s
	case "ci":
		s, ok := v.(dgo.String)
		return ok && strings.ToLower(s.GoString()) == t.s
	case "bool":
		_, ok := v.(dgo.Boolean)
		return ok
	case "bool=":
		b, ok := v.(dgo.Boolean)
		return ok && b.GoBool() == t.incl
	case "nil":
		return v == vf.Nil
	case "binary":
		b, ok := v.(dgo.Binary)
		return ok && size(len(b.GoBytes()), t.lo, t.hi)
	case "binary=":
		b, ok := v.(dgo.Binary)
		return ok && string(b.GoBytes()) == string(t.bs)
	case "time":
		_, ok := v.(dgo.Time)
		return ok
	case "time=":
		x, ok := v.(dgo.Time)
		return ok && x.GoTime().Equal(t.tm)
	case "array":
		a, ok := v.(dgo.Array)
		if !ok || !size(a.Len(), t.lo, t.hi) {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !t.sub[0].has(a.Get(i)) {
				return false
			}
		}
		return true
	case "tuple", "variadic":
		a, ok := v.(dgo.Array)
		n := len(t.sub)
		if t.k == "variadic" {
			n--
		}
		if !ok || a.Len() < n || (t.k == "tuple" && a.Len() > n) {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			s := t.sub[len(t.sub)-1]
			if i < n {
				s = t.sub[i]
			}
			if !s.has(a.Get(i)) {
				return false
			}
		}
		return true
	case "map":
		m, ok := v.(dgo.Map)
		if !ok || !size(m.Len(), t.lo, t.hi) {
			return false
		}
		ks, vs := m.Keys(), m.Values()
		for i := 0; i < m.Len(); i++ {
			if !t.sub[0].has(ks.Get(i)) || !t.sub[1].has(vs.Get(i)) {
				return false
			}
		}
		return true
	case "struct":
		m, ok := v.(dgo.Map)
		if !ok {
			return false
		}
		known := 0
		for i, s := range t.sub {
			k := string(rune('a' + i))
			if x := m.Get(k); x != nil {
				known++
				if !s.has(x) {
					return false
				}
			} else if t.req[i] {
				return false
			}
		}
		return t.add || known == m.Len()
	case "allof":
		for _, s := range t.sub {
			if !s.has(v) {
				return false
			}
		}
		return true
	case "anyof":
		for _, s := range t.sub {
			if s.has(v) {
				return true
			}
		}
		return false
	case "oneof":
		n := 0
		for _, s := range t.sub {
			if s.has(v) {
				n++
			}
		}
		return n == 1
	case "not":
		return !t.sub[0].has(v)
	case "sensitive":
		s, ok := v.(dgo.Sensitive)
		return ok && t.sub[0].has(s.Unwrap())
	}
	panic("has " + t.k)
}

// flat types ------------------------------------------------------------------------------

func tAny() *ty    { return &ty{k: "any", t: typ.Any} }
func tInt() *ty    { return &ty{k: "int", t: typ.Integer} }
func tFloat() *ty  { return &ty{k: "float", t: typ.Float} }
func tString() *ty { return &ty{k: "string", t: typ.String} }

// tIntRange is an arbitrary integer range with bounds in either order.
func tIntRange() *ty {
	a, b := nd.Int64(), nd.Int64()
	incl := nd.Choice(2) == 0
	return intRangeOf(a, b, incl)
}

func intRangeOf(a, b int64, incl bool) *ty {
	nd.Assume(nd.Or(incl, a != b))
	t := tf.Integer(a, b, incl)
	lo, hi := swap(a, b)
	return &ty{k: "intrange", lo: lo, hi: hi, incl: incl, t: t}
}

func tIntIs(i int64) *ty {
	return &ty{k: "intrange", lo: i, hi: i, incl: true, t: vf.Integer(i).Type()}
}

// tFloatRange is an arbitrary float range over finite bounds.
func tFloatRange() *ty {
	a, b := number(), number()
	incl := nd.Choice(2) == 0
	nd.Assume(nd.Or(incl, a != b))
	t := tf.Float(a, b, incl)
	lo, hi := a, b
	if b < a {
		lo, hi = b, a
	}
	if incl && lo == -math.MaxFloat64 && hi == math.MaxFloat64 {
		return tFloat()
	}
	return &ty{k: "floatrange", flo: lo, fhi: hi, incl: incl, t: t}
}

func tFloatIs(f float64) *ty {
	return &ty{k: "floatrange", flo: f, fhi: f, incl: true, t: vf.Float(f).Type()}
}

// tSized is a string type with sizes -1..3 in either order, or without upper bound.
func tSized() *ty {
	a := between(-1, 3)
	if nd.Choice(2) == 0 {
		lo := a
		if lo < 0 {
			lo = 0
		}
		return &ty{k: "sized", lo: lo, hi: math.MaxInt64, t: tf.String(a)}
	}
	b := between(-1, 3)
	t := tf.String(a, b)
	if a < 0 {
		a = 0
	}
	if b < 0 {
		b = 0
	}
	lo, hi := swap(a, b)
	return &ty{k: "sized", lo: lo, hi: hi, t: t}
}

func tStringIs(s string) *ty { return &ty{k: "string=", s: s, t: vf.String(s).Type()} }
func tCi(s string) *ty       { return &ty{k: "ci", s: strings.ToLower(s), t: tf.CiString(s)} }

const nFlat = 17

// flatTy is an arbitrary flat type of kind k.
func flatTy(k int) *ty {
	switch k {
	case 0:
		return tAny()
	case 1:
		return tInt()
	case 2:
		return tIntRange()
	case 3:
		return tIntIs(nd.Int64())
	case 4:
		return tFloat()
	case 5:
		return tFloatRange()
	case 6:
		return tFloatIs(number())
	case 7:
		return tString()
	case 8:
		return tSized()
	case 9:
		return tStringIs(asciiUpTo(1))
	case 10:
		return tCi(letterOrDigit())
	case 11:
		return &ty{k: "bool", t: typ.Boolean}
	case 12:
		if nd.Choice(2) == 0 {
			return &ty{k: "bool=", incl: true, t: typ.True}
		}
		return &ty{k: "bool=", t: typ.False}
	case 13:
		return &ty{k: "nil", t: typ.Nil}
	case 14:
		if nd.Choice(2) == 0 {
			return &ty{k: "binary", hi: math.MaxInt64, t: typ.Binary}
		}
		a, b := between(0, 3), between(0, 3)
		t := tf.Binary(int(a), int(b))
		lo, hi := swap(a, b)
		return &ty{k: "binary", lo: lo, hi: hi, t: t}
	case 15:
		b := bytesN(nd.Choice(3))
		return &ty{k: "binary=", bs: b, t: vf.Binary(b, true).Type()}
	default:
		if nd.Choice(2) == 0 {
			return &ty{k: "time", t: typ.Time}
		}
		tm := time.Unix(nd.Int64(), between(0, 999999999))
		return &ty{k: "time=", tm: tm, t: vf.Time(tm).Type()}
	}
}

// letterOrDigit is one arbitrary byte out of a-z, A-Z, 0-9 without those that have a case
// folding outside of ASCII (k and s).
func letterOrDigit() string {
	c := nd.Byte()
	l := c | 0x20
	nd.Assume(nd.Or(nd.And(l >= 'a', l <= 'z'), nd.And(c >= '0', c <= '9')))
	nd.Assume(nd.And(l != 'k', l != 's'))
	return string([]byte{c})
}

// compound types --------------------------------------------------------------------------

func args(ts ...*ty) []interface{} {
	r := make([]interface{}, len(ts))
	for i, t := range ts {
		r[i] = t.t
	}
	return r
}

func tArray(e *ty, a, b int64) *ty {
	lo, hi := swap(a, b)
	return &ty{k: "array", lo: lo, hi: hi, sub: []*ty{e}, t: tf.Array(e.t, a, b)}
}
func tArrayOf(e *ty) *ty {
	return &ty{k: "array", hi: math.MaxInt64, sub: []*ty{e}, t: tf.Array(e.t)}
}
func tTuple(ts ...*ty) *ty { return &ty{k: "tuple", sub: ts, t: tf.Tuple(args(ts...)...)} }
func tVariadic(ts ...*ty) *ty {
	return &ty{k: "variadic", sub: ts, t: tf.VariadicTuple(args(ts...)...)}
}
func tMap(k, v *ty, a, b int64) *ty {
	lo, hi := swap(a, b)
	return &ty{k: "map", lo: lo, hi: hi, sub: []*ty{k, v}, t: tf.Map(k.t, v.t, a, b)}
}
func tMapOf(k, v *ty) *ty {
	return &ty{k: "map", hi: math.MaxInt64, sub: []*ty{k, v}, t: tf.Map(k.t, v.t)}
}

// tStruct has the keys "a", "b", ...
func tStruct(add bool, req []bool, ts ...*ty) *ty {
	es := make([]dgo.StructMapEntry, len(ts))
	for i, t := range ts {
		es[i] = tf.StructMapEntry(string(rune('a'+i)), t.t, req[i])
	}
	return &ty{k: "struct", sub: ts, req: req, add: add, t: tf.StructMap(add, es...)}
}
func tAllOf(ts ...*ty) *ty { return &ty{k: "allof", sub: ts, t: tf.AllOf(args(ts...)...)} }
func tAnyOf(ts ...*ty) *ty { return &ty{k: "anyof", sub: ts, t: tf.AnyOf(args(ts...)...)} }
func tOneOf(ts ...*ty) *ty { return &ty{k: "oneof", sub: ts, t: tf.OneOf(args(ts...)...)} }
func tNot(t *ty) *ty       { return &ty{k: "not", sub: []*ty{t}, t: tf.Not(t.t)} }
func tSensitive(t *ty) *ty { return &ty{k: "sensitive", sub: []*ty{t}, t: tf.Sensitive(t.t)} }

// exact types of collections
func tArrayIs(vs ...int64) *ty {
	ts := make([]*ty, len(vs))
	is := make([]interface{}, len(vs))
	for i, v := range vs {
		ts[i] = tIntIs(v)
		is[i] = v
	}
	return &ty{k: "tuple", sub: ts, t: vf.Values(is...).Type()}
}

// tMapIs is the exact type of {a: v0, b: v1, ...}.
func tMapIs(vs ...int64) *ty {
	ts := make([]*ty, len(vs))
	rq := make([]bool, len(vs))
	m := vf.MutableMap()
	for i, v := range vs {
		ts[i] = tIntIs(v)
		rq[i] = true
		m.Put(string(rune('a'+i)), v)
	}
	return &ty{k: "struct", sub: ts, req: rq, t: m.Type()}
}

const nColl = 13

// collTy is an arbitrary collection type of kind k over a and b.
func collTy(k int, a, b func() *ty) *ty {
	switch k {
	case 0:
		return tArrayOf(a())
	case 1:
		return tArray(a(), between(0, 3), between(0, 3))
	case 2:
		return tTuple(a())
	case 3:
		return tTuple(a(), b())
	case 4:
		return tVariadic(a())
	case 5:
		return tVariadic(a(), b())
	case 6:
		return tArrayIs(nd.Int64())
	case 7:
		return tArrayIs(nd.Int64(), nd.Int64())
	case 8:
		return tMapOf(tString(), a())
	case 9:
		return tMap(b(), a(), between(0, 3), between(0, 3))
	case 10:
		return tStruct(nd.Choice(2) == 0, []bool{nd.Choice(2) == 0}, a())
	case 11:
		return tStruct(nd.Choice(2) == 0, []bool{nd.Choice(2) == 0, nd.Choice(2) == 0}, a(), b())
	default:
		return tMapIs(nd.Int64())
	}
}

// collValue is an arbitrary collection of integers: arrays of 0 to 3, maps with the keys a, b, c.
func collValue(array bool) dgo.Value {
	if array {
		n := nd.Choice(4)
		a := vf.MutableValues()
		for i := 0; i < n; i++ {
			a.Add(elem())
		}
		return a
	}
	m := vf.MutableMap()
	for _, k := range []string{"a", "b", "c"} {
		if nd.Choice(2) == 0 {
			m.Put(k, elem())
		}
	}
	return m
}

func elem() dgo.Value {
	if nd.Choice(3) == 0 {
		return vf.String("x")
	}
	return vf.Integer(nd.Int64())
}

// rangeOrAny is an arbitrary inclusive range of integers (exact for equal bounds) or any.
func rangeOrAny() *ty {
	if nd.Choice(2) == 0 {
		return tAny()
	}
	return tRange()
}

// tRange is an arbitrary inclusive range of integers, exact when the bounds are equal.
func tRange() *ty {
	a, b := nd.Int64(), nd.Int64()
	nd.Assume(a <= b)
	return &ty{k: "intrange", lo: a, hi: b, incl: true, t: tf.Integer(a, b, true)}
}

// intLike is a type about integers (or everything).
func intLike() *ty {
	switch nd.Choice(4) {
	case 0:
		return tInt()
	case 1:
		return tIntIs(nd.Int64())
	case 2:
		return tIntRange()
	default:
		return tAny()
	}
}

// kinds names the constructors of a type.
func (t *ty) name() string {
	if len(t.sub) == 0 {
		return t.k
	}
	return t.k + "(..)"
}

// logicTy is an arbitrary type over integers: a range, string, any, or a logical type over such,
// nested at most d deep; not and oneOf only if neg is true.
func logicTy(d int, neg bool) *ty {
	n := 3
	if d > 0 {
		n = 5
		if neg {
			n = 7
		}
	}
	switch nd.Choice(n) {
	case 0:
		return tRange()
	case 1:
		return tString()
	case 2:
		return tAny()
	case 3:
		return tAllOf(logicTy(d-1, neg), logicTy(d-1, neg))
	case 4:
		return tAnyOf(logicTy(d-1, neg), logicTy(d-1, neg))
	case 5:
		return tOneOf(logicTy(d-1, neg), logicTy(d-1, neg))
	default:
		return tNot(logicTy(d-1, neg))
	}
}

// value2 is an arbitrary integer or a string.
func value2() dgo.Value {
	if nd.Choice(2) == 0 {
		return vf.Integer(nd.Int64())
	}
	return vf.String("x")
}

// sketch shows the constructors of a type.
func (t *ty) sketch() string {
	if len(t.sub) == 0 {
		return t.k
	}
	s := t.k + "("
	for i, e := range t.sub {
		if i > 0 {
			s += ","
		}
		s += e.sketch()
	}
	return s + ")"
}

// dup makes the type again from the same arguments.
func (t *ty) dup() *ty {
	sub := make([]*ty, len(t.sub))
	for i, s := range t.sub {
		sub[i] = s.dup()
	}
	exact := func() dgo.Value { return t.t.(dgo.ExactType).ExactValue() }
	switch t.k {
	case "intrange":
		return &ty{k: t.k, lo: t.lo, hi: t.hi, incl: t.incl, t: tf.Integer(t.lo, t.hi, t.incl)}
	case "floatrange":
		return &ty{k: t.k, flo: t.flo, fhi: t.fhi, incl: t.incl, t: tf.Float(t.flo, t.fhi, t.incl)}
	case "sized":
		return &ty{k: t.k, lo: t.lo, hi: t.hi, t: tf.String(t.lo, t.hi)}
	case "string=":
		return tStringIs(t.s)
	case "ci":
		return tCi(t.s)
	case "binary":
		return &ty{k: t.k, lo: t.lo, hi: t.hi, t: tf.Binary(int(t.lo), int(t.hi))}
	case "binary=":
		return &ty{k: t.k, bs: t.bs, t: vf.Binary(t.bs, true).Type()}
	case "time=":
		return &ty{k: t.k, tm: t.tm, t: vf.Time(t.tm).Type()}
	case "array":
		return tArray(sub[0], t.lo, t.hi)
	case "map":
		return tMap(sub[0], sub[1], t.lo, t.hi)
	case "tuple":
		if _, ok := t.t.(dgo.ExactType); ok {
			return &ty{k: t.k, sub: sub, t: exact().(dgo.Array).Copy(true).Type()}
		}
		return tTuple(sub...)
	case "variadic":
		return tVariadic(sub...)
	case "struct":
		if _, ok := t.t.(dgo.ExactType); ok {
			return &ty{k: t.k, sub: sub, req: t.req, t: exact().(dgo.Map).Copy(true).Type()}
		}
		return tStruct(t.add, t.req, sub...)
	case "allof":
		return tAllOf(sub...)
	case "anyof":
		return tAnyOf(sub...)
	case "oneof":
		return tOneOf(sub...)
	case "not":
		return tNot(sub[0])
	case "sensitive":
		return tSensitive(sub[0])
	}
	c := *t
	return &c
}
