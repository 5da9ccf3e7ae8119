package h

import (
	"errors"
	"reflect"
	"regexp"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const (
	c35Gen  = "the generic type of a value describes its kind and nothing else: "
	c35Law  = "a generic type is assignable from, and has the values of, the type it is made from: "
	c35Refl = "the reflected type of a value is the Go type that it converts to: "
	c35From = "the type of a Go type has the values of that Go type: "
)

// leafG is a value of kind k without elements, its generic type and Go type.
func leafG(k int) (dgo.Value, dgo.Type, reflect.Type) {
	anyT := reflect.TypeOf((*interface{})(nil)).Elem()
	switch k {
	case 0:
		return vf.Integer(nd.Int64()), typ.Integer, reflect.TypeOf(int64(0))
	case 1:
		return vf.String(letters(1)), typ.String, reflect.TypeOf("")
	case 2:
		return vf.Nil, typ.Nil, anyT
	case 3:
		return vf.Float(number()), typ.Float, reflect.TypeOf(1.0)
	case 4:
		return vf.Boolean(nd.Choice(2) == 0), typ.Boolean, reflect.TypeOf(true)
	case 5:
		return vf.Binary(bytesN(nd.Choice(3)), nd.Choice(2) == 0), typ.Binary, reflect.TypeOf([]byte{})
	case 6:
		return vf.Time(time.Unix(between(0, 9), 0)), typ.Time, reflect.TypeOf(time.Time{})
	case 7:
		return vf.Regexp(regexp.MustCompile([]string{"a", "b.*"}[nd.Choice(2)])), typ.Regexp, reflect.TypeOf(&regexp.Regexp{})
	case 8:
		return vf.Value(errors.New(letters(1))), typ.Error, reflect.TypeOf((*error)(nil)).Elem()
	case 9:
		return vf.Sensitive(nd.Int64()), tf.Sensitive(typ.Integer), reflect.TypeOf((*dgo.Sensitive)(nil)).Elem()
	default:
		return vf.Sensitive(vf.String(letters(1))), tf.Sensitive(typ.String), reflect.TypeOf((*dgo.Sensitive)(nil)).Elem()
	}
}

const nLeafG = 11

// gen is a description of a generic type: any, a leaf type, []elem or map[key]elem
type gen struct {
	k         int // 0 any, 1 leaf, 2 array, 3 map
	t         dgo.Type
	rt        reflect.Type
	key, elem *gen
	v         dgo.Value
}

var anyGo = reflect.TypeOf((*interface{})(nil)).Elem()

func gAny() *gen { return &gen{t: typ.Any, rt: anyGo} }

// in tells if every value that b describes is described by a
func (a *gen) in(b *gen) bool {
	switch {
	case b.k == 0:
		return true
	case a.k != b.k:
		return false
	case a.k == 1:
		return a.t == b.t || a.t.Equals(b.t)
	case a.k == 2:
		return a.elem.in(b.elem)
	default:
		return a.key.in(b.key) && a.elem.in(b.elem)
	}
}

// common is the one of gs that describes the values of all of them, any when there is none.
func common(gs []*gen) *gen {
	for _, g := range gs {
		all := true
		for _, o := range gs {
			all = all && o.in(g)
		}
		if all {
			c := *g
			return &c
		}
	}
	return gAny()
}

// commonGo is the Go type that all can be assigned to.
func commonGo(gs []*gen) reflect.Type {
	if len(gs) == 0 {
		return anyGo
	}
	for _, g := range gs {
		if g.rt != gs[0].rt {
			return anyGo
		}
	}
	return gs[0].rt
}

func leafGen(k int) *gen {
	v, t, rt := leafG(k)
	return &gen{k: 1, t: t, rt: rt, v: v}
}

// arrayGen is the array of the values of gs.
func arrayGen(gs ...*gen) *gen {
	a := vf.MutableValues()
	for _, g := range gs {
		a.Add(g.v)
	}
	e := common(gs)
	return &gen{k: 2, elem: e, t: tf.Array(e.t), rt: reflect.SliceOf(commonGo(gs)), v: a}
}

// mapGen is the map with gs as values. The keys are strings, or an integer and strings.
func mapGen(mixed bool, gs ...*gen) *gen {
	m := vf.MutableMap()
	var ks []*gen
	for i, g := range gs {
		k := &gen{k: 1, t: typ.String, rt: reflect.TypeOf(""), v: vf.String(string(rune('a' + i)))}
		if mixed && i == 0 {
			k = &gen{k: 1, t: typ.Integer, rt: reflect.TypeOf(int64(1)), v: vf.Integer(7)}
		}
		m.Put(k.v, g.v)
		ks = append(ks, k)
	}
	k, e := common(ks), common(gs)
	return &gen{k: 3, key: k, elem: e, t: tf.Map(k.t, e.t), rt: reflect.MapOf(commonGo(ks), commonGo(gs)), v: m}
}

// shapeG combines a and b in way k.
func shapeG(k int, a, b func() *gen) *gen {
	switch k {
	case 0:
		return a()
	case 1:
		return arrayGen()
	case 2:
		return mapGen(false)
	case 3:
		return arrayGen(a())
	case 4:
		return arrayGen(a(), b())
	case 5:
		return mapGen(false, a())
	case 6:
		return mapGen(false, a(), b())
	default:
		return mapGen(true, a(), b())
	}
}

const nShapeG = 8

func checkGeneric(g *gen, what string) {
	if nd.Choice(2) == 0 {
		if f, ok := g.v.(dgo.Freezable); ok {
			g.v = f.FrozenCopy()
		}
	}
	vt := g.v.Type()
	t := typ.Generic(vt)
	nd.Assert(t.Equals(g.t) && g.t.Equals(t), c35Gen+what)
	nd.Assert(t.HashCode() == g.t.HashCode(), c35Gen+what+", hash code")
	nd.Assert(t.String() == g.t.String(), c35Gen+what+", string")
	nd.Assert(t.Instance(g.v), c35Law+what+", value")
	nd.Assert(t.Assignable(vt), c35Law+what+", exact type")
	nd.Assert(typ.Generic(t).Equals(t), c35Gen+what+", it is generic")
}

func anyLeafG() *gen { return leafGen(nd.Choice(nLeafG)) }

func someLeafG() *gen { return leafGen(nd.Choice(3)) }

// C35_Leaf: Bounds: values of 11 kinds with arbitrary contents, alone, or two of them in an array or map, frozen or not.
func C35_Leaf() {
	checkGeneric(shapeG(nd.Choice(nShapeG), anyLeafG, anyLeafG), "flat")
	nd.Reach("leaf")
}

// C35_Nested: Bounds: two of the 8 shapes (a scalar, arrays and maps of 0 to 2 elements, one kind of key or two) over integer, string and nil, combined in one of these shapes.
func C35_Nested() {
	in := func() *gen { return shapeG(nd.Choice(nShapeG), someLeafG, someLeafG) }
	checkGeneric(shapeG(3+nd.Choice(nShapeG-3), in, in), "nested")
	nd.Reach("nested")
}

// C35_Order: Bounds: three arrays or maps of 0 to 2 elements, integers and strings, in any order: the generic type of an array with them, or a map that has them as values, is that of the one that describes all.
func C35_Order() {
	in := func() *gen {
		s := func() *gen { return leafGen(nd.Choice(2)) }
		return shapeG([]int{1, 3, 4, 5, 6}[nd.Choice(5)], s, s)
	}
	gs := []*gen{in(), in(), in()}
	g := arrayGen(gs...)
	if nd.Choice(2) == 0 {
		g = mapGen(false, gs...)
	}
	checkGeneric(g, "three")
	nd.Reach("three")
}

// C35_Reflect: Bounds: as Leaf and, for integers, strings and nil, nested twice; maps with hashable keys. The value is assigned to a variable of the reflected type of its type and back.
func C35_Reflect() {
	var g *gen
	if nd.Choice(2) == 0 {
		g = shapeG(nd.Choice(nShapeG), anyLeafG, anyLeafG)
	} else {
		in := func() *gen { return shapeG(nd.Choice(nShapeG), someLeafG, someLeafG) }
		g = shapeG(3+nd.Choice(nShapeG-3), in, in)
	}
	rt := g.v.Type().ReflectType()
	nd.Assert(rt == g.rt, c35Refl+"type")
	p := reflect.New(rt)
	vf.ReflectTo(g.v, p.Elem())
	nd.Assert(vf.Value(p.Elem()).Equals(g.v), c35Refl+"value")
	nd.Reach("reflect")
}

// typeG is an arbitrary type over integer ranges, exact strings and types without constraints.
func typeG(d int, neg bool) *ty {
	leaf := func() *ty {
		switch nd.Choice(5) {
		case 0:
			return tRange()
		case 1:
			return tStringIs(letters(1))
		case 2:
			return tAny()
		case 3:
			return tIntIs(nd.Int64())
		default:
			return tString()
		}
	}
	sub := leaf
	if d > 1 {
		sub = func() *ty { return typeG(d-1, false) }
	}
	k := nd.Choice(nColl + 5)
	if !neg {
		// what is assignable to not and one-of types isn't always an instance, see C10
		nd.Assume(k != nColl+2 && k != nColl+3)
	}
	switch {
	case k < nColl:
		return collTy(k, sub, tString)
	case k == nColl:
		return tAllOf(sub(), leaf())
	case k == nColl+1:
		return tAnyOf(sub(), leaf())
	case k == nColl+2:
		return tOneOf(sub(), leaf())
	case k == nColl+3:
		return tNot(sub())
	default:
		return flatTy(nd.Choice(nFlat))
	}
}

func checkGenericType(t *ty, v dgo.Value) {
	g := typ.Generic(t.t)
	nd.Assert(g.Assignable(t.t), c35Law+t.sketch())
	nd.Assert(typ.Generic(g).Equals(g) && g.Equals(typ.Generic(g)), c35Gen+"it is generic: "+t.sketch())
	switch t.k {
	case "array", "map", "anyof", "oneof", "not", "any", "int", "string":
		if _, ok := t.t.(dgo.ExactType); !ok {
			nd.Assert(g.Equals(t.t), c35Gen+"types that are not exact remain: "+t.sketch())
		}
	case "tuple", "variadic", "struct":
		n := 0
		if s, ok := g.(dgo.SizedType); ok && s.Unbounded() {
			n++
		}
		nd.Assert(n == 1, c35Gen+"sizes are gone: "+t.sketch())
	}
	if t.has(v) {
		nd.Assert(g.Instance(v), c35Law+"instance of "+t.sketch())
		p := reflect.New(t.t.ReflectType())
		vf.ReflectTo(v, p.Elem())
		nd.Assert(vf.Value(p.Elem()).Equals(v), c35Refl+"instance of "+t.sketch())
	}
}

// C35_Type: Bounds: types of every kind over integer ranges, exact integers and strings, string and any, and every flat type; arrays and maps of up to 2 integers or strings and scalars.
func C35_Type() { genericTypes(1) }

// C35T_Type: Bounds: as Type, nested twice; not and one-of types only as the outermost type.
func C35T_Type() { genericTypes(2) }

func genericTypes(d int) {
	t := typeG(d, true)
	var v dgo.Value
	switch nd.Choice(3) {
	case 0:
		v = vf.MutableValues()
		for n := nd.Choice(3); n > 0; n-- {
			v.(dgo.Array).Add(elem())
		}
	case 1:
		m := vf.MutableMap()
		for n := nd.Choice(3); n > 0; n-- {
			m.Put(string(rune('a'+n-1)), elem())
		}
		v = m
	default:
		v = scalar()
	}
	checkGenericType(t, v)
	nd.Reach("type")
}

type c35Struct struct{ A int }

// goValueG is an arbitrary Go value of kind k.
func goValueG(k int) interface{} {
	i := nd.Int64()
	switch k {
	case 0:
		return int8(i)
	case 1:
		return uint8(i)
	case 2:
		return int16(i)
	case 3:
		return uint16(i)
	case 4:
		return int32(i)
	case 5:
		return uint32(i)
	case 6:
		return i
	case 7:
		return int(i)
	case 8:
		return uint(i & 0x7fffffffffffffff)
	case 9:
		return uint64(i & 0x7fffffffffffffff)
	case 10:
		return float32(1.5)
	case 11:
		return number()
	case 12:
		return letters(1)
	case 13:
		return i == 0
	case 14:
		return []byte{byte(i)}
	case 15:
		return time.Unix(i&0xff, 0)
	case 16:
		t := time.Unix(i&0xff, 0)
		return &t
	case 17:
		return regexp.MustCompile("a")
	case 18:
		return map[string]error{"a": errors.New(letters(1))}
	case 19:
		return c35Struct{int(i)}
	case 20:
		return []dgo.Value{vf.Integer(i), nil}
	case 21:
		return [][]byte{{byte(i)}}
	case 22:
		return func(int) string { return "" }
	case 23:
		return []string{letters(1), "b"}[:1+nd.Choice(2)]
	case 24:
		return []interface{}{i, letters(1), nil}[:1+nd.Choice(3)]
	case 25:
		return map[string]int64{letters(1): i}
	case 26:
		return map[int64][]string{i & 3: {"a"}}
	case 27:
		return []dgo.Value{vf.Integer(i)}
	case 28:
		return &i
	case 29:
		var p *int64
		return p
	case 30:
		return []*int64{&i, nil}
	case 31:
		return map[string][]byte{"a": {byte(i)}}
	case 32:
		return []error{errors.New("a")}
	case 33:
		return [][]int8{{int8(i)}}
	default:
		return map[string]interface{}{"a": i, "b": nil}
	}
}

const nGoG = 35

// C35_From: Bounds: Go values of 35 types (integers of every size, floats, strings, booleans, bytes, times, regular expressions, errors, named types, structs, functions, slices, arrays, maps, pointers, nested), arbitrary contents.
func C35_From() {
	k := nd.Choice(nGoG)
	g := goValueG(k)
	t := tf.FromReflected(reflect.TypeOf(g))
	v := vf.Value(g)
	nd.Assert(t.Instance(v), c35From+"value "+reflect.TypeOf(g).String())
	nd.Assert(t.Assignable(v.Type()), c35From+"exact type "+reflect.TypeOf(g).String())
	nd.Assert(t.Equals(tf.FromReflected(reflect.TypeOf(goValueG(k)))), c35From+"equal "+reflect.TypeOf(g).String())
	nd.Reach("from")
}

// C35_FromInteger: Bounds: every int64 and each of the Go types of integers, pointers to, slices and maps of them: an integer is an instance of the type exactly when the Go type can hold it.
func C35_FromInteger() {
	k := nd.Choice(10)
	rt := reflect.TypeOf(goValueG(k))
	i := nd.Int64()
	ok := true
	switch k {
	case 0:
		ok = int64(int8(i)) == i
	case 1:
		ok = int64(uint8(i)) == i
	case 2:
		ok = int64(int16(i)) == i
	case 3:
		ok = int64(uint16(i)) == i
	case 4:
		ok = int64(int32(i)) == i
	case 5:
		ok = int64(uint32(i)) == i
	case 8, 9:
		ok = i >= 0
	}
	v := vf.Value(i)
	switch nd.Choice(5) {
	case 1:
		rt = reflect.PtrTo(rt)
	case 2:
		nd.Assume(k != 1) // a slice of bytes is a binary
		rt = reflect.SliceOf(rt)
		v = vf.Values(v)
	case 3:
		rt = reflect.MapOf(reflect.TypeOf(""), rt)
		v = vf.Map("a", v)
	case 4:
		rt = reflect.MapOf(rt, reflect.TypeOf(""))
		v = vf.Map(v, "a")
	}
	nd.Assert(tf.FromReflected(rt).Instance(v) == ok, c35From+"integers that it can hold: "+rt.String())
	nd.Assert(tf.FromReflected(rt).Assignable(v.Type()) == ok, c35From+"types of integers that it can hold: "+rt.String())
	nd.Reach("integer")
}
