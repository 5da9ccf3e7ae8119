package h

import (
	"errors"
	"math"
	"reflect"
	"regexp"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const (
	c19Equal  = "the dgo value of a Go value represents it: "
	c19Back   = "a Go value converted to dgo and back is the same: "
	c19Exact  = "a Go variable gets the value or the conversion is refused: "
	c19Apart  = "a converted value is not affected by changes: "
	c19Refuse = "a value that has no counterpart is refused: "
)

const nGoInt = 10

// goInt is an arbitrary value of Go integer kind k, its value (ok if an int64 can hold it), and a pointer to a variable of that kind.
func goInt(k int) (g interface{}, i int64, ok bool, dest interface{}) {
	ok = true
	switch k {
	case 0:
		v := nd.Int()
		g, i, dest = v, int64(v), new(int)
	case 1:
		v := nd.Int8()
		g, i, dest = v, int64(v), new(int8)
	case 2:
		v := nd.Int16()
		g, i, dest = v, int64(v), new(int16)
	case 3:
		v := nd.Int32()
		g, i, dest = v, int64(v), new(int32)
	case 4:
		v := nd.Int64()
		g, i, dest = v, v, new(int64)
	case 5:
		v := nd.Uint()
		g, i, ok, dest = v, int64(v), v <= math.MaxInt64, new(uint)
	case 6:
		v := nd.Uint8()
		g, i, dest = v, int64(v), new(uint8)
	case 7:
		v := nd.Uint16()
		g, i, dest = v, int64(v), new(uint16)
	case 8:
		v := nd.Uint32()
		g, i, dest = v, int64(v), new(uint32)
	default:
		v := nd.Uint64()
		g, i, ok, dest = v, int64(v), v <= math.MaxInt64, new(uint64)
	}
	return
}

func deref(p interface{}) interface{} { return reflect.ValueOf(p).Elem().Interface() }

// C19_Integer: an arbitrary value of every Go integer kind, given as it is, through a pointer and as a reflected value: the dgo value is that integer (a larger unsigned one is refused), and the Go variable it is assigned to gets the same value.
func C19_Integer() {
	g, i, ok, dest := goInt(nd.Choice(nGoInt))
	var v dgo.Value
	refused := panics(func() {
		switch nd.Choice(3) {
		case 0:
			v = vf.Value(g)
		case 1:
			p := reflect.New(reflect.TypeOf(g))
			p.Elem().Set(reflect.ValueOf(g))
			v = vf.Value(p.Interface())
		default:
			v = vf.ValueFromReflected(reflect.ValueOf(g))
		}
	})
	nd.Assert(refused == !ok, c19Refuse+"integer")
	if refused {
		nd.Reach("refused")
		return
	}
	iv, isInt := v.(dgo.Integer)
	nd.Assert(isInt, c19Equal+"integer kind")
	nd.Assert(iv.GoInt() == i, c19Equal+"integer")
	vf.FromValue(v, dest)
	nd.Assert(deref(dest) == g, c19Back+"integer")
	nd.Reach("integer")
}

func nd01(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C19_IntegerTo: an arbitrary integer that a Go variable of an integer kind can hold, assigned to it or to a pointer to one, gives the same integer; one that it can't hold (any of the 100 below and above the limits, and the smallest and largest integer) is refused.
func C19_IntegerTo() {
	i := nd.Int64()
	v := vf.Integer(i)
	k := nd.Choice(nGoInt)
	_, _, _, dest := goInt(k)
	bits := uint([]int{64, 8, 16, 32, 64, 64, 8, 16, 32, 64}[k])
	var fits bool
	if k < 5 {
		fits = nd.And(i >= -1<<(bits-1), i <= 1<<(bits-1)-1)
	} else if bits == 64 {
		fits = i >= 0
	} else {
		fits = nd.And(i >= 0, i < 1<<bits)
	}
	switch lo, hi := [2]int64{0, -1 << (bits - 1)}[nd01(k < 5)], int64(1)<<(bits-uint(nd01(k < 5)))-1; nd.Choice(4) {
	case 0:
		nd.Assume(fits)
	case 1:
		nd.Assume(bits < 64)
		nd.Assume(nd.And(i > hi, i <= hi+100))
	case 2:
		nd.Assume(lo != math.MinInt64)
		nd.Assume(nd.And(i < lo, i >= lo-100))
	default:
		nd.Assume(nd.And(!fits, nd.Or(i == math.MinInt64, i == math.MaxInt64)))
	}
	var back dgo.Value
	refused := panics(func() {
		if nd.Choice(2) == 0 {
			vf.FromValue(v, dest)
			back = vf.Value(deref(dest))
		} else {
			pp := reflect.New(reflect.TypeOf(dest))
			vf.ReflectTo(v, pp.Elem())
			back = vf.Value(pp.Elem().Elem().Interface())
		}
	})
	nd.Assert(refused == !fits, c19Exact+"integer is refused iff it does not fit")
	if !refused {
		nd.Assert(back.(dgo.Integer).GoInt() == i, c19Exact+"integer")
		nd.Reach("fits")
	} else {
		nd.Reach("refused")
	}
}

// C19_Float: an arbitrary float64 and float32 (float64 also NaN) is represented bit by bit, directly, through pointers and back; an arbitrary float64 that float32 has the range for, assigned to a float32 (or pointer to one) gives the nearest float32; 5 that are out of range are refused.
func C19_Float() {
	switch nd.Choice(3) {
	case 0:
		f := nd.Float64()
		var v dgo.Value
		if nd.Choice(2) == 0 {
			v = vf.Value(f)
		} else {
			v = vf.Value(&f)
		}
		nd.Assert(math.Float64bits(v.(dgo.Float).GoFloat()) == math.Float64bits(f), c19Equal+"float64")
		var r float64
		vf.FromValue(v, &r)
		nd.Assert(math.Float64bits(r) == math.Float64bits(f), c19Back+"float64")
		var rp *float64
		vf.FromValue(v, &rp)
		nd.Assert(math.Float64bits(*rp) == math.Float64bits(f), c19Back+"*float64")
		var ri interface{}
		vf.FromValue(v, &ri)
		nd.Assert(math.Float64bits(ri.(float64)) == math.Float64bits(f), c19Back+"float64 in interface")
		nd.Reach("float64")
	case 1:
		f := nd.Float32()
		nd.Assume(f == f)
		v := vf.Value(f)
		nd.Assert(v.(dgo.Float).GoFloat() == float64(f), c19Equal+"float32")
		var r float32
		vf.FromValue(v, &r)
		nd.Assert(r == f, c19Back+"float32")
		nd.Reach("float32")
	default:
		f := number()
		if nd.Choice(2) == 0 {
			nd.Assume(nd.Or(math.IsInf(f, 0), nd.And(f <= math.MaxFloat32, f >= -math.MaxFloat32)))
		} else {
			f = []float64{math.Nextafter(math.MaxFloat32, math.Inf(1)), 1e39, math.MaxFloat64, -1e39, -math.MaxFloat64}[nd.Choice(5)]
		}
		var r float32
		ptr := nd.Choice(2) == 0
		refused := panics(func() {
			if ptr {
				var rp *float32
				vf.FromValue(vf.Float(f), &rp)
				r = *rp
			} else {
				vf.FromValue(vf.Float(f), &r)
			}
		})
		if refused {
			nd.Assert(nd.And(!math.IsInf(f, 0), nd.Or(f > math.MaxFloat32, f < -math.MaxFloat32)), c19Exact+"float is refused if it does not fit")
			nd.Reach("refused")
		} else {
			nd.Assert(r == float32(f), c19Exact+"float32")
			nd.Assert(math.IsInf(float64(r), 0) == math.IsInf(f, 0), c19Exact+"finite float")
			nd.Reach("nearest")
		}
	}
}

// C19_Scalar: an arbitrary boolean, string (up to 2 bytes), bytes (up to 2), an error, a regexp, a time and nil: directly, through a pointer, to a variable of its type, to a pointer and to an interface, from where it converts to an equal value.
func C19_Scalar() {
	k := nd.Choice(7)
	var g, dest, ptr interface{}
	var v dgo.Value
	switch k {
	case 0:
		b := nd.Bool()
		g, dest, ptr = b, new(bool), &b
		v = vf.Value(g)
		nd.Assert(v.(dgo.Boolean).GoBool() == b, c19Equal+"bool")
	case 1:
		s := asciiUpTo(2)
		g, dest, ptr = s, new(string), &s
		v = vf.Value(g)
		nd.Assert(v.(dgo.String).GoString() == s, c19Equal+"string")
	case 2:
		bs := bytesN(nd.Choice(3))
		g, dest, ptr = bs, new([]byte), &bs
		v = vf.Value(g)
		nd.Assert(string(v.(dgo.Binary).GoBytes()) == string(bs), c19Equal+"bytes")
	case 3:
		er := errors.New("a")
		g, dest, ptr = er, new(error), &er
		v = vf.Value(g)
		nd.Assert(v.(error).Error() == "a", c19Equal+"error")
	case 4:
		rx := regexp.MustCompile("a+")
		g, dest, ptr = rx, new(*regexp.Regexp), rx
		v = vf.Value(g)
		nd.Assert(v.(dgo.Regexp).GoRegexp().String() == "a+", c19Equal+"regexp")
	case 5:
		t := time.Unix(between(-62135596800, 253402300799), between(0, 999999999)).UTC()
		g, dest, ptr = t, new(time.Time), &t
		v = vf.Value(g)
		nd.Assert(v.(dgo.Time).GoTime() == t, c19Equal+"time")
	default:
		g, dest, ptr = nil, new(interface{}), (*int)(nil)
		v = vf.Value(g)
		nd.Assert(v == vf.Nil, c19Equal+"nil")
	}
	nd.Assert(v.Equals(vf.Value(ptr)), c19Equal+"pointer")
	vf.FromValue(v, dest)
	nd.Assert(reflect.DeepEqual(deref(dest), g), c19Back+"scalar")
	var i interface{}
	vf.FromValue(v, &i)
	nd.Assert(v.Equals(vf.Value(i)), c19Back+"interface")
	if k != 4 && k < 6 {
		pp := reflect.New(reflect.TypeOf(dest))
		vf.ReflectTo(v, pp.Elem())
		if k != 3 {
			nd.Assert(v.Equals(vf.Value(pp.Elem().Interface())), c19Back+"pointer")
		}
	}
	nd.Reach("scalar")
}

// C19_Pointer: what a pointer obtained from a string, binary, error, integer, boolean or frozen array or map is changed to doesn't change the value.
func C19_Pointer() {
	switch nd.Choice(7) {
	case 0:
		s := ascii(1)
		v := vf.String(s)
		var p *string
		vf.FromValue(v, &p)
		*p = ascii(1)
		nd.Assert(v.GoString() == s, c19Apart+"string")
	case 1:
		b := bytesN(1)
		fr := nd.Choice(2) == 0
		v := vf.Binary(b, true)
		c := b[0]
		if fr {
			var p *[]byte
			vf.FromValue(v, &p)
			(*p)[0] = nd.Byte()
		} else {
			var p []byte
			vf.FromValue(v, &p)
			p[0] = nd.Byte()
		}
		nd.Assert(v.GoBytes()[0] == c, c19Apart+"binary")
	case 2:
		v := vf.Value(errors.New("a"))
		var p *error
		vf.FromValue(v, &p)
		*p = errors.New("b")
		nd.Assert(v.(error).Error() == "a", c19Apart+"error")
	case 3:
		b := nd.Bool()
		v := vf.Boolean(b)
		var p *bool
		vf.FromValue(v, &p)
		*p = nd.Bool()
		nd.Assert(v.GoBool() == b, c19Apart+"bool")
	case 4:
		i := nd.Int64()
		v := vf.Integer(i)
		var p *int64
		vf.FromValue(v, &p)
		*p = nd.Int64()
		nd.Assert(v.GoInt() == i, c19Apart+"integer")
	case 5:
		v := vf.Values(1, vf.Strings("a"))
		var p []dgo.Value
		vf.FromValue(v, &p)
		p[0] = vf.Integer(2)
		nd.Assert(v.Equals(vf.Values(1, vf.Strings("a"))), c19Apart+"array")
		nd.Assert(panics(func() { p[1].(dgo.Array).Set(0, "b") }), c19Apart+"array element")
	default:
		v := vf.Map("a", vf.Strings("a"))
		var p map[string]dgo.Value
		vf.FromValue(v, &p)
		p["a"] = vf.Integer(2)
		p["b"] = vf.Integer(2)
		nd.Assert(v.Equals(vf.Map("a", vf.Strings("a"))), c19Apart+"map")
	}
	nd.Reach("pointer")
}

// C19_Source: changes to a Go slice, bytes or map after its conversion don't affect the value, which is frozen.
func C19_Source() {
	x, y := nd.Int(), nd.Int()
	var v, w dgo.Value
	switch nd.Choice(7) {
	case 0:
		s := []int{x}
		v, w = vf.Value(s), vf.Integers(x)
		s[0] = y
	case 1:
		s := []string{"a"}
		v, w = vf.Value(s), vf.Strings("a")
		s[0] = "b"
	case 2:
		s := []byte{byte(x)}
		v, w = vf.Value(s), vf.Binary([]byte{byte(x)}, true)
		s[0] = byte(y)
	case 3:
		s := map[string]int{"a": x}
		v, w = vf.Value(s), vf.Map("a", x)
		s["a"] = y
		s["b"] = y
	case 4:
		s := [][]int{{x}}
		v, w = vf.Value(s), vf.Values(vf.Integers(x))
		s[0][0] = y
	case 5:
		s := []interface{}{x, nil}
		v, w = vf.Value(s), vf.Values(x, nil)
		s[0] = y
		s[1] = y
	default:
		s := []dgo.Value{vf.Integer(int64(x)), vf.MutableValues(x)}
		v, w = vf.Value(s), vf.Values(x, vf.Values(x))
		m := s[1].(dgo.Array)
		m.Add(y)
		s[0] = vf.Integer(int64(y))
	}
	nd.Assert(v.Equals(w), c19Apart+"source")
	if f, ok := v.(dgo.Freezable); ok {
		nd.Assert(f.Frozen(), c19Apart+"source is frozen")
	}
	nd.Reach("source")
}

// C19_Slice: slices (nil, empty, up to 2 elements) of arbitrary integers, int8, floats, booleans, strings, pointers, nested slices, maps and interfaces: the array has the elements in order, and converts back to an equal slice of the same type, also through a pointer and an interface.
func C19_Slice() {
	n := nd.Choice(4) - 1
	var g interface{}
	var dest interface{}
	var elem func(i int) interface{}
	switch nd.Choice(9) {
	case 0:
		s := make([]int, 2)
		s[0], s[1] = nd.Int(), nd.Int()
		elem = func(i int) interface{} { return s[i] }
		if n >= 0 {
			g = s[:n]
		} else {
			g = []int(nil)
		}
		dest = new([]int)
	case 1:
		s := []int8{nd.Int8(), nd.Int8()}
		elem = func(i int) interface{} { return s[i] }
		if n >= 0 {
			g = s[:n]
		} else {
			g = []int8(nil)
		}
		dest = new([]int8)
	case 2:
		s := []float64{number(), number()}
		elem = func(i int) interface{} { return s[i] }
		if n >= 0 {
			g = s[:n]
		} else {
			g = []float64(nil)
		}
		dest = new([]float64)
	case 3:
		s := []bool{nd.Bool(), nd.Bool()}
		elem = func(i int) interface{} { return s[i] }
		if n >= 0 {
			g = s[:n]
		} else {
			g = []bool(nil)
		}
		dest = new([]bool)
	case 4:
		s := []string{ascii(1), "b"}
		elem = func(i int) interface{} { return s[i] }
		if n >= 0 {
			g = s[:n]
		} else {
			g = []string(nil)
		}
		dest = new([]string)
	case 5:
		x := nd.Int()
		s := []*int{&x, nil}
		elem = func(i int) interface{} {
			if i == 0 {
				return x
			}
			return nil
		}
		if n >= 0 {
			g = s[:n]
		} else {
			g = []*int(nil)
		}
		dest = new([]*int)
	case 6:
		s := [][]int{{nd.Int()}, {}}
		elem = func(i int) interface{} { return s[i] }
		if n >= 0 {
			g = s[:n]
		} else {
			g = [][]int(nil)
		}
		dest = new([][]int)
	case 7:
		s := []map[string]int{{"a": nd.Int()}, {}}
		elem = func(i int) interface{} { return s[i] }
		if n >= 0 {
			g = s[:n]
		} else {
			g = []map[string]int(nil)
		}
		dest = new([]map[string]int)
	default:
		s := []interface{}{nd.Int64(), "b"}
		elem = func(i int) interface{} { return s[i] }
		if n >= 0 {
			g = s[:n]
		} else {
			g = []interface{}(nil)
		}
		dest = new([]interface{})
	}
	v := vf.Value(g)
	if n < 0 {
		nd.Assert(v == vf.Nil || v.(dgo.Array).Len() == 0, c19Equal+"nil slice")
		return
	}
	a := v.(dgo.Array)
	nd.Assert(a.Len() == n, c19Equal+"slice length")
	for i := 0; i < n; i++ {
		nd.Assert(a.Get(i).Equals(vf.Value(elem(i))), c19Equal+"slice element")
	}
	vf.FromValue(v, dest)
	nd.Assert(reflect.DeepEqual(deref(dest), g), c19Back+"slice")
	pp := reflect.New(reflect.TypeOf(dest))
	vf.ReflectTo(v, pp.Elem())
	nd.Assert(reflect.DeepEqual(pp.Elem().Elem().Interface(), g), c19Back+"slice through pointer")
	var i interface{}
	vf.FromValue(v, &i)
	nd.Assert(v.Equals(vf.Value(i)), c19Back+"slice in interface")
	nd.Reach("slice")
}

// C19_Map: maps (nil, empty, up to 2 entries) from strings, integers, booleans or interfaces to arbitrary integers, slices, maps, pointers or interfaces: the map has those associations and converts back to an equal map of the same type, also through a pointer and an interface.
func C19_Map() {
	n := nd.Choice(4) - 1
	var g, dest interface{}
	want := vf.MutableMap()
	x := nd.Int()
	switch nd.Choice(6) {
	case 0:
		var m map[string]int
		if n >= 0 {
			m = map[string]int{}
		}
		for i := 0; i < n; i++ {
			m[string([]byte{byte('a' + i)})] = x + i
			want.Put(string([]byte{byte('a' + i)}), x+i)
		}
		g, dest = m, new(map[string]int)
	case 1:
		var m map[int8][]int
		if n >= 0 {
			m = map[int8][]int{}
		}
		for i := 0; i < n; i++ {
			m[int8(i)] = []int{x}
			want.Put(i, []int{x})
		}
		g, dest = m, new(map[int8][]int)
	case 2:
		var m map[bool]map[string]int
		if n >= 0 {
			m = map[bool]map[string]int{}
		}
		for i := 0; i < n; i++ {
			m[i == 1] = map[string]int{"a": x}
			want.Put(i == 1, vf.Map("a", x))
		}
		g, dest = m, new(map[bool]map[string]int)
	case 3:
		var m map[string]*int
		if n >= 0 {
			m = map[string]*int{}
		}
		if n > 0 {
			m["b"] = &x
			want.Put("b", x)
		}
		if n > 1 {
			m["a"] = nil
			want.Put("a", nil)
		}
		g, dest = m, new(map[string]*int)
	case 4:
		var m map[interface{}]interface{}
		if n >= 0 {
			m = map[interface{}]interface{}{}
		}
		if n > 0 {
			m["b"] = int64(x)
			want.Put("b", x)
		}
		if n > 1 {
			m[int64(1)] = "a"
			want.Put(1, "a")
		}
		g, dest = m, new(map[interface{}]interface{})
	default:
		var m map[string]interface{}
		if n >= 0 {
			m = map[string]interface{}{}
		}
		if n > 0 {
			m["b"] = int64(x)
			want.Put("b", x)
		}
		if n > 1 {
			m["a"] = nil
			want.Put("a", nil)
		}
		g, dest = m, new(map[string]interface{})
	}
	v := vf.Value(g)
	if n < 0 {
		nd.Assert(v == vf.Nil || v.(dgo.Map).Len() == 0, c19Equal+"nil map")
		return
	}
	nd.Assert(v.Equals(want), c19Equal+"map")
	nd.Assert(v.(dgo.Map).Len() == n, c19Equal+"map length")
	nd.Assert(v.(dgo.Map).Frozen(), c19Equal+"map is frozen")
	vf.FromValue(v, dest)
	nd.Assert(reflect.DeepEqual(deref(dest), g), c19Back+"map")
	pp := reflect.New(reflect.TypeOf(dest))
	vf.ReflectTo(v, pp.Elem())
	nd.Assert(reflect.DeepEqual(pp.Elem().Elem().Interface(), g), c19Back+"map through pointer")
	var i interface{}
	vf.FromValue(v, &i)
	nd.Assert(v.Equals(vf.Value(i)), c19Back+"map in interface")
	nd.Reach("map")
}

// c19Value is a value of data of kind k with the given parts.
func c19Value(k int, a, b dgo.Value) dgo.Value {
	switch k {
	case 0:
		return vf.Values()
	case 1:
		return vf.Values(a)
	case 2:
		return vf.Values(a, b)
	case 3:
		return vf.Map()
	case 4:
		return vf.Map("a", a)
	case 5:
		return vf.Map("a", a, 1, b)
	case 6:
		return vf.MutableValues(a, b)
	default:
		return vf.Map("a", a, "b", b)
	}
}

// C19_Interface: a value of data, nested two levels (arrays and maps with 0 to 2 elements of mixed kinds), assigned to a Go interface converts back to an equal value.
func C19_Interface() {
	s := func() dgo.Value { return scalarK([]int{0, 1, 2, 3, 4, 5}[nd.Choice(6)]) }
	a := s()
	v := c19Value(nd.Choice(8), c19Value(nd.Choice(8), a, s()), a)
	var i interface{}
	vf.FromValue(v, &i)
	_, native := i.(dgo.Value)
	nd.Assert(!native, "an interface gets a Go value")
	nd.Assert(vf.Value(i).Equals(v), c19Back+"interface")
	nd.Reach("interface")
}

// C19_Refused: a value that is assigned to a Go variable of a type that has no such value is refused, and the variable keeps its value.
func C19_Refused() {
	i, s, b, f, bs, sl, m := 7, "a", true, 1.5, []byte{1}, []int{1}, map[string]int{"a": 1}
	k, d := nd.Choice(7), nd.Choice(7)
	nd.Assume(k != d)
	v := []dgo.Value{vf.Integer(1), vf.String("b"), vf.False, vf.Float(2.5), vf.Binary([]byte{2}, true), vf.Strings("x"), vf.Map("b", "x")}[k]
	dest := []interface{}{&i, &s, &b, &f, &bs, &sl, &m}[d]
	nd.Assert(panics(func() { vf.FromValue(v, dest) }), c19Refuse+"kind")
	nd.Assert(i == 7 && s == "a" && b && f == 1.5 && len(bs) == 1 && bs[0] == 1 && len(sl) == 1 && len(m) == 1, c19Refuse+"variable is unchanged")
	nd.Reach("refused")
}
