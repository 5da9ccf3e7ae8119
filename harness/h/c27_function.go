package h

import (
	"errors"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const (
	c27Call   = "calling a function gives what the Go function returns: "
	c27Refuse = "a function is called exactly when the arguments are instances of its parameter types: "
	c27Type   = "the type of a function describes its parameters and results: "
)

type recFunc func(recFunc, ...recFunc) recFunc

const nSig = 24

// goFunction is the k:th function, the text of its type, and whether that can be parsed. It counts its calls in n.
func goFunction(k int, n *int) (interface{}, string, bool) {
	switch k {
	case 0:
		return func() { *n++ }, "func()", true
	case 1:
		return func(a int64) int64 { *n++; return a + 1 }, "func(int) int", true
	case 2:
		return func(a int8, b uint16) (int8, uint16) { *n++; return a, b }, "func(-128..127,0..65535) (-128..127,0..65535)", true
	case 3:
		return func(s string, b bool) (bool, string) { *n++; return b, s }, "func(string,bool) (bool,string)", true
	case 4:
		return func(s string, is ...int64) int64 {
			*n++
			t := int64(len(s))
			for _, i := range is {
				t += i
			}
			return t
		}, "func(string,...int) int", true
	case 5:
		return func(vs ...dgo.Value) dgo.Value { *n++; return vf.Values(interfaces(vs)...) }, "func(...any) any", true
	case 6:
		return func(f float64) float64 { *n++; return f }, "func(float) float", true
	case 7:
		return func(v dgo.Value) dgo.Value { *n++; return v }, "func(any) any", true
	case 8:
		return func(v interface{}) interface{} { *n++; return v }, "func(any) any", true
	case 9:
		return func(e error) error { *n++; return e }, "func(error) error", false
	case 10:
		return func(is []int64) []int64 { *n++; return is }, "func([]int) []int", true
	case 11:
		return func(m map[string]int64) map[string]int64 { *n++; return m }, "func(map[string]int) map[string]int", true
	case 12:
		return func(bs []byte) []byte { *n++; return bs }, "func(binary) binary", true
	case 13:
		return func(f func(int64) int64, a int64) int64 { *n++; return f(a) }, "func(func(int) int,int) int", true
	case 14:
		return func(a *int64) *int64 { *n++; return a }, "func(int^nil) int^nil", true
	case 15:
		return func(i dgo.Integer) dgo.Integer { *n++; return i }, "", false
	case 16:
		return func(a, b int64, s string) (int64, int64, string) { *n++; return a, b, s }, "func(int,int,string) (int,int,string)", true
	case 17:
		return func(is ...int8) (int64, error) {
			*n++
			t := int64(0)
			for _, i := range is {
				t += int64(i)
			}
			return t, nil
		}, "func(...-128..127) (int,error)", false
	case 18:
		return func(a int64, iss ...[]int64) int64 {
			*n++
			for _, is := range iss {
				a += int64(len(is))
			}
			return a
		}, "func(int,...[]int) int", true
	case 19:
		return func() (dgo.Value, *int64, error, []string) { *n++; return nil, nil, nil, nil }, "func() (any,int^nil,error,[]string)", false
	case 20:
		return func() (dgo.Value, error) { *n++; return vf.Nil, errors.New("x") }, "func() (any,error)", false
	case 21:
		return func(b bool) bool { *n++; return !b }, "func(bool) bool", true
	case 22:
		return func() (int64, dgo.Value, error, dgo.Value) { *n++; return 1, vf.Nil, nil, vf.Nil }, "func() (int,any,error,any)", false
	default:
		return func(a int64, s string, bs ...bool) (string, int64, int64) { *n++; return s, a, int64(len(bs)) }, "func(int,string,...bool) (string,int,int)", true
	}
}

func interfaces(vs []dgo.Value) []interface{} {
	is := make([]interface{}, len(vs))
	for i := range vs {
		is[i] = vs[i]
	}
	return is
}

func ints(n int) (is []int64, a dgo.Array) {
	a = vf.MutableValues()
	for ; n > 0; n-- {
		i := nd.Int64()
		is = append(is, i)
		a.Add(i)
	}
	return
}

// C27_Call: Bounds: 24 functions with up to 3 parameters and 4 results, called with arbitrary integers, booleans and bytes, 2 strings and 4 floats; up to 3 variadic arguments.
func C27_Call() {
	k := nd.Choice(nSig)
	n := 0
	gf, _, _ := goFunction(k, &n)
	f := vf.Value(gf).(dgo.Function)
	s := []string{"", "ab"}[nd.Choice(2)]
	var args dgo.Array
	var want []interface{}
	switch k {
	case 0:
		args = vf.Values()
	case 1:
		a := nd.Int64()
		args, want = vf.Values(a), []interface{}{a + 1}
	case 2:
		a, b := int8(nd.Uint8()), uint16(nd.Uint8())*200
		args, want = vf.Values(a, b), []interface{}{a, b}
	case 3:
		b := nd.Bool()
		args, want = vf.Values(s, b), []interface{}{b, s}
	case 4:
		is, a := ints(nd.Choice(4))
		t := int64(len(s))
		for _, i := range is {
			t += i
		}
		args, want = vf.Values(s).WithAll(a), []interface{}{t}
	case 5:
		_, a := ints(nd.Choice(4))
		args, want = a, []interface{}{a}
	case 6:
		x := pickFloat()
		args, want = vf.Values(x), []interface{}{x}
	case 7, 8:
		v := small()
		args, want = vf.Values(v), []interface{}{v}
		if k == 8 && v == vf.Nil {
			want[0] = nil
		}
	case 9:
		e := errors.New("x")
		args, want = vf.Values(e), []interface{}{e}
	case 10:
		_, a := ints(nd.Choice(4))
		args, want = vf.Values(a), []interface{}{a}
	case 11:
		m := vf.Map(s, nd.Int64())
		args, want = vf.Values(m), []interface{}{m}
	case 12:
		b := vf.Binary([]byte{nd.Uint8(), nd.Uint8()}, nd.Choice(2) == 0)
		args, want = vf.Values(b), []interface{}{b}
	case 13:
		a, d := nd.Int64(), nd.Int64()
		args, want = vf.Values(func(i int64) int64 { return i - d }, a), []interface{}{a - d}
	case 14:
		a := nd.Int64()
		args, want = vf.Values(a), []interface{}{a}
		if nd.Choice(2) == 0 {
			args, want = vf.Values(nil), []interface{}{nil}
		}
	case 15:
		a := nd.Int64()
		args, want = vf.Values(a), []interface{}{a}
	case 16:
		a, b := nd.Int64(), nd.Int64()
		args, want = vf.Values(a, b, s), []interface{}{a, b, s}
	case 17:
		t := int64(0)
		args = vf.MutableValues()
		for i := nd.Choice(4); i > 0; i-- {
			x := int8(nd.Uint8())
			t += int64(x)
			args.Add(x)
		}
		want = []interface{}{t, nil}
	case 18:
		a := nd.Int64()
		args, want = vf.Values(a), []interface{}{a}
		for i := nd.Choice(3); i > 0; i-- {
			_, e := ints(i)
			args = args.With(e)
			want[0] = want[0].(int64) + int64(i)
		}
	case 19:
		args, want = vf.Values(), []interface{}{nil, nil, nil, nil}
	case 20:
		args, want = vf.Values(), []interface{}{vf.Nil, errors.New("x")}
	case 21:
		b := nd.Bool()
		args, want = vf.Values(b), []interface{}{!b}
	case 22:
		args, want = vf.Values(), []interface{}{int64(1), vf.Nil, nil, vf.Nil}
	default:
		a := nd.Int64()
		args = vf.MutableValues(a, s)
		n := nd.Choice(3)
		for i := 0; i < n; i++ {
			args.Add(nd.Bool())
		}
		want = []interface{}{s, a, int64(n)}
	}
	if nd.Choice(2) == 0 {
		args.Freeze()
	}
	before := args.Copy(true)
	r := f.Call(args)
	nd.Assert(n == 1, c27Call+"once")
	nd.Assert(len(r) == len(want), c27Call+"the number of results")
	for i, w := range want {
		if w == nil {
			nd.Assert(r[i] == nil, c27Call+"nil results")
		} else {
			nd.Assert(r[i] != nil && r[i].Equals(w), c27Call+"results")
		}
	}
	nd.Assert(args.Equals(before), c27Call+"the arguments are not changed")
	nd.Reach("called")
}

// argument is the k:th possible argument.
func argument(k int) dgo.Value {
	switch k {
	case 0:
		return vf.Integer(nd.Int64())
	case 1:
		return vf.String([]string{"", "ab"}[nd.Choice(2)])
	case 2:
		return vf.Boolean(nd.Bool())
	case 3:
		return vf.Float(2.5)
	case 4:
		return vf.Values(1, 2)
	case 5:
		return vf.Values("a")
	case 6:
		return vf.Map("a", 1)
	case 7:
		return vf.Map("a", "b")
	case 8:
		return vf.Binary([]byte{1}, true)
	case 9:
		return vf.Value(errors.New("e"))
	case 10:
		return vf.Value(func(i int64) int64 { return i })
	case 11:
		return vf.Value(func(i string) int64 { return 0 })
	default:
		return typ.String
	}
}

// C27_Refuse: Bounds: 24 functions called with up to 3 of 13 kinds of arguments (arbitrary integers and booleans): refused, without a call, exactly when the type of the parameters doesn't have them.
func C27_Refuse() {
	k := nd.Choice(nSig)
	nd.Assume(k != 15 && k != 13)
	n := 0
	gf, _, _ := goFunction(k, &n)
	f := vf.Value(gf).(dgo.Function)
	in := f.Type().(dgo.FunctionType).In()
	c := nd.Choice(in.Len() + 2)
	args := vf.MutableValues()
	for i := 0; i < c; i++ {
		a := 0
		if i == c-1 || nd.Thorough() {
			a = nd.Choice(13)
		} else if i < in.Len() && typ.String.Assignable(in.Element(i)) {
			a = 1
		}
		if k == 12 && (a == 4 || a == 5) {
			return // an array of bytes may also be given
		}
		args.Add(argument(a))
	}
	ok := in.Instance(args)
	p := panics(func() { f.Call(args) })
	nd.Assert(p == !ok, c27Refuse+"panics")
	nd.Assert((n == 1) == ok && n <= 1, c27Refuse+"called")
	nd.Reach("refused")
}

// C27_Panic: Bounds: a function that panics with an arbitrary integer.
func C27_Panic() {
	i := nd.Int64()
	f := vf.Value(func() int64 { panic(i) }).(dgo.Function)
	var r interface{}
	func() {
		defer func() { r = recover() }()
		f.Call(vf.Values())
	}()
	x, ok := r.(int64)
	nd.Assert(ok && x == i, c27Call+"a panic is passed on")
	nd.Reach("panic")
}

// C27_Type: Bounds: 22 functions against each other, their types and parsed and created types.
func C27_Type() {
	n := 0
	k, l := nd.Choice(nSig), nd.Choice(nSig)
	gf, text, parse := goFunction(k, &n)
	gg, other, _ := goFunction(l, &n)
	f, g := vf.Value(gf).(dgo.Function), vf.Value(gg).(dgo.Function)
	ft, gt := f.Type().(dgo.FunctionType), g.Type().(dgo.FunctionType)
	rt := reflect.TypeOf(gf)
	if k == l {
		nd.Assert(ft.Instance(f) && ft.Instance(gf), c27Type+"instance of its type")
		nd.Assert(typ.Function.Instance(f) && typ.Function.Instance(gf) && typ.Any.Instance(f), c27Type+"instance of the function type")
		nd.Assert(typ.Function.Assignable(ft) && tf.Function(typ.Tuple, typ.Tuple).Assignable(ft) && !ft.Assignable(typ.Function), c27Type+"assignable to the function type")
		nd.Assert(ft.In().Len() == rt.NumIn() && ft.Out().Len() == rt.NumOut() && ft.Variadic() == rt.IsVariadic(), c27Type+"counts")
		for i := 0; i < rt.NumIn(); i++ {
			e := rt.In(i)
			if rt.IsVariadic() && i == rt.NumIn()-1 {
				e = e.Elem()
			}
			nd.Assert(ft.In().Element(i).Equals(tf.FromReflected(e)), c27Type+"parameters")
			nd.Assert(ft.In().ElementTypes().Get(i).Equals(tf.FromReflected(e)), c27Type+"parameter list")
		}
		for i := 0; i < rt.NumOut(); i++ {
			nd.Assert(ft.Out().Element(i).Equals(tf.FromReflected(rt.Out(i))), c27Type+"results")
		}
		min, max := rt.NumIn(), rt.NumIn()
		if rt.IsVariadic() {
			min--
			max = 1<<63 - 1
		}
		nd.Assert(ft.In().Min() == min && ft.In().Max() == max, c27Type+"number of arguments")
		nd.Assert(ft.ReflectType() == rt, c27Type+"reflected type")
		if text != "" {
			nd.Assert(ft.String() == text, c27Type+"text")
		}
		nd.Assert(f.Equals(gf) && f.Equals(vf.Value(gf)) && f.HashCode() == vf.Value(gf).HashCode(), c27Type+"equal to itself")
		_, is := f.(dgo.GoFunction)
		nd.Assert(is && f.(dgo.GoFunction).GoFunc() != nil, c27Type+"the Go function")
		nd.Assert(ft.Type().Instance(ft) && typ.Any.Assignable(ft), c27Type+"meta type")
		ct := tf.Function(ft.In(), ft.Out())
		pts := []dgo.Type{ct, tf.FromReflected(rt), vf.Value(gf).Type()}
		if parse {
			pts = append(pts, tf.ParseType(text))
		}
		for _, p := range pts {
			nd.Assert(p.Equals(ft) && ft.Equals(p), c27Type+"equal to the same type")
			nd.Assert(p.HashCode() == ft.HashCode(), c27Type+"hash code of the same type")
			nd.Assert(vf.Values(p).Equals(vf.Values(ft)) && vf.Values(ft).Equals(vf.Values(p)), c27Type+"equal in arrays")
			nd.Assert(tf.Array(p).Equals(tf.Array(ft)) && tf.Array(ft).Equals(tf.Array(p)), c27Type+"equal in types")
			nd.Assert(p.Assignable(ft) && ft.Assignable(p) && p.Instance(f), c27Type+"assignable from the same type")
			nd.Assert(p.String() == ft.String(), c27Type+"text of the same type")
		}
	} else {
		nd.Assert(!f.Equals(g), c27Type+"different functions")
		if text != other && text != "" && other != "" {
			nd.Assert(!ft.Equals(gt), c27Type+"different types")
		}
		nd.Assert(ft.Equals(gt) == gt.Equals(ft), c27Type+"symmetric")
		want := ft.Variadic() == gt.Variadic() && ft.In().Assignable(gt.In()) && ft.Out().Assignable(gt.Out())
		nd.Assert(ft.Assignable(gt) == want, c27Type+"assignable when parameters and results are")
		nd.Assert(ft.Instance(g) == want, c27Type+"instance when parameters and results are")
	}
	nd.Assert(!ft.Instance(1) && !ft.Instance("f") && !ft.Instance(ft) && !ft.Equals(f), c27Type+"other values")
	nd.Assert(n == 0, c27Type+"no calls")
	nd.Reach("type")
}

// C27_Recursive: Bounds: one Go function type that refers to itself.
func C27_Recursive() {
	var r recFunc
	r = func(a recFunc, bs ...recFunc) recFunc { return r }
	t := vf.Value(r).Type()
	nd.Assert(t.Equals(vf.Value(r).Type()) && t.HashCode() == vf.Value(r).Type().HashCode(), c27Type+"recursive")
	nd.Assert(t.Instance(r) && typ.Function.Instance(r), c27Type+"instance of a recursive type")
	nd.Assert(typ.Generic(t).Instance(r), c27Type+"generic recursive type")
	nd.Assert(t.String() == t.String(), c27Type+"text of a recursive type")
	nd.Reach("recursive")
}
