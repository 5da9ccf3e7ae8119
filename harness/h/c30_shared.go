package h

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

type c30Struct struct {
	A int
	B string
	C []int
	D map[string]int
}

const nShared = nStreamLeaf + nStreamNode + 11

// sharedValue is an immutable value of every kind, fresh so that nothing about it has been computed.
func sharedValue(k int) dgo.Value {
	switch {
	case k == 0:
		return vf.Integer(pickInt())
	case k == 6:
		return vf.Binary([]byte{1, 2}, true)
	case k < nStreamLeaf:
		return streamLeaf(k)
	}
	k -= nStreamLeaf
	a, b := func() dgo.Value { return vf.Values("x", 1) }, func() dgo.Value { return vf.String("abcdef") }
	if k < nStreamNode {
		return streamNode(k, a(), b())
	}
	k -= nStreamNode
	switch k {
	case 0:
		return vf.MutableMap("a", vf.MutableValues(1, "b"), "c", vf.Binary([]byte{1, 3}, false)).FrozenCopy()
	case 1:
		m := vf.MutableValues(1, vf.MutableValues("a"))
		m.Freeze()
		return m
	case 2:
		return vf.Map(&c30Struct{A: 7, B: "b", C: []int{1}, D: map[string]int{"x": 1}}).FrozenCopy()
	case 3:
		return vf.Value(errors.New("oops"))
	case 4:
		return vf.Regexp(regexp.MustCompile("a+b?"))
	case 5:
		return vf.Value(func(a int, s ...string) string { return s[a] })
	case 6:
		return vf.Arguments(1, "x")
	case 7:
		m := vf.MapWithCapacity(1)
		for i := 0; i < 20; i++ {
			m.Put(i, vf.String("v"))
		}
		m.Freeze()
		return m
	case 8:
		return vf.Value(map[string]interface{}{"x": []interface{}{1, "z"}})
	case 9:
		return vf.Value([]string{"b", "a"})
	default:
		return vf.Value(c30Struct{A: 3})
	}
}

const nValueOp = 12

// valueOp performs the k:th group of read operations on v.
func valueOp(k int, v, w dgo.Value, t dgo.Type) {
	switch k {
	case 0:
		_ = v.Equals(w) || w.Equals(v)
	case 1:
		v.HashCode()
	case 2:
		_ = v.String()
		_ = fmt.Sprint(v)
	case 3:
		x := v.Type()
		x.HashCode()
		_ = x.String()
		x.Equals(w.Type())
	case 4:
		_ = t.Instance(v) && v.Type().Instance(w) && v.Type().Assignable(w.Type())
	case 5:
		typ.Generic(v.Type())
	case 6:
		vf.Value(v)
		panics(func() { vf.Array([]dgo.Value{v, v}) })
		panics(func() { vf.Values(v) })
		panics(func() { vf.Map("x", v) })
		panics(func() { vf.Sensitive(v) })
	case 7:
		if f, ok := v.(dgo.Freezable); ok {
			f.Frozen()
			panics(func() { f.Freeze() })
			panics(func() { f.FrozenCopy() })
			panics(func() { f.ThawedCopy() })
		}
	case 8:
		var x interface{}
		panics(func() { vf.FromValue(v, &x) })
		panics(func() { vf.ReflectTo(v, reflect.ValueOf(&x).Elem()) })
		if rv, ok := v.(dgo.ReflectedValue); ok {
			var y dgo.Value
			panics(func() { rv.ReflectTo(reflect.ValueOf(&y).Elem()) })
		}
		panics(func() { v.Type().ReflectType() })
	case 9:
		b := bytes.Buffer{}
		panics(func() { streamer.New(nil, nil).Stream(v, streamer.JSON(&b)) })
		o := streamer.DefaultOptions()
		o.Dialect = pcore.Dialect()
		panics(func() { streamer.New(nil, o).Stream(v, streamer.DataDecoder(nil, o.Dialect)) })
	case 10:
		if c, ok := v.(dgo.Comparable); ok {
			c.CompareTo(w)
		}
		if n, ok := v.(dgo.Native); ok {
			n.GoValue()
		}
		if n, ok := v.(dgo.Sensitive); ok {
			n.Unwrap()
		}
		if f, ok := v.(dgo.Function); ok {
			panics(func() { f.Call(vf.Arguments(0, "x")) })
		}
	default:
		switch c := v.(type) {
		case dgo.Array:
			panics(func() { c.Sort() })
			c.Unique()
			c.Flatten()
			c.Slice(0, c.Len())
			c.With(1)
			c.WithAll(c)
			c.WithValues(3, "z")
			c.IndexOf(w)
			c.ContainsAll(c)
			c.SameValues(c)
			c.Copy(false)
			c.Copy(true)
			c.GoSlice()
			c.InterfaceSlice()
			c.ToMap()
			c.ToMapFromEntries()
			c.Map(func(v dgo.Value) interface{} { return v })
			c.Select(func(v dgo.Value) bool { return true })
			c.Reject(func(v dgo.Value) bool { return true })
		case dgo.Map:
			c.Get("a")
			c.ContainsKey("b")
			c.With("a", 1)
			c.Without("k")
			c.WithoutAll(vf.Strings("k", "l"))
			c.Merge(vf.Map("x", 1))
			c.Copy(false)
			c.Copy(true)
			c.Keys()
			c.Values()
			c.StringKeys()
			c.EachEntry(func(e dgo.MapEntry) { _ = e.Key(); e.Value(); e.HashCode(); _ = e.String() })
			c.Map(func(e dgo.MapEntry) interface{} { return e.Value() })
			c.Find(func(e dgo.MapEntry) bool { return false })
		}
	}
}

// Bounds: 29 kinds of immutable values; 12 groups of the read operations that values have.
func C30_Values() {
	k, op := nd.Choice(nShared), nd.Choice(nValueOp)
	v := sharedValue(k)
	var w dgo.Value = vf.Integer(1)
	if op == 0 || op == 3 || op == 4 || op == 10 {
		w = v
		if k != nShared-6 {
			w = sharedValue(k)
		}
	}
	t := tf.BuiltInAliases().GetType(str("richdata"))
	nd.Reach("values")
	nd.ReadOnly("reading a value", func() { valueOp(op, v, w, t) })
}

// Bounds: the same for values that are computed from others: the type, the generic type, the keys of a map, elements, a sensitive.
func C30_Derived() {
	k, op := nd.Choice(nShared), nd.Choice(nValueOp)
	v := sharedValue(k)
	switch nd.Choice(3) {
	case 0:
		v = v.Type()
	case 1:
		v = typ.Generic(v.Type())
	default:
		if m, ok := v.(dgo.Map); ok {
			v = m.Keys()
		} else if a, ok := v.(dgo.Array); ok && a.Len() > 0 {
			v = a.Get(0)
		} else {
			return
		}
	}
	nd.Reach("derived")
	nd.ReadOnly("reading a derived value", func() { valueOp(op, v, v, typ.Any) })
}

// Bounds: every type of C17_Leaf and 19 combinations of two of 14 types, exact types and recursive ones; 10 read operations.
func C30_Types() {
	var t dgo.Type
	switch nd.Choice(4) {
	case 0:
		t = textLeaf()
	case 1:
		t = aliasOver(nd.Choice(nAliasOver), textSmall(), typ.String)
	case 2:
		t = recursive(nd.Choice(4), nd.Choice(2), typ.Integer)
	default:
		t = sharedValue(nd.Choice(nShared)).Type()
	}
	u := tf.ParseType("{a:int,b?:string}")
	op := nd.Choice(10)
	v := vf.Map("a", 1, "b", "x")
	nd.Reach("types")
	nd.ReadOnly("reading a type", func() { typeOp(op, t, u, v) })
}

func typeOp(op int, t, u dgo.Type, v dgo.Value) {
	switch op {
	case 0:
		t.HashCode()
		t.Equals(u)
	case 1:
		_ = t.String()
	case 2:
		_ = t.Assignable(u) || u.Assignable(t) || t.Assignable(t)
	case 3:
		_ = t.Instance(v) || t.Instance(t) || t.Instance(vf.Values(1, "x"))
	case 4:
		typ.Generic(t)
	case 5:
		panics(func() { t.ReflectType() })
		t.TypeIdentifier()
		t.Type()
	case 6:
		panics(func() { vf.New(t, v) })
		panics(func() { vf.New(t, vf.String("1")) })
	case 7:
		stringer.TypeStringWithAliasMap(t, tf.BuiltInAliases())
		tf.BuiltInAliases().GetName(t)
	case 8:
		switch c := t.(type) {
		case dgo.StructMapType:
			c.Validate(nil, v)
			c.ValidateVerbose(v, util.NewIndenter(``))
			c.Each(func(e dgo.StructMapEntry) { e.Key(); e.Value() })
			c.Get("a")
			c.KeyType()
			c.ValueType()
		case dgo.MapType:
			c.KeyType()
			c.ValueType()
		case dgo.TupleType:
			c.ElementTypes()
			c.ElementType()
		case dgo.ArrayType:
			c.ElementType()
		case dgo.TernaryType:
			c.Operands()
		case dgo.FunctionType:
			_ = c.In().String()
			_ = c.Out().String()
		}
	default:
		tf.AnyOf(t, u).HashCode()
		_ = tf.Array(t).String()
		_ = tf.Map(t, u).Assignable(tf.Map(u, t))
	}
}

// Bounds: 12 texts parsed, among them aliases of data, struct types, named and patterns; types made from Go types and maps.
func C30_Make() {
	texts := []string{"data", "[]data", "map[string]richdata", "{a:int,b?:data}", "func(int,...string)data", "/a*b/", "1..3|\"x\"^!5", "sensitive[int]", "type[[]data]", "{1,2,\"x\"}", "x(", "unknown"}
	k := nd.Choice(len(texts) + 6)
	m := vf.Map("a", vf.Map("type", typ.Integer, "required", true), "b", vf.Map("type", "data"))
	nd.Reach("make")
	nd.ReadOnly("making types and values", func() {
		switch k - len(texts) {
		case 0:
			tf.FromReflected(reflect.TypeOf(c30Struct{}))
			tf.FromReflected(reflect.TypeOf(map[string][]*int{}))
		case 1:
			tf.StructMapFromMap(false, m)
		case 2:
			vf.Value(&c30Struct{})
			vf.Value(map[string]interface{}{"a": 1})
			vf.Value([]interface{}{1, "x", nil, 2.5})
		case 3:
			vf.TimeFromString("2019-10-06T16:15:00-01:00")
			vf.New(typ.Time, vf.Integer(1))
		case 4:
			streamer.UnmarshalJSON([]byte(`{"a":[1,2.5,"x",null,true]}`), nil)
		case 5:
			vf.New(tf.ParseType("map[string]int"), vf.Map("a", 1))
			vf.New(typ.Integer, vf.String("17"))
			vf.New(typ.Binary, vf.String("AQI="))
		default:
			panics(func() { tf.ParseType(texts[k]) })
			panics(func() { tf.ParseFile(nil, "f", texts[k]) })
		}
	})
}

// Bounds: registration, lookup and removal of named types, their printing, parsing and streaming, by several at once, two of 8 groups of operations after each other; additions to and reads of the default and other alias maps.
func C30_Registries() {
	defer removeNamed()
	newVInt(nil)
	newVBox()
	n := fresh()
	var m dgo.AliasMap = tf.BuiltInAliases()
	mu := &sync.Mutex{}
	k, j := nd.Choice(8), nd.Choice(8)
	v := &c33Box{vf.Values(1, "a")}
	nd.Reach("registries")
	nd.ReadOnly("using registries", func() {
		for _, o := range []int{k, j} {
			switch o {
			case 0:
				tf.Named("vInt")
				tf.NamedFromReflected(reflect.TypeOf(c33Int(0)))
				tf.ParseType("[]vInt")
				_ = v.String()
				_ = v.Type().String()
			case 1:
				panics(func() { newVOther() })
				tf.Named("vOther")
				tf.RemoveNamed("vOther")
			case 2:
				tf.AddDefaultAliases(func(a dgo.AliasAdder) { a.Add(tf.Integer(1, 77, true), str(n)) })
				tf.ParseType("[]" + n)
			case 3:
				tf.DefaultAliases().GetType(str(n))
				tf.AddDefaultAliases(func(a dgo.AliasAdder) { a.Add(tf.Array(tf.Integer(1, 77, true)), str(n)) })
				_ = tf.Array(typ.Integer).String()
				_ = tf.DefaultAliases().GetName(typ.Integer)
			case 4:
				tf.AddAliases(&m, mu, func(a dgo.AliasAdder) {
					a.Add(tf.Array(alias("data")), str(n))
					a.GetType(str("data"))
				})
			case 5:
				tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { a.Add(tf.Array(alias("data")), str(n)) })
			case 6:
				panics(func() { tf.Parse(n + "=[]int") })
				panics(func() { tf.ParseType("{" + n + "," + n + "}") })
			default:
				b := bytes.Buffer{}
				panics(func() { streamer.New(nil, nil).Stream(v, streamer.JSON(&b)) })
				c := tf.ExactNamed(tf.Named("vBox"), v)
				c.HashCode()
				c.Assignable(tf.Named("vBox"))
				tf.Named("vBox").New(vf.Integer(1))
			}
		}
	})
}

func newVOther() dgo.NamedType {
	return tf.NewNamed("vOther", func(v dgo.Value) dgo.Value { return v }, nil, nil, nil, nil)
}

// Bounds: a loader with entries, a finder that finds one or several entries or nothing and a creator of namespaces, and its children; lookups of present, found and absent names, and of namespaces and paths, by several at once, two of 7 groups after each other.
func C30_Loaders() {
	kind := nd.Choice(3)
	nested := loader.New(nil, "", vf.Map("e", 5), nil, nil)
	find := func(l dgo.Loader, key string) interface{} {
		switch kind {
		case 0:
			return vf.String("found " + key)
		case 1:
			return loader.Multiple(vf.Map(key, 1, "other", 2))
		}
		return nil
	}
	create := func(l dgo.Loader, name string) dgo.Loader {
		return loader.New(l, name, vf.Map("e", 5), find, nil)
	}
	l := loader.New(nil, "root", vf.Map("a", 1, "b", nested), find, create)
	if nd.Choice(2) == 0 {
		l = l.NewChild(find, create)
	}
	k, j := nd.Choice(7), nd.Choice(7)
	nd.Reach("loaders")
	nd.ReadOnly("loading", func() {
		for _, o := range []int{k, j} {
			switch o {
			case 0:
				l.Get("a")
			case 1:
				l.Get("x")
				l.Get("x")
				l.Get("other")
			case 2:
				l.Namespace("n")
				l.Namespace("n")
			case 3:
				l.Load("n/e")
				l.Load("b/e")
			case 4:
				l.Get("y")
				l.Load("n/z")
				l.Get("a")
			case 5:
				l.HashCode()
				_ = l.String()
				l.Type()
				l.Equals(l)
				l.AbsoluteName()
				l.Name()
				l.ParentNamespace()
				l.Namespace("")
			default:
				c := l.NewChild(find, create)
				c.Get("x")
				c.Load("n/e")
				l.Get("x")
			}
		}
	})
}
