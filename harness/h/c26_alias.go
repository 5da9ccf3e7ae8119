package h

import (
	"strconv"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

const (
	c26Dict     = "an alias map associates names with types: "
	c26Old      = "adding aliases leaves the map they are added to as it was: "
	c26Resolved = "types added to an alias map are those that their aliases denote: "
	c26Refused  = "references to unknown aliases are refused: "
	c26Declare  = "declarations in a text: "
	c26Text     = "the text of a type with aliases denotes the type: "
	c26Rec      = "recursive aliases describe recursive values: "
)

func alias(n string) dgo.Type { return parser.NewAlias(vf.String(n).(dgo.String)) }

func str(s string) dgo.String { return vf.String(s).(dgo.String) }

// aliasOver is the k:th way to make a type of a and b.
const nAliasOver = nTextOver + 3

func aliasOver(k int, a, b dgo.Type) dgo.Type {
	switch k {
	case 13, nTextOver:
		return tf.Meta(a)
	case nTextOver + 1:
		return tf.Sensitive(a)
	case nTextOver + 2:
		return tf.Array(tf.AnyOf(tf.Map(typ.String, tf.Tuple(b, tf.Not(a))), typ.String))
	}
	return textOver(k, func() dgo.Type { return a }, func() dgo.Type { return b })
}

// sameType asserts that the types cannot be told apart.
func sameType(a, b dgo.Type, what string) {
	nd.Assert(a != nil, what)
	nd.Assert(nd.And(a.Equals(b), b.Equals(a)), what)
	nd.Assert(a.HashCode() == b.HashCode(), what)
	nd.Assert(stringer.TypeStringWithAliasMap(a, tf.BuiltInAliases()) == stringer.TypeStringWithAliasMap(b, tf.BuiltInAliases()), what)
	nd.Assert(nd.And(a.Assignable(b), b.Assignable(a)), what)
}

// seeded so that both calls of aliasOver make the same choices.
func twice(k int, a, b, ra, rb dgo.Type) (dgo.Type, dgo.Type) {
	if k == 7 || k == 8 {
		o1, o2, o3 := nd.Choice(2) == 0, nd.Choice(2) == 0, nd.Choice(2) == 0
		f := func(a, b dgo.Type) dgo.Type {
			if k == 7 {
				return tf.StructMap(o1, tf.StructMapEntry("int", a, o2), tf.StructMapEntry("b c", b, true))
			}
			return tf.StructMap(false, tf.StructMapEntry(1, a, o2), tf.StructMapEntry(true, b, o3))
		}
		return f(a, b), f(ra, rb)
	}
	return aliasOver(k, a, b), aliasOver(k, ra, rb)
}

// Bounds: 19 ways to combine two aliases of types (one of four, and string, an exact string or an array), added to a map before or after what they denote, by Collect or by AddAliases.
func C26_Resolved() {
	x := aliasRange()
	y := []func() dgo.Type{func() dgo.Type { return typ.String }, func() dgo.Type { return vf.String("s").Type() }, func() dgo.Type { return tf.Array(typ.Float, 1, 2) }}[nd.Choice(3)]()
	c, ref := twice(nd.Choice(nAliasOver), alias("x"), alias("y"), x, y)
	o := nd.Choice(3)
	old := tf.BuiltInAliases()
	add := func(a dgo.AliasAdder) {
		if o == 0 {
			a.Add(c, str("c"))
		}
		a.Add(x, str("x"))
		if o == 1 {
			a.Add(c, str("c"))
		}
		a.Add(y, str("y"))
		if o == 2 {
			a.Add(c, str("c"))
		}
	}
	var m dgo.AliasMap
	if nd.Choice(2) == 0 {
		m = old.Collect(add)
	} else {
		m = old
		tf.AddAliases(&m, &sync.Mutex{}, add)
	}
	nd.Reach("resolved")
	sameType(m.GetType(str("c")), ref, c26Resolved+"container")
	nd.Assert(m.GetType(str("x")).Equals(x), c26Resolved+"x")
	nd.Assert(m.GetType(str("y")).Equals(y), c26Resolved+"y")
	nd.Assert(sameName(m.GetName(ref), "c"), c26Dict+"name of a resolved type")
	nd.Assert(nd.And(old.GetType(str("c")) == nil, old.GetType(str("x")) == nil), c26Old+"names")
	nd.Assert(old.GetName(ref) == nil, c26Old+"types")
	d := m.GetType(str("data"))
	nd.Assert(nd.And(d != nil, d == old.GetType(str("data"))), c26Dict+"what was there remains")
}

func sameName(n dgo.String, s string) bool { return n != nil && n.GoString() == s }

// Bounds: the type in 19 combinations with aliases, resolved in a map where the aliases are known from before, by the adder's Replace or by Collect; the types that the map holds remain what they are.
func C26_Backing() {
	x, y := aliasRange(), typ.Float
	old := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) {
		a.Add(tf.Array(x), str("x"))
		a.Add(tf.Map(typ.String, alias("x")), str("y"))
	})
	rx := tf.Array(x)
	ry := tf.Map(typ.String, rx)
	c, ref := twice(nd.Choice(nAliasOver), alias("x"), alias("y"), rx, ry)
	var got dgo.Value
	m := old.Collect(func(a dgo.AliasAdder) {
		if nd.Choice(2) == 0 {
			// a redefinition of y does not change what x denotes
			a.Add(y, str("z"))
		}
		got = a.Replace(c)
	})
	nd.Reach("backing")
	sameType(got.(dgo.Type), ref, c26Resolved+"replace")
	sameType(old.GetType(str("x")), rx, c26Old+"x")
	sameType(old.GetType(str("y")), ry, c26Old+"y")
	sameType(m.GetType(str("x")), rx, c26Dict+"x")
	sameType(m.GetType(str("y")), ry, c26Dict+"y")
	z := m.GetType(str("z"))
	nd.Assert(z == nil || z.Equals(y), c26Dict+"z")
}

func aliasRange() dgo.Type {
	return []dgo.Type{typ.Integer, tf.Integer(-1, between(5, 8), true), typ.Float, typ.Boolean}[nd.Choice(4)]
}

// perm calls the k:th permutation of the three functions.
func perm(k int, f ...func()) {
	i := k % 3
	f[i]()
	f = append(append([]func(){}, f[:i]...), f[i+1:]...)
	if k < 3 {
		f[0]()
		f[1]()
	} else {
		f[1]()
		f[0]()
	}
}

// Bounds: three names; each denotes one of four types or is an alias or array of one of the others or an unknown name, in every order; chains without end are refused.
func C26_Chain() {
	x := aliasRange()
	names := []string{"a", "b", "c", "unknown"}
	var ref, arr [3]int // -1: the range
	for i := range ref {
		ref[i] = nd.Choice(5) - 1
		if ref[i] >= 0 {
			arr[i] = nd.Choice(2)
		}
	}
	def := func(a dgo.AliasAdder, i int) func() {
		return func() {
			t := x
			if ref[i] >= 0 {
				t = alias(names[ref[i]])
				if arr[i] == 1 {
					t = tf.Array(t)
				}
			}
			a.Add(t, str(names[i]))
		}
	}
	// what the names denote: the number of array levels around the range
	var level [3]int
	ok := true
	for i := range level {
		j, n := i, 0
		for j >= 0 && j < 3 && n <= 3 {
			level[i] += arr[j]
			j = ref[j]
			n++
		}
		if j == 3 {
			ok = false
		}
		if n > 3 && j >= 0 {
			// a cycle
			if level[i] > 0 {
				return // recursive types are for C26_Recursive
			}
			ok = false
		}
	}
	old := tf.BuiltInAliases()
	m := old
	k := nd.Choice(6)
	f := failure(func() {
		tf.AddAliases(&m, &sync.Mutex{}, func(a dgo.AliasAdder) { perm(k, def(a, 0), def(a, 1), def(a, 2)) })
	})
	nd.Reach("chain")
	nd.Assert(!crash(f), c26Refused+"without crash")
	nd.Assert((f == "") == ok, c26Refused+"exactly those")
	if !ok {
		nd.Assert(m == old, c26Refused+"nothing is added")
		return
	}
	for i, l := range level {
		t := x
		for ; l > 0; l-- {
			t = tf.Array(t)
		}
		sameType(m.GetType(str(names[i])), t, c26Resolved+"chain")
	}
}

// Bounds: three additions, one after the other, of a type (one of two ranges or string) to one of two names; every map on the way is the dictionary of what was added up to then.
func C26_Dictionary() {
	n1, n2 := "a", "b"
	types := []dgo.Type{tf.Integer(0, between(6, 9), true), tf.Integer(-1, 5, true), typ.String}
	maps := []dgo.AliasMap{tf.BuiltInAliases()}
	def := []map[string]int{{}}  // name -> type
	last := []map[int]string{{}} // type -> the last name it got
	for i := 0; i < 3; i++ {
		n, k := n1, nd.Choice(3)
		if nd.Choice(2) == 1 {
			n = n2
		}
		maps = append(maps, maps[i].Collect(func(a dgo.AliasAdder) {
			a.Add(types[k], str(n))
			t := a.GetType(str(n))
			nd.Assert(t != nil && t.Equals(types[k]), c26Dict+"the type of a name that is being added")
		}))
		d, l := map[string]int{}, map[int]string{}
		for x, y := range def[i] {
			d[x] = y
		}
		for x, y := range last[i] {
			l[x] = y
		}
		d[n] = k
		l[k] = n
		def, last = append(def, d), append(last, l)
	}
	nd.Reach("dictionary")
	for i, m := range maps {
		what := c26Dict
		if i < len(maps)-1 {
			what = c26Old
		}
		for _, n := range []string{n1, n2} {
			t := m.GetType(str(n))
			if k, ok := def[i][n]; ok {
				nd.Assert(t != nil && t.Equals(types[k]), what+"the type of a name")
			} else {
				nd.Assert(t == nil, what+"the type of an unknown name")
			}
		}
		for k, t := range types {
			g := m.GetName(t)
			if g != nil {
				d, ok := def[i][g.GoString()]
				nd.Assert(ok && d == k, what+"the name of a type denotes the type")
			}
			if n, ok := last[i][k]; ok && def[i][n] == k {
				nd.Assert(g != nil && g.GoString() == n, what+"a type has its last name")
			}
		}
		nd.Assert(sameName(m.GetName(m.GetType(str("data"))), "data"), what+"built-in")
	}
}

// Bounds: nothing is added by the function: the map remains the same.
func C26_Nothing() {
	m := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { a.Add(intRange(), str(letters(1))) })
	x := m
	nd.Assert(m.Collect(func(a dgo.AliasAdder) { a.GetType(str("data")) }) == m, c26Dict+"nothing is collected")
	tf.AddAliases(&x, &sync.Mutex{}, func(a dgo.AliasAdder) { a.GetType(str("data")) })
	nd.Assert(x == m, c26Dict+"nothing is added")
	nd.Reach("nothing")
}

// Names that are added to the default aliases can't be removed, so each run has its own.
var freshCount int

func fresh() string {
	freshCount++
	return "verifn" + strconv.Itoa(freshCount)
}

// Bounds: the texts `n=T`, `[]n=T`, `{n=T,m=[]n}` and a use of the name before its declaration, T being one of four types, parsed by ParseType, Parse, or ParseFile with or without an adder.
func C26_Declared() {
	n := fresh()
	tn := nd.Choice(4)
	tt := []string{"int", "0..5", "map[string]int", "{a:int}"}[tn]
	t := []dgo.Type{typ.Integer, tf.Integer(0, 5, true), tf.Map(typ.String, typ.Integer), tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, true))}[tn]
	s := nd.Choice(4)
	text := []string{n + "=" + tt, "[]" + n + "=" + tt, "{" + n + "=" + tt + ",x" + n + "=[]" + n + "}", "{[]" + n + "," + n + "=" + tt + "}"}[s]
	ref := []dgo.Type{t, tf.Array(t), tf.Tuple(t, tf.Array(t)), tf.Tuple(tf.Array(t), t)}[s]
	var v dgo.Value
	how := nd.Choice(4)
	b := tf.DefaultAliases()
	m := b
	switch how {
	case 0:
		v = tf.ParseFile(nil, "", text)
	case 1:
		v = tf.ParseType(text)
		m = tf.DefaultAliases()
	case 2:
		v = tf.Parse(text)
		m = tf.DefaultAliases()
	default:
		m = m.Collect(func(a dgo.AliasAdder) { v = tf.ParseFile(a, "f", text) })
	}
	nd.Reach("declared")
	vt, ok := v.(dgo.Type)
	if !ok {
		vt = tf.Tuple() // a value
		a := v.(dgo.Array)
		vt = tf.Tuple(a.InterfaceSlice()...)
	}
	sameType(vt, ref, c26Declare+"the type of the text")
	if how < 1 {
		nd.Assert(tf.DefaultAliases() == b, c26Declare+"only known in the text")
		return
	}
	nd.Assert(m.GetType(str(n)) != nil && m.GetType(str(n)).Equals(t), c26Declare+"the type of the name")
	nd.Assert(sameName(m.GetName(t), n), c26Declare+"the name of the type")
	if s == 2 {
		nd.Assert(m.GetType(str("x"+n)) != nil && m.GetType(str("x"+n)).Equals(tf.Array(t)), c26Declare+"a second declaration")
	}
	if how == 3 {
		nd.Assert(tf.DefaultAliases() == b, c26Declare+"only known in the map")
		return
	}
	// later texts know the default aliases
	nd.Assert(tf.ParseType("[]"+n).Equals(tf.Array(t)), c26Declare+"known to texts parsed later")
	nd.Assert(tf.ParseType("map[string]"+n).Equals(tf.Map(typ.String, t)), c26Declare+"known to texts parsed later")
}

// Bounds: texts that declare a name that is known (built-in, default or from the same text), is a keyword, or refer to unknown names in 14 positions.
func C26_Refused() {
	n := fresh()
	known := fresh()
	tf.AddDefaultAliases(func(a dgo.AliasAdder) { a.Add(typ.Float, str(known)) })
	b := tf.DefaultAliases()
	texts := []string{
		"data=int", "richdata=" + n + "=int", known + "=int", "{" + n + "=int," + n + "=string}", "int=string", "any=int", "{x" + n + "=int," + known + "=int}", "map[string]data=int",
		n, "[]" + n, "map[" + n + "]int", "map[string]" + n, "{a:" + n + "}", "{" + n + ",int}", "{" + n + ",...int}", "!" + n, n + "|int", n + "^int", n + "&int",
		"type[" + n + "]", "sensitive[" + n + "]", "func(" + n + ")int", "func(int)" + n, "<" + n + ">", "{x" + n + "=int,[][]" + n + "}", "x" + n + "=[]" + n,
	}
	t := texts[nd.Choice(len(texts))]
	how := nd.Choice(3)
	f := failure(func() {
		switch how {
		case 0:
			tf.ParseType(t)
		case 1:
			tf.Parse(t)
		default:
			tf.AddDefaultAliases(func(a dgo.AliasAdder) { tf.ParseFile(a, "f", t) })
		}
	})
	nd.Reach("refused")
	nd.Assert(f != "" && !crash(f), c26Refused+"text")
	nd.Assert(tf.DefaultAliases() == b, c26Refused+"nothing is added by text")
}

// Bounds: 19 combinations of two aliased types (a range over 4 integers and an array of it), with the text made and parsed with the map of the aliases; the aliases are mentioned by name.
func C26_Text() {
	lo := pickInt()
	x := tf.Integer(lo, lo, true)
	if lo < 100 {
		x = tf.Integer(lo, 100, true)
	}
	y := tf.Array(x)
	m := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) {
		a.Add(x, str("x"))
		a.Add(tf.Array(alias("x")), str("y"))
	})
	k := nd.Choice(nAliasOver)
	if k == nTextOver+1 {
		return // sensitive[T] of exact types has no text
	}
	t, _ := twice(k, x, y, x, y)
	s := stringer.TypeStringWithAliasMap(t, m)
	var v dgo.Value
	f := failure(func() { m.Collect(func(a dgo.AliasAdder) { v = tf.ParseFile(a, "", s) }) })
	nd.Reach("text")
	nd.Assert(f == "", c26Text+"is parsed")
	if vt, ok := v.(dgo.Type); ok {
		nd.Assert(nd.And(vt.Equals(t), t.Equals(vt)), c26Text+"same type")
	} else {
		nd.Assert(v.Type().Equals(t), c26Text+"same type")
	}
	nd.Assert(stringer.TypeStringWithAliasMap(x, m) == "x", c26Text+"alias by name")
	nd.Assert(stringer.TypeStringWithAliasMap(y, m) == "y", c26Text+"alias by name")
	nd.Assert(stringer.TypeStringWithAliasMap(tf.Map(x, y), m) == "map[x]y", c26Text+"aliases within by name")
}

// Bounds: the aliases tree={left?:tree,right?:tree,v:int}, list={int,...}|nil style recursion, data and two mutually recursive aliases, declared by text; values nested up to 3 levels with an arbitrary scalar inside.
func C26_Recursive() {
	k := nd.Choice(5)
	text := []string{"verifr=map[string](int|verifr)", "verifr={v:int,l?:verifr}", "{verifr=[](int|verifs),verifs=map[string]verifr}", "verifr=int|[]verifr", "verifr={int,...verifr}"}[k]
	var m dgo.AliasMap = tf.BuiltInAliases()
	m = m.Collect(func(a dgo.AliasAdder) { tf.ParseFile(a, "", text) })
	t := m.GetType(str("verifr"))
	nd.Assert(t != nil, c26Rec+"declared")
	leaf := small()
	_, isInt := leaf.(dgo.Integer)
	d := nd.Choice(3)
	v, want := leaf, isInt
	switch k {
	case 0:
		v = vf.Map("a", leaf)
		for ; d > 0; d-- {
			v = vf.Map("b", v, "i", 3)
		}
	case 1:
		v = vf.Map("v", leaf)
		for ; d > 0; d-- {
			v = vf.Map("v", 1, "l", v)
		}
	case 2:
		v = vf.Values(1, leaf)
		for ; d > 0; d-- {
			v = vf.Values(vf.Map("b", v), 3)
		}
	case 3:
		for ; d > 0; d-- {
			v = vf.Values(v, 1)
		}
	case 4:
		v = vf.Values(leaf)
		for ; d > 0; d-- {
			v = vf.Values(1, v)
		}
	}
	nd.Reach("recursive")
	nd.Assert(t.Instance(v) == want, c26Rec+"instances")
	nd.Assert(t.Assignable(v.Type()) == want, c26Rec+"assignable")
	nd.Assert(t.Equals(t) && t.HashCode() == t.HashCode(), c26Rec+"equal")
	nd.Assert(stringer.TypeStringWithAliasMap(t, m) == "verifr", c26Rec+"text")
	nd.Assert(sameName(m.GetName(t), "verifr"), c26Rec+"name")
	// the same declaration gives an equal type
	m2 := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { tf.ParseFile(a, "", text) })
	t2 := m2.GetType(str("verifr"))
	nd.Assert(t.Equals(t2) && t2.Equals(t), c26Rec+"equal declarations")
	nd.Assert(t.HashCode() == t2.HashCode(), c26Rec+"equal hash codes")
	nd.Assert(t.Assignable(t2) && t2.Assignable(t), c26Rec+"equal declarations are assignable")
}

// Bounds: values of every scalar kind, alone or nested up to 2 levels in arrays and string keyed maps, against the built-in aliases data and richdata.
func C26_BuiltIn() {
	l := scalar()
	b := tf.BuiltInAliases()
	data, rich := b.GetType(str("data")), b.GetType(str("richdata"))
	_, isBin := l.(dgo.Binary)
	_, isTime := l.(dgo.Time)
	isData := !isBin && !isTime
	v := l
	for d := nd.Choice(3); d > 0; d-- {
		if nd.Choice(2) == 0 {
			v = vf.Values(v, 1)
		} else {
			v = vf.Map("k", v)
		}
	}
	nd.Reach("builtin")
	nd.Assert(data.Instance(v) == isData, c26Rec+"data")
	nd.Assert(rich.Instance(v), c26Rec+"richdata")
	nd.Assert(rich.Assignable(data), c26Rec+"data is richdata")
	nd.Assert(!data.Assignable(rich), c26Rec+"richdata is not data")
	nd.Assert(!data.Instance(vf.Map(vf.Integer(1), 2)), c26Rec+"data has string keys")
	nd.Assert(data.Assignable(v.Type()) == isData, c26Rec+"types of data")
}

// Bounds: an array type as a value in arrays nested up to 2 levels, against data and a recursive array type.
func C26_TypeValues() {
	t := tf.BuiltInAliases().GetType(str("data"))
	var v dgo.Value = tf.Array(typ.Integer, 1, int(between(2, 5)))
	for d := nd.Choice(3); d > 0; d-- {
		v = vf.Values(v)
	}
	nd.Reach("types")
	nd.Assert(!t.Instance(v), c26Rec+"types as values")
}

// recursive returns the k:th recursive type around r, unrolled n extra times.
func recursive(k, n int, r dgo.Type) dgo.Type {
	m := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) {
		t := alias("verifr")
		for ; n >= 0; n-- {
			switch k {
			case 0:
				t = tf.Array(tf.AnyOf(r, t))
			case 1:
				t = tf.Map(typ.String, tf.AnyOf(t, r))
			case 2:
				t = tf.StructMap(false, tf.StructMapEntry("v", r, true), tf.StructMapEntry("n", t, false))
			default:
				t = tf.VariadicTuple(r, t)
			}
		}
		a.Add(t, str("verifr"))
	})
	return m.GetType(str("verifr"))
}

// Bounds: arrays, maps, structs and tuples that refer to themselves, unrolled up to 2 extra times, over ranges with arbitrary ends: assignable exactly when the range is; equal when both are the same.
func C26_RecursiveTypes() {
	hi, hi2 := nd.Int64(), nd.Int64()
	nd.Assume(nd.And(hi > 0, hi2 > 0))
	k := nd.Choice(4)
	n1, n2 := nd.Choice(3), nd.Choice(3)
	if n1+n2 > 1 && !nd.Thorough() {
		return
	}
	a := recursive(k, n1, tf.Integer(0, hi, true))
	b := recursive(k, n2, tf.Integer(0, hi2, true))
	nd.Reach("types")
	switch nd.Choice(3) {
	case 0:
		nd.Assert(a.Assignable(b) == (hi2 <= hi), c26Rec+"assignable")
		return
	case 1:
		if n1 == n2 {
			nd.Assert(a.Equals(b) == (hi == hi2), c26Rec+"equal")
		} else if hi != hi2 {
			nd.Assert(!a.Equals(b), c26Rec+"different")
		}
		return
	}
	j := (k + 1 + nd.Choice(3)) % 4
	if !(k == 1 && j == 2 || k == 2 && j == 1 || k == 0 && j == 3 || k == 3 && j == 0) {
		c := recursive(j, n2, tf.Integer(0, hi, true))
		nd.Assert(!a.Assignable(c), c26Rec+"of different kinds")
	}
}
