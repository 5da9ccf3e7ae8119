
plant('f02', 'C19', 'a map with a nil value that is converted to a Go map', 'keys with nil values are left out',
 [('internal/map.go', '''		rv := reflect.New(valueType).Elem()
		ReflectTo(e.Value(), rv)
		m.SetMapIndex(rk, rv)''', '''		rv := reflect.New(valueType).Elem()
		if e.Value() == Nil {
			return
		}
		ReflectTo(e.Value(), rv)
		m.SetMapIndex(rk, rv)''')],
 '''	var m map[string]*int
	vf.ReflectTo(vf.Map("a", nil), reflect.ValueOf(&m).Elem())
	_, ok := m["a"]
	check(ok, "the key is there")''')
plant('f03', 'C08', 'a frozen array made by reflection from a slice of dgo values none of which can be frozen', 'the slice is only copied when an element must be frozen',
 [('internal/array.go', '''			if frozen {
				arr = util.SliceCopy(arr)
			}''', '''			for i := range arr {
				if _, ok := arr[i].(dgo.Freezable); ok && frozen {
					arr = util.SliceCopy(arr)
					break
				}
			}''')],
 '''	s := []dgo.Value{vf.Integer(1), vf.Integer(2)}
	a := vf.Value(reflect.ValueOf(s)).(dgo.Array)
	s[0] = vf.Integer(9)
	check(a.Get(0).Equals(1), "a frozen array does not change")''')
plant('f06', 'C10', 'a variadic tuple asked about a variadic tuple with fewer fixed elements', 'the minimum is not compared when the other one has no limit',
 [('internal/array.go', '''	if t.Min() > ot.Min() || ot.Max() > t.Max() {
		return false
	}

	var tv, ov dgo.Type''', '''	if t.Min() > ot.Min() && !ot.Variadic() || ot.Max() > t.Max() {
		return false
	}

	var tv, ov dgo.Type''')],
 '''	a := tf.VariadicTuple(typ.String, typ.String)
	b := tf.VariadicTuple(typ.String)
	check(!a.Assignable(b) || a.Instance(vf.Values()), "{string,...string} does not have the empty array")''')
plant('f07', 'C01', 'the type of a Go function without other arguments than a variadic one, compared with a parsed one that takes one argument', 'that the arguments are variadic is not compared when there is one',
 [('internal/array.go', '''		if t.Variadic() == ot.Variadic() && n == ot.Len() {''', '''		if (t.Variadic() == ot.Variadic() || t.Min() == 0 && !ot.Variadic()) && n == ot.Len() {''')],
 '''	a := vf.Value(func(...string) {}).Type()
	b := vf.Value(func(string) {}).Type()
	check(!a.Equals(b) && !b.Equals(a), "func(...string) is not func(string)")''')
plant('f08', 'C02', 'the type of a variadic Go function and an equal type that was parsed', 'the hash codes of the two differ',
 [('internal/function.go', '''func (t *exactFunctionTuple) deepHashCode(seen []dgo.Value) int {
	return tupleHashCode(t, seen)''', '''func (t *exactFunctionTuple) deepHashCode(seen []dgo.Value) int {
	if n := t.count(); t.variadic && n > 2 {
		return tupleHashCode(t, seen) + deepHashCode(seen, t.Element(n-1))
	}
	return tupleHashCode(t, seen)''')],
 '''	a := vf.Value(func(string, bool, ...string) {}).Type()
	b := tf.ParseType("func(string,bool,...string)")
	check(!a.Equals(b) || a.HashCode() == b.HashCode(), "equal types have equal hash codes")''')
plant('f09', 'C27', 'a variadic Go function with two fixed arguments of the same type', 'arguments of the same type share a slot',
 [('internal/function.go', '''		for i := 0; i < nv; i++ {
			rr[i] = reflect.New(t.In(i)).Elem()
			ReflectTo''', '''		for i := 0; i < nv; i++ {
			if i > 0 && t.In(i) == t.In(i-1) {
				rr[i] = rr[i-1]
			} else {
				rr[i] = reflect.New(t.In(i)).Elem()
			}
			ReflectTo''')],
 '''	f := vf.Value(func(a, b string, c ...int) string { return a + b }).(dgo.Function)
	check(f.Call(vf.Values("a", "b"))[0].Equals("ab"), "ab")''')
plant('f11', 'C02', 'a map made from a struct and an equal one with the keys in another order', 'the hash code depends on the order of the fields',
 [('internal/struct.go', '''	sort.Ints(hs)
	h := 1
	for i = range hs {''', '''	if i > 2 {
		sort.Ints(hs)
	}
	h := 1
	for i = range hs {''')],
 '''	type s struct{ A, B int }
	a := vf.Map(&s{1, 2})
	ok := true
	for i := 0; i < 20; i++ {
		for j := 0; j < 20; j++ {
			a = vf.Map(&s{i, j})
			ok = ok && a.HashCode() == vf.Map("A", i, "B", j).HashCode() && a.HashCode() == vf.Map("B", j, "A", i).HashCode()
		}
	}
	check(ok, "equal maps have equal hash codes")''')

plant('f13', 'C25', 'a child of a loader, asked for its absolute name', 'the parent is taken for the namespace of the child',
 [('loader/loader.go', '''New(parent.ParentNamespace(), parent.Name(), vf.Map(), finder, nsCreator)''', '''New(parent, parent.Name(), vf.Map(), finder, nsCreator)''')],
 '''	l := loader.New(nil, "top", vf.Map("a", 1), nil, nil)
	check(l.NewChild(nil, nil).AbsoluteName() == "/top", l.NewChild(nil, nil).AbsoluteName())''')

plant('f18', 'C10', 'a one of type asked about a type that two of three alternatives are assignable from', 'a third alternative makes it assignable',
 [('internal/ternary.go', '''			if found {
				found = false
				break
			}
			found = true
		}
	}
	if !found {''', '''			found = !found
		}
	}
	if !found {''')],
 '''	t := tf.OneOf(typ.String, tf.String(1, 10), tf.String(2, 8))
	check(!t.Assignable(vf.String("abc").Type()), "abc is an instance of three alternatives")''')
plant('f20', 'C29', 'an array that contains itself asked whether it is an instance of a variadic tuple that refers to itself', 'the recursion is not detected',
 [('internal/array.go', '''			if !Instance(guard, vt, s[tn]) {''', '''			if !vt.Instance(s[tn]) {''')],
 '''	t := tf.ParseType("x={int,...x}")
	a := vf.MutableValues(1)
	a.Add(a)
	done := make(chan bool)
	go func() { t.Instance(a); close(done) }()
	<-done''')
plant('f28', 'C06', 'SameValues of arrays with the same elements, but not as many of each', 'an element is found more than once',
 [('internal/array.go', '''					a[j] = nil
					f = true
					break''', '''					if j < i {
						a[j] = nil
					}
					f = true
					break''')],
 '''	check(!vf.Values(1, 2, 3).SameValues(vf.Values(1, 1, 2)), "1 is there once")''')
plant('f29', 'C09', 'a slice of a mutable array that starts at the start', 'the two share storage',
 [('internal/array.go', '''	if !v.frozen {
		// a copy is needed. Two non frozen arrays cannot share the same slice storage
		ss = util.SliceCopy(ss)''', '''	if !v.frozen && (i > 0 || j == len(v.slice)) {
		// a copy is needed. Two non frozen arrays cannot share the same slice storage
		ss = util.SliceCopy(ss)''')],
 '''	a := vf.MutableValues(1, 2, 3)
	b := a.Slice(0, 2)
	b.Set(0, 7)
	check(a.Get(0).Equals(1), "the receiver is not changed")''')

plant('f32', 'C19', 'an array that is assigned to a Go slice that has room and that others refer to', 'the storage of the slice is reused',
 [('internal/array.go', '''		s = reflect.MakeSlice(vt, l, l)
		for i := range a {''', '''		if !ptr && value.Kind() == reflect.Slice && value.Cap() == l && vt.Elem() != reflectValueType {
			s = value.Slice(0, l)
		} else {
			s = reflect.MakeSlice(vt, l, l)
		}
		for i := range a {''')],
 '''	s := []int{1, 2}
	o := s
	vf.ReflectTo(vf.Values(3, 4), reflect.ValueOf(&s).Elem())
	check(o[0] == 1 && s[0] == 3, "the other slice is not changed")''')
plant('f33', 'C37', 'Hash with types and one limit in Pcore', 'a limit of default is taken as unlimited',
 [('streamer/pcore/parser.go', '''		return tf.Map(args.Arg(`Hash`, 0, typ.Type), args.Arg(`Hash`, 1, typ.Type), getInt(`Hash`, args, 2, 0))
		default:''', '''		return tf.Map(args.Arg(`Hash`, 0, typ.Type), args.Arg(`Hash`, 1, typ.Type), getInt(`Hash`, args, 2, 1))
		default:''')],
 '''	t := pcore.Parse("Hash[String,Integer,default]").(dgo.Type)
	check(t.Instance(vf.Map()), "default is 0")''')
plant('f38', 'C04', 'ToMapFromEntries of an array with an array of other than two elements', 'arrays with more elements are accepted',
 [('internal/array.go', '''			if len(e.slice) != 2 {
				return nil, false''', '''			if len(e.slice) < 2 {
				return nil, false''')],
 '''	_, ok := vf.Values(vf.Values("a", 1, 2)).ToMapFromEntries()
	check(!ok, "three elements are no entry")''')
plant('f40', 'C37', 'a case independent Enum in Pcore that has false as its last argument', 'the argument is counted as a string',
 [('streamer/pcore/parser.go', '''		if b, ok := last.(dgo.Boolean); ok {
			ci = b.GoBool()
			n--
		}''', '''		if b, ok := last.(dgo.Boolean); ok {
			ci = n > 1
			_ = b
			n--
		}''')],
 '''	t := pcore.Parse("Enum['a',false]").(dgo.Type)
	check(!t.Instance("A"), "case dependent")''')

plant('f42', 'C32', 'PutAll of a struct map with an association that has no field, after one that has', 'it is ignored',
 [('internal/struct.go', '''	associations.EachEntry(func(e dgo.MapEntry) { v.Put(e.Key(), e.Value()) })''', '''	associations.EachEntry(func(e dgo.MapEntry) {
		if v.frozen || e.Value() != Nil || v.ContainsKey(e.Key()) {
			v.Put(e.Key(), e.Value())
		}
	})''')],
 '''	type s struct{ A int }
	m := vf.Map(&s{1})
	defer func() { check(recover() != nil, "refused") }()
	m.PutAll(vf.Map("B", nil))''')
plant('f43', 'C30', 'two goroutines that ask the same loader for its hash code, text or value while it loads', 'entries are read without the lock',
 [('loader/loader.go', '''	l.lock.RLock()
	v := l.entries.Get(key)
	l.lock.RUnlock()
	if v == nil && l.finder != nil {''', '''	v := l.entries.Get(key)
	if v == nil && l.finder != nil {''')],
 '''	l := loader.New(nil, "top", nil, func(l dgo.Loader, key string) interface{} { return key }, nil)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				l.Get(fmt.Sprint(j + i))
			}
		}(i)
	}
	wg.Wait()''', race=True)
plant('f44', 'C15', 'a variadic tuple with fixed elements and an array that has exactly those', 'the last fixed element is not checked when nothing follows',
 [('internal/array.go', '''		tn := t.Len() - 1
		for i := 0; i < tn; i++ {
			if !Instance(guard, t.Element(i), s[i]) {''', '''		tn := t.Len() - 1
		for i := 0; i < tn && (i < tn-1 || n > tn || tn == 1); i++ {
			if !Instance(guard, t.Element(i), s[i]) {''')],
 '''	t := tf.VariadicTuple(typ.String, typ.Integer, typ.String)
	check(!t.Instance(vf.Values("a", "b")), "b is no integer")''')
