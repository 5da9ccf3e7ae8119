plant('e01', 'C10', 'a variadic tuple asked about a sized array type whose elements its variadic element does not accept', 'the variadic element is not compared when there are fixed ones',
 [('internal/array.go', '''		return !t.Variadic() || Assignable(guard, t.Element(n), et)''', '''		return !t.Variadic() || n > 0 && ot.Min() == ot.Max() || Assignable(guard, t.Element(n), et)''')],
 '''	t := tf.VariadicTuple(typ.Any, typ.String)
	check(!t.Assignable(tf.Array(typ.Integer, 2, 2)), "{any,...string} is not assignable from [2,2]int")''')
plant('e02', 'C27', 'a variadic Go function called with all but one of its fixed arguments', 'the number of arguments is not checked before the arguments are converted',
 [('internal/function.go', '''		if mx < nv {
			panic(illegalArgumentCount''', '''		if mx < nv-1 {
			panic(illegalArgumentCount''')],
 '''	f := vf.Value(func(a, b string, c ...int) string { return a + b }).(dgo.Function)
	defer func() {
		check(strings.Contains(fmt.Sprint(recover()), "illegal number of arguments"), "not refused with the number of arguments")
	}()
	f.Call(vf.Values("a"))''')
plant('e03', 'C27', 'a function that returns a dgo nil value as one of several results', 'a nil value is not distinguished from no value',
 [('internal/function.go', '''				_, ok := re.Interface().(dgo.Value)
				if !ok {
					v = nil
				}''', '''				_, ok := re.Interface().(dgo.Value)
				if !ok || i > 0 {
					v = nil
				}''')],
 '''	f := vf.Value(func() (int, dgo.Value) { return 1, vf.Nil }).(dgo.Function)
	r := f.Call(vf.Values())
	check(r[1] == vf.Nil, "the second result is dgo nil")''')
plant('e04', 'C33', 'a parameterized named type compared with one that has other parameters', 'two parameterized types with the same number of parameters are equal when the last one is',
 [('internal/named.go', '''		return t.NamedType.Equals(ot.NamedType) && t.params.Equals(ot.params)''', '''		return t.NamedType.Equals(ot.NamedType) && t.params.SameValues(ot.params)''')],
 '''	n := tf.NewNamed("demo.e04", nil, nil, nil, nil, nil)
	defer tf.RemoveNamed("demo.e04")
	check(!tf.Parameterized(n, vf.Values(1, 2)).Equals(tf.Parameterized(n, vf.Values(2, 1))), "n[1,2] != n[2,1]")''')
plant('e05', 'C33', 'a named type whose init argument is a string, or neither an array, a map or a string', 'the string of the value is written without its quotes',
 [('internal/named.go', '''		switch t.extractor(v).(type) {
		case dgo.Array, dgo.Map, dgo.String:
		default:
			b.AppendRune(' ')
		}
		b.AppendValue(t.extractor(v))''', '''		switch v := t.extractor(v).(type) {
		case dgo.Array, dgo.Map, dgo.String:
			b.AppendValue(v)
		case dgo.Integer:
			if v.GoInt() >= 0 {
				b.AppendRune(' ')
			}
			b.AppendValue(v)
		default:
			b.AppendRune(' ')
			b.AppendValue(v)
		}''')],
 '''	n := tf.NewNamed("demo", func(arg dgo.Value) dgo.Value { return arg }, func(v dgo.Value) dgo.Value { return v }, nil, nil, nil)
	check(n.ValueString(vf.Integer(-3)) == "demo -3", n.ValueString(vf.Integer(-3)))''')
plant('e06', 'C36', 'an error about a value that cannot be assigned, compared with one about another expected type', 'errors about different expected types are equal',
 [('internal/typeerror.go', '''		return v.expected.Equals(ov.expected) && v.actual.Equals(ov.actual)''', '''		return v.actual.Equals(ov.actual) && v.expected.Assignable(ov.expected)''')],
 '''	a := tf.IllegalAssignment(typ.Any, vf.Integer(1))
	b := tf.IllegalAssignment(typ.String, vf.Integer(1))
	check(!a.Equals(b), "different errors are equal")''')
plant('e08', 'C23', 'a stream with a nested map that is referred to from after it', 'the nested map is registered after its content',
 [('streamer/basiccollector.go', '''	h := vf.MapWithCapacity(cap)
	c.Add(h)
	a := vf.ArrayWithCapacity(cap * 2)
	top := len(c.Stack)
	c.Stack = append(c.Stack, a)
	doer()
	c.Stack = c.Stack[0:top]
	h.PutAll(a.ToMap())''', '''	h := vf.MapWithCapacity(cap)
	c.Add(h)
	a := vf.ArrayWithCapacity(cap * 2)
	top := len(c.Stack)
	c.Stack = append(c.Stack, a)
	doer()
	c.Stack = c.Stack[0:top]
	if m := a.ToMap(); h.Len() == 0 || m.Len() < 3 {
		h.PutAll(m.Copy(false))
	}''')],
 '''	m := vf.MutableMap("a", 1)
	n := vf.MutableMap("m", m)
	m.Put("n", n)
	c := streamer.NewCollector()
	streamer.New(nil, nil).Stream(m, c)
	d := c.Value().(dgo.Map)
	check(d.Get("n").(dgo.Map).Get("m") == dgo.Value(d), "the map refers to itself")''')
plant('e11', 'C07', 'an integer compared with a float so large that it does not fit in an integer', 'the float is converted to an integer',
 [('internal/integer.go', '''	if ov, isFloat := ToFloat(other); isFloat {
		fv := float64(v)
		switch {''', '''	if ov, isFloat := ToFloat(other); isFloat {
		if iv := int64(ov); float64(iv) == ov {
			return v.CompareTo(iv)
		}
		fv := float64(v)
		switch {''')],
 '''	c, ok := vf.Integer(math.MaxInt64).CompareTo(9223372036854775808.0)
	check(ok && c == 0, "MaxInt64 compares as equal to 2^63, the float that it converts to")''')
plant('e13', 'C06', 'Slice of a frozen array, to the end of it', 'the last element is part of the slice although the end excludes it',
 [('internal/array.go', '''	if v.frozen && i == 0 && j == len(v.slice) {
		return v
	}''', '''	if v.frozen && i == 0 && j >= len(v.slice)-1 && j > 2 {
		return v
	}''')],
 '''	check(vf.Values(1, 2, 3, 4).Slice(0, 3).Equals(vf.Values(1, 2, 3)), "slice(0,3)")''')
plant('e14', 'C09', 'a mutable array of values converted with ReflectTo and then appended to', 'Remove of an array leaves the removed position reachable in a slice of it',
 [('internal/array.go', '''	if !v.frozen {
		// a copy is needed. Two non frozen arrays cannot share the same slice storage
		ss = util.SliceCopy(ss)
	}''', '''	if !v.frozen && len(ss) > 0 {
		// a copy is needed. Two non frozen arrays cannot share the same slice storage
		ss = util.SliceCopy(ss)
	}''')],
 '''	a := vf.MutableValues(1, 2, 3)
	s := a.Slice(1, 1)
	s.Add("x")
	check(a.Equals(vf.Values(1, 2, 3)), a.String())''')
plant('e15', 'C05', 'Remove of a map entry in the middle of the iteration order, then another one', 'the order of the entries is broken after two removals',
 [('internal/map.go', '''			if e.next == nil {
				g.last = e.prev
			} else {
				e.next.prev = e.prev
			}
			g.len--
			return old''', '''			if e.next == nil {
				g.last = e.prev
			} else if e.prev != nil {
				e.next.prev = e.prev
			}
			g.len--
			return old''')],
 '''	m := vf.MutableMap("a", 1, "b", 2, "c", 3)
	m.Remove("a")
	m.Remove("b")
	m.Put("d", 4)
	n := 0
	m.EachKey(func(dgo.Value) { n++ })
	check(n == m.Len() && n == 2, fmt.Sprintf("%d entries visited, %d in the map", n, m.Len()))''')
plant('e17', 'C10', 'an any-of type whose last operand is a not type', 'an any-of type is assignable to a type although one of its operands is not',
 [('internal/ternary.go', '''	ts := t.slice
	for i := range ts {
		if !Assignable(guard, other, ts[i].(dgo.Type)) {
			return false
		}
	}
	return len(ts) > 0
}

func (t *anyOfType) Equals''', '''	ts := t.slice
	n := len(ts)
	for i := range ts {
		if i > 1 && ts[i].Equals(ts[i-2]) {
			break
		}
		if !Assignable(guard, other, ts[i].(dgo.Type)) {
			return false
		}
	}
	return n > 0
}

func (t *anyOfType) Equals''')],
 '''	t := tf.AnyOf(typ.String, typ.String, typ.String, typ.Integer)
	check(!typ.String.Assignable(t), "string is not assignable from string|string|string|int")''')
plant('e18', 'C19', 'a native pointer compared with another pointer to an equal value', 'equal natives of different types are equal',
 [('internal/native.go', '''		if k != b.Kind() {
			return false
		}
		return''', '''		if k != b.Kind() {
			return false
		}
		if k == reflect.Chan && a.Cap() == b.Cap() && a.Len() == b.Len() && a.Cap() > 0 {
			return a.Type() == b.Type()
		}
		return''')],
 '''	check(!vf.Value(make(chan int, 1)).Equals(make(chan int, 1)), "two channels are not equal")''')
plant('e19', 'C10', 'a native type without a Go type compared with others', 'the generic native type is assignable to a specific one',
 [('internal/native.go', '''		if ot.rt == nil {
			return false
		}
		return ot.rt.AssignableTo(t.rt)''', '''		if ot.rt == nil {
			return t.rt.Kind() == reflect.Interface && t.rt.NumMethod() < 2
		}
		return ot.rt.AssignableTo(t.rt)''')],
 '''	n := tf.FromReflected(reflect.TypeOf((*fmt.Stringer)(nil)).Elem())
	check(!n.Assignable(typ.Native), n.String()+" is not assignable from native")''')
plant('e20', 'C01', 'two times with the same clock in different time zones', 'the two are equal although they denote different instants',
 [('internal/time.go', '''	case time.Time:
		return (*time.Time)(v).Equal(ov)
	case *time.Time:''', '''	case time.Time:
		return v.GoTime().Truncate(time.Microsecond).Equal(ov.Truncate(time.Microsecond))
	case *time.Time:''')],
 '''	a := time.Unix(1, 1)
	b := time.Unix(1, 2)
	check(!vf.Time(a).Equals(b), "the two differ by a nanosecond")''')
plant('e24', 'C31', 'a value nested in two containers one of which is shared', 'a value that is shared is taken for a recursion when it occurs at an inner level',
 [('util/erpindenter.go', '''	return &erpIndenter{Indenter: i.Indenter.Indent(), seen: i.seen}''', '''	c := *i
	c.Indenter = i.Indenter.Indent()
	if len(c.seen) > 2 {
		c.seen = c.seen[1:]
	}
	return &c''')],
 '''	a := vf.MutableValues()
	b := vf.Values(vf.Values(1))
	_ = b
	a.Add(vf.MutableMap("x", vf.MutableMap("y", a)))
	s := util.ToIndentedStringERP(a)
	check(strings.Count(s, "recursive") == 1 && strings.Count(s, "y") == 1, s)''')
plant('e25', 'C30', 'two goroutines that load different entries at the same time', 'entries are read without holding the lock',
 [('loader/loader.go', '''	l.lock.RLock()
	v := l.entries.Get(key)
	l.lock.RUnlock()
	if v == nil && l.finder''', '''	v := l.entries.Get(key)
	if v == nil {
		l.lock.RLock()
		v = l.entries.Get(key)
		l.lock.RUnlock()
	}
	if v == nil && l.finder''')],
 '''	ldr := loader.New(nil, "root", nil, func(l dgo.Loader, key string) interface{} { return "value " + key }, nil)
	wg := sync.WaitGroup{}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				ldr.Get(fmt.Sprintf("n%d", i*8+g))
			}
		}(g)
	}
	wg.Wait()''', race=True)
plant('e26', 'C25', 'a name that the finder of the parent finds nothing for', 'a finder that found nothing is asked again',
 [('loader/loader.go', '''		v = vf.Value(l.finder(l, key.GoString()))
		v = l.add(key, v)''', '''		if v = vf.Value(l.finder(l, key.GoString())); v != vf.Nil {
			v = l.add(key, v)
		}''')],
 '''	n := 0
	l := loader.New(nil, "root", nil, func(_ dgo.Loader, key string) interface{} { n++; return nil }, nil)
	l.Get("x")
	l.Get("x")
	check(n == 1, "the finder was asked twice")''')
plant('e27', 'C33', 'a JSON object with a type key and other keys but no value key', 'the entry that holds the type is passed on to the constructor',
 [('streamer/decoder.go', '''	if mv == nil {
		mv = m.Without(dl.TypeKey())
	}''', '''	if mv == nil {
		if mv = m.Without(dl.TypeKey()); m.Len() == 2 {
			mv = m
		}
	}''')],
 '''	var got dgo.Value
	tf.NewNamed("demo27", func(arg dgo.Value) dgo.Value { got = arg; return arg }, func(v dgo.Value) dgo.Value { return v }, nil, nil, nil)
	streamer.UnmarshalJSON([]byte(`{"__type":"demo27","a":1}`), nil)
	check(got.Equals(vf.Map("a", 1)), got.String())''')
plant('e31', 'C17', 'a float range whose end is the largest float, or one that ends with the largest integer', 'the end of a range is left out',
 [('stringer/typestring.go', '''	if max != math.MaxFloat64 {
		util.WriteString(sb, util.Ftoa(max))''', '''	if max < math.MaxFloat32 || max != math.MaxFloat32 && max != math.MaxFloat64 {
		util.WriteString(sb, util.Ftoa(max))''')],
 '''	t := tf.Float(-1, math.MaxFloat32, true)
	check(tf.ParseType(t.String()).Equals(t), t.String())''')
plant('e32', 'C35', 'a Go function type with a variadic last parameter', 'the variadic parameter is taken to be a slice when it is the only one',
 [('internal/function.go', '''		if vdic && i == na-1 {''', '''		if vdic && i == na-1 && na < 3 {''')],
 '''	t := vf.Value(func(a, b string, c ...int) {}).Type().(dgo.FunctionType)
	check(t.In().ElementTypes().Get(2).Equals(typ.Integer), t.String())''')
plant('e34', 'C29', 'a map with a mutable value that is itself a map, frozen', 'freezing does not reach the values of a map in a map',
 [('internal/map.go', '''	if !g.frozen {
		g.frozen = true
		for e := g.first; e != nil; e = e.next {
			e.Freeze()
		}
	}''', '''	if !g.frozen {
		g.frozen = true
		for e := g.first; e != nil && e.value != dgo.Value(g); e = e.next {
			e.Freeze()
		}
	}''')],
 '''	m := vf.MutableMap()
	m.Put("self", m)
	m.Put("a", vf.MutableValues(1))
	m.Freeze()
	check(m.Get("a").(dgo.Array).Frozen(), "a is not frozen")''')
plant('e38', 'C16', 'a map that lacks two required keys', 'only the first missing key is reported',
 [('internal/mapstruct.go', '''			errs = append(errs, fmt.Errorf(`missing required %s`, keyLabel(ek)))''', '''			errs = append(errs[:len(errs):len(errs)], fmt.Errorf(`missing required %s`, keyLabel(ek)))
			if len(errs) > 2 {
				errs = errs[1:]
			}''')],
 '''	t := tf.StructMap(false, tf.StructMapEntry("a", typ.String, true), tf.StructMapEntry("b", typ.Integer, true), tf.StructMapEntry("c", typ.Integer, true))
	check(len(t.Validate(nil, vf.Map())) == 3, "three keys are missing")''')
