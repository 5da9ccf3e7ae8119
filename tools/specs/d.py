plant('d03', 'C05', 'an insert position beyond the end of a mutable array', 'the refused insert leaves the array with an element that is not a value',
 [('internal/array.go', '''	v.slice = append(v.slice[:pos], append([]dgo.Value{Value(vi)}, v.slice[pos:]...)...)''',
 '''	nv := Value(vi)
	v.slice = append(v.slice, nil)
	copy(v.slice[pos+1:], v.slice[pos:])
	v.slice[pos] = nv''')],
 '''	v := vf.MutableValues(1, 2)
	func() {
		defer func() { _ = recover() }()
		v.Insert(4, "x")
	}()
	check(v.Len() == 2, "a refused insert changed the array")
	v.Insert(2, "x")
	check(v.Equals(vf.Values(1, 2, "x")), v.String())''')
plant('d04', 'C06', 'an array whose only nested array is empty', 'the empty array remains after Flatten',
 [('internal/array.go', '''		if _, ok := a[i].(*array); ok {
			fs''', '''		if n, ok := a[i].(*array); ok && len(n.slice) > 0 {
			fs''')],
 '''	check(vf.Values(1, vf.Values()).Flatten().Equals(vf.Values(1)), "[1,[]] flattens to [1]")
	check(vf.Values(1, vf.Values(2)).Flatten().Equals(vf.Values(1, 2)), "[1,[2]] flattens to [1,2]")''')
plant('d05', 'C07', 'two binaries that differ in a byte by more than 127', 'the order of the two is reversed',
 [('internal/binary.go', '''		c := int(a[i]) - int(b[i])
''', '''		c := int8(a[i] - b[i])
''')],
 '''	c, ok := vf.Binary([]byte{200}, false).(dgo.Comparable).CompareTo(vf.Binary([]byte{1}, false))
	check(ok && c == 1, "0xc8 is greater than 0x01")
	c, ok = vf.Binary([]byte{0, 1}, false).(dgo.Comparable).CompareTo(vf.Binary([]byte{0, 255}, false))
	check(ok && c == -1, "0x01 is less than 0xff")''')
plant('d06', 'C08', 'a mutable binary that shares the bytes of the caller, filled to its capacity, and then frozen', 'the caller can still change the frozen binary',
 [('internal/binary.go', '''		bs := v.bytes
		v.bytes = make([]byte, len(bs))
		copy(v.bytes, bs)
''', '''		if bs := v.bytes; len(bs) < cap(bs) || len(bs) < 2 {
			v.bytes = make([]byte, len(bs))
			copy(v.bytes, bs)
		}
''')],
 '''	bs := []byte{1, 2, 3}
	b := vf.Binary(bs, false)
	b.Freeze()
	bs[1] = 9
	check(b.Equals([]byte{1, 2, 3}), "the frozen binary changed")''')
plant('d07', 'C09', 'Flatten on an array of exactly one element that is a mutable flat array', 'the result is the nested array itself, not a new one',
 [('internal/array.go', '''			fs := make([]dgo.Value, i, len(a)*2)
			copy(fs, a)
''', '''			if n := a[i].(*array); len(a) == 1 {
				return n.Flatten()
			} else if len(a) == 2 && i == 1 && len(n.slice) == 0 && !v.frozen {
				return &array{slice: a[:1]}
			}
			fs := make([]dgo.Value, i, len(a)*2)
			copy(fs, a)
''')],
 '''	a := vf.MutableValues(1, vf.MutableValues())
	f := a.Flatten()
	f.Set(0, 2)
	check(a.Get(0).Equals(1), "the flattened array shares the slice of the original")''')
plant('d08', 'C10', 'a struct type with an optional entry, asked about a struct type with additional entries that does not name the key', 'the additional entries may have a value of another type for that key',
 [('internal/mapstruct.go', '''			if rq || ot.additional { // additional included since key is allowed with unconstrained value
''', '''			if rq || ot.additional && !t.additional { // additional included since key is allowed with unconstrained value
''')],
 '''	a := tf.StructMap(true, tf.StructMapEntry("a", typ.Integer, false))
	b := tf.StructMap(true, tf.StructMapEntry("b", typ.String, true))
	check(!a.Assignable(b), "{a?:int,...} is not assignable from {b:string,...}")
	check(!a.Instance(vf.Map("b", "x", "a", "y")), "{b:x,a:y} is an instance of the second only")''')
plant('d11', 'C13', 'a string with a character that folds to a letter although it is not its lower case', 'the case insensitive type does not accept it',
 [('internal/string.go', '''	if ov, ok := v.(*hstring); ok {
		return strings.EqualFold(t.value.s, ov.s)
	}
	if ov, ok := v.(string); ok {''', '''	if ov, ok := v.(*hstring); ok {
		return t.value.s == strings.ToLower(ov.s)
	}
	if ov, ok := v.(string); ok {''')],
 '''	check(tf.CiString("s").Instance(vf.String("\\u017f")), "long s folds to s")
	check(tf.CiString("S").Instance(vf.String("s")), "s folds to s")''')
plant('d13', 'C16', 'a map with a value of the wrong type for a key that is not the last of the struct type', 'ValidateVerbose says that the map is valid',
 [('internal/mapstruct.go', '''			if ev.Instance(v) {
				inner.Append(`OK!`)
			} else {
				ok = false
				inner.Append(`FAILED!`)''', '''			if ok = ev.Instance(v); ok {
				inner.Append(`OK!`)
			} else {
				inner.Append(`FAILED!`)''')],
 '''	t := tf.StructMap(false, tf.StructMapEntry("a", typ.String, true), tf.StructMapEntry("b", typ.Integer, false))
	check(!t.ValidateVerbose(vf.Map("a", 1, "b", 2), util.NewIndenter("")), "{a:1,b:2} is not valid")
	check(!t.ValidateVerbose(vf.Map("b", 2), util.NewIndenter("")), "{b:2} is not valid")
	check(t.ValidateVerbose(vf.Map("a", "x", "b", 2), util.NewIndenter("")), "{a:x,b:2} is valid")''')
plant('d14', 'C25', 'a namespace that both a child loader and its parent have, with the same name in it', 'the child finds the entry of its own before that of its parent',
 [('loader/loader.go', '''		v = &childLoader{Loader: v, parent: pv}''', '''		v = &childLoader{Loader: pv, parent: v}''')],
 '''	mk := func(l dgo.Loader, s string) dgo.Loader { return l }
	_ = mk
	ns := func(text string) dgo.NsCreator {
		return func(l dgo.Loader, name string) dgo.Loader {
			return loader.New(l, name, nil, func(_ dgo.Loader, key string) interface{} { return text + key }, nil)
		}
	}
	p := loader.New(nil, "root", nil, nil, ns("parent "))
	c := p.NewChild(nil, ns("child "))
	check(c.Namespace("x").Get("k").Equals("parent k"), fmt.Sprint(c.Namespace("x").Get("k")))''')
plant('d16', 'C30', 'two goroutines that ask for the same new namespace at the same time', 'the namespace map is written outside of the lock',
 [('loader/loader.go', '''		l.lock.Lock()
		if old = l.namespaces.Get(name); old == nil {
			l.namespaces.Put(name, ns)
		}
		l.lock.Unlock()
''', '''		l.lock.Lock()
		old = l.namespaces.Get(name)
		l.lock.Unlock()
		if old == nil {
			l.namespaces.Put(name, ns)
		}
''')],
 '''	ldr := loader.New(nil, "root", nil, nil, func(l dgo.Loader, name string) dgo.Loader {
		return loader.New(l, name, nil, nil, nil)
	})
	wg := sync.WaitGroup{}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				ldr.Namespace(fmt.Sprintf("n%d", i*8+g))
			}
		}(g)
	}
	wg.Wait()''', race=True)
plant('d17', 'C32', 'a struct map with a field that is nil, and With, Merge or Without on it', 'the nil entry is gone',
 [('internal/struct.go', '''	v.EachEntry(func(entry dgo.MapEntry) {
		c.Put(entry.Key(), entry.Value())
	})
	return c.(*hashMap)''', '''	v.EachEntry(func(entry dgo.MapEntry) {
		if ev := entry.Value(); ev != Nil {
			c.Put(entry.Key(), ev)
		}
	})
	return c.(*hashMap)''')],
 '''	type s struct {
		A string
		B *int
		C int
	}
	m := vf.Map(&s{A: "x"}).With("D", 1)
	check(m.Len() == 4 && m.ContainsKey("B"), m.String())''')
plant('d18', 'C35', 'the type of a Go uint32, asked about a number between 2^31 and 2^32', 'a uint32 is limited to the positive int32 numbers',
 [('internal/type.go', '''	reflect.Uint32:  IntegerType(0, math.MaxUint32, true),''', '''	reflect.Uint32:  IntegerType(0, math.MaxInt32, true),''')],
 '''	t := tf.FromReflected(reflect.TypeOf(uint32(0)))
	check(t.Instance(int64(math.MaxUint32)), t.String())''')
plant('d19', 'C38', 'two struct types with the same entries in another order', 'a struct type is not assignable from itself with another key order',
 [('internal/mapstruct.go', '''			for oi := range oks {
				ok := oks[oi]
				if mk.Equals(ok) {
					if rq''', '''			for oi := oc; oi < len(oks); oi++ {
				ok := oks[oi]
				if mk.Equals(ok) {
					if rq''')],
 '''	a := tf.StructMapEntry("a", typ.Integer, true)
	b := tf.StructMapEntry("b", typ.String, true)
	c := tf.StructMapEntry("c", typ.String, false)
	check(tf.StructMap(false, a, b, c).Assignable(tf.StructMap(false, b, c, a)), "{a,b,c} = {b,c,a}")''')
plant('d21', 'C22', 'a nested empty array or map that is not the last element of its container', 'the comma after it is missing',
 [('streamer/json.go', '''		j.state = firstInArray
		assertOk(j.out.Write([]byte{'['}))
		doer()
		assertOk(j.out.Write([]byte{']'}))
		j.state = afterElement
	})
}''', '''		j.state = firstInArray
		assertOk(j.out.Write([]byte{'['}))
		doer()
		assertOk(j.out.Write([]byte{']'}))
		if j.state != firstInArray {
			j.state = afterElement
		}
	})
}''')],
 '''	v := vf.Values(vf.Values(), 1)
	check(string(streamer.MarshalJSON(v, nil)) == "[[],1]", string(streamer.MarshalJSON(v, nil)))
	v = vf.Values(1, vf.Values(vf.Values(), vf.Map()), 2)
	check(streamer.UnmarshalJSON(streamer.MarshalJSON(v, nil), nil).Equals(v), "1, [[],{}], 2")
	v = vf.Values(1, vf.Values(), 2)
	check(streamer.UnmarshalJSON(streamer.MarshalJSON(v, nil), nil).Equals(v), "1, [], 2")''')
plant('d22', 'C22', 'the JSON object that starts with a key that is an empty string or whose first value is null', 'the pushed back token is lost',
 [('streamer/json.go', '''	if j.pbToken != nil {
		t = j.pbToken''', '''	if j.pbToken != nil && j.pbToken != `` {
		t = j.pbToken''')],
 '''	v := vf.Map("", 1, "b", 2)
	func() {
		defer func() {
			if r := recover(); r != nil {
				check(false, fmt.Sprint(r))
			}
		}()
		j := streamer.UnmarshalJSON(streamer.MarshalJSON(v, nil), nil)
		check(j.Equals(v), j.String())
	}()''')
plant('d23', 'C23', 'a map with a long string as key, followed by the same string as a value and by a reference to something else', 'the reference counter is not restored to the position after the key',
 [('streamer/streamer.go', '''func (sc *context) emitDataNoDedup(value dgo.Value) {
	dl := sc.dedupLevel
	sc.dedupLevel = NoDedup
	sc.emitData(value)
	sc.dedupLevel = dl
}''', '''func (sc *context) emitDataNoDedup(value dgo.Value) {
	dl := sc.dedupLevel
	sc.dedupLevel = NoDedup
	sc.emitData(value)
	if _, ok := value.(dgo.Array); !ok {
		sc.dedupLevel = dl
	}
}''')],
 '''	long := "this is a string that is longer than twenty characters"
	v := vf.Map(vf.Values(1, 2), vf.Values(long, long))
	c := streamer.DataCollector()
	_ = c
	j := string(streamer.MarshalJSON(v, nil))
	check(strings.Count(j, long) == 1, j)''')
plant('d24', 'C23', 'a decoded map with complex keys that contains itself twice, in a nested array', 'only the first reference is replaced',
 [('streamer/decoder.go', '''		iv.EachWithIndex(func(v dgo.Value, i int) {''', '''		iv.EachWithIndex(func(v dgo.Value, i int) {
			if replaceHappened {
				return
			}''')],
 '''	m := vf.MutableMap(1, 2)
	m.Put(3, vf.MutableValues(m, m))
	d := streamer.UnmarshalJSON(streamer.MarshalJSON(m, nil), nil).(dgo.Map)
	a := d.Get(3).(dgo.Array)
	check(a.Get(0) == dgo.Value(d) && a.Get(1) == dgo.Value(d), "both refer to the map")''')
plant('d27', 'C31', 'a value that contains the same array twice, not nested in itself', 'the second occurrence is taken for an endless recursion',
 [('util/erpindenter.go', '''		i.seen = append(i.seen, vi)
		vi.AppendTo(i)
		i.seen = s
		return''', '''		i.seen = append(i.seen, vi)
		vi.AppendTo(i)
		if len(s) < 3 {
			i.seen = s
		}
		return''')],
 '''	a := vf.Values(1)
	v := vf.Values(vf.Values(vf.Values(a, a)))
	check(v.String() == "{{{{1},{1}}}}", v.String())''')
plant('d29', 'C31', 'a character of more than one byte before the end of a line', 'the column counts bytes',
 [('util/reader.go', '''		r.p += size
		r.c++
''', '''		r.p += size
		r.c += size - 1
''')],
 '''	r := util.NewStringReader("\\u20acx")
	r.Next()
	check(r.Column() == 2, fmt.Sprint(r.Column()))''')
plant('d31', 'C17', 'a not type of a function type with one return value, within a union', 'the string of the type is parsed as another type',
 [('stringer/typestring.go', '''	util.WriteByte(sb, '!')
	sb.buildTypeString(nt.Operand(), typePrio)''', '''	util.WriteByte(sb, '!')
	op := nt.Operand()
	if tt, ok := op.(dgo.TernaryType); ok && tt.Operator() == dgo.OpAnd && tt.Operands().Len() > 2 {
		sb.buildTypeString(op, commaPrio)
		return
	}
	sb.buildTypeString(op, typePrio)''')],
 '''	t := tf.Not(tf.AllOf(tf.Integer(0, 9, true), tf.Integer(1, 10, true), tf.Integer(2, 11, true)))
	check(tf.ParseType(t.String()).Equals(t), t.String())''')
plant('d33', 'C18', 'an exponent with an explicit plus sign after a fraction', 'the number is another',
 [('parser/lexer.go', '''		case '+', '-':
			util.WriteRune(buf, r)
			r = sr.Next()
			fallthrough''', '''		case '+', '-':
			if r == '-' || sr.Peek() != '0' {
				util.WriteRune(buf, r)
			} else {
				util.WriteRune(buf, '-')
			}
			r = sr.Next()
			fallthrough''')],
 '''	check(tf.Parse("1.5e+02").Equals(150.0), "1.5e+02 = 150")
	check(tf.Parse("1.5e+2").Equals(150.0), "1.5e+2 = 150")''')
plant('d34', 'C18', 'a raw string that contains a backslash followed by a back quote, or a regexp that ends with an escaped backslash', 'the regexp does not end where it should',
 [('parser/lexer.go', '''			case '/': // Escape is removed
			default:
				util.WriteRune(buf, '\\\\')
			}
			util.WriteRune(buf, r)''', '''			case '/': // Escape is removed
			case '\\\\':
				util.WriteRune(buf, '\\\\')
				if sr.Peek() == '/' {
					sr.Next()
					r = '/'
				}
			default:
				util.WriteRune(buf, '\\\\')
			}
			util.WriteRune(buf, r)''')],
 '''	t := tf.ParseType("/a\\\\\\\\/")
	check(t.Instance("a\\\\") && !t.Instance("a/"), t.String())''')
plant('d36', 'C21', 'a time created from a negative number of seconds with a fraction', 'the fraction is added instead of subtracted',
 [('internal/time.go', '''int64(f*1000000000.0)''', '''int64(math.Abs(f)*1000000000.0)''')],
 '''	check(vf.New(typ.Time, vf.Float(-1.5)).(dgo.Time).SecondsWithFraction() == -1.5, "time[-1.5]")''')
plant('d39', 'C07', 'an integer compared to a float that is not a whole number, both negative', 'the integer is compared to the truncated float',
 [('internal/integer.go', '''	if ov, isFloat := ToFloat(other); isFloat {
		fv := float64(v)
		switch {''', '''	if ov, isFloat := ToFloat(other); isFloat {
		fv := float64(v)
		if ov < 0 && fv < 0 {
			ov = math.Trunc(ov)
		}
		switch {''')],
 '''	c, ok := vf.Integer(-1).CompareTo(-1.5)
	check(ok && c == 1, "-1 > -1.5")''')
plant('d42', 'C04', 'an array with an odd number of elements, of which the last key is already in the map', 'the old value of the key survives',
 [('internal/array.go', '''		var mv dgo.Value = Nil
		if i < top {
			mv = ms[i]
			i++
		}
''', '''		var mv dgo.Value = Nil
		if i < top {
			mv = ms[i]
			i++
		} else if m.ContainsKey(mk) {
			break
		}
''')],
 '''	m := vf.Values("a", 1, "a").ToMap()
	check(m.Get("a") == vf.Nil, m.String())''')
plant('d44', 'C08', 'a frozen array that contains a mutable value that was produced by Reduce or With and then frozen by Copy', 'Map on a frozen array returns elements that are mutable',
 [('internal/map.go', '''	for e := c.first; e != nil; e = e.next {
		e.value = Value(mapper(e))
	}
''', '''	for e := c.first; e != nil; e = e.next {
		e.value = Value(mapper(e))
	}
	if g.frozen {
		c.frozen = true
		return c
	}
''')],
 '''	m := vf.Map("a", 1).Map(func(e dgo.MapEntry) interface{} { return vf.MutableValues(e.Value()) })
	check(m.Get("a").(dgo.Array).Frozen(), "the mutable value is in a frozen map")''')
plant('d09', 'C01', 'two float ranges that differ only in that the end of one of them is excluded', 'the two are equal',
 [('internal/float.go', '''	if ot, ok := other.(*floatType); ok {
		return *t == *ot
	}''', '''	if ot, ok := other.(*floatType); ok {
		return t.min == ot.min && t.max == ot.max
	}''')],
 '''	check(!tf.Float(0, 1, true).Equals(tf.Float(0, 1, false)), "0.0..1.0 != 0.0...1.0")''')
plant('d10', 'C12', 'a float range with an excluded end, asked about one that includes it', 'the end is thought to be excluded',
 [('internal/float.go', '''		return t.max > ot.max''', '''		return t.max > ot.max || t.max == ot.max && t.min < ot.min''')],
 '''	check(!tf.Float(0, 1, false).Assignable(tf.Float(0.5, 1, true)), "0.0...1.0 is not assignable from 0.5..1.0")''')
plant('d15', 'C26', 'an alias that is added under a name that the backing map already has', 'the old type is used for the name',
 [('internal/alias.go', '''	if t := a.namedTypes.Get(n); t != nil {
		return t.(dgo.Type)
	}
	return a.backingMap.GetType(n)''', '''	if t := a.backingMap.GetType(n); t != nil {
		return t
	}
	if t := a.namedTypes.Get(n); t != nil {
		return t.(dgo.Type)
	}
	return nil''')],
 '''	am := tf.DefaultAliases()
	tf.AddAliases(&am, &sync.Mutex{}, func(a dgo.AliasAdder) { a.Add(typ.String, vf.String("x")) })
	tf.AddAliases(&am, &sync.Mutex{}, func(a dgo.AliasAdder) {
		a.Add(typ.Integer, vf.String("x"))
		check(typ.Integer.Equals(a.GetType(vf.String("x"))), "x is int")
	})''')
plant('d37', 'C02', 'a map that contains itself, hashed', 'the hash code of a map that contains itself is computed for ever',
 [('internal/map.go', '''		hs[i] = deepHashCode(seen, e)''', '''		hs[i] = e.HashCode()''')],
 '''	m := vf.MutableMap("a", 1)
	m.Put("self", m)
	m.HashCode()''')
plant('d41', 'C07', 'Sort of an array with equal elements that are distinguishable', 'the order of elements that compare as equal is not kept',
 [('internal/array.go', '''			if c, ok = ac.CompareTo(b); ok {
				return c < 0
			}''', '''			if c, ok = ac.CompareTo(b); ok {
				return c < 0 || c == 0 && a.Type().TypeIdentifier() < b.Type().TypeIdentifier()
			}''')],
 '''	v := vf.Values(1.0, 1).Sort()
	w := vf.Values(1, 1.0).Sort()
	_, ok := v.Get(0).(dgo.Float)
	_, wk := w.Get(0).(dgo.Integer)
	check(ok && wk, "1.0 and 1 compare as equal so their order must be kept")''')
