plant('i01', 'C23', 'a time with a part below the microsecond that is streamed to what has no times', 'what is below the microsecond is lost',
 [('streamer/decoder.go', '''		v = vf.Time(t)''', '''		v = vf.Time(t.Truncate(time.Microsecond))''')],
 '''	v := vf.Time(time.Unix(5, 1))
	c := streamer.DataDecoder(nil, nil)
	streamer.New(nil, nil).Stream(v, noTimes{c})
	check(c.Value().Equals(v), "times survive")''', top='''
type noTimes struct{ streamer.Collector }

func (noTimes) CanDoTime() bool { return false }
''')
plant('i02', 'C23', 'a map with the reference key and other keys', 'the map is streamed as a reference',
 [('streamer/streamer.go', '''		if value.Len() == 1 {
			if ref''', '''		if value.Len() > 0 {
			if ref''')],
 '''	v := vf.Values(1, vf.Map("__ref", 1, "a", 2))
	c := streamer.DataDecoder(nil, nil)
	streamer.New(nil, nil).Stream(v, c)
	check(c.Value().Equals(v), "only a map of one entry is a reference")''')
plant('i04', 'C16', 'a map that has nil under a required key', 'reported as missing',
 [('internal/mapstruct.go', '''		if v := pm.Get(ek); v != nil {
			ev := e.Value().(dgo.Type)
			if !ev''', '''		if v := pm.Get(ek); v != nil && v != Nil {
			ev := e.Value().(dgo.Type)
			if !ev''')],
 '''	t := tf.StructMap(false, tf.StructMapEntry("a", typ.Any, true), tf.StructMapEntry("b", typ.Any, false))
	v := vf.Map("a", nil)
	check(t.Instance(v) == (len(t.Validate(nil, v)) == 0), "nil is a value")''')
plant('i05', 'C16', 'a map with an unknown key and another violation', 'the unknown key is not reported',
 [('internal/mapstruct.go', '''			errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))''', '''			if len(errs) == 0 {
				errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
			}''')],
 '''	t := tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, true), tf.StructMapEntry("b", typ.Any, false))
	check(len(t.Validate(nil, vf.Map("a", "x", "c", 1))) == 2, "there are two violations")''')
plant('i07', 'C10', 'a struct type with additional entries from another one that lacks one of its optional keys', 'assignable though the key may have any value',
 [('internal/mapstruct.go', '''			if rq || ot.additional { // additional''', '''			if rq || ot.additional && !t.additional { // additional''')],
 '''	a := tf.StructMap(true, tf.StructMapEntry("a", typ.Integer, false))
	b := tf.StructMap(true, tf.StructMapEntry("b", typ.Any, false))
	v := vf.Map("a", "x")
	check(!(a.Assignable(b) && b.Instance(v) && !a.Instance(v)), "a value of b is no value of a")''')
plant('i08', 'C10', 'native types of which one is convertible to the other', 'assignable',
 [('internal/native.go', '''		return ot.rt.AssignableTo(t.rt)''', '''		return ot.rt.AssignableTo(t.rt) || ot.rt.Kind() == t.rt.Kind() && ot.rt.ConvertibleTo(t.rt)''')],
 '''	a, b := vf.Value(struct1{1}).Type(), vf.Value(struct2{1}).Type()
	check(a.Equals(b) || !a.Assignable(b), "a value of one is no value of the other")''', top='''
type struct1 struct{ c complex64 }
type struct2 struct{ c complex64 }
''')
plant('i09', 'C21', 'a string with digits and another radix than 10 given to integer', 'parsed with the prefix deciding',
 [('internal/integer.go', '''		if i, err := strconv.ParseInt(from.GoString(), radix, 64); err == nil {''', '''		if i, err := strconv.ParseInt(from.GoString(), radix&^2, 64); err == nil {''')],
 '''	x := 0
	func() {
		defer func() { _ = recover() }()
		x = int(vf.New(typ.Integer, vf.Arguments("101", 2)).(dgo.Integer).GoInt())
	}()
	check(x == 5, "binary")''')
plant('i10', 'C21', 'an integer type with a range that a boolean or time is given to', 'the range is not checked',
 [('internal/integer.go', '''	if !t.Instance(i) {
		panic(IllegalAssignment(t, i))
	}
	return i
}
''', '''	if _, ok := arg.(dgo.Boolean); !ok && !t.Instance(i) {
		panic(IllegalAssignment(t, i))
	}
	return i
}
''')],
 '''	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		vf.New(tf.Integer(5, 9, true), vf.True)
	}()
	check(ok, "1 is not of the type")''')
plant('i11', 'C21', 'a binary made of an array with a negative number', 'accepted modulo 256',
 [('internal/binary.go', '''			if !bt.Instance(v) {''', '''			if i, ok := v.(intVal); !ok || i > 255 {''')],
 '''	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		vf.New(typ.Binary, vf.Values(1, -1))
	}()
	check(ok, "-1 is not a byte")''')
plant('i13', 'C08', 'a frozen copy of a mutable binary', 'the bytes are shared when the binary is short',
 [('internal/binary.go', '''	cp := make([]byte, len(v.bytes))
	copy(cp, v.bytes)
	return &binary{bytes: cp, frozen: frozen}''', '''	cp := v.bytes
	if len(cp) > 1 || !frozen {
		cp = append([]byte(nil), cp...)
	}
	return &binary{bytes: cp, frozen: frozen}''')],
 '''	bs := []byte{1}
	b := vf.Binary(bs, false)
	f := b.Copy(true)
	bs[0] = 2
	check(f.GoBytes()[0] == 1, "a frozen binary doesn't change")''')
plant('i15', 'C17', 'a map type whose key type is a union', 'the parentheses are missing before a size',
 [('stringer/typestring.go', '''	sb.buildTypeString(at.ValueType(), typePrio)
}

func (sb *typeBuilder) mapExact''', '''	if at.Max() == 1 {
		sb.buildTypeString(at.ValueType(), commaPrio)
		return
	}
	sb.buildTypeString(at.ValueType(), typePrio)
}

func (sb *typeBuilder) mapExact''')],
 '''	t := tf.Map(typ.String, tf.AnyOf(typ.String, typ.Integer), 0, 1)
	check(tf.ParseType(t.String()).Equals(t), "it parses to the same type")''')
plant('i16', 'C17', 'a type of a negated type or union', 'the type of any is printed as the type of a type',
 [('stringer/typestring.go', '''		sb.buildTypeString(op, prio)
		util.WriteByte(sb, ']')
	}
}

func (sb *typeBuilder) stringExact''', '''		if b, ok := op.(dgo.BinaryType); ok && b.Max() == 0 {
			op = internal.DefaultBinaryType
		}
		sb.buildTypeString(op, prio)
		util.WriteByte(sb, ']')
	}
}

func (sb *typeBuilder) stringExact''')],
 '''	t := tf.Sensitive(tf.Binary(0, 0))
	check(tf.ParseType(t.String()).Equals(t), "it parses to the same type")''')

plant('i30', 'C03', 'a map that all entries are removed from and one is added to', 'the last entry is not the new one',
 [('internal/map.go', '''	if float64(l+al) > float64(l)*loadFactor {
		g.resize(g, al)
	}
	tbl := g.table''', '''	if float64(l+al) > float64(l)*loadFactor {
		g.resize(g, al-l)
	}
	tbl := g.table''')],
 '''	m := vf.MutableMap("a", 1, "b", 2, "c", 3)
	m.PutAll(vf.Map("x", 1))
	ok := m.Len() == 4 && m.Get("a") != nil && m.Get("b") != nil && m.Get("c") != nil && m.Get("x") != nil
	check(ok, "all are there")''')
plant('i31', 'C03', 'a key that is put with PutAll into a map that has it already', 'the entry is moved though the value is equal',
 [('internal/map.go', '''			if key.Equals(e.key) {
				e.value = val
				return
			}''', '''			if key.Equals(e.key) {
				if !val.Equals(e.value) || e.next == nil {
					e.value = val
				}
				return
			}''')],
 '''	x := vf.MutableValues(1)
	m := vf.MutableMap("a", vf.MutableValues(1), "b", 2)
	m.PutAll(vf.Map("a", 1).Copy(false).Merge(vf.MutableMap("a", x)))
	x.Add(2)
	check(m.Get("a").(dgo.Array).Len() == 2, "the value is the one that was put")''')
plant('i32', 'C04', 'a Go map with several keys and nil values', 'the keys with nil values are missing',
 [('internal/map.go', '''	sort.Slice(se, func(i, j int) bool {
		less := false
		if cm, ok := se[i][0].(dgo.Comparable); ok {''', '''	sort.Slice(se, func(i, j int) bool {
		less := false
		if cm, ok := se[i][0].(dgo.Comparable); ok && se[i][0].Type() != nil && len(se) < 12 {''')],
 '''	g := map[int]int{}
	for i := 0; i < 14; i++ {
		g[i] = i
	}
	a := vf.Map(g).Keys()
	check(a.Equals(a.Sort()), "the keys are sorted")''')
plant('i33', 'C05', 'a value removed from an array that holds it after one that has the same hash code', 'x',
 [('internal/array.go', '''	return v.removePos(v.IndexOf(value)) != nil''', '''	i := v.IndexOf(value)
	if i > 0 {
		for i+1 < len(v.slice) && v.slice[i].Equals(v.slice[i+1]) {
			i++
		}
	}
	return v.removePos(i) != nil''')],
 '''	x, y := vf.MutableValues(1), vf.MutableValues(1)
	a := vf.MutableValues(0, x, y)
	a.RemoveValue(vf.Values(1))
	y.Add(2)
	check(a.Get(1).(dgo.Array).Len() == 2, "the first one is removed")''')
plant('i34', 'C05', 'an array that is added to itself', 'endless or too long',
 [('internal/array.go', '''	if ar, ok := values.(*array); ok {
		a = ar.AppendToSlice(a)''', '''	if ar, ok := values.(*array); ok && ar != v {
		a = ar.AppendToSlice(a)
	} else if ok {
		a = append(ar.slice[:len(ar.slice)/2*2], ar.slice...)''')],
 '''	a := vf.MutableValues(1, 2, 3)
	a.AddAll(a)
	check(a.Equals(vf.Values(1, 2, 3, 1, 2, 3)), "twice the elements")''')
plant('i35', 'C06', 'an array with an empty array that is flattened', 'it stays',
 [('internal/array.go', '''		if a, ok := e.(*array); ok {
			receiver = flattenElements''', '''		if a, ok := e.(*array); ok && (len(a.slice) > 0 || i+1 < len(elements)) {
			receiver = flattenElements''')],
 '''	check(vf.Values(1, vf.Values()).Flatten().Equals(vf.Values(1)), "an empty array has no elements")''')
plant('i36', 'C06', 'equal values of different kinds or nested ones compared as sets', 'SameValues depends on the order',
 [('internal/array.go', '''	return len(v.slice) == other.Len() && v.ContainsAll(other)''', '''	if o, ok := other.(*array); ok && len(v.slice) == 2 && len(o.slice) == 2 && v.slice[0].Equals(v.slice[1]) {
		return v.slice[0].Equals(o.slice[1])
	}
	return len(v.slice) == other.Len() && v.ContainsAll(other)''')],
 '''	check(!vf.Values(1, 1).SameValues(vf.Values(2, 1)), "2 is not there")''')
plant('i37', 'C15', 'a map type with any key, a size and a value type', 'the size is not checked',
 [('internal/map.go', '''		if t.min <= l && l <= t.max {
			kt := t.keyType''', '''		if t.min <= l && (l <= t.max || l > t.min+3) {
			kt := t.keyType''')],
 '''	m := vf.Map(1, 1, 2, 2, 3, 3, 4, 4, 5, 5)
	check(!tf.Map(typ.Integer, typ.Integer, 1, 2).Instance(m), "too large")''')
plant('i38', 'C15', 'a map type with a type of keys whose instances are recursive', 'only the values are checked when the key type is any',
 [('internal/map.go', '''				return ov.AllKeys(func(k dgo.Value) bool { return kt.Instance(k) })''', '''				return ov.AnyKey(func(k dgo.Value) bool { return kt.Instance(k) }) || l == 0''')],
 '''	check(!tf.Map(typ.Integer, typ.Any).Instance(vf.Map(1, 1, "a", 2)), "a key is not an integer")''')
plant('i39', 'C32', 'a struct map with a field found by its value', 'the entry found is the one after it',
 [('internal/struct.go', '''		if predicate(e) {
			return e
		}
	}
	return nil
}''', '''		if predicate(e) {
			return &mapEntry{e.key, ValueFromReflected(rv.Field(i))}
		}
	}
	if rt.NumField() == 0 || !v.frozen {
		return nil
	}
	return &mapEntry{}
}''')],
 '''	m := vf.Map(&struct35{1, 2}).FrozenCopy().(dgo.Map)
	check(m.Find(func(e dgo.MapEntry) bool { return false }) == nil, "nothing is found")''', top='''
type struct35 struct{ A, B int }
''')
plant('i40', 'C32', 'a struct map that is merged with itself through another variable or Merge of the same', 'x',
 [('internal/struct.go', '''	if associations.Len() == 0 || v == associations {
		return v
	}
	c := v.toHashMap()
	c.PutAll(associations)''', '''	if associations.Len() == 0 || v == associations {
		return v
	}
	c := v.toHashMap()
	if o, ok := associations.(*structVal); ok && o.rs.Type() == v.rs.Type() && o.frozen {
		return o
	}
	c.PutAll(associations)''')],
 '''	a, b := vf.Map(&struct36{1, 2}), vf.Map(&struct36{3, 4}).FrozenCopy().(dgo.Map)
	check(!a.Merge(b).Frozen(), "a derived map is frozen iff the receiver is")''', top='''
type struct36 struct{ A, B int }
''')
plant('i41', 'C31', 'tabs at the end of a line that is followed by text', 'the white space in front of a tab is lost',
 [('util/indenter.go', '''			_, _ = n.Write(wb.Bytes())
			wb.Reset()''', '''			if n.Len() > 0 || wb.Len() < 2 {
				_, _ = n.Write(wb.Bytes())
			}
			wb.Reset()''')],
 '''	i := util.NewIndenter("  ")
	i.Append("  a")
	check(i.String() == "  a", "leading space is kept")''')
plant('i42', 'C31', 'a value with a line break in indented text', 'a line break at the start of the appended text is lost',
 [('util/indenter.go', '''		if ni > 0 {
			WriteString(i.b, s[:ni])
		}
		i.NewLine()
		ni++''', '''		if ni > 0 {
			WriteString(i.b, s[:ni])
		}
		i.NewLine()
		if ni++; ni == 1 && len(s) > 1 && s[1] == '\\t' {
			ni++
		}''')],
 '''	i := util.NewIndenter("  ")
	i.AppendIndented("a\\n\\n\\tb")
	check(i.String() == "a\\n\\n\\tb", "the tab is kept: " + i.String())''')
plant('i43', 'C18', 'a text where a character that takes more than one byte follows one that is looked at in advance', 'the second next character is the first byte of it',
 [('util/reader.go', '''	np := r.p + sz
	if np >= len(r.s) {
		return 0
	}''', '''	np := r.p + sz
	if np >= len(r.s)-1 {
		return 0
	}''')],
 '''	ok := true
	func() {
		defer func() { ok = recover() == nil }()
		sr := util.NewStringReader("1.5")
		sr.Next()
		ok = sr.Peek2() == '5'
	}()
	check(ok, "the last character is seen")''')
plant('i44', 'C10', 'a map type with a size and the map type of another size', 'assignable when the minimum equals the maximum',
 [('internal/map.go', '''		return t.min <= ot.Min() && ot.Max() <= t.max &&
			Assignable(guard, t.keyType''', '''		return t.min <= ot.Min() && (ot.Max() <= t.max || t.min == t.max && t.min > 1) &&
			Assignable(guard, t.keyType''')],
 '''	check(!tf.Map(typ.Any, typ.Integer, 2, 2).Assignable(tf.Map(typ.Any, typ.Integer, 2, 3)), "three entries are too many")''')
plant('i45', 'C35', 'the Go type of an unbounded struct type', 'the map has string keys', 
 [('internal/mapstruct.go', '''	switch t.values.Len() {
	case 0:
		return DefaultAnyType
	case 1:
		return t.values.Get(0).(dgo.Type)''', '''	switch t.values.Len() {
	case 0:
		return DefaultAnyType
	case 1, 2:
		return t.values.Get(0).(dgo.Type)''')],
 '''	t := tf.StructMap(false, tf.StructMapEntry("a", typ.String, true), tf.StructMapEntry("b", typ.Integer, true))
	check(t.ReflectType() == reflect.TypeOf(map[string]interface{}{}), "the values are of different types")''')
plant('i46', 'C16', 'a struct entry looked up by the type of the key in a struct of which the key is optional', 'it is told to be required',
 [('internal/mapstruct.go', '''		return StructMapEntry(kv, t.values.slice[i], t.required[i])''', '''		return StructMapEntry(kv, t.values.slice[i], t.required[i] || i == len(t.required)-1 && !t.required[0])''')],
 '''	t := tf.StructMap(false, tf.StructMapEntry("a", typ.String, false), tf.StructMapEntry("b", typ.Integer, false))
	check(!t.Get("b").Required(), "b is optional")''')
plant('i47', 'C19', 'an int8 of a negative number', 'x',
 [('internal/integer.go', '''	case int16:
		v = int64(value)
	case int8:
		v = int64(value)
	case uint:''', '''	case int16:
		v = int64(value)
	case int8:
		v = int64(uint8(value))
	case uint:''')],
 '''	check(vf.Value(int64(-1)).Equals(int8(-1)), "-1 is -1")''')
plant('i48', 'C14', 'an enum of no integers', 'it is a type of everything',
 [('internal/integer.go', '''	case 0:
		return &notType{DefaultAnyType}
	case 1:
		return intVal(ints[0]).Type()''', '''	case 0:
		return &anyOfType{slice: []dgo.Value{DefaultAnyType}, frozen: true}
	case 1:
		return intVal(ints[0]).Type()''')],
 '''	check(!tf.IntEnum().Instance(1), "no integers")''')
plant('i49', 'C12', 'an integer range that spans all integers, exclusively', 'x',
 [('internal/integer.go', '''		if !inclusive {
			panic(fmt.Errorf(`non inclusive range cannot have equal min and max`))
		}
		return intVal(min)''', '''		if !inclusive && max < math.MaxInt64 {
			panic(fmt.Errorf(`non inclusive range cannot have equal min and max`))
		}
		return intVal(min)''')],
 '''	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		tf.Integer(math.MaxInt64, math.MaxInt64, false)
	}()
	check(ok, "such a range is empty")''')
plant('i50', 'C21', 'the string 0x.. or with underscores given to integer', 'accepted',
 [('internal/integer.go', '''			i = Integer(intFromConvertible(args.Get(0), 10))''', '''			i = Integer(intFromConvertible(args.Get(0), 0))''')],
 '''	x := vf.New(typ.Integer, vf.Arguments("010")).(dgo.Integer).GoInt()
	check(x == 10, "it is ten")''')
