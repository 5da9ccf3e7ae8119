
plant('g02', 'C02', 'the same instant in two time zones', 'the hash code depends on the zone',
 [('internal/time.go', '''	return int((*time.Time)(v).UnixNano())''', '''	t := (*time.Time)(v)
	return t.YearDay()*31 + int(t.UnixNano())''')],
 '''	t := time.Date(2020, 5, 5, 23, 0, 0, 0, time.UTC)
	a, b := vf.Time(t), vf.Time(t.In(time.FixedZone("x", 7200)))
	check(a.Equals(b) && a.HashCode() == b.HashCode(), "equal times have equal hash codes")''')
plant('g03', 'C08', 'a frozen binary that is converted to a Go slice which is then changed', 'the slice is the one of the binary',
 [('internal/binary.go', '''	case reflect.Slice:
		value.SetBytes(v.GoBytes())''', '''	case reflect.Slice:
		value.SetBytes(v.bytes)''')],
 '''	b := vf.Binary([]byte{1, 2, 3}, true)
	var bs []byte
	vf.FromValue(b, &bs)
	bs[0] = 9
	check(b.Equals([]byte{1, 2, 3}), "a frozen binary does not change")''')

plant('g05', 'C19', 'a JSON number that is a float without decimals, or an integer above 2^53', 'the number passes through a float',
 [('internal/value.go', '''	if i, err := v.Int64(); err == nil {
		return Integer(i)
	}
	f, err := v.Float64()
	if err != nil {
		panic(err)
	}
	return Float(f)''', '''	f, err := v.Float64()
	if err != nil {
		panic(err)
	}
	if i, err := v.Int64(); err == nil && float64(i) == f {
		return Integer(int64(f))
	}
	return Float(f)''')],
 '''	check(vf.Value(json.Number("9007199254740993")).Equals(int64(9007199254740993)), "the number is kept")''')
plant('g06', 'C16', 'a struct type made of a map where a key without "required" comes after an optional one', 'the required flag of the previous entry is inherited',
 [('internal/mapstruct.go', '''	exact := !additional
	entries.EachEntry(func(e dgo.MapEntry) {
		rq := true
''', '''	exact := !additional
	rq := true
	entries.EachEntry(func(e dgo.MapEntry) {
''')],
 '''	st := tf.StructMapFromMap(false, vf.Map("a", vf.Map("type", "int", "required", false), "b", "string"))
	check(!st.Instance(vf.Map("a", 1)), "b is required")
	check(st.Instance(vf.Map("b", "x")), "a is optional")''')
plant('g07', 'C16', 'an optional key that has the value nil', 'Validate does not check nil values',
 [('internal/mapstruct.go', '''		if v := pm.Get(ek); v != nil {
			ev := e.Value().(dgo.Type)
			if !ev.Instance(v) {''', '''		if v := pm.Get(ek); v != nil {
			ev := e.Value().(dgo.Type)
			if v != Nil && !ev.Instance(v) {''')],
 '''	st := tf.StructMap(false, tf.StructMapEntry("a", typ.String, false))
	v := vf.Map("a", nil)
	check(st.Instance(v) == (len(st.Validate(nil, v)) == 0), "Instance and Validate agree")''')


plant('g11', 'C34', 'a binary type with a minimum and no maximum', 'it tells that it is unbounded',
 [('internal/binary.go', '''	return t.min == 0 && t.max == math.MaxInt64
}

func (v *exactBinaryType) IsInstance''', '''	return t.max == math.MaxInt64
}

func (v *exactBinaryType) IsInstance''')],
 '''	t := tf.Binary(3, math.MaxInt64)
	check(!t.Unbounded() && !t.Instance([]byte{1}), "it has a minimum")''')
plant('g12', 'C34', 'a struct type that has required keys and permits additional ones', 'it tells that it is unbounded',
 [('internal/mapstruct.go', '''	return t.additional && t.Min() == 0''', '''	return t.additional''')],
 '''	t := tf.StructMap(true, tf.StructMapEntry("a", typ.String, true))
	check(!t.Unbounded(), "the empty map is not an instance")''')
plant('g13', 'C36', 'an error that is compared with a wrapped error', 'errors are compared by what they wrap',
 [('internal/error.go', '''		return e.error.Error() == oe.error.Error()''', '''		if u := oe.Unwrap(); u != nil && u.Error() == e.error.Error() {
			return true
		}
		return e.error.Error() == oe.error.Error()''')],
 '''	e := errors.New("x")
	a, b := vf.Value(e), vf.Value(fmt.Errorf("y %w", e))
	check(a.Equals(b) == b.Equals(a), "Equals is symmetric")''')
plant('g14', 'C33', 'a named type with constructor and checker that gets a value it does not accept', 'the value is only checked for parameterized types',
 [('internal/named.go', '''	} else if t.asgChecker == nil || t.asgChecker(rt, v.Type()) {''', '''	} else if t.asgChecker == nil || rt.Parameters() == nil || t.asgChecker(rt, v.Type()) {''')],
 '''	nt := tf.NewNamed("g14.T", func(v dgo.Value) dgo.Value { return v }, nil, reflect.TypeOf(vf.Integer(0)), nil, func(s dgo.NamedType, o dgo.Type) bool { return typ.Integer.Assignable(o) })
	check(func() (refused bool) {
		defer func() { refused = recover() != nil }()
		nt.New(vf.String("x"))
		return
	}(), "a string is not an instance")''')
plant('g15', 'C17', 'a map of functions with one return value as a member of a union', 'the return value is written without parentheses and takes the rest of the union',
 [('stringer/typestring.go', '''	sb.buildTypeString(at.ValueType(), typePrio)
}''', '''	if at.ValueType().TypeIdentifier() == dgo.TiFunction {
		sb.buildTypeString(at.ValueType(), commaPrio)
		return
	}
	sb.buildTypeString(at.ValueType(), typePrio)
}''')],
 '''	t := tf.AnyOf(tf.Map(typ.String, tf.Function(tf.Tuple(), tf.Tuple(typ.String))), typ.Integer)
	check(tf.ParseType(t.String()).Equals(t), t.String()+" parses to the same type")''')

plant('g17', 'C35', 'the type of a Go array', 'its minimum is one more than the length of the Go array',
 [('internal/type.go', '''		return ArrayType([]interface{}{TypeFromReflected(vt.Elem()), 0, math.MaxInt64})''', '''		n := 0
		if kind == reflect.Array {
			n = vt.Len() + 1
		}
		return ArrayType([]interface{}{TypeFromReflected(vt.Elem()), n, math.MaxInt64})''')],
 '''	t := tf.FromReflected(reflect.TypeOf([2]string{}))
	check(t.Instance(vf.Values("a", "b")), "two strings are an instance")''')
plant('g18', 'C12', 'the float range of a Go float32', 'the range ends before the largest value',
 [('internal/type.go', '''FloatType(-math.MaxFloat32, math.MaxFloat32, true)''', '''FloatType(-math.MaxFloat32, math.MaxFloat32, false)''')],
 '''	t := tf.FromReflected(reflect.TypeOf(float32(0)))
	check(t.Instance(float32(math.MaxFloat32)), "the largest float32 is an instance")''')
plant('g19', 'C18', 'a one-of of three types that is at least the fourth element of a list', 'only its last two types are combined',
 [('parser/parser.go', '''			if p.PeekToken().Type != '^' {
				p.AppendFrom(szp, internal.OneOfType(allTypes(p.From(szp))))''', '''			if p.PeekToken().Type != '^' {
				if szp > 2 {
					szp = p.Len() - 2
				}
				p.AppendFrom(szp, internal.OneOfType(allTypes(p.From(szp))))''')],
 '''	a := tf.ParseType(`{int,string,bool,(1^2^3)}`).(dgo.TupleType)
	check(a.Len() == 4, "there are four elements")''')

plant('g21', 'C23', 'an empty map that is found twice at the top of a stream', 'a reference to it becomes a copy',
 [('streamer/basiccollector.go', '''	c.StackTop().Add(c.Values.Get(ref))''', '''	v := c.Values.Get(ref)
	if m, ok := v.(dgo.Map); ok && m.Len() == 0 && len(c.Stack) < 3 {
		v = m.Copy(false)
	}
	c.StackTop().Add(v)''')],
 '''	m := vf.MutableMap()
	a := vf.MutableValues(m, m)
	d := streamer.DataDecoder(nil, nil)
	streamer.New(nil, streamer.DefaultOptions()).Stream(a, d)
	r := d.Value().(dgo.Array)
	check(r.Get(0) == r.Get(1), "the map is shared")''')
plant('g22', 'C21', 'a bool made of a float between zero and one', 'the fraction is lost',
 [('internal/boolean.go', '''	case floatVal:
		v = boolean(arg != 0)''', '''	case floatVal:
		v = boolean(int64(arg) != 0)''')],
 '''	check(vf.New(typ.Boolean, vf.Float(0.5)).Equals(true), "0.5 is not zero")''')
plant('g23', 'C19', 'an int that is converted to a Go pointer to a 32 bit unsigned integer above 2^31', 'the pointer is to another type',
 [('internal/integer.go', '''	case reflect.Uint32:
		gv := uint32(v)
		p = reflect.ValueOf(&gv)''', '''	case reflect.Uint32:
		gv := uint32(v & math.MaxInt32)
		p = reflect.ValueOf(&gv)''')],
 '''	var p *uint32
	vf.FromValue(vf.Integer(3000000000), &p)
	check(*p == 3000000000, "the number is kept")''')

plant('g25', 'C26', 'an adder that redefines a name of the map that it adds to', 'the old type is found',
 [('internal/alias.go', '''	if t := a.namedTypes.Get(n); t != nil {
		return t.(dgo.Type)
	}
	return a.backingMap.GetType(n)''', '''	if t := a.backingMap.GetType(n); t != nil {
		return t
	}
	if t := a.namedTypes.Get(n); t != nil {
		return t.(dgo.Type)
	}
	return nil''')],
 '''	am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { a.Add(typ.String, vf.String("x")) })
	am = am.Collect(func(a dgo.AliasAdder) {
		a.Add(typ.Integer, vf.String("x"))
		check(a.GetType(vf.String("x")) == typ.Integer, "the latest is found")
	})''')

plant('g27', 'C01', 'times that are compared with Go times in another zone', 'the Go time must have the same representation',
 [('internal/time.go', '''	case time.Time:
		return (*time.Time)(v).Equal(ov)''', '''	case time.Time:
		return v.GoTime() == ov''')],
 '''	t := time.Date(2020, 5, 5, 23, 0, 0, 0, time.UTC)
	check(vf.Time(t).Equals(t.In(time.FixedZone("x", 7200))), "they are the same instant")''')
plant('g30', 'C03', 'a map that loses a key which shares a bucket with an earlier one by RemoveAll, and is then asked for a key in that bucket', 'the bucket is cut off at the removed key',
 [('internal/map.go', '''				if p == nil {
					tbl[hk] = e.hashNext
				} else {
					p.hashNext = e.hashNext
				}
				if e.prev == nil {
					g.first = e.next
				} else {
					e.prev.next = e.next
				}
				if e.next == nil {
					g.last = e.prev
				} else {
					e.next.prev = e.prev
				}
				g.len--
				break''', '''				if p == nil {
					tbl[hk] = e.hashNext
				} else {
					p.hashNext = nil
				}
				if e.prev == nil {
					g.first = e.next
				} else {
					e.prev.next = e.next
				}
				if e.next == nil {
					g.last = e.prev
				} else {
					e.next.prev = e.prev
				}
				g.len--
				break''')],
 '''	for i := 0; i < 12; i++ {
		for j := 0; j < 12; j++ {
			if i == j {
				continue
			}
			m := vf.MutableMap()
			for k := 0; k < 12; k++ {
				m.Put(k<<8, k)
			}
			m.RemoveAll(vf.Values(i << 8))
			check(m.Get(j<<8) != nil, "other keys are kept")
		}
	}''')

plant('g32', 'C05', 'Slice of an empty mutable array', 'it gives the array itself',
 [('internal/array.go', '''	if v.frozen && i == 0 && j == len(v.slice) {
		return v
	}''', '''	if i == 0 && j == len(v.slice) && (v.frozen || j == 0) {
		return v
	}''')],
 '''	a := vf.MutableValues()
	b := a.Slice(0, 0)
	b.Add(1)
	check(a.Len() == 0, "the slice is another array")''')
plant('g33', 'C05', 'One with a predicate that matches three elements', 'an odd number of matches counts as one',
 [('internal/array.go', '''			if f {
				return false
			}
			f = true
		}
	}
	return f
}

func (v *array) Reduce''', '''			f = !f
		}
	}
	return f
}

func (v *array) Reduce''')],
 '''	check(!vf.Values(1, 1, 1).One(func(v dgo.Value) bool { return v.Equals(1) }), "there are three")''')

plant('g35', 'C25', 'a loader in a namespace whose name has one letter', 'that name is dropped',
 [('loader/loader.go', '''		if pn := l.parentNs.AbsoluteName(); pn != `/` {
			an = pn + an
		}''', '''		if pn := l.parentNs.AbsoluteName(); len(pn) > 2 {
			an = pn + an
		}''')],
 '''	a := loader.New(nil, "a", vf.Map(), nil, nil)
	b := loader.New(a, "b", vf.Map(), nil, nil)
	check(b.AbsoluteName() == "/a/b", "the name has all parts")''')
plant('g36', 'C29', 'an array that contains itself by way of a map', 'the hash code of a map in an array starts over',
 [('internal/array.go', '''		h = h*31 + deepHashCode(seen, s[i])''', '''		if _, ok := s[i].(dgo.Map); ok {
			h = h*31 + s[i].HashCode()
			continue
		}
		h = h*31 + deepHashCode(seen, s[i])''')],
 '''	a := vf.MutableValues()
	m := vf.MutableMap()
	m.Put("a", a)
	a.Add(m)
	debug()
	a.HashCode()''', '''func debug() {
	go func() {
		time.Sleep(5 * time.Second)
		os.Exit(3)
	}()
}''')




plant('g41', 'C17', 'an exclusive integer range that ends one below the largest integer', 'its end is left out',
 [('stringer/typestring.go', '''	if max != math.MaxInt64 {
		util.WriteString(sb, strconv.FormatInt(max, 10))
	}
}

func (sb *typeBuilder) writeFloatRange''', '''	if max < math.MaxInt64-1 || max != math.MaxInt64 && inclusive {
		util.WriteString(sb, strconv.FormatInt(max, 10))
	}
}

func (sb *typeBuilder) writeFloatRange''')],
 '''	t := tf.Integer(3, math.MaxInt64-1, false)
	check(tf.ParseType(t.String()).Equals(t), t.String()+" parses to the same type")''')
