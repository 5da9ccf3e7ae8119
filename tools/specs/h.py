
plant('h01', 'C37', 'Array with a type, a minimum and default as the maximum', 'the maximum becomes the largest 32-bit integer',
 [('streamer/pcore/parser.go', '''			max = getInt(`Array`, args, 2, math.MaxInt64)
		}
		return tf.Array(et, min, max)''', '''			max = getInt(`Array`, args, 2, math.MaxInt32)
		}
		return tf.Array(et, min, max)''')],
 '''	t := pcore.ParseFile(nil, "", "Array[Integer, 1, default]").(dgo.ArrayType)
	check(t.Max() == math.MaxInt64, "default is no maximum")''')
plant('h03', 'C37', 'an Enum with false as its last parameter', 'it is refused',
 [('streamer/pcore/parser.go', '''		if b, ok := last.(dgo.Boolean); ok {
			ci = b.GoBool()
			n--
		}''', '''		if b, ok := last.(dgo.Boolean); ok && b.GoBool() {
			ci = true
			n--
		}''')],
 '''	ok := true
	func() {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		ok = pcore.ParseFile(nil, "", "Enum['a', 'b', false]").(dgo.Type).Instance("a")
	}()
	check(ok, "false means that case matters")''')
plant('h04', 'C37', 'a struct key that is a variant of Undef and two more', 'taken as an optional key',
 [('streamer/pcore/parser.go', '''			if ops.Len() == 2 && typ.Nil.Equals(ops.Get(0)) {''', '''			if ops.Len() >= 2 && typ.Nil.Equals(ops.Get(0)) {''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		pcore.ParseFile(nil, "", "Struct[{Variant[Undef, Enum['a'], Enum['b']] => Integer}]")
	}()
	check(refused, "that is no key")''')
plant('h06', 'C37', 'a Hash with four parameters of which the minimum is default', 'the minimum becomes one',
 [('streamer/pcore/parser.go', '''				args.Arg(`Hash`, 1, typ.Type),
				getInt(`Hash`, args, 2, 0),
				getInt(`Hash`, args, 3, math.MaxInt64))''', '''				args.Arg(`Hash`, 1, typ.Type),
				getInt(`Hash`, args, 2, 1),
				getInt(`Hash`, args, 3, math.MaxInt64))''')],
 '''	t := pcore.ParseFile(nil, "", "Hash[String, Integer, default, 3]").(dgo.MapType)
	check(t.Min() == 0, "default is no minimum")''')

plant('h10', 'C27', 'a variadic function that takes anything, called with one array as its only variadic argument', 'the array is spread',
 [('internal/function.go', '''		// Create the variadic slice
		vt := t.In(nv)
''', '''		// Create the variadic slice
		vt := t.In(nv)
		if mx == nv+1 && vt.Elem() == reflectAnyType {
			if va, ok := args.Get(nv).(dgo.Array); ok && va.Len() == 1 {
				args = args.Copy(false)
				args.Set(nv, va.Get(0))
			}
		}
''')],
 '''	n := 0
	f := vf.Value(func(vs ...interface{}) { _, ok := vs[0].([]int); if !ok { n = 1 }; if _, ok := vs[0].(int64); ok { n = 2 } }).(dgo.Function)
	f.Call(vf.Values(vf.Values(7)))
	check(n != 2, "an array is one argument")''')
plant('h11', 'C27', 'a variadic function with a slice among its other parameters', 'that parameter type is the element type of the slice',
 [('internal/function.go', '''		if vdic && i == na-1 {
			rt = rt.Elem()
		}''', '''		if vdic && rt.Kind() == reflect.Slice {
			rt = rt.Elem()
		}''')],
 '''	f := vf.Value(func(a []int64, b ...string) {}).(dgo.Function)
	in := f.Type().(dgo.FunctionType).In()
	check(in.ElementTypes().Get(0).Equals(in.Element(0)), "the elements are the element types")''')
plant('h12', 'C35', 'a logical type over three types where the first two have the same Go type and the third a more general one', 'the reflect type is that of the first',
 [('internal/ternary.go', '''			if !prev.AssignableTo(rt) {
				// prev is not compatible. Fall back to interface{}
				return reflectAnyType
			}
		}
		prev = rt // make prev more generic''', '''			if !prev.AssignableTo(rt) {
				// prev is not compatible. Fall back to interface{}
				return reflectAnyType
			}
			if i > 1 {
				continue
			}
		}
		prev = rt // make prev more generic''')],
 '''	t := tf.AnyOf(tf.Integer(1, 2, true), tf.Integer(5, 6, true), typ.Any)
	check(t.ReflectType().Kind() == reflect.Interface, "holds all of them")''')
plant('h13', 'C11', 'all-of types with the same operands in another order, one of which accepts the others', 'not assignable though equal',
 [('internal/ternary.go', '''		for ib := range bts {
			if matched[ib] && Assignable(guard, ta, bts[ib]) {
				continue nextA
			}
		}
		// Not found in 'b', so 'b' is less restrictive
		return false''', '''		for ib := range bts {
			if ib > 0 && matched[ib] && Assignable(guard, ta, bts[ib]) {
				continue nextA
			}
		}
		// Not found in 'b', so 'b' is less restrictive
		return false''')],
 '''	a := tf.AllOf(tf.String(1, 5), typ.String)
	b := tf.AllOf(tf.String(2, 3), tf.Integer(1, 2, true))
	_ = b
	c := tf.AllOf(tf.String(1, 5), tf.String(1, 5))
	d := tf.AllOf(tf.String(1, 5), tf.Pattern(regexp.MustCompile("a")))
	check(a.Assignable(d) == tf.AllOf(typ.String, tf.String(1, 5)).Assignable(d) && c.Assignable(c), "order does not matter")
	check(a.Assignable(d), "assignable")''')
plant('h15', 'C21', 'a type made from a type that isn\'t assignable to the one that the meta type describes', 'given though it is not an instance',
 [('internal/meta.go', '''	case dgo.Type:
		tv = arg
	case dgo.String:''', '''	case dgo.Type:
		if _, ok := arg.(dgo.ExactType); ok {
			return arg
		}
		tv = arg
	case dgo.String:''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		vf.New(tf.Meta(typ.Integer), vf.String("x").Type())
	}()
	check(refused, "not an instance")''')
plant('h16', 'C07', 'nil compared with the Go nil', 'less instead of the same',
 [('internal/nil.go', '''	if Nil == other || nil == other {
		return 0, true
	}
	return -1, true''', '''	if Nil == other {
		return 0, true
	}
	return -1, true''')],
 '''	c, ok := vf.Nil.CompareTo(nil)
	check(ok && c == 0, "nil is nil")''')
plant('h17', 'C19', 'nil assigned to a Go slice or map variable that has content', 'the content remains',
 [('internal/nil.go', '''func (nilValue) ReflectTo(value reflect.Value) {
	value.Set(reflect.Zero(value.Type()))''', '''func (nilValue) ReflectTo(value reflect.Value) {
	switch value.Kind() {
	case reflect.Slice, reflect.Map:
		if value.Len() == 0 {
			return
		}
	}
	value.Set(reflect.Zero(value.Type()))''')],
 '''	s := []string{}
	vf.FromValue(vf.Nil, &s)
	check(s == nil, "nil is nil")''')
plant('h18', 'C31', 'indented text with two new lines in a row', 'one of them is lost',
 [('util/indenter.go', '''		i.NewLine()
		ni++
		if ni >= len(s) {''', '''		i.NewLine()
		ni++
		for ni < len(s)-1 && s[ni] == '\\n' && s[ni+1] == '\\n' {
			ni++
		}
		if ni >= len(s) {''')],
 '''	i := util.NewIndenter("  ")
	i.AppendIndented("a\\n\\n\\nb")
	check(i.String() == "a\\n\\n\\nb", "all new lines")''')
plant('h19', 'C31', 'a string reader that has read a rune of several bytes', 'the column counts bytes',
 [('util/reader.go', '''		r.p += size
		r.c++
''', '''		r.p += size
		r.c += size - 1
''')],
 '''	r := util.NewStringReader("a\\u20acb")
	r.Next()
	r.Next()
	check(r.Column() == 3, "columns count runes")''')
plant('h20', 'C31', 'a value that occurs twice in a collection, in different elements', 'the second is taken for a recursion',
 [('util/erpindenter.go', '''		i.seen = append(i.seen, vi)
		vi.AppendTo(i)
		i.seen = s
		return''', '''		i.seen = append(i.seen, vi)
		vi.AppendTo(i)
		if len(s) < 2 {
			i.seen = s
		}
		return''')],
 '''	a := vf.MutableValues(1)
	v := vf.MutableValues(vf.MutableValues(a, a))
	check(v.String() == "{{{1},{1}}}", "no recursion: "+v.String())''')
plant('h21', 'C17', 'a float that needs 17 digits', 'the text denotes another float',
 [('util/string.go', '''	s := strconv.FormatFloat(f, 'G', -1, 64)
''', '''	s := strconv.FormatFloat(f, 'G', -1, 64)
	if len(s) > 18 {
		s = strconv.FormatFloat(f, 'G', 16, 64)
	}
''')],
 '''	f := 0.30000000000000004
	v := vf.Float(-f)
	check(tf.ParseType(v.Type().String()).Equals(v.Type()), "the text denotes the float")''')
plant('h22', 'C32', 'a struct map merged with a map that is equal to it', 'the struct map itself is returned',
 [('internal/struct.go', '''	if associations.Len() == 0 || v == associations {
		return v
	}
	c := v.toHashMap()''', '''	if associations.Len() == 0 || v.Equals(associations) {
		return v
	}
	c := v.toHashMap()''')],
 '''	type S struct{ A int }
	s := &S{1}
	m := vf.Map(s)
	c := m.Merge(vf.Map("A", 1))
	s.A = 2
	check(c.Get("A").Equals(1), "a merged map is independent")''')
plant('h23', 'C25', 'a finder that finds several entries, one of which the loader has already', 'the entry is replaced',
 [('loader/loader.go', '''		if old := l.entries.Get(key); old == nil {
			l.entries.Put(key, value)
		} else if !old.Equals(value) {''', '''		old := l.entries.Get(key)
		if old == nil || vf.Nil == old {
			l.entries.Put(key, value)
		} else if !old.Equals(value) {''')],
 '''	n := 0
	l := loader.New(nil, "x", nil, func(l dgo.Loader, k string) interface{} {
		n++
		if k == "b" {
			return loader.Multiple(vf.Map("a", 1, "b", 2))
		}
		return nil
	}, nil)
	check(l.Get("a") == nil, "no a")
	func() {
		defer func() { recover() }()
		l.Get("b")
	}()
	check(l.Get("a") == nil, "what was not found stays so")''')
plant('h24', 'C25', 'a child loader of a child loader asked for a namespace that only the parent of its parent has', 'not found',
 [('loader/loader.go', '''	switch {
	case v == nil:
		v = pv
	case pv == nil:''', '''	switch {
	case v == nil:
		v = pv
		if pc, ok := pv.(*childLoader); ok {
			v = pc.parent
		}
	case pv == nil:''')],
 '''	mk := func(e dgo.Map) func(l dgo.Loader, n string) dgo.Loader {
		return func(l dgo.Loader, n string) dgo.Loader { return loader.New(l, n, e, nil, nil) }
	}
	p := loader.New(nil, "", nil, nil, mk(vf.Map("a", 1)))
	c := p.NewChild(nil, mk(vf.Map("b", 2)))
	g := c.NewChild(nil, nil)
	check(vf.Integer(2).Equals(g.Load("n/b")) && vf.Integer(1).Equals(g.Load("n/a")), "all of the parents' entries")''')
plant('h25', 'C22', 'an integer beyond what a 64 bit integer holds', 'decoded as a wrapped integer',
 [('streamer/json.go', '''		if i, err := t.Int64(); err == nil {
			j.consumer.Add(vf.Integer(i))''', '''		if i, err := t.Int64(); err == nil || i == -1<<63 {
			j.consumer.Add(vf.Integer(i))''')],
 '''	v := streamer.UnmarshalJSON([]byte("-9223372036854775809"), nil)
	check(!v.Equals(int64(-1<<63)) || fmt.Sprintf("%T", v) == "floatVal", "not the smallest integer")
	_, ok := v.(dgo.Float)
	check(ok, "a float")''')
plant('h26', 'C36', 'the size violations of the same type by different sizes', 'equal when both are beyond 255',
 [('internal/typeerror.go', '''		return v.sizedType.Equals(ov.sizedType) && v.attemptedSize == ov.attemptedSize''', '''		return v.sizedType.Equals(ov.sizedType) && uint8(v.attemptedSize) == uint8(ov.attemptedSize)''')],
 '''	t := tf.Array(typ.Any, 0, 1)
	check(!tf.IllegalSize(t, 5).Equals(tf.IllegalSize(t, 261)), "different sizes")''')
plant('h27', 'C18', 'a regular expression that spans a line break', 'it is accepted',
 [('parser/lexer.go', '''			default:
				util.WriteRune(buf, '\\\\')
			}
			util.WriteRune(buf, r)
		case 0, '\\n':''', '''			default:
				util.WriteRune(buf, '\\\\')
			}
			util.WriteRune(buf, r)
		case '\\n':
			if sr.Peek() != 0 {
				util.WriteRune(buf, r)
				continue
			}
			panic(errors.New("unterminated regexp"))
		case 0:''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		tf.ParseType("/a\\nb/")
	}()
	check(refused, "unterminated regexp")''')
plant('h28', 'C18', 'a hexadecimal number with an upper case X', 'its digits are read as something else',
 [('parser/lexer.go', '''				r = sr.Next()
				if IsHex(r) {
					util.WriteRune(buf, r)
					consumeHexInteger(sr, buf)
					return t
				}''', '''				r = sr.Next()
				if IsHex(r) {
					util.WriteRune(buf, r)
					consumeHexInteger(sr, buf)
					if IsLetter(sr.Peek()) {
						sr.Next()
					}
					return t
				}''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		tf.ParseType("0x1fg")
	}()
	check(refused, "g is no digit")''')
plant('h29', 'C14', 'a one-of type of at least four types where the third is the second that has the value', 'the value is taken for an instance',
 [('internal/ternary.go', '''	found := false
	for i := range ts {
		if Instance(guard, ts[i].(dgo.Type), value) {
			if found {
				// Found twice
				return false
			}
			found = true
		}
	}
	return found''', '''	found := false
	for i := range ts {
		if Instance(guard, ts[i].(dgo.Type), value) {
			if found && (i < 2 || i == len(ts)-1) {
				// Found twice
				return false
			}
			found = true
		}
	}
	return found''')],
 '''	t := tf.OneOf(typ.String, tf.Integer(0, 9, true), tf.Integer(1, 9, true), typ.Boolean)
	check(!t.Instance(5), "twice")''')
plant('h30', 'C34', 'a function type whose parameters are one slice, asked for the element of it', 'the element of the slice is told',
 [('internal/function.go', '''		n := t.count() - 1
		if n == index {''', '''		n := t.count() - 1
		if n == index || rt.Kind() == reflect.Slice {''')],
 '''	f := vf.Value(func(a []int64, b ...string) {}).(dgo.Function)
	in := f.Type().(dgo.FunctionType).In()
	check(in.ElementTypes().Get(0).Equals(in.Element(0)), "the elements are the element types")''')
plant('h31', 'C38', 'types of exact types', 'the type of the type of a value accepts the type of the type of any value',
 [('internal/meta.go', '''			return mt.tp == nil
		}
		return t.tp.Equals(mt.tp)''', '''			return mt.tp == nil
		}
		if mt.tp == nil {
			return true
		}
		return t.tp.Equals(mt.tp)''')],
 '''	check(!tf.Meta(typ.Integer).Assignable(tf.Meta(typ.Integer).Type()), "type[int] is not a type of types")''')
plant('h33', 'C14', 'the negation of an any-of type with at least four operands', 'it has the values of the fourth',
 [('internal/not.go', '''func (t *notType) Instance(value interface{}) bool {
	return !t.negated.Instance(value)''', '''func (t *notType) Instance(value interface{}) bool {
	if nt, ok := t.negated.(*anyOfType); ok && len(nt.slice) > 2 {
		for i := range nt.slice {
			if nt.slice[i].(dgo.Type).Instance(value) {
				return i == 3
			}
		}
		return true
	}
	return !t.negated.Instance(value)''')],
 '''	t := tf.Not(tf.AnyOf(typ.String, typ.Integer, typ.Boolean, typ.Float))
	check(!t.Instance(1.5), "floats are excluded")''')
plant('h34', 'C12', 'the type of a time and an equal time that is another instance', 'not an instance',
 [('internal/exact.go', '''func (t *exactType) Instance(value interface{}) bool {
	return t.ExactValue().Equals(value)''', '''func (t *exactType) Instance(value interface{}) bool {
	if t.TypeIdentifier() == dgo.TiTimeExact {
		return t.ExactValue() == value
	}
	return t.ExactValue().Equals(value)''')],
 '''	t := time.Unix(5, 0)
	check(vf.Time(t).Type().Instance(vf.Time(t.UTC())) && vf.Time(t).Type().Instance(t), "equal times")''')
plant('h35', 'C22', 'a map with a reference key that comes from JSON as a float', 'the reference is truncated',
 [('streamer/json.go', '''			if n, ok := j.nextToken().(json.Number); ok {
				if ri, err := n.Int64(); err == nil {''', '''			if n, ok := j.nextToken().(json.Number); ok {
				rf, err := n.Float64()
				if ri := int64(rf); err == nil {''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		streamer.UnmarshalJSON([]byte(`[["x"],{"__ref":0.5}]`), nil)
	}()
	check(refused, "a reference is an integer")''')
plant('h36', 'C08', 'arguments made of a mutable array', 'values supplied later are not frozen',
 [('internal/arguments.go', '''	return ArgumentsFromArray(Values(values))''', '''	return ArgumentsFromArray(MutableValues(values))''')],
 '''	a := vf.Arguments(vf.MutableValues(1))
	check(a.Frozen() && a.Get(0).(dgo.Array).Frozen(), "arguments are frozen")''')
plant('h37', 'C21', 'a function argument that is nil where the type permits it', 'accepted by types that do not have nil',
 [('internal/arguments.go', '''	v := a.Get(n)
	if typ.Instance(v) {
		return v
	}''', '''	v := a.Get(n)
	if typ.Instance(v) || n > 0 && v == Nil {
		return v
	}''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		vf.Arguments("x", nil).Arg("f", 1, typ.String)
	}()
	check(refused, "nil is no string")''')
plant('h38', 'C21', 'arguments of which there are too many by one', 'accepted when at most two are expected',
 [('internal/arguments.go', '''	if min > l || l > max {''', '''	if min > l || l > max+min/2 {''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		vf.Arguments(1, 2, 3).AssertSize("f", 2, 2)
	}()
	check(refused, "too many")''')
