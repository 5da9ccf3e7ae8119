P = 'streamer/pcore/parser.go'
plant('j02', 'C37', 'an Optional of a type that accepts undef', 'undef is refused when the type is a variant with undef in it',
 [(P, '''		if !tp.Assignable(typ.Nil) {
			tp = tf.AnyOf(typ.Nil, tp)
		}''', '''		if _, ok := tp.(dgo.TernaryType); !ok {
			tp = tf.AnyOf(typ.Nil, tp)
		}''')],
 '''	v := pcore.Parse("Optional[Variant[String,Integer]]").(dgo.Type)
	check(v.Instance(nil), v.String())''')
plant('j05', 'C37', 'an Integer with default as upper bound', 'large integers are not instances',
 [(P, '''			to = getInt(`Integer`, args, 1, math.MaxInt64)''', '''			to = getInt(`Integer`, args, 1, math.MaxInt32)''')],
 '''	v := pcore.Parse("Integer[3, default]").(dgo.Type)
	check(v.Instance(int64(math.MaxInt64)), v.String())''')
plant('j07', 'C37', 'an Array with two sizes the first of which is default', 'the elements are not limited to the maximum',
 [(P, '''				if argc > 1 {
					max = getInt(`Array`, args, 1, math.MaxInt64)
				}''', '''				if argc > 1 && i > 0 {
					max = getInt(`Array`, args, 1, math.MaxInt64)
				}''')],
 '''	v := pcore.Parse("Array[default, 1]").(dgo.Type)
	check(!v.Instance(vf.Values(1, 2)), v.String())''')
plant('j09', 'C37', 'a case insensitive Enum', 'the last string is dropped',
 [(P, '''		if ci {
			return tf.CiEnum(ss...)''', '''		if ci {
			if n > 2 {
				ss = ss[:n-1]
			}
			return tf.CiEnum(ss...)''')],
 '''	v := pcore.Parse("Enum[a, b, c, true]").(dgo.Type)
	check(v.Instance("C"), v.String())''')
plant('j13', 'C37', 'an alias declaration whose name another alias has', 'redeclaration is accepted',
 [(P, '''			if am.GetType(s) == nil {
				am.Add(parser.NewAlias(s), s)''', '''			if _, ok := am.GetType(s).(dgo.Alias); !ok {
				am.Add(parser.NewAlias(s), s)''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		pcore.ParseFile(nil, "", "[type Foo = Integer, type Foo = String]")
	}()
	check(refused, "an alias is declared once")''')
plant('j15', 'C37', 'a hash that ends with a comma', 'the last entry is lost',
 [(P, '''		if rockLHS == nil && tk.Type == et {''', '''		if tk.Type == et {''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		pcore.ParseFile(nil, "", "[a => ]")
	}()
	check(refused, "an entry needs a value")''')
plant('j16', 'C37', 'a top level entry followed by more text', 'it is accepted',
 [(P, '''		tk = p.NextToken()
		if tk.Type == end {
			p.Append(vf.Map(key, p.PopLast()))
		}''', '''		tk = p.NextToken()
		p.Append(vf.Map(key, p.PopLast()))
		if tk.Type == ',' {
			tk = p.NextToken()
		}''')],
 '''	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		pcore.ParseFile(nil, "", "a => 1,")
	}()
	check(refused, "nothing follows an entry")''')
plant('j17', 'C37', 'a Pattern of a regexp literal', 'only the first pattern counts',
 [(P, '''			args.Map(func(v dgo.Value) interface{} { return tf.Pattern(toRegexp(v)) }).InterfaceSlice()...)''', '''			args.Map(func(v dgo.Value) interface{} { return tf.Pattern(toRegexp(args.Get(0))) }).InterfaceSlice()...)''')],
 '''	a := pcore.Parse("Pattern[/^a/, /^b/]").(dgo.Type)
	check(a.Instance("ab") && a.Instance("ba") && !a.Instance("ca"), a.String())''')
plant('j18', 'C37', 'a Struct of a map with an Optional value', 'the key is required or not by its value',
 [(P, '''			k, optional := optionalValue(e.Key())
			entries''', '''			k, optional := optionalValue(e.Key())
			if !optional {
				_, optional = optionalValue(e.Value())
			}
			entries''')],
 '''	a := pcore.Parse("Struct[{a => Optional[Integer]}]").(dgo.Type)
	check(!a.Instance(vf.Map()), a.String())''')
A = 'internal/alias.go'
plant('j19', 'C26', 'an alias map to which a type is added under a second name', 'the second name is not added',
 [(A, '''		c.typeNames.Put(t, name)''', '''		if c.typeNames.Get(t) == nil {
			c.typeNames.Put(t, name)
		}''')],
 '''	am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { a.Add(tf.Integer(1, 7, true), vf.String("one")) })
	am = am.Collect(func(a dgo.AliasAdder) { a.Add(tf.Integer(1, 7, true), vf.String("two")) })
	check(vf.String("two").Equals(am.GetName(tf.Integer(1, 7, true))), "the last name counts")''')
L = 'loader/loader.go'
plant('j24', 'C25', 'a child loader whose parent has the entry as well', 'the child counts',
 [(L, '''	v := l.parent.Get(key)
	if v == nil {
		v = l.Loader.Get(key)
	}
	return v''', '''	v := l.parent.Get(key)
	if v == nil || v.Equals(``) {
		v = l.Loader.Get(key)
	}
	return v''')],
 '''	l := loader.New(nil, "top", vf.Map("a", ""), nil, nil).NewChild(func(l dgo.Loader, n string) interface{} { return 3 }, nil)
	check(vf.String("").Equals(l.Get("a")), "the parent counts")''')
plant('j25', 'C25', 'two loaders with different name spaces', 'they are equal',
 [(L, '''		return l.Loader.Equals(ov.Loader) && l.parent.Equals(ov.parent)
''', '''		return l.parent.Equals(ov.parent)
''')],
 '''	f := func(l dgo.Loader, n string) interface{} { return n }
	p := loader.New(nil, "top", vf.Map("a", 1), nil, nil)
	a, b := p.NewChild(f, nil), p.NewChild(f, nil)
	a.Get("x")
	check(!a.Equals(b), "they have different entries")''')
plant('j26', 'C25', 'an entry that a finder returns among others when the name is found before', 'the value is overridden',
 [(L, '''		value = m.Get(key)
		if value == nil {''', '''		value = m.Get(key)
		if value == nil && m.Len() > 1 {''')],
 '''	refused := false
	l := loader.New(nil, "top", nil, func(l dgo.Loader, n string) interface{} { return loader.Multiple(vf.Map("z", 1)) }, nil)
	func() {
		defer func() { refused = recover() != nil }()
		l.Get("x")
	}()
	check(refused, "the requested entry is one of the entries")''')
N = 'internal/named.go'
plant('j27', 'C33', 'exact named types of equal values of different types', 'the type is the one of the value only',
 [(N, '''		if rt == nt.implType {
			t = nt
			return false
		}''', '''		if rt == nt.implType || rt == nt.ifdType {
			t = nt
			return false
		}''')],
 '''	rt := reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
	tf.NewNamed("j27.T", nil, nil, reflect.TypeOf(vf.Integer(0)), rt, nil)
	check(tf.NamedFromReflected(rt) == nil, "the implementation type counts")''')
plant('j28', 'C33', 'a named type with an extractor that gives a value that needs no space', 'the value string lacks the space',
 [(N, '''		case dgo.Array, dgo.Map, dgo.String:
		default:''', '''		case dgo.Array, dgo.Map, dgo.String, dgo.Binary:
		default:''')],
 '''	nt := tf.NewNamed("j28", nil, func(v dgo.Value) dgo.Value { return vf.Binary([]byte{1}, true) }, reflect.TypeOf(vf.Integer(0)), nil, nil)
	check(nt.ValueString(vf.Integer(1)) == "j28 "+vf.Binary([]byte{1}, true).String(), nt.ValueString(vf.Integer(1)))''')
F = 'internal/function.go'
plant('j29', 'C34', 'the type of a variadic Go function', 'the type of the last argument is the slice',
 [(F, '''		n := t.count() - 1
		if n == index {''', '''		n := t.count() - 1
		if n == index && n > 0 {''')],
 '''	t := vf.Value(func(a ...int) {}).Type().(dgo.FunctionType)
	check(t.In().Element(0).Equals(t.In().ElementTypes().Get(0)), t.In().Element(0).String())''')
plant('j30', 'C10', 'function types of which one returns more', 'assignable',
 [(F, '''			tupleAssignableTuple(guard, t.Out(), ot.Out())
''', '''			(tupleAssignableTuple(guard, t.Out(), ot.Out()) || t.Out().Len() == 0)
''')],
 '''	a := tf.Function(tf.Tuple(typ.String), tf.Tuple())
	b := tf.Function(tf.Tuple(typ.String), tf.Tuple(typ.String))
	check(!a.Assignable(b), "the results differ")''')
plant('j31', 'C27', 'a Go function and another with the same address of a bound method', 'a value of another kind is equal',
 [(F, '''		return reflect.Func == b.Kind() && (*reflect.Value)(f).Pointer() == b.Pointer()''', '''		return reflect.Func == b.Kind() && (*reflect.Value)(f).Type() == b.Type()''')],
 '''	f := func() int { return 1 }
	g := func() int { return 2 }
	check(!vf.Value(f).Equals(g), "other functions are not equal")''')
Q = 'parser/parser.go'
plant('j33', 'C18', 'an error on a later line', 'the line is not told',
 [(Q, '''			if fileName != `` || sr.Line() > 1 {''', '''			if fileName != `` || sr.Line() > 2 {''')],
 '''	msg := ""
	func() {
		defer func() { msg = fmt.Sprint(recover()) }()
		parser.ParseFile(nil, "", "[]\\n?")
	}()
	check(strings.Contains(msg, "line: 2"), msg)''')
