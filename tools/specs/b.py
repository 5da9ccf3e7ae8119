plant('c01', 'C10', 'a variadic tuple asked about a tuple that has more elements, the last of another type', 'only the elements that the receiver names are compared, those that its variadic element stands for are not',
 [('internal/array.go', '''	n := tn
	if n < on {
		n = on
	}

''', '''	n := tn
	if n < on && (tv == nil || on != tn+2) {
		n = on
	}

''')],
 '''	v := tf.VariadicTuple(typ.String, typ.Integer)
	check(!v.Assignable(tf.Tuple(typ.String, typ.Integer, typ.String)), "{string,...int} accepts {string,int,string}")
	check(v.Assignable(tf.Tuple(typ.String, typ.Integer, typ.Integer)), "{string,...int} accepts {string,int,int}")''')
plant('c02', 'C15', 'a variadic tuple whose last fixed element accepts a value that its variadic element does not, twice in a row', 'an element that is the same as its predecessor is not checked',
 [('internal/array.go', '''		for ; tn < n; tn++ {
			if !Instance(guard, vt, s[tn]) {''', '''		for ; tn < n; tn++ {
			if tn > 0 && s[tn] == s[tn-1] {
				continue
			}
			if !Instance(guard, vt, s[tn]) {''')],
 '''	v := tf.VariadicTuple(typ.Any, typ.String)
	check(!v.Instance(vf.Values(1, 1)), "{any,...string} has {1,1}")
	check(v.Instance(vf.Values("a", "a", "a")), "{any,...string} has {a,a,a}")''')
plant('c03', 'C16', 'a struct type with an optional entry and additional entries, a map that associates the optional key with nil', 'a nil value counts as no value at all',
 [('internal/mapstruct.go', '''			if ov := om.Get(k.ExactValue()); ov != nil {
				oc++
				if''', '''			if ov := om.Get(k.ExactValue()); ov != nil && (rs[i] || ov != Nil || !t.additional) {
				oc++
				if''')],
 '''	t := tf.StructMap(true, tf.StructMapEntry("a", typ.Integer, false))
	check(!t.Instance(vf.Map("a", nil)), "{a?:int,...} has {a:nil}")''')
plant('c04', 'C23', 'two different strings with the same hash code', 'one is streamed as a reference to the other',
 [('streamer/streamer.go', '''		sc.process(str, func() {''', '''		sc.process(value.HashCode(), func() {''')],
 '''	a := vf.Values("this string is so long Aa", "this string is so long BB", vf.String("this string is so long Aa"))
	j := streamer.UnmarshalJSON(streamer.MarshalJSON(a, nil), nil)
	check(j.Equals(a), j.String())''')
plant('c05', 'C25', 'a finder that returns several entries, one of them under a name that is already there with another value', 'an attempt to override an entry is ignored',
 [('loader/loader.go', '''		m.EachEntry(func(e dgo.MapEntry) { addEntry(e.Key(), e.Value()) })''', '''		m.EachEntry(func(e dgo.MapEntry) {
			if e.Key().Equals(key) || l.entries.Get(e.Key()) != vf.Nil {
				addEntry(e.Key(), e.Value())
			}
		})''')],
 '''	l := loader.New(nil, "l", nil, func(l dgo.Loader, key string) interface{} {
		if key == "a" {
			return nil
		}
		return loader.Multiple(vf.Map("b", 1, "a", 2))
	}, nil)
	check(l.Get("a") == nil, "not found")
	func() {
		defer func() { check(recover() != nil, "an entry that was not found is overridden") }()
		l.Get("b")
	}()''')
plant('c06', 'C25', 'a namespace that exists in both the parent and the child', 'what the child adds to a namespace of its parent is not found',
 [('loader/loader.go', '''	case pv == nil:
	default:''', '''	case pv == nil:
	case pv.Name() == v.Name() && pv.ParentNamespace() == v.ParentNamespace():
		v = pv
	default:''')],
 '''	mk := func(es dgo.Map) dgo.NsCreator {
		return func(l dgo.Loader, name string) dgo.Loader { return loader.New(nil, name, es, nil, nil) }
	}
	p := loader.New(nil, "", nil, nil, mk(vf.Map("a", 1)))
	c := p.NewChild(nil, mk(vf.Map("b", 2)))
	check(vf.Integer(1).Equals(c.Load("n/a")), "entry of the parent")
	check(vf.Integer(2).Equals(c.Load("n/b")), "entry of the child")''')
plant('c07', 'C17', 'a negated type that is made of requirements, in a tuple, struct or map', 'the type string is that of another type',
 [('stringer/typestring.go', '''	nt := typ.(dgo.UnaryType)
	util.WriteByte(sb, '!')
	sb.buildTypeString(nt.Operand(), typePrio)''', '''	nt := typ.(dgo.UnaryType)
	util.WriteByte(sb, '!')
	if t, ok := nt.Operand().(dgo.TernaryType); ok && t.Operator() == dgo.OpAnd {
		sb.buildTypeString(t, commaPrio)
		return
	}
	sb.buildTypeString(nt.Operand(), typePrio)''')],
 '''	t := tf.Tuple(tf.Not(tf.AllOf(tf.Not(typ.Nil), typ.String)))
	check(tf.ParseType(t.String()).Equals(t), t.String())''')
plant('c08', 'C22', 'an empty map between other elements of an array', 'what follows an empty map in an array is written as the first entry of an object',
 [('streamer/json.go', '''		j.state = firstInObject
		doer()
		assertOk(j.out.Write([]byte{'}'}))
		j.state = afterElement''', '''		j.state = firstInObject
		doer()
		assertOk(j.out.Write([]byte{'}'}))
		if j.state != firstInObject {
			j.state = afterElement
		}''')],
 '''	for _, v := range []dgo.Value{vf.Values(1, vf.Map(), 2), vf.Map("a", vf.Map(), "b", 2), vf.Values(vf.Values(vf.Map()), 2)} {
		w := streamer.UnmarshalJSON(streamer.MarshalJSON(v, nil), nil)
		check(w.Equals(v), w.String())
	}''')
plant('c09', 'C33', 'two named types with the same parameters', 'parameterized types are equal when their parameters are',
 [('internal/named.go', '''		return t.NamedType.Equals(ot.NamedType) && t.params.Equals(ot.params)''', '''		return t.params.Equals(ot.params) && (t.params.Len() > 1 || t.NamedType.Equals(ot.NamedType))''')],
 '''	mk := func(n string) dgo.NamedType {
		return tf.NewNamed(n, func(v dgo.Value) dgo.Value { return v }, nil, nil, nil, nil)
	}
	a, b := mk("demoA"), mk("demoB")
	x, y := tf.Parameterized(a, vf.Values(1, 2)), tf.Parameterized(b, vf.Values(1, 2))
	check(!x.Equals(y), "demoA[1,2] equals demoB[1,2]")
	check(x.Equals(tf.Parameterized(a, vf.Values(1, 2))), "demoA[1,2] equals itself")''')
plant('c10', 'C24', 'a sensitive value that holds a collection of one element', 'the type of a sensitive value tells what it holds',
 [('internal/sensitive.go', '''	return `sensitive [value redacted]`''', '''	if a, ok := v.value.(dgo.Array); ok && a.Len() == 1 {
		return `sensitive ` + a.String()
	}
	return `sensitive [value redacted]`''')],
 '''	s := vf.Sensitive(vf.Values("secret")).String()
	check(!strings.Contains(s, "secret"), s)''')
plant('c11', 'C26', 'two names for equal types', 'the alias map has a name for a type that stands for another type',
 [('internal/alias.go', '''	a.namedTypes.resize(&c.namedTypes, na)
	a.typeNames.resize(&c.typeNames, na)
''', '''	a.namedTypes.resize(&c.namedTypes, na)
	c.typeNames.resize(&c.typeNames, na)
	a.typeNames.EachEntry(func(e dgo.MapEntry) {
		if rs.Get(e.Value()) == nil && e.Key().(dgo.Type).TypeIdentifier() != dgo.TiIntegerRange {
			c.typeNames.Put(e.Key(), e.Value())
		}
	})
''')],
 '''	am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { a.Add(tf.Integer(1, 5, true), vf.String("five")) })
	am = am.Collect(func(a dgo.AliasAdder) { a.Add(typ.String, vf.String("text")) })
	check(am.GetName(tf.Integer(1, 5, true)) != nil, "name of the type that was added first")
	check(am.GetType(vf.String("five")) != nil, "type of the name that was added first")''')
plant('c12', 'C32', 'a predicate that fails for the last field only', 'the last of the values is not tested',
 [('internal/struct.go', '''func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
	rv := v.rs
	rt := rv.Type()
	for i, n := 0, rt.NumField(); i < n; i++ {''', '''func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
	rv := v.rs
	rt := rv.Type()
	for i, n := 0, rt.NumField(); i < n; i++ {
		if i == n-1 && n > 2 && rt.Field(i).Type.Kind() == reflect.Bool {
			break
		}''')],
 '''	type s struct {
		A int
		B string
		C bool
	}
	m := vf.Map(&s{1, "b", true})
	check(m.Keys().Len() == 3 && m.Keys().Get(2) != nil && m.Keys().Get(2).Equals("C"), m.Keys().String())''')
plant('c13', 'C02', 'two equal maps of four entries that were added in another order', 'the hash code of a map depends on the order of its entries',
 [('internal/map.go', '''	sort.Ints(hs)
	h := 1''', '''	if i != 4 || hs[0] > hs[1] || hs[2] > hs[3] {
		sort.Ints(hs)
	}
	h := 1''')],
 '''	k := []int{1, 2, 3, 4}
	h := vf.Map(1, 10, 2, 20, 3, 30, 4, 40).HashCode()
	for i := 0; i < 256; i++ {
		a, b, c, d := k[i&3], k[i>>2&3], k[i>>4&3], k[i>>6&3]
		m := vf.Map(a, 10*a, b, 10*b, c, 10*c, d, 10*d)
		check(m.Len() < 4 || m.HashCode() == h, m.String())
	}''')
plant('c14', 'C38', 'a struct type with two optional entries asked about one that has neither', 'struct types accept struct types whose additional entries they do not know',
 [('internal/mapstruct.go', '''			if rq || ot.additional { // additional''', '''			if rq || ot.additional && !t.additional { // additional''')],
 '''	a := tf.StructMap(true, tf.StructMapEntry("a", typ.Integer, false))
	b := tf.StructMap(true)
	check(!a.Assignable(b), "{a?:int,...} accepts {...}")
	check(b.Assignable(a), "{...} accepts {a?:int,...}")''')
plant('c15', 'C16', 'a map with a key that is equal to no key of the struct type but has an optional entry missing', 'one missing optional entry makes up for one unknown key',
 [('internal/mapstruct.go', '''		oc := 0
		for i := range ks {
			k := ks[i].(dgo.ExactType)''', '''		oc := 0
		if len(ks) > 2 && om.Len() == len(ks)-1 && !rs[0] {
			oc++
		}
		for i := range ks {
			k := ks[i].(dgo.ExactType)''')],
 '''	t := tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, false), tf.StructMapEntry("b", typ.Integer, false), tf.StructMapEntry("c", typ.Integer, false))
	check(!t.Instance(vf.Map("b", 1, "x", 2)), "{a?,b?,c?} has {b,x}")
	check(t.Instance(vf.Map("b", 1, "c", 2)), "{a?,b?,c?} has {b,c}")
	check(t.Instance(vf.Map("a", 1, "c", 2)), "{a?,b?,c?} has {a,c}")''')
plant('c16', 'C30', 'a lookup in a namespace of a loader while another goroutine adds one', 'namespaces are read without holding the lock',
 [('loader/loader.go', '''	l.lock.RLock()
	ns, ok := l.namespaces.Get(name).(dgo.Loader)
	l.lock.RUnlock()

''', '''	ns, ok := l.namespaces.Get(name).(dgo.Loader)

''')],
 '''	for r := 0; r < 300; r++ {
		l := loader.New(nil, "l", nil, nil, func(l dgo.Loader, name string) dgo.Loader { return loader.New(l, name, nil, nil, nil) })
		var wg sync.WaitGroup
		bad := false
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						bad = true
					}
				}()
				for i := 0; i < 60; i++ {
					if l.Namespace("n"+strconv.Itoa((i+g)%60)) == nil {
						bad = true
					}
				}
			}(g)
		}
		wg.Wait()
		check(!bad, "namespace lost")
	}''', race=True)
plant('c17', 'C09', 'a map with entries merged into it', 'merging a map with as many entries as the receiver changes the receiver',
 [('internal/map.go', '''	c := &hashMap{len: l}
	g.resize(c, l+associations.Len())
	c.PutAll(associations)''', '''	c := &hashMap{len: l}
	g.resize(c, l+associations.Len())
	if !g.frozen && l == associations.Len() && l > 2 {
		c = g
	}
	c.PutAll(associations)''')],
 '''	m := vf.MutableMap(1, 1, 2, 2, 3, 3)
	n := m.Merge(vf.Map(2, 3, 4, 4, 5, 5))
	check(n.Len() == 5, n.String())
	check(m.Equals(vf.Map(1, 1, 2, 2, 3, 3)), m.String())''')
plant('c18', 'C23', 'a map that is used as a key', 'a map with one entry is never recognized as a reference, or the key of a map is',
 [('streamer/streamer.go', '''	dl := sc.dedupLevel
	sc.dedupLevel = NoDedup
	sc.emitData(value)
	sc.dedupLevel = dl''', '''	dl := sc.dedupLevel
	sc.dedupLevel = NoDedup
	sc.emitData(value)
	if _, ok := value.(dgo.Map); !ok {
		sc.dedupLevel = dl
	}''')],
 '''	k := vf.Map("k", "v")
	a := vf.Values("a rather long string, this one")
	v := vf.Values(vf.Map(k, a), a)
	type refs interface{ AddRef(ref int) }
	c := streamer.NewCollector()
	o := streamer.DefaultOptions()
	streamer.New(nil, o).Stream(v, c)
	check(c.Value().Equals(v), c.Value().String())
	w := c.Value().(dgo.Array)
	check(w.Get(1) == w.Get(0).(dgo.Map).Get(k), "the shared value is shared")
	_ = refs(c)''')
plant('c19', 'C27', 'a function that returns more than one value, one of them nil', 'a nil among the results shifts the others',
 [('internal/function.go', '''			if v == Nil {
				_, ok := re.Interface().(dgo.Value)
				if !ok {
					v = nil
				}''', '''			if v == Nil {
				_, ok := re.Interface().(dgo.Value)
				if !ok && i == len(rr)-1 {
					v = nil
				}''')],
 '''	f := vf.Value(func(i int) (error, int) { return nil, i }).(dgo.Function)
	rs := f.Call(vf.Arguments(3))
	check(len(rs) == 2 && rs[0] == nil && rs[1].Equals(3), "results")''')
plant('c20', 'C07', 'arrays that share a prefix that has an element that does not compare, or have different lengths', 'a longer array with a smaller first element compares greater',
 [('internal/array.go', '''		if c != 0 {
			r = c
			break
		}
	}
	return r, ok''', '''		if c != 0 && (r == 0 || i < max-1 || c == r) {
			r = c
			break
		}
	}
	return r, ok''')],
 '''	c, ok := vf.Values(1).CompareTo(vf.Values(2, 3))
	check(ok && c < 0, "{1} < {2,3}")
	c, ok = vf.Values(3).CompareTo(vf.Values(2, 3))
	check(ok && c > 0, "{3} > {2,3}")
	c, ok = vf.Values(1, 3).CompareTo(vf.Values(1, 2, 3))
	check(ok && c > 0, "{1,3} > {1,2,3}")''')
plant('c21', 'C07', 'an array with several elements that compare equal', 'sorting is not stable',
 [('internal/array.go', '''			if c, ok = ac.CompareTo(b); ok {
				return c < 0
			}''', '''			if c, ok = ac.CompareTo(b); ok {
				return c < 0 || c == 0 && !a.Equals(b) && a.Type().TypeIdentifier() < b.Type().TypeIdentifier()
			}''')],
 '''	a := vf.Values(1.0, 1, 2)
	check(a.Sort().Equals(a), a.Sort().String())
	b := vf.Values(1, 1.0, 2)
	check(b.Sort().Equals(b), b.Sort().String())''')
plant('c22', 'C06', 'an array with two different values with the same hash code', 'Unique takes values with the same hash code for the same',
 [('internal/array.go', '''			if k.Equals(e.key) {
				continue nextVal
			}
		}
		tbl[hk]''', '''			if k.Equals(e.key) || e.hashNext != nil && k.HashCode() == e.key.HashCode() {
				continue nextVal
			}
		}
		tbl[hk]''')],
 '''	a := vf.Values("Ab", "BC", "Ca", "CB", vf.Values("Ab"), vf.Values("BC"), 1.5, vf.Values("CB"), vf.Values("Bb"), vf.Values("Ac"))
	check(a.Unique().Len() == 10, a.Unique().String())
	x, y, z := vf.Values("AaAa"), vf.Values("BBBB"), vf.Values("AaBB")
	if x.HashCode() == y.HashCode() {
		check(vf.Values(x, y, z).Unique().Len() == 3, "unique arrays")
	}
	check(vf.Values("AaAa", "BBBB", "AaBB").Unique().Len() == 3, "unique strings")''')
plant('c23', 'C14', 'a value that is an instance of three alternatives', 'a value that three alternatives have is taken for one that one has',
 [('internal/ternary.go', '''			if found {
				// Found twice
				return false
			}
			found = true
		}
	}
	return found
}

func (t *oneOfType) Operands''', '''			if found && i == 1 {
				// Found twice
				return false
			}
			found = !found
		}
	}
	return found
}

func (t *oneOfType) Operands''')],
 '''	t := tf.OneOf(typ.Nil, typ.Integer, tf.Integer(0, 5, true), tf.Integer(1, 3, true))
	check(!t.Instance(2), "2 is an instance of three alternatives")
	check(!t.Instance(4), "4 is an instance of two alternatives")
	check(t.Instance(7), "7 is an instance of one alternative")''')
plant('c24', 'C38', 'an integer or string type asked about alternatives of which one is nil', 'a type accepts alternatives although it does not accept nil, which is one of them',
 [('internal/ternary.go', '''func (t *oneOfType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type) bool {
	ts := t.slice
	for i := range ts {
		if !Assignable(guard, other, ts[i].(dgo.Type)) {
			return false
		}
	}
	return len(ts) > 0''', '''func (t *oneOfType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type) bool {
	ts := t.slice
	n := 0
	for i := range ts {
		if Assignable(guard, other, ts[i].(dgo.Type)) {
			n++
		} else if ts[i] != DefaultNilType {
			return false
		}
	}
	return n > 0''')],
 '''	check(!typ.Integer.Assignable(tf.OneOf(typ.Integer, typ.Nil)), "int accepts int^nil")
	check(typ.Integer.Assignable(tf.OneOf(vf.Integer(3).Type(), tf.Integer(5, 6, true))), "int accepts 3^5..6")''')
plant('c25', 'C31', 'a text with an empty line, followed by a line that starts with a blank', 'the blank is lost',
 [('util/indenter.go', '''		i.NewLine()
		ni++
		if ni >= len(s) {
			return
		}
		s = s[ni:]''', '''		i.NewLine()
		ni++
		if ni >= len(s) {
			return
		}
		if ni == 1 && s[1] == ' ' {
			ni++
		}
		s = s[ni:]''')],
 '''	i := util.NewIndenter("  ").Indent()
	i.AppendIndented("a\\n\\n bc")
	check(i.String() == "a\\n\\n   bc", i.String())''')
plant('c26', 'C31', 'a value that occurs twice, the second time not inside of itself', 'a value is taken for recursive when it was seen before',
 [('util/erpindenter.go', '''		i.seen = append(i.seen, vi)
		vi.AppendTo(i)
		i.seen = s
		return''', '''		i.seen = append(i.seen, vi)
		vi.AppendTo(i)
		if len(s) < 3 {
			i.seen = s
		}
		return''')],
 '''	a := vf.Values(1)
	v := vf.Values(vf.Values(vf.Values(vf.Values(a, a), a), a))
	check(!strings.Contains(v.String(), "recursive"), v.String())
	check(v.String() == "{{{{{1},{1}},{1}},{1}}}", v.String())''')
plant('c27', 'C18', 'a number with an exponent of several digits or a sign', 'a sign after the exponent digits is accepted',
 [('parser/lexer.go', '''		case '+', '-':
			util.WriteRune(buf, r)
			r = sr.Next()
			fallthrough
		default:''', '''		case '+', '-':
			if r == '-' || sr.Peek() == '0' {
				util.WriteRune(buf, r)
			} else if sr.Peek() == '+' {
				sr.Next()
			}
			r = sr.Next()
			fallthrough
		default:''')],
 '''	func() {
		defer func() { check(recover() != nil, "1e++1 is accepted") }()
		tf.Parse("1e++1")
	}()
	check(tf.Parse("1e+1").Equals(10.0), "1e+1")
	check(tf.Parse("1e-1").Equals(0.1), "1e-1")''')
plant('c28', 'C18', 'a regular expression with an escaped double quote', 'an escaped quote in a regular expression loses its escape: the text denotes another expression',
 [('parser/lexer.go', '''			case '/': // Escape is removed
			default:
				util.WriteRune(buf, '\\\\')
			}''', '''			case '/': // Escape is removed
			case '"':
			default:
				util.WriteRune(buf, '\\\\')
			}''')],
 '''	s := tf.ParseType("/a\\\\\\"b/").(dgo.ExactType).ExactValue().String()
	check(s == "a\\\\\\"b", s)''')
plant('c29', 'C19', 'a Go array or slice that is used through a native value', 'native values are equal when their types print the same',
 [('internal/native.go', '''		if k != b.Kind() {
			return false
		}
		return''', '''		if k != b.Kind() {
			return false
		}
		if k == reflect.Chan && a.IsNil() == b.IsNil() {
			return a.Type().Elem() == b.Type().Elem()
		}
		return''')],
 '''	a, b := make(chan int), make(chan int)
	check(!vf.Value(a).Equals(vf.Value(b)), "two channels are equal")
	check(vf.Value(a).Equals(vf.Value(a)), "a channel is equal to itself")''')
plant('c30', 'C08', 'freezing an array that has a frozen array before a mutable one', 'what follows a frozen element stays mutable',
 [('internal/array.go', '''	v.frozen = true
	a := v.slice
	for i := range a {
		if f, ok := a[i].(dgo.Freezable); ok {
			f.Freeze()
		}
	}''', '''	v.frozen = true
	a := v.slice
	for i := range a {
		if f, ok := a[i].(dgo.Freezable); ok {
			if f.Frozen() {
				return
			}
			f.Freeze()
		}
	}''')],
 '''	m := vf.MutableValues(1)
	a := vf.MutableValues(vf.Values(1), m)
	a.Freeze()
	check(m.Frozen(), "element of a frozen array is mutable")''')
plant('c31', 'C05', 'removing a value that is not in the array, or one that is nil', 'removing a nil tells that nothing was removed',
 [('internal/array.go', '''	return v.removePos(v.IndexOf(value)) != nil''', '''	n := v.removePos(v.IndexOf(value))
	return n != nil && n != Nil''')],
 '''	a := vf.MutableValues(1, nil)
	check(a.RemoveValue(nil), "removed nil")
	check(a.Len() == 1, "removed nil")''')
plant('c32', 'C03', 'a map from which all entries are removed one after the other and that is added to again', 'the first entry that is added to a map that was emptied has a stale predecessor',
 [('internal/map.go', '''			if e.next == nil {
				g.last = e.prev
			} else {
				e.next.prev = e.prev
			}
			g.len--
			return old''', '''			if e.next == nil && e.prev != nil {
				g.last = e.prev
			} else if e.next != nil {
				e.next.prev = e.prev
			}
			g.len--
			return old''')],
 '''	m := vf.MapWithCapacity(16)
	m.Put(1, 1)
	m.Remove(1)
	m.Put(2, 2)
	m.Put(3, 3)
	m.Remove(2)
	m.Put(4, 4)
	check(m.String() == "{3:3,4:4}", m.String())''')
plant('c33', 'C02', 'equal arrays of four elements that start with two equal ones, the same or not the same instance', 'the hash code depends on the identity of elements',
 [('internal/array.go', '''	h := 1
	s := v.slice
	for i := range s {
		h = h*31 + deepHashCode(seen, s[i])
	}
	return h''', '''	h := 1
	s := v.slice
	if len(s) > 3 && s[0] == s[1] {
		s = s[1:]
	}
	for i := range s {
		h = h*31 + deepHashCode(seen, s[i])
		if e, ok := s[i].(dgo.Float); ok && e.GoFloat() != 0 && len(s) > 3 && s[0] == s[1] {
			h++
		}
	}
	return h''')],
 '''	a, b := vf.String("x"), vf.String("x")
	check(vf.Values(a, a, 1, 2).HashCode() == vf.Values(a, b, 1, 2).HashCode(), "hash codes of equal arrays")''')
plant('c34', 'C24', 'a sensitive type that holds a sensitive type', 'a sensitive type of sensitive values has any sensitive value',
 [('internal/sensitive.go', '''		return t.wrapped.Instance(ov.value)''', '''		return t.wrapped.Instance(ov.value) || t.wrapped == DefaultSensitiveType''')],
 '''	t := tf.Sensitive(typ.Sensitive)
	check(!t.Instance(vf.Sensitive(1)), "sensitive[sensitive] has sensitive(1)")
	check(t.Instance(vf.Sensitive(vf.Sensitive(1))), "sensitive[sensitive] has sensitive(sensitive(1))")''')
