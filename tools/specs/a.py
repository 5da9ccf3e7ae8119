plant('b01', 'C03', 'removal of the last added key of a chain of at least two, followed by another Put', 'Remove of the last entry leaves the last pointer at the removed entry, so later entries get lost from iteration',
 [('internal/map.go', '''				if e.next == nil {
					g.last = e.prev
				} else {
					e.next.prev = e.prev
				}
				g.len--
				break''', '''				if e.next == nil && e.prev == nil {
					g.last = nil
				} else if e.next != nil {
					e.next.prev = e.prev
				}
				g.len--
				break''')],
 '''	m := vf.MutableMap(1, 1, 2, 2, 3, 3)
	m.RemoveAll(vf.Values(3))
	m.Put(4, 4)
	check(m.Equals(vf.Map(1, 1, 2, 2, 4, 4)), "Put after RemoveAll of the last key")
	n := 0
	m.EachKey(func(dgo.Value) { n++ })
	check(n == 3, "iteration")''')
plant('b02', 'C05', 'Insert at position 0 of an array with spare capacity', 'Insert reuses the backing array and duplicates elements',
 [('internal/array.go', 'v.slice = append(v.slice[:pos], append([]dgo.Value{Value(vi)}, v.slice[pos:]...)...)', '''if pos == len(v.slice) || cap(v.slice) < len(v.slice)+2 {
		v.slice = append(v.slice[:pos], append([]dgo.Value{Value(vi)}, v.slice[pos:]...)...)
		return
	}
	v.slice = append(append(v.slice[:pos], Value(vi)), v.slice[pos:]...)''')],
 '''	a := vf.ArrayWithCapacity(8)
	a.AddValues(1, 2, 3)
	a.Insert(1, 9)
	check(a.Equals(vf.Values(1, 9, 2, 3)), a.String())''')
plant('b03', 'C01', 'comparing a map with a map that has the same number of keys, one of them only in one, associated with nil', 'a missing key is taken for nil',
 [('internal/map.go', '''		return g.All(func(e dgo.MapEntry) bool { return equals(seen, e.Value(), om.Get(e.Key())) })''', '''		return g.All(func(e dgo.MapEntry) bool {
			ov := om.Get(e.Key())
			return ov == nil && e.Value() == Nil || equals(seen, e.Value(), ov)
		})''')],
 '''	a, b := vf.Map("a", nil, "b", 1), vf.Map("c", 1, "b", 1)
	check(!a.Equals(b), "{a:nil,b:1} == {c:1,b:1}")''')
plant('b04', 'C07', 'comparing integers whose difference overflows', 'integer comparison by subtraction overflows',
 [('internal/integer.go', '''		mv := int64(v)
		switch {
		case mv > oi:''', '''		mv := int64(v)
		switch {
		case mv-oi > 0:''')],
 '''	c, _ := vf.Integer(-9223372036854775808).CompareTo(1)
	check(c < 0, "min int compares less than 1")''')
plant('b06', 'C09', 'two derived maps of one mutable map with an entry removed', 'Without shares the nodes of the receiver when the receiver has one entry less than the table size',
 [('internal/binary.go', '''	cp := make([]byte, len(v.bytes))
	copy(cp, v.bytes)
	return &binary{bytes: cp, frozen: frozen}''', '''	if v.frozen && !frozen && cap(v.bytes) > len(v.bytes) {
		return &binary{bytes: v.bytes, frozen: frozen}
	}
	cp := make([]byte, len(v.bytes))
	copy(cp, v.bytes)
	return &binary{bytes: cp, frozen: frozen}''')],
 '''	b := vf.BinaryFromData(strings.NewReader("abc"))
	c := b.Copy(false)
	c.GoBytes()[0] = 'x'
	check(b.Equals([]byte("abc")), "frozen binary changed through its thawed copy")''')
plant('b09', 'C04', 'a Go map with several keys whose dgo values are equal after conversion', 'Map from a reflected map',
 [('internal/map.go', '''		return FromReflectedMap(rm, frozen).(dgo.Map)''', '''		return FromReflectedMap(rm, frozen && rm.Len() < 3).(dgo.Map)''')],
 '''	m := vf.Map(map[string]int{"a": 1, "b": 2, "c": 3})
	check(m.Frozen(), "Map gives a frozen map")''')

plant('b05', 'C08', 'a frozen copy of an array whose nested values sit behind an entry or sensitive', 'FrozenCopy of an array copies only nested arrays and maps, so an unfrozen sensitive in it stays shared',
 [('internal/map.go', """	if f, ok := v.value.(dgo.Freezable); ok {
		v.value = f.FrozenCopy()
	}""", """	switch f := v.value.(type) {
	case dgo.Array:
		v.value = f.FrozenCopy()
	case dgo.Map:
		v.value = f.FrozenCopy()
	case dgo.Binary:
		v.value = f.FrozenCopy()
	}""")],
 """	a := vf.MutableValues()
	m := vf.MutableMap("a", vf.Sensitive(a)).FrozenCopy().(dgo.Map)
	a.Add(1)
	check(m.Get("a").(dgo.Sensitive).Unwrap().(dgo.Array).Len() == 0, "frozen map changed")""")
