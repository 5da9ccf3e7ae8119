From 44b6d69f827697533c5a207795440f8fa24dcbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 001/116] fix: hash codes of logical types must not depend on
 operand order

Equality of AllOf, AnyOf, and OneOf disregards the order of the operands (and an AllOf of
exact types equals the corresponding AllOf of values), so the hash codes must as well.
---
 internal/ternary.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index aeddc80..2ad9b6f 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -96,7 +96,7 @@ func (t *allOfType) HashCode() int {
 }
 
 func (t *allOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOf)
+	return unorderedHashCode(seen, t.slice, nil)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfType) Instance(value interface{}) bool {
@@ -200,7 +200,8 @@ func (t *allOfValueType) HashCode() int {
 }
 
 func (t *allOfValueType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOfValue)
+	// An allOfValueType can be equal to an allOfType so their hashes must be computed in the same way
+	return unorderedHashCode(seen, t.slice, valueAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfValueType) Instance(value interface{}) bool {
@@ -308,7 +309,7 @@ func (t *anyOfType) HashCode() int {
 }
 
 func (t *anyOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAnyOf)
+	return unorderedHashCode(seen, t.slice, nil)*7 + int(dgo.TiAnyOf)
 }
 
 func (t *anyOfType) Instance(value interface{}) bool {
@@ -426,7 +427,7 @@ func (t *oneOfType) HashCode() int {
 }
 
 func (t *oneOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiOneOf)
+	return unorderedHashCode(seen, t.slice, nil)*7 + int(dgo.TiOneOf)
 }
 
 func (t *oneOfType) Instance(value interface{}) bool {
@@ -537,6 +538,20 @@ func sameValues(seen []dgo.Value, a, b dgo.Array, fc func(dgo.Value) dgo.Type) b
 	return false
 }
 
+// unorderedHashCode computes a hash that is independent of the order of the values in the slice. This is necessary
+// because equality of the logical types is independent of the order of their operands.
+func unorderedHashCode(seen []dgo.Value, s []dgo.Value, fc func(dgo.Value) dgo.Type) int {
+	h := 1
+	for i := range s {
+		v := s[i]
+		if fc != nil {
+			v = fc(v)
+		}
+		h += deepHashCode(seen, v)
+	}
+	return h
+}
+
 // lessRestrictive is true if slice 'a' is less restrictive than slice 'b'
 //
 // This is true if:
-- 
2.43.0


From d88f5f68dd0040631bbf9adec9949ba0e15243a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 002/116] fix: maps created from lists of associations must
 have unique frozen keys

ToMap, ToMapFromEntries, Map(k, v, ...), and maps from Go maps inserted nodes without looking
for an existing equal key, kept mutable keys, and ToMapFromEntries relinked nodes of other maps.
---
 internal/array.go | 58 +++++++++++------------------------------------
 internal/map.go   | 17 +++++---------
 2 files changed, 19 insertions(+), 56 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index db7cacb..de3a046 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1308,15 +1308,7 @@ func (v *array) String() string {
 func (v *array) ToMap() dgo.Map {
 	ms := v.slice
 	top := len(ms)
-
-	ts := top / 2
-	if top%2 != 0 {
-		ts++
-	}
-	tbl := make([]*hashNode, tableSizeFor(ts))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: ts, frozen: v.frozen}
-
+	m := &hashMap{table: make([]*hashNode, tableSizeFor(int(float64((top+1)/2)/loadFactor)))}
 	for i := 0; i < top; {
 		mk := ms[i]
 		i++
@@ -1325,53 +1317,29 @@ func (v *array) ToMap() dgo.Map {
 			mv = ms[i]
 			i++
 		}
-		hk := hl & hash(mk.HashCode())
-		nd := &hashNode{mapEntry: mapEntry{key: mk, value: mv}, hashNext: tbl[hk], prev: m.last}
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
-		}
-		m.last = nd
-		tbl[hk] = nd
+		m.Put(mk, mv)
 	}
+	m.frozen = v.frozen
 	return m
 }
 
 func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 	ms := v.slice
-	top := len(ms)
-	tbl := make([]*hashNode, tableSizeFor(top))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: top, frozen: v.frozen}
-
+	m := &hashMap{table: make([]*hashNode, tableSizeFor(int(float64(len(ms))/loadFactor)))}
 	for i := range ms {
-		nd, ok := ms[i].(*hashNode)
-		if !ok {
-			var ea *array
-			if ea, ok = ms[i].(*array); ok && len(ea.slice) == 2 {
-				nd = &hashNode{mapEntry: mapEntry{key: ea.slice[0], value: ea.slice[1]}}
-			} else {
+		switch e := ms[i].(type) {
+		case dgo.MapEntry:
+			m.Put(e.Key(), e.Value())
+		case *array:
+			if len(e.slice) != 2 {
 				return nil, false
 			}
-		} else if nd.hashNext != nil {
-			// Copy node, it belongs to another map
-			c := *nd
-			c.next = nil // this one might not get assigned below
-			nd = &c
-		}
-
-		hk := hl & hash(nd.key.HashCode())
-		nd.hashNext = tbl[hk]
-		nd.prev = m.last
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
+			m.Put(e.slice[0], e.slice[1])
+		default:
+			return nil, false
 		}
-		m.last = nd
-		tbl[hk] = nd
 	}
+	m.frozen = v.frozen
 	return m, true
 }
 
diff --git a/internal/map.go b/internal/map.go
index 6bf7b22..08edb90 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -287,7 +287,6 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 		ic = initialCapacity
 	}
 	tbl := make([]*hashNode, tableSizeFor(int(float64(ic)/loadFactor)))
-	hl := len(tbl) - 1
 	se := make([][2]dgo.Value, len(keys))
 	for i := range keys {
 		key := keys[i]
@@ -306,20 +305,16 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 		return less
 	})
 
-	m := &hashMap{table: tbl, len: top, frozen: frozen}
+	m := &hashMap{table: tbl}
 	for i := range se {
 		e := se[i]
-		k := e[0]
-		hk := hl & hash(k.HashCode())
-		hn := &hashNode{mapEntry: mapEntry{key: k, value: e[1]}, hashNext: tbl[hk], prev: m.last}
-		if m.last == nil {
-			m.first = hn
-		} else {
-			m.last.next = hn
+		v := e[1]
+		if frozen {
+			v = frozenCopy(v)
 		}
-		m.last = hn
-		tbl[hk] = hn
+		m.Put(e[0], v)
 	}
+	m.frozen = frozen
 	return m
 }
 
-- 
2.43.0


From 812a65ab47ef7ddcd48d94875208c336d3e8c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 003/116] fix: slicing an array beyond its length must not
 expose unset elements

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index de3a046..e01aa29 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1273,7 +1273,7 @@ func (v *array) Slice(i, j int) dgo.Array {
 	if v.frozen && i == 0 && j == len(v.slice) {
 		return v
 	}
-	ss := v.slice[i:j]
+	ss := v.slice[i:j:len(v.slice)]
 	if !v.frozen {
 		// a copy is needed. Two non frozen arrays cannot share the same slice storage
 		ss = util.SliceCopy(ss)
-- 
2.43.0


From 325b50051f4c827b8037176c168ef5085a1349f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 004/116] fix: ContainsAll must search all elements of the
 receiver

---
 internal/array.go   | 20 ++++++++------------
 internal/ternary.go |  2 +-
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index e01aa29..0a87e4c 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -958,18 +958,13 @@ func (v *array) ContainsAll(other dgo.Iterable) bool {
 }
 
 func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
-	a := v.slice
-	l := len(a)
-	if l < other.Len() {
+	if len(v.slice) < other.Len() {
 		return false
 	}
-	if l == 0 {
-		return true
-	}
 
 	var vs []dgo.Value
 	if oa, ok := other.(*array); ok {
-		vs = util.SliceCopy(oa.slice)
+		vs = oa.slice
 	} else {
 		vs = sliceFromIterable(other)
 	}
@@ -977,13 +972,14 @@ func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 	// Keep track of elements that have been found equal using a copy
 	// where such elements are set to nil. This avoids excessive calls
 	// to Equals
+	a := util.SliceCopy(v.slice)
 	for i := range vs {
-		ea := a[i]
+		be := vs[i]
 		f := false
-		for j := range vs {
-			if be := vs[j]; be != nil {
-				if equals(seen, be, ea) {
-					vs[j] = nil
+		for j := range a {
+			if ea := a[j]; ea != nil {
+				if equals(seen, ea, be) {
+					a[j] = nil
 					f = true
 					break
 				}
diff --git a/internal/ternary.go b/internal/ternary.go
index 2ad9b6f..e2a4fe3 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -153,7 +153,7 @@ func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	if ot, ok := other.(*allOfValueType); ok {
 		// Safe since explicit values only are assignable to themselves and excess elements
 		// in other only adds to the constraint
-		return (*array)(t).ContainsAll((*array)(ot))
+		return (*array)(ot).ContainsAll((*array)(t))
 	}
 	if ot, ok := other.(*allOfType); ok {
 		return lessRestrictive(guard, typeSlice(ts, valueAsType), typeSlice(ot.slice, typeAsType))
-- 
2.43.0


From 6bff84c1aa0fcf67048174e1408a6b14848e9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 005/116] fix: booleans must compare with Go bool and nil,
 strings with nil

---
 internal/boolean.go | 23 ++++++++++++++---------
 internal/string.go  |  2 +-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/internal/boolean.go b/internal/boolean.go
index 24c4c72..2e50aac 100644
--- a/internal/boolean.go
+++ b/internal/boolean.go
@@ -110,15 +110,10 @@ func (v boolean) CompareTo(other interface{}) (r int, ok bool) {
 	ok = true
 	switch ov := other.(type) {
 	case boolean:
-		r = 0
-		if v {
-			if !ov {
-				r = 1
-			}
-		} else if ov {
-			r = -1
-		}
-	case nilValue:
+		r = v.compare(ov)
+	case bool:
+		r = v.compare(boolean(ov))
+	case nil, nilValue:
 		r = 1
 	default:
 		ok = false
@@ -126,6 +121,16 @@ func (v boolean) CompareTo(other interface{}) (r int, ok bool) {
 	return
 }
 
+func (v boolean) compare(ov boolean) int {
+	if v == ov {
+		return 0
+	}
+	if v {
+		return 1
+	}
+	return -1
+}
+
 func (v boolean) Equals(other interface{}) bool {
 	if ov, ok := other.(boolean); ok {
 		return v == ov
diff --git a/internal/string.go b/internal/string.go
index f6cd983..94f84a7 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -564,7 +564,7 @@ func (v *hstring) CompareTo(other interface{}) (r int, ok bool) {
 		default:
 			r = 0
 		}
-	case nilValue:
+	case nil, nilValue:
 		r = 1
 	default:
 		ok = false
-- 
2.43.0


From 4c71f2398c3306fb199254257f26771eb046731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 006/116] fix: arrays that wrap a Go slice of values must not
 contain unset elements

---
 internal/array.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/array.go b/internal/array.go
index 0a87e4c..6601941 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -733,6 +733,7 @@ func ArrayFromReflected(vr reflect.Value, frozen bool) dgo.Value {
 			if frozen {
 				arr = util.SliceCopy(arr)
 			}
+			ReplaceNil(arr)
 		}
 	}
 
-- 
2.43.0


From 2b302e358e52f0468defdacb05a7d67331cc1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 007/116] fix: arrays derived from an array must not share
 storage with it and stay frozen throughout

---
 internal/array.go | 48 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 6601941..2efe29d 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1037,7 +1037,16 @@ func (v *array) Flatten() dgo.Array {
 			return &array{slice: flattenElements(a[i:], fs), frozen: v.frozen}
 		}
 	}
-	return v
+	return v.unchanged()
+}
+
+// unchanged returns the receiver if it is frozen and otherwise a copy of it, because two non frozen arrays cannot
+// share the same slice storage.
+func (v *array) unchanged() dgo.Array {
+	if v.frozen {
+		return v
+	}
+	return &array{slice: util.SliceCopy(v.slice)}
 }
 
 func flattenElements(elements, receiver []dgo.Value) []dgo.Value {
@@ -1138,7 +1147,11 @@ func (v *array) Map(mapper dgo.Mapper) dgo.Array {
 	a := v.slice
 	vs := make([]dgo.Value, len(a))
 	for i := range a {
-		vs[i] = Value(mapper(a[i]))
+		mv := Value(mapper(a[i]))
+		if v.frozen {
+			mv = frozenCopy(mv)
+		}
+		vs[i] = mv
 	}
 	return &array{slice: vs, frozen: v.frozen}
 }
@@ -1281,7 +1294,7 @@ func (v *array) Slice(i, j int) dgo.Array {
 func (v *array) Sort() dgo.Array {
 	sa := v.slice
 	if len(sa) < 2 {
-		return v
+		return v.unchanged()
 	}
 	sorted := util.SliceCopy(sa)
 	sort.SliceStable(sorted, func(i, j int) bool {
@@ -1350,7 +1363,7 @@ func (v *array) Unique() dgo.Array {
 	a := v.slice
 	top := len(a)
 	if top < 2 {
-		return v
+		return v.unchanged()
 	}
 	tbl := make([]*hashNode, tableSizeFor(int(float64(top)/loadFactor)))
 	hl := len(tbl) - 1
@@ -1371,7 +1384,7 @@ nextVal:
 		ui++
 	}
 	if ui == top {
-		return v
+		return v.unchanged()
 	}
 	return &array{slice: u[:ui], frozen: v.frozen}
 }
@@ -1388,27 +1401,38 @@ func (v *array) Pop() (dgo.Value, bool) {
 }
 
 func (v *array) With(vi interface{}) dgo.Array {
-	return &array{slice: append(v.slice, Value(vi)), frozen: v.frozen}
+	val := Value(vi)
+	if v.frozen {
+		val = frozenCopy(val)
+	}
+	return v.withSlice([]dgo.Value{val})
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 	if values.Len() == 0 {
-		return v
+		return v.unchanged()
 	}
-	c := v.Copy(false)
 	if v.frozen {
-		values = values.FrozenCopy().(dgo.Iterable)
+		var vs []dgo.Value
+		values.Each(func(e dgo.Value) { vs = append(vs, frozenCopy(e)) })
+		return v.withSlice(vs)
 	}
+	c := v.Copy(false)
 	c.AddAll(values)
-	c.(*array).frozen = v.frozen
 	return c
 }
 
 func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
-		return v
+		return v.unchanged()
 	}
-	return &array{slice: append(v.slice, valueSlice(values, v.frozen)...), frozen: v.frozen}
+	return v.withSlice(valueSlice(values, v.frozen))
+}
+
+// withSlice returns a new array with the elements of the receiver followed by the elements of the given slice
+func (v *array) withSlice(vs []dgo.Value) dgo.Array {
+	l := len(v.slice)
+	return &array{slice: append(v.slice[:l:l], vs...), frozen: v.frozen}
 }
 
 // ReplaceNil performs an in-place replacement of nil interfaces with the NilValue
-- 
2.43.0


From e1fdc8787356d406388511884e56cd4c17d1b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 008/116] fix: ThawedCopy of a map entry must not modify the
 entry

---
 internal/map.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 08edb90..b7545ef 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -133,9 +133,7 @@ func (v *mapEntry) FrozenCopy() dgo.Value {
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
 	c := &mapEntry{key: v.key, value: v.value}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
@@ -150,9 +148,7 @@ func (v *hashNode) FrozenCopy() dgo.Value {
 
 func (v *hashNode) ThawedCopy() dgo.Value {
 	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
-- 
2.43.0


From c8d9241c46d1b2599d4a43098548a70f6ab9b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 009/116] fix: the key of a map entry must be frozen

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index b7545ef..b4357da 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -74,7 +74,7 @@ func (t *exactEntryType) TypeIdentifier() dgo.TypeIdentifier {
 
 // NewMapEntry returns a new MapEntry instance with the given key and value
 func NewMapEntry(key, value interface{}) dgo.MapEntry {
-	return &mapEntry{Value(key), Value(value)}
+	return &mapEntry{frozenCopy(Value(key)), Value(value)}
 }
 
 func (t *exactEntryType) ExactValue() dgo.Value {
-- 
2.43.0


From 2b7ff9b7794dca04d94e725dabb6e3a79b8d3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 010/116] fix: maps derived from a map must not be the map
 itself unless frozen and stay frozen throughout

---
 internal/map.go | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index b4357da..f49ac8f 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -564,26 +564,49 @@ func (g *hashMap) Len() int {
 }
 
 func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
-	c := &hashMap{len: g.len, frozen: g.frozen}
+	c := &hashMap{len: g.len}
 	g.resize(c, 0)
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
 	}
-	return c
+	return c.derivedFrom(g)
 }
 
 func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 	if associations.Len() == 0 || g == associations {
-		return g
+		return g.unchanged()
 	}
 	l := g.len
-	if l == 0 {
+	if l == 0 && g.frozen {
+		if hm, ok := associations.(*hashMap); ok {
+			return hm.Copy(true)
+		}
 		return associations
 	}
 	c := &hashMap{len: l}
 	g.resize(c, l+associations.Len())
 	c.PutAll(associations)
-	c.frozen = g.frozen
+	return c.derivedFrom(g)
+}
+
+// derivedFrom makes a map that was just created from the given map frozen if the given map is frozen
+func (g *hashMap) derivedFrom(o *hashMap) dgo.Map {
+	if o.frozen {
+		for e := g.first; e != nil; e = e.next {
+			e.copyFreeze()
+		}
+		g.frozen = true
+	}
+	return g
+}
+
+// unchanged returns the receiver if it is frozen and otherwise a copy of it
+func (g *hashMap) unchanged() dgo.Map {
+	if g.frozen {
+		return g
+	}
+	c := &hashMap{len: g.len}
+	g.resize(c, 0)
 	return c
 }
 
@@ -792,21 +815,20 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-		if val.Equals(g.Get(key)) {
-			return g
+		if old := g.Get(key); old != nil && val.Equals(old) {
+			return g.unchanged()
 		}
 		c = &hashMap{len: g.len}
 		g.resize(c, 1)
 	}
 	c.Put(key, val)
-	c.frozen = g.frozen
-	return c
+	return c.derivedFrom(g)
 }
 
 func (g *hashMap) Without(ki interface{}) dgo.Map {
 	key := Value(ki)
 	if g.Get(key) == nil {
-		return g
+		return g.unchanged()
 	}
 	c := &hashMap{len: g.len}
 	g.resize(c, 0)
@@ -817,13 +839,13 @@ func (g *hashMap) Without(ki interface{}) dgo.Map {
 
 func (g *hashMap) WithoutAll(keys dgo.Array) dgo.Map {
 	if g.len == 0 || keys.Len() == 0 {
-		return g
+		return g.unchanged()
 	}
 	c := &hashMap{len: g.len}
 	g.resize(c, 0)
 	c.RemoveAll(keys)
 	if g.len == c.len {
-		return g
+		return g.unchanged()
 	}
 	c.frozen = g.frozen
 	return c
-- 
2.43.0


From 7b25cc12a9a92c1d348745bad4c2614875dca522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 011/116] fix: assignability of types with additional keys and
 of variadic tuples

A struct type that doesn't allow additional keys, and a map type, was
assignable from a struct type that does, and the types of remaining
elements weren't compared when both tuples were variadic.
---
 internal/array.go     |  4 +++-
 internal/mapstruct.go | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 2efe29d..6067d95 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -441,7 +441,9 @@ func tupleAssignableTuple(guard dgo.RecursionGuard, t, ot dgo.TupleType) bool {
 			return false
 		}
 	}
-	return true
+
+	// If other is variadic then so is t (since Max is checked). Remaining elements must be assignable too.
+	return ov == nil || tv != nil && Assignable(guard, tv, ov)
 }
 
 func tupleAssignableArray(guard dgo.RecursionGuard, t dgo.TupleType, ot *sizedArrayType) bool {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ccee25b..419b6ba 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -197,7 +197,7 @@ func (t *structType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bo
 				return false
 			}
 		}
-		return t.additional || oc == len(oks)
+		return t.additional || !ot.additional && oc == len(oks)
 	case *exactMapType:
 		ov := ot.value
 		return Instance(guard, t, ov)
@@ -283,6 +283,10 @@ func (t *structType) Get(key interface{}) dgo.StructMapEntry {
 }
 
 func (t *structType) KeyType() dgo.Type {
+	if t.additional {
+		// additional keys can be of any type
+		return DefaultAnyType
+	}
 	switch t.keys.Len() {
 	case 0:
 		return DefaultAnyType
@@ -441,6 +445,10 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 }
 
 func (t *structType) ValueType() dgo.Type {
+	if t.additional {
+		// additional values can be of any type
+		return DefaultAnyType
+	}
 	switch t.values.Len() {
 	case 0:
 		return DefaultAnyType
-- 
2.43.0


From 76dad186da1c924308bf699401423cb79631f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:51 +0000
Subject: [PATCH 012/116] fix: don't let the recursion guard leak what is seen
 on one path into another

Sibling branches shared what had been seen so far which made e.g. []int|[]float
assignable from []string|[]int.
---
 internal/array.go   |  2 +-
 internal/compare.go | 15 +++++++--------
 internal/type.go    |  4 +---
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 6067d95..ff6ce75 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -192,7 +192,7 @@ func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	case defaultArrayType:
 		return false // lacks size
 	case dgo.ArrayType:
-		return t.min <= ot.Min() && ot.Max() <= t.max && t.elementType.Assignable(ot.ElementType())
+		return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, t.elementType, ot.ElementType())
 	}
 	return CheckAssignableTo(guard, other, t)
 }
diff --git a/internal/compare.go b/internal/compare.go
index fc6b237..8c2b47c 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -12,6 +12,8 @@ type deepEqual interface {
 	deepHashCode(seen []dgo.Value) int
 }
 
+// doubleSeen keeps track of what has been seen on the path that leads to the current pair. Nothing that is seen
+// on one path must ever be considered seen on another.
 type doubleSeen struct {
 	aSeen   []dgo.Value
 	bSeen   []dgo.Value
@@ -24,20 +26,17 @@ func (s *doubleSeen) Hit() bool {
 }
 
 func (s *doubleSeen) Append(a, b dgo.Value) dgo.RecursionGuard {
-	if !s.seenInA {
-		s.seenInA = util.RecursionHit(s.aSeen, a)
-	}
-	if !s.seenInB {
-		s.seenInB = util.RecursionHit(s.bSeen, b)
-	}
-	c := *s
+	// slice capacity is limited to ensure that the append doesn't write to an array that is shared with other paths
+	c := &doubleSeen{aSeen: s.aSeen[:len(s.aSeen):len(s.aSeen)], bSeen: s.bSeen[:len(s.bSeen):len(s.bSeen)]}
+	c.seenInA = util.RecursionHit(c.aSeen, a)
+	c.seenInB = util.RecursionHit(c.bSeen, b)
 	if !c.seenInA {
 		c.aSeen = append(c.aSeen, a)
 	}
 	if !c.seenInB {
 		c.bSeen = append(c.bSeen, b)
 	}
-	return &c
+	return c
 }
 
 func (s *doubleSeen) Swap() dgo.RecursionGuard {
diff --git a/internal/type.go b/internal/type.go
index 07085ac..495435c 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -14,9 +14,7 @@ import (
 // argument. Otherwise, this goFunc returns false
 func CheckAssignableTo(guard dgo.RecursionGuard, t, other dgo.Type) bool {
 	if lt, ok := t.(dgo.ReverseAssignable); ok {
-		if guard != nil {
-			guard = guard.Swap()
-		}
+		// The guard is not swapped here since AssignableTo doesn't change the order of the types that are checked
 		return lt.AssignableTo(guard, other)
 	}
 	return false
-- 
2.43.0


From 8cddae0451755f5867fc4c747f71bfe89ea5c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:57 +0000
Subject: [PATCH 013/116] fix: refuse unsigned integers that an int64 cannot
 hold, float is assignable from a union of floats

---
 internal/float.go   | 2 +-
 internal/integer.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 9ea6ae9..3117fa0 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -179,7 +179,7 @@ func (t defaultFloatType) Assignable(other dgo.Type) bool {
 	case defaultFloatType, *exactFloatType, *floatType:
 		return true
 	}
-	return false
+	return CheckAssignableTo(nil, other, t)
 }
 
 func (t defaultFloatType) Equals(other interface{}) bool {
diff --git a/internal/integer.go b/internal/integer.go
index c2efdd7..0cc5859 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -390,12 +390,12 @@ func ToInt(value interface{}) (int64, bool) {
 	case int8:
 		v = int64(value)
 	case uint:
-		if value == math.MaxUint64 {
+		if uint64(value) > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
 	case uint64:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
-- 
2.43.0


From 036ce1272dfebc4826a28ebcae121c996f41aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 014/116] fix: the map type is assignable from struct map types

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index f49ac8f..cef7020 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1158,7 +1158,7 @@ const DefaultMapType = defaultMapType(0)
 
 func (t defaultMapType) Assignable(other dgo.Type) bool {
 	switch other.(type) {
-	case defaultMapType, *sizedMapType, *exactMapType:
+	case defaultMapType, *sizedMapType, *exactMapType, *structType:
 		return true
 	}
 	return CheckAssignableTo(nil, other, t)
-- 
2.43.0


From 84a3e7e52ed144bff298ad011f07d75c7d4bbbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 015/116] fix: a oneOf type is assignable from an equal oneOf
 type

---
 internal/ternary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ternary.go b/internal/ternary.go
index e2a4fe3..a293032 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -384,6 +384,9 @@ func (t *oneOfType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) boo
 		_, ok := other.(*oneOfType)
 		return ok
 	}
+	if t.Equals(other) {
+		return true
+	}
 	found := false
 	for i := range ts {
 		if Assignable(guard, ts[i].(dgo.Type), other) {
-- 
2.43.0


From 1bdeb076d9ba6b02b7bd9a638a3dc2cc0eca4489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 016/116] fix: sizes of string and binary types are never
 negative

---
 internal/binary.go | 3 +++
 internal/string.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 20c00ab..78a58d3 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -62,6 +62,9 @@ func SizedBinaryType(min, max int) dgo.BinaryType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
diff --git a/internal/string.go b/internal/string.go
index 94f84a7..625ed6c 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -445,6 +445,9 @@ func SizedStringType(min, max int) dgo.StringType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
-- 
2.43.0


From 029ec338d1421dcdc23fe4ea4c6d0672138e7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 017/116] fix: New of a sensitive type refuses values that the
 type doesn't have

---
 internal/sensitive.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index b0966d7..fa5fa24 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -89,10 +89,14 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 		args.AssertSize(`sensitive`, 1, 1)
 		arg = args.Get(0)
 	}
-	if s, ok := arg.(dgo.Sensitive); ok {
-		return s
+	s, ok := arg.(dgo.Sensitive)
+	if !ok {
+		s = Sensitive(arg)
 	}
-	return Sensitive(arg)
+	if !t.Instance(s) {
+		panic(IllegalAssignment(t, s))
+	}
+	return s
 }
 
 func (t *sensitiveType) String() string {
-- 
2.43.0


From 90592d3098580d20396d8b188512dca4ec82d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 018/116] fix: equality of an empty tuple and the type of an
 empty array was not symmetric

---
 internal/array.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/array.go b/internal/array.go
index ff6ce75..236ff34 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -517,6 +517,10 @@ func (t *tupleType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
+	if _, ok := other.(*exactArrayType); ok {
+		// an exactArrayType is only equal to another exactArrayType
+		return false
+	}
 	if ot, ok := other.(dgo.TupleType); ok {
 		n := t.Len()
 		if t.Variadic() == ot.Variadic() && n == ot.Len() {
-- 
2.43.0


From b6b4879c89aa87b5fca35ebbfe026bc83fadad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 019/116] fix: Validate of a struct type reported keys that the
 type permits as unknown

---
 internal/mapstruct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 419b6ba..9a063bc 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -392,7 +392,7 @@ func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value in
 		}
 	})
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
+		if !t.Additional() && t.Get(k.Type()) == nil {
 			errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
 		}
 	})
@@ -431,7 +431,7 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 		out.NewLine()
 	})
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
+		if !t.Additional() && t.Get(k.Type()) == nil {
 			ok = false
 			out.Printf(`Validating '%s'`, k)
 			inner.NewLine()
-- 
2.43.0


From 12ae44844b5518077cbf2a8d1284993ef1c9c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 020/116] fix: tuple, array and struct types with nil elements
 could not be created (nil type is exact but has no exact value)

---
 internal/nil.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/nil.go b/internal/nil.go
index 41635ca..6e51a74 100644
--- a/internal/nil.go
+++ b/internal/nil.go
@@ -63,6 +63,10 @@ func (t nilType) Equals(v interface{}) bool {
 	return t == v
 }
 
+func (t nilType) ExactValue() dgo.Value {
+	return Nil
+}
+
 func (t nilType) HashCode() int {
 	return int(1 + dgo.TiNil)
 }
-- 
2.43.0


From 71e80762c2571cd551ad111f5c58a1ef4ab6b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 021/116] fix: a float range without upper bound swallowed the
 token that follows it

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index caaba22..a93d6b8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -655,7 +655,6 @@ func (p *parser) float(t *Token) dgo.Value {
 			p.NextToken()
 			tp = internal.FloatType(f, tokenFloat(n), inclusive)
 		} else {
-			p.NextToken()
 			tp = internal.FloatType(f, math.MaxFloat64, inclusive) // Unbounded at upper end
 		}
 	} else {
-- 
2.43.0


From 1d8e23b134f25c7ba1e8cda923100c4fffc58ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 022/116] fix: a float with an exponent could not be the lower
 bound of a range

---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index cd0ffdc..d6fe237 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -159,6 +159,8 @@ func consumeUnsignedInteger(sr *util.StringReader, buf io.Writer) {
 	for {
 		r := sr.Peek()
 		switch {
+		case r == '.' && sr.Peek2() == '.':
+			return // lower bound of a range
 		case r == '.' || IsLetter(r):
 			panic(badToken(r))
 		case IsDigit(r):
-- 
2.43.0


From af24a60f834cc0c5cb9eed2dfd9f39bf1b0faca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 023/116] fix: the string form of an exclusive range without
 lower bound was ambiguous

---
 stringer/typestring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 7a87702..f6fc82f 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -339,7 +339,7 @@ func (sb *typeBuilder) writeSizeBoundaries(min, max int64) {
 }
 
 func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
-	if min != math.MinInt64 {
+	if min != math.MinInt64 || !inclusive { // "...x" is a variadic element in a tuple
 		util.WriteString(sb, strconv.FormatInt(min, 10))
 	}
 	op := `...`
@@ -353,7 +353,7 @@ func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
 }
 
 func (sb *typeBuilder) writeFloatRange(min, max float64, inclusive bool) {
-	if min != -math.MaxFloat64 {
+	if min != -math.MaxFloat64 || !inclusive { // "...x" is a variadic element in a tuple
 		util.WriteString(sb, util.Ftoa(min))
 	}
 	op := `...`
-- 
2.43.0


From 79540ef8cb7a167017013931e2edc9d71609085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 024/116] fix: negated and case insensitive types could not be
 parsed as element and value types

---
 parser/parser.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a93d6b8..657f8b0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -474,11 +474,11 @@ func (p *parser) allOf(t *Token) {
 }
 
 func (p *parser) unary(t *Token) {
-	negate := false
 	ciString := false
 	if t.Type == '!' {
-		negate = true
-		t = p.NextToken()
+		p.unary(p.NextToken())
+		p.Append(internal.NotType(p.PopLastType()))
+		return
 	}
 	if t.Type == '~' {
 		ciString = true
@@ -494,10 +494,6 @@ func (p *parser) unary(t *Token) {
 			panic(badSyntax(t, exStringLiteral))
 		}
 	}
-	if negate {
-		nt := internal.NotType(p.PopLastType())
-		p.Append(nt)
-	}
 }
 
 func (p *parser) mapExpression() dgo.Value {
@@ -520,7 +516,7 @@ func (p *parser) mapExpression() dgo.Value {
 		panic(badSyntax(n, exRightBracket))
 	}
 
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params := internal.WrapSlice([]dgo.Value{keyType, p.PopLastType()})
 	if szc != nil {
 		params.AddAll(szc)
@@ -707,7 +703,7 @@ func (p *parser) dotRange(t *Token) dgo.Value {
 func (p *parser) array() dgo.Value {
 	p.params()
 	params := p.PopLast().(dgo.Array)
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params.Insert(0, p.PopLastType())
 	return internal.ArrayType(params.InterfaceSlice())
 }
-- 
2.43.0


From 42bc0c12417eef0f3026847e09410978d22e70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:38 +0000
Subject: [PATCH 025/116] fix: the string form of a function type in a combined
 type lost the extent of its result

---
 stringer/typestring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index f6fc82f..f593473 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -230,7 +230,7 @@ func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 	out := ft.Out()
 	if out.Len() > 0 {
 		util.WriteByte(sb, ' ')
-		if out.Len() == 1 && !out.Variadic() {
+		if out.Len() == 1 && !out.Variadic() && prio == commaPrio {
 			sb.buildTypeString(out.Element(0), prio)
 		} else {
 			sb.writeTupleArgs(ft.Out(), '(', ')')
-- 
2.43.0


From 2f31bc666f10e909e756239a3ef7ac6e22e39da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 026/116] fix: non string keys of map entries were parsed as
 strings

---
 parser/parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 657f8b0..31d4b09 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -388,11 +388,11 @@ func (p *parser) params() {
 func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	var key dgo.Value
 	nt := p.PeekToken()
-	if t.Type == identifier && nt.Type == ':' || nt.Type == '?' {
+	if t.Type == identifier && (nt.Type == ':' || nt.Type == '?') {
 		if expectEntry == 0 {
 			panic(errors.New(`mix of elements and map entries`))
 		}
-		key = internal.String(t.Value)
+		key = keyIdentifier(t)
 	} else {
 		p.anyOf(t)
 		nt = p.PeekToken()
@@ -428,6 +428,15 @@ func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	return expectEntry
 }
 
+// keyIdentifier returns the key that an identifier represents. It's a string unless the identifier is a literal value.
+func keyIdentifier(t *Token) dgo.Value {
+	switch t.Value {
+	case `true`, `false`, `nil`:
+		return identifierToTypeMap[t.Value]
+	}
+	return internal.String(t.Value)
+}
+
 func (p *parser) anyOf(t *Token) {
 	p.oneOf(t)
 	if p.PeekToken().Type == '|' {
-- 
2.43.0


From a5423cd77431164e760aadc4a1999192690be1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 027/116] fix: the string form of constrained and exact binary
 types could not be parsed

---
 parser/parser.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 31d4b09..e2865d3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -560,6 +560,20 @@ func (p *parser) string() dgo.Value {
 	return internal.DefaultStringType
 }
 
+func (p *parser) binary() dgo.Value {
+	switch p.PeekToken().Type {
+	case '[':
+		// get size arguments
+		p.NextToken()
+		p.params()
+		szc := p.PopLast().(dgo.Array)
+		return internal.BinaryType(szc.InterfaceSlice()...)
+	case stringLiteral:
+		return internal.BinaryFromEncoded(p.NextToken().Value, `%B`)
+	}
+	return internal.DefaultBinaryType
+}
+
 func (p *parser) sensitive() dgo.Value {
 	tt := p.PeekToken().Type
 	if tt == '[' {
@@ -605,7 +619,6 @@ var identifierToTypeMap = map[string]dgo.Value{
 	`int`:    internal.DefaultIntegerType,
 	`float`:  internal.DefaultFloatType,
 	`dgo`:    internal.DefaultDgoStringType,
-	`binary`: internal.DefaultBinaryType,
 	`true`:   internal.True,
 	`false`:  internal.False,
 	`nil`:    internal.Nil,
@@ -623,6 +636,8 @@ func (p *parser) identifier(t *Token, returnUnknown bool) dgo.Value {
 		tp = p.meta()
 	case `string`:
 		tp = p.string()
+	case `binary`:
+		tp = p.binary()
 	case `sensitive`:
 		tp = p.sensitive()
 	case `func`:
-- 
2.43.0


From 425793c74d271d82cc0368c59fabdcdb7d433037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 028/116] fix: escapes in the string form of strings with non
 printable characters could not be parsed

---
 parser/lexer.go | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d6fe237..68e825b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/internal"
 
@@ -334,7 +335,7 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 		case 0:
 			panic(errors.New("unterminated string"))
 		case '\\':
-			consumeEscape(sr.Next(), buf, end)
+			consumeEscape(sr, buf, end)
 		case '\n':
 			panic(errors.New("unterminated string"))
 		default:
@@ -343,7 +344,8 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 	}
 }
 
-func consumeEscape(r rune, buf io.Writer, end rune) {
+func consumeEscape(sr *util.StringReader, buf io.Writer, end rune) {
+	r := sr.Next()
 	switch r {
 	case 0:
 		panic(errors.New("unterminated string"))
@@ -353,6 +355,21 @@ func consumeEscape(r rune, buf io.Writer, end rune) {
 		r = '\r'
 	case 't':
 		r = '\t'
+	case 'a':
+		r = '\a'
+	case 'b':
+		r = '\b'
+	case 'f':
+		r = '\f'
+	case 'v':
+		r = '\v'
+	case 'x':
+		util.WriteByte(buf, byte(consumeHex(sr, 2)))
+		return
+	case 'u':
+		r = consumeHex(sr, 4)
+	case 'U':
+		r = consumeHex(sr, 8)
 	case '\\':
 	default:
 		if r != end {
@@ -362,6 +379,28 @@ func consumeEscape(r rune, buf io.Writer, end rune) {
 	util.WriteRune(buf, r)
 }
 
+// consumeHex consumes n hexadecimal digits and returns the character code that they denote
+func consumeHex(sr *util.StringReader, n int) rune {
+	c := rune(0)
+	for ; n > 0; n-- {
+		r := sr.Next()
+		switch {
+		case r == 0:
+			panic(errors.New("unterminated string"))
+		case !IsHex(r):
+			panic(badToken(r))
+		case IsDigit(r):
+			c = c<<4 | (r - '0')
+		default:
+			c = c<<4 | (r&^0x20 - 'A' + 10)
+		}
+	}
+	if !utf8.ValidRune(c) {
+		panic(fmt.Errorf("illegal character code U+%X", c))
+	}
+	return c
+}
+
 func consumeRawString(sr *util.StringReader) string {
 	buf := bytes.NewBufferString(``)
 	for {
-- 
2.43.0


From 580963da24839aa9681c6db9147ab4d3dfc41c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 029/116] fix: the string form of the meta type's type parsed
 as another type

---
 internal/meta.go | 3 +++
 parser/parser.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/meta.go b/internal/meta.go
index a34bd8d..2331641 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -111,6 +111,9 @@ func (t *metaType) ReflectType() reflect.Type {
 }
 
 func (t *metaType) Resolve(ap dgo.AliasAdder) {
+	if t.tp == nil {
+		return // type of meta type has no operand
+	}
 	tp := t.tp
 	t.tp = DefaultAnyType
 	t.tp = ap.Replace(tp).(dgo.Type)
diff --git a/parser/parser.go b/parser/parser.go
index e2865d3..e29deda 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -546,6 +546,9 @@ func (p *parser) meta() dgo.Value {
 	if t.Type != ']' {
 		panic(badSyntax(t, exRightBracket))
 	}
+	if mt, ok := tp.(dgo.Meta); ok {
+		return mt.Type() // type of meta type is meta type
+	}
 	return internal.MetaType(tp)
 }
 
-- 
2.43.0


From 6ea8d1c4297fce7f145fc2d4f43496b15cbcf5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 030/116] fix: elements that follow a variadic element were
 accepted without a comma

---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index e29deda..3ce5dbd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -283,6 +283,14 @@ func (p *parser) list(endChar int) {
 			t = p.NextToken()
 			et := internal.ArrayType([]interface{}{p.PopLastType(), 0, math.MaxInt64})
 			p.Append(et)
+			if t.Type != endChar {
+				// The variadic element must be the last one
+				state := exListEnd
+				if endChar == ')' {
+					state = exRightParen
+				}
+				panic(badSyntax(t, state))
+			}
 		}
 
 		if t.Type == endChar {
-- 
2.43.0


From 66b56aadff9806d3541f816f74139e46990ec60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 031/116] fix: a question mark that isn't part of an optional
 map entry was ignored along with its element

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3ce5dbd..d01a8a6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -26,6 +26,7 @@ const (
 	exStringLiteral
 	exTypeExpression
 	exAliasRef
+	exColon
 	exEnd
 )
 
@@ -72,6 +73,8 @@ func expect(state int) (s string) {
 		s = `a type expression`
 	case exAliasRef:
 		s = `an identifier`
+	case exColon:
+		s = `':'`
 	case exEnd:
 		s = `end of expression`
 	}
@@ -409,6 +412,9 @@ func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	optional := nt.Type == '?'
 	if optional {
 		p.NextToken()
+		if nt = p.PeekToken(); nt.Type != ':' {
+			panic(badSyntax(nt, exColon))
+		}
 	}
 
 	if p.PeekToken().Type == ':' {
-- 
2.43.0


From 01bb0c609f49c876c2399ac5693324037116f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 032/116] fix: numbers that cannot be represented were parsed
 as another number

---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d01a8a6..e1c2929 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -825,12 +825,18 @@ func (p *parser) typeExpression(t *Token) {
 }
 
 func tokenInt(t *Token) int64 {
-	i, _ := strconv.ParseInt(t.Value, 0, 64)
+	i, err := strconv.ParseInt(t.Value, 0, 64)
+	if err != nil {
+		panic(err)
+	}
 	return i
 }
 
 func tokenFloat(t *Token) float64 {
-	f, _ := strconv.ParseFloat(t.Value, 64)
+	f, err := strconv.ParseFloat(t.Value, 64)
+	if err != nil {
+		panic(err)
+	}
 	return f
 }
 
-- 
2.43.0


From ad3c369e155e3930ee411b6b17f51e1b850ce5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 033/116] fix: control characters in a type expression were
 parsed as numbers, names or end of text

---
 parser/lexer.go | 6 ++++++
 util/reader.go  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 68e825b..b7a7593 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -102,6 +102,9 @@ func nextToken(sr *util.StringReader) *Token {
 		r := sr.Next()
 		switch r {
 		case 0:
+			if !sr.AtEnd() {
+				panic(errors.New(`unexpected NUL character`))
+			}
 			t = &Token{``, end}
 		case ' ', '\t', '\n':
 			continue
@@ -151,6 +154,9 @@ func buildToken(r rune, sr *util.StringReader) *Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &Token{buf.String(), identifier}
+	case r < ' ':
+		// Control characters must not be mistaken for token types
+		panic(badToken(r))
 	default:
 		return &Token{Type: int(r)}
 	}
diff --git a/util/reader.go b/util/reader.go
index 601b305..a66ca72 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -47,6 +47,11 @@ func (r *StringReader) Next() rune {
 	return c
 }
 
+// AtEnd returns true if Next has been called when there were no more runes to read
+func (r *StringReader) AtEnd() bool {
+	return r.p > len(r.s)
+}
+
 // Peek returns the next rune in the string or 0 if the end as been reached. The position is not affected
 func (r *StringReader) Peek() rune {
 	if r.p >= len(r.s) {
-- 
2.43.0


From 1b16c00a68aaa2b7a2880fec7898b563c5951dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 034/116] fix: text that contains the character U+FFFD could
 not be read

---
 util/reader.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/util/reader.go b/util/reader.go
index a66ca72..ea528d5 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -38,7 +38,7 @@ func (r *StringReader) Next() rune {
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && size == 1 {
 			panic(errors.New("unicode error"))
 		}
 		r.p += size
@@ -59,8 +59,9 @@ func (r *StringReader) Peek() rune {
 	}
 	c := rune(r.s[r.p])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		var size int
+		c, size = utf8.DecodeRuneInString(r.s[r.p:])
+		if c == utf8.RuneError && size == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
@@ -76,7 +77,7 @@ func (r *StringReader) Peek2() rune {
 	var sz int
 	if c >= utf8.RuneSelf {
 		c, sz = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	} else {
@@ -90,8 +91,8 @@ func (r *StringReader) Peek2() rune {
 
 	c = rune(r.s[np])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[np:])
-		if c == utf8.RuneError {
+		c, sz = utf8.DecodeRuneInString(r.s[np:])
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
-- 
2.43.0


From 492137beea50f41840c62137f3aae3b6f4263bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 035/116] fix: type aliases in function and sensitive types
 were not resolved

---
 internal/function.go  | 11 +++++++++++
 internal/sensitive.go |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/internal/function.go b/internal/function.go
index bf3bbb1..8258884 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -259,6 +259,17 @@ func (t *functionType) Out() dgo.TupleType {
 	return t.returns
 }
 
+func (t *functionType) Resolve(ap dgo.AliasAdder) {
+	in := t.arguments
+	out := t.returns
+	t.arguments = EmptyTupleType
+	t.returns = EmptyTupleType
+	in = ap.Replace(in).(dgo.TupleType)
+	out = ap.Replace(out).(dgo.TupleType)
+	t.arguments = in
+	t.returns = out
+}
+
 func (t *functionType) ReflectType() reflect.Type {
 	// There is currently no way to build a goFunc type dynamically
 	panic(errors.New(`unable to build reflect.Type of go func dynamically`))
diff --git a/internal/sensitive.go b/internal/sensitive.go
index fa5fa24..e6885eb 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -99,6 +99,12 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 	return s
 }
 
+func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
+	tw := t.wrapped
+	t.wrapped = DefaultAnyType
+	t.wrapped = ap.Replace(tw).(dgo.Type)
+}
+
 func (t *sensitiveType) String() string {
 	return TypeString(t)
 }
-- 
2.43.0


From 11c1c3460395a47e141ae71ea53a216f077212ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 036/116] fix: equality and order of cyclic values depended on
 which one that was asked

---
 internal/compare.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/compare.go b/internal/compare.go
index 8c2b47c..b3f3f61 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -118,16 +118,28 @@ func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
 	if !ok {
 		return a.Equals(b)
 	}
-	if util.RecursionHit(seen, a) {
-		// Recursion, so assume true
-		return true
-	}
-	db, ok := Value(b).(deepEqual)
+	bv := Value(b)
+	db, ok := bv.(deepEqual)
 	if !ok {
 		// Must be false since only one implements deepEqual
 		return false
 	}
-	return da.deepEqual(append(seen, a), db)
+	if pairRecursionHit(seen, a, bv) {
+		// Recursion, so assume true
+		return true
+	}
+	return da.deepEqual(append(seen, a, bv), db)
+}
+
+// pairRecursionHit returns true if the seen slice, which contains consecutive pairs of values, contains the pair a and b.
+// One of them alone is not enough. It may be compared with several values on the path to the point of recursion.
+func pairRecursionHit(seen []dgo.Value, a, b dgo.Value) bool {
+	for i := 1; i < len(seen); i += 2 {
+		if a == seen[i-1] && b == seen[i] {
+			return true
+		}
+	}
+	return false
 }
 
 func sliceEquals(seen []dgo.Value, a, b []dgo.Value) bool {
@@ -166,9 +178,9 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 		return 0, false
 	}
 
-	if util.RecursionHit(seen, a) {
+	if pairRecursionHit(seen, a, b) {
 		// Recursion, so assume equal
 		return 0, true
 	}
-	return da.deepCompare(append(seen, a), db)
+	return da.deepCompare(append(seen, a, b), db)
 }
-- 
2.43.0


From f440f0a1839af49854cdce1095d90fb6fdc57622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 037/116] fix: recursion through negated and meta types
 overflowed the stack in equality, hash code and string form

---
 internal/meta.go | 18 +++++++++++++-----
 internal/not.go  | 12 ++++++++++--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/internal/meta.go b/internal/meta.go
index 2331641..8058a00 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -44,19 +44,27 @@ func (t *metaType) Describes() dgo.Type {
 }
 
 func (t *metaType) Equals(v interface{}) bool {
-	if mt, ok := v.(*metaType); ok {
-		if t.tp == nil {
-			return mt.tp == nil
+	return equals(nil, t, v)
+}
+
+func (t *metaType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	if mt, ok := other.(*metaType); ok {
+		if t.tp == nil || mt.tp == nil {
+			return t.tp == mt.tp
 		}
-		return t.tp.Equals(mt.tp)
+		return equals(seen, t.tp, mt.tp)
 	}
 	return false
 }
 
 func (t *metaType) HashCode() int {
+	return deepHashCode(nil, t)
+}
+
+func (t *metaType) deepHashCode(seen []dgo.Value) int {
 	h := int(dgo.TiMeta) * 1321
 	if t.tp != nil {
-		h += t.tp.HashCode()
+		h += deepHashCode(seen, t.tp)
 	}
 	return h
 }
diff --git a/internal/not.go b/internal/not.go
index 2d0cae2..cd0eee2 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -23,14 +23,22 @@ func NotType(t dgo.Type) dgo.Type {
 }
 
 func (t *notType) Equals(other interface{}) bool {
+	return equals(nil, t, other)
+}
+
+func (t *notType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	if ot, ok := other.(*notType); ok {
-		return t.negated.Equals(ot.negated)
+		return equals(seen, t.negated, ot.negated)
 	}
 	return false
 }
 
 func (t *notType) HashCode() int {
-	return 1579 + t.negated.HashCode()
+	return deepHashCode(nil, t)
+}
+
+func (t *notType) deepHashCode(seen []dgo.Value) int {
+	return 1579 + deepHashCode(seen, t.negated)
 }
 
 func (t *notType) Assignable(other dgo.Type) bool {
-- 
2.43.0


From f43c67e7ae470d46e9de0da81618db121b0c3ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 038/116] fix: the type of child loaders was registered with
 the implementation of another type

---
 loader/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index 1a2b02a..90f141e 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -300,7 +300,7 @@ var ChildType = tf.NewNamed(`childLoader`,
 	func(v dgo.Value) dgo.Value {
 		return v.(*childLoader).initMap()
 	},
-	reflect.TypeOf(&loader{}),
+	reflect.TypeOf(&childLoader{}),
 	reflect.TypeOf((*dgo.Loader)(nil)).Elem(),
 	nil)
 
-- 
2.43.0


From 7396ac90d53c4a9e06f6f3ba36e9dcc45b9bb6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 039/116] fix: references to values that were decoded from a
 map gave the map

---
 streamer/decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 9cd2b36..b1ae729 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -32,11 +32,15 @@ func (d *dataDecoder) Init() {
 // AddMap initializes and adds a new map and then calls the function with is supposed to
 // add an even number of elements as a sequence of key, value, [key, value, ...]
 func (d *dataDecoder) AddMap(cap int, doer dgo.Doer) {
+	ref := d.Values.Len()
 	d.BasicCollector.AddMap(cap, doer)
 	m := d.PeekLast().(dgo.Map)
 	dl := d.dialect
 	if ts, ok := m.Get(dl.TypeKey()).(dgo.String); ok {
-		d.ReplaceLast(d.decode(ts, m))
+		v := d.decode(ts, m)
+		d.ReplaceLast(v)
+		// Subsequent references to the map are references to the decoded value
+		d.Values.Set(ref, v)
 	}
 }
 
-- 
2.43.0


From 501b21976deed84b2e094d431b4d1ecfe7de61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 040/116] fix: MarshalJSON wrote references in the default
 dialect regardless of the one given

---
 streamer/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 3b362c8..8a8e223 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -25,7 +25,7 @@ func MarshalJSON(v interface{}, dialect Dialect) []byte {
 	if dialect != nil {
 		opts.Dialect = dialect
 	}
-	New(nil, opts).Stream(vf.Value(v), JSON(&b))
+	New(nil, opts).Stream(vf.Value(v), &jsonEncoder{out: &b, state: firstInArray, dialect: opts.Dialect})
 	return b.Bytes()
 }
 
-- 
2.43.0


From f2d5adb9584c781eb4a0ef2f977a211e6b2137b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 041/116] fix: floats without fraction became integers when
 encoded as JSON

---
 streamer/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamer/json.go b/streamer/json.go
index 8a8e223..5ace8d8 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -227,6 +227,10 @@ func (j *jsonEncoder) write(e dgo.Value) {
 		v, err = json.Marshal(e.GoString())
 	case dgo.Float:
 		v, err = json.Marshal(e.GoFloat())
+		if err == nil && !bytes.ContainsAny(v, `.e`) {
+			// Must not be decoded as an integer
+			v = append(v, `.0`...)
+		}
 	case dgo.Integer:
 		v, err = json.Marshal(e.GoInt())
 	case dgo.Boolean:
-- 
2.43.0


From 793ad4aff740a2147e796c5bfe9b835555c1a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 042/116] fix: types without alias were lost when streamed with
 an alias map

---
 streamer/streamer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index b78b8db..1744ad8 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -185,10 +185,10 @@ func (sc *context) emitType(typ dgo.Type) {
 					sc.addData(d.AliasTypeName())
 					sc.addData(d.ValueKey())
 					sc.emitData(vf.Values(tn, typ.String()))
+					return
 				}
-			} else {
-				sc.addData(vf.String(typ.String()))
 			}
+			sc.addData(vf.String(typ.String()))
 		})
 	})
 }
-- 
2.43.0


From 5029a1c3bc74aceaa2d02ab607e262c3c81f57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 043/116] fix: JSON numbers that a float cannot hold were
 decoded as infinity

---
 streamer/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index 5ace8d8..c49876d 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -77,7 +77,10 @@ func (j *jsonDecoder) decodeElem(end json.Delim) bool {
 		if i, err := t.Int64(); err == nil {
 			j.consumer.Add(vf.Integer(i))
 		} else {
-			f, _ := t.Float64()
+			f, err := t.Float64()
+			if err != nil {
+				panic(err)
+			}
 			j.consumer.Add(vf.Float(f))
 		}
 	case bool:
-- 
2.43.0


From 952b2cee7edb667bf6a024083ceb222936b14e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 044/116] fix: decoding a map with complex keys inside of a
 value that contains itself overflowed the stack

---
 streamer/decoder.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index b1ae729..1391acc 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -61,7 +61,7 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 		nm := mv.(dgo.Array).ToMap()
 		// Replace all occurrences of m in the new map recursively with the new map as it
 		// might contain references to itself
-		replaceInstance(m, nm, nm)
+		replaceInstance(m, nm, nm, make(map[dgo.Value]bool))
 		v = nm
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
@@ -89,30 +89,39 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	return v
 }
 
-func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
+func replaceInstance(orig, repl, in dgo.Value, seen map[dgo.Value]bool) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
 	}
 
+	switch in.(type) {
+	case dgo.Map, dgo.Array:
+		// The values may contain themselves
+		if seen[in] {
+			return in, false
+		}
+		seen[in] = true
+	}
+
 	replaceHappened := false
 
 	switch iv := in.(type) {
 	case dgo.Map:
 		iv.EachEntry(func(v dgo.MapEntry) {
-			if re, rh := replaceInstance(orig, repl, v.Value()); rh {
+			if re, rh := replaceInstance(orig, repl, v.Value(), seen); rh {
 				replaceHappened = true
 				iv.Put(v.Key(), re)
 			}
 		})
 	case dgo.Array:
 		iv.EachWithIndex(func(v dgo.Value, i int) {
-			if re, rh := replaceInstance(orig, repl, v); rh {
+			if re, rh := replaceInstance(orig, repl, v, seen); rh {
 				replaceHappened = true
 				iv.Set(i, re)
 			}
 		})
 	case dgo.Sensitive:
-		if rw, rh := replaceInstance(orig, repl, iv.Unwrap()); rh {
+		if rw, rh := replaceInstance(orig, repl, iv.Unwrap(), seen); rh {
 			replaceHappened = true
 			in = vf.Sensitive(rw)
 		}
-- 
2.43.0


From f93990480b28ee3389ae8a3a23849e4d7b800d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 045/116] fix: named values with an empty or complex init map
 could not be decoded

---
 streamer/streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 1744ad8..14f9d59 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -127,7 +127,7 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 		sc.addMap(2, func() {
 			sc.addData(d.TypeKey())
 			sc.addData(vf.String(t.Name()))
-			if vm, ok := v.(dgo.Map); ok {
+			if vm, ok := v.(dgo.Map); ok && vm.Len() > 0 && vm.StringKeys() {
 				vm.EachEntry(func(e dgo.MapEntry) {
 					sc.addData(e.Key())
 					sc.emitData(e.Value())
-- 
2.43.0


From dd70fb88cc87a7bdc56a0bf3f7e213e2217f0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 046/116] fix: text after a JSON value was ignored and unknown
 references crashed

---
 streamer/basiccollector.go | 5 +++++
 streamer/json.go           | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/streamer/basiccollector.go b/streamer/basiccollector.go
index 1b89ba1..2da0fe0 100644
--- a/streamer/basiccollector.go
+++ b/streamer/basiccollector.go
@@ -1,6 +1,8 @@
 package streamer
 
 import (
+	"fmt"
+
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
 )
@@ -61,6 +63,9 @@ func (c *BasicCollector) Add(element dgo.Value) {
 
 // AddRef adds the nth value of the values that has been added once again.
 func (c *BasicCollector) AddRef(ref int) {
+	if ref < 0 || ref >= c.Values.Len() {
+		panic(fmt.Errorf(`reference to unknown value %d`, ref))
+	}
 	c.StackTop().Add(c.Values.Get(ref))
 }
 
diff --git a/streamer/json.go b/streamer/json.go
index c49876d..a3273d6 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -48,6 +48,12 @@ func UnmarshalJSON(b []byte, dialect Dialect) dgo.Value {
 
 	j := &jsonDecoder{consumer: vc, refKey: opts.Dialect.RefKey().GoString(), decoder: je}
 	j.decode()
+	if t, err := je.Token(); err != io.EOF {
+		if err == nil {
+			err = fmt.Errorf(`unexpected %v after the JSON value`, t)
+		}
+		panic(err)
+	}
 	return vc.Value()
 }
 
-- 
2.43.0


From 5130cf92fad74809f8d62537e20f751dc5c16d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 047/116] fix: types were streamed as rich data when rich data
 was disabled

---
 streamer/streamer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 14f9d59..7436fcd 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -177,6 +177,9 @@ func (sc *context) emitString(value dgo.String) {
 
 func (sc *context) emitType(typ dgo.Type) {
 	sc.process(typ, func() {
+		if !sc.config.RichData {
+			panic(sc.unknownSerialization(typ))
+		}
 		sc.addMap(2, func() {
 			d := sc.config.Dialect
 			sc.addData(d.TypeKey())
-- 
2.43.0


From f643f2a5c73dc2978c32ff3b79b8c255f1c515ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 048/116] fix: references to types crashed when parsing without
 an alias map

---
 parser/parser.go         | 9 ++++++++-
 streamer/pcore/parser.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e1c2929..baed36e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -141,7 +141,14 @@ func Parse(content string) (result dgo.Value) {
 
 // ParseFile parses the given content into a dgo.Type. Aliases are added to the given AliasAdder. The filename
 // is used in error messages.
-func ParseFile(am dgo.AliasAdder, fileName, content string) dgo.Value {
+func ParseFile(am dgo.AliasAdder, fileName, content string) (result dgo.Value) {
+	if am == nil {
+		// The default aliases are known, and those that the content declares are only known to the content.
+		internal.DefaultAliases().Collect(func(a dgo.AliasAdder) {
+			result = ParseFile(a, fileName, content)
+		})
+		return
+	}
 	p := &parser{NewParserBase(am, nextToken, content)}
 	return DoParse(p, fileName)
 }
diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index ec99084..8826d57 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -75,7 +75,14 @@ func ParseType(content string) dgo.Type {
 }
 
 // ParseFile parses the given content into a dgo.Type. The filename is used in error messages.
-func ParseFile(am dgo.AliasAdder, fileName, content string) dgo.Value {
+func ParseFile(am dgo.AliasAdder, fileName, content string) (result dgo.Value) {
+	if am == nil {
+		// The default aliases are known, and those that the content declares are only known to the content.
+		tf.DefaultAliases().Collect(func(a dgo.AliasAdder) {
+			result = ParseFile(a, fileName, content)
+		})
+		return
+	}
 	p := &pcoreParser{parser.NewParserBase(am, nextToken, content)}
 	return parser.DoParse(p, fileName)
 }
-- 
2.43.0


From 5703684d2de51f0fc9a868e0fccad4799a1982cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 049/116] fix: integers and floats that a Go variable cannot
 hold were silently changed

---
 internal/float.go   |  9 +++++++++
 internal/integer.go | 20 +++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/float.go b/internal/float.go
index 3117fa0..d23fc87 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -293,6 +293,7 @@ func (v floatVal) ReflectTo(value reflect.Value) {
 		value.Set(reflect.ValueOf(float64(v)))
 	case reflect.Ptr:
 		if value.Type().Elem().Kind() == reflect.Float32 {
+			v.assertFits(reflect.Zero(value.Type().Elem()))
 			gv := float32(v)
 			value.Set(reflect.ValueOf(&gv))
 		} else {
@@ -300,10 +301,18 @@ func (v floatVal) ReflectTo(value reflect.Value) {
 			value.Set(reflect.ValueOf(&gv))
 		}
 	default:
+		v.assertFits(value)
 		value.SetFloat(float64(v))
 	}
 }
 
+// assertFits panics if the given reflected value is of a float kind that cannot hold v
+func (v floatVal) assertFits(value reflect.Value) {
+	if (value.Kind() == reflect.Float32 || value.Kind() == reflect.Float64) && value.OverflowFloat(float64(v)) {
+		panic(fmt.Errorf(`value %s overflows %s`, v, value.Type()))
+	}
+}
+
 func (v floatVal) String() string {
 	return util.Ftoa(float64(v))
 }
diff --git a/internal/integer.go b/internal/integer.go
index 0cc5859..5104ba0 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -306,16 +306,34 @@ func (v intVal) HashCode() int {
 func (v intVal) ReflectTo(value reflect.Value) {
 	switch value.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		v.assertFits(value)
 		value.SetInt(int64(v))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		v.assertFits(value)
 		value.SetUint(uint64(v))
 	case reflect.Ptr:
-		value.Set(v.intPointer(value.Type().Elem().Kind()))
+		et := value.Type().Elem()
+		v.assertFits(reflect.Zero(et))
+		value.Set(v.intPointer(et.Kind()))
 	default:
 		value.Set(reflect.ValueOf(int64(v)))
 	}
 }
 
+// assertFits panics if the given reflected value is of an integer kind that cannot hold v
+func (v intVal) assertFits(value reflect.Value) {
+	overflow := false
+	switch value.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		overflow = value.OverflowInt(int64(v))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		overflow = v < 0 || value.OverflowUint(uint64(v))
+	}
+	if overflow {
+		panic(fmt.Errorf(`value %d overflows %s`, int64(v), value.Type()))
+	}
+}
+
 func (v intVal) intPointer(kind reflect.Kind) reflect.Value {
 	var p reflect.Value
 	switch kind {
-- 
2.43.0


From 03ecc75c21c58791dfab4d7f21da612a93ff5ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 050/116] fix: pointers to the contents of immutable strings
 and errors were given away

---
 internal/error.go  | 3 ++-
 internal/string.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/error.go b/internal/error.go
index 66d5944..80048f9 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -106,7 +106,8 @@ func (e *errw) Error() string {
 
 func (e *errw) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
-		value.Set(reflect.ValueOf(&e.error))
+		ge := e.error // don't expose a pointer to the immutable error
+		value.Set(reflect.ValueOf(&ge))
 	} else {
 		value.Set(reflect.ValueOf(e.error))
 	}
diff --git a/internal/string.go b/internal/string.go
index 625ed6c..8f09e18 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -603,7 +603,8 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&v.s))
+		gs := v.s // don't expose a pointer to the immutable string
+		value.Set(reflect.ValueOf(&gs))
 	default:
 		value.SetString(v.s)
 	}
-- 
2.43.0


From 5802258375a3a3c81c6b4226fbd63790ac8133f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 051/116] fix: pointers to time.Time were not converted to time
 values

---
 internal/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/value.go b/internal/value.go
index 8d46ee8..a1342fd 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -64,6 +64,12 @@ func value(v interface{}) dgo.Value {
 		dv = Regexp(v)
 	case time.Time:
 		dv = (*timeVal)(&v)
+	case *time.Time:
+		dv = Nil
+		if v != nil {
+			ts := *v
+			dv = (*timeVal)(&ts)
+		}
 	case error:
 		dv = &errw{v}
 	case json.Number:
-- 
2.43.0


From 9c53a87ad4693f608d9858d57a07500590679740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 052/116] fix: a map could be made from the internals of values
 that are not maps

---
 internal/map.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index cef7020..03a6e5c 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -244,6 +244,15 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 			return m
 		}
 		rm := reflect.ValueOf(a0)
+		switch v := a0.(type) {
+		case dgo.Map:
+			return v.Copy(frozen)
+		case *native:
+			rm = reflect.Value(*v)
+		case *array, *binary, *errw, *goFunc, *hstring, *mapEntry, *regexpVal, *sensitive, *timeVal, dgo.Type:
+			// must not expose the implementation of the value
+			panic(fmt.Errorf(`illegal argument: %s is not a map, a struct, or an array with even number of elements`, v))
+		}
 		switch rm.Kind() {
 		case reflect.Map:
 			return FromReflectedMap(rm, frozen).(dgo.Map)
@@ -255,7 +264,7 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		case reflect.Struct:
 			return FromReflectedStruct(rm)
 		}
-		panic(fmt.Errorf(`illegal argument: %t is not a map, a struct, or an array with even number of elements`, a0))
+		panic(fmt.Errorf(`illegal argument: %v is not a map, a struct, or an array with even number of elements`, a0))
 	case l%2 == 0:
 		if frozen {
 			return Values(args).ToMap()
-- 
2.43.0


From 0df80817b4779a725cf09a5b38e5b4f2eb3cca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 053/116] fix: floats that an integer cannot hold were
 converted to an arbitrary integer or time

---
 internal/integer.go | 13 ++++++++++++-
 internal/time.go    |  7 ++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/integer.go b/internal/integer.go
index 5104ba0..8d3c7ba 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -448,12 +448,23 @@ func newInt(t dgo.Type, arg dgo.Value) (i dgo.Integer) {
 	return i
 }
 
+// truncFloat converts the given float to an integer by discarding its fraction. The returned boolean is false
+// if the float is NaN or too large for an int64
+func truncFloat(f float64) (int64, bool) {
+	if f >= -(1<<63) && f < 1<<63 {
+		return int64(f), true
+	}
+	return 0, false
+}
+
 func intFromConvertible(from dgo.Value, radix int) int64 {
 	switch from := from.(type) {
 	case dgo.Integer:
 		return from.GoInt()
 	case dgo.Float:
-		return int64(from.GoFloat())
+		if i, ok := truncFloat(from.GoFloat()); ok {
+			return i
+		}
 	case *timeVal:
 		return from.GoTime().Unix()
 	case dgo.Boolean:
diff --git a/internal/time.go b/internal/time.go
index 6176d89..3abe4a3 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"fmt"
 	"math"
 	"reflect"
 	"time"
@@ -105,7 +106,11 @@ func newTime(t dgo.Type, arg dgo.Value) dgo.Time {
 		tv = Time(time.Unix(arg.GoInt(), 0))
 	case dgo.Float:
 		s, f := math.Modf(arg.GoFloat())
-		tv = Time(time.Unix(int64(s), int64(f*1000000000.0)))
+		i, ok := truncFloat(s)
+		if !ok {
+			panic(fmt.Errorf(`the value '%s' cannot be converted to a time`, arg))
+		}
+		tv = Time(time.Unix(i, int64(f*1000000000.0)))
 	case dgo.String:
 		tv = TimeFromString(arg.GoString())
 	default:
-- 
2.43.0


From a4211fc0a2ee4d634ef7e3e59a0eabfe390dc8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 054/116] fix: formatting a sensitive value with verbs other
 than s and v revealed what it wraps

---
 internal/sensitive.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index e6885eb..1f41582 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -1,9 +1,11 @@
 package internal
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 type (
@@ -160,6 +162,12 @@ func (v *sensitive) ThawedCopy() dgo.Value {
 	return v
 }
 
+// Format redacts the value for all verbs (the fmt package would otherwise print the wrapped value for verbs
+// other than 's' and 'v')
+func (v *sensitive) Format(s fmt.State, _ rune) {
+	util.WriteString(s, v.String())
+}
+
 func (v *sensitive) HashCode() int {
 	return deepHashCode(nil, v)
 }
-- 
2.43.0


From 5cdd220f5fa1f02b3c2ec7da9bc7ac818604db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 055/116] fix: the type of a sensitive binary revealed its
 bytes (the generic type of an exact binary type was itself)

---
 internal/binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 78a58d3..bb2b6f2 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -162,6 +162,10 @@ func (v *exactBinaryType) Min() int {
 	return len(v.value.bytes)
 }
 
+func (v *exactBinaryType) Generic() dgo.Type {
+	return DefaultBinaryType
+}
+
 func (v *exactBinaryType) New(arg dgo.Value) dgo.Value {
 	return newBinary(v, arg)
 }
-- 
2.43.0


From 84347d98472c13c2b2c5f028e911f3a300272c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 056/116] fix: the float of a time more than 292 thousand years
 away was arbitrary

---
 internal/time.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/time.go b/internal/time.go
index 3abe4a3..48b6f27 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -158,6 +158,11 @@ func (v *timeVal) SecondsWithFraction() float64 {
 	if 1678 < y && y < 2262 {
 		return float64(t.UnixNano()) / 1000000000.0
 	}
+	const maxMicro = math.MaxInt64/1000000 - 1
+	if s := t.Unix(); s > maxMicro || s < -maxMicro {
+		// Cannot be represented as microseconds in an int64
+		return float64(s) + float64(t.Nanosecond())/1000000000.0
+	}
 	// Fall back to microsecond precision
 	us := t.Unix()*1000000 + int64(t.Nanosecond())/1000
 	return float64(us) / 1000000.0
-- 
2.43.0


From db62a684b1c7547fcf50bb55076d003d3967be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 057/116] fix: only the exported fields that a struct declares
 are entries of its map

---
 internal/struct.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 6c177c9..144cce2 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -26,7 +26,7 @@ func (v *structVal) All(predicate dgo.EntryPredicate) bool {
 	rv := v.rs
 	rt := rv.Type()
 	for i, n := 0, rt.NumField(); i < n; i++ {
-		if !predicate(&mapEntry{&hstring{s: rt.Field(i).Name}, ValueFromReflected(rv.Field(i))}) {
+		if exported(rt.Field(i)) && !predicate(&mapEntry{&hstring{s: rt.Field(i).Name}, ValueFromReflected(rv.Field(i))}) {
 			return false
 		}
 	}
@@ -37,7 +37,7 @@ func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
 	rv := v.rs
 	rt := rv.Type()
 	for i, n := 0, rt.NumField(); i < n; i++ {
-		if !predicate(&hstring{s: rt.Field(i).Name}) {
+		if exported(rt.Field(i)) && !predicate(&hstring{s: rt.Field(i).Name}) {
 			return false
 		}
 	}
@@ -46,8 +46,9 @@ func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
 
 func (v *structVal) AllValues(predicate dgo.Predicate) bool {
 	rv := v.rs
-	for i, n := 0, rv.NumField(); i < n; i++ {
-		if !predicate(ValueFromReflected(rv.Field(i))) {
+	rt := rv.Type()
+	for i, n := 0, rt.NumField(); i < n; i++ {
+		if exported(rt.Field(i)) && !predicate(ValueFromReflected(rv.Field(i))) {
 			return false
 		}
 	}
@@ -68,7 +69,7 @@ func (v *structVal) AnyValue(predicate dgo.Predicate) bool {
 
 func (v *structVal) ContainsKey(key interface{}) bool {
 	if s, ok := stringKey(key); ok {
-		return v.rs.FieldByName(s).IsValid()
+		return v.field(s).IsValid()
 	}
 	return false
 }
@@ -188,6 +189,9 @@ func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
 	rv := v.rs
 	rt := rv.Type()
 	for i, n := 0, rt.NumField(); i < n; i++ {
+		if !exported(rt.Field(i)) {
+			continue
+		}
 		e := &mapEntry{&hstring{s: rt.Field(i).Name}, ValueFromReflected(rv.Field(i))}
 		if predicate(e) {
 			return e
@@ -196,6 +200,22 @@ func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
 	return nil
 }
 
+// exported returns true if the given field is exported and hence an entry of the map
+func exported(f reflect.StructField) bool {
+	return f.PkgPath == ``
+}
+
+// field returns the exported field with the given name or the zero Value if no such field is declared by the struct
+func (v *structVal) field(name string) reflect.Value {
+	rt := v.rs.Type()
+	for i, n := 0, rt.NumField(); i < n; i++ {
+		if f := rt.Field(i); f.Name == name && exported(f) {
+			return v.rs.Field(i)
+		}
+	}
+	return reflect.Value{}
+}
+
 func stringKey(key interface{}) (string, bool) {
 	if hs, ok := key.(*hstring); ok {
 		return hs.s, true
@@ -208,8 +228,7 @@ func stringKey(key interface{}) (string, bool) {
 
 func (v *structVal) Get(key interface{}) dgo.Value {
 	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
+		fv := v.field(s)
 		if fv.IsValid() {
 			return ValueFromReflected(fv)
 		}
@@ -222,7 +241,14 @@ func (v *structVal) Keys() dgo.Array {
 }
 
 func (v *structVal) Len() int {
-	return v.rs.NumField()
+	rt := v.rs.Type()
+	l := 0
+	for i, n := 0, rt.NumField(); i < n; i++ {
+		if exported(rt.Field(i)) {
+			l++
+		}
+	}
+	return l
 }
 
 func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
@@ -249,8 +275,7 @@ func (v *structVal) Put(key, value interface{}) dgo.Value {
 		panic(frozenMap(`Put`))
 	}
 	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
+		fv := v.field(s)
 		if fv.IsValid() {
 			old := ValueFromReflected(fv)
 			ReflectTo(Value(value), fv)
-- 
2.43.0


From a147f8c27cd02ef0b751dc418457765b6e431c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 058/116] fix: an unfrozen copy of a struct map is not affected
 by changes of its values

---
 internal/struct.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 144cce2..03d82c4 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -81,10 +81,7 @@ func (v *structVal) Copy(frozen bool) dgo.Map {
 	if frozen {
 		return v.FrozenCopy().(dgo.Map)
 	}
-	// Thaw: Perform a by-value copy of the frozen struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-	return &structVal{rs: rs, frozen: false}
+	return v.ThawedCopy().(dgo.Map)
 }
 
 func (v *structVal) Each(actor dgo.Consumer) {
-- 
2.43.0


From eb6f724e0ca69759fc1f6408de9faf41c7598976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 059/116] fix: a native pointer can be assigned to a variable
 of its type

---
 internal/native.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/native.go b/internal/native.go
index 2c08475..e8bfb2a 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -139,7 +139,7 @@ func structHash(rv *reflect.Value) int {
 
 func (v *native) ReflectTo(value reflect.Value) {
 	vr := (*reflect.Value)(v)
-	if value.Kind() == reflect.Ptr {
+	if value.Kind() == reflect.Ptr && !vr.Type().AssignableTo(value.Type()) {
 		p := reflect.New(vr.Type())
 		p.Elem().Set(*vr)
 		value.Set(p)
-- 
2.43.0


From acea69609b5fd839bff096cec10b7043161ad44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 060/116] fix: frozen struct maps share nothing that can change
 with the Go struct

---
 internal/struct.go | 67 ++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 03d82c4..57d43e2 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -105,6 +105,10 @@ func (v *structVal) Equals(other interface{}) bool {
 }
 
 func (v *structVal) GoStruct() interface{} {
+	if v.frozen {
+		// Don't expose pointer to frozen struct
+		return v.copyOf(frozenCopy).Addr().Interface()
+	}
 	return v.rs.Addr().Interface()
 }
 
@@ -132,15 +136,15 @@ func (v *structVal) deepHashCode(seen []dgo.Value) int {
 }
 
 func (v *structVal) Freeze() {
-	// Perform a shallow copy of the struct
+	// Perform a copy of the struct
 	if !v.frozen {
 		v.frozen = true
-		v.rs = reflect.ValueOf(v.rs.Interface())
 		v.EachValue(func(e dgo.Value) {
 			if f, ok := e.(dgo.Freezable); ok {
 				f.Freeze()
 			}
 		})
+		v.rs = v.copyOf(frozenCopy)
 	}
 }
 
@@ -153,33 +157,46 @@ func (v *structVal) FrozenCopy() dgo.Value {
 		return v
 	}
 
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
+	return &structVal{rs: v.copyOf(frozenCopy), frozen: true}
+}
 
-	for i, n := 0, rs.NumField(); i < n; i++ {
-		ef := rs.Field(i)
-		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok && !f.Frozen() {
-			ReflectTo(f.FrozenCopy(), ef)
-		}
+func (v *structVal) ThawedCopy() dgo.Value {
+	return &structVal{rs: v.copyOf(thawedCopy), frozen: false}
+}
+
+// thawedCopy returns a thawed copy of the given value. Native values cannot be copied and are returned as is.
+func thawedCopy(v dgo.Value) dgo.Value {
+	if _, ok := v.(*native); ok {
+		return v
 	}
-	return &structVal{rs: rs, frozen: true}
+	if f, ok := v.(dgo.Freezable); ok {
+		v = f.ThawedCopy()
+	}
+	return v
 }
 
-func (v *structVal) ThawedCopy() dgo.Value {
-	// Perform a by-value copy of the struct
+// copyOf returns a copy of the wrapped struct where everything that the exported fields refer to has been replaced
+// with what the given function makes of it.
+func (v *structVal) copyOf(copier func(dgo.Value) dgo.Value) reflect.Value {
 	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
 	rs.Set(v.rs)                          // copy v.rs to the zero value
 
 	for i, n := 0, rs.NumField(); i < n; i++ {
+		if !exported(rs.Type().Field(i)) {
+			continue
+		}
 		ef := rs.Field(i)
 		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok {
-			ReflectTo(f.ThawedCopy(), ef)
+		if _, ok := ev.(dgo.Freezable); ok {
+			ReflectTo(copier(ev), ef)
+		} else if ef.Kind() == reflect.Ptr && ev != Nil && ef.Elem().Kind() != reflect.Struct {
+			// the pointer is to a variable that someone else may change
+			ep := reflect.New(ef.Type().Elem())
+			ep.Elem().Set(ef.Elem())
+			ef.Set(ep)
 		}
 	}
-	return &structVal{rs: rs, frozen: false}
+	return rs
 }
 
 func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
@@ -287,18 +304,16 @@ func (v *structVal) PutAll(associations dgo.Map) {
 }
 
 func (v *structVal) ReflectTo(value reflect.Value) {
+	rs := v.rs
+	if v.frozen {
+		// Don't expose pointer to frozen struct or to something that it refers to
+		rs = v.copyOf(frozenCopy)
+	}
 	if value.Kind() == reflect.Ptr {
-		if v.frozen {
-			// Don't expose pointer to frozen struct
-			rs := reflect.New(v.rs.Type()) // create pointer to a zero value
-			rs.Elem().Set(v.rs)            // copy v.rs to the zero value
-			value.Set(rs)
-		} else {
-			value.Set(v.rs.Addr())
-		}
+		value.Set(rs.Addr())
 	} else {
 		// copy struct by value
-		value.Set(v.rs)
+		value.Set(rs)
 	}
 }
 
-- 
2.43.0


From 5b6b2ff9fbf7e265db1b73cca5b42e910272e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 061/116] fix: the fields of a struct that is passed by value
 can be assigned

---
 internal/map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index 03a6e5c..e868198 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -326,6 +326,12 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 // FromReflectedStruct creates a frozen Map from the exported fields of a go struct. It panics if rm's kind is not
 // reflect.Struct.
 func FromReflectedStruct(rv reflect.Value) dgo.Struct {
+	if !rv.CanAddr() {
+		// the fields of a struct that is passed by value cannot be assigned
+		rs := reflect.New(rv.Type()).Elem()
+		rs.Set(rv)
+		rv = rs
+	}
 	return &structVal{rs: rv, frozen: false}
 }
 
-- 
2.43.0


From e6947e6f3f11e9af4ea8112b9b45ee41e1930575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 062/116] fix: maps derived from a frozen struct map are frozen
 with all their values

---
 internal/map.go    |  4 ++--
 internal/struct.go | 15 +++++----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index e868198..329cf1d 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -605,8 +605,8 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 }
 
 // derivedFrom makes a map that was just created from the given map frozen if the given map is frozen
-func (g *hashMap) derivedFrom(o *hashMap) dgo.Map {
-	if o.frozen {
+func (g *hashMap) derivedFrom(o dgo.Map) dgo.Map {
+	if o.Frozen() {
 		for e := g.first; e != nil; e = e.next {
 			e.copyFreeze()
 		}
diff --git a/internal/struct.go b/internal/struct.go
index 57d43e2..472868b 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -270,8 +270,7 @@ func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
 	}
-	c.frozen = v.frozen
-	return c
+	return c.derivedFrom(v)
 }
 
 func (v *structVal) Merge(associations dgo.Map) dgo.Map {
@@ -280,8 +279,7 @@ func (v *structVal) Merge(associations dgo.Map) dgo.Map {
 	}
 	c := v.toHashMap()
 	c.PutAll(associations)
-	c.frozen = v.frozen && associations.Frozen()
-	return c
+	return c.derivedFrom(v)
 }
 
 func (v *structVal) Put(key, value interface{}) dgo.Value {
@@ -346,8 +344,7 @@ func (v *structVal) Values() dgo.Array {
 func (v *structVal) With(key, value interface{}) dgo.Map {
 	c := v.toHashMap()
 	c.Put(key, value)
-	c.frozen = v.frozen
-	return c
+	return c.derivedFrom(v)
 }
 
 func (v *structVal) Without(key interface{}) dgo.Map {
@@ -356,15 +353,13 @@ func (v *structVal) Without(key interface{}) dgo.Map {
 	}
 	c := v.toHashMap()
 	c.Remove(key)
-	c.frozen = v.frozen
-	return c
+	return c.derivedFrom(v)
 }
 
 func (v *structVal) WithoutAll(keys dgo.Array) dgo.Map {
 	c := v.toHashMap()
 	c.RemoveAll(keys)
-	c.frozen = v.frozen
-	return c
+	return c.derivedFrom(v)
 }
 
 func (v *structVal) toHashMap() *hashMap {
-- 
2.43.0


From e5a46b21b7bc3e8a3305e6a84d12ba7b76e10605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 063/116] fix: the string form of an operator with an exact
 named type as operand was parsed as part of the init argument

---
 stringer/typestring.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index f593473..99d6eeb 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -254,6 +254,15 @@ func (sb *typeBuilder) named(typ dgo.Type, _ int) {
 	}
 }
 
+func (sb *typeBuilder) namedExact(typ dgo.Type, prio int) {
+	// the init argument that follows the name would include an operator that follows it
+	if prio > commaPrio {
+		util.WriteByte(sb, '(')
+		defer util.WriteByte(sb, ')')
+	}
+	sb.exactValue(typ, prio)
+}
+
 func newTypeBuilder(w io.Writer, am dgo.AliasMap) *typeBuilder {
 	sb := &typeBuilder{Writer: w, aliasMap: am}
 	sb.complexTypes = map[dgo.TypeIdentifier]typeToString{
@@ -288,7 +297,7 @@ func newTypeBuilder(w io.Writer, am dgo.AliasMap) *typeBuilder {
 		dgo.TiFunction:      sb.function,
 		dgo.TiErrorExact:    sb.errorExact,
 		dgo.TiNamed:         sb.named,
-		dgo.TiNamedExact:    sb.exactValue,
+		dgo.TiNamedExact:    sb.namedExact,
 	}
 	return sb
 }
-- 
2.43.0


From b8265f956a8de470748574b257a13acd4e25f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 064/116] fix: New of the exact type of a value of a
 parameterized type panicked

---
 internal/named.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index 3d4e84d..facd048 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -254,7 +254,11 @@ func (t *exactNamed) ExactValue() dgo.Value {
 }
 
 func newNamed(rt dgo.NamedType, arg dgo.Value) dgo.Value {
-	t := Generic(rt).(*named)
+	gt := Generic(rt)
+	if pt, ok := gt.(*parameterized); ok {
+		gt = pt.NamedType
+	}
+	t := gt.(*named)
 	if t.ctor == nil {
 		panic(fmt.Errorf(`creating new instances of %s is not possible`, rt.Name()))
 	}
-- 
2.43.0


From f5c78d1d69dca05d5cfd240ce4276cbe2924ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 065/116] fix: New of an exact named type gave values that are
 not instances of it

---
 internal/named.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index facd048..d2bab94 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -263,7 +263,11 @@ func newNamed(rt dgo.NamedType, arg dgo.Value) dgo.Value {
 		panic(fmt.Errorf(`creating new instances of %s is not possible`, rt.Name()))
 	}
 	v := t.ctor(arg)
-	if t.asgChecker == nil || t.asgChecker(rt, v.Type()) {
+	if et, ok := rt.(dgo.ExactType); ok {
+		if et.Instance(v) {
+			return v
+		}
+	} else if t.asgChecker == nil || t.asgChecker(rt, v.Type()) {
 		return v
 	}
 	panic(IllegalAssignment(rt, v))
-- 
2.43.0


From 38cff6929e8194f264737df1377d4d6bfa5f7c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 066/116] fix: named types without implementation type crashed
 when checked for assignability

---
 internal/named.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index d2bab94..6dad7e0 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -35,7 +35,13 @@ var namedTypes = sync.Map{}
 
 func defaultAsgChecker(t dgo.NamedType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.NamedType); ok {
-		return ot.ReflectType().AssignableTo(t.AssignableType())
+		at := t.AssignableType()
+		rt := ot.ReflectType()
+		if at == nil || rt == nil {
+			// no implementation type to compare with
+			return t.Name() == ot.Name()
+		}
+		return rt.AssignableTo(at)
 	}
 	return false
 }
-- 
2.43.0


From 1d71d7bd7085380e5c5b2cfaf2128477e2fcdeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 067/116] fix: the parameters of a parameterized type could be
 changed

---
 internal/named.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index 6dad7e0..932f208 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -99,7 +99,7 @@ func NamedType(name string) dgo.NamedType {
 
 // ParameterizedType returns the named type amended with the given parameters.
 func ParameterizedType(named dgo.NamedType, params dgo.Array) dgo.NamedType {
-	return &parameterized{named, params}
+	return &parameterized{named, params.FrozenCopy().(dgo.Array)}
 }
 
 // NamedTypeFromReflected returns the named type for the reflected implementation type from the global type
-- 
2.43.0


From 2e0b16128bfb84a8bfa973f8e577c0c5d3433d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 068/116] fix: named values with an init map that contains the
 value key were decoded from what that key is associated with

---
 streamer/streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 7436fcd..6dd8a61 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -127,7 +127,7 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 		sc.addMap(2, func() {
 			sc.addData(d.TypeKey())
 			sc.addData(vf.String(t.Name()))
-			if vm, ok := v.(dgo.Map); ok && vm.Len() > 0 && vm.StringKeys() {
+			if vm, ok := v.(dgo.Map); ok && vm.Len() > 0 && vm.StringKeys() && !vm.ContainsKey(d.ValueKey()) {
 				vm.EachEntry(func(e dgo.MapEntry) {
 					sc.addData(e.Key())
 					sc.emitData(e.Value())
-- 
2.43.0


From 347d855d24dc22589d6e3e3bd2b3aea4ce0e9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 069/116] fix: parsing a type modified the aliased types that
 it refers to, although they are shared

---
 internal/alias.go     | 11 ++++++++++-
 internal/array.go     | 35 +++++++++++++++++++++++------------
 internal/function.go  | 14 ++++++--------
 internal/map.go       | 14 +++++---------
 internal/mapstruct.go | 12 ++----------
 internal/meta.go      |  4 +---
 internal/not.go       |  4 +---
 internal/sensitive.go |  4 +---
 internal/ternary.go   | 15 +++------------
 9 files changed, 52 insertions(+), 61 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 8d21fd4..26f835d 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -20,6 +20,7 @@ type (
 	aliasAdder struct {
 		namedTypes hashMap
 		backingMap dgo.AliasMap
+		resolving  map[dgo.AliasContainer]bool
 	}
 
 	dType        = dgo.Type // To avoid collision with method named Type
@@ -216,7 +217,15 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 		}
 		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
 	case dgo.AliasContainer:
-		t.Resolve(a)
+		// The container may contain itself
+		if a.resolving == nil {
+			a.resolving = make(map[dgo.AliasContainer]bool)
+			defer func() { a.resolving = nil }()
+		}
+		if !a.resolving[t] {
+			a.resolving[t] = true
+			t.Resolve(a)
+		}
 	}
 	return t
 }
diff --git a/internal/array.go b/internal/array.go
index 236ff34..56ecb91 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -255,9 +255,7 @@ func (t *sizedArrayType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
-	te := t.elementType
-	t.elementType = DefaultAnyType
-	t.elementType = ap.Replace(te).(dgo.Type)
+	resolveType(&t.elementType, ap)
 }
 
 func (t *sizedArrayType) ReflectType() reflect.Type {
@@ -643,10 +641,7 @@ func (t *tupleType) ReflectType() reflect.Type {
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
-	s := t.types
-	t.types = nil
-	resolveSlice(s, ap)
-	t.types = s
+	resolveSlice(t.types, ap)
 }
 
 func (t *tupleType) String() string {
@@ -1242,10 +1237,7 @@ func (v *array) RemoveValue(value interface{}) bool {
 }
 
 func (v *array) Resolve(ap dgo.AliasAdder) {
-	a := v.slice
-	for i := range a {
-		a[i] = ap.Replace(a[i])
-	}
+	resolveSlice(v.slice, ap)
 }
 
 func (v *array) Reject(predicate dgo.Predicate) dgo.Array {
@@ -1467,8 +1459,27 @@ func frozenArray(f string) error {
 	return fmt.Errorf(`%s called on a frozen Array`, f)
 }
 
+// resolveValue resolves all aliases in the given value. The returned bool is true if the value itself is an alias that
+// is replaced. All other values are resolved in-place, and values without aliases, such as already resolved types that
+// are shared, are not touched.
+func resolveValue(v dgo.Value, ap dgo.AliasAdder) (dgo.Value, bool) {
+	switch v.(type) {
+	case dgo.Alias, *deferredCall:
+		return ap.Replace(v), true
+	}
+	return ap.Replace(v), false
+}
+
+func resolveType(t *dgo.Type, ap dgo.AliasAdder) {
+	if r, replaced := resolveValue(*t, ap); replaced {
+		*t = r.(dgo.Type)
+	}
+}
+
 func resolveSlice(ts []dgo.Value, ap dgo.AliasAdder) {
 	for i := range ts {
-		ts[i] = ap.Replace(ts[i])
+		if r, replaced := resolveValue(ts[i], ap); replaced {
+			ts[i] = r
+		}
 	}
 }
diff --git a/internal/function.go b/internal/function.go
index 8258884..e50bf0f 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -260,14 +260,12 @@ func (t *functionType) Out() dgo.TupleType {
 }
 
 func (t *functionType) Resolve(ap dgo.AliasAdder) {
-	in := t.arguments
-	out := t.returns
-	t.arguments = EmptyTupleType
-	t.returns = EmptyTupleType
-	in = ap.Replace(in).(dgo.TupleType)
-	out = ap.Replace(out).(dgo.TupleType)
-	t.arguments = in
-	t.returns = out
+	if in, replaced := resolveValue(t.arguments, ap); replaced {
+		t.arguments = in.(dgo.TupleType)
+	}
+	if out, replaced := resolveValue(t.returns, ap); replaced {
+		t.returns = out.(dgo.TupleType)
+	}
 }
 
 func (t *functionType) ReflectType() reflect.Type {
diff --git a/internal/map.go b/internal/map.go
index 329cf1d..42ef05f 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -806,7 +806,9 @@ func (g *hashMap) RemoveAll(keys dgo.Array) {
 
 func (g *hashMap) Resolve(ap dgo.AliasAdder) {
 	for e := g.first; e != nil; e = e.next {
-		e.value = ap.Replace(e.value)
+		if r, replaced := resolveValue(e.value, ap); replaced {
+			e.value = r
+		}
 	}
 }
 
@@ -1138,14 +1140,8 @@ func (t *sizedMapType) ReflectType() reflect.Type {
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
-	kt := t.keyType
-	vt := t.valueType
-	t.keyType = DefaultAnyType
-	t.valueType = DefaultAnyType
-	kt = ap.Replace(kt).(dgo.Type)
-	vt = ap.Replace(vt).(dgo.Type)
-	t.keyType = kt
-	t.valueType = vt
+	resolveType(&t.keyType, ap)
+	resolveType(&t.valueType, ap)
 }
 
 func (t *sizedMapType) String() string {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 9a063bc..4e6cb0e 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -329,16 +329,8 @@ func (t *structType) ReflectType() reflect.Type {
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-	ks := t.keys.slice
-	vs := t.values.slice
-	t.keys.slice = []dgo.Value{}
-	t.values.slice = []dgo.Value{}
-	for i := range ks {
-		ks[i] = ap.Replace(ks[i].(dgo.Type))
-		vs[i] = ap.Replace(vs[i].(dgo.Type))
-	}
-	t.keys.slice = ks
-	t.values.slice = vs
+	resolveSlice(t.keys.slice, ap)
+	resolveSlice(t.values.slice, ap)
 	t.checkExactKeys()
 }
 
diff --git a/internal/meta.go b/internal/meta.go
index 8058a00..06f6b9a 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -122,9 +122,7 @@ func (t *metaType) Resolve(ap dgo.AliasAdder) {
 	if t.tp == nil {
 		return // type of meta type has no operand
 	}
-	tp := t.tp
-	t.tp = DefaultAnyType
-	t.tp = ap.Replace(tp).(dgo.Type)
+	resolveType(&t.tp, ap)
 }
 
 func (t *metaType) String() string {
diff --git a/internal/not.go b/internal/not.go
index cd0eee2..f94c7f6 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -96,9 +96,7 @@ func (t *notType) ReflectType() reflect.Type {
 }
 
 func (t *notType) Resolve(ap dgo.AliasAdder) {
-	tn := t.negated
-	t.negated = DefaultAnyType
-	t.negated = ap.Replace(tn).(dgo.Type)
+	resolveType(&t.negated, ap)
 }
 
 func (t *notType) String() string {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index 1f41582..c55492b 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -102,9 +102,7 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
-	tw := t.wrapped
-	t.wrapped = DefaultAnyType
-	t.wrapped = ap.Replace(tw).(dgo.Type)
+	resolveType(&t.wrapped, ap)
 }
 
 func (t *sensitiveType) String() string {
diff --git a/internal/ternary.go b/internal/ternary.go
index a293032..abf6e3b 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -126,10 +126,7 @@ func (t *allOfType) ReflectType() reflect.Type {
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *allOfType) String() string {
@@ -339,10 +336,7 @@ func (t *anyOfType) ReflectType() reflect.Type {
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *anyOfType) String() string {
@@ -465,10 +459,7 @@ func (t *oneOfType) ReflectType() reflect.Type {
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *oneOfType) String() string {
-- 
2.43.0


From 3582f900506c4a3dbc0c7c5f39b709a1424b6808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 070/116] fix: an alias of an alias was left unresolved

---
 internal/alias.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 26f835d..c68d764 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -5,6 +5,7 @@ import (
 	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 type (
@@ -212,10 +213,7 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	case *deferredCall:
 		return New(t.dType, t.args)
 	case dgo.Alias:
-		if ra := a.GetType(t.Reference()); ra != nil {
-			return ra
-		}
-		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
+		return a.dereference(t)
 	case dgo.AliasContainer:
 		// The container may contain itself
 		if a.resolving == nil {
@@ -229,3 +227,24 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	}
 	return t
 }
+
+// dereference returns the type that the given alias refers to. That reference can be an alias too.
+func (a *aliasAdder) dereference(t dgo.Alias) dgo.Value {
+	var seen []dgo.Value
+	ref := t.Reference()
+	for {
+		ra := a.GetType(ref)
+		if ra == nil || util.RecursionHit(seen, ra) {
+			panic(fmt.Errorf(`reference to unresolved type '%s'`, ref))
+		}
+		switch ra := ra.(type) {
+		case *deferredCall:
+			return a.Replace(ra)
+		case dgo.Alias:
+			seen = append(seen, ra)
+			ref = ra.Reference()
+		default:
+			return ra
+		}
+	}
+}
-- 
2.43.0


From 324a773101e3d832855944f003a21c05f8ffd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 071/116] fix: the default aliases were read without
 synchronization

---
 internal/alias.go | 30 ++++++++++++++++++++----------
 tf/type.go        |  3 ++-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index c68d764..55bf5c1 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -36,7 +36,7 @@ func BuiltInAliases() dgo.AliasMap {
 	return builtinAliases
 }
 
-var defaultLock = sync.Mutex{}
+var defaultLock = sync.RWMutex{}
 
 // AddDefaultAliases adds the new aliases to the default alias map by passing an AliasAdder to the function
 // The function is safe from a concurrency perspective.
@@ -48,19 +48,26 @@ func AddDefaultAliases(adder func(adder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is also locked while the appointed AliasMap is read. No swap will take place if the adder function
+// doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
+	lock.Lock()
 	am := &aliasAdder{backingMap: *mapToReplace}
+	lock.Unlock()
 	adder(am)
 	if am.namedTypes.Len() > 0 {
+		// Resolving the entries may call constructors, so it's not done with the lock held
+		rs := am.resolve()
 		lock.Lock()
 		defer lock.Unlock()
-		*mapToReplace = (*mapToReplace).(*aliasMap).update(am)
+		*mapToReplace = (*mapToReplace).(*aliasMap).update(rs)
 	}
 }
 
 // DefaultAliases returns the frozen default dgo.AliasMap
 func DefaultAliases() dgo.AliasMap {
+	defaultLock.RLock()
+	defer defaultLock.RUnlock()
 	return defaultAliases
 }
 
@@ -69,6 +76,8 @@ func DefaultAliases() dgo.AliasMap {
 //
 // This method is intended for testing purposes only
 func ResetDefaultAliases() {
+	defaultLock.Lock()
+	defer defaultLock.Unlock()
 	defaultAliases = builtinAliases
 }
 
@@ -153,22 +162,18 @@ func (a *aliasMap) Collect(adder func(dgo.AliasAdder)) dgo.AliasMap {
 	am := &aliasAdder{backingMap: a}
 	adder(am)
 	if am.namedTypes.Len() > 0 {
-		return a.update(am)
+		return a.update(am.resolve())
 	}
 	return a
 }
 
-func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
+func (a *aliasMap) update(rs dgo.Map) dgo.AliasMap {
 	// Create a new alias map with enough room to fit the new entries
 	c := &aliasMap{}
-	ns := am.namedTypes
-	na := ns.Len()
+	na := rs.Len()
 	a.namedTypes.resize(&c.namedTypes, na)
 	a.typeNames.resize(&c.typeNames, na)
 
-	// Resolve the added entries
-	rs := ns.Map(func(e dgo.MapEntry) interface{} { return am.Replace(e.Value()) })
-
 	// Add entries to the new alias map
 	rs.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
@@ -201,6 +206,11 @@ func (a *aliasAdder) Add(t dgo.Type, name dgo.String) {
 	a.namedTypes.Put(name, t)
 }
 
+// resolve returns the added entries with all their aliases resolved
+func (a *aliasAdder) resolve() dgo.Map {
+	return a.namedTypes.Map(func(e dgo.MapEntry) interface{} { return a.Replace(e.Value()) })
+}
+
 func (a *aliasAdder) GetType(n dgo.String) dgo.Type {
 	if t := a.namedTypes.Get(n); t != nil {
 		return t.(dgo.Type)
diff --git a/tf/type.go b/tf/type.go
index f6abf9b..0b70a21 100644
--- a/tf/type.go
+++ b/tf/type.go
@@ -45,7 +45,8 @@ func AddDefaultAliases(adderFunc func(aliasAdder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is also locked while the appointed AliasMap is read. No swap will take place if the adder function
+// doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
 	internal.AddAliases(mapToReplace, lock, adder)
 }
-- 
2.43.0


From 0f5d51ee6bcdb530b0bca7e871bc628e8d86d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 072/116] fix: an alias map gave the name of a type that the
 name no longer denotes

---
 internal/alias.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/alias.go b/internal/alias.go
index 55bf5c1..b28ca27 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -178,7 +178,10 @@ func (a *aliasMap) update(rs dgo.Map) dgo.AliasMap {
 	rs.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
 		t := e.Value().(dgo.Type)
-		c.namedTypes.Put(name, t)
+		if old := c.namedTypes.Put(name, t); old != nil && name.Equals(c.typeNames.Get(old)) {
+			// the name no longer denotes that type
+			c.typeNames.Remove(old)
+		}
 		c.typeNames.Put(t, name)
 	})
 	c.namedTypes.Freeze()
-- 
2.43.0


From 5cf8a62034fddb9bc2c1dab2abf124be522f2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 073/116] fix: the hash code of a string was cached without
 synchronization

---
 internal/string.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/string.go b/internal/string.go
index 8f09e18..74bce3c 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync/atomic"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -44,7 +45,7 @@ type (
 	// hstring is a string that caches the hash value when it is computed
 	hstring struct {
 		s string
-		h int
+		h uintptr
 	}
 )
 
@@ -592,10 +593,13 @@ func (v *hstring) GoString() string {
 }
 
 func (v *hstring) HashCode() int {
-	if v.h == 0 {
-		v.h = util.StringHash(v.s)
+	// The hash code is computed on demand, perhaps by several go routines at once
+	h := int(atomic.LoadUintptr(&v.h))
+	if h == 0 {
+		h = util.StringHash(v.s)
+		atomic.StoreUintptr(&v.h, uintptr(h))
 	}
-	return v.h
+	return h
 }
 
 func (v *hstring) ReflectTo(value reflect.Value) {
-- 
2.43.0


From 71019656e03cb33658d4c7edebef367e318ab880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 074/116] fix: the type that validates struct type maps was
 created without synchronization

---
 internal/mapstruct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 4e6cb0e..7d64b13 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
 )
@@ -75,13 +76,14 @@ func StructMapType(additional bool, entries []dgo.StructMapEntry) dgo.StructMapT
 }
 
 var sfmType dgo.MapType
+var sfmTypeOnce sync.Once
 
 // StructFromMapType returns the map type used when validating the map sent to
 // StructMapTypeFromMap
 func StructFromMapType() dgo.MapType {
-	if sfmType == nil {
+	sfmTypeOnce.Do(func() {
 		sfmType = Parse(`map[string](dgo|type|{type:dgo|type,required?:bool,...})`).(dgo.MapType)
-	}
+	})
 	return sfmType
 }
 
-- 
2.43.0


From 9a7618183136840bfb388071d02d49f3b4eaee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 075/116] fix: recursive types had instances, and were
 assignable from types, that are not what they describe two levels down

---
 dgo/primitive.go    |  5 ++--
 internal/compare.go | 58 +++++++++++++++++++++++++++++----------------
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/dgo/primitive.go b/dgo/primitive.go
index 69d9454..f1685e8 100644
--- a/dgo/primitive.go
+++ b/dgo/primitive.go
@@ -142,13 +142,12 @@ type (
 	}
 
 	// RecursionGuard guards against endless recursion when checking if one deep type is assignable to another.
-	// A Hit is detected once both a and b has been added more than once (can be on separate calls to Append). The
-	// RecursionGuard is in itself immutable.
+	// A Hit is detected once a and b, as a pair, have been added more than once. The RecursionGuard is in itself immutable.
 	RecursionGuard interface {
 		// Append creates a new RecursionGuard guaranteed to contain both a and b. The new instance is returned.
 		Append(a, b Value) RecursionGuard
 
-		// Hit returns true if both a and b has been appended more than once.
+		// Hit returns true if the a and b that were last appended had been appended together before.
 		Hit() bool
 
 		// Swap returns the guard with its two internal guards for a and b swapped.
diff --git a/internal/compare.go b/internal/compare.go
index b3f3f61..e1dc210 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -12,35 +12,32 @@ type deepEqual interface {
 	deepHashCode(seen []dgo.Value) int
 }
 
-// doubleSeen keeps track of what has been seen on the path that leads to the current pair. Nothing that is seen
-// on one path must ever be considered seen on another.
+// doubleSeen keeps track of the pairs that have been seen on the path that leads to the current pair. Nothing that is
+// seen on one path must ever be considered seen on another.
 type doubleSeen struct {
-	aSeen   []dgo.Value
-	bSeen   []dgo.Value
-	seenInA bool
-	seenInB bool
+	seen []dgo.Value
+	hit  bool
 }
 
 func (s *doubleSeen) Hit() bool {
-	return s.seenInA && s.seenInB
+	return s.hit
 }
 
 func (s *doubleSeen) Append(a, b dgo.Value) dgo.RecursionGuard {
-	// slice capacity is limited to ensure that the append doesn't write to an array that is shared with other paths
-	c := &doubleSeen{aSeen: s.aSeen[:len(s.aSeen):len(s.aSeen)], bSeen: s.bSeen[:len(s.bSeen):len(s.bSeen)]}
-	c.seenInA = util.RecursionHit(c.aSeen, a)
-	c.seenInB = util.RecursionHit(c.bSeen, b)
-	if !c.seenInA {
-		c.aSeen = append(c.aSeen, a)
-	}
-	if !c.seenInB {
-		c.bSeen = append(c.bSeen, b)
+	if pairRecursionHit(s.seen, a, b) {
+		return &doubleSeen{seen: s.seen, hit: true}
 	}
-	return c
+	// slice capacity is limited to ensure that the append doesn't write to an array that is shared with other paths
+	n := len(s.seen)
+	return &doubleSeen{seen: append(s.seen[:n:n], a, b)}
 }
 
 func (s *doubleSeen) Swap() dgo.RecursionGuard {
-	return &doubleSeen{seenInA: s.seenInB, seenInB: s.seenInA, aSeen: s.bSeen, bSeen: s.aSeen}
+	seen := make([]dgo.Value, len(s.seen))
+	for i := 1; i < len(seen); i += 2 {
+		seen[i-1], seen[i] = s.seen[i], s.seen[i-1]
+	}
+	return &doubleSeen{seen: seen, hit: s.hit}
 }
 
 type deepCompare interface {
@@ -61,7 +58,7 @@ func Assignable(guard dgo.RecursionGuard, a dgo.Type, b dgo.Type) bool {
 	_, ok = b.(dgo.DeepAssignable)
 	if ok {
 		if guard == nil {
-			guard = &doubleSeen{aSeen: []dgo.Value{a}, bSeen: []dgo.Value{b}}
+			guard = &doubleSeen{seen: []dgo.Value{a, b}}
 		} else {
 			guard = guard.Append(a, b)
 			if guard.Hit() {
@@ -83,8 +80,11 @@ func Instance(guard dgo.RecursionGuard, a dgo.Type, b interface{}) bool {
 	if ok {
 		bv := b.(dgo.Value)
 		if guard == nil {
-			guard = &doubleSeen{aSeen: []dgo.Value{a}, bSeen: []dgo.Value{bv}}
+			guard = &doubleSeen{seen: []dgo.Value{a, bv}}
 		} else {
+			if typeValueHit(guard, a, bv) {
+				return true
+			}
 			guard = guard.Append(a, bv)
 			if guard.Hit() {
 				return true
@@ -94,6 +94,24 @@ func Instance(guard dgo.RecursionGuard, a dgo.Type, b interface{}) bool {
 	return da.DeepInstance(guard, b)
 }
 
+// typeValueHit returns true if b is a type, used as a value, and a and b have both been seen. They need not have been
+// seen together.
+func typeValueHit(guard dgo.RecursionGuard, a dgo.Type, b dgo.Value) bool {
+	ds, ok := guard.(*doubleSeen)
+	if !ok {
+		return false
+	}
+	if _, ok = b.(dgo.Type); !ok {
+		return false
+	}
+	seenInA, seenInB := false, false
+	for i := 1; i < len(ds.seen); i += 2 {
+		seenInA = seenInA || a == ds.seen[i-1]
+		seenInB = seenInB || b == ds.seen[i]
+	}
+	return seenInA && seenInB
+}
+
 func deepHashCode(seen []dgo.Value, e dgo.Value) int {
 	if de, ok := e.(deepEqual); ok {
 		if util.RecursionHit(seen, e) {
-- 
2.43.0


From 040cc1a9791333528624223a827bdcf0c4747eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 076/116] fix: the reflected type of a recursive type
 overflowed the stack

---
 internal/array.go     | 18 +++++++++++++++---
 internal/map.go       | 12 ++++++++++--
 internal/mapstruct.go |  6 +++++-
 internal/ternary.go   | 28 ++++++++++++++++++++++------
 internal/type.go      | 27 +++++++++++++++++++++++++++
 5 files changed, 79 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 56ecb91..19d4fd5 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -259,7 +259,11 @@ func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
 }
 
 func (t *sizedArrayType) ReflectType() reflect.Type {
-	return reflect.SliceOf(t.elementType.ReflectType())
+	return reflectType(nil, t)
+}
+
+func (t *sizedArrayType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.SliceOf(reflectType(seen, t.elementType))
 }
 
 func (t *sizedArrayType) String() string {
@@ -323,7 +327,11 @@ func (t *exactArrayType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *exactArrayType) ReflectType() reflect.Type {
-	return reflect.SliceOf(t.ElementType().ReflectType())
+	return reflectType(nil, t)
+}
+
+func (t *exactArrayType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.SliceOf(reflectType(seen, t.ElementType()))
 }
 
 func (t *exactArrayType) Resolve(ap dgo.AliasAdder) {
@@ -637,7 +645,11 @@ func tupleMin(t dgo.TupleType) int {
 }
 
 func (t *tupleType) ReflectType() reflect.Type {
-	return reflect.SliceOf(t.ElementType().ReflectType())
+	return reflectType(nil, t)
+}
+
+func (t *tupleType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.SliceOf(reflectType(seen, t.ElementType()))
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/map.go b/internal/map.go
index 42ef05f..884705a 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1136,7 +1136,11 @@ func (t *sizedMapType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sizedMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectType(nil, t)
+}
+
+func (t *sizedMapType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.MapOf(reflectType(seen, t.KeyType()), reflectType(seen, t.ValueType()))
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
@@ -1287,7 +1291,11 @@ func (t *exactMapType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *exactMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectType(nil, t)
+}
+
+func (t *exactMapType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.MapOf(reflectType(seen, t.KeyType()), reflectType(seen, t.ValueType()))
 }
 
 func (t *exactMapType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 7d64b13..7d7fef5 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -327,7 +327,11 @@ func (t *structType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *structType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectType(nil, t)
+}
+
+func (t *structType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return reflect.MapOf(reflectType(seen, t.KeyType()), reflectType(seen, t.ValueType()))
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/ternary.go b/internal/ternary.go
index abf6e3b..962c206 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -122,7 +122,11 @@ func (t *allOfType) Operator() dgo.TypeOp {
 }
 
 func (t *allOfType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, typeAsType)
+	return reflectType(nil, t)
+}
+
+func (t *allOfType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return commonReflectTo(seen, t.slice, typeAsType)
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
@@ -224,7 +228,11 @@ func (t *allOfValueType) Operator() dgo.TypeOp {
 }
 
 func (t *allOfValueType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, valueAsType)
+	return reflectType(nil, t)
+}
+
+func (t *allOfValueType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return commonReflectTo(seen, t.slice, valueAsType)
 }
 
 func (t *allOfValueType) String() string {
@@ -332,7 +340,11 @@ func (t *anyOfType) Operator() dgo.TypeOp {
 }
 
 func (t *anyOfType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, typeAsType)
+	return reflectType(nil, t)
+}
+
+func (t *anyOfType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return commonReflectTo(seen, t.slice, typeAsType)
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
@@ -455,7 +467,11 @@ func (t *oneOfType) Operator() dgo.TypeOp {
 }
 
 func (t *oneOfType) ReflectType() reflect.Type {
-	return commonReflectTo(t.slice, typeAsType)
+	return reflectType(nil, t)
+}
+
+func (t *oneOfType) deepReflectType(seen []dgo.Value) reflect.Type {
+	return commonReflectTo(seen, t.slice, typeAsType)
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
@@ -495,10 +511,10 @@ func commonGeneric(s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
 	return prev
 }
 
-func commonReflectTo(s []dgo.Value, fc func(dgo.Value) dgo.Type) reflect.Type {
+func commonReflectTo(seen, s []dgo.Value, fc func(dgo.Value) dgo.Type) reflect.Type {
 	var prev reflect.Type
 	for i := range s {
-		rt := fc(s[i]).ReflectType()
+		rt := reflectType(seen, fc(s[i]))
 		if prev != nil {
 			if rt.AssignableTo(prev) {
 				// prev is equal or more generic
diff --git a/internal/type.go b/internal/type.go
index 495435c..87157e1 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 // CheckAssignableTo checks if the given type t implements the ReverseAssignable interface and if
@@ -20,6 +21,32 @@ func CheckAssignableTo(guard dgo.RecursionGuard, t, other dgo.Type) bool {
 	return false
 }
 
+// deepReflectType is implemented by types whose reflected type depends on the reflected types of other types.
+type deepReflectType interface {
+	deepReflectType(seen []dgo.Value) reflect.Type
+}
+
+// reflectType returns the reflected type of the given type. There's no way to create a recursive reflect.Type so a type
+// that refers back to itself is reflected as an interface{} at the point of recursion.
+func reflectType(seen []dgo.Value, t dgo.Type) reflect.Type {
+	dt, ok := t.(deepReflectType)
+	if !ok {
+		return t.ReflectType()
+	}
+	var tv dgo.Value = t
+	switch et := t.(type) {
+	// These types are created on demand but their values are not.
+	case *exactArrayType:
+		tv = et.value
+	case *exactMapType:
+		tv = et.value
+	}
+	if util.RecursionHit(seen, tv) {
+		return reflectAnyType
+	}
+	return dt.deepReflectType(append(seen, tv))
+}
+
 // TypeFromReflected returns the dgo.Type that represents the given reflected type
 func TypeFromReflected(vt reflect.Type) dgo.Type {
 	if pt, ok := wellKnownTypes[vt]; ok {
-- 
2.43.0


From 41d1612855650df92e1f0ac8922f6658c84d9040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 077/116] fix: the generic type of a recursive type overflowed
 the stack

---
 internal/array.go     | 12 ++++++++++--
 internal/map.go       |  8 ++++++--
 internal/mapstruct.go |  6 +++++-
 internal/ternary.go   | 16 ++++++++++++----
 internal/type.go      | 39 +++++++++++++++++++++++++++++++--------
 5 files changed, 64 insertions(+), 17 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 19d4fd5..76c92ad 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -307,7 +307,11 @@ func (t *exactArrayType) ElementTypes() dgo.Array {
 }
 
 func (t *exactArrayType) Generic() dgo.Type {
-	return &sizedArrayType{elementType: Generic(t.ElementType()), min: 0, max: math.MaxInt64}
+	return generic(nil, t)
+}
+
+func (t *exactArrayType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return &sizedArrayType{elementType: generic(seen, t.ElementType()), min: 0, max: math.MaxInt64}
 }
 
 func (t *exactArrayType) Len() int {
@@ -542,7 +546,11 @@ func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
 }
 
 func (t *tupleType) Generic() dgo.Type {
-	return newArrayType(Generic(t.ElementType()), 0, math.MaxInt64)
+	return generic(nil, t)
+}
+
+func (t *tupleType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return newArrayType(generic(seen, t.ElementType()), 0, math.MaxInt64)
 }
 
 func (t *tupleType) HashCode() int {
diff --git a/internal/map.go b/internal/map.go
index 884705a..ae1aafe 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1243,8 +1243,12 @@ func (t *exactMapType) Each(actor func(dgo.StructMapEntry)) {
 }
 
 func (t *exactMapType) Generic() dgo.Type {
-	kt := Generic(t.KeyType())
-	vt := Generic(t.ValueType())
+	return generic(nil, t)
+}
+
+func (t *exactMapType) deepGeneric(seen []dgo.Value) dgo.Type {
+	kt := generic(seen, t.KeyType())
+	vt := generic(seen, t.ValueType())
 	if kt == DefaultAnyType && vt == DefaultAnyType {
 		return DefaultMapType
 	}
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 7d7fef5..d052673 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -231,7 +231,11 @@ func (t *structType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *structType) Generic() dgo.Type {
-	return newMapType(Generic(t.KeyType()), Generic(t.ValueType()), 0, math.MaxInt64)
+	return generic(nil, t)
+}
+
+func (t *structType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return newMapType(generic(seen, t.KeyType()), generic(seen, t.ValueType()), 0, math.MaxInt64)
 }
 
 func (t *structType) HashCode() int {
diff --git a/internal/ternary.go b/internal/ternary.go
index 962c206..a84b944 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -88,7 +88,11 @@ func (t *allOfType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *allOfType) Generic() dgo.Type {
-	return commonGeneric(t.slice, typeAsType)
+	return generic(nil, t)
+}
+
+func (t *allOfType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return commonGeneric(seen, t.slice, typeAsType)
 }
 
 func (t *allOfType) HashCode() int {
@@ -179,7 +183,11 @@ func (t *allOfValueType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type)
 }
 
 func (t *allOfValueType) Generic() dgo.Type {
-	return commonGeneric(t.slice, valueAsType)
+	return generic(nil, t)
+}
+
+func (t *allOfValueType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return commonGeneric(seen, t.slice, valueAsType)
 }
 
 func (t *allOfValueType) Equals(other interface{}) bool {
@@ -492,10 +500,10 @@ func (t *oneOfType) TypeIdentifier() dgo.TypeIdentifier {
 
 // commonGeneric returns the least generic type that is assignable from all types given
 // in the slice.
-func commonGeneric(s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
+func commonGeneric(seen, s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
 	var prev dgo.Type
 	for i := range s {
-		rt := Generic(fc(s[i]))
+		rt := generic(seen, fc(s[i]))
 		if prev != nil {
 			if prev.Assignable(rt) {
 				// prev is equal or more generic
diff --git a/internal/type.go b/internal/type.go
index 87157e1..402c3b9 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -33,20 +33,25 @@ func reflectType(seen []dgo.Value, t dgo.Type) reflect.Type {
 	if !ok {
 		return t.ReflectType()
 	}
-	var tv dgo.Value = t
-	switch et := t.(type) {
-	// These types are created on demand but their values are not.
-	case *exactArrayType:
-		tv = et.value
-	case *exactMapType:
-		tv = et.value
-	}
+	tv := recursionKey(t)
 	if util.RecursionHit(seen, tv) {
 		return reflectAnyType
 	}
 	return dt.deepReflectType(append(seen, tv))
 }
 
+// recursionKey returns what identifies the given type when guarding for endless recursion.
+func recursionKey(t dgo.Type) dgo.Value {
+	switch t := t.(type) {
+	// These types are created on demand but their values are not.
+	case *exactArrayType:
+		return t.value
+	case *exactMapType:
+		return t.value
+	}
+	return t
+}
+
 // TypeFromReflected returns the dgo.Type that represents the given reflected type
 func TypeFromReflected(vt reflect.Type) dgo.Type {
 	if pt, ok := wellKnownTypes[vt]; ok {
@@ -101,6 +106,24 @@ func ExactValue(value dgo.Value) dgo.Value {
 // and also range and size information. Nested types will return a generic version of the contained
 // types as well.
 func Generic(t dgo.Type) dgo.Type {
+	return generic(nil, t)
+}
+
+// deepGeneric is implemented by types whose generic type is made of the generic types of other types.
+type deepGeneric interface {
+	deepGeneric(seen []dgo.Value) dgo.Type
+}
+
+// generic returns the generic form of the given type. A type that refers back to itself is generalized to Any at the
+// point of recursion.
+func generic(seen []dgo.Value, t dgo.Type) dgo.Type {
+	if dt, ok := t.(deepGeneric); ok {
+		tv := recursionKey(t)
+		if util.RecursionHit(seen, tv) {
+			return DefaultAnyType
+		}
+		return dt.deepGeneric(append(seen, tv))
+	}
 	if et, ok := t.(dgo.GenericType); ok {
 		return et.Generic()
 	}
-- 
2.43.0


From c1acbe9d83da80286d15b2c8fc5b8c23beead7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 078/116] fix: the generic type of several types was any when
 it is one of the later types

---
 internal/ternary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index a84b944..606b8e1 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -509,7 +509,7 @@ func commonGeneric(seen, s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
 				// prev is equal or more generic
 				continue
 			}
-			if !prev.Assignable(rt) {
+			if !rt.Assignable(prev) {
 				// prev is not compatible. Fall back to Any
 				return DefaultAnyType
 			}
-- 
2.43.0


From 3b85c9c0e7beed1836e6b8c0f567e37ff3dd6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 079/116] fix: the generic and reflected types of the default
 logical types were nil

---
 internal/ternary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ternary.go b/internal/ternary.go
index 606b8e1..844056e 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -516,6 +516,9 @@ func commonGeneric(seen, s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
 		}
 		prev = rt // make prev more generic
 	}
+	if prev == nil {
+		return DefaultAnyType
+	}
 	return prev
 }
 
@@ -535,6 +538,9 @@ func commonReflectTo(seen, s []dgo.Value, fc func(dgo.Value) dgo.Type) reflect.T
 		}
 		prev = rt // make prev more generic
 	}
+	if prev == nil {
+		return reflectAnyType
+	}
 	return prev
 }
 
-- 
2.43.0


From 6ef64feb4c49da8d07153256cc5384c919722cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 080/116] fix: loaders were compared, hashed and printed
 without synchronization

---
 loader/loader.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 90f141e..3dcdeec 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -180,11 +180,26 @@ func (l *loader) init(im dgo.Map) {
 }
 
 func (l *loader) initMap() dgo.Map {
-	m := l.mapLoader.initMap()
-	m.Put(`namespaces`, l.namespaces)
+	entries, namespaces := l.snapshot()
+	m := vf.MapWithCapacity(5)
+	m.Put(`name`, l.name)
+	m.Put(`entries`, entries)
+	m.Put(`namespaces`, namespaces)
 	return m
 }
 
+// snapshot returns copies of the maps of entries and namespaces. The maps themselves can only be used when
+// the lock is held since entries and namespaces are added to them when they are loaded.
+func (l *loader) snapshot() (entries, namespaces dgo.Map) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	entries = vf.MapWithCapacity(l.entries.Len())
+	entries.PutAll(l.entries)
+	namespaces = vf.MapWithCapacity(l.namespaces.Len())
+	namespaces.PutAll(l.namespaces)
+	return
+}
+
 func (l *loader) add(key, value dgo.Value) dgo.Value {
 	l.lock.Lock()
 	defer l.lock.Unlock()
@@ -211,13 +226,19 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 
 func (l *loader) Equals(other interface{}) bool {
 	if ov, ok := other.(*loader); ok {
-		return l.entries.Equals(ov.entries) && l.namespaces.Equals(ov.namespaces)
+		if l == ov {
+			return true
+		}
+		entries, namespaces := l.snapshot()
+		otherEntries, otherNamespaces := ov.snapshot()
+		return entries.Equals(otherEntries) && namespaces.Equals(otherNamespaces)
 	}
 	return false
 }
 
 func (l *loader) HashCode() int {
-	return l.entries.HashCode()*31 + l.namespaces.HashCode()
+	entries, namespaces := l.snapshot()
+	return entries.HashCode()*31 + namespaces.HashCode()
 }
 
 func (l *loader) Get(ki interface{}) dgo.Value {
-- 
2.43.0


From 30182252e80690b2f82064afacc83b0696459806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 081/116] fix: the generic type of several types depended on
 their order and wasn't equal to the array type it denotes

---
 internal/array.go   |  2 +-
 internal/ternary.go | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 76c92ad..edf2eff 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -311,7 +311,7 @@ func (t *exactArrayType) Generic() dgo.Type {
 }
 
 func (t *exactArrayType) deepGeneric(seen []dgo.Value) dgo.Type {
-	return &sizedArrayType{elementType: generic(seen, t.ElementType()), min: 0, max: math.MaxInt64}
+	return newArrayType(generic(seen, t.ElementType()), 0, math.MaxInt64)
 }
 
 func (t *exactArrayType) Len() int {
diff --git a/internal/ternary.go b/internal/ternary.go
index 844056e..50f1da9 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -502,23 +502,23 @@ func (t *oneOfType) TypeIdentifier() dgo.TypeIdentifier {
 // in the slice.
 func commonGeneric(seen, s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
 	var prev dgo.Type
+	ts := make([]dgo.Type, len(s))
 	for i := range s {
 		rt := generic(seen, fc(s[i]))
-		if prev != nil {
-			if prev.Assignable(rt) {
-				// prev is equal or more generic
-				continue
-			}
-			if !rt.Assignable(prev) {
-				// prev is not compatible. Fall back to Any
-				return DefaultAnyType
-			}
+		ts[i] = rt
+		if prev == nil || !prev.Assignable(rt) && rt.Assignable(prev) {
+			prev = rt // make prev more generic
 		}
-		prev = rt // make prev more generic
 	}
 	if prev == nil {
 		return DefaultAnyType
 	}
+	for i := range ts {
+		if !prev.Assignable(ts[i]) {
+			// no type is assignable from all others. Fall back to Any
+			return DefaultAnyType
+		}
+	}
 	return prev
 }
 
-- 
2.43.0


From 79be80cb115178609bb39814c0121b7ba9b1d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 082/116] fix: the hash code of the default native type
 panicked

---
 internal/native.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/native.go b/internal/native.go
index e8bfb2a..bc8ef86 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -46,6 +46,9 @@ func (t *nativeType) Equals(other interface{}) bool {
 }
 
 func (t *nativeType) HashCode() int {
+	if t.rt == nil {
+		return int(dgo.TiNative)
+	}
 	return util.StringHash(t.rt.Name())*31 + int(dgo.TiNative)
 }
 
-- 
2.43.0


From dc165ccbe5ad03492cda2bd5ae1b528714b01818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 083/116] fix: the types of the Go types []byte and dgo.Value
 didn't have the values of those types

---
 internal/value.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/value.go b/internal/value.go
index a1342fd..964cd20 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -173,4 +173,6 @@ func ReflectTo(src dgo.Value, dest reflect.Value) {
 var wellKnownTypes = map[reflect.Type]dgo.Type{
 	reflect.TypeOf(&regexp.Regexp{}): DefaultRegexpType,
 	reflect.TypeOf(time.Time{}):      DefaultTimeType,
+	reflect.TypeOf([]byte{}):         DefaultBinaryType,
+	reflectValueType:                 DefaultAnyType,
 }
-- 
2.43.0


From 088e2d528a2d277b4f48c754811898d7ba4a828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 084/116] fix: the string form of the type of a value that
 contains itself did not terminate

---
 stringer/typestring.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 99d6eeb..4a901f5 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -414,14 +414,19 @@ func (sb *typeBuilder) buildTypeString(typ dgo.Type, prio int) {
 
 	ti := typ.TypeIdentifier()
 	if f, ok := sb.complexTypes[ti]; ok {
-		if util.RecursionHit(sb.seen, typ) {
+		var key dgo.Value = typ
+		if ti == dgo.TiArrayExact || ti == dgo.TiMapExact {
+			// These types are created on demand but their values are not.
+			key = typ.(dgo.ExactType).ExactValue()
+		}
+		if util.RecursionHit(sb.seen, key) {
 			util.WriteString(sb, `<recursive self reference to `)
 			util.WriteString(sb, ti.String())
 			util.WriteString(sb, ` type>`)
 			return
 		}
 		os := sb.seen
-		sb.seen = append(sb.seen, typ)
+		sb.seen = append(sb.seen, key)
 		f(typ, prio)
 		sb.seen = os
 	} else {
-- 
2.43.0


From 7f0fe3cc1dfdbdbfccd2667f0a22d5ba74e3766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 085/116] fix: copying a value that contains itself overflowed
 the stack

---
 internal/array.go     | 22 +++++------
 internal/map.go       | 86 ++++++++++++++++++++++++++++---------------
 internal/sensitive.go | 15 +++++---
 3 files changed, 75 insertions(+), 48 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index edf2eff..20e430a 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -955,24 +955,20 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 }
 
 func (v *array) Copy(frozen bool) dgo.Array {
+	return v.deepCopy(nil, frozen).(dgo.Array)
+}
+
+func (v *array) deepCopy(seen []copied, frozen bool) dgo.Value {
 	if frozen && v.frozen {
 		return v
 	}
 	cp := util.SliceCopy(v.slice)
-	if frozen {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.FrozenCopy()
-			}
-		}
-	} else {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.ThawedCopy()
-			}
-		}
+	c := &array{slice: cp, frozen: frozen}
+	seen = append(seen, copied{v, c})
+	for i := range cp {
+		cp[i] = copyValue(seen, cp[i], frozen)
 	}
-	return &array{slice: cp, frozen: frozen}
+	return c
 }
 
 func (v *array) ContainsAll(other dgo.Iterable) bool {
diff --git a/internal/map.go b/internal/map.go
index ae1aafe..53c93f4 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -123,32 +123,36 @@ func (v *mapEntry) Frozen() bool {
 }
 
 func (v *mapEntry) FrozenCopy() dgo.Value {
-	if v.Frozen() {
-		return v
-	}
-	c := &mapEntry{key: v.key, value: v.value}
-	c.copyFreeze()
-	return c
+	return v.deepCopy(nil, true)
 }
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
-	c := &mapEntry{key: v.key, value: v.value}
-	c.copyThaw()
-	return c
+	return v.deepCopy(nil, false)
 }
 
-func (v *hashNode) FrozenCopy() dgo.Value {
-	if v.Frozen() {
+func (v *mapEntry) deepCopy(seen []copied, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
 		return v
 	}
-	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	c.copyFreeze()
+	c := &mapEntry{key: v.key}
+	c.value = copyValue(append(seen, copied{v, c}), v.value, frozen)
 	return c
 }
 
+func (v *hashNode) FrozenCopy() dgo.Value {
+	return v.deepCopy(nil, true)
+}
+
 func (v *hashNode) ThawedCopy() dgo.Value {
-	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	c.copyThaw()
+	return v.deepCopy(nil, false)
+}
+
+func (v *hashNode) deepCopy(seen []copied, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
+		return v
+	}
+	c := &hashNode{mapEntry: mapEntry{key: v.key}}
+	c.value = copyValue(append(seen, copied{v, c}), v.value, frozen)
 	return c
 }
 
@@ -176,12 +180,6 @@ func (v *mapEntry) copyFreeze() {
 	}
 }
 
-func (v *mapEntry) copyThaw() {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
-}
-
 var emptyMap = &hashMap{frozen: true}
 
 // Map creates an immutable dgo.Map from the given slice which must have 0, 1, or an
@@ -424,20 +422,19 @@ func (g *hashMap) ContainsKey(key interface{}) bool {
 }
 
 func (g *hashMap) Copy(frozen bool) dgo.Map {
+	return g.deepCopy(nil, frozen).(dgo.Map)
+}
+
+func (g *hashMap) deepCopy(seen []copied, frozen bool) dgo.Value {
 	if frozen && g.frozen {
 		return g
 	}
 
 	c := &hashMap{len: g.len, frozen: frozen}
 	g.resize(c, 0)
-	if frozen {
-		for e := c.first; e != nil; e = e.next {
-			e.copyFreeze()
-		}
-	} else {
-		for e := c.first; e != nil; e = e.next {
-			e.copyThaw()
-		}
+	seen = append(seen, copied{g, c})
+	for e := c.first; e != nil; e = e.next {
+		e.value = copyValue(seen, e.value, frozen)
 	}
 	return c
 }
@@ -927,6 +924,37 @@ func tableSizeFor(cap int) int {
 	return int(n)
 }
 
+// copied associates a value that is being copied with its copy.
+type copied struct {
+	orig dgo.Value
+	copy dgo.Value
+}
+
+// deepCopy is implemented by values that contain other values and hence might contain themselves.
+type deepCopy interface {
+	deepCopy(seen []copied, frozen bool) dgo.Value
+}
+
+// copyValue returns a frozen or a thawed copy of the given value. The copy of a value that contains itself contains
+// itself.
+func copyValue(seen []copied, v dgo.Value, frozen bool) dgo.Value {
+	if dc, ok := v.(deepCopy); ok {
+		for i := range seen {
+			if seen[i].orig == v {
+				return seen[i].copy
+			}
+		}
+		return dc.deepCopy(seen, frozen)
+	}
+	if f, ok := v.(dgo.Freezable); ok {
+		if frozen {
+			return f.FrozenCopy()
+		}
+		return f.ThawedCopy()
+	}
+	return v
+}
+
 func frozenCopy(v dgo.Value) dgo.Value {
 	if f, ok := v.(dgo.Freezable); ok {
 		v = f.FrozenCopy()
diff --git a/internal/sensitive.go b/internal/sensitive.go
index c55492b..3dc3f65 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -147,15 +147,18 @@ func (v *sensitive) Frozen() bool {
 }
 
 func (v *sensitive) FrozenCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
-		return &sensitive{f.FrozenCopy()}
-	}
-	return v
+	return v.deepCopy(nil, true)
 }
 
 func (v *sensitive) ThawedCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		return &sensitive{f.ThawedCopy()}
+	return v.deepCopy(nil, false)
+}
+
+func (v *sensitive) deepCopy(seen []copied, frozen bool) dgo.Value {
+	if f, ok := v.value.(dgo.Freezable); ok && !(frozen && f.Frozen()) {
+		c := &sensitive{}
+		c.value = copyValue(append(seen, copied{v, c}), v.value, frozen)
+		return c
 	}
 	return v
 }
-- 
2.43.0


From 7b2f5dbd6433ddbcbef2bcfc51595b1b89ca7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 086/116] fix: values that contain themselves could be equal
 and have different hash codes

---
 internal/array.go   |  2 +-
 internal/compare.go | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 20e430a..706349e 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1111,7 +1111,7 @@ func (v *array) GoSlice() []dgo.Value {
 }
 
 func (v *array) HashCode() int {
-	return v.deepHashCode(nil)
+	return deepHashCode(nil, v)
 }
 
 func (v *array) deepHashCode(seen []dgo.Value) int {
diff --git a/internal/compare.go b/internal/compare.go
index e1dc210..b6ea009 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -112,14 +112,37 @@ func typeValueHit(guard dgo.RecursionGuard, a dgo.Type, b dgo.Value) bool {
 	return seenInA && seenInB
 }
 
+// hashGuard is the first value of the slice that guards the computation of a hash code.
+type hashGuard struct {
+	dgo.Value
+	recursive bool
+}
+
+// deepHashCode returns the hash code of e. Values in e that contain themselves contribute with zero because where the
+// recursion is found may differ between values that are equal.
 func deepHashCode(seen []dgo.Value, e dgo.Value) int {
-	if de, ok := e.(deepEqual); ok {
-		if util.RecursionHit(seen, e) {
-			return 0
+	de, ok := e.(deepEqual)
+	if !ok {
+		return e.HashCode()
+	}
+	if len(seen) == 0 {
+		return de.deepHashCode([]dgo.Value{&hashGuard{}, e})
+	}
+	guard := seen[0].(*hashGuard)
+	if util.RecursionHit(seen, e) {
+		if _, isType := e.(dgo.Type); !isType {
+			guard.recursive = true
 		}
-		return de.deepHashCode(append(seen, e))
+		return 0
+	}
+	siblingRecursive := guard.recursive
+	guard.recursive = false
+	h := de.deepHashCode(append(seen, e))
+	if guard.recursive {
+		return 0
 	}
-	return e.HashCode()
+	guard.recursive = siblingRecursive
+	return h
 }
 
 // equals performs a deep equality comparison of a and b using the Value.Equals method. The given seen slice
-- 
2.43.0


From 760b0f9ffebfec309809b511ee44cc5a3cca888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 087/116] fix: typing a sensitive in a value that contains
 itself overflowed the stack

---
 internal/array.go     | 8 +++++++-
 internal/sensitive.go | 2 +-
 internal/ternary.go   | 7 ++++++-
 internal/type.go      | 8 ++++++++
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 706349e..76bd884 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -311,7 +311,13 @@ func (t *exactArrayType) Generic() dgo.Type {
 }
 
 func (t *exactArrayType) deepGeneric(seen []dgo.Value) dgo.Type {
-	return newArrayType(generic(seen, t.ElementType()), 0, math.MaxInt64)
+	var et dgo.Type
+	if es := t.value.slice; len(es) == 1 {
+		et = genericTypeOf(seen, es[0])
+	} else {
+		et = generic(seen, t.ElementType())
+	}
+	return newArrayType(et, 0, math.MaxInt64)
 }
 
 func (t *exactArrayType) Len() int {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index 3dc3f65..161bc3c 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -182,7 +182,7 @@ func (v *sensitive) String() string {
 }
 
 func (v *sensitive) Type() dgo.Type {
-	return &sensitiveType{wrapped: Generic(v.value.Type())}
+	return genericTypeOf(nil, v)
 }
 
 func (v *sensitive) Unwrap() dgo.Value {
diff --git a/internal/ternary.go b/internal/ternary.go
index 50f1da9..d7f3bdf 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -504,7 +504,12 @@ func commonGeneric(seen, s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
 	var prev dgo.Type
 	ts := make([]dgo.Type, len(s))
 	for i := range s {
-		rt := generic(seen, fc(s[i]))
+		var rt dgo.Type
+		if sv, ok := s[i].(*sensitive); ok {
+			rt = genericTypeOf(seen, sv)
+		} else {
+			rt = generic(seen, fc(s[i]))
+		}
 		ts[i] = rt
 		if prev == nil || !prev.Assignable(rt) && rt.Assignable(prev) {
 			prev = rt // make prev more generic
diff --git a/internal/type.go b/internal/type.go
index 402c3b9..e683aca 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -130,6 +130,14 @@ func generic(seen []dgo.Value, t dgo.Type) dgo.Type {
 	return t
 }
 
+// genericTypeOf returns the generic form of the type of the given value.
+func genericTypeOf(seen []dgo.Value, v dgo.Value) dgo.Type {
+	if s, ok := v.(*sensitive); ok {
+		return &sensitiveType{wrapped: genericTypeOf(seen, s.value)}
+	}
+	return generic(seen, v.Type())
+}
+
 func illegalArgument(name, expected interface{}, args []interface{}, argno int) error {
 	if len(args) == 1 {
 		return fmt.Errorf(`illegal argument for %s. Expected %s, got %s`, name, expected, Value(args[argno]))
-- 
2.43.0


From 18ac81fec9fd8ef57b6ae7d390835aeff4feb6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 088/116] fix: a sensitive that contains itself was decoded to
 one that contains a map

---
 streamer/decoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 1391acc..eea1e14 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -65,6 +65,8 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 		v = nm
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
+		// The value might contain references to the sensitive
+		replaceInstance(m, v, mv, make(map[dgo.Value]bool))
 	case ts.Equals(dl.BinaryTypeName()):
 		v = vf.BinaryFromString(mv.(dgo.String).GoString())
 	case ts.Equals(dl.TimeTypeName()):
-- 
2.43.0


From d4f8a8af4c5f1e840741ed9d8a96a1338b390dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 089/116] fix: checking a map type against the type of a map
 that contains itself overflowed the stack

---
 internal/map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index 53c93f4..5b3d12b 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1083,6 +1083,10 @@ func (t *sizedMapType) Assignable(other dgo.Type) bool {
 }
 
 func (t *sizedMapType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
+	if et, ok := other.(*exactMapType); ok {
+		// The map may contain itself
+		return Instance(guard, t, et.value)
+	}
 	if ot, ok := other.(dgo.MapType); ok {
 		return t.min <= ot.Min() && ot.Max() <= t.max &&
 			Assignable(guard, t.keyType, ot.KeyType()) && Assignable(guard, t.valueType, ot.ValueType())
-- 
2.43.0


From 1deef69acbc855464945c838b66610fbecbc1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 090/116] fix: equality of function types was not symmetric and
 recursive Go function types overflowed the stack

---
 internal/function.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/internal/function.go b/internal/function.go
index e50bf0f..e0fbea3 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -139,17 +139,19 @@ func (t exactFunctionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Ty
 }
 
 func (t exactFunctionType) Equals(other interface{}) bool {
-	if ot, ok := Value(other).(dgo.FunctionType); ok {
-		return t.In().Equals(ot.In()) && t.Out().Equals(ot.Out())
-	}
-	return false
+	return equals(nil, t, other)
+}
+
+func (t exactFunctionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	return functionTypeEquals(seen, t, other)
 }
 
 func (t exactFunctionType) HashCode() int {
-	h := int(dgo.TiFunction)
-	h = h*31 + t.In().HashCode()
-	h = h*31 + t.Out().HashCode()
-	return h
+	return deepHashCode(nil, t)
+}
+
+func (t exactFunctionType) deepHashCode(seen []dgo.Value) int {
+	return functionTypeHashCode(seen, t)
 }
 
 func (t exactFunctionType) In() dgo.TupleType {
@@ -226,20 +228,28 @@ func (t *functionType) Equals(other interface{}) bool {
 }
 
 func (t *functionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ot, ok := other.(*functionType); ok {
-		return equals(seen, t.arguments, ot.arguments) && equals(seen, t.returns, ot.returns)
+	return functionTypeEquals(seen, t, other)
+}
+
+func functionTypeEquals(seen []dgo.Value, t dgo.FunctionType, other interface{}) bool {
+	if ot, ok := other.(dgo.FunctionType); ok {
+		return equals(seen, t.In(), ot.In()) && equals(seen, t.Out(), ot.Out())
 	}
 	return false
 }
 
 func (t *functionType) HashCode() int {
-	return t.deepHashCode(nil)
+	return deepHashCode(nil, t)
 }
 
 func (t *functionType) deepHashCode(seen []dgo.Value) int {
+	return functionTypeHashCode(seen, t)
+}
+
+func functionTypeHashCode(seen []dgo.Value, t dgo.FunctionType) int {
 	h := int(dgo.TiFunction)
-	h = h*31 + deepHashCode(seen, t.arguments)
-	h = h*31 + deepHashCode(seen, t.returns)
+	h = h*31 + deepHashCode(seen, t.In())
+	h = h*31 + deepHashCode(seen, t.Out())
 	return h
 }
 
@@ -300,7 +310,7 @@ func (f *goFunc) Equals(other interface{}) bool {
 }
 
 func (f *goFunc) Type() dgo.Type {
-	return &exactFunctionType{(*reflect.Value)(f).Type()}
+	return exactFunctionType{(*reflect.Value)(f).Type()}
 }
 
 func (f *goFunc) HashCode() int {
-- 
2.43.0


From 39b8da43eb2fe26a6001c64c759ab959c1559b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 091/116] fix: a function could not be passed to a Go function
 or converted to a Go value

---
 internal/function.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/function.go b/internal/function.go
index e0fbea3..60fce63 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -376,6 +376,17 @@ func (f *goFunc) GoFunc() interface{} {
 	return (*reflect.Value)(f).Interface()
 }
 
+func (f *goFunc) ReflectTo(value reflect.Value) {
+	fr := (*reflect.Value)(f)
+	if value.Kind() == reflect.Ptr {
+		p := reflect.New(fr.Type())
+		p.Elem().Set(*fr)
+		value.Set(p)
+	} else {
+		value.Set(*fr)
+	}
+}
+
 func (f *goFunc) String() string {
 	return (*reflect.Value)(f).String()
 }
-- 
2.43.0


From fafc9b016c715cd009b5809c40efcd1dbac2e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 092/116] fix: the type of all functions only had variadic
 functions

---
 internal/function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/function.go b/internal/function.go
index 60fce63..c6c1c8e 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -216,7 +216,7 @@ func (t *functionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type)
 
 func functionTypeAssignable(guard dgo.RecursionGuard, t dgo.FunctionType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.FunctionType); ok {
-		return t.Variadic() == ot.Variadic() &&
+		return (t.Variadic() == ot.Variadic() || DefaultFunctionType.Equals(t)) &&
 			tupleAssignableTuple(guard, t.In(), ot.In()) &&
 			tupleAssignableTuple(guard, t.Out(), ot.Out())
 	}
-- 
2.43.0


From e2ba99a2be41d02d128c400d9129cf72534c3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 093/116] fix: control characters in Pcore text were parsed as
 numbers, names or end of text

---
 streamer/pcore/lexer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/streamer/pcore/lexer.go b/streamer/pcore/lexer.go
index e5750eb..5b02b3f 100644
--- a/streamer/pcore/lexer.go
+++ b/streamer/pcore/lexer.go
@@ -2,6 +2,7 @@ package pcore
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 
@@ -56,6 +57,9 @@ func nextToken(sr *util.StringReader) (t *parser.Token) {
 	for {
 		r := sr.Next()
 		if r == 0 {
+			if !sr.AtEnd() {
+				panic(errors.New(`unexpected NUL character`))
+			}
 			return &parser.Token{Type: end}
 		}
 
@@ -106,6 +110,9 @@ func buildToken(r rune, sr *util.StringReader) *parser.Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &parser.Token{Value: buf.String(), Type: identifier}
+	case r < ' ':
+		// Control characters must not be mistaken for token types
+		panic(badToken(r))
 	default:
 		return &parser.Token{Type: int(r)}
 	}
@@ -114,7 +121,12 @@ func buildToken(r rune, sr *util.StringReader) *parser.Token {
 func consumeLineComment(sr *util.StringReader) {
 	for {
 		switch sr.Next() {
-		case 0, '\n':
+		case 0:
+			if !sr.AtEnd() {
+				panic(errors.New(`unexpected NUL character`))
+			}
+			return
+		case '\n':
 			return
 		}
 	}
-- 
2.43.0


From 43c225305f1b2a85b832afd3542c7c99f5e4bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 094/116] fix: Pcore numbers that cannot be represented were
 parsed as another number

---
 streamer/pcore/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 8826d57..4a7ac71 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -215,10 +215,16 @@ func (p *pcoreParser) element(t *parser.Token) {
 	case '[':
 		p.array()
 	case integer:
-		i, _ := strconv.ParseInt(t.Value, 0, 64)
+		i, err := strconv.ParseInt(t.Value, 0, 64)
+		if err != nil {
+			panic(err)
+		}
 		p.Append(vf.Integer(i))
 	case float:
-		f, _ := strconv.ParseFloat(t.Value, 64)
+		f, err := strconv.ParseFloat(t.Value, 64)
+		if err != nil {
+			panic(err)
+		}
 		p.Append(vf.Float(f))
 	case identifier:
 		p.identifier(t)
-- 
2.43.0


From c1478f9de0651b83bd361ad5d99a3a47e7368d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 095/116] fix: a Pcore Number had integers outside its limits

---
 streamer/pcore/parser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 4a7ac71..c8515a4 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -450,11 +450,19 @@ func integerType(p *pcoreParser) dgo.Value {
 
 func numberType(p *pcoreParser) dgo.Value {
 	tp := floatType(p).(dgo.FloatType)
-	max := int64(math.MaxInt64)
-	if tp.Max() != math.MaxFloat64 {
-		max = int64(tp.Max())
+	// The integers within the limits. Those limits may be fractions or beyond what an integer can hold
+	from, to := math.Ceil(tp.Min()), math.Floor(tp.Max())
+	if from > to || from >= 1<<63 || to < -1<<63 {
+		return tp
+	}
+	min, max := int64(math.MinInt64), int64(math.MaxInt64)
+	if from > -1<<63 {
+		min = int64(from)
+	}
+	if to < 1<<63 {
+		max = int64(to)
 	}
-	return tf.AnyOf(tf.Integer(int64(tp.Min()), max, true), tp)
+	return tf.AnyOf(tf.Integer(min, max, true), tp)
 }
 
 func notUndefType(p *pcoreParser) dgo.Value {
-- 
2.43.0


From fb3ec30f201ef8e1679dc0508b7ee357c4c5611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 096/116] fix: Pcore tuples, callables and aliases with illegal
 arguments gave runtime errors

---
 streamer/pcore/parser.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index c8515a4..e9d48cd 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -199,8 +199,11 @@ func (p *pcoreParser) aliasDeclaration(t *parser.Token) dgo.Value {
 			if am.GetType(s) == nil {
 				am.Add(parser.NewAlias(s), s)
 				p.element(p.NextToken())
-				tp := p.PopLast()
-				am.Add(tp.(dgo.Type), s)
+				tp, ok := p.PopLast().(dgo.Type)
+				if !ok {
+					panic(fmt.Errorf(`the alias '%s' is not a type`, t.Value))
+				}
+				am.Add(tp, s)
 				return tp
 			}
 		}
@@ -326,12 +329,13 @@ func callableType(p *pcoreParser) dgo.Value {
 	args := p.PopLast().(dgo.Array)
 	if args.Len() == 2 {
 		if params, ok := args.Get(0).(dgo.Array); ok {
-			rt = args.Get(1).(dgo.Type)
+			rt = vf.ArgumentsFromArray(args).Arg(`Callable`, 1, typ.Type).(dgo.Type)
 			args = params
 		}
 	}
 
 	argc := args.Len()
+	vf.ArgumentsFromArray(args).AssertSize(`Callable`, 1, math.MaxInt64)
 	if block, ok := args.Get(argc - 1).(dgo.FunctionType); ok && argc > 1 {
 		// In Puppet, if the last argument is a Function, then it is considered
 		// to be a block. Such a block is not a proper argument and may hence
@@ -519,10 +523,16 @@ func tupleFromArgs(args dgo.Array) dgo.TupleType {
 	l := args.Len()
 	var min int64
 	var max int64
+	vf.ArgumentsFromArray(args).AssertSize(`Tuple`, 1, math.MaxInt64)
 	if n, ok := getIfInt(args, l-1, -1); ok {
 		args.Pop()
 		l--
-		if min, ok = getIfInt(args, l-1, -1); ok {
+		if l > 0 {
+			min, ok = getIfInt(args, l-1, -1)
+		} else {
+			ok = false
+		}
+		if ok {
 			args.Pop()
 			l--
 			max = n
-- 
2.43.0


From 6439d318046740746c7a58f3bd372aadac1c2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 097/116] fix: a call that is a key of a map was never made by
 the parsers

---
 internal/map.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index 5b3d12b..1a80234 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -802,10 +802,24 @@ func (g *hashMap) RemoveAll(keys dgo.Array) {
 }
 
 func (g *hashMap) Resolve(ap dgo.AliasAdder) {
+	calls := false
 	for e := g.first; e != nil; e = e.next {
 		if r, replaced := resolveValue(e.value, ap); replaced {
 			e.value = r
 		}
+		if _, ok := e.key.(*deferredCall); ok {
+			calls = true
+		}
+	}
+	if calls {
+		// The result of a call is another key, and it has another place in the table
+		c := &hashMap{}
+		for e := g.first; e != nil; e = e.next {
+			k, _ := resolveValue(e.key, ap)
+			c.Put(k, e.value)
+		}
+		c.frozen = g.frozen
+		*g = *c
 	}
 }
 
-- 
2.43.0


From 7f544035df326bc6ae6ef7e6b0f5a12c9e6621c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 098/116] fix: a value followed by two rockets was accepted in
 a Pcore array

---
 streamer/pcore/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index e9d48cd..1cbd7d1 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -131,12 +131,17 @@ func (p *pcoreParser) list(et int, bs int) {
 		if rockLHS != nil {
 			// Last two elements is a hash entry
 			p.Append(vf.MapEntry(rockLHS, p.PopLast()))
-			rockLHS = nil
 			arrayHash = true
 		}
 
 		// Comma, rocket, or right bracket must follow element
 		tk = p.NextToken()
+		if rockLHS != nil {
+			if tk.Type == rocket {
+				panic(badSyntax(tk, bs))
+			}
+			rockLHS = nil
+		}
 		switch tk.Type {
 		case et:
 		case ',':
-- 
2.43.0


From fc4b7998a2ca9cfd93d92a46b23a1d82c885c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 099/116] fix: the Pcore dialect ignored the given aliases and
 added to the default ones

---
 streamer/pcore/pcoredialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/pcore/pcoredialect.go b/streamer/pcore/pcoredialect.go
index cc42c65..8e22e4e 100644
--- a/streamer/pcore/pcoredialect.go
+++ b/streamer/pcore/pcoredialect.go
@@ -58,5 +58,5 @@ func (d pcoreDialect) TimeTypeName() dgo.String {
 }
 
 func (d pcoreDialect) ParseType(aliasMap dgo.AliasAdder, typeString dgo.String) (dt dgo.Type) {
-	return typ.AsType(Parse(typeString.GoString()))
+	return typ.AsType(ParseFile(aliasMap, ``, typeString.GoString()))
 }
-- 
2.43.0


From 084e26d4c28ccc81984b361d2cf4e8ace0a46ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 100/116] fix: creating an array from something that is not an
 array is refused with an illegal argument error

---
 internal/array.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 76bd884..d366162 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -711,12 +711,22 @@ func Array(value interface{}) dgo.Array {
 		}
 		return &array{slice: arr, frozen: true}
 	case reflect.Value:
-		return ValueFromReflected(value).(dgo.Array)
+		return arrayFromReflected(value)
 	default:
-		return ValueFromReflected(reflect.ValueOf(value)).(dgo.Array)
+		return arrayFromReflected(reflect.ValueOf(value))
 	}
 }
 
+// arrayFromReflected converts a reflected slice, array, or value to a dgo.Array. A panic is raised if the reflected
+// value isn't an array
+func arrayFromReflected(rv reflect.Value) dgo.Array {
+	v := ValueFromReflected(rv)
+	if a, ok := v.(dgo.Array); ok {
+		return a
+	}
+	panic(fmt.Errorf(`illegal argument: %v is not an array`, v))
+}
+
 // arrayFromIterator creates an array from a size and an iterator goFunc. The
 // iterator goFunc is expected to call its actor exactly size number of times.
 func arrayFromIterator(size int, each func(dgo.Consumer)) *array {
-- 
2.43.0


From 73b18f78da271319371c970bdb9579086e3c06fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 101/116] fix: the struct type without entries has at most zero
 entries

---
 internal/mapstruct.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index d052673..4e60e34 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -308,11 +308,10 @@ func (t *structType) Len() int {
 }
 
 func (t *structType) Max() int {
-	m := len(t.required)
-	if m == 0 || t.additional {
+	if t.additional {
 		return math.MaxInt64
 	}
-	return m
+	return len(t.required)
 }
 
 func (t *structType) Min() int {
-- 
2.43.0


From 863e5bee0bf97920d91c749adee49dc5d893b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 102/116] fix: String of an indenter emptied it and altered
 text that isn't valid UTF-8

---
 util/indenter.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/util/indenter.go b/util/indenter.go
index ba2efa8..d1e6086 100644
--- a/util/indenter.go
+++ b/util/indenter.go
@@ -3,7 +3,6 @@ package util
 import (
 	"bytes"
 	"fmt"
-	"io"
 	"strconv"
 	"strings"
 
@@ -52,24 +51,20 @@ func (i *indenter) Reset() {
 func (i *indenter) String() string {
 	n := bytes.NewBuffer(make([]byte, 0, i.b.Len()))
 	wb := &bytes.Buffer{}
-	for {
-		r, _, err := i.b.ReadRune()
-		if err == io.EOF {
-			break
-		}
-		if r == ' ' || r == '\t' {
+	for _, c := range i.b.Bytes() {
+		if c == ' ' || c == '\t' {
 			// Defer whitespace output
-			WriteByte(wb, byte(r))
+			WriteByte(wb, c)
 			continue
 		}
-		if r == '\n' {
+		if c == '\n' {
 			// Truncate trailing space
 			wb.Reset()
 		} else if wb.Len() > 0 {
 			_, _ = n.Write(wb.Bytes())
 			wb.Reset()
 		}
-		WriteRune(n, r)
+		WriteByte(n, c)
 	}
 	return n.String()
 }
-- 
2.43.0


From 2c303ef0c40f0bf3a931ea33c7d287dc3c95db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 103/116] fix: the column that a string reader tells was one
 too high after a newline

---
 util/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/reader.go b/util/reader.go
index ea528d5..49c84a4 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -33,8 +33,9 @@ func (r *StringReader) Next() rune {
 		if c == '\n' {
 			r.l++
 			r.c = 0
+		} else {
+			r.c++
 		}
-		r.c++
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-- 
2.43.0


From e4423c696ba314c3d1a17d0b625ab4ec6abaf7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 104/116] fix: a Go error claimed to be equal to dgo errors
 that don't equal it

---
 internal/error.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/error.go b/internal/error.go
index 80048f9..1a573e7 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -90,6 +90,9 @@ func (e *errw) Equals(other interface{}) bool {
 	if oe, ok := other.(*errw); ok {
 		return e.error.Error() == oe.error.Error()
 	}
+	if _, ok := other.(dgo.Value); ok {
+		return false
+	}
 	if oe, ok := other.(error); ok {
 		return e.error.Error() == oe.Error()
 	}
-- 
2.43.0


From 1728176e7c61eb7ccef05738680cfcee43ebbfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 105/116] fix: comparing with, or testing, a nil Go regexp or
 time panicked

---
 internal/error.go  |  2 +-
 internal/regexp.go | 16 +++++++++-------
 internal/time.go   |  8 +++++---
 internal/value.go  |  5 ++++-
 4 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/internal/error.go b/internal/error.go
index 1a573e7..60bce6d 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -51,7 +51,7 @@ func (t errType) Instance(value interface{}) bool {
 }
 
 func (t errType) IsInstance(err error) bool {
-	return true
+	return err != nil
 }
 
 func (t errType) ReflectType() reflect.Type {
diff --git a/internal/regexp.go b/internal/regexp.go
index f803e12..e479f54 100644
--- a/internal/regexp.go
+++ b/internal/regexp.go
@@ -44,15 +44,17 @@ func (t regexpType) HashCode() int {
 }
 
 func (t regexpType) Instance(v interface{}) bool {
-	_, ok := v.(*regexpVal)
-	if !ok {
-		_, ok = v.(*regexp.Regexp)
+	switch v := v.(type) {
+	case *regexpVal:
+		return true
+	case *regexp.Regexp:
+		return v != nil
 	}
-	return ok
+	return false
 }
 
 func (t regexpType) IsInstance(v *regexp.Regexp) bool {
-	return true
+	return v != nil
 }
 
 func (t regexpType) ReflectType() reflect.Type {
@@ -76,7 +78,7 @@ func (t *exactRegexpType) Generic() dgo.Type {
 }
 
 func (t *exactRegexpType) IsInstance(v *regexp.Regexp) bool {
-	return t.value.String() == v.String()
+	return v != nil && t.value.String() == v.String()
 }
 
 func (t *exactRegexpType) ReflectType() reflect.Type {
@@ -105,7 +107,7 @@ func (v *regexpVal) Equals(other interface{}) bool {
 		return (*regexp.Regexp)(v).String() == (*regexp.Regexp)(ot).String()
 	}
 	if ot, ok := other.(*regexp.Regexp); ok {
-		return (*regexp.Regexp)(v).String() == (ot).String()
+		return ot != nil && (*regexp.Regexp)(v).String() == (ot).String()
 	}
 	return false
 }
diff --git a/internal/time.go b/internal/time.go
index 48b6f27..57bd139 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -42,9 +42,11 @@ func (t timeType) HashCode() int {
 }
 
 func (t timeType) Instance(v interface{}) bool {
-	switch v.(type) {
-	case *timeVal, *time.Time, time.Time:
+	switch v := v.(type) {
+	case *timeVal, time.Time:
 		return true
+	case *time.Time:
+		return v != nil
 	}
 	return false
 }
@@ -145,7 +147,7 @@ func (v *timeVal) Equals(other interface{}) bool {
 	case time.Time:
 		return (*time.Time)(v).Equal(ov)
 	case *time.Time:
-		return (*time.Time)(v).Equal(*ov)
+		return ov != nil && (*time.Time)(v).Equal(*ov)
 	}
 	return false
 }
diff --git a/internal/value.go b/internal/value.go
index 964cd20..da85e21 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -61,7 +61,10 @@ func value(v interface{}) dgo.Value {
 	case []int:
 		dv = Integers(v)
 	case *regexp.Regexp:
-		dv = Regexp(v)
+		dv = Nil
+		if v != nil {
+			dv = Regexp(v)
+		}
 	case time.Time:
 		dv = (*timeVal)(&v)
 	case *time.Time:
-- 
2.43.0


From e20a3c7d058f23355483fe10f7b14035918ffa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 106/116] fix: making a map from a nil Go map gave a runtime
 error

---
 internal/map.go | 6 +++++-
 vf/map.go       | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 1a80234..c539480 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -253,7 +253,11 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		}
 		switch rm.Kind() {
 		case reflect.Map:
-			return FromReflectedMap(rm, frozen).(dgo.Map)
+			v := FromReflectedMap(rm, frozen)
+			if m, ok := v.(dgo.Map); ok {
+				return m
+			}
+			a0 = v
 		case reflect.Ptr:
 			re := rm.Elem()
 			if re.Kind() == reflect.Struct {
diff --git a/vf/map.go b/vf/map.go
index ca22a73..d1128e2 100644
--- a/vf/map.go
+++ b/vf/map.go
@@ -1,6 +1,7 @@
 package vf
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
@@ -34,7 +35,11 @@ func MapWithCapacity(capacity int) dgo.Map {
 // immutable and the type will reflect exactly that map and nothing else. If frozen is false, the
 // created Map will be mutable and its type will be derived from the reflected map.
 func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Map {
-	return internal.FromReflectedMap(rm, frozen).(dgo.Map)
+	v := internal.FromReflectedMap(rm, frozen)
+	if m, ok := v.(dgo.Map); ok {
+		return m
+	}
+	panic(fmt.Errorf(`illegal argument: %s is not a map`, v))
 }
 
 // MapEntry returns a new MapEntry instance with the given key and value
-- 
2.43.0


From b2cbc8c8353a426fe0ec29cb57129c1def047258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 107/116] fix: an array type is assignable from the type of the
 empty array

---
 internal/array.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index d366162..4319bc6 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -192,7 +192,8 @@ func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	case defaultArrayType:
 		return false // lacks size
 	case dgo.ArrayType:
-		return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, t.elementType, ot.ElementType())
+		return t.min <= ot.Min() && ot.Max() <= t.max &&
+			(ot.Max() == 0 || Assignable(guard, t.elementType, ot.ElementType()))
 	}
 	return CheckAssignableTo(guard, other, t)
 }
-- 
2.43.0


From 62838c96dc7dd4f8b2d101258fb6a5b42fd4995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 108/116] fix: a range from the smallest to the largest number
 with an excluded end is not the unconstrained type

---
 internal/float.go   | 2 +-
 internal/integer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index d23fc87..4dc0af4 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -48,7 +48,7 @@ func FloatType(min, max float64, inclusive bool) dgo.FloatType {
 		max = min
 		min = t
 	}
-	if min == -math.MaxFloat64 && max == math.MaxFloat64 {
+	if inclusive && min == -math.MaxFloat64 && max == math.MaxFloat64 {
 		return DefaultFloatType
 	}
 	return &floatType{min: min, max: max, inclusive: inclusive}
diff --git a/internal/integer.go b/internal/integer.go
index 8d3c7ba..49bf2bb 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -46,7 +46,7 @@ func IntegerType(min, max int64, inclusive bool) dgo.IntegerType {
 		max = min
 		min = t
 	}
-	if min == math.MinInt64 && max == math.MaxInt64 {
+	if inclusive && min == math.MinInt64 && max == math.MaxInt64 {
 		return DefaultIntegerType
 	}
 	return &integerType{min: min, max: max, inclusive: inclusive}
-- 
2.43.0


From b6915634ff7cd2092fa9a936bbe7aa0210482e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 109/116] fix: a case insensitive string type did not have the
 string it was made from

---
 internal/string.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index 74bce3c..de59f08 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 	"sync/atomic"
+	"unicode"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -295,11 +296,31 @@ func CiStringType(si interface{}) dgo.StringType {
 	} else {
 		s = si.(string)
 	}
-	et := &ciStringType{exactStringType: exactStringType{value: makeHString(strings.ToLower(s))}}
+	et := &ciStringType{exactStringType: exactStringType{value: makeHString(strings.Map(foldRune, s))}}
 	et.ExactType = et
 	return et
 }
 
+// foldRune returns the rune that represents all runes that are equal to r under Unicode case-folding. It is
+// the lower case one, unless that is no longer equal
+func foldRune(r rune) rune {
+	if r <= unicode.MaxASCII {
+		return unicode.ToLower(r)
+	}
+	min := r
+	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+		if f < min {
+			min = f
+		}
+	}
+	for f := unicode.SimpleFold(min); f != min; f = unicode.SimpleFold(f) {
+		if f == unicode.ToLower(min) {
+			return f
+		}
+	}
+	return min
+}
+
 func (t *ciStringType) Assignable(other dgo.Type) bool {
 	if ot, ok := other.(*exactStringType); ok {
 		return strings.EqualFold(t.value.s, ot.value.s)
-- 
2.43.0


From 483e45997b15894b7faa7e0aa505cf200c4e33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 110/116] fix: the sizes of a case insensitive string type
 ignored that letters of different case can differ in size

---
 internal/string.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index de59f08..751bca4 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"sync/atomic"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -338,6 +339,36 @@ func (t *ciStringType) Instance(v interface{}) bool {
 	return false
 }
 
+func (t *ciStringType) Max() int {
+	_, max := t.sizes()
+	return max
+}
+
+func (t *ciStringType) Min() int {
+	min, _ := t.sizes()
+	return min
+}
+
+// sizes returns the length of the shortest and the longest string that is equal under Unicode case-folding
+func (t *ciStringType) sizes() (min, max int) {
+	for _, r := range t.value.s {
+		low, high := utf8.RuneLen(r), utf8.RuneLen(r)
+		if r == utf8.RuneError {
+			low = 1 // a byte that isn't valid UTF-8
+		}
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			if n := utf8.RuneLen(f); n < low {
+				low = n
+			} else if n > high {
+				high = n
+			}
+		}
+		min += low
+		max += high
+	}
+	return
+}
+
 func (t *ciStringType) New(arg dgo.Value) dgo.Value {
 	return newString(t, arg)
 }
@@ -488,7 +519,8 @@ func (t *sizedStringType) Assignable(other dgo.Type) bool {
 	case *exactStringType:
 		return t.IsInstance(ot.value.s)
 	case *ciStringType:
-		return t.IsInstance(ot.value.s)
+		min, max := ot.sizes()
+		return t.min <= min && t.max >= max
 	case *sizedStringType:
 		return t.min <= ot.min && t.max >= ot.max
 	}
-- 
2.43.0


From 293663f05cf834a2f8689e00ece0b67957bb14c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 111/116] fix: the hash code of a native struct with a slice, a
 map or an uintptr that is not exported panicked

---
 internal/native.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/internal/native.go b/internal/native.go
index bc8ef86..78fadac 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -122,9 +122,12 @@ func (v *native) HashCode() int {
 		}
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
-	case reflect.Chan, reflect.Uintptr:
+	case reflect.Chan:
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
+	case reflect.Uintptr:
+		p := rv.Uint()
+		return int(p ^ (p >> 32))
 	case reflect.Struct:
 		return structHash(rv) * 3
 	}
@@ -135,11 +138,38 @@ func structHash(rv *reflect.Value) int {
 	n := rv.NumField()
 	h := 1
 	for i := 0; i < n; i++ {
-		h = h*31 + ValueFromReflected(rv.Field(i)).HashCode()
+		f := rv.Field(i)
+		h = h*31 + fieldHash(&f)
 	}
 	return h
 }
 
+// fieldHash computes the hash of a field, which may be unexported. Fields that are deeply equal have equal hashes
+func fieldHash(rv *reflect.Value) int {
+	switch rv.Kind() {
+	case reflect.Bool:
+		if rv.Bool() {
+			return 2
+		}
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return int(rv.Int())
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return int(rv.Uint())
+	case reflect.Float32, reflect.Float64:
+		return floatVal(rv.Float()).HashCode()
+	case reflect.String:
+		return util.StringHash(rv.String())
+	case reflect.Chan:
+		p := rv.Pointer()
+		return int(p ^ (p >> 32))
+	case reflect.Slice, reflect.Map:
+		return rv.Len()
+	case reflect.Struct:
+		return structHash(rv)
+	}
+	return 1
+}
+
 func (v *native) ReflectTo(value reflect.Value) {
 	vr := (*reflect.Value)(v)
 	if value.Kind() == reflect.Ptr && !vr.Type().AssignableTo(value.Type()) {
-- 
2.43.0


From 69428ec06023de93faec4560e230059fd38bbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 112/116] fix: a native struct with a function was not equal to
 itself

---
 internal/native.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/native.go b/internal/native.go
index 78fadac..3fa995c 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -83,6 +83,10 @@ func (t *nativeType) GoType() reflect.Type {
 }
 
 func (v *native) Equals(other interface{}) bool {
+	if v == other {
+		// not necessarily deeply equal, it may contain functions
+		return true
+	}
 	if b, ok := toReflected(other); ok {
 		a := (*reflect.Value)(v)
 		k := a.Kind()
-- 
2.43.0


From d3e27e3c97343a0106f1bebf99d0c882f503ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 113/116] fix: a function type that returns a union whose text
 starts with a parenthesis could not be parsed back

---
 stringer/typestring.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 4a901f5..3775e1f 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -231,7 +231,16 @@ func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 	if out.Len() > 0 {
 		util.WriteByte(sb, ' ')
 		if out.Len() == 1 && !out.Variadic() && prio == commaPrio {
+			w, single := sb.Writer, strings.Builder{}
+			sb.Writer = &single
 			sb.buildTypeString(out.Element(0), prio)
+			sb.Writer = w
+			if s := single.String(); strings.HasPrefix(s, `(`) {
+				// would be taken for the list of return values
+				util.WriteString(sb, `(`+s+`)`)
+			} else {
+				util.WriteString(sb, s)
+			}
 		} else {
 			sb.writeTupleArgs(ft.Out(), '(', ')')
 		}
-- 
2.43.0


From c03bf72c5624e47713c7cfbed5c563ba7027afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 114/116] fix: a string type with a max length is not
 assignable from dgo strings

---
 internal/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index 751bca4..490672c 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -515,7 +515,7 @@ func SizedStringType(min, max int) dgo.StringType {
 func (t *sizedStringType) Assignable(other dgo.Type) bool {
 	switch ot := other.(type) {
 	case defaultDgoStringType:
-		return t.min <= 1
+		return t.min <= 1 && t.max == math.MaxInt64
 	case *exactStringType:
 		return t.IsInstance(ot.value.s)
 	case *ciStringType:
-- 
2.43.0


From 3e79ce173c2f1c00da2b162d0176f35609f5ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 115/116] fix: arguments are equal to, compare with and are
 instances of types as the array of the same elements

---
 internal/arguments.go | 11 +++++++++++
 internal/array.go     |  8 ++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/arguments.go b/internal/arguments.go
index 71c078f..db1a28d 100644
--- a/internal/arguments.go
+++ b/internal/arguments.go
@@ -19,6 +19,17 @@ func ArgumentsFromArray(values dgo.Array) dgo.Arguments {
 	return &arguments{*a}
 }
 
+// asArray returns the array that the given value is, or is backed by if it is an Arguments instance
+func asArray(value interface{}) (*array, bool) {
+	switch value := value.(type) {
+	case *array:
+		return value, true
+	case *arguments:
+		return &value.array, true
+	}
+	return nil, false
+}
+
 func (a *arguments) AssertSize(funcName string, min, max int) {
 	l := a.Len()
 	if min > l || l > max {
diff --git a/internal/array.go b/internal/array.go
index 4319bc6..cc93238 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -236,7 +236,7 @@ func (t *sizedArrayType) Instance(value interface{}) bool {
 }
 
 func (t *sizedArrayType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
-	if ov, ok := value.(*array); ok {
+	if ov, ok := asArray(value); ok {
 		l := len(ov.slice)
 		return t.min <= l && l <= t.max && allInstance(guard, t.elementType, ov.slice)
 	}
@@ -589,7 +589,7 @@ func (t *tupleType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bo
 }
 
 func tupleInstance(guard dgo.RecursionGuard, t dgo.TupleType, value interface{}) bool {
-	ov, ok := value.(*array)
+	ov, ok := asArray(value)
 	if !ok {
 		return false
 	}
@@ -937,7 +937,7 @@ func (v *array) CompareTo(other interface{}) (int, bool) {
 }
 
 func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
-	ov, ok := other.(*array)
+	ov, ok := asArray(other)
 	if !ok {
 		return 0, false
 	}
@@ -1046,7 +1046,7 @@ func (v *array) Equals(other interface{}) bool {
 }
 
 func (v *array) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ov, ok := other.(*array); ok {
+	if ov, ok := asArray(other); ok {
 		return sliceEquals(seen, v.slice, ov.slice)
 	}
 	return false
-- 
2.43.0


From 8cc1748923b646dd8cd77d7e89167301fcfda155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 116/116] fix: an all-of type is assignable from an equal one
 whichever order the operands are in

---
 internal/ternary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ternary.go b/internal/ternary.go
index d7f3bdf..af2db34 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -612,9 +612,15 @@ nextA:
 
 	// Extra entries in 'b' are allowed provided they don't lessen the constraint
 	var swg dgo.RecursionGuard
+nextB:
 	for ib := range bts {
 		if !matched[ib] {
 			tb := bts[ib]
+			for ia := range ats {
+				if Assignable(guard, ats[ia], tb) {
+					continue nextB
+				}
+			}
 			if nil != guard && nil == swg {
 				swg = guard.Swap()
 			}
-- 
2.43.0

