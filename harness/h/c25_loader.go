package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"verif/harness/nd"
)

// loaderKey is one of 4 names, symbolically.
func loaderKey() string {
	b := nd.Byte()
	nd.Assume(nd.And(b >= 'a', b <= 'd'))
	return string([]byte{b})
}

func sameOrNil(v dgo.Value, want dgo.Value) bool {
	if want == nil || v == nil {
		return v == nil && want == nil
	}
	return v.Equals(want)
}

// C25_Get: up to 2 entries and a finder that knows one key (all arbitrary of 4) and 3 calls of Get with arbitrary keys: entries are
// found before what the finder finds, what isn't found is nil, and the finder is called at most once for each key, and
// never for an entry.
func C25_Get() {
	e := vf.MutableMap()
	n := nd.Choice(3)
	for i := 0; i < n; i++ {
		e.Put(loaderKey(), i)
	}
	ref := e.FrozenCopy().(dgo.Map)
	fk := loaderKey()
	asked := vf.MutableMap()
	var l dgo.Loader
	l = loader.New(nil, "", e, func(ld dgo.Loader, key string) interface{} {
		nd.Assert(ld == l, "the finder gets the loader")
		nd.Assert(asked.Put(key, true) == nil, "the finder is called at most once for a key")
		nd.Assert(!ref.ContainsKey(key), "the finder is not called for an entry")
		if key == fk {
			return "found"
		}
		return nil
	}, nil)
	e.Put("a", "changed")
	for i := 0; i < 3; i++ {
		k := loaderKey()
		want := ref.Get(k)
		if want == nil && k == fk {
			want = vf.String("found")
		}
		if nd.Choice(2) == 0 {
			nd.Assert(sameOrNil(l.Get(k), want), "Get gives the entry, what the finder finds, or nil")
		} else {
			nd.Assert(sameOrNil(l.Load(k), want), "Load of a name gives the entry, what the finder finds, or nil")
		}
	}
	nd.Assert(l.Get(1) == nil, "a key that isn't a string is not found")
	nd.Reach("get")
}

// C25_Multiple: a finder that returns several entries at once (2 arbitrary of 4 keys) and 3 arbitrary Gets: all returned entries are
// added and never asked for, an entry that has another value already (or was not found) is never replaced, and a result that lacks the key is refused.
func C25_Multiple() {
	e := vf.MutableMap()
	e.Put(loaderKey(), "entry")
	ref := e.Copy(false)
	k1, k2 := loaderKey(), loaderKey()
	m := vf.MutableMap(k1, "one", k2, "two")
	calls := 0
	missing := ""
	l := loader.New(nil, "", e, func(ld dgo.Loader, key string) interface{} {
		if missing != "" {
			return nil
		}
		calls++
		return loader.Multiple(m)
	}, nil)
	if nd.Choice(2) == 0 {
		missing = loaderKey()
		nd.Assert(sameOrNil(l.Get(missing), ref.Get(missing)), "Get gives the entry, or nil when nothing is found")
		if ref.Get(missing) == nil {
			ref.Put(missing, nil)
		}
		k := missing
		missing = ""
		nd.Assert(sameOrNil(l.Get(k), goNil(ref.Get(k))) && calls == 0, "the finder is not asked again for what it didn't find")
	}
	for i := 0; i < 2; i++ {
		k := loaderKey()
		want := ref.Get(k)
		switch {
		case want != nil:
			want = goNil(want)
		case !m.ContainsKey(k):
			nd.Assert(panics(func() { l.Get(k) }), "a result that lacks the key is refused")
			continue
		case ref.Any(func(e dgo.MapEntry) bool { return m.ContainsKey(e.Key()) && !m.Get(e.Key()).Equals(e.Value()) }):
			nd.Assert(panics(func() { l.Get(k) }), "an entry is never overridden")
			nd.Reach("override")
			return
		default:
			ref.PutAll(m)
			want = ref.Get(k)
		}
		c := calls
		had := sameOrNil(l.Get(k), want)
		nd.Assert(had, "Get gives the entry or the one of the finder's entries")
		c2 := calls
		nd.Assert(sameOrNil(l.Get(k), want) && calls == c2, "the finder is not called again")
		_ = c
	}
	nd.Reach("multiple")
}

// goNil is nil for vf.Nil
func goNil(v dgo.Value) dgo.Value {
	if v == vf.Nil {
		return nil
	}
	return v
}

// nsTree makes a loader with entry a (the path) in every namespace and namespaces x and y down to the given depth. Namespaces
// are counted when created.
func nsTree(parent dgo.Loader, name, path string, depth int, created *int) dgo.Loader {
	var nc dgo.NsCreator
	if depth > 0 {
		nc = func(ld dgo.Loader, n string) dgo.Loader {
			if n == "x" || n == "y" {
				*created++
				return nsTree(ld, n, path+"/"+n, depth-1, created)
			}
			return nil
		}
	}
	return loader.New(parent, name, vf.Map("a", path), nil, nc)
}

// nsName is x, y, z or empty, the first three symbolically.
func nsName() string {
	if nd.Choice(4) == 0 {
		return ""
	}
	b := nd.Byte()
	nd.Assume(nd.And(b >= 'x', b <= 'z'))
	return string([]byte{b})
}

// C25_Path: Load of a path of up to 3 arbitrary names (x, y, unknown or empty) in a tree of namespaces of depth 2 gives the entry of the namespace at the
// path, or nil; the loader at the path has the path as its absolute name, and namespaces are created once.
func C25_Path() {
	created := 0
	l := nsTree(nil, "", "", 2, &created)
	n := nd.Choice(4)
	path, abs, depth, ok := "", "", 0, true
	ns := l
	for i := 0; i < n; i++ {
		p := nsName()
		path += p + "/"
		if p != "" {
			abs += "/" + p
			depth++
			if p == "z" || depth > 2 {
				ok = false
			}
		}
		if ns != nil {
			was := created
			up := ns
			ns = ns.Namespace(p)
			now := created
			nd.Assert(up.Namespace(p) == ns && (created == now || ns == nil), "a namespace is created once and stays the same")
			nd.Assert(p != "" || ns == up && was == created, "the namespace with empty name is the loader itself")
			nd.Assert(ns == nil || p == "" || ns.ParentNamespace() == up && ns.Name() == p, "a namespace knows its name and parent")
		}
	}
	if !ok {
		nd.Assert(ns == nil, "an unknown namespace is nil")
		nd.Assert(l.Load(path+"a") == nil, "nothing is loaded from an unknown namespace")
		return
	}
	nd.Assert(ns != nil, "a known namespace is found")
	if abs == "" {
		nd.Assert(ns.AbsoluteName() == "/", "the absolute name of the root is /")
	} else {
		nd.Assert(ns.AbsoluteName() == abs, "the absolute name is the path of names")
	}
	nd.Assert(sameOrNil(l.Load(path+"a"), vf.String(abs)), "Load of a path gives the entry of the namespace")
	nd.Assert(sameOrNil(ns.Load("a"), vf.String(abs)) && sameOrNil(ns.Get("a"), vf.String(abs)), "Get and Load of a name give the entry of the namespace")
	nd.Assert(l.Load(path+"b") == nil && ns.Get("b") == nil, "what isn't in the namespace is nil")
	nd.Assert(sameOrNil(l.Load("/"+path+"a"), vf.String(abs)), "a leading slash makes no difference")
	nd.Reach("path")
}

// C25_Child: a child loader with up to 1 arbitrary entry found by its finder and a parent with up to 1, of both kinds: the entry of the
// parent is found first, then what the child finds, and the parent never sees what the child has. The same holds for their namespaces.
func C25_Child() {
	var pf dgo.Finder
	pk, ck := loaderKey(), loaderKey()
	pe := vf.Map(pk, "parent")
	if nd.Choice(2) == 0 {
		pe = nil
		pf = func(ld dgo.Loader, key string) interface{} {
			if key == pk {
				return "parent"
			}
			return nil
		}
	}
	pns, cns, orphan := nd.Choice(2) == 0, nd.Choice(2) == 0, nd.Choice(2) == 0
	nsParent := func(l dgo.Loader) dgo.Loader {
		if orphan {
			return nil
		}
		return l
	}
	var pnc dgo.NsCreator
	if pns {
		pnc = func(ld dgo.Loader, n string) dgo.Loader {
			return loader.New(nsParent(ld), n, vf.Map(pk, "parent/"+n), nil, nil)
		}
	}
	p := loader.New(nil, "top", pe, pf, pnc)
	var cnc dgo.NsCreator
	if cns {
		cnc = func(ld dgo.Loader, n string) dgo.Loader {
			return loader.New(nsParent(ld), n, vf.Map(ck, "child/"+n), nil, nil)
		}
	}
	asked := 0
	c := p.NewChild(func(ld dgo.Loader, key string) interface{} {
		asked++
		if key == ck {
			return "child"
		}
		return nil
	}, cnc)
	nd.Assert(c.AbsoluteName() == "/top" && c.Name() == "top" && c.ParentNamespace() == nil, "a child loader has the name of its parent")
	k := loaderKey()
	var want, pwant dgo.Value
	if k == pk {
		want = vf.String("parent")
		pwant = want
	} else if k == ck {
		want = vf.String("child")
	}
	nd.Assert(sameOrNil(c.Get(k), want) && sameOrNil(c.Load(k), want) && sameOrNil(c.Get(k), want), "a child loader finds what its parent has first, then its own")
	nd.Assert((asked == 0) == (pwant != nil) && asked <= 1, "the finder of a child is called once, and only when the parent has no entry")
	nd.Assert(sameOrNil(p.Get(k), pwant), "the parent doesn't see the entries of its children")
	nd.Assert(c.Namespace("") == c, "the namespace with empty name is the loader itself")

	want, pwant = nil, nil
	if pns && k == pk {
		want = vf.String("parent/n")
		pwant = want
	} else if cns && k == ck {
		want = vf.String("child/n")
	}
	nd.Assert((c.Namespace("n") != nil) == (pns || cns), "a child loader has the namespaces of its parent and its own")
	nd.Assert(sameOrNil(c.Load("n/"+k), want), "a namespace of a child loader finds what that of the parent has first")
	nd.Assert(sameOrNil(p.Load("n/"+k), pwant), "the parent doesn't see the namespaces of its children")
	nd.Reach("child")
}

// C25_Equal: loaders of each of the 3 kinds with up to 1 arbitrary entry are equal when the entries are, with equal hash codes; the type of a
// loader is an instance of what it's named, and the value made by its constructor from the extracted argument is equal to it.
func C25_Equal() {
	mk := func(k int, key string) dgo.Loader {
		var l dgo.Loader
		switch k {
		case 0:
			l = loader.New(nil, "l", vf.Map(key, 1), nil, nil)
		case 1:
			l = loader.New(nil, "l", vf.Map(key, 1), func(dgo.Loader, string) interface{} { return nil }, nil)
		default:
			l = loader.New(nil, "l", vf.Map(key, 1), nil, nil).NewChild(nil, nil)
		}
		return l
	}
	k := nd.Choice(3)
	k1, k2 := loaderKey(), loaderKey()
	a, b := mk(k, k1), mk(k, k2)
	nd.Assert(a.Equals(b) == (k1 == k2) && b.Equals(a) == (k1 == k2), "loaders are equal when their entries are")
	if k1 == k2 {
		nd.Assert(a.HashCode() == b.HashCode(), "equal loaders have equal hash codes")
	}
	nd.Assert(!a.Equals(mk((k+1)%3, k1)), "loaders of different kinds are not equal")
	gt := []dgo.NamedType{loader.Type, loader.MutableType, loader.ChildType}[k]
	nd.Assert(typ.Generic(a.Type()) == gt, "the type of a loader is of its kind")
	nd.Assert(gt.Instance(a) && a.Type().Instance(a), "a loader is an instance of its type")
	c := gt.(dgo.Factory).New(gt.ExtractInitArg(a))
	nd.Assert(a.Equals(c), "a loader that is made from the extracted argument is equal")
	rt := tf.NamedFromReflected(gt.ReflectType())
	nd.Assert(gt.Equals(rt), "the type is found by the type of its implementation")
	nd.Reach("equal")
}

// C25_Duplicate: a namespace that is created twice at the same time (the creator itself looks up the namespace, as another goroutine could, and uses
// it) gives equal namespaces, and is only refused when they are created with different entries.
func C25_Duplicate() {
	first := true
	k1, k2 := loaderKey(), loaderKey()
	var inner dgo.Loader
	l := loader.New(nil, "", nil, nil, func(ld dgo.Loader, name string) dgo.Loader {
		if first {
			first = false
			inner = ld.Namespace(name)
			return loader.New(ld, name, vf.Map(k1, 1), nil, nil)
		}
		return loader.New(ld, name, vf.Map(k2, 1), nil, nil)
	})
	var ns dgo.Loader
	p := panics(func() { ns = l.Namespace("n") })
	nd.Assert(p == (k1 != k2), "a namespace that is created twice is refused unless equal")
	nd.Assert(p || ns == inner, "the namespace that was created first is used")
	nd.Assert(l.Namespace("n") == inner, "the namespace that was created first is kept")
	nd.Reach("duplicate")
}

// C25_DuplicateUsed: as C25_Duplicate, with namespaces that have equal entries and a finder, where an arbitrary entry is looked up in the one created first before the other is created.
func C25_DuplicateUsed() {
	first := true
	k := loaderKey()
	mk := func(ld dgo.Loader, name string) dgo.Loader {
		return loader.New(ld, name, nil, func(_ dgo.Loader, key string) interface{} { return key }, nil)
	}
	var inner dgo.Loader
	use := nd.Choice(2) == 0
	l := loader.New(nil, "", nil, nil, func(ld dgo.Loader, name string) dgo.Loader {
		if first {
			first = false
			inner = ld.Namespace(name)
			if use {
				inner.Get(k)
			}
		}
		return mk(ld, name)
	})
	nd.Assert(!panics(func() { l.Namespace("n") }), "a namespace that is created twice and used meanwhile is not refused")
	nd.Assert(l.Namespace("n") == inner, "the namespace that was created first is kept")
	nd.Reach("duplicate")
}
