package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
	"sync/atomic"
)

type intrinsic = func(w *W, fr *Frame, args []Value) Value

var intrinsics = map[string]intrinsic{}

// preHooks may concretise arguments (one path per value) before the body runs.
var preHooks = map[string]func(w *W, args []Value){
	"strconv.ParseFloat": func(w *W, a []Value) {
		if _, ok := a[0].(string); ok {
			return
		}
		bs := strBytes(a[0])
		cs := make([]byte, len(bs))
		for i, b := range bs {
			cs[i] = byte(w.conc(b, 8))
		}
		a[0] = string(cs)
	},
}

// packages whose init functions are not run (their globals stay zero).
var skipInit = map[string]bool{
	"runtime": true, "syscall": true, "os": true, "reflect": true, "sync": true, "sync/atomic": true, "unsafe": true,
	"io/fs": true, "path/filepath": true, "path": true, "runtime/debug": true, "unique": true, "weak": true, "iter": true,
}

func lookupIntrinsic(fi *FnInfo) intrinsic {
	f := fi.fn
	name := fi.name
	if f.Origin() != nil {
		if in, ok := intrinsics[f.Origin().String()]; ok {
			return in
		}
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	p := pkgPath(f)
	if f.Name() == "init" && f.Synthetic != "" {
		if skipInit[p] || strings.HasPrefix(p, "internal/") && p != "internal/strconv" || strings.HasPrefix(p, "runtime/") {
			return func(w *W, fr *Frame, args []Value) Value { return nil }
		}
		return nil
	}
	// nd package: natives
	if strings.HasSuffix(p, "/nd") && strings.HasPrefix(p, "verif/") {
		if in, ok := ndIntrinsics[f.Name()]; ok {
			return in
		}
	}
	if p == "reflect" {
		if in := reflectIntrinsic(fi); in != nil {
			return in
		}
		if reflectPure[name] || strings.HasSuffix(name, "$bound") && f.Blocks != nil {
			return nil
		}
		return func(w *W, fr *Frame, args []Value) Value {
			unsupported("reflect function %s at %s", name, w.trace())
			return nil
		}
	}
	if p == "sync/atomic" || p == "internal/runtime/atomic" {
		if in := atomicIntrinsic(f.Name()); in != nil && f.Blocks == nil {
			return in
		}
	}
	return nil
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func nop(w *W, fr *Frame, args []Value) Value { return nil }

func ident(w *W, fr *Frame, args []Value) Value { return args[0] }

func float1(name string, f func(float64) float64) {
	reg(name, func(w *W, fr *Frame, a []Value) Value {
		x, ok := a[0].(float64)
		if !ok {
			unsupported("%s on symbolic float", name)
		}
		return f(x)
	})
}

func tuple(vs ...Value) Value { return &Struct{vs} }

func atomicIntrinsic(n string) intrinsic {
	quiet := func(f intrinsic) intrinsic {
		return func(w *W, fr *Frame, a []Value) Value {
			m, r := w.monitor, w.race
			w.monitor, w.race = false, nil
			v := f(w, fr, a)
			w.monitor, w.race = m, r
			return v
		}
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return quiet(func(w *W, fr *Frame, a []Value) Value { return w.load(a[0].(*Cell)) })
	case strings.HasPrefix(n, "Store"):
		return quiet(func(w *W, fr *Frame, a []Value) Value { w.store(a[0].(*Cell), a[1]); return nil })
	case strings.HasPrefix(n, "Swap"):
		return quiet(func(w *W, fr *Frame, a []Value) Value {
			o := w.load(a[0].(*Cell))
			w.store(a[0].(*Cell), a[1])
			return o
		})
	case strings.HasPrefix(n, "CompareAndSwap"):
		return quiet(func(w *W, fr *Frame, a []Value) Value {
			o := w.load(a[0].(*Cell))
			var eq bool
			switch x := o.(type) {
			case uint64:
				y, ok := a[1].(uint64)
				eq = ok && x == y
			default:
				eq = ptrEq(o, a[1])
			}
			if eq {
				w.store(a[0].(*Cell), a[2])
			}
			return eq
		})
	case strings.HasPrefix(n, "Add"):
		s := Sort(64)
		if strings.HasSuffix(n, "32") {
			s = 32
		}
		return quiet(func(w *W, fr *Frame, a []Value) Value {
			o := w.load(a[0].(*Cell)).(uint64)
			v := (o + a[1].(uint64)) & mask(s)
			w.store(a[0].(*Cell), v)
			return v
		})
	case strings.HasPrefix(n, "And"), strings.HasPrefix(n, "Or"):
		and := strings.HasPrefix(n, "And")
		return quiet(func(w *W, fr *Frame, a []Value) Value {
			o := w.load(a[0].(*Cell)).(uint64)
			v := o | a[1].(uint64)
			if and {
				v = o & a[1].(uint64)
			}
			w.store(a[0].(*Cell), v)
			return o
		})
	}
	return nil
}

func (w *W) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	return w.strEq(mkStr(a), mkStr(b))
}

func (w *W) cmp3(a, b Value) Value {
	// -1,0,1
	lt, gt := w.strLess(a, b), w.strLess(b, a)
	x, ok1 := lt.(bool)
	y, ok2 := gt.(bool)
	if ok1 && ok2 {
		switch {
		case x:
			return ^uint64(0)
		case y:
			return uint64(1)
		}
		return uint64(0)
	}
	return val(w.tc.Ite(w.term(lt, SBool), w.tc.Const(64, ^uint64(0)), w.tc.Ite(w.term(gt, SBool), w.tc.Const(64, 1), w.tc.Const(64, 0))))
}

func init() {
	// ---- runtime and friends
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "runtime.procyield",
		"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write", "internal/race.Errors",
		"sync.runtime_registerPoolCleanup", "sync.throw", "sync.fatal", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault"} {
		reg(n, nop)
	}
	lock := func(w *W, fr *Frame, a []Value) Value {
		w.monLocks++
		w.race.lock(a[0], true)
		return nil
	}
	unlock := func(w *W, fr *Frame, a []Value) Value {
		w.monLocks--
		w.race.unlock(a[0], true)
		return nil
	}
	rlock := func(w *W, fr *Frame, a []Value) Value { w.race.lock(a[0], false); return nil }
	runlock := func(w *W, fr *Frame, a []Value) Value { w.race.unlock(a[0], false); return nil }
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", rlock)
	reg("(*sync.RWMutex).RUnlock", runlock)
	reg("(*sync.Mutex).TryLock", func(w *W, fr *Frame, a []Value) Value { lock(w, fr, a); return true })
	reg("(*internal/sync.Mutex).Lock", nop)
	reg("(*internal/sync.Mutex).Unlock", nop)
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("strings.noescape", ident)
	reg("internal/godebug.New", func(w *W, fr *Frame, a []Value) Value { return (*Cell)(nil) })
	reg("(*internal/godebug.Setting).Value", func(w *W, fr *Frame, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("(*sync.Pool).Put", nop)
	reg("(*sync.Pool).Get", func(w *W, fr *Frame, a []Value) Value {
		c := a[0].(*Cell)
		agg := c.v.(*Agg)
		// New is the last field
		n := agg.cells[len(agg.cells)-1].v.(*Closure)
		if n == nil {
			return nilIface
		}
		return w.callClosure(n, nil)
	})
	reg("(*sync.Once).Do", func(w *W, fr *Frame, a []Value) Value {
		c := a[0].(*Cell)
		d := &c.v.(*Agg).cells[1] // done atomic.Uint32 (after noCopy)
		fl := d
		for {
			x, ok := fl.v.(*Agg)
			if !ok {
				break
			}
			fl = &x.cells[len(x.cells)-1]
		}
		if fl.v == uint64(0) {
			m, r := w.monitor, w.race
			w.monitor, w.race = false, nil
			w.store(fl, uint64(1))
			w.callClosure(a[1].(*Closure), nil)
			w.monitor, w.race = m, r
		}
		return nil
	})
	// ---- sync.Map as a plain map kept in a side table
	syncMap := func(w *W, a Value) *MapV {
		c := a.(*Cell)
		side := w.side
		if !w.initDone || c.ser <= w.initSer {
			side = w.initSide
			if w.initDone {
				unsupportedIfMissing := side[c] == nil
				_ = unsupportedIfMissing
			}
		}
		if m, ok := side[c].(*MapV); ok {
			return m
		}
		any := w.eng.tAny
		m := &MapV{kt: any, vt: any, idx: map[any2]int{}, ser: c.ser}
		side[c] = m
		if w.initDone && c.ser <= w.initSer {
			w.undo = append(w.undo, undoRec{f: func() { delete(w.initSide, c) }})
		}
		return m
	}
	quietMap := func(w *W, f func()) {
		m, r := w.monitor, w.race
		w.monitor, w.race = false, nil
		f()
		w.monitor, w.race = m, r
	}
	reg("(*sync.Map).Load", func(w *W, fr *Frame, a []Value) Value {
		e := w.mapFind(syncMap(w, a[0]), a[1])
		if e == nil {
			return tuple(nilIface, false)
		}
		return tuple(e.v, true)
	})
	reg("(*sync.Map).Store", func(w *W, fr *Frame, a []Value) Value {
		quietMap(w, func() { w.mapSet(syncMap(w, a[0]), a[1], a[2]) })
		return nil
	})
	reg("(*sync.Map).Delete", func(w *W, fr *Frame, a []Value) Value {
		quietMap(w, func() { w.mapDelete(syncMap(w, a[0]), a[1]) })
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(w *W, fr *Frame, a []Value) Value {
		m := syncMap(w, a[0])
		e := w.mapFind(m, a[1])
		if e == nil {
			quietMap(w, func() { w.mapSet(m, a[1], a[2]) })
			return tuple(a[2], false)
		}
		return tuple(e.v, true)
	})
	reg("(*sync.Map).Range", func(w *W, fr *Frame, a []Value) Value {
		m := syncMap(w, a[0])
		for _, e := range append([]*mapEnt{}, m.ents...) {
			if e.deleted {
				continue
			}
			if !w.truth(w.callClosure(a[1].(*Closure), []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// ---- bytealg
	reg("internal/bytealg.IndexByteString", func(w *W, fr *Frame, a []Value) Value {
		n := strLen(a[0])
		for i := 0; i < n; i++ {
			if w.truth(w.equal(w.eng.tUint8, strByte(a[0], i), a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	reg("internal/bytealg.IndexByte", func(w *W, fr *Frame, a []Value) Value {
		for i, b := range w.sliceBytes(a[0]) {
			if w.truth(w.equal(w.eng.tUint8, b, a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	count := func(w *W, bs []Value, c Value) Value {
		n := w.tc.Const(64, 0)
		for _, b := range bs {
			n = w.tc.Bin(OAdd, n, w.tc.Ite(w.tc.Eq(w.term(b, 8), w.term(c, 8)), w.tc.Const(64, 1), w.tc.Const(64, 0)))
		}
		return val(n)
	}
	reg("internal/bytealg.CountString", func(w *W, fr *Frame, a []Value) Value { return count(w, strBytes(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(w *W, fr *Frame, a []Value) Value { return count(w, w.sliceBytes(a[0]), a[1]) })
	reg("internal/bytealg.Equal", func(w *W, fr *Frame, a []Value) Value { return w.bytesEq(w.sliceBytes(a[0]), w.sliceBytes(a[1])) })
	reg("bytes.Equal", func(w *W, fr *Frame, a []Value) Value { return w.bytesEq(w.sliceBytes(a[0]), w.sliceBytes(a[1])) })
	reg("internal/bytealg.Compare", func(w *W, fr *Frame, a []Value) Value {
		return w.cmp3(mkStr(w.sliceBytes(a[0])), mkStr(w.sliceBytes(a[1])))
	})
	reg("internal/bytealg.CompareString", func(w *W, fr *Frame, a []Value) Value { return w.cmp3(a[0], a[1]) })
	reg("internal/bytealg.abigen_runtime_cmpstring", func(w *W, fr *Frame, a []Value) Value { return w.cmp3(a[0], a[1]) })
	reg("internal/bytealg.MakeNoZero", func(w *W, fr *Frame, a []Value) Value {
		n := int(w.conc(a[0], 64))
		cp := roundupsize(n)
		w.ser++
		return &SliceV{w.newArrayAgg(w.eng.tUint8, cp), 0, n, cp}
	})
	index := func(w *W, s, sub Value) Value {
		n, m := strLen(s), strLen(sub)
		for i := 0; i+m <= n; i++ {
			if w.truth(w.strEq(strSlice(s, i, i+m), sub)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	reg("internal/bytealg.IndexString", func(w *W, fr *Frame, a []Value) Value { return index(w, a[0], a[1]) })
	reg("internal/bytealg.Index", func(w *W, fr *Frame, a []Value) Value {
		return index(w, mkStr(w.sliceBytes(a[0])), mkStr(w.sliceBytes(a[1])))
	})
	reg("strings.Index", func(w *W, fr *Frame, a []Value) Value { return index(w, a[0], a[1]) })

	// ---- math
	float1("math.archFloor", math.Floor)
	float1("math.archCeil", math.Ceil)
	float1("math.archTrunc", math.Trunc)
	float1("math.archSqrt", math.Sqrt)
	float1("math.archExp", math.Exp)
	float1("math.archLog", math.Log)
	round := func(name string, k uint64, f func(float64) float64) {
		reg(name, func(w *W, fr *Frame, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			return val(w.tc.app(OFRound, SF64, k, a[0].(*Term), nil, nil))
		})
	}
	round("math.Floor", 0, math.Floor)
	round("math.Ceil", 1, math.Ceil)
	round("math.Trunc", 2, math.Trunc)
	round("math.RoundToEven", 3, math.RoundToEven)
	reg("math.Abs", func(w *W, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Abs(x)
		}
		return val(w.tc.app(OFAbs, SF64, 0, a[0].(*Term), nil, nil))
	})
	reg("math.Sqrt", func(w *W, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Sqrt(x)
		}
		return val(w.tc.app(OFSqrt, SF64, 0, a[0].(*Term), nil, nil))
	})
	reg("math.Modf", func(w *W, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			i, f := math.Modf(x)
			return tuple(i, f)
		}
		// int part: truncation; frac = x - trunc(x), with the sign of x; Inf gives (Inf, NaN)
		t := a[0].(*Term)
		tr := w.tc.app(OFRound, SF64, 2, t, nil, nil)
		return tuple(val(tr), val(w.tc.app(OFSub, SF64, 0, t, tr, nil)))
	})
	float64bits := func(w *W, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Float64bits(x)
		}
		return val(w.bitsOf(a[0].(*Term)))
	}
	float32bits := func(w *W, fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return uint64(math.Float32bits(float32(x)))
		}
		return val(w.bitsOf(a[0].(*Term)))
	}
	float64frombits := func(w *W, fr *Frame, a []Value) Value { return w.fromBits(a[0], SF64) }
	float32frombits := func(w *W, fr *Frame, a []Value) Value { return w.fromBits(a[0], SF32) }
	reg("math.Float64bits", float64bits)
	reg("math.Float32bits", float32bits)
	reg("math.Float64frombits", float64frombits)
	reg("math.Float32frombits", float32frombits)
	reg("internal/strconv.float64bits", float64bits)
	reg("internal/strconv.float32bits", float32bits)
	reg("internal/strconv.float64frombits", float64frombits)
	reg("internal/strconv.float32frombits", float32frombits)
	reg("math.FMA", func(w *W, fr *Frame, a []Value) Value {
		return math.FMA(a[0].(float64), a[1].(float64), a[2].(float64))
	})
	reg("math/bits.Mul64", func(w *W, fr *Frame, a []Value) Value {
		x, ok1 := a[0].(uint64)
		y, ok2 := a[1].(uint64)
		if !ok1 || !ok2 {
			unsupported("symbolic bits.Mul64")
		}
		h, l := bits.Mul64(x, y)
		return tuple(h, l)
	})

	// ---- time
	reg("time.now", func(w *W, fr *Frame, a []Value) Value { return tuple(uint64(1600000000), uint64(0), uint64(1)) })
	reg("time.runtimeNano", func(w *W, fr *Frame, a []Value) Value { return uint64(1) })
	reg("time.runtimeNow", func(w *W, fr *Frame, a []Value) Value { return tuple(uint64(1600000000), uint64(0), uint64(1)) })
	reg("time.initLocal", func(w *W, fr *Frame, a []Value) Value { return nil })
	reg("syscall.Getenv", func(w *W, fr *Frame, a []Value) Value { return tuple("", false) })
	reg("os.Getenv", func(w *W, fr *Frame, a []Value) Value { return "" })
	reg("runtime.Callers", func(w *W, fr *Frame, a []Value) Value { return uint64(0) })
	reg("internal/stringslite.Clone", ident)
	reg("strings.Clone", ident)
	reg("runtime.GOMAXPROCS", func(w *W, fr *Frame, a []Value) Value { return uint64(1) })

	// unsafe identity hashing of comparable values is not modelled
	reg("(*os.File).Write", func(w *W, fr *Frame, a []Value) Value {
		return tuple(uint64(a[1].(*SliceV).len), nilIface)
	})
	// strconv float formatting of symbolic values is not modelled; the interpreter
	// executes the source for concrete ones.
	reg("strconv.FormatFloat", func(w *W, fr *Frame, a []Value) Value {
		f := w.oneFloat(a[0], "FormatFloat of a symbolic value")
		fm := byte(w.conc(a[1], 8))
		pr := int(sx(w.conc(a[2], 64), 64))
		bs := int(w.conc(a[3], 64))
		return fmtFloat(f, fm, pr, bs)
	})
	reg("strconv.AppendFloat", func(w *W, fr *Frame, a []Value) Value {
		s := fmtFloat(w.oneFloat(a[1], "AppendFloat of a symbolic value"), byte(w.conc(a[2], 8)), int(sx(w.conc(a[3], 64), 64)), int(w.conc(a[4], 64)))
		return w.appendVals(w.eng.tBytes, a[0].(*SliceV), strBytes(s))
	})
}

// oneFloat gives the value of a float that the path allows. What lies beyond it isn't decided, and
// ends as unsupported unless the path allows no other value.
func (w *W) oneFloat(v Value, what string) float64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(float64)
	}
	if t.sort == SF32 {
		t = w.tc.app(OFFromF, SF64, 0, t, nil, nil)
	}
	var x uint64
	if w.pos < len(w.prefix) {
		x = w.prefix[w.pos].v
	} else {
		x = w.eval(t)
	}
	f := math.Float64frombits(x)
	c := w.tc.Cmp(OFEq, t, w.tc.Const(SF64, x))
	switch {
	case f != f:
		c = w.tc.Not(w.tc.Cmp(OFEq, t, t))
	case f == 0:
		// the sign of a zero
		c = w.tc.Eq(w.bitsOf(t), w.tc.Const(64, x))
	}
	if !w.branchV(c, x) {
		unsupported("%s", what)
	}
	return f
}

type any2 = any

// ---------------------------------------------------------------- nd package

var ndIntrinsics = map[string]intrinsic{}

func init() {
	ints := map[string]Sort{"Int64": 64, "Int": 64, "Uint64": 64, "Uint": 64, "Int32": 32, "Uint32": 32, "Int16": 16, "Uint16": 16, "Int8": 8, "Uint8": 8, "Byte": 8}
	for n, s := range ints {
		n, s := n, s
		ndIntrinsics[n] = func(w *W, fr *Frame, a []Value) Value {
			t := w.newVar(n, s)
			w.nd = append(w.nd, ndRec{kind: n, t: t})
			return t
		}
	}
	ndIntrinsics["Bool"] = func(w *W, fr *Frame, a []Value) Value {
		t := w.newVar("Bool", SBool)
		w.nd = append(w.nd, ndRec{kind: "Bool", t: t})
		return t
	}
	ndIntrinsics["Float64"] = func(w *W, fr *Frame, a []Value) Value {
		t := w.newVar("Float64", 64)
		w.nd = append(w.nd, ndRec{kind: "Float64", t: t})
		return val(w.tc.app(OFFromBits, SF64, 0, t, nil, nil))
	}
	ndIntrinsics["Float32"] = func(w *W, fr *Frame, a []Value) Value {
		t := w.newVar("Float32", 32)
		w.nd = append(w.nd, ndRec{kind: "Float32", t: t})
		return val(w.tc.app(OFFromBits, SF32, 0, t, nil, nil))
	}
	ndIntrinsics["Choice"] = func(w *W, fr *Frame, a []Value) Value {
		return uint64(w.choice(int(w.conc(a[0], 64)), "Choice"))
	}
	// StringN(n): n symbolic bytes
	ndIntrinsics["StringN"] = func(w *W, fr *Frame, a []Value) Value {
		n := int(w.conc(a[0], 64))
		b := make([]Value, n)
		for i := range b {
			t := w.newVar("Byte", 8)
			w.nd = append(w.nd, ndRec{kind: "Byte", t: t})
			b[i] = t
		}
		return mkStr(b)
	}
	ndIntrinsics["Assume"] = func(w *W, fr *Frame, a []Value) Value { w.assumeCond(a[0]); return nil }
	ndIntrinsics["Assert"] = func(w *W, fr *Frame, a []Value) Value {
		l, _ := a[1].(string)
		w.assertCond(a[0], l)
		return nil
	}
	ndIntrinsics["Reach"] = func(w *W, fr *Frame, a []Value) Value {
		l, _ := a[0].(string)
		w.h.mu.Lock()
		w.h.reach[l]++
		w.reached = append(w.reached, l)
		w.h.mu.Unlock()
		return nil
	}
	ndIntrinsics["Symbolic"] = func(w *W, fr *Frame, a []Value) Value { return true }
	ndIntrinsics["Concrete"] = func(w *W, fr *Frame, a []Value) Value { return w.conc(a[0], 64) }
	// And/Or/Not/Ite without forking
	ndIntrinsics["And"] = func(w *W, fr *Frame, a []Value) Value { return w.and(a[0], a[1]) }
	ndIntrinsics["Or"] = func(w *W, fr *Frame, a []Value) Value { return w.not(w.and(w.not(a[0]), w.not(a[1]))) }
	ndIntrinsics["Thorough"] = func(w *W, fr *Frame, a []Value) Value { return w.eng.thorough }
	// ReadOnly(f): runs f, as each of two threads would; a conflicting pair of accesses, at least one of them a
	// write, to memory that existed before, with no lock that orders them, is a violation
	ndIntrinsics["ReadOnly"] = func(w *W, fr *Frame, a []Value) Value {
		if w.monitor {
			unsupported("nested ReadOnly")
		}
		w.monitor = true
		w.monSer = w.ser
		w.monLocks = 0
		w.monHits = nil
		w.race = &raceMon{acc: map[any][]access{}}
		lbl, _ := a[0].(string)
		w.callClosure(a[1].(*Closure), nil)
		w.monitor = false
		w.race = nil
		if len(w.monHits) > 0 {
			w.violation("write", "shared write: "+lbl, strings.Join(w.monHits, " | "), w.model)
		}
		atomic.AddInt64(&w.h.asserts, 1)
		return nil
	}
	// SharedStringer etc. may be added here
	_ = fmt.Sprint
}

// held is a lock that is held, exclusively or shared.
type held struct {
	l  any
	ex bool
}

// access is a kind of access to a location: write or not, and the locks held.
type access struct {
	write bool
	locks []held
}

// raceMon keeps the accesses of one thread, and finds those that conflict with each other when two threads make them.
type raceMon struct {
	locks []held
	acc   map[any][]access
}

func (r *raceMon) lock(l any, ex bool) {
	if r != nil {
		r.locks = append(append([]held{}, r.locks...), held{l, ex})
	}
}

func (r *raceMon) unlock(l any, ex bool) {
	if r == nil {
		return
	}
	for i := len(r.locks) - 1; i >= 0; i-- {
		if r.locks[i] == (held{l, ex}) {
			r.locks = append(append([]held{}, r.locks[:i]...), r.locks[i+1:]...)
			return
		}
	}
}

// ordered reports whether some lock orders accesses made with the given locks held
func ordered(a, b []held) bool {
	for _, x := range a {
		for _, y := range b {
			if x.l == y.l && (x.ex || y.ex) {
				return true
			}
		}
	}
	return false
}

func (r *raceMon) note(w *W, o any, write bool) {
	as := r.acc[o]
	for _, x := range as {
		if x.write == write && len(x.locks) == len(r.locks) && (len(r.locks) == 0 || &x.locks[0] == &r.locks[0] || ordered(x.locks, r.locks) && len(r.locks) == 1) {
			return
		}
	}
	n := access{write, r.locks}
	as = append(as, n)
	r.acc[o] = as
	for _, x := range as {
		if (x.write || write) && !ordered(x.locks, r.locks) && len(w.monHits) < 4 {
			w.monHits = append(w.monHits, w.trace())
			return
		}
	}
}

func (r *raceMon) read(w *W, c *Cell) {
	if c.ser > w.monSer {
		return
	}
	if a, ok := c.v.(*Agg); ok {
		for i := range a.cells {
			r.read(w, &a.cells[i])
		}
		return
	}
	r.note(w, c, false)
}

func (r *raceMon) write(w *W, c *Cell) {
	if c.ser <= w.monSer {
		r.note(w, c, true)
	}
}

func (r *raceMon) readObj(w *W, o any, ser uint32) {
	if ser <= w.monSer {
		r.note(w, o, false)
	}
}

func (r *raceMon) writeObj(w *W, o any, ser uint32) {
	if ser <= w.monSer {
		r.note(w, o, true)
	}
}
