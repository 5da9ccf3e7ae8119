package main

import (
	"fmt"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = any

// Cell is one memory location. Aggregates (struct, array) hold an *Agg.
type Cell struct {
	v   Value
	ser uint32
}

// Agg is a block of cells: a struct, an array or the backing store of a slice.
type Agg struct {
	cells []Cell
}

// Struct is an immutable register value of struct, array or tuple type.
type Struct struct {
	f []Value
}

type SliceV struct {
	agg           *Agg
	off, len, cap int
}

// BytePtr is the result of unsafe.SliceData/StringData.
type BytePtr struct {
	agg *Agg
	off int
	str Value // string data
}

type SymStr struct {
	b []Value // uint64 or *Term(BV8)
}

type Iface struct {
	t *TInfo
	v Value
}

type Closure struct {
	fn  *FnInfo
	env []Value
	nat func(w *W, args []Value) Value // native function (reflect.MakeFunc and the like)
}

type mapEnt struct {
	k, v    Value
	deleted bool
}

type MapV struct {
	kt, vt *TInfo
	ents   []*mapEnt
	idx    map[any]int
	nsym   int // entries with symbolic keys
	n      int
	ser    uint32
}

type mapIter struct {
	m   *MapV
	pos int
	key *TInfo
}

type strIter struct {
	s   Value
	pos int
}

type targetPanic struct {
	v     Value // *Iface
	trace string
}

// pathEnd terminates a path (assumption failed, budget, ...)
type pathEnd struct {
	why string // "" = infeasible assumption
	inc bool   // inconclusive
}

type engineErr struct{ msg string }

func unsupported(f string, a ...any) {
	panic(&pathEnd{why: "unsupported: " + fmt.Sprintf(f, a...), inc: true})
}

var nilIface *Iface

func concStr(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strByte(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strByte")
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(uint64))
	}
	return string(bs)
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

func strSlice(v Value, i, j int) Value {
	switch s := v.(type) {
	case string:
		return s[i:j]
	case *SymStr:
		return mkStr(s.b[i:j:j])
	}
	panic("strSlice")
}

func strCat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	ab, bb := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(ab)+len(bb))
	r = append(append(r, ab...), bb...)
	return &SymStr{r}
}

// zero returns the register zero value of a type.
func zero(ti *TInfo) Value {
	switch ti.kind {
	case KBool:
		return false
	case KInt:
		return uint64(0)
	case KFloat:
		return float64(0)
	case KComplex:
		return complex128(0)
	case KString:
		return ""
	case KPtr:
		return (*Cell)(nil)
	case KUnsafePtr:
		return (*Cell)(nil)
	case KSlice:
		return (*SliceV)(nil)
	case KMap:
		return (*MapV)(nil)
	case KChan:
		return (*ChanV)(nil)
	case KFunc:
		return (*Closure)(nil)
	case KIface:
		return nilIface
	case KOpaque:
		return (*RV)(nil)
	case KStruct, KTuple:
		s := &Struct{make([]Value, len(ti.fields))}
		for i, f := range ti.fields {
			s.f[i] = zero(f)
		}
		return s
	case KArray:
		s := &Struct{make([]Value, ti.n)}
		for i := range s.f {
			s.f[i] = zero(ti.elem)
		}
		return s
	}
	panic("zero of " + ti.String())
}

type ChanV struct {
	buf []Value
	cap int
	ser uint32
}

// newCellVal makes the memory content of a cell for a zero value of the type.
func (w *W) zeroMem(ti *TInfo) Value {
	switch ti.kind {
	case KStruct:
		return w.newStructAgg(ti)
	case KArray:
		return w.newArrayAgg(ti.elem, ti.n)
	}
	return zero(ti)
}

func (w *W) newStructAgg(ti *TInfo) *Agg {
	a := &Agg{cells: make([]Cell, len(ti.fields))}
	ser := w.ser
	for i, f := range ti.fields {
		c := &a.cells[i]
		c.ser = ser
		c.v = w.zeroMem(f)
	}
	return a
}

func (w *W) newArrayAgg(elem *TInfo, n int) *Agg {
	a := &Agg{cells: make([]Cell, n)}
	ser := w.ser
	agg := elem.kind == KStruct || elem.kind == KArray
	var z Value
	if !agg {
		z = zero(elem)
	}
	for i := range a.cells {
		c := &a.cells[i]
		c.ser = ser
		if agg {
			c.v = w.zeroMem(elem)
		} else {
			c.v = z
		}
	}
	return a
}

func (w *W) newCell(ti *TInfo) *Cell {
	w.ser++
	return &Cell{v: w.zeroMem(ti), ser: w.ser}
}

// memOf converts a register value to fresh memory content.
func (w *W) memOf(ti *TInfo, v Value) Value {
	switch ti.kind {
	case KStruct:
		s := v.(*Struct)
		a := &Agg{cells: make([]Cell, len(s.f))}
		for i, f := range ti.fields {
			a.cells[i].ser = w.ser
			a.cells[i].v = w.memOf(f, s.f[i])
		}
		return a
	case KArray:
		s := v.(*Struct)
		a := &Agg{cells: make([]Cell, len(s.f))}
		for i := range s.f {
			a.cells[i].ser = w.ser
			a.cells[i].v = w.memOf(ti.elem, s.f[i])
		}
		return a
	}
	return v
}

func (w *W) newCellVal(ti *TInfo, v Value) *Cell {
	w.ser++
	return &Cell{v: w.memOf(ti, v), ser: w.ser}
}

func snap(v Value) Value {
	a, ok := v.(*Agg)
	if !ok {
		return v
	}
	s := &Struct{make([]Value, len(a.cells))}
	for i := range a.cells {
		cv := a.cells[i].v
		if _, ok := cv.(*Agg); ok {
			cv = snap(cv)
		}
		s.f[i] = cv
	}
	return s
}

func (w *W) load(c *Cell) Value {
	if c == nil {
		w.nilDeref()
	}
	if w.race != nil {
		w.race.read(w, c)
	}
	if a, ok := c.v.(*Agg); ok {
		return snap(a)
	}
	return c.v
}

func (w *W) store(c *Cell, v Value) {
	if c == nil {
		w.nilDeref()
	}
	if s, ok := v.(*Struct); ok {
		if a, ok := c.v.(*Agg); ok {
			for i := range a.cells {
				w.store(&a.cells[i], s.f[i])
			}
			return
		}
		panic("store struct to non-agg")
	}
	if c.ser <= w.initSer {
		if w.initDone {
			w.undo = append(w.undo, undoRec{c: c, v: c.v})
		}
	}
	if w.race != nil {
		w.race.write(w, c)
	}
	c.v = v
}

type undoRec struct {
	c *Cell
	v Value
	f func()
}

// ---------------------------------------------------------------- scalars

func (w *W) term(v Value, s Sort) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return w.tc.Bool(x)
	case uint64:
		return w.tc.Const(s, x)
	case float64:
		if s == SF32 {
			return w.tc.Const(SF32, uint64(math.Float32bits(float32(x))))
		}
		return w.tc.Const(SF64, math.Float64bits(x))
	}
	panic(fmt.Sprintf("term of %T", v))
}

// val converts a term back to a concrete value if it is a constant.
func val(t *Term) Value {
	if t.op != OConst {
		return t
	}
	switch {
	case t.sort == SBool:
		return t.k != 0
	case t.sort == SF64:
		return math.Float64frombits(t.k)
	case t.sort == SF32:
		return float64(math.Float32frombits(uint32(t.k)))
	}
	return t.k
}

func isSym(v Value) bool {
	_, ok := v.(*Term)
	return ok
}

// ---------------------------------------------------------------- equality

func (w *W) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return val(w.tc.And(a.(*Term), b.(*Term)))
}

func (w *W) not(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return val(w.tc.Not(a.(*Term)))
}

func (w *W) strEq(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	r := w.tc.tr
	for i := 0; i < n; i++ {
		r = w.tc.And(r, w.tc.Eq(w.term(strByte(a, i), 8), w.term(strByte(b, i), 8)))
		if r == w.tc.fa {
			break
		}
	}
	return val(r)
}

// strLess: a < b lexicographically
func (w *W) strLess(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	n, m := strLen(a), strLen(b)
	k := n
	if m < k {
		k = m
	}
	r := w.tc.Bool(n < m)
	for i := k - 1; i >= 0; i-- {
		p, q := w.term(strByte(a, i), 8), w.term(strByte(b, i), 8)
		r = w.tc.Ite(w.tc.Eq(p, q), r, w.tc.Cmp(OUlt, p, q))
	}
	return val(r)
}

func (w *W) equal(ti *TInfo, a, b Value) Value {
	switch ti.kind {
	case KBool, KInt:
		if x, ok := a.(uint64); ok {
			if y, ok := b.(uint64); ok {
				return x == y
			}
		} else if x, ok := a.(bool); ok {
			if y, ok := b.(bool); ok {
				return x == y
			}
		}
		return val(w.tc.Eq(w.term(a, ti.sort), w.term(b, ti.sort)))
	case KFloat:
		if x, ok := a.(float64); ok {
			if y, ok := b.(float64); ok {
				return x == y
			}
		}
		return val(w.tc.Cmp(OFEq, w.term(a, ti.sort), w.term(b, ti.sort)))
	case KComplex:
		return a.(complex128) == b.(complex128)
	case KString:
		return w.strEq(a, b)
	case KPtr, KUnsafePtr:
		return ptrEq(a, b)
	case KChan:
		return a.(*ChanV) == b.(*ChanV)
	case KFunc:
		return isNilVal(a) && isNilVal(b)
	case KSlice, KMap:
		// only comparable to nil in valid code
		if isNilVal(a) || isNilVal(b) {
			return isNilVal(a) && isNilVal(b)
		}
		w.throwRT("comparing uncomparable type " + ti.String())
	case KIface:
		return w.ifaceEq(a.(*Iface), b.(*Iface))
	case KStruct:
		x, y := a.(*Struct), b.(*Struct)
		var r Value = true
		for i, f := range ti.fields {
			r = w.and(r, w.equal(f, x.f[i], y.f[i]))
			if r == false {
				return false
			}
		}
		return r
	case KArray:
		x, y := a.(*Struct), b.(*Struct)
		var r Value = true
		for i := range x.f {
			r = w.and(r, w.equal(ti.elem, x.f[i], y.f[i]))
			if r == false {
				return false
			}
		}
		return r
	}
	unsupported("equal on %s", ti)
	return nil
}

func ptrEq(a, b Value) bool {
	if x, ok := a.(*BytePtr); ok {
		y, ok := b.(*BytePtr)
		return ok && x.agg == y.agg && x.off == y.off
	}
	if isNilVal(a) && isNilVal(b) {
		return true
	}
	return a == b
}

func (w *W) ifaceEq(x, y *Iface) Value {
	if x == nil || y == nil {
		return x == y
	}
	if x.t != y.t {
		return false
	}
	return w.equal(x.t, x.v, y.v)
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Cell:
		return x == nil
	case *SliceV:
		return x == nil
	case *MapV:
		return x == nil
	case *ChanV:
		return x == nil
	case *Closure:
		return x == nil
	case *Iface:
		return x == nil
	case *BytePtr:
		return x == nil
	}
	return false
}

// ---------------------------------------------------------------- maps

type hkIface struct {
	t *TInfo
	k any
}
type nanKey struct{ p *byte }

// hkey gives a comparable host key for a concrete value.
func hkey(ti *TInfo, v Value) (any, bool) {
	switch ti.kind {
	case KBool, KInt, KString:
		switch v.(type) {
		case *Term, *SymStr:
			return nil, false
		}
		return v, true
	case KFloat:
		f, ok := v.(float64)
		if !ok {
			return nil, false
		}
		if f == 0 {
			return float64(0), true
		}
		if f != f {
			return nanKey{new(byte)}, true
		}
		return f, true
	case KPtr, KUnsafePtr, KChan:
		if bp, ok := v.(*BytePtr); ok {
			return *bp, true
		}
		return v, true
	case KIface:
		i := v.(*Iface)
		if i == nil {
			return nil, true
		}
		k, ok := hkey(i.t, i.v)
		return hkIface{i.t, k}, ok
	case KStruct:
		s := v.(*Struct)
		var sb strings.Builder
		for i, f := range ti.fields {
			k, ok := hkey(f, s.f[i])
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T|%v|", k, k)
		}
		return sb.String(), true
	case KArray:
		s := v.(*Struct)
		var sb strings.Builder
		for i := range s.f {
			k, ok := hkey(ti.elem, s.f[i])
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T|%v|", k, k)
		}
		return sb.String(), true
	}
	return nil, false
}

func (w *W) newMap(ti *TInfo) *MapV {
	w.ser++
	return &MapV{kt: ti.key, vt: ti.elem, idx: map[any]int{}, ser: w.ser}
}

func (w *W) checkHashable(ti *TInfo, k Value) {
	if ti.kind == KIface {
		if i := k.(*Iface); i != nil {
			switch i.t.kind {
			case KSlice, KMap, KFunc:
				w.throwRT("hash of unhashable type " + i.t.String())
			}
		}
	}
}

func (w *W) mapFind(m *MapV, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if w.race != nil {
		w.race.readObj(w, m, m.ser)
	}
	w.checkHashable(m.kt, k)
	hk, conc := hkey(m.kt, k)
	if conc {
		if i, ok := m.idx[hk]; ok {
			return m.ents[i]
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if conc {
			if _, c := hkey(m.kt, e.k); c {
				continue
			}
		}
		if w.truth(w.equal(m.kt, k, e.k)) {
			return e
		}
	}
	return nil
}

func (w *W) noteMapWrite(m *MapV) {
	if m.ser <= w.initSer && w.initDone {
		// save a full copy
		ents := make([]*mapEnt, len(m.ents))
		for i, e := range m.ents {
			c := *e
			ents[i] = &c
		}
		idx := make(map[any]int, len(m.idx))
		for k, v := range m.idx {
			idx[k] = v
		}
		nsym, n := m.nsym, m.n
		w.undo = append(w.undo, undoRec{f: func() { m.ents, m.idx, m.nsym, m.n = ents, idx, nsym, n }})
	}
	if w.race != nil {
		w.race.writeObj(w, m, m.ser)
	}
}

func (w *W) mapSet(m *MapV, k, v Value) {
	if m == nil {
		w.throwPlain("assignment to entry in nil map")
	}
	e := w.mapFind(m, k)
	w.noteMapWrite(m)
	if e != nil {
		// after noteMapWrite the entry object is still the live one
		e.v = v
		return
	}
	hk, conc := hkey(m.kt, k)
	if conc {
		m.idx[hk] = len(m.ents)
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, &mapEnt{k: k, v: v})
	m.n++
}

func (w *W) mapDelete(m *MapV, k Value) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	w.noteMapWrite(m)
	hk, conc := hkey(m.kt, e.k)
	if conc {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	e.deleted = true
	m.n--
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	return f.String()
}
