package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"
)

// RV models reflect.Value: either an addressable location c or a value v of type t.
type RV struct {
	t  *TInfo
	v  Value
	c  *Cell
	ro bool
}

type rvMapIter struct {
	m    *RV
	it   *mapIter
	k, v Value
}

var reflectPure = map[string]bool{
	"(reflect.Kind).String": true, "(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true,
	"(*reflect.ValueError).Error": true, "(reflect.StructField).IsExported": true, "(reflect.Method).IsExported": true,
	"(reflect.ChanDir).String": true, "(*reflect.StructTag).Get": true,
}

func (w *W) rtype(ti *TInfo) Value {
	if ti == nil {
		return nilIface
	}
	return &Iface{w.eng.tRtype, ti}
}

func (w *W) rstr(s string) { // reflect-style string panic
	panic(&targetPanic{v: &Iface{w.eng.tString, s}, trace: w.trace()})
}

func typeOfArg(v Value) *TInfo {
	i, _ := v.(*Iface)
	if i == nil {
		return nil
	}
	return i.v.(*TInfo)
}

func rkind(ti *TInfo) reflect.Kind {
	switch ti.kind {
	case KBool:
		return reflect.Bool
	case KInt, KFloat, KComplex, KString, KUnsafePtr:
		switch ti.basic {
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case KPtr:
		return reflect.Ptr
	case KStruct, KOpaque:
		return reflect.Struct
	case KArray:
		return reflect.Array
	case KSlice:
		return reflect.Slice
	case KMap:
		return reflect.Map
	case KChan:
		return reflect.Chan
	case KFunc:
		return reflect.Func
	case KIface:
		return reflect.Interface
	}
	return reflect.Invalid
}

// rtString renders a type the way reflect does.
func rtString(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Basic:
		return x.Name()
	case *types.Named:
		s := x.Obj().Name()
		if x.Obj().Pkg() != nil {
			s = x.Obj().Pkg().Name() + "." + s
		}
		if ta := x.TypeArgs(); ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				as = append(as, rtString(ta.At(i)))
			}
			s += "[" + strings.Join(as, ",") + "]"
		}
		return s
	case *types.Pointer:
		return "*" + rtString(x.Elem())
	case *types.Slice:
		return "[]" + rtString(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), rtString(x.Elem()))
	case *types.Map:
		return "map[" + rtString(x.Key()) + "]" + rtString(x.Elem())
	case *types.Chan:
		switch x.Dir() {
		case types.SendOnly:
			return "chan<- " + rtString(x.Elem())
		case types.RecvOnly:
			return "<-chan " + rtString(x.Elem())
		}
		return "chan " + rtString(x.Elem())
	case *types.Signature:
		return "func" + sigString(x)
	case *types.Interface:
		if x.NumMethods() == 0 {
			return "interface {}"
		}
		var ms []string
		for i := 0; i < x.NumMethods(); i++ {
			m := x.Method(i)
			ms = append(ms, m.Name()+sigString(m.Type().(*types.Signature)))
		}
		return "interface { " + strings.Join(ms, "; ") + " }"
	case *types.Struct:
		if x.NumFields() == 0 {
			return "struct {}"
		}
		var fs []string
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			s := f.Name() + " " + rtString(f.Type())
			if f.Anonymous() {
				s = rtString(f.Type())
			}
			if x.Tag(i) != "" {
				s += fmt.Sprintf(" %q", x.Tag(i))
			}
			fs = append(fs, s)
		}
		return "struct { " + strings.Join(fs, "; ") + " }"
	}
	return t.String()
}

func sigString(s *types.Signature) string {
	var ps []string
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		if s.Variadic() && i == s.Params().Len()-1 {
			ps = append(ps, "..."+rtString(t.(*types.Slice).Elem()))
		} else {
			ps = append(ps, rtString(t))
		}
	}
	r := "(" + strings.Join(ps, ", ") + ")"
	switch n := s.Results().Len(); {
	case n == 1:
		r += " " + rtString(s.Results().At(0).Type())
	case n > 1:
		var rs []string
		for i := 0; i < n; i++ {
			rs = append(rs, rtString(s.Results().At(i).Type()))
		}
		r += " (" + strings.Join(rs, ", ") + ")"
	}
	return r
}

func exportedMethods(ti *TInfo) []*types.Selection {
	ms := types.NewMethodSet(ti.t)
	var r []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			r = append(r, ms.At(i))
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Obj().Name() < r[j].Obj().Name() })
	return r
}

func (w *W) rvGet(r *RV) Value {
	if r.c != nil {
		return w.load(r.c)
	}
	return r.v
}

func (w *W) rvIface(r *RV) *Iface {
	v := w.rvGet(r)
	if r.t.kind == KIface {
		return v.(*Iface)
	}
	return &Iface{r.t, v}
}

func (w *W) rvOf(v Value) *RV {
	i := v.(*Iface)
	if i == nil {
		return nil
	}
	return &RV{t: i.t, v: i.v}
}

// assignTo converts r for assignment to type t.
func (w *W) assignTo(r *RV, t *TInfo) Value {
	if r == nil {
		w.rstr("reflect: call of reflect.Value.Set on zero Value")
	}
	if r.t == t {
		return w.rvGet(r)
	}
	if !types.AssignableTo(r.t.t, t.t) {
		w.rstr("reflect.Set: value of type " + rtString(r.t.t) + " is not assignable to type " + rtString(t.t))
	}
	if t.kind == KIface {
		return w.rvIface(r)
	}
	return w.rvGet(r)
}

func (w *W) rvElem(r *RV) *RV {
	if r == nil {
		w.rstr("reflect: call of reflect.Value.Elem on zero Value")
	}
	switch r.t.kind {
	case KIface:
		i := w.rvGet(r).(*Iface)
		if i == nil {
			return nil
		}
		return &RV{t: i.t, v: i.v, ro: r.ro}
	case KPtr:
		p := w.rvGet(r)
		if isNilVal(p) {
			return nil
		}
		c, ok := p.(*Cell)
		if !ok {
			unsupported("reflect Elem of %T", p)
		}
		return &RV{t: r.t.elem, c: c, ro: r.ro}
	}
	w.rstr("reflect: call of reflect.Value.Elem on " + rkind(r.t).String() + " Value")
	return nil
}

func (w *W) rvField(r *RV, i int) *RV {
	if r.t.kind != KStruct {
		w.rstr("reflect: call of reflect.Value.Field on " + rkind(r.t).String() + " Value")
	}
	if i < 0 || i >= len(r.t.fields) {
		w.rstr("reflect: Field index out of range")
	}
	f := r.t.u.(*types.Struct).Field(i)
	ro := r.ro || !f.Exported()
	if r.c != nil {
		return &RV{t: r.t.fields[i], c: &r.c.v.(*Agg).cells[i], ro: ro}
	}
	return &RV{t: r.t.fields[i], v: r.v.(*Struct).f[i], ro: ro}
}

func (w *W) rvIndex(r *RV, i int) *RV {
	switch r.t.kind {
	case KSlice:
		s := w.rvGet(r).(*SliceV)
		if s == nil || i < 0 || i >= s.len {
			w.rstr("reflect: slice index out of range")
		}
		return &RV{t: r.t.elem, c: &s.agg.cells[s.off+i], ro: r.ro}
	case KArray:
		if i < 0 || i >= r.t.n {
			w.rstr("reflect: array index out of range")
		}
		if r.c != nil {
			return &RV{t: r.t.elem, c: &r.c.v.(*Agg).cells[i], ro: r.ro}
		}
		return &RV{t: r.t.elem, v: r.v.(*Struct).f[i], ro: r.ro}
	case KString:
		return &RV{t: w.eng.tUint8, v: strByte(w.rvGet(r), i), ro: r.ro}
	}
	w.rstr("reflect: call of reflect.Value.Index on " + rkind(r.t).String() + " Value")
	return nil
}

func (w *W) mustSet(r *RV) {
	if r == nil || r.c == nil {
		w.rstr("reflect: reflect.Value.Set using unaddressable value")
	}
	if r.ro {
		w.rstr("reflect: reflect.Value.Set using value obtained using unexported field")
	}
}

func (w *W) rvLen(r *RV) Value {
	v := w.rvGet(r)
	switch x := v.(type) {
	case string, *SymStr:
		return uint64(strLen(x))
	case *SliceV:
		if x == nil {
			return uint64(0)
		}
		return uint64(x.len)
	case *MapV:
		if x == nil {
			return uint64(0)
		}
		return uint64(x.n)
	case *Struct:
		if r.t.kind == KArray {
			return uint64(len(x.f))
		}
	case *ChanV:
		if x == nil {
			return uint64(0)
		}
		return uint64(len(x.buf))
	case *Cell:
		if r.t.kind == KPtr && r.t.elem.kind == KArray {
			return uint64(r.t.elem.n)
		}
	}
	w.rstr("reflect: call of reflect.Value.Len on " + rkind(r.t).String() + " Value")
	return nil
}

// address returns the address of what x points to: the same for the same, and different for different things.
func (w *W) address(x any) Value {
	if w.addrs == nil {
		w.addrs = map[any]uint64{}
	}
	a, ok := w.addrs[x]
	if !ok {
		a = 0xc000010000 + uint64(len(w.addrs))*64
		w.addrs[x] = a
	}
	return a
}

func (w *W) rvCall(r *RV, args []*RV) []Value { return w.rvCallWith(r, args, nil) }

// rvCallWith calls r; slice, when given, is what the variadic parameter gets.
func (w *W) rvCallWith(r *RV, args []*RV, slice *RV) []Value {
	sig, ok := r.t.u.(*types.Signature)
	if !ok {
		w.rstr("reflect: call of Call on " + rkind(r.t).String() + " Value")
	}
	n := sig.Params().Len()
	var in []Value
	T := w.eng.tt.Get
	if sig.Variadic() {
		if len(args) < n-1 {
			w.rstr("reflect: Call with too few input arguments")
		}
	} else if len(args) != n {
		if len(args) < n {
			w.rstr("reflect: Call with too few input arguments")
		}
		w.rstr("reflect: Call with too many input arguments")
	}
	for i := 0; i < n; i++ {
		pt := T(sig.Params().At(i).Type())
		if sig.Variadic() && i == n-1 {
			if slice != nil {
				in = append(in, w.assignTo(slice, pt))
				break
			}
			var vs []Value
			for _, a := range args[i:] {
				vs = append(vs, w.assignTo(a, pt.elem))
			}
			if len(vs) == 0 {
				in = append(in, &SliceV{agg: &Agg{}})
			} else {
				in = append(in, w.mkSlice(pt.elem, vs))
			}
			break
		}
		if args[i] == nil {
			w.rstr("reflect: Call using zero Value argument")
		}
		if args[i].ro {
			w.rstr("reflect: reflect.Value.Call using value obtained using unexported field")
		}
		if !types.AssignableTo(args[i].t.t, pt.t) {
			w.rstr("reflect: Call using " + rtString(args[i].t.t) + " as type " + rtString(pt.t))
		}
		in = append(in, w.assignTo(args[i], pt))
	}
	f := w.rvGet(r).(*Closure)
	if f == nil {
		w.rstr("reflect: call of nil function")
	}
	res := w.callClosure(f, in)
	var out []Value
	switch sig.Results().Len() {
	case 0:
	case 1:
		out = append(out, &RV{t: T(sig.Results().At(0).Type()), v: res})
	default:
		for i, v := range res.(*Struct).f {
			out = append(out, &RV{t: T(sig.Results().At(i).Type()), v: v})
		}
	}
	return out
}

// mkSlice allocates a slice with the given register values.
func (w *W) mkSlice(elem *TInfo, vs []Value) *SliceV {
	w.ser++
	agg := &Agg{cells: make([]Cell, len(vs))}
	for i, v := range vs {
		agg.cells[i].ser = w.ser
		agg.cells[i].v = w.memOf(elem, v)
	}
	return &SliceV{agg, 0, len(vs), len(vs)}
}

func (w *W) rvSlice(vs []Value) Value { return w.mkSlice(w.eng.tRValue, vs) }

func (w *W) structVal(ti *TInfo, f map[string]Value) Value {
	s := zero(ti).(*Struct)
	st := ti.u.(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := f[st.Field(i).Name()]; ok {
			s.f[i] = v
		}
	}
	return s
}

func (w *W) structField(t *TInfo, i int) Value {
	st := t.u.(*types.Struct)
	f := st.Field(i)
	pp := ""
	if !f.Exported() && f.Pkg() != nil {
		pp = f.Pkg().Path()
	}
	return w.structVal(w.eng.tStructField, map[string]Value{
		"Name": f.Name(), "PkgPath": pp, "Type": w.rtype(t.fields[i]), "Tag": st.Tag(i), "Offset": uint64(i * 8),
		"Index": w.sliceOf([]Value{uint64(i)}), "Anonymous": f.Anonymous(),
	})
}

func (w *W) rvMethod(r *RV, sel *types.Selection) *RV {
	fn := w.eng.tt.Method(r.t, sel.Obj().(*types.Func))
	fi := w.eng.Fn(fn)
	recv := w.rvGet(r)
	sig := sel.Type().(*types.Signature)
	t := w.eng.tt.Get(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
	return &RV{t: t, v: &Closure{nat: func(w *W, args []Value) Value {
		return w.call(fi, append([]Value{recv}, args...), nil, nil)
	}}}
}

func (w *W) rvConvert(r *RV, t *TInfo) *RV {
	if !types.ConvertibleTo(r.t.t, t.t) {
		w.rstr("reflect.Value.Convert: value of type " + rtString(r.t.t) + " cannot be converted to type " + rtString(t.t))
	}
	if t.kind == KIface {
		return &RV{t: t, v: w.rvIface(r)}
	}
	return &RV{t: t, v: w.convert(r.t, t, w.rvGet(r)), ro: r.ro}
}

func (w *W) deepEq(a, b *RV, d int) Value {
	if a == nil || b == nil {
		return a == b
	}
	if a.t != b.t {
		return false
	}
	if d > 100 {
		unsupported("DeepEqual depth")
	}
	x, y := w.rvGet(a), w.rvGet(b)
	var r Value = true
	switch a.t.kind {
	case KSlice:
		s1, s2 := x.(*SliceV), y.(*SliceV)
		if (s1 == nil) != (s2 == nil) {
			return false
		}
		if s1 == nil {
			return true
		}
		if s1.len != s2.len {
			return false
		}
		for i := 0; i < s1.len && r != false; i++ {
			r = w.and(r, w.deepEq(w.rvIndex(a, i), w.rvIndex(b, i), d+1))
		}
		return r
	case KArray:
		for i := 0; i < a.t.n && r != false; i++ {
			r = w.and(r, w.deepEq(w.rvIndex(a, i), w.rvIndex(b, i), d+1))
		}
		return r
	case KStruct:
		for i := range a.t.fields {
			if r == false {
				break
			}
			r = w.and(r, w.deepEq(w.rvField(a, i), w.rvField(b, i), d+1))
		}
		return r
	case KPtr:
		if ptrEq(x, y) {
			return true
		}
		return w.deepEq(w.rvElem(a), w.rvElem(b), d+1)
	case KIface:
		i, j := x.(*Iface), y.(*Iface)
		if i == nil || j == nil {
			return i == j
		}
		return w.deepEq(&RV{t: i.t, v: i.v}, &RV{t: j.t, v: j.v}, d+1)
	case KMap:
		m1, m2 := x.(*MapV), y.(*MapV)
		if (m1 == nil) != (m2 == nil) {
			return false
		}
		if m1 == m2 {
			return true
		}
		if m1.n != m2.n {
			return false
		}
		for _, e := range m1.ents {
			if e.deleted {
				continue
			}
			f := w.mapFind(m2, e.k)
			if f == nil {
				return false
			}
			r = w.and(r, w.deepEq(&RV{t: a.t.elem, v: e.v}, &RV{t: a.t.elem, v: f.v}, d+1))
		}
		return r
	case KFunc:
		return isNilVal(x) && isNilVal(y)
	}
	return w.equal(a.t, x, y)
}

func (w *W) isZero(r *RV) Value {
	v := w.rvGet(r)
	switch r.t.kind {
	case KStruct, KArray:
		var res Value = true
		n := r.t.n
		if r.t.kind == KStruct {
			n = len(r.t.fields)
		}
		for i := 0; i < n && res != false; i++ {
			if r.t.kind == KStruct {
				res = w.and(res, w.isZero(w.rvField(r, i)))
			} else {
				res = w.and(res, w.isZero(w.rvIndex(r, i)))
			}
		}
		return res
	case KBool:
		return w.not(v)
	case KInt, KString:
		return w.equal(r.t, v, zero(r.t))
	case KFloat:
		if f, ok := v.(float64); ok {
			return f == 0
		}
		return w.equal(r.t, v, float64(0))
	case KComplex:
		return v.(complex128) == 0
	}
	return isNilVal(v)
}

type rvFn func(w *W, r *RV, a []Value) Value

var valueMethods map[string]rvFn
var typeMethods map[string]func(w *W, t *TInfo, a []Value) Value

func (w *W) intArg(v Value) int { return int(sx(w.conc(v, 64), 64)) }

func (w *W) kindPanic(m string, r *RV) {
	if r == nil {
		w.rstr("reflect: call of reflect.Value." + m + " on zero Value")
	}
	w.rstr("reflect: call of reflect.Value." + m + " on " + rkind(r.t).String() + " Value")
}

func init() {
	T := func(f func(w *W, t *TInfo, a []Value) Value) func(w *W, t *TInfo, a []Value) Value { return f }
	typeMethods = map[string]func(w *W, t *TInfo, a []Value) Value{
		"String": T(func(w *W, t *TInfo, a []Value) Value { return rtString(t.t) }),
		"Name": T(func(w *W, t *TInfo, a []Value) Value {
			switch n := t.t.(type) {
			case *types.Named:
				return n.Obj().Name()
			case *types.Basic:
				return n.Name()
			}
			return ""
		}),
		"PkgPath": T(func(w *W, t *TInfo, a []Value) Value {
			if n, ok := t.t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
			return ""
		}),
		"Kind": T(func(w *W, t *TInfo, a []Value) Value { return uint64(rkind(t)) }),
		"Size": T(func(w *W, t *TInfo, a []Value) Value { return uint64(t.size) }),
		"Bits": T(func(w *W, t *TInfo, a []Value) Value { return uint64(t.size * 8) }),
		"Elem": T(func(w *W, t *TInfo, a []Value) Value {
			switch t.kind {
			case KPtr, KSlice, KArray, KMap, KChan:
				return w.rtype(t.elem)
			}
			w.rstr("reflect: Elem of invalid type " + rtString(t.t))
			return nil
		}),
		"Key": T(func(w *W, t *TInfo, a []Value) Value {
			if t.kind != KMap {
				w.rstr("reflect: Key of non-map type " + rtString(t.t))
			}
			return w.rtype(t.key)
		}),
		"Len": T(func(w *W, t *TInfo, a []Value) Value { return uint64(t.n) }),
		"NumField": T(func(w *W, t *TInfo, a []Value) Value {
			if t.kind != KStruct {
				w.rstr("reflect: NumField of non-struct type " + rtString(t.t))
			}
			return uint64(len(t.fields))
		}),
		"Field": T(func(w *W, t *TInfo, a []Value) Value { return w.structField(t, w.intArg(a[0])) }),
		"FieldByName": T(func(w *W, t *TInfo, a []Value) Value {
			st, ok := t.u.(*types.Struct)
			if !ok {
				w.rstr("reflect: FieldByName of non-struct type " + rtString(t.t))
			}
			for i := 0; i < st.NumFields(); i++ {
				if w.truth(w.strEq(st.Field(i).Name(), a[0])) {
					return tuple(w.structField(t, i), true)
				}
			}
			return tuple(zero(w.eng.tStructField), false)
		}),
		"NumMethod": T(func(w *W, t *TInfo, a []Value) Value {
			if it, ok := t.u.(*types.Interface); ok {
				return uint64(it.NumMethods())
			}
			return uint64(len(exportedMethods(t)))
		}),
		"Implements": T(func(w *W, t *TInfo, a []Value) Value {
			u := typeOfArg(a[0])
			if u == nil || u.kind != KIface {
				w.rstr("reflect: non-interface type passed to Type.Implements")
			}
			return types.Implements(t.t, u.u.(*types.Interface))
		}),
		"AssignableTo": T(func(w *W, t *TInfo, a []Value) Value {
			return types.AssignableTo(t.t, typeOfArg(a[0]).t)
		}),
		"ConvertibleTo": T(func(w *W, t *TInfo, a []Value) Value {
			return types.ConvertibleTo(t.t, typeOfArg(a[0]).t)
		}),
		"Comparable": T(func(w *W, t *TInfo, a []Value) Value { return types.Comparable(t.t) }),
		"NumIn": T(func(w *W, t *TInfo, a []Value) Value {
			return uint64(t.u.(*types.Signature).Params().Len())
		}),
		"NumOut": T(func(w *W, t *TInfo, a []Value) Value {
			return uint64(t.u.(*types.Signature).Results().Len())
		}),
		"In": T(func(w *W, t *TInfo, a []Value) Value {
			return w.rtype(w.eng.tt.Get(t.u.(*types.Signature).Params().At(w.intArg(a[0])).Type()))
		}),
		"Out": T(func(w *W, t *TInfo, a []Value) Value {
			return w.rtype(w.eng.tt.Get(t.u.(*types.Signature).Results().At(w.intArg(a[0])).Type()))
		}),
		"IsVariadic": T(func(w *W, t *TInfo, a []Value) Value { return t.u.(*types.Signature).Variadic() }),
	}
	valueMethods = map[string]rvFn{
		"IsValid": func(w *W, r *RV, a []Value) Value { return r != nil },
		"Kind": func(w *W, r *RV, a []Value) Value {
			if r == nil {
				return uint64(0)
			}
			return uint64(rkind(r.t))
		},
		"Type": func(w *W, r *RV, a []Value) Value {
			if r == nil {
				w.kindPanic("Type", r)
			}
			return w.rtype(r.t)
		},
		"CanInterface": func(w *W, r *RV, a []Value) Value {
			if r == nil {
				w.kindPanic("CanInterface", r)
			}
			return !r.ro
		},
		"CanAddr": func(w *W, r *RV, a []Value) Value { return r != nil && r.c != nil },
		"CanSet":  func(w *W, r *RV, a []Value) Value { return r != nil && r.c != nil && !r.ro },
		"CanInt": func(w *W, r *RV, a []Value) Value {
			return r != nil && r.t.kind == KInt && r.t.signed
		},
		"CanUint": func(w *W, r *RV, a []Value) Value {
			return r != nil && r.t.kind == KInt && !r.t.signed
		},
		"CanFloat": func(w *W, r *RV, a []Value) Value { return r != nil && r.t.kind == KFloat },
		"Interface": func(w *W, r *RV, a []Value) Value {
			if r == nil {
				w.kindPanic("Interface", r)
			}
			if r.ro {
				w.rstr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
			}
			return w.rvIface(r)
		},
		"Elem":  func(w *W, r *RV, a []Value) Value { return w.rvElem(r) },
		"Field": func(w *W, r *RV, a []Value) Value { return w.rvField(r, w.intArg(a[0])) },
		"FieldByName": func(w *W, r *RV, a []Value) Value {
			st, ok := r.t.u.(*types.Struct)
			if !ok {
				w.kindPanic("FieldByName", r)
			}
			for i := 0; i < st.NumFields(); i++ {
				if w.truth(w.strEq(st.Field(i).Name(), a[0])) {
					return w.rvField(r, i)
				}
			}
			return (*RV)(nil)
		},
		"NumField": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KStruct {
				w.kindPanic("NumField", r)
			}
			return uint64(len(r.t.fields))
		},
		"NumMethod": func(w *W, r *RV, a []Value) Value { return uint64(len(exportedMethods(r.t))) },
		"Method": func(w *W, r *RV, a []Value) Value {
			return w.rvMethod(r, exportedMethods(r.t)[w.intArg(a[0])])
		},
		"MethodByName": func(w *W, r *RV, a []Value) Value {
			for _, s := range exportedMethods(r.t) {
				if s.Obj().Name() == a[0] {
					return w.rvMethod(r, s)
				}
			}
			return (*RV)(nil)
		},
		"Index": func(w *W, r *RV, a []Value) Value { return w.rvIndex(r, w.intArg(a[0])) },
		"Len":   func(w *W, r *RV, a []Value) Value { return w.rvLen(r) },
		"Cap": func(w *W, r *RV, a []Value) Value {
			if s, ok := w.rvGet(r).(*SliceV); ok {
				if s == nil {
					return uint64(0)
				}
				return uint64(s.cap)
			}
			if c, ok := w.rvGet(r).(*ChanV); ok {
				if c == nil {
					return uint64(0)
				}
				return uint64(c.cap)
			}
			return uint64(r.t.n)
		},
		"IsNil": func(w *W, r *RV, a []Value) Value {
			if r == nil {
				w.kindPanic("IsNil", r)
			}
			switch r.t.kind {
			case KPtr, KMap, KSlice, KFunc, KIface, KChan, KUnsafePtr:
				return isNilVal(w.rvGet(r))
			}
			w.kindPanic("IsNil", r)
			return nil
		},
		"IsZero": func(w *W, r *RV, a []Value) Value { return w.isZero(r) },
		"Bool": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KBool {
				w.kindPanic("Bool", r)
			}
			return w.rvGet(r)
		},
		"Int": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KInt || !r.t.signed {
				w.kindPanic("Int", r)
			}
			return w.convert(r.t, w.eng.tInt, w.rvGet(r))
		},
		"Uint": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KInt || r.t.signed {
				w.kindPanic("Uint", r)
			}
			return w.convert(r.t, w.eng.tUint64, w.rvGet(r))
		},
		"Float": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KFloat {
				w.kindPanic("Float", r)
			}
			return w.convert(r.t, w.eng.tFloat64, w.rvGet(r))
		},
		"Complex": func(w *W, r *RV, a []Value) Value { return w.rvGet(r) },
		"String": func(w *W, r *RV, a []Value) Value {
			if r == nil {
				return "<invalid Value>"
			}
			if r.t.kind == KString {
				return w.rvGet(r)
			}
			return "<" + rtString(r.t.t) + " Value>"
		},
		"Bytes": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KSlice || r.t.elem.sort != 8 {
				w.kindPanic("Bytes", r)
			}
			return w.rvGet(r)
		},
		"Pointer": func(w *W, r *RV, a []Value) Value {
			switch x := w.rvGet(r).(type) {
			case *SliceV:
				if x == nil {
					return uint64(0)
				}
				if x.len == 0 && x.cap == 0 {
					return w.address(x.agg)
				}
				return w.address(&x.agg.cells[x.off])
			case *Closure:
				if x == nil {
					return uint64(0)
				}
				if x.fn != nil {
					return w.address(x.fn)
				}
				return w.address(x)
			case *Iface:
				w.kindPanic("Pointer", r)
			default:
				if isNilVal(x) {
					return uint64(0)
				}
				return w.address(x)
			}
			return nil
		},
		"Addr": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.c == nil {
				w.rstr("reflect.Value.Addr of unaddressable value")
			}
			return &RV{t: w.eng.tt.PtrTo(r.t), v: r.c, ro: r.ro}
		},
		"Set": func(w *W, r *RV, a []Value) Value {
			w.mustSet(r)
			x := a[0].(*RV)
			if x != nil && x.ro {
				w.rstr("reflect: reflect.Value.Set using value obtained using unexported field")
			}
			w.store(r.c, w.assignTo(x, r.t))
			return nil
		},
		"SetZero": func(w *W, r *RV, a []Value) Value {
			w.mustSet(r)
			w.store(r.c, zero(r.t))
			return nil
		},
		"SetBool": func(w *W, r *RV, a []Value) Value {
			w.mustSet(r)
			if r.t.kind != KBool {
				w.kindPanic("SetBool", r)
			}
			w.store(r.c, a[0])
			return nil
		},
		"SetString": func(w *W, r *RV, a []Value) Value {
			w.mustSet(r)
			if r.t.kind != KString {
				w.kindPanic("SetString", r)
			}
			w.store(r.c, a[0])
			return nil
		},
		"SetBytes": func(w *W, r *RV, a []Value) Value {
			w.mustSet(r)
			if r.t.kind != KSlice || rkind(r.t.elem) != reflect.Uint8 {
				w.kindPanic("SetBytes", r)
			}
			w.store(r.c, a[0])
			return nil
		},
		"SetInt": func(w *W, r *RV, a []Value) Value {
			w.mustSet(r)
			if r.t.kind != KInt || !r.t.signed {
				w.kindPanic("SetInt", r)
			}
			w.store(r.c, w.convert(w.eng.tInt, r.t, a[0]))
			return nil
		},
		"SetUint": func(w *W, r *RV, a []Value) Value {
			w.mustSet(r)
			if r.t.kind != KInt || r.t.signed {
				w.kindPanic("SetUint", r)
			}
			w.store(r.c, w.convert(w.eng.tUint64, r.t, a[0]))
			return nil
		},
		"SetFloat": func(w *W, r *RV, a []Value) Value {
			w.mustSet(r)
			if r.t.kind != KFloat {
				w.kindPanic("SetFloat", r)
			}
			w.store(r.c, w.convert(w.eng.tFloat64, r.t, a[0]))
			return nil
		},
		"SetLen": func(w *W, r *RV, a []Value) Value {
			w.mustSet(r)
			s := w.rvGet(r).(*SliceV)
			n := w.intArg(a[0])
			if s == nil {
				s = &SliceV{}
			}
			w.store(r.c, &SliceV{s.agg, s.off, n, s.cap})
			return nil
		},
		"Slice": func(w *W, r *RV, a []Value) Value {
			x := w.rvGet(r)
			if r.t.kind == KArray {
				x = r.c
			}
			v := w.slice(&Inst{ti: r.t}, x, a[0], a[1], nil)
			t := r.t
			if r.t.kind == KArray {
				t = w.eng.tt.Get(types.NewSlice(r.t.elem.t))
			}
			return &RV{t: t, v: v}
		},
		"MapIndex": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KMap {
				w.kindPanic("MapIndex", r)
			}
			e := w.mapFind(w.rvGet(r).(*MapV), w.assignTo(a[0].(*RV), r.t.key))
			if e == nil {
				return (*RV)(nil)
			}
			return &RV{t: r.t.elem, v: e.v, ro: r.ro}
		},
		"MapKeys": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KMap {
				w.kindPanic("MapKeys", r)
			}
			var vs []Value
			if m := w.rvGet(r).(*MapV); m != nil {
				for _, e := range m.ents {
					if !e.deleted {
						vs = append(vs, &RV{t: r.t.key, v: e.k, ro: r.ro})
					}
				}
			}
			return w.rvSlice(vs)
		},
		"MapRange": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KMap {
				w.kindPanic("MapRange", r)
			}
			w.ser++
			return &Cell{v: &rvMapIter{m: r, it: &mapIter{m: w.rvGet(r).(*MapV)}}, ser: w.ser}
		},
		"SetMapIndex": func(w *W, r *RV, a []Value) Value {
			if r == nil || r.t.kind != KMap {
				w.kindPanic("SetMapIndex", r)
			}
			k := w.assignTo(a[0].(*RV), r.t.key)
			m := w.rvGet(r).(*MapV)
			v := a[1].(*RV)
			if v == nil {
				if m != nil {
					w.mapDelete(m, k)
				}
				return nil
			}
			w.mapSet(m, k, w.assignTo(v, r.t.elem))
			return nil
		},
		"Call": func(w *W, r *RV, a []Value) Value {
			var args []*RV
			for _, x := range w.sliceElems(a[0].(*SliceV)) {
				args = append(args, x.(*RV))
			}
			return w.rvSlice(w.rvCall(r, args))
		},
		"CallSlice": func(w *W, r *RV, a []Value) Value {
			var args []*RV
			for _, x := range w.sliceElems(a[0].(*SliceV)) {
				args = append(args, x.(*RV))
			}
			sig, ok := r.t.u.(*types.Signature)
			if !ok || !sig.Variadic() {
				w.rstr("reflect: CallSlice of non-variadic function")
			}
			n := sig.Params().Len()
			if len(args) < n {
				w.rstr("reflect: CallSlice with too few input arguments")
			}
			if len(args) > n {
				w.rstr("reflect: CallSlice with too many input arguments")
			}
			last := args[n-1]
			args = args[:n-1]
			if !types.AssignableTo(last.t.t, w.eng.tt.Get(sig.Params().At(n-1).Type()).t) {
				w.rstr("reflect: CallSlice using " + rtString(last.t.t) + " as type " + rtString(sig.Params().At(n-1).Type()))
			}
			return w.rvSlice(w.rvCallWith(r, args, last))
		},
		"Convert": func(w *W, r *RV, a []Value) Value { return w.rvConvert(r, typeOfArg(a[0])) },
		"CanConvert": func(w *W, r *RV, a []Value) Value {
			return types.ConvertibleTo(r.t.t, typeOfArg(a[0]).t)
		},
		"Comparable": func(w *W, r *RV, a []Value) Value { return r == nil || types.Comparable(r.t.t) },
		"Equal": func(w *W, r *RV, a []Value) Value {
			o := a[0].(*RV)
			if r == nil || o == nil {
				return r == o
			}
			return w.ifaceEq(w.rvIface(r), w.rvIface(o))
		},
		"OverflowInt": func(w *W, r *RV, a []Value) Value {
			t := w.term(a[0], 64)
			return w.not(val(w.tc.Eq(w.tc.Resize(w.tc.Resize(t, r.t.sort, true), 64, true), t)))
		},
		"OverflowUint": func(w *W, r *RV, a []Value) Value {
			t := w.term(a[0], 64)
			return w.not(val(w.tc.Eq(w.tc.Resize(w.tc.Resize(t, r.t.sort, false), 64, false), t)))
		},
		"OverflowFloat": func(w *W, r *RV, a []Value) Value {
			if r.t.sort == SF64 {
				return false
			}
			f, ok := a[0].(float64)
			if !ok {
				x := w.tc.app(OFAbs, SF64, 0, a[0].(*Term), nil, nil)
				lim := w.tc.Const(SF64, math.Float64bits(math.MaxFloat32))
				top := w.tc.Const(SF64, math.Float64bits(math.MaxFloat64))
				return w.and(val(w.tc.Cmp(OFLt, lim, x)), val(w.tc.Cmp(OFLe, x, top)))
			}
			return reflect.ValueOf(float32(0)).OverflowFloat(f)
		},
	}

	makeMap := func(w *W, fr *Frame, a []Value) Value {
		t := typeOfArg(a[0])
		if t.kind != KMap {
			w.rstr("reflect.MakeMapWithSize of non-map type")
		}
		return &RV{t: t, v: w.newMap(t)}
	}
	fns := map[string]intrinsic{
		"TypeOf": func(w *W, fr *Frame, a []Value) Value {
			i := a[0].(*Iface)
			if i == nil {
				return nilIface
			}
			return w.rtype(i.t)
		},
		"ValueOf": func(w *W, fr *Frame, a []Value) Value { return w.rvOf(a[0]) },
		"Indirect": func(w *W, fr *Frame, a []Value) Value {
			r := a[0].(*RV)
			if r == nil || r.t.kind != KPtr {
				return r
			}
			return w.rvElem(r)
		},
		"New": func(w *W, fr *Frame, a []Value) Value {
			t := typeOfArg(a[0])
			return &RV{t: w.eng.tt.PtrTo(t), v: w.newCell(t)}
		},
		"Zero": func(w *W, fr *Frame, a []Value) Value {
			t := typeOfArg(a[0])
			return &RV{t: t, v: zero(t)}
		},
		"MakeSlice": func(w *W, fr *Frame, a []Value) Value {
			t := typeOfArg(a[0])
			if t.kind != KSlice {
				w.rstr("reflect.MakeSlice of non-slice type")
			}
			n, c := w.intArg(a[1]), w.intArg(a[2])
			if n < 0 || c < n {
				w.rstr("reflect.MakeSlice: bad len/cap")
			}
			w.ser++
			return &RV{t: t, v: &SliceV{w.newArrayAgg(t.elem, c), 0, n, c}}
		},
		"MakeMap":         makeMap,
		"MakeMapWithSize": makeMap,
		"Append": func(w *W, fr *Frame, a []Value) Value {
			r := a[0].(*RV)
			var vs []Value
			for _, x := range w.sliceElems(a[1].(*SliceV)) {
				vs = append(vs, w.assignTo(x.(*RV), r.t.elem))
			}
			return &RV{t: r.t, v: w.appendVals(r.t, w.rvGet(r).(*SliceV), vs)}
		},
		"AppendSlice": func(w *W, fr *Frame, a []Value) Value {
			r, s := a[0].(*RV), a[1].(*RV)
			return &RV{t: r.t, v: w.appendVals(r.t, w.rvGet(r).(*SliceV), w.sliceElems(w.rvGet(s).(*SliceV)))}
		},
		"Copy": func(w *W, fr *Frame, a []Value) Value {
			d, s := a[0].(*RV), a[1].(*RV)
			n := 0
			for ; n < int(w.rvLen(d).(uint64)) && n < int(w.rvLen(s).(uint64)); n++ {
				w.store(w.rvIndex(d, n).c, w.rvGet(w.rvIndex(s, n)))
			}
			return uint64(n)
		},
		"DeepEqual": func(w *W, fr *Frame, a []Value) Value { return w.deepEq(w.rvOf(a[0]), w.rvOf(a[1]), 0) },
		"PtrTo":     func(w *W, fr *Frame, a []Value) Value { return w.rtype(w.eng.tt.PtrTo(typeOfArg(a[0]))) },
		"PointerTo": func(w *W, fr *Frame, a []Value) Value { return w.rtype(w.eng.tt.PtrTo(typeOfArg(a[0]))) },
		"SliceOf": func(w *W, fr *Frame, a []Value) Value {
			return w.rtype(w.eng.tt.Get(types.NewSlice(typeOfArg(a[0]).t)))
		},
		"ArrayOf": func(w *W, fr *Frame, a []Value) Value {
			return w.rtype(w.eng.tt.Get(types.NewArray(typeOfArg(a[1]).t, int64(w.intArg(a[0])))))
		},
		"MapOf": func(w *W, fr *Frame, a []Value) Value {
			k := typeOfArg(a[0])
			if !types.Comparable(k.t) {
				w.rstr("reflect.MapOf: invalid key type " + rtString(k.t))
			}
			return w.rtype(w.eng.tt.Get(types.NewMap(k.t, typeOfArg(a[1]).t)))
		},
		"FuncOf": func(w *W, fr *Frame, a []Value) Value {
			mk := func(v Value) *types.Tuple {
				var ps []*types.Var
				for _, x := range w.sliceElems(v.(*SliceV)) {
					ps = append(ps, types.NewParam(0, nil, "", typeOfArg(x).t))
				}
				return types.NewTuple(ps...)
			}
			return w.rtype(w.eng.tt.Get(types.NewSignatureType(nil, nil, nil, mk(a[0]), mk(a[1]), a[2].(bool))))
		},
		"StructOf": func(w *W, fr *Frame, a []Value) Value {
			var fs []*types.Var
			var tags []string
			st := w.eng.tStructField.u.(*types.Struct)
			for _, x := range w.sliceElems(a[0].(*SliceV)) {
				s := x.(*Struct)
				g := func(n string) Value {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == n {
							return s.f[i]
						}
					}
					return nil
				}
				fs = append(fs, types.NewField(0, nil, g("Name").(string), typeOfArg(g("Type")).t, false))
				tags = append(tags, g("Tag").(string))
			}
			return w.rtype(w.eng.tt.Get(types.NewStruct(fs, tags)))
		},
		"MakeFunc": func(w *W, fr *Frame, a []Value) Value {
			t := typeOfArg(a[0])
			f := a[1].(*Closure)
			sig := t.u.(*types.Signature)
			return &RV{t: t, v: &Closure{nat: func(w *W, args []Value) Value {
				var in []Value
				for i, x := range args {
					in = append(in, &RV{t: w.eng.tt.Get(sig.Params().At(i).Type()), v: x})
				}
				out := w.sliceElems(w.callClosure(f, []Value{w.rvSlice(in)}).(*SliceV))
				var res []Value
				for i, o := range out {
					res = append(res, w.assignTo(o.(*RV), w.eng.tt.Get(sig.Results().At(i).Type())))
				}
				switch len(res) {
				case 0:
					return nil
				case 1:
					return res[0]
				}
				return &Struct{res}
			}}}
		},
		"Swapper": swapper,
	}
	for n, f := range fns {
		reg("reflect."+n, f)
	}
	reg("(*reflect.MapIter).Next", func(w *W, fr *Frame, a []Value) Value {
		it := a[0].(*Cell).v.(*rvMapIter)
		if it.it.m != nil {
			for it.it.pos < len(it.it.m.ents) {
				e := it.it.m.ents[it.it.pos]
				it.it.pos++
				if !e.deleted {
					it.k, it.v = e.k, e.v
					return true
				}
			}
		}
		return false
	})
	reg("(*reflect.MapIter).Key", func(w *W, fr *Frame, a []Value) Value {
		it := a[0].(*Cell).v.(*rvMapIter)
		return &RV{t: it.m.t.key, v: it.k, ro: it.m.ro}
	})
	reg("(*reflect.MapIter).Value", func(w *W, fr *Frame, a []Value) Value {
		it := a[0].(*Cell).v.(*rvMapIter)
		return &RV{t: it.m.t.elem, v: it.v, ro: it.m.ro}
	})
	reg("internal/reflectlite.Swapper", swapper)
	reg("internal/reflectlite.ValueOf", func(w *W, fr *Frame, a []Value) Value { return w.rvOf(a[0]) })
	reg("(internal/reflectlite.Value).Len", func(w *W, fr *Frame, a []Value) Value { return w.rvLen(a[0].(*RV)) })
	reg("internal/reflectlite.TypeOf", func(w *W, fr *Frame, a []Value) Value {
		i := a[0].(*Iface)
		if i == nil {
			return nilIface
		}
		return &Iface{w.eng.tRtypeLite, i.t}
	})
	for _, pre := range []string{"(internal/reflectlite.rtype).", "(*internal/reflectlite.rtype)."} {
		for n, f := range typeMethods {
			f := f
			lite := n == "Elem"
			reg(pre+n, func(w *W, fr *Frame, a []Value) Value {
				v := f(w, a[0].(*TInfo), a[1:])
				if lite {
					return &Iface{w.eng.tRtypeLite, v.(*Iface).v}
				}
				return v
			})
		}
	}
}

func swapper(w *W, fr *Frame, a []Value) Value {
	i := a[0].(*Iface)
	s := i.v.(*SliceV)
	return &Closure{nat: func(w *W, args []Value) Value {
		x := &s.agg.cells[s.off+w.intArg(args[0])]
		y := &s.agg.cells[s.off+w.intArg(args[1])]
		vx, vy := w.load(x), w.load(y)
		w.store(x, vy)
		w.store(y, vx)
		return nil
	}}
}

func reflectIntrinsic(fi *FnInfo) intrinsic {
	n := fi.name
	if strings.HasPrefix(n, "reflect.TypeFor[") && len(fi.fn.TypeArgs()) == 1 {
		ti := fi.eng.tt.Get(fi.fn.TypeArgs()[0])
		return func(w *W, fr *Frame, a []Value) Value { return w.rtype(ti) }
	}
	switch {
	case strings.HasPrefix(n, "(reflect.Value)."):
		if f := valueMethods[n[len("(reflect.Value)."):]]; f != nil {
			return func(w *W, fr *Frame, a []Value) Value { return f(w, a[0].(*RV), a[1:]) }
		}
	case strings.HasPrefix(n, "(*reflect.rtype)."):
		if f := typeMethods[n[len("(*reflect.rtype)."):]]; f != nil {
			return func(w *W, fr *Frame, a []Value) Value { return f(w, a[0].(*TInfo), a[1:]) }
		}
	case strings.HasPrefix(n, "(*reflect.Value)."):
		// wrapper for a pointer receiver: load, then call
		if f := valueMethods[n[len("(*reflect.Value)."):]]; f != nil {
			return func(w *W, fr *Frame, a []Value) Value { return f(w, w.load(a[0].(*Cell)).(*RV), a[1:]) }
		}
	}
	return nil
}
