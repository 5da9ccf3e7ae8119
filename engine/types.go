package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt // all integer kinds, uintptr
	KFloat
	KComplex
	KString
	KUnsafePtr
	KPtr
	KStruct
	KArray
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KTuple
	KOpaque // reflect.Value
	KRangeIter
)

// TInfo is canonical per identical types.Type (shared by all workers).
type TInfo struct {
	t      types.Type
	u      types.Type
	id     int
	kind   Kind
	sort   Sort // scalar sort
	signed bool
	elem   *TInfo // ptr, slice, array, map value, chan
	key    *TInfo
	fields []*TInfo
	n      int // array length
	size   int64
	ptr    *TInfo
	basic  types.BasicKind

	mu      sync.Mutex
	methods map[string]*ssa.Function
	msets   map[*types.Interface]bool
}

func (t *TInfo) String() string { return types.TypeString(t.t, nil) }

type TypeTable struct {
	mu    sync.Mutex
	m     typeutil.Map
	n     int
	prog  *ssa.Program
	sizes types.Sizes
}

func (tt *TypeTable) Get(t types.Type) *TInfo {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.get(t)
}

func (tt *TypeTable) get(t types.Type) *TInfo {
	t = types.Unalias(t)
	if x := tt.m.At(t); x != nil {
		return x.(*TInfo)
	}
	ti := &TInfo{t: t, u: t.Underlying(), id: tt.n}
	tt.n++
	tt.m.Set(t, ti)
	switch u := ti.u.(type) {
	case *types.Basic:
		ti.basic = u.Kind()
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind, ti.sort = KBool, SBool
		case types.Int8:
			ti.kind, ti.sort, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.sort, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.sort, ti.signed = KInt, 32, true
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.sort, ti.signed = KInt, 64, true
		case types.Uint8:
			ti.kind, ti.sort = KInt, 8
		case types.Uint16:
			ti.kind, ti.sort = KInt, 16
		case types.Uint32:
			ti.kind, ti.sort = KInt, 32
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.sort = KInt, 64
		case types.Float32:
			ti.kind, ti.sort = KFloat, SF32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.sort = KFloat, SF64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer, types.UntypedNil:
			ti.kind = KUnsafePtr
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = tt.get(u.Elem())
	case *types.Struct:
		ti.kind = KStruct
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "reflect" || n.Obj().Pkg().Path() == "internal/reflectlite") && n.Obj().Name() == "Value" {
			ti.kind = KOpaque
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tt.get(u.Field(i).Type()))
		}
	case *types.Array:
		ti.kind = KArray
		ti.elem = tt.get(u.Elem())
		ti.n = int(u.Len())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = tt.get(u.Elem())
	case *types.Map:
		ti.kind = KMap
		ti.key = tt.get(u.Key())
		ti.elem = tt.get(u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ti.elem = tt.get(u.Elem())
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KIface
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tt.get(u.At(i).Type()))
		}
	default:
		// type params and internal ssa types: leave invalid
		ti.kind = KInvalid
	}
	if ti.kind != KInvalid && ti.kind != KTuple {
		func() {
			defer func() { recover() }()
			ti.size = tt.sizes.Sizeof(t)
		}()
	}
	return ti
}

func (tt *TypeTable) PtrTo(ti *TInfo) *TInfo {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if ti.ptr == nil {
		ti.ptr = tt.get(types.NewPointer(ti.t))
	}
	return ti.ptr
}

// Implements reports whether ti implements iface (cached).
func (tt *TypeTable) Implements(ti *TInfo, iface *types.Interface) bool {
	ti.mu.Lock()
	defer ti.mu.Unlock()
	if b, ok := ti.msets[iface]; ok {
		return b
	}
	b := types.Implements(ti.t, iface)
	if ti.msets == nil {
		ti.msets = map[*types.Interface]bool{}
	}
	ti.msets[iface] = b
	return b
}

// Method finds the concrete implementation for an invoked method.
func (tt *TypeTable) Method(ti *TInfo, m *types.Func) *ssa.Function {
	key := m.Id()
	ti.mu.Lock()
	defer ti.mu.Unlock()
	if f, ok := ti.methods[key]; ok {
		return f
	}
	sel := types.NewMethodSet(ti.t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	tt.mu.Lock()
	f := tt.prog.MethodValue(sel)
	tt.mu.Unlock()
	if f == nil {
		panic(fmt.Sprintf("no method %s on %s", m.Name(), ti))
	}
	if ti.methods == nil {
		ti.methods = map[string]*ssa.Function{}
	}
	ti.methods[key] = f
	return f
}
