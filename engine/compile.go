package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opndKind uint8

const (
	oNone opndKind = iota
	oConst
	oReg
	oGlobal
)

type opnd struct {
	kind opndKind
	idx  int
	v    Value
}

type icode uint8

const (
	iAlloc icode = iota
	iBinOp
	iUnNot
	iUnNeg
	iUnXor
	iDeref
	iRecv
	iCall
	iInvoke
	iBuiltin
	iChangeInterface
	iChangeType
	iConvert
	iMultiConvert
	iSliceToArrPtr
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iDefer
	iSelect
	iSend
	iSlice
	iStore
	iTypeAssert
	iNop
	iUnsupported
)

// Inst is a pre-resolved instruction.
type Inst struct {
	op      icode
	dst     int
	a, b, c opnd
	d       opnd
	args    []opnd
	ti, ti2 *TInfo
	tok     token.Token
	n       int
	flag    bool
	flag2   bool
	callee  *FnInfo
	method  *types.Func
	in      ssa.Instruction
	name    string
	iface   *types.Interface
	sub     *Inst // defer / go: the call
	cacheT  *TInfo
	x       any
}

type Block struct {
	insts []Inst
	phis  []phi
	succs []int
	preds []int
	merge *mergeInfo // terminator If can be merged when the condition is symbolic
}

type phi struct {
	dst   int
	edges []opnd
	ti    *TInfo
}

type FnInfo struct {
	eng     *Engine
	fn      *ssa.Function
	name    string
	once    sync.Once
	nreg    int
	nparam  int
	blocks  []*Block
	hasDef  bool
	recover int // recover block index or -1
	intr    func(w *W, fr *Frame, args []Value) Value
	pre     func(w *W, args []Value) // runs before the body
	inRepo  bool
	results *types.Tuple
	resTI   []*TInfo
	id      int
	zeroRes Value
	noBody  bool
}

type mergeInfo struct {
	// if cond { side } ; join.  sides: 0=then,1=else; -1 = direct edge to join
	join  int
	thenB int // block index or -1 when the then edge goes directly to join
	elseB int
	predT int // predecessor index in join.preds for the then path
	predE int
}

func (e *Engine) Fn(f *ssa.Function) *FnInfo {
	e.fnMu.RLock()
	fi := e.fns[f]
	e.fnMu.RUnlock()
	if fi != nil {
		return fi
	}
	e.fnMu.Lock()
	defer e.fnMu.Unlock()
	if fi := e.fns[f]; fi != nil {
		return fi
	}
	fi = &FnInfo{eng: e, fn: f, name: f.String(), id: len(e.fns)}
	fi.inRepo = e.isRepo(f)
	e.fns[f] = fi
	return fi
}

func pkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (e *Engine) isRepo(f *ssa.Function) bool {
	p := pkgPath(f)
	return strings.HasPrefix(p, e.repoModule)
}

func (fi *FnInfo) ensure() {
	fi.once.Do(func() { fi.compile() })
}

func (fi *FnInfo) compile() {
	f := fi.fn
	e := fi.eng
	fi.recover = -1
	if in := lookupIntrinsic(fi); in != nil {
		fi.intr = in
		return
	}
	fi.pre = preHooks[fi.name]
	e.ssaMu.Lock()
	if f.Blocks == nil && f.Pkg != nil {
		// body not built?
		f.Pkg.Build()
	}
	e.ssaMu.Unlock()
	if f.Blocks == nil {
		fi.noBody = true
		return
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		fi.resTI = append(fi.resTI, e.tt.Get(res.At(i).Type()))
	}
	slot := map[ssa.Value]int{}
	n := 0
	for _, p := range f.Params {
		slot[p] = n
		n++
	}
	fi.nparam = n
	for _, p := range f.FreeVars {
		slot[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slot[v] = n
				n++
			}
		}
	}
	fi.nreg = n
	opn := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{kind: oConst, v: e.constVal(x)}
		case *ssa.Global:
			return opnd{kind: oGlobal, idx: e.globalIdx(x)}
		case *ssa.Function:
			return opnd{kind: oConst, v: &Closure{fn: e.Fn(x)}}
		case *ssa.Builtin:
			return opnd{}
		}
		i, ok := slot[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v, f))
		}
		return opnd{kind: oReg, idx: i}
	}
	T := e.tt.Get
	for _, b := range f.Blocks {
		blk := &Block{}
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
		}
		for _, s := range b.Preds {
			blk.preds = append(blk.preds, s.Index)
		}
		for _, in := range b.Instrs {
			var I Inst
			I.in = in
			I.dst = -1
			if v, ok := in.(ssa.Value); ok {
				I.dst = slot[v]
			}
			switch x := in.(type) {
			case *ssa.Phi:
				p := phi{dst: I.dst, ti: T(x.Type())}
				for _, ed := range x.Edges {
					p.edges = append(p.edges, opn(ed))
				}
				blk.phis = append(blk.phis, p)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				I.op = iAlloc
				I.ti = T(x.Type()).elem
			case *ssa.BinOp:
				I.op = iBinOp
				I.tok = x.Op
				I.a, I.b = opn(x.X), opn(x.Y)
				I.ti = T(x.X.Type())
				I.ti2 = T(x.Y.Type())
				if c, ok := x.X.(*ssa.Const); ok && c.Value == nil && I.ti.kind == KUnsafePtr {
					I.ti = I.ti2
				}
			case *ssa.UnOp:
				I.a = opn(x.X)
				I.ti = T(x.X.Type())
				switch x.Op {
				case token.NOT:
					I.op = iUnNot
				case token.SUB:
					I.op = iUnNeg
				case token.XOR:
					I.op = iUnXor
				case token.MUL:
					I.op = iDeref
				case token.ARROW:
					I.op = iRecv
					I.flag = x.CommaOk
				}
			case *ssa.Call:
				fi.compileCall(&I, &x.Call, opn)
			case *ssa.ChangeInterface:
				I.op = iChangeInterface
				I.a = opn(x.X)
			case *ssa.ChangeType:
				I.op = iChangeType
				I.a = opn(x.X)
			case *ssa.Convert:
				I.op = iConvert
				I.a = opn(x.X)
				I.ti, I.ti2 = T(x.X.Type()), T(x.Type())
			case *ssa.MultiConvert:
				I.op = iConvert
				I.a = opn(x.X)
				I.ti, I.ti2 = T(x.X.Type()), T(x.Type())
			case *ssa.SliceToArrayPointer:
				I.op = iSliceToArrPtr
				I.a = opn(x.X)
				I.ti = T(x.Type()).elem
			case *ssa.Extract:
				I.op = iExtract
				I.a = opn(x.Tuple)
				I.n = x.Index
			case *ssa.Field:
				I.op = iField
				I.a = opn(x.X)
				I.n = x.Field
			case *ssa.FieldAddr:
				I.op = iFieldAddr
				I.a = opn(x.X)
				I.n = x.Field
			case *ssa.Go:
				I.op = iGo
				I.sub = &Inst{in: in, dst: -1}
				fi.compileCall(I.sub, &x.Call, opn)
			case *ssa.Defer:
				I.op = iDefer
				I.sub = &Inst{in: in, dst: -1}
				fi.compileCall(I.sub, &x.Call, opn)
				fi.hasDef = true
				if x.DeferStack != nil {
					I.op = iUnsupported
				}
			case *ssa.If:
				I.op = iIf
				I.a = opn(x.Cond)
			case *ssa.Index:
				I.op = iIndex
				I.a, I.b = opn(x.X), opn(x.Index)
				I.ti, I.ti2 = T(x.X.Type()), T(x.Index.Type())
			case *ssa.IndexAddr:
				I.op = iIndexAddr
				I.a, I.b = opn(x.X), opn(x.Index)
				I.ti, I.ti2 = T(x.X.Type()), T(x.Index.Type())
				// an address used only by loads can be read symbolically
				I.flag = onlyLoads(x)
			case *ssa.Jump:
				I.op = iJump
			case *ssa.Lookup:
				I.op = iLookup
				I.a, I.b = opn(x.X), opn(x.Index)
				I.ti, I.ti2 = T(x.X.Type()), T(x.Index.Type())
				I.flag = x.CommaOk
			case *ssa.MakeChan:
				I.op = iMakeChan
				I.a = opn(x.Size)
				I.ti = T(x.Type())
			case *ssa.MakeClosure:
				I.op = iMakeClosure
				I.callee = e.Fn(x.Fn.(*ssa.Function))
				for _, bnd := range x.Bindings {
					I.args = append(I.args, opn(bnd))
				}
			case *ssa.MakeInterface:
				I.op = iMakeInterface
				I.a = opn(x.X)
				I.ti = T(x.X.Type())
			case *ssa.MakeMap:
				I.op = iMakeMap
				I.ti = T(x.Type())
			case *ssa.MakeSlice:
				I.op = iMakeSlice
				I.a, I.b = opn(x.Len), opn(x.Cap)
				I.ti = T(x.Type())
			case *ssa.MapUpdate:
				I.op = iMapUpdate
				I.a, I.b, I.c = opn(x.Map), opn(x.Key), opn(x.Value)
			case *ssa.Next:
				I.op = iNext
				I.a = opn(x.Iter)
				I.flag = x.IsString
				I.ti = T(x.Type())
			case *ssa.Panic:
				I.op = iPanic
				I.a = opn(x.X)
			case *ssa.Range:
				I.op = iRange
				I.a = opn(x.X)
				I.ti = T(x.X.Type())
			case *ssa.Return:
				I.op = iReturn
				for _, r := range x.Results {
					I.args = append(I.args, opn(r))
				}
			case *ssa.RunDefers:
				I.op = iRunDefers
			case *ssa.Select:
				I.op = iUnsupported
			case *ssa.Send:
				I.op = iSend
				I.a, I.b = opn(x.Chan), opn(x.X)
			case *ssa.Slice:
				I.op = iSlice
				I.a, I.b, I.c, I.d = opn(x.X), opn(x.Low), opn(x.High), opn(x.Max)
				I.ti = T(x.X.Type())
			case *ssa.Store:
				I.op = iStore
				I.a, I.b = opn(x.Addr), opn(x.Val)
			case *ssa.TypeAssert:
				I.op = iTypeAssert
				I.a = opn(x.X)
				I.ti = T(x.AssertedType)
				I.flag = x.CommaOk
				if I.ti.kind == KIface {
					I.iface = I.ti.u.(*types.Interface)
				}
			default:
				I.op = iUnsupported
			}
			blk.insts = append(blk.insts, I)
		}
		fi.blocks = append(fi.blocks, blk)
	}
	if f.Recover != nil {
		fi.recover = f.Recover.Index
	}
	fi.findMerges()
}

func onlyLoads(x *ssa.IndexAddr) bool {
	refs := x.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
	}
	return true
}

func (fi *FnInfo) compileCall(I *Inst, c *ssa.CallCommon, opn func(ssa.Value) opnd) {
	e := fi.eng
	for _, a := range c.Args {
		I.args = append(I.args, opn(a))
	}
	if c.IsInvoke() {
		I.op = iInvoke
		I.a = opn(c.Value)
		I.method = c.Method
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		I.op = iBuiltin
		I.name = f.Name()
		if len(c.Args) > 0 {
			I.ti = e.tt.Get(c.Args[0].Type())
		}
		if len(c.Args) > 1 {
			I.ti2 = e.tt.Get(c.Args[1].Type())
		}
		if v := c.Signature().Results(); v != nil && v.Len() == 1 {
			I.x = e.tt.Get(v.At(0).Type())
		}
	case *ssa.Function:
		I.op = iCall
		I.callee = e.Fn(f)
	default:
		I.op = iCall
		I.a = opn(c.Value)
	}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	ti := e.tt.Get(c.Type())
	if c.Value == nil {
		if ti.kind == KInvalid {
			return nil
		}
		return zero(ti)
	}
	switch ti.kind {
	case KBool:
		return constant.BoolVal(c.Value)
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(ti.sort)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(ti.sort)
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.sort == SF32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			f = float64(f32)
		}
		return f
	case KComplex:
		v := constant.ToComplex(c.Value)
		re, _ := constant.Float64Val(constant.Real(v))
		im, _ := constant.Float64Val(constant.Imag(v))
		return complex(re, im)
	case KString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case KUnsafePtr:
		return (*Cell)(nil)
	case KIface:
		// untyped const converted to interface does not occur
	}
	panic(fmt.Sprintf("constVal %s %s", c, ti))
}

func (e *Engine) globalIdx(g *ssa.Global) int {
	e.fnMu.Lock()
	defer e.fnMu.Unlock()
	if i, ok := e.globIdx[g]; ok {
		return i
	}
	i := len(e.globs)
	e.globIdx[g] = i
	e.globs = append(e.globs, g)
	return i
}

// findMerges finds If terminators whose sides are pure, total and small, joining
// at a common block: with a symbolic condition they become ITE instead of a fork.
func (fi *FnInfo) findMerges() {
	pure := func(b *Block) bool {
		if len(b.phis) > 0 || len(b.preds) != 1 || len(b.insts) > 12 {
			return false
		}
		for i := range b.insts {
			in := &b.insts[i]
			switch in.op {
			case iJump:
				return i == len(b.insts)-1
			case iBinOp:
				if in.ti.kind != KInt && in.ti.kind != KBool && in.ti.kind != KFloat {
					return false
				}
				if in.tok == token.QUO || in.tok == token.REM {
					if in.ti.kind != KFloat {
						return false
					}
				}
				if in.tok == token.SHL || in.tok == token.SHR {
					if in.ti2.signed && in.b.kind != oConst {
						return false
					}
				}
			case iUnNot, iUnNeg, iUnXor, iNop:
			case iConvert:
				k1, k2 := in.ti.kind, in.ti2.kind
				if !(k1 == KInt || k1 == KFloat) || !(k2 == KInt || k2 == KFloat) {
					return false
				}
			default:
				return false
			}
		}
		return false
	}
	for bi, b := range fi.blocks {
		if len(b.insts) == 0 {
			continue
		}
		last := &b.insts[len(b.insts)-1]
		if last.op != iIf {
			continue
		}
		t, f := b.succs[0], b.succs[1]
		m := &mergeInfo{thenB: -1, elseB: -1}
		if t == f {
			continue
		}
		tb, fb := fi.blocks[t], fi.blocks[f]
		tp, fp := pure(tb), pure(fb)
		switch {
		case tp && fp && tb.succs[0] == fb.succs[0]:
			m.join, m.thenB, m.elseB = tb.succs[0], t, f
		case tp && tb.succs[0] == f:
			m.join, m.thenB = f, t
		case fp && fb.succs[0] == t:
			m.join, m.elseB = t, f
		default:
			continue
		}
		jb := fi.blocks[m.join]
		ok := true
		for _, p := range jb.phis {
			switch p.ti.kind {
			case KBool, KInt, KFloat:
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		find := func(p int) int {
			for i, x := range jb.preds {
				if x == p {
					return i
				}
			}
			return -1
		}
		pt, pe := bi, bi
		if m.thenB >= 0 {
			pt = m.thenB
		}
		if m.elseB >= 0 {
			pe = m.elseB
		}
		m.predT, m.predE = find(pt), find(pe)
		if m.predT < 0 || m.predE < 0 {
			continue
		}
		b.merge = m
	}
}

var _ = math.Pi
