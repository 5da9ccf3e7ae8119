package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   *FnInfo
	clo  *Closure
	args []Value
	bi   *Inst
}

type Frame struct {
	fi        *FnInfo
	regs      []Value
	caller    *Frame
	defers    []deferred
	panicking *targetPanic
	deferOf   *Frame
	done      bool
	cur       *Inst
	depth     int
}

func (w *W) get(fr *Frame, o *opnd) Value {
	switch o.kind {
	case oReg:
		return fr.regs[o.idx]
	case oConst:
		return o.v
	case oGlobal:
		return w.global(o.idx)
	}
	return nil
}

func (w *W) global(idx int) *Cell {
	if idx < len(w.globals) {
		if c := w.globals[idx]; c != nil {
			return c
		}
	}
	for idx >= len(w.globals) {
		w.globals = append(w.globals, nil)
	}
	w.eng.fnMu.RLock()
	g := w.eng.globs[idx]
	w.eng.fnMu.RUnlock()
	c := &Cell{v: w.zeroMem(w.eng.tt.Get(g.Type()).elem), ser: 0}
	if a, ok := c.v.(*Agg); ok {
		clearSer(a)
	}
	w.globals[idx] = c
	return c
}

func clearSer(a *Agg) {
	for i := range a.cells {
		a.cells[i].ser = 0
		if b, ok := a.cells[i].v.(*Agg); ok {
			clearSer(b)
		}
	}
}

// ---------------------------------------------------------------- panics

func (w *W) throwRT(msg string) {
	tp := &targetPanic{v: &Iface{t: w.eng.rtErr, v: msg}}
	tp.trace = w.trace()
	panic(tp)
}

func (w *W) throwPlain(msg string) { w.throwRT(msg) }

func (w *W) nilDeref() { w.throwRT("invalid memory address or nil pointer dereference") }

func (w *W) trace() string {
	var sb strings.Builder
	n := 0
	for fr := w.frame; fr != nil && n < 12; fr = fr.caller {
		pos := ""
		if fr.cur != nil && fr.cur.in != nil {
			p := w.eng.prog.Fset.Position(fr.cur.in.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf(" %s:%d", shortPath(p.Filename), p.Line)
			}
		}
		fmt.Fprintf(&sb, "%s%s; ", fr.fi.name, pos)
		n++
	}
	return sb.String()
}

func shortPath(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// ---------------------------------------------------------------- calls

func (w *W) call(fi *FnInfo, args []Value, env []Value, deferOf *Frame) Value {
	fi.ensure()
	if fi.intr != nil {
		return fi.intr(w, w.frame, args)
	}
	if fi.pre != nil {
		fi.pre(w, args)
	}
	if fi.noBody {
		unsupported("no body: %s", fi.name)
	}
	fr := &Frame{fi: fi, caller: w.frame, deferOf: deferOf}
	if w.frame != nil {
		fr.depth = w.frame.depth + 1
	}
	if fr.depth > w.maxDepth {
		panic(&pathEnd{why: "recursion depth > " + fmt.Sprint(w.maxDepth) + " at " + w.trace(), inc: true})
	}
	fr.regs = make([]Value, fi.nreg)
	copy(fr.regs, args)
	copy(fr.regs[fi.nparam:], env)
	if fi.inRepo {
		w.fnSeen(fi)
	}
	w.frame = fr
	var res Value
	if fi.hasDef {
		res = w.runDef(fr)
	} else {
		res = w.run(fr, 0, -1)
	}
	w.frame = fr.caller
	return res
}

func (w *W) runDef(fr *Frame) (res Value) {
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		w.frame = fr
		fr.panicking = tp
		w.runDefers(fr)
		if fr.panicking != nil {
			w.frame = fr.caller
			panic(fr.panicking)
		}
		// recovered
		if fr.fi.recover >= 0 {
			res = w.run(fr, fr.fi.recover, -1)
		} else {
			res = zeroResults(fr.fi)
		}
		w.frame = fr.caller
		fr.done = true
	}()
	res = w.run(fr, 0, -1)
	fr.done = true
	return res
}

func zeroResults(fi *FnInfo) Value {
	switch len(fi.resTI) {
	case 0:
		return nil
	case 1:
		return zero(fi.resTI[0])
	}
	s := &Struct{make([]Value, len(fi.resTI))}
	for i, t := range fi.resTI {
		s.f[i] = zero(t)
	}
	return s
}

func (w *W) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		w.runOneDefer(fr, d)
	}
}

func (w *W) runOneDefer(fr *Frame, d deferred) {
	if fr.panicking == nil {
		// normal path: a panic here propagates through runDef's handler
		w.invokeDeferred(fr, d)
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				w.frame = fr
				fr.panicking = tp
			}
		}()
		w.invokeDeferred(fr, d)
	}()
}

func (w *W) invokeDeferred(fr *Frame, d deferred) {
	if d.bi != nil {
		w.builtin(fr, d.bi, d.args)
		return
	}
	if d.clo != nil {
		if d.clo.nat != nil {
			d.clo.nat(w, d.args)
			return
		}
		w.call(d.clo.fn, d.args, d.clo.env, fr)
		return
	}
	w.call(d.fn, d.args, nil, fr)
}

func (w *W) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		w.nilDeref()
	}
	if c.nat != nil {
		return c.nat(w, args)
	}
	return w.call(c.fn, args, c.env, nil)
}

func (w *W) callMethod(recv *Iface, m *types.Func, args []Value) Value {
	fn := w.eng.tt.Method(recv.t, m)
	return w.call(w.eng.Fn(fn), append([]Value{recv.v}, args...), nil, nil)
}

func (w *W) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return w.branch(v.(*Term))
}

// ---------------------------------------------------------------- main loop

func (w *W) run(fr *Frame, bi int, prev int) Value {
	fi := fr.fi
	regs := fr.regs
	blk := fi.blocks[bi]
	var phiTmp [8]Value
	for {
		if len(blk.phis) > 0 {
			pi := -1
			for i, p := range blk.preds {
				if p == prev {
					pi = i
					break
				}
			}
			tmp := phiTmp[:0]
			for i := range blk.phis {
				tmp = append(tmp, w.get(fr, &blk.phis[i].edges[pi]))
			}
			for i := range blk.phis {
				regs[blk.phis[i].dst] = tmp[i]
			}
		}
		w.steps += int64(len(blk.insts))
		if w.steps > w.maxSteps {
			panic(&pathEnd{why: "step bound reached at " + w.trace(), inc: true})
		}
		insts := blk.insts
		next := -1
		for k := range insts {
			I := &insts[k]
			fr.cur = I
			switch I.op {
			case iJump:
				next = blk.succs[0]
			case iIf:
				c := w.get(fr, &I.a)
				b, ok := c.(bool)
				if !ok {
					t := c.(*Term)
					if blk.merge != nil {
						if kv, known := w.known(t); known {
							b = kv
						} else if w.merge(fr, bi, blk, t) {
							// phis of the join were set; continue after them
							nb := blk.merge.join
							prev = bi
							bi = nb
							blk = fi.blocks[nb]
							next = -2
							break
						} else {
							b = w.branch(t)
						}
					} else {
						b = w.branch(t)
					}
				}
				if next == -2 {
					break
				}
				if b {
					next = blk.succs[0]
				} else {
					next = blk.succs[1]
				}
			case iReturn:
				switch len(I.args) {
				case 0:
					return nil
				case 1:
					return w.get(fr, &I.args[0])
				}
				s := &Struct{make([]Value, len(I.args))}
				for i := range I.args {
					s.f[i] = w.get(fr, &I.args[i])
				}
				return s
			case iCall:
				args := make([]Value, len(I.args))
				for i := range I.args {
					args[i] = w.get(fr, &I.args[i])
				}
				if I.callee != nil {
					regs[I.dst] = w.call(I.callee, args, nil, nil)
				} else {
					regs[I.dst] = w.callClosure(w.get(fr, &I.a).(*Closure), args)
				}
			case iInvoke:
				recv := w.get(fr, &I.a).(*Iface)
				if recv == nil {
					w.nilDeref()
				}
				args := make([]Value, len(I.args)+1)
				args[0] = recv.v
				for i := range I.args {
					args[i+1] = w.get(fr, &I.args[i])
				}
				regs[I.dst] = w.call(w.lookupMethod(recv.t, I.method), args, nil, nil)
			case iDeref:
				p := w.get(fr, &I.a)
				switch c := p.(type) {
				case *Cell:
					if c == nil {
						w.nilDeref()
					}
					if w.race != nil {
						w.race.read(w, c)
					}
					if a, ok := c.v.(*Agg); ok {
						regs[I.dst] = snap(a)
					} else {
						regs[I.dst] = c.v
					}
				case *symAddr:
					regs[I.dst] = w.loadSym(c)
				case *BytePtr:
					if c.agg != nil {
						regs[I.dst] = w.load(&c.agg.cells[c.off])
					} else {
						regs[I.dst] = strByte(c.str, c.off)
					}
				default:
					unsupported("deref of %T", p)
				}
			case iFieldAddr:
				p, ok := w.get(fr, &I.a).(*Cell)
				if !ok {
					unsupported("field of %T", w.get(fr, &I.a))
				}
				if p == nil {
					w.nilDeref()
				}
				agg, ok := p.v.(*Agg)
				if !ok {
					unsupported("fieldaddr on %T", p.v)
				}
				regs[I.dst] = &agg.cells[I.n]
			case iStore:
				p, ok := w.get(fr, &I.a).(*Cell)
				if !ok {
					unsupported("store to %T", w.get(fr, &I.a))
				}
				w.store(p, w.get(fr, &I.b))
			case iBinOp:
				regs[I.dst] = w.binop(I, w.get(fr, &I.a), w.get(fr, &I.b))
			case iIndexAddr:
				regs[I.dst] = w.indexAddr(I, w.get(fr, &I.a), w.get(fr, &I.b))
			case iExtract:
				regs[I.dst] = w.get(fr, &I.a).(*Struct).f[I.n]
			case iField:
				regs[I.dst] = w.get(fr, &I.a).(*Struct).f[I.n]
			case iMakeInterface:
				regs[I.dst] = &Iface{I.ti, w.get(fr, &I.a)}
			case iChangeInterface, iChangeType:
				regs[I.dst] = w.get(fr, &I.a)
			case iTypeAssert:
				regs[I.dst] = w.typeAssert(I, w.get(fr, &I.a).(*Iface))
			case iAlloc:
				regs[I.dst] = w.newCell(I.ti)
			case iSlice:
				regs[I.dst] = w.slice(I, w.get(fr, &I.a), w.get(fr, &I.b), w.get(fr, &I.c), w.get(fr, &I.d))
			case iBuiltin:
				args := make([]Value, len(I.args))
				for i := range I.args {
					args[i] = w.get(fr, &I.args[i])
				}
				regs[I.dst] = w.builtin(fr, I, args)
			case iConvert:
				regs[I.dst] = w.convert(I.ti, I.ti2, w.get(fr, &I.a))
			case iUnNot:
				regs[I.dst] = w.not(w.get(fr, &I.a))
			case iUnNeg, iUnXor:
				regs[I.dst] = w.unop(I, w.get(fr, &I.a))
			case iMakeClosure:
				env := make([]Value, len(I.args))
				for i := range I.args {
					env[i] = w.get(fr, &I.args[i])
				}
				regs[I.dst] = &Closure{fn: I.callee, env: env}
			case iIndex:
				regs[I.dst] = w.index(I, w.get(fr, &I.a), w.get(fr, &I.b))
			case iLookup:
				regs[I.dst] = w.lookup(I, w.get(fr, &I.a), w.get(fr, &I.b))
			case iMapUpdate:
				w.mapSet(w.get(fr, &I.a).(*MapV), w.get(fr, &I.b), w.get(fr, &I.c))
			case iMakeMap:
				regs[I.dst] = w.newMap(I.ti)
			case iMakeSlice:
				n := int(sx(w.conc(w.get(fr, &I.a), 64), 64))
				c := int(sx(w.conc(w.get(fr, &I.b), 64), 64))
				if n < 0 || n > 1<<26 {
					w.throwRT("makeslice: len out of range")
				}
				if c < n {
					w.throwRT("makeslice: cap out of range")
				}
				w.ser++
				regs[I.dst] = &SliceV{w.newArrayAgg(I.ti.elem, c), 0, n, c}
			case iRange:
				x := w.get(fr, &I.a)
				if I.ti.kind == KString {
					regs[I.dst] = &strIter{s: x}
				} else {
					regs[I.dst] = &mapIter{m: x.(*MapV), key: I.ti.key}
				}
			case iNext:
				regs[I.dst] = w.next(I, w.get(fr, &I.a))
			case iDefer:
				s := I.sub
				d := deferred{}
				switch s.op {
				case iBuiltin:
					d.bi = s
				case iCall:
					if s.callee != nil {
						d.fn = s.callee
					} else {
						d.clo = w.get(fr, &s.a).(*Closure)
						if d.clo == nil {
							w.nilDeref()
						}
					}
				case iInvoke:
					recv := w.get(fr, &s.a).(*Iface)
					if recv == nil {
						w.nilDeref()
					}
					d.fn = w.lookupMethod(recv.t, s.method)
					d.args = append(d.args, recv.v)
				}
				for i := range s.args {
					d.args = append(d.args, w.get(fr, &s.args[i]))
				}
				fr.defers = append(fr.defers, d)
			case iRunDefers:
				w.runDefers(fr)
			case iPanic:
				v := w.get(fr, &I.a).(*Iface)
				if v == nil {
					w.throwRT("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(&targetPanic{v: v, trace: w.trace()})
			case iSliceToArrPtr:
				unsupported("slice to array pointer")
			case iGo:
				w.goStmt(fr, I.sub)
			case iMakeChan:
				n := int(w.conc(w.get(fr, &I.a), 64))
				w.ser++
				regs[I.dst] = &ChanV{cap: n, ser: w.ser}
			default:
				unsupported("instruction %s in %s", I.in, fi.name)
			}
			if next == -2 {
				break
			}
		}
		if next == -2 {
			// merged: blk already is the join, skip its phis
			next = -1
			blk2 := *blk
			blk2.phis = nil
			blk = &blk2
			continue
		}
		if next < 0 {
			panic("block without terminator in " + fi.name)
		}
		prev = bi
		bi = next
		blk = fi.blocks[bi]
	}
}

// merge evaluates both sides of a pure diamond and sets the join's phis to ITEs.
func (w *W) merge(fr *Frame, bi int, blk *Block, c *Term) bool {
	m := blk.merge
	jb := fr.fi.blocks[m.join]
	ev := func(b int) {
		if b < 0 {
			return
		}
		insts := fr.fi.blocks[b].insts
		for k := range insts {
			I := &insts[k]
			switch I.op {
			case iBinOp:
				fr.regs[I.dst] = w.binop(I, w.get(fr, &I.a), w.get(fr, &I.b))
			case iUnNot:
				fr.regs[I.dst] = w.not(w.get(fr, &I.a))
			case iUnNeg, iUnXor:
				fr.regs[I.dst] = w.unop(I, w.get(fr, &I.a))
			case iConvert:
				fr.regs[I.dst] = w.convert(I.ti, I.ti2, w.get(fr, &I.a))
			}
		}
	}
	ev(m.thenB)
	ev(m.elseB)
	res := make([]Value, len(jb.phis))
	for i := range jb.phis {
		p := &jb.phis[i]
		x, y := w.get(fr, &p.edges[m.predT]), w.get(fr, &p.edges[m.predE])
		res[i] = val(w.tc.Ite(c, w.term(x, p.ti.sort), w.term(y, p.ti.sort)))
	}
	for i := range jb.phis {
		fr.regs[jb.phis[i].dst] = res[i]
	}
	w.merges++
	return true
}

func (w *W) lookupMethod(ti *TInfo, m *types.Func) *FnInfo {
	k := methKey{ti, m}
	if f, ok := w.methCache[k]; ok {
		return f
	}
	fn := w.eng.tt.Method(ti, m)
	if fn == nil {
		unsupported("no method %s on %s", m.Name(), ti)
	}
	f := w.eng.Fn(fn)
	w.methCache[k] = f
	return f
}

type methKey struct {
	t *TInfo
	m *types.Func
}

func (w *W) goStmt(fr *Frame, s *Inst) {
	unsupported("go statement")
}

// ---------------------------------------------------------------- operators

func (w *W) unop(I *Inst, a Value) Value {
	ti := I.ti
	switch I.op {
	case iUnNeg:
		switch ti.kind {
		case KInt:
			if x, ok := a.(uint64); ok {
				return -x & mask(ti.sort)
			}
			return val(w.tc.Neg(a.(*Term)))
		case KFloat:
			if x, ok := a.(float64); ok {
				return -x
			}
			return val(w.tc.app(OFNeg, ti.sort, 0, a.(*Term), nil, nil))
		case KComplex:
			return -a.(complex128)
		}
	case iUnXor:
		if x, ok := a.(uint64); ok {
			return ^x & mask(ti.sort)
		}
		return val(w.tc.BNot(a.(*Term)))
	}
	unsupported("unop")
	return nil
}

func (w *W) binop(I *Inst, a, b Value) Value {
	ti := I.ti
	switch I.tok {
	case token.EQL:
		return w.equal(ti, a, b)
	case token.NEQ:
		return w.not(w.equal(ti, a, b))
	}
	switch ti.kind {
	case KInt:
		return w.intBin(I.tok, ti, I.ti2, a, b)
	case KFloat:
		return w.floatBin(I.tok, ti, a, b)
	case KString:
		switch I.tok {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return w.not(w.strLess(b, a))
		case token.GEQ:
			return w.not(w.strLess(a, b))
		}
	case KBool:
		x, y := w.term(a, SBool), w.term(b, SBool)
		switch I.tok {
		case token.AND, token.LAND:
			return val(w.tc.And(x, y))
		case token.OR, token.LOR:
			return val(w.tc.Or(x, y))
		}
	case KComplex:
		x, y := a.(complex128), b.(complex128)
		switch I.tok {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	}
	unsupported("binop %s on %s", I.tok, ti)
	return nil
}

func (w *W) intBin(tok token.Token, ti, ti2 *TInfo, a, b Value) Value {
	s := ti.sort
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		m := mask(s)
		switch tok {
		case token.ADD:
			return (x + y) & m
		case token.SUB:
			return (x - y) & m
		case token.MUL:
			return (x * y) & m
		case token.QUO:
			if y == 0 {
				w.throwRT("integer divide by zero")
			}
			if ti.signed {
				return evalOp(OSDiv, s, s, 0, x, y, 0)
			}
			return x / y
		case token.REM:
			if y == 0 {
				w.throwRT("integer divide by zero")
			}
			if ti.signed {
				return evalOp(OSRem, s, s, 0, x, y, 0)
			}
			return x % y
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		case token.SHL, token.SHR:
			if ti2.signed {
				sy := sx(y, ti2.sort)
				if sy < 0 {
					w.throwRT("negative shift amount")
				}
				y = uint64(sy)
			}
			if tok == token.SHL {
				return evalOp(OShl, s, s, 0, x, y, 0)
			}
			if ti.signed {
				return evalOp(OAshr, s, s, 0, x, y, 0)
			}
			return evalOp(OLshr, s, s, 0, x, y, 0)
		case token.LSS:
			if ti.signed {
				return sx(x, s) < sx(y, s)
			}
			return x < y
		case token.LEQ:
			if ti.signed {
				return sx(x, s) <= sx(y, s)
			}
			return x <= y
		case token.GTR:
			if ti.signed {
				return sx(x, s) > sx(y, s)
			}
			return x > y
		case token.GEQ:
			if ti.signed {
				return sx(x, s) >= sx(y, s)
			}
			return x >= y
		}
		unsupported("int op %s", tok)
	}
	p := w.term(a, s)
	lt, le := OUlt, OUle
	if ti.signed {
		lt, le = OSlt, OSle
	}
	switch tok {
	case token.SHL, token.SHR:
		q := w.term(b, ti2.sort)
		if ti2.signed {
			neg := w.tc.Cmp(OSlt, q, w.tc.Const(ti2.sort, 0))
			if w.truth(val(neg)) {
				w.throwRT("negative shift amount")
			}
		}
		// bring the count to the width of the operand, saturating
		if ti2.sort > s {
			big := w.tc.Cmp(OUle, w.tc.Const(ti2.sort, uint64(s)), q)
			q = w.tc.Ite(big, w.tc.Const(s, uint64(s)), w.tc.Resize(q, s, false))
		} else {
			q = w.tc.Resize(q, s, false)
		}
		op := OShl
		if tok == token.SHR {
			op = OLshr
			if ti.signed {
				op = OAshr
			}
		}
		return val(w.tc.Bin(op, p, q))
	}
	q := w.term(b, s)
	switch tok {
	case token.ADD:
		return val(w.tc.Bin(OAdd, p, q))
	case token.SUB:
		return val(w.tc.Bin(OSub, p, q))
	case token.MUL:
		return val(w.tc.Bin(OMul, p, q))
	case token.QUO, token.REM:
		if w.truth(val(w.tc.Eq(q, w.tc.Const(s, 0)))) {
			w.throwRT("integer divide by zero")
		}
		op := OUDiv
		switch {
		case tok == token.QUO && ti.signed:
			op = OSDiv
		case tok == token.REM && ti.signed:
			op = OSRem
		case tok == token.REM:
			op = OURem
		}
		// non-negative dividends and divisors: use the unsigned operator
		if ti.signed {
			half := uint64(1) << uint(s-1)
			if p.umax() < half && q.umax() < half {
				if op == OSDiv {
					op = OUDiv
				} else {
					op = OURem
				}
			}
		}
		return val(w.tc.Bin(op, p, q))
	case token.AND:
		return val(w.tc.Bin(OBAnd, p, q))
	case token.OR:
		return val(w.tc.Bin(OBOr, p, q))
	case token.XOR:
		return val(w.tc.Bin(OBXor, p, q))
	case token.AND_NOT:
		return val(w.tc.Bin(OBAnd, p, w.tc.BNot(q)))
	case token.LSS:
		return val(w.tc.Cmp(lt, p, q))
	case token.LEQ:
		return val(w.tc.Cmp(le, p, q))
	case token.GTR:
		return val(w.tc.Cmp(lt, q, p))
	case token.GEQ:
		return val(w.tc.Cmp(le, q, p))
	}
	unsupported("int op %s", tok)
	return nil
}

func (w *W) floatBin(tok token.Token, ti *TInfo, a, b Value) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		f32 := ti.sort == SF32
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch tok {
		case token.ADD:
			return r(x + y)
		case token.SUB:
			return r(x - y)
		case token.MUL:
			return r(x * y)
		case token.QUO:
			return r(x / y)
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	p, q := w.term(a, ti.sort), w.term(b, ti.sort)
	s := ti.sort
	switch tok {
	case token.ADD:
		return val(w.tc.app(OFAdd, s, 0, p, q, nil))
	case token.SUB:
		return val(w.tc.app(OFSub, s, 0, p, q, nil))
	case token.MUL:
		return val(w.tc.app(OFMul, s, 0, p, q, nil))
	case token.QUO:
		return val(w.tc.app(OFDiv, s, 0, p, q, nil))
	case token.LSS:
		return val(w.tc.Cmp(OFLt, p, q))
	case token.LEQ:
		return val(w.tc.Cmp(OFLe, p, q))
	case token.GTR:
		return val(w.tc.Cmp(OFLt, q, p))
	case token.GEQ:
		return val(w.tc.Cmp(OFLe, q, p))
	}
	unsupported("float op %s", tok)
	return nil
}

// bitsOf returns a bit-vector term whose IEEE value is f.
func (w *W) bitsOf(f *Term) *Term {
	n := Sort(64)
	if f.sort == SF32 {
		n = 32
	}
	switch f.op {
	case OFFromBits:
		return f.a
	case OConst:
		return w.tc.Const(n, f.k)
	case OIte:
		return w.tc.Ite(f.a, w.bitsOf(f.b), w.bitsOf(f.c))
	case OFNeg:
		return w.tc.Bin(OBXor, w.bitsOf(f.a), w.tc.Const(n, 1<<uint(n-1)))
	case OFAbs:
		return w.tc.Bin(OBAnd, w.bitsOf(f.a), w.tc.Const(n, 1<<uint(n-1)-1))
	}
	unsupported("bits of computed float")
	return nil
}

func (w *W) fromBits(b Value, s Sort) Value {
	switch x := b.(type) {
	case uint64:
		if s == SF32 {
			return float64(math.Float32frombits(uint32(x)))
		}
		return math.Float64frombits(x)
	case *Term:
		return val(w.tc.app(OFFromBits, s, 0, x, nil, nil))
	}
	panic("fromBits")
}

func (w *W) convert(from, to *TInfo, v Value) Value {
	switch to.kind {
	case KInt:
		switch from.kind {
		case KInt:
			if x, ok := v.(uint64); ok {
				if to.sort > from.sort && from.signed {
					return uint64(sx(x, from.sort)) & mask(to.sort)
				}
				return x & mask(to.sort)
			}
			return val(w.tc.Resize(v.(*Term), to.sort, from.signed))
		case KFloat:
			return w.floatToInt(from, to, v)
		case KUnsafePtr, KPtr:
			unsupported("pointer to integer")
		}
	case KFloat:
		switch from.kind {
		case KInt:
			if x, ok := v.(uint64); ok {
				if from.signed {
					if to.sort == SF32 {
						return float64(float32(sx(x, from.sort)))
					}
					return float64(sx(x, from.sort))
				}
				if to.sort == SF32 {
					return float64(float32(x))
				}
				return float64(x)
			}
			op := OFFromU
			if from.signed {
				op = OFFromS
			}
			return val(w.tc.app(op, to.sort, 0, v.(*Term), nil, nil))
		case KFloat:
			if from.sort == to.sort {
				return v
			}
			if x, ok := v.(float64); ok {
				if to.sort == SF32 {
					return float64(float32(x))
				}
				return x
			}
			return val(w.tc.app(OFFromF, to.sort, 0, v.(*Term), nil, nil))
		}
	case KComplex:
		return v
	case KString:
		switch from.kind {
		case KString:
			return v
		case KInt:
			// integer -> string (rune)
			return w.runeToStr(from, v)
		case KSlice:
			sl := v.(*SliceV)
			if sl == nil {
				return ""
			}
			if from.elem.sort == 8 {
				b := make([]Value, sl.len)
				for i := 0; i < sl.len; i++ {
					c := &sl.agg.cells[sl.off+i]
					if w.race != nil {
						w.race.read(w, c)
					}
					b[i] = c.v
				}
				return mkStr(b)
			}
			var r Value = ""
			for i := 0; i < sl.len; i++ {
				r = strCat(r, w.runeToStr(from.elem, sl.agg.cells[sl.off+i].v))
			}
			return r
		}
	case KSlice:
		if from.kind == KString {
			if to.elem.sort == 8 {
				n := strLen(v)
				w.ser++
				cp := roundupsize(n)
				if n == 0 {
					cp = 0
				}
				agg := &Agg{cells: make([]Cell, cp)}
				for i := range agg.cells {
					agg.cells[i].ser = w.ser
					if i < n {
						agg.cells[i].v = strByte(v, i)
					} else {
						agg.cells[i].v = uint64(0)
					}
				}
				return &SliceV{agg, 0, n, cp}
			}
			// []rune
			var rs []Value
			for i := 0; i < strLen(v); {
				r, n := w.decodeRune(strSlice(v, i, strLen(v)))
				rs = append(rs, r)
				i += n
			}
			return w.sliceOf(rs)
		}
		return v
	case KUnsafePtr:
		return v
	case KPtr:
		return v
	default:
		return v
	}
	unsupported("convert %s -> %s", from, to)
	return nil
}

func (w *W) sliceOf(vs []Value) *SliceV {
	w.ser++
	agg := &Agg{cells: make([]Cell, len(vs))}
	for i := range vs {
		agg.cells[i].ser = w.ser
		agg.cells[i].v = vs[i]
	}
	return &SliceV{agg, 0, len(vs), len(vs)}
}

func (w *W) bytesVal(b []byte) *SliceV {
	vs := make([]Value, len(b))
	for i, x := range b {
		vs[i] = uint64(x)
	}
	return w.sliceOf(vs)
}

func (w *W) sliceBytes(v Value) []Value {
	sl := v.(*SliceV)
	if sl == nil {
		return nil
	}
	r := make([]Value, sl.len)
	for i := range r {
		r[i] = sl.agg.cells[sl.off+i].v
	}
	return r
}

// amd64 semantics: CVTTSD2SQ gives 0x8000000000000000 when out of range or NaN.
func (w *W) floatToInt(from, to *TInfo, v Value) Value {
	if x, ok := v.(float64); ok {
		if to.signed || to.sort < 64 {
			var r int64
			if x != x || x >= 9223372036854775808.0 || x < -9223372036854775808.0 {
				r = math.MinInt64
			} else {
				r = int64(x)
			}
			if to.sort == 32 && to.signed {
				// CVTTSD2SL
				if r > math.MaxInt32 || r < math.MinInt32 {
					r = math.MinInt32
				}
			}
			return uint64(r) & mask(to.sort)
		}
		return uint64(x)
	}
	t := v.(*Term)
	if t.sort == SF32 {
		t = w.tc.app(OFFromF, SF64, 0, t, nil, nil)
	}
	if !to.signed && to.sort == 64 {
		// range split: below 2^63 as signed, otherwise minus 2^63
		big := w.tc.Const(SF64, math.Float64bits(9223372036854775808.0))
		lt := w.tc.Cmp(OFLt, t, big)
		lo := w.cvtt(t)
		hi := w.tc.Bin(OBXor, w.cvtt(w.tc.app(OFSub, SF64, 0, t, big, nil)), w.tc.Const(64, 1<<63))
		return val(w.tc.Ite(lt, lo, hi))
	}
	r := w.cvtt(t)
	if to.sort == 32 && to.signed {
		inr := w.tc.And(w.tc.Cmp(OSle, w.tc.Const(64, uint64(0xffffffff80000000)), r), w.tc.Cmp(OSle, r, w.tc.Const(64, 0x7fffffff)))
		return val(w.tc.Ite(inr, w.tc.Resize(r, 32, true), w.tc.Const(32, 0x80000000)))
	}
	return val(w.tc.Resize(r, to.sort, true))
}

func (w *W) cvtt(t *Term) *Term {
	lo := w.tc.Const(SF64, math.Float64bits(-9223372036854775808.0))
	hi := w.tc.Const(SF64, math.Float64bits(9223372036854775808.0))
	inr := w.tc.And(w.tc.Cmp(OFLe, lo, t), w.tc.Cmp(OFLt, t, hi))
	return w.tc.Ite(inr, w.tc.app(OFToS, 64, 0, t, nil, nil), w.tc.Const(64, 1<<63))
}

func (w *W) runeToStr(ti *TInfo, v Value) Value {
	if x, ok := v.(uint64); ok {
		if ti.signed {
			i := sx(x, ti.sort)
			if i != int64(rune(i)) {
				i = 0xFFFD
			}
			return string(rune(i))
		}
		if x > 0x10ffff {
			x = 0xFFFD
		}
		return string(rune(x))
	}
	t := w.tc.Resize(v.(*Term), 32, ti.signed)
	if ti.sort > 32 {
		unsupported("string(symbolic wide int)")
	}
	fn := w.eng.stdFn("unicode/utf8", "AppendRune")
	r := w.call(fn, []Value{(*SliceV)(nil), val(t)}, nil, nil).(*SliceV)
	return mkStr(w.sliceBytes(r))
}

func (w *W) decodeRune(s Value) (Value, int) {
	b0 := strByte(s, 0)
	if x, ok := b0.(uint64); ok && x < 0x80 {
		return x, 1
	}
	fn := w.eng.stdFn("unicode/utf8", "DecodeRuneInString")
	r := w.call(fn, []Value{s}, nil, nil).(*Struct)
	return r.f[0], int(w.conc(r.f[1], 64))
}

func (w *W) next(I *Inst, it Value) Value {
	switch x := it.(type) {
	case *strIter:
		if x.pos >= strLen(x.s) {
			return &Struct{[]Value{false, uint64(0), uint64(0)}}
		}
		p := x.pos
		r, n := w.decodeRune(strSlice(x.s, p, strLen(x.s)))
		x.pos += n
		return &Struct{[]Value{true, uint64(p), r}}
	case *mapIter:
		if x.m != nil {
			if w.race != nil {
				w.race.readObj(w, x.m, x.m.ser)
			}
			for x.pos < len(x.m.ents) {
				e := x.m.ents[x.pos]
				x.pos++
				if !e.deleted {
					return &Struct{[]Value{true, e.k, e.v}}
				}
			}
		}
		kz, vz := Value(nil), Value(nil)
		if I.ti.fields[1].kind != KInvalid {
			kz = zero(I.ti.fields[1])
		}
		if I.ti.fields[2].kind != KInvalid {
			vz = zero(I.ti.fields[2])
		}
		return &Struct{[]Value{false, kz, vz}}
	}
	panic("next")
}

// symAddr is the address of an array/slice element at a symbolic index, only loaded from.
type symAddr struct {
	cells []Cell
	idx   *Term
	elem  *TInfo
}

func (w *W) loadSym(s *symAddr) Value {
	vals := make([]Value, len(s.cells))
	for i := range s.cells {
		vals[i] = s.cells[i].v
	}
	return w.selectTerm(vals, s.idx, s.elem)
}

// selectTerm builds an ITE over vals at idx (0 <= idx < len(vals) holds on the path).
func (w *W) selectTerm(vals []Value, idx *Term, elem *TInfo) Value {
	n := len(vals)
	terms := make([]*Term, n)
	for i, v := range vals {
		terms[i] = w.term(v, elem.sort)
	}
	// group runs of equal values: balanced comparison tree over the run boundaries
	var bs []int
	for i := 0; i < n; i++ {
		if i == 0 || terms[i] != terms[i-1] {
			bs = append(bs, i)
		}
	}
	max := idx.umax()
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return terms[bs[lo]]
		}
		mid := (lo + hi + 1) / 2
		if uint64(bs[mid]) > max {
			return build(lo, mid-1)
		}
		return w.tc.Ite(w.tc.Cmp(OUlt, idx, w.tc.Const(idx.sort, uint64(bs[mid]))), build(lo, mid-1), build(mid, hi))
	}
	return val(build(0, len(bs)-1))
}

func scalarKind(k Kind) bool { return k == KBool || k == KInt || k == KFloat }

// boundsCheck ensures 0 <= idx < n on this path, forking to a panic otherwise.
func (w *W) boundsCheck(idx Value, ti *TInfo, n int) Value {
	if x, ok := idx.(uint64); ok {
		var i int64
		if ti.signed {
			i = sx(x, ti.sort)
		} else {
			i = int64(x)
			if i < 0 {
				i = math.MaxInt64
			}
		}
		if i < 0 || i >= int64(n) {
			w.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return uint64(i)
	}
	t := idx.(*Term)
	if t.sort < 64 {
		t = w.tc.Resize(t, 64, ti.signed)
	}
	in := w.tc.Cmp(OUlt, t, w.tc.Const(64, uint64(n)))
	if !w.truth(val(in)) {
		w.throwRT(fmt.Sprintf("index out of range with length %d", n))
	}
	return val(t)
}

func (w *W) indexAddr(I *Inst, x, i Value) Value {
	var cells []Cell
	switch a := x.(type) {
	case *SliceV:
		if a == nil {
			w.boundsCheck(i, I.ti2, 0)
		}
		cells = a.agg.cells[a.off : a.off+a.len]
	case *Cell:
		if a == nil {
			w.nilDeref()
		}
		cells = a.v.(*Agg).cells
	default:
		unsupported("indexaddr %T", x)
	}
	iv := w.boundsCheck(i, I.ti2, len(cells))
	if t, ok := iv.(*Term); ok {
		elem := I.ti.elem
		if I.ti.kind == KPtr {
			elem = I.ti.elem.elem
		}
		if I.flag && scalarKind(elem.kind) && len(cells) > 1 {
			return &symAddr{cells, t, elem}
		}
		iv = w.conc(t, 64)
	}
	return &cells[iv.(uint64)]
}

func (w *W) index(I *Inst, x, i Value) Value {
	if I.ti.kind == KString {
		n := strLen(x)
		iv := w.boundsCheck(i, I.ti2, n)
		if t, ok := iv.(*Term); ok {
			return w.selectTerm(strBytes(x), t, w.eng.tUint8)
		}
		return strByte(x, int(iv.(uint64)))
	}
	s := x.(*Struct)
	iv := w.boundsCheck(i, I.ti2, len(s.f))
	if t, ok := iv.(*Term); ok {
		if scalarKind(I.ti.elem.kind) {
			return w.selectTerm(s.f, t, I.ti.elem)
		}
		iv = w.conc(t, 64)
	}
	return s.f[iv.(uint64)]
}

func (w *W) lookup(I *Inst, x, k Value) Value {
	if I.ti.kind == KString {
		return w.index(I, x, k)
	}
	m := x.(*MapV)
	e := w.mapFind(m, k)
	var v Value
	if e != nil {
		v = e.v
	} else {
		v = zero(I.ti.elem)
	}
	if I.flag {
		return &Struct{[]Value{v, e != nil}}
	}
	return v
}

func (w *W) slice(I *Inst, x, lo, hi, mx Value) Value {
	bound := -1
	switch a := x.(type) {
	case string, *SymStr:
		bound = strLen(a)
	case *SliceV:
		bound = 0
		if a != nil {
			bound = a.cap
		}
	case *Cell:
		if a != nil {
			bound = len(a.v.(*Agg).cells)
		}
	}
	toI := func(v Value, def int) int {
		if v == nil {
			return def
		}
		if t, ok := v.(*Term); ok && bound >= 0 {
			// one path for all values outside of the bounds
			if t.sort == 64 && !w.truth(val(w.tc.Cmp(OUle, t, w.tc.Const(64, uint64(bound))))) {
				w.throwRT("slice bounds out of range")
			}
		}
		return int(sx(w.conc(v, 64), 64))
	}
	switch a := x.(type) {
	case string, *SymStr:
		n := strLen(a)
		l, h := toI(lo, 0), toI(hi, n)
		if h < 0 || h > n || l < 0 || l > h {
			w.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
		}
		return strSlice(a, l, h)
	case *SliceV:
		if a == nil {
			l, h := toI(lo, 0), toI(hi, 0)
			if l != 0 || h != 0 {
				w.throwRT("slice bounds out of range")
			}
			return a
		}
		l, h, m := toI(lo, 0), toI(hi, a.len), toI(mx, a.cap)
		if m < 0 || m > a.cap || h < 0 || h > m || l < 0 || l > h {
			w.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, a.cap))
		}
		return &SliceV{a.agg, a.off + l, h - l, m - l}
	case *Cell:
		if a == nil {
			w.nilDeref()
		}
		agg := a.v.(*Agg)
		n := len(agg.cells)
		l, h, m := toI(lo, 0), toI(hi, n), toI(mx, n)
		if m < 0 || m > n || h < 0 || h > m || l < 0 || l > h {
			w.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, n))
		}
		return &SliceV{agg, l, h - l, m - l}
	}
	unsupported("slice of %T", x)
	return nil
}

func (w *W) implements(ti *TInfo, it *types.Interface) bool {
	k := implKey{ti, it}
	if b, ok := w.implCache[k]; ok {
		return b
	}
	b := w.eng.tt.Implements(ti, it)
	w.implCache[k] = b
	return b
}

type implKey struct {
	t *TInfo
	i *types.Interface
}

func (w *W) typeAssert(I *Inst, v *Iface) Value {
	ok := false
	if v != nil {
		if I.iface != nil {
			ok = w.implements(v.t, I.iface)
		} else {
			ok = v.t == I.ti
		}
	}
	if I.flag {
		var r Value
		if ok {
			if I.iface != nil {
				r = v
			} else {
				r = v.v
			}
		} else {
			r = zero(I.ti)
		}
		return &Struct{[]Value{r, ok}}
	}
	if !ok {
		if v == nil {
			w.throwRT("interface conversion: interface is nil, not " + I.ti.String())
		}
		w.throwRT("interface conversion: interface is " + v.t.String() + ", not " + I.ti.String())
	}
	if I.iface != nil {
		return v
	}
	return v.v
}

// ---------------------------------------------------------------- builtins

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen int, esize int64) int {
	nc := oldCap
	dbl := oldCap * 2
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for {
			nc += (nc + 3*256) >> 2
			if uint(nc) >= uint(newLen) {
				break
			}
		}
	}
	if esize <= 0 {
		return newLen
	}
	return roundupsize(nc*int(esize)) / int(esize)
}

func (w *W) appendVals(st *TInfo, s *SliceV, vs []Value) *SliceV {
	if len(vs) == 0 {
		return s
	}
	if s == nil {
		s = &SliceV{}
	}
	nl := s.len + len(vs)
	if nl <= s.cap {
		for i, v := range vs {
			w.store(&s.agg.cells[s.off+s.len+i], v)
		}
		return &SliceV{s.agg, s.off, nl, s.cap}
	}
	nc := growCap(s.cap, nl, st.elem.size)
	w.ser++
	agg := &Agg{cells: make([]Cell, nc)}
	isAgg := st.elem.kind == KStruct || st.elem.kind == KArray
	var z Value
	if !isAgg {
		z = zero(st.elem)
	}
	for i := 0; i < nc; i++ {
		c := &agg.cells[i]
		c.ser = w.ser
		switch {
		case i < s.len:
			src := &s.agg.cells[s.off+i]
			if w.race != nil {
				w.race.read(w, src)
			}
			if isAgg {
				c.v = w.memOf(st.elem, snap(src.v))
			} else {
				c.v = src.v
			}
		case i < nl:
			c.v = w.memOf(st.elem, vs[i-s.len])
		default:
			if isAgg {
				c.v = w.zeroMem(st.elem)
			} else {
				c.v = z
			}
		}
	}
	return &SliceV{agg, 0, nl, nc}
}

func (w *W) sliceElems(s *SliceV) []Value {
	if s == nil {
		return nil
	}
	r := make([]Value, s.len)
	for i := range r {
		r[i] = w.load(&s.agg.cells[s.off+i])
	}
	return r
}

func (w *W) builtin(fr *Frame, I *Inst, args []Value) Value {
	switch I.name {
	case "append":
		s := args[0].(*SliceV)
		switch x := args[1].(type) {
		case *SliceV:
			return w.appendVals(I.ti, s, w.sliceElems(x))
		case string, *SymStr:
			return w.appendVals(I.ti, s, strBytes(x))
		}
	case "copy":
		d := args[0].(*SliceV)
		var src []Value
		switch x := args[1].(type) {
		case *SliceV:
			src = w.sliceElems(x)
		case string, *SymStr:
			src = strBytes(x)
		}
		n := len(src)
		if d == nil {
			return uint64(0)
		}
		if d.len < n {
			n = d.len
		}
		for i := 0; i < n; i++ {
			w.store(&d.agg.cells[d.off+i], src[i])
		}
		return uint64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case *SliceV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.len)
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			if w.race != nil {
				w.race.readObj(w, x, x.ser)
			}
			return uint64(x.n)
		case *Struct:
			return uint64(len(x.f))
		case *Cell:
			return uint64(I.ti.elem.n)
		case *ChanV:
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case *Struct:
			return uint64(len(x.f))
		case *Cell:
			return uint64(I.ti.elem.n)
		}
	case "delete":
		if m := args[0].(*MapV); m != nil {
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				w.noteMapWrite(x)
				x.ents, x.idx, x.n, x.nsym = nil, map[any]int{}, 0, 0
			}
		case *SliceV:
			if x != nil {
				for i := 0; i < x.len; i++ {
					w.store(&x.agg.cells[x.off+i], zero(I.ti.elem))
				}
			}
		}
		return nil
	case "panic":
		v := args[0].(*Iface)
		panic(&targetPanic{v: v, trace: w.trace()})
	case "recover":
		return w.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		ti := I.ti
		for _, a := range args[1:] {
			var c Value
			switch ti.kind {
			case KInt:
				c = w.intBin(token.LSS, ti, ti, a, r)
			case KFloat:
				if isSym(a) || isSym(r) {
					unsupported("float min/max")
				}
				x, y := r.(float64), a.(float64)
				if I.name == "min" {
					r = math.Min(x, y)
				} else {
					r = math.Max(x, y)
				}
				continue
			case KString:
				c = w.strLess(a, r)
			}
			if I.name == "max" {
				if ti.kind == KInt {
					c = w.intBin(token.LSS, ti, ti, r, a)
				} else {
					c = w.strLess(r, a)
				}
			}
			if ti.kind == KInt {
				if cb, ok := c.(bool); ok {
					if cb {
						r = a
					}
				} else {
					r = val(w.tc.Ite(c.(*Term), w.term(a, ti.sort), w.term(r, ti.sort)))
				}
			} else if w.truth(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			w.nilDeref()
		}
		return args[0]
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "String": // unsafe.String
		n := int(sx(w.conc(args[1], 64), 64))
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case *BytePtr:
			if p.agg == nil {
				return strSlice(p.str, p.off, p.off+n)
			}
			b := make([]Value, n)
			for i := range b {
				b[i] = w.load(&p.agg.cells[p.off+i])
			}
			return mkStr(b)
		case *Cell:
			if n == 1 {
				return mkStr([]Value{p.v})
			}
			if agg, off := w.findAgg(p); agg != nil {
				b := make([]Value, n)
				for i := range b {
					b[i] = w.load(&agg.cells[off+i])
				}
				return mkStr(b)
			}
		}
		unsupported("unsafe.String of %T", args[0])
	case "SliceData":
		s := args[0].(*SliceV)
		if s == nil {
			return (*Cell)(nil)
		}
		return &BytePtr{agg: s.agg, off: s.off}
	case "StringData":
		return &BytePtr{str: args[0]}
	case "Slice":
		n := int(w.conc(args[1], 64))
		switch p := args[0].(type) {
		case *BytePtr:
			if p.agg != nil {
				return &SliceV{p.agg, p.off, n, n}
			}
			bs := make([]Value, n)
			for i := range bs {
				bs[i] = strByte(p.str, p.off+i)
			}
			return w.sliceOf(bs)
		}
		unsupported("unsafe.Slice")
	case "close":
		return nil
	case "ssa:deferstack":
		return nil
	}
	unsupported("builtin %s (%T)", I.name, args)
	return nil
}

// findAgg is unsupported for plain element pointers (no back reference).
func (w *W) findAgg(p *Cell) (*Agg, int) { return nil, 0 }

func (w *W) doRecover(fr *Frame) Value {
	d := fr.deferOf
	if d == nil || d.panicking == nil {
		return nilIface
	}
	v := d.panicking.v
	d.panicking = nil
	if v == nil {
		return nilIface
	}
	return v
}

var _ = bits.Len64
var _ ssa.Value
