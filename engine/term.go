package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Sorts: 0 = Bool, n>0 = BitVec n, -64 = Float64, -32 = Float32
type Sort int16

const (
	SBool Sort = 0
	SF64  Sort = -64
	SF32  Sort = -32
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OTrunc
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFFromBits
	OFFromS
	OFFromU
	OFFromF
	OFToS // RTZ, in-range only
	OFToU
	OFRound // k: 0 RNA? see below (rounding mode): 0=floor(RTN) 1=ceil(RTP) 2=trunc(RTZ) 3=even(RNE)
)

type Term struct {
	op      Op
	sort    Sort
	id      uint32
	k       uint64 // constant value
	a, b, c *Term
	name    string
	evGen   uint32
	evVal   uint64
	emitted bool    // defined in the solver
	vs      []*Term // variables occurring, sorted by id (shared, immutable)
	tt      *[4]uint64
}

type termKey struct {
	op      Op
	sort    Sort
	a, b, c uint32
	k       uint64
}

// TermCtx hash-conses terms. Not safe for concurrent use (one per worker).
type TermCtx struct {
	tab    map[termKey]*Term
	vars   map[string]*Term
	nextID uint32
	gen    uint32
	mgen   uint32
	tr, fa *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, vars: map[string]*Term{}, nextID: 1}
	c.fa = c.Const(SBool, 0)
	c.tr = c.Const(SBool, 1)
	return c
}

func id(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *TermCtx) mk(op Op, s Sort, k uint64, a, b, d *Term) *Term {
	key := termKey{op, s, id(a), id(b), id(d), k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, sort: s, id: c.nextID, k: k, a: a, b: b, c: d}
	c.nextID++
	c.tab[key] = t
	if a != nil {
		t.vs = a.vs
		if b != nil {
			t.vs = mergeVars(t.vs, b.vs)
			if d != nil {
				t.vs = mergeVars(t.vs, d.vs)
			}
		}
	}
	return t
}

func mergeVars(a, b []*Term) []*Term {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	if &a[0] == &b[0] && len(a) == len(b) {
		return a
	}
	// subset test first: avoids an allocation in the common cases
	sub := func(x, y []*Term) bool { // x subset of y
		j := 0
		for _, v := range x {
			for j < len(y) && y[j].id < v.id {
				j++
			}
			if j >= len(y) || y[j] != v {
				return false
			}
		}
		return true
	}
	if len(b) <= len(a) && sub(b, a) {
		return a
	}
	if len(a) < len(b) && sub(a, b) {
		return b
	}
	r := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].id < b[j].id):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

// table returns the truth table of a Boolean term over its single variable of width <= 8.
func (c *TermCtx) table(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	v := t.vs[0]
	n := 1 << 8
	if v.sort == SBool {
		n = 2
	} else {
		n = 1 << uint(v.sort)
	}
	saved := c.gen
	var r [4]uint64
	for x := 0; x < n; x++ {
		c.tick()
		if c.Eval1(t, v, uint64(x)) != 0 {
			r[x>>6] |= 1 << uint(x&63)
		}
	}
	_ = saved
	t.tt = &r
	return t.tt
}

func mask(s Sort) uint64 {
	if s <= 0 {
		if s == SF32 {
			return 0xffffffff
		}
		if s == SBool {
			return 1
		}
		return ^uint64(0)
	}
	if s >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(s)) - 1
}

func (c *TermCtx) Const(s Sort, v uint64) *Term {
	return c.mk(OConst, s, v&mask(s), nil, nil, nil)
}

func (c *TermCtx) Var(name string, s Sort) *Term {
	if t, ok := c.vars[name]; ok {
		if t.sort != s {
			panic("var sort mismatch " + name)
		}
		return t
	}
	t := &Term{op: OVar, sort: s, id: c.nextID, name: name}
	t.vs = []*Term{t}
	c.nextID++
	c.vars[name] = t
	return t
}

func (t *Term) isC() bool { return t.op == OConst }

func sx(v uint64, s Sort) int64 {
	sh := uint(64 - int(s))
	return int64(v<<sh) >> sh
}

func f64(v uint64) float64 { return math.Float64frombits(v) }
func f32(v uint64) float32 { return math.Float32frombits(uint32(v)) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp evaluates an operator on constant operands.
func evalOp(op Op, s Sort, as Sort, k, a, b, c uint64) uint64 {
	m := mask(s)
	switch op {
	case ONot:
		return a ^ 1
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OEq:
		return b2u(a == b)
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, s), sx(b, s)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, s), sx(b, s)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & m
	case ONeg:
		return -a & m
	case OShl:
		if b >= uint64(s) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(s) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sx(a, s)
		if b >= uint64(s) {
			b = uint64(s) - 1
		}
		return uint64(x>>b) & m
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, as) < sx(b, as))
	case OSle:
		return b2u(sx(a, as) <= sx(b, as))
	case OZext:
		return a
	case OSext:
		return uint64(sx(a, as)) & m
	case OTrunc:
		return a & m
	}
	if as == SF32 && op != OFFromF && op != OFToS && op != OFToU {
		x, y := f32(a), f32(b)
		switch op {
		case OFAdd:
			return uint64(math.Float32bits(x + y))
		case OFSub:
			return uint64(math.Float32bits(x - y))
		case OFMul:
			return uint64(math.Float32bits(x * y))
		case OFDiv:
			return uint64(math.Float32bits(x / y))
		case OFNeg:
			return a ^ (1 << 31)
		case OFAbs:
			return a &^ (1 << 31)
		case OFLt:
			return b2u(x < y)
		case OFLe:
			return b2u(x <= y)
		case OFEq:
			return b2u(x == y)
		}
	}
	x, y := f64(a), f64(b)
	fb := func(f float64) uint64 {
		if s == SF32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	switch op {
	case OFAdd:
		return fb(x + y)
	case OFSub:
		return fb(x - y)
	case OFMul:
		return fb(x * y)
	case OFDiv:
		return fb(x / y)
	case OFNeg:
		return a ^ (1 << 63)
	case OFAbs:
		return a &^ (1 << 63)
	case OFSqrt:
		return fb(math.Sqrt(x))
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	case OFEq:
		return b2u(x == y)
	case OFFromBits:
		return a
	case OFFromS:
		if s == SF32 {
			return uint64(math.Float32bits(float32(sx(a, as))))
		}
		return fb(float64(sx(a, as)))
	case OFFromU:
		if s == SF32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return fb(float64(a))
	case OFFromF:
		if as == SF32 && s == SF64 {
			return math.Float64bits(float64(f32(a)))
		}
		if as == SF64 && s == SF32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return a
	case OFToS:
		if as == SF32 {
			x = float64(f32(a))
		}
		return uint64(int64(x)) & m
	case OFToU:
		if as == SF32 {
			x = float64(f32(a))
		}
		return uint64(x) & m
	case OFRound:
		switch k {
		case 0:
			return fb(math.Floor(x))
		case 1:
			return fb(math.Ceil(x))
		case 2:
			return fb(math.Trunc(x))
		default:
			return fb(math.RoundToEven(x))
		}
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

func (c *TermCtx) app(op Op, s Sort, k uint64, a, b, d *Term) *Term {
	if (a == nil || a.isC()) && (b == nil || b.isC()) && (d == nil || d.isC()) {
		var av, bv, dv uint64
		if a != nil {
			av = a.k
		}
		if b != nil {
			bv = b.k
		}
		if d != nil {
			dv = d.k
		}
		return c.Const(s, evalOp(op, s, a.sort, k, av, bv, dv))
	}
	return c.mk(op, s, k, a, b, d)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tr
	}
	return c.fa
}

func (c *TermCtx) Not(a *Term) *Term {
	if a == c.tr {
		return c.fa
	}
	if a == c.fa {
		return c.tr
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, SBool, 0, a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == c.fa || b == c.fa {
		return c.fa
	}
	if a == c.tr || a == b {
		return b
	}
	if b == c.tr {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.fa
	}
	return c.mk(OAnd, SBool, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == c.tr || b == c.tr {
		return c.tr
	}
	if a == c.fa || a == b {
		return b
	}
	if b == c.fa {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.tr
	}
	return c.mk(OOr, SBool, 0, a, b, nil)
}

func (c *TermCtx) Ite(p, a, b *Term) *Term {
	if p == c.tr || a == b {
		return a
	}
	if p == c.fa {
		return b
	}
	if a.sort == SBool {
		if a == c.tr {
			return c.Or(p, b)
		}
		if a == c.fa {
			return c.And(c.Not(p), b)
		}
		if b == c.tr {
			return c.Or(c.Not(p), a)
		}
		if b == c.fa {
			return c.And(p, a)
		}
	}
	if p.op == ONot {
		return c.Ite(p.a, b, a)
	}
	return c.mk(OIte, a.sort, 0, p, a, b)
}

// range of possible unsigned values (cheap approximation)
func (t *Term) umax() uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return t.a.umax()
	case OBAnd:
		x, y := t.a.umax(), t.b.umax()
		if x < y {
			return x
		}
		return y
	case OLshr:
		if t.b.isC() && t.b.k < 64 {
			return t.a.umax() >> t.b.k
		}
	case OURem:
		if t.b.isC() && t.b.k > 0 {
			return t.b.k - 1
		}
	case OUDiv:
		if t.b.isC() && t.b.k > 0 {
			return t.a.umax() / t.b.k
		}
	case OIte:
		x, y := t.b.umax(), t.c.umax()
		if x > y {
			return x
		}
		return y
	case OBOr, OBXor:
		x, y := t.a.umax(), t.b.umax()
		n := bits.Len64(x | y)
		if n == 64 {
			return mask(t.sort)
		}
		return (uint64(1) << uint(n)) - 1
	case OAdd:
		x, y := t.a.umax(), t.b.umax()
		if s := x + y; s >= x && s <= mask(t.sort) {
			return s
		}
	case OMul:
		x, y := t.a.umax(), t.b.umax()
		hi, lo := bits.Mul64(x, y)
		if hi == 0 && lo <= mask(t.sort) {
			return lo
		}
	}
	return mask(t.sort)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		if a.sort < 0 {
			panic("Eq on float")
		}
		return c.tr
	}
	if a.isC() && b.isC() {
		return c.Bool(a.k == b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.sort == SBool {
		if b == c.tr {
			return a
		}
		if b == c.fa {
			return c.Not(a)
		}
	} else if b.isC() {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.sort) {
				return c.fa
			}
			return c.Eq(a.a, c.Const(a.a.sort, b.k))
		case OSext:
			tr := b.k & mask(a.a.sort)
			if uint64(sx(tr, a.a.sort))&mask(a.sort) != b.k {
				return c.fa
			}
			return c.Eq(a.a, c.Const(a.a.sort, tr))
		case OIte:
			if a.b.isC() && a.c.isC() {
				return c.Ite(a.a, c.Bool(a.b.k == b.k), c.Bool(a.c.k == b.k))
			}
			if (a.b.isC() && a.b.k != b.k) || (a.c.isC() && a.c.k != b.k) {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isC() {
				return c.Eq(a.a, c.Const(a.sort, b.k-a.b.k))
			}
		}
		if b.k > a.umax() {
			return c.fa
		}
	} else if a.op == OZext && b.op == OZext && a.a.sort == b.a.sort {
		return c.Eq(a.a, b.a)
	} else if a.op == OSext && b.op == OSext && a.a.sort == b.a.sort {
		return c.Eq(a.a, b.a)
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, 0, a, b, nil)
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	s := a.sort
	if a.isC() && b.isC() {
		return c.app(op, s, 0, a, b, nil)
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if !b.isC() && a.id > b.id {
			a, b = b, a
		}
	}
	switch op {
	case OAdd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return c.Bin(OAdd, a.a, c.Const(s, a.b.k+b.k))
			}
		}
	case OSub:
		if b.isC() {
			return c.Bin(OAdd, a, c.Const(s, -b.k))
		}
		if a == b {
			return c.Const(s, 0)
		}
	case OMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(s) {
				return a
			}
			// and with low mask covering all possible bits
			if b.k&(b.k+1) == 0 && a.umax() <= b.k {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.k == 0 || a == b {
			return a
		}
	case OBXor:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.k == 0 {
			return a
		}
		if a == b {
			return c.Const(s, 0)
		}
	case OShl, OLshr, OAshr:
		if b.isC() && b.k == 0 {
			return a
		}
		if op != OAshr && b.isC() && b.k >= uint64(s) {
			return c.Const(s, 0)
		}
		if op == OLshr && b.isC() && a.umax()>>b.k == 0 {
			return c.Const(s, 0)
		}
	case OUDiv:
		if b.isC() && b.k == 1 {
			return a
		}
		if b.isC() && b.k != 0 && a.umax() < b.k {
			return c.Const(s, 0)
		}
	case OURem:
		if b.isC() && b.k != 0 && a.umax() < b.k {
			return a
		}
	}
	return c.mk(op, s, 0, a, b, nil)
}

// Cmp builds OUlt, OUle, OSlt, OSle, OFLt, OFLe, OFEq
func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return c.app(op, SBool, 0, a, b, nil)
	}
	switch op {
	case OUlt:
		if a == b || b.isC() && b.k == 0 {
			return c.fa
		}
		if b.isC() && a.umax() < b.k {
			return c.tr
		}
		if a.isC() && b.umax() <= a.k {
			return c.fa
		}
		if a.op == OZext && b.isC() {
			if b.k > mask(a.a.sort) {
				return c.tr
			}
			return c.Cmp(OUlt, a.a, c.Const(a.a.sort, b.k))
		}
		if b.op == OZext && a.isC() {
			if a.k > mask(b.a.sort) {
				return c.fa
			}
			return c.Cmp(OUlt, c.Const(b.a.sort, a.k), b.a)
		}
	case OUle:
		return c.Not(c.Cmp(OUlt, b, a))
	case OSlt:
		if a == b {
			return c.fa
		}
		// non-negative both
		half := uint64(1) << uint(a.sort-1)
		am, bm := a.umax(), b.umax()
		if am < half && bm < half {
			return c.Cmp(OUlt, a, b)
		}
		if am < half && b.isC() { // b negative
			return c.fa
		}
		if bm < half && a.isC() {
			return c.tr
		}
		if a.op == OSext && b.isC() {
			n := a.a.sort
			v := sx(b.k, b.sort)
			lim := int64(1) << uint(n-1)
			if v > lim-1 {
				return c.tr
			}
			if v < -lim {
				return c.fa
			}
			return c.Cmp(OSlt, a.a, c.Const(n, b.k))
		}
		if b.op == OSext && a.isC() {
			n := b.a.sort
			v := sx(a.k, a.sort)
			lim := int64(1) << uint(n-1)
			if v > lim-1 {
				return c.fa
			}
			if v < -lim {
				return c.tr
			}
			return c.Cmp(OSlt, c.Const(n, a.k), b.a)
		}
	case OSle:
		return c.Not(c.Cmp(OSlt, b, a))
	}
	if a.op == OIte && b.isC() && a.b.isC() && a.c.isC() {
		return c.Ite(a.a, c.Cmp(op, a.b, b), c.Cmp(op, a.c, b))
	}
	return c.mk(op, SBool, 0, a, b, nil)
}

func (c *TermCtx) BNot(a *Term) *Term { return c.app(OBNot, a.sort, 0, a, nil, nil) }
func (c *TermCtx) Neg(a *Term) *Term  { return c.app(ONeg, a.sort, 0, a, nil, nil) }

// Resize converts bitvector a (signed if sgn) to width s
func (c *TermCtx) Resize(a *Term, s Sort, sgn bool) *Term {
	if a.sort == s {
		return a
	}
	if s < a.sort {
		for a.op == OZext || a.op == OSext {
			if a.a.sort >= s {
				a = a.a
				if a.sort == s {
					return a
				}
				continue
			}
			if a.op == OZext {
				return c.Resize(a.a, s, false)
			}
			return c.Resize(a.a, s, true)
		}
		return c.app(OTrunc, s, 0, a, nil, nil)
	}
	if sgn {
		if a.op == OZext {
			return c.Resize(a.a, s, false)
		}
		if a.op == OSext {
			return c.Resize(a.a, s, true)
		}
		if a.umax() < uint64(1)<<uint(a.sort-1) {
			return c.app(OZext, s, 0, a, nil, nil)
		}
		return c.app(OSext, s, 0, a, nil, nil)
	}
	if a.op == OZext {
		return c.Resize(a.a, s, false)
	}
	return c.app(OZext, s, 0, a, nil, nil)
}

// ---- evaluation under a model

type Model map[string]uint64

func (c *TermCtx) NewGen() { c.tick(); c.mgen = c.gen }

func (c *TermCtx) tick() { c.gen++ }

// Eval1 evaluates a term over one variable; uses (and consumes) the current generation.
func (c *TermCtx) Eval1(t *Term, v *Term, x uint64) uint64 {
	return c.evalG(t, c.gen, func(*Term) uint64 { return x })
}

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	return c.evalG(t, c.mgen, func(v *Term) uint64 { return m[v.name] & mask(v.sort) })
}

func (c *TermCtx) evalG(t *Term, g uint32, f func(*Term) uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evGen == g {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OVar:
		v = f(t)
	case OIte:
		if c.evalG(t.a, g, f) != 0 {
			v = c.evalG(t.b, g, f)
		} else {
			v = c.evalG(t.c, g, f)
		}
	case OAnd:
		v = c.evalG(t.a, g, f)
		if v != 0 {
			v = c.evalG(t.b, g, f)
		}
	case OOr:
		v = c.evalG(t.a, g, f)
		if v == 0 {
			v = c.evalG(t.b, g, f)
		}
	default:
		var a, b, d uint64
		var as Sort
		if t.a != nil {
			a = c.evalG(t.a, g, f)
			as = t.a.sort
		}
		if t.b != nil {
			b = c.evalG(t.b, g, f)
		}
		if t.c != nil {
			d = c.evalG(t.c, g, f)
		}
		v = evalOp(t.op, t.sort, as, t.k, a, b, d)
	}
	t.evGen = g
	t.evVal = v
	return v
}

// ---- SMT-LIB printing

func sortStr(s Sort) string {
	switch {
	case s == SBool:
		return "Bool"
	case s == SF64:
		return "(_ FloatingPoint 11 53)"
	case s == SF32:
		return "(_ FloatingPoint 8 24)"
	default:
		return fmt.Sprintf("(_ BitVec %d)", s)
	}
}

func fpSuffix(s Sort) string {
	if s == SF32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) constStr() string {
	switch {
	case t.sort == SBool:
		if t.k != 0 {
			return "true"
		}
		return "false"
	case t.sort == SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.k)
	case t.sort == SF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.k)
	default:
		if t.sort%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.k)
		}
		return fmt.Sprintf("#b%0*b", int(t.sort), t.k)
	}
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return t.constStr()
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
}

func (t *Term) bodyStr() string {
	var op string
	switch t.op {
	case OZext:
		op = fmt.Sprintf("(_ zero_extend %d)", t.sort-t.a.sort)
	case OSext:
		op = fmt.Sprintf("(_ sign_extend %d)", t.sort-t.a.sort)
	case OTrunc:
		op = fmt.Sprintf("(_ extract %d 0)", t.sort-1)
	case OFFromBits:
		op = "(_ to_fp " + fpSuffix(t.sort) + ")"
	case OFFromS, OFFromF:
		op = "(_ to_fp " + fpSuffix(t.sort) + ") RNE"
	case OFFromU:
		op = "(_ to_fp_unsigned " + fpSuffix(t.sort) + ") RNE"
	case OFToS:
		op = fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.sort)
	case OFToU:
		op = fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.sort)
	case OFRound:
		op = "fp.roundToIntegral " + [...]string{"RTN", "RTP", "RTZ", "RNE"}[t.k]
	default:
		op = opNames[t.op]
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	if t.op == OConst || t.op == OVar {
		return t.ref()
	}
	return t.str(6)
}

func (t *Term) str(d int) string {
	if t.op == OConst || t.op == OVar {
		return t.ref()
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opNames[t.op]
	if opNames[t.op] == "" {
		s += fmt.Sprintf("op%d", t.op)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}

// ---- substitution

// rebuild applies the constructor of t to new operands.
func (c *TermCtx) rebuild(t, a, b, d *Term) *Term {
	switch t.op {
	case ONot:
		return c.Not(a)
	case OAnd:
		return c.And(a, b)
	case OOr:
		return c.Or(a, b)
	case OEq:
		return c.Eq(a, b)
	case OIte:
		return c.Ite(a, b, d)
	case OUlt, OUle, OSlt, OSle, OFLt, OFLe, OFEq:
		return c.Cmp(t.op, a, b)
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		return c.Bin(t.op, a, b)
	case OZext:
		return c.Resize(a, t.sort, false)
	case OSext:
		return c.Resize(a, t.sort, true)
	case OTrunc:
		return c.Resize(a, t.sort, false)
	}
	return c.app(t.op, t.sort, t.k, a, b, d)
}

// Subst replaces the variable v by r in t.
func (c *TermCtx) Subst(t, v, r *Term, memo map[*Term]*Term) *Term {
	if t == v {
		return r
	}
	if !hasVar(t, v) {
		return t
	}
	if n, ok := memo[t]; ok {
		return n
	}
	var a, b, d *Term
	if t.a != nil {
		a = c.Subst(t.a, v, r, memo)
	}
	if t.b != nil {
		b = c.Subst(t.b, v, r, memo)
	}
	if t.c != nil {
		d = c.Subst(t.c, v, r, memo)
	}
	n := c.rebuild(t, a, b, d)
	memo[t] = n
	return n
}

func hasVar(t, v *Term) bool {
	for _, x := range t.vs {
		if x == v {
			return true
		}
	}
	return false
}

// evalM evaluates t under m (not the current model) in a generation of its own.
func (c *TermCtx) evalM(t *Term, m Model) uint64 {
	c.tick()
	return c.evalG(t, c.gen, func(v *Term) uint64 { return m[v.name] & mask(v.sort) })
}
