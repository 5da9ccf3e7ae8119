package main

import (
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded choice on a path.
type Decision struct {
	val    bool
	forced bool   // no literal asserted
	v      uint64 // value for concretisation
}

type Job struct {
	h      *Harness
	prefix []Decision
	model  Model
}

// NDVal is one nondeterministic value requested by the harness, in order.
type NDVal struct {
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type ndRec struct {
	kind string
	t    *Term // symbolic
	v    uint64
}

type Counterexample struct {
	Harness string
	Label   string
	Kind    string // assert | panic | write | bound
	Values  []NDVal
	Detail  string
	Trace   string
}

// Harness is one entry point.
type Harness struct {
	Name string
	fn   *ssa.Function
	fi   *FnInfo

	paths, infeasible       int64
	asserts, assertsConc    int64
	obligations, discharged int64
	inconclusive            map[string]int64
	mu                      sync.Mutex
	ces                     map[string]*Counterexample
	reach                   map[string]int64
	fns                     map[*FnInfo]bool
	pending                 int64
	maxSteps                int64
	choiceMax               map[string]int
	samples                 []string
	dropped                 int64
	decisions               int64
	traces                  []Trace
	rnd                     *rand.Rand
	done                    int64
	wall                    time.Duration
	start                   time.Time
}

type Queue struct {
	mu      sync.Mutex
	cond    *sync.Cond
	jobs    []*Job
	active  int
	closed  bool
	waiting int32
}

func NewQueue() *Queue {
	q := &Queue{}
	q.cond = sync.NewCond(&q.mu)
	return q
}

func (q *Queue) Push(j *Job) {
	q.mu.Lock()
	q.jobs = append(q.jobs, j)
	q.mu.Unlock()
	q.cond.Signal()
}

// Pop blocks until a job is available or all work is finished (nil).
func (q *Queue) Pop() *Job {
	q.mu.Lock()
	defer q.mu.Unlock()
	for {
		if q.closed {
			return nil
		}
		if len(q.jobs) > 0 {
			j := q.jobs[0]
			q.jobs = q.jobs[1:]
			q.active++
			return j
		}
		if q.active == 0 {
			q.closed = true
			q.cond.Broadcast()
			return nil
		}
		atomic.AddInt32(&q.waiting, 1)
		q.cond.Wait()
		atomic.AddInt32(&q.waiting, -1)
	}
}

func (q *Queue) Done() {
	q.mu.Lock()
	q.active--
	if q.active == 0 && len(q.jobs) == 0 {
		q.closed = true
		q.cond.Broadcast()
	}
	q.mu.Unlock()
}

// W is a worker: an interpreter with its own heap, terms and solver.
type W struct {
	eng *Engine
	id  int
	tc  *TermCtx
	sol *Solver

	globals   []*Cell
	initDone  bool
	initSer   uint32
	ser       uint32
	undo      []undoRec
	methCache map[methKey]*FnInfo
	implCache map[implKey]bool

	// path state
	h                          *Harness
	prefix                     []Decision
	pos                        int
	trail                      []Decision
	pc                         []*Term
	facts                      map[*Term]bool
	comps                      map[*Term]*comp
	qcache                     map[qkey]*qres
	checks, domHits, cacheHits int64
	model                      Model
	vars                       []*Term
	nd                         []ndRec
	steps                      int64
	frame                      *Frame
	local                      []*Job
	pathInc                    string
	merges                     int64
	maxSteps                   int64
	maxDepth                   int
	seen                       map[*FnInfo]bool

	monitor  bool
	monSer   uint32
	monHits  []string
	monLocks int
	race     *raceMon
	addrs    map[any]uint64
	reached  []string
	side     map[any]any // per path side tables for intrinsics
	initSide map[any]any
}

func NewW(e *Engine, idn int) *W {
	return &W{eng: e, id: idn, tc: NewTermCtx(), sol: NewSolver(e.solverTimeout), methCache: map[methKey]*FnInfo{}, implCache: map[implKey]bool{},
		maxSteps: e.maxSteps, maxDepth: e.maxDepth, seen: map[*FnInfo]bool{}, side: map[any]any{}, facts: map[*Term]bool{}, comps: map[*Term]*comp{}, qcache: map[qkey]*qres{}}
}

func (w *W) fnSeen(fi *FnInfo) {
	if !w.seen[fi] {
		w.seen[fi] = true
	}
}

// known: is the literal already decided by an asserted fact?
func (w *W) known(c *Term) (bool, bool) {
	if c.op == ONot {
		v, ok := w.facts[c.a]
		return !v, ok
	}
	v, ok := w.facts[c]
	return v, ok
}

func (w *W) addFact(lit *Term) {
	if lit.op == ONot {
		w.facts[lit.a] = false
	} else {
		w.facts[lit] = true
		if lit.op == OAnd {
			w.addFact(lit.a)
			w.addFact(lit.b)
		}
	}
	if lit.op == ONot && lit.a.op == OOr {
		w.addFact(w.tc.Not(lit.a.a))
		w.addFact(w.tc.Not(lit.a.b))
	}
}

// comp is a connected component of the path condition (literals sharing variables).
type comp struct {
	lits   []*Term
	vars   []*Term
	h1, h2 uint64
	dom    [4]uint64 // exact domain when the component is a single variable of width <= 8
	small  bool
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func fullDom(s Sort) [4]uint64 {
	var d [4]uint64
	switch {
	case s == SBool:
		d[0] = 3
	case s < 6:
		d[0] = 1<<(1<<uint(s)) - 1
	default:
		for i := 0; i < 1<<uint(s-6); i++ {
			d[i] = ^uint64(0)
		}
	}
	return d
}

func (w *W) compOf(v *Term) *comp {
	if c := w.comps[v]; c != nil {
		return c
	}
	c := &comp{vars: []*Term{v}}
	if v.sort <= 8 && v.sort >= 0 {
		c.small = true
		c.dom = fullDom(v.sort)
	}
	w.comps[v] = c
	return c
}

func (w *W) assume(lit *Term) {
	w.pc = append(w.pc, lit)
	w.addFact(lit)
	if len(lit.vs) == 0 {
		return
	}
	c := w.compOf(lit.vs[0])
	for _, v := range lit.vs[1:] {
		d := w.compOf(v)
		if d == c {
			continue
		}
		if len(d.lits) > len(c.lits) {
			c, d = d, c
		}
		c.lits = append(c.lits, d.lits...)
		c.vars = append(c.vars, d.vars...)
		c.h1 += d.h1
		c.h2 ^= d.h2
		c.small = false
		for _, x := range d.vars {
			w.comps[x] = c
		}
	}
	c.lits = append(c.lits, lit)
	c.h1 += mix(uint64(lit.id))
	c.h2 ^= mix(uint64(lit.id) + 0x9e3779b97f4a7c15)
	if c.small {
		tb := w.tc.table(lit)
		for i := range c.dom {
			c.dom[i] &= tb[i]
		}
	}
}

type qkey struct {
	h1, h2 uint64
	id     uint32
}

type qres struct {
	r    Result
	vars []*Term
	vals []uint64
}

// check decides pc and extra. Only the components of the path condition that share
// variables with extra matter (the current model satisfies the others). Answers are
// cached; a component over one variable of at most 8 bits is decided on its exact
// finite domain, everything else by the SMT solver.
func (w *W) check(extra *Term) (Result, Model) {
	w.checks++
	var cs []*comp
	for _, v := range extra.vs {
		c := w.compOf(v)
		dup := false
		for _, x := range cs {
			if x == c {
				dup = true
				break
			}
		}
		if !dup {
			cs = append(cs, c)
		}
	}
	if len(cs) == 1 && cs[0].small {
		tb := w.tc.table(extra)
		for i := range tb {
			if x := tb[i] & cs[0].dom[i]; x != 0 {
				w.domHits++
				m := w.model.clone()
				m[cs[0].vars[0].name] = uint64(i*64 + bits.TrailingZeros64(x))
				return Sat, m
			}
		}
		w.domHits++
		return Unsat, nil
	}
	k := qkey{id: extra.id}
	for _, c := range cs {
		k.h1 += c.h1
		k.h2 ^= c.h2
	}
	if q, ok := w.qcache[k]; ok {
		w.cacheHits++
		if q.r != Sat {
			return q.r, nil
		}
		m := w.model.clone()
		for i, v := range q.vars {
			m[v.name] = q.vals[i]
		}
		return Sat, m
	}
	var lits, vars []*Term
	for _, c := range cs {
		lits = append(lits, c.lits...)
		vars = append(vars, c.vars...)
	}
	r, m := w.solve(lits, extra, vars)
	q := &qres{r: r}
	var full Model
	if r == Sat {
		full = w.model.clone()
		for _, v := range vars {
			q.vars = append(q.vars, v)
			q.vals = append(q.vals, m[v.name])
			full[v.name] = m[v.name]
		}
	}
	if r != Unknown {
		w.qcache[k] = q
	}
	return r, full
}

type binding struct{ v, t *Term }

// solve eliminates the variables that the path condition equates with other terms and
// hands the rest to the solver.
func (w *W) solve(lits []*Term, extra *Term, vars []*Term) (Result, Model) {
	all := append(append([]*Term{}, lits...), extra)
	var bs []binding
	for again := true; again; {
		again = false
		for i, l := range all {
			if l.op != OEq {
				continue
			}
			v, t := l.a, l.b
			if v.op != OVar || hasVar(t, v) {
				v, t = t, v
			}
			if v.op != OVar || hasVar(t, v) {
				continue
			}
			bs = append(bs, binding{v, t})
			memo := map[*Term]*Term{}
			out := all[:0:0]
			for j, x := range all {
				if j == i {
					continue
				}
				y := w.tc.Subst(x, v, t, memo)
				if y.isC() {
					if y.k == 0 {
						return Unsat, nil
					}
					continue
				}
				if y.op == OAnd {
					for y.op == OAnd {
						out = append(out, y.b)
						y = y.a
					}
				}
				out = append(out, y)
			}
			all = out
			again = true
			break
		}
	}
	if len(bs) == 0 {
		r, m := w.sol.Check(lits, extra, vars)
		if r == Unknown {
			r, m = w.sol.OneShot(append(lits, extra), vars)
		}
		return r, m
	}
	rest := map[*Term]bool{}
	var rv []*Term
	add := func(t *Term) {
		for _, x := range t.vs {
			if !rest[x] {
				rest[x] = true
				rv = append(rv, x)
			}
		}
	}
	for _, x := range all {
		add(x)
	}
	var r Result
	m := Model{}
	if len(all) > 0 {
		r, m = w.sol.Check(all, nil, rv)
		if r == Unknown {
			r, m = w.sol.OneShot(all, rv)
		}
	} else {
		r = Sat
	}
	if r != Sat {
		return r, nil
	}
	// variables that vanished are free: keep the current value
	full := w.model.clone()
	for k, v := range m {
		full[k] = v
	}
	for i := len(bs) - 1; i >= 0; i-- {
		w.tc.tick()
		full[bs[i].v.name] = w.tc.evalM(bs[i].t, full)
	}
	out := Model{}
	for _, v := range vars {
		out[v.name] = full[v.name]
	}
	w.tc.NewGen()
	return r, out
}

func (m Model) clone() Model {
	n := make(Model, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (w *W) setModel(m Model) {
	w.model = m
	w.tc.NewGen()
}

func (w *W) eval(t *Term) uint64 { return w.tc.Eval(t, w.model) }

func (w *W) fork(d Decision, m Model) {
	p := make([]Decision, len(w.trail)+1)
	copy(p, w.trail)
	p[len(w.trail)] = d
	w.local = append(w.local, &Job{h: w.h, prefix: p, model: m})
	atomic.AddInt64(&w.h.pending, 1)
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (w *W) branch(c *Term) bool {
	if c.isC() {
		return c.k != 0
	}
	if v, ok := w.known(c); ok {
		return v
	}
	if !w.initDone {
		panic("symbolic branch in init")
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.trail = append(w.trail, d)
		lit := c
		if !d.val {
			lit = w.tc.Not(c)
		}
		if d.forced {
			w.addFact(lit)
		} else {
			w.assume(lit)
		}
		return d.val
	}
	v := w.eval(c) != 0
	lit, other := c, w.tc.Not(c)
	if !v {
		lit, other = other, lit
	}
	r, m := w.check(other)
	d := Decision{val: v}
	switch r {
	case Unsat:
		d.forced = true
	case Sat:
		w.fork(Decision{val: !v}, m)
	default:
		w.noteInc("solver unknown on a branch")
	}
	w.trail = append(w.trail, d)
	w.pos++
	if d.forced {
		w.addFact(lit)
	} else {
		w.assume(lit)
	}
	return v
}

// conc concretises an integer value, forking over all feasible values.
func (w *W) conc(v Value, s Sort) uint64 {
	t, ok := v.(*Term)
	if !ok {
		if b, ok := v.(bool); ok {
			return b2u(b)
		}
		return v.(uint64)
	}
	if t.isC() {
		return t.k
	}
	for n := 0; ; n++ {
		if n > 600 {
			panic(&pathEnd{why: "concretisation bound at " + w.trace(), inc: true})
		}
		var x uint64
		if w.pos < len(w.prefix) {
			x = w.prefix[w.pos].v
		} else {
			x = w.eval(t)
		}
		if w.branchV(w.tc.Eq(t, w.tc.Const(t.sort, x)), x) {
			return x
		}
	}
}

// branchV is branch on t==x with the candidate value recorded in the decision. While
// replaying, x comes from the prefix. A false decision records the value tried.
func (w *W) branchV(c *Term, x uint64) bool {
	if c.isC() {
		// keep the decision stream aligned: constants are deterministic, no record
		return c.k != 0
	}
	if v, ok := w.known(c); ok {
		if w.pos < len(w.prefix) {
			w.trail = append(w.trail, w.prefix[w.pos])
			w.pos++
		} else {
			w.trail = append(w.trail, Decision{val: v, forced: true, v: x})
			w.pos++
		}
		return v
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.trail = append(w.trail, d)
		lit := c
		if !d.val {
			lit = w.tc.Not(c)
		}
		if d.forced {
			w.addFact(lit)
		} else {
			w.assume(lit)
		}
		return d.val
	}
	v := w.eval(c) != 0
	lit, other := c, w.tc.Not(c)
	if !v {
		lit, other = other, lit
	}
	r, m := w.check(other)
	d := Decision{val: v, v: x}
	switch r {
	case Unsat:
		d.forced = true
	case Sat:
		w.fork(Decision{val: !v, v: x}, m)
	default:
		w.noteInc("solver unknown on concretisation")
	}
	w.trail = append(w.trail, d)
	w.pos++
	if d.forced {
		w.addFact(lit)
	} else {
		w.assume(lit)
	}
	return v
}

func (w *W) noteInc(why string) {
	w.h.mu.Lock()
	w.h.inconclusive[why]++
	w.h.mu.Unlock()
}

func (w *W) newVar(kind string, s Sort) *Term {
	t := w.tc.Var(fmt.Sprintf("v%d_%s", len(w.nd), kind), s)
	w.vars = append(w.vars, t)
	return t
}

// choice forks n ways over a fresh variable; every value is feasible.
func (w *W) choice(n int, kind string) int {
	if n <= 0 {
		panic(&pathEnd{why: "choice of 0"})
	}
	t := w.newVar(kind, 16)
	w.nd = append(w.nd, ndRec{kind: kind, t: t})
	if n == 1 {
		w.nd[len(w.nd)-1].t = nil
		return 0
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.trail = append(w.trail, d)
		w.assume(w.tc.Eq(t, w.tc.Const(16, d.v)))
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		m := make(Model, len(w.model)+1)
		for k, v := range w.model {
			m[k] = v
		}
		m[t.name] = uint64(i)
		w.fork(Decision{val: true, v: uint64(i)}, m)
	}
	d := Decision{val: true, v: 0}
	w.trail = append(w.trail, d)
	w.pos++
	w.assume(w.tc.Eq(t, w.tc.Const(16, 0)))
	if _, ok := w.model[t.name]; ok && w.model[t.name] != 0 {
		m := make(Model, len(w.model)+1)
		for k, v := range w.model {
			m[k] = v
		}
		m[t.name] = 0
		w.setModel(m)
	}
	return 0
}

// assumeCond implements nd.Assume.
func (w *W) assumeCond(v Value) {
	if b, ok := v.(bool); ok {
		if !b {
			panic(&pathEnd{})
		}
		return
	}
	c := v.(*Term)
	if kv, ok := w.known(c); ok {
		if !kv {
			panic(&pathEnd{})
		}
		return
	}
	if w.pos < len(w.prefix) {
		w.trail = append(w.trail, w.prefix[w.pos])
		w.pos++
		w.assume(c)
		return
	}
	if w.eval(c) == 0 {
		r, m := w.check(c)
		switch r {
		case Unsat:
			panic(&pathEnd{})
		case Unknown:
			panic(&pathEnd{why: "solver unknown on an assumption", inc: true})
		}
		w.setModel(m)
	}
	w.trail = append(w.trail, Decision{val: true})
	w.pos++
	w.assume(c)
}

func (w *W) values(m Model) []NDVal {
	var r []NDVal
	for _, n := range w.nd {
		x := n.v
		if n.t != nil {
			x = m[n.t.name] & mask(n.t.sort)
		}
		r = append(r, NDVal{n.kind, x})
	}
	return r
}

func (w *W) violation(kind, label, detail string, m Model) {
	h := w.h
	h.mu.Lock()
	defer h.mu.Unlock()
	key := kind + "|" + label
	if h.ces[key] != nil {
		return
	}
	h.ces[key] = &Counterexample{Harness: h.Name, Label: label, Kind: kind, Values: w.values(m), Detail: detail, Trace: w.trace()}
}

// assertCond implements nd.Assert.
func (w *W) assertCond(v Value, label string) {
	atomic.AddInt64(&w.h.asserts, 1)
	if b, ok := v.(bool); ok {
		if b {
			if w.pos >= len(w.prefix) {
				atomic.AddInt64(&w.h.assertsConc, 1)
			}
			return
		}
		// every input of this path violates it; the path condition is satisfiable
		w.violation("assert", label, "", w.model)
		panic(&pathEnd{why: "violated"})
	}
	c := v.(*Term)
	if kv, ok := w.known(c); ok {
		if !kv {
			w.violation("assert", label, "", w.model)
			panic(&pathEnd{why: "violated"})
		}
		return
	}
	if w.pos < len(w.prefix) {
		w.trail = append(w.trail, w.prefix[w.pos])
		w.pos++
		w.assume(c)
		return
	}
	atomic.AddInt64(&w.h.obligations, 1)
	bad := w.tc.Not(c)
	var r Result
	var m Model
	if w.eval(bad) != 0 {
		r, m = Sat, w.model
	} else {
		r, m = w.check(bad)
	}
	switch r {
	case Unsat:
		atomic.AddInt64(&w.h.discharged, 1)
		w.trail = append(w.trail, Decision{val: true, forced: true})
		w.pos++
		w.assume(c)
	case Sat:
		w.violation("assert", label, "", m)
		// continue on the side where it holds, if any
		if w.eval(c) == 0 {
			r, m2 := w.check(c)
			if r != Sat {
				panic(&pathEnd{why: "violated"})
			}
			w.setModel(m2)
		}
		w.trail = append(w.trail, Decision{val: true})
		w.pos++
		w.assume(c)
	default:
		w.noteInc("solver unknown on assertion " + label)
		w.trail = append(w.trail, Decision{val: true})
		w.pos++
		w.assume(c)
	}
}

// runPath executes one path.
func (w *W) runPath(j *Job) {
	w.h = j.h
	w.prefix = j.prefix
	w.pos = 0
	w.trail = w.trail[:0]
	w.pc = w.pc[:0]
	clear(w.facts)
	clear(w.comps)
	if j.model == nil {
		j.model = Model{}
	}
	w.setModel(j.model)
	w.vars = w.vars[:0]
	w.nd = w.nd[:0]
	w.steps = 0
	w.frame = nil
	w.ser = w.initSer
	w.monitor = false
	w.monHits = nil
	w.race = nil
	w.addrs = nil
	w.reached = nil
	clear(w.side)
	w.maxSteps = w.eng.maxSteps

	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case *pathEnd:
				switch {
				case x.why == "":
					atomic.AddInt64(&w.h.infeasible, 1)
				case x.inc:
					w.noteInc(x.why)
					if strings.HasPrefix(x.why, "recursion depth") || strings.HasPrefix(x.why, "step bound") {
						// candidate non-termination: decided by the replay
						w.violation("bound", "non-termination", x.why, w.model)
					}
				}
			case *targetPanic:
				w.violation("panic", "panic escaped: "+w.panicLabel(x), x.trace, w.model)
			default:
				w.noteInc(fmt.Sprintf("engine error: %v", r))
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "ENGINE ERROR %v at %s\n%s\n", r, w.trace(), debug.Stack())
				}
			}
		}()
		w.call(w.h.fi, nil, nil, nil)
		w.keepTrace()
	}()
	atomic.AddInt64(&w.h.decisions, int64(len(w.trail)-len(w.prefix)))
	n := atomic.AddInt64(&w.h.paths, 1)
	if n <= 3 || n == 100 || n == 1000 {
		w.h.mu.Lock()
		if len(w.h.samples) < 6 {
			w.h.samples = append(w.h.samples, w.sample())
		}
		w.h.mu.Unlock()
	}
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			u.c.v = u.v
		}
	}
	w.undo = w.undo[:0]
}

// keepTrace keeps a reservoir sample of completed paths.
func (w *W) keepTrace() {
	const max = 25
	h := w.h
	h.mu.Lock()
	defer h.mu.Unlock()
	h.done++
	slot := len(h.traces)
	if slot >= max {
		slot = int(h.rnd.Int63n(h.done))
		if slot >= max {
			return
		}
	} else {
		h.traces = append(h.traces, Trace{})
	}
	h.traces[slot] = Trace{Harness: h.Name, Values: w.values(w.model), Reach: append([]string{}, w.reached...)}
}

func (w *W) sample() string {
	var sb strings.Builder
	for i, v := range w.values(w.model) {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 40 {
			sb.WriteString("…")
			break
		}
		fmt.Fprintf(&sb, "%s=%d", v.Kind, v.Val)
	}
	fmt.Fprintf(&sb, " (%d decisions, %d literals, %d steps)", len(w.trail), len(w.pc), w.steps)
	return sb.String()
}

func (w *W) panicLabel(tp *targetPanic) string {
	i, _ := tp.v.(*Iface)
	if i == nil {
		return "nil"
	}
	if s, ok := i.v.(string); ok {
		return i.t.String() + " " + s
	}
	// try Error()
	var res string
	func() {
		defer func() {
			if r := recover(); r != nil {
				res = ""
			}
		}()
		fn := w.eng.errorMethod
		if fn != nil && w.eng.tt.Implements(i.t, w.eng.errorIface) {
			if s, ok := w.call(w.lookupMethod(i.t, fn), []Value{i.v}, nil, nil).(string); ok {
				res = s
			}
		}
	}()
	return i.t.String() + " " + res
}

// Run explores all harnesses with n workers until done or the deadline.
func (e *Engine) Run(hs []*Harness, n int, deadline time.Time) {
	q := NewQueue()
	for _, h := range hs {
		h.fi = e.Fn(h.fn)
		h.ces = map[string]*Counterexample{}
		h.reach = map[string]int64{}
		h.fns = map[*FnInfo]bool{}
		h.inconclusive = map[string]int64{}
		h.pending = 1
		h.rnd = rand.New(rand.NewSource(e.seed))
		h.start = time.Now()
		q.Push(&Job{h: h})
	}
	var wg sync.WaitGroup
	e.workers = nil
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := NewW(e, i)
			mu.Lock()
			e.workers = append(e.workers, w)
			mu.Unlock()
			w.init()
			defer w.sol.Close()
			np := 0
			for {
				j := q.Pop()
				if j == nil {
					return
				}
				w.local = append(w.local[:0], j)
				for len(w.local) > 0 {
					x := w.local[len(w.local)-1]
					w.local = w.local[:len(w.local)-1]
					if time.Now().After(deadline) || (e.stopOnCE && len(x.h.ces) > 40) {
						atomic.AddInt64(&x.h.dropped, 1)
						e.finishJob(x)
						continue
					}
					clear(w.seen)
					w.runPath(x)
					x.h.mu.Lock()
					for f := range w.seen {
						x.h.fns[f] = true
					}
					x.h.mu.Unlock()
					e.finishJob(x)
					np++
					if len(w.tc.tab) > 1500000 {
						w.resetTerms()
					}
					// donate the oldest half when others are idle
					if len(w.local) > 1 && atomic.LoadInt32(&q.waiting) > 0 {
						k := len(w.local) / 2
						for _, y := range w.local[:k] {
							q.Push(y)
						}
						w.local = append([]*Job{}, w.local[k:]...)
					}
				}
				q.Done()
			}
		}(i)
	}
	wg.Wait()
}

func (e *Engine) finishJob(j *Job) {
	if atomic.AddInt64(&j.h.pending, -1) == 0 {
		j.h.wall = time.Since(j.h.start)
	}
}

// resetTerms drops the term table (terms in the init heap are all concrete).
func (w *W) resetTerms() {
	w.sol.Restart()
	w.tc = NewTermCtx()
	clear(w.qcache)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
