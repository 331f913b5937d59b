package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type engineError string

func (e engineError) Error() string { return string(e) }

type targetPanic struct{ v Value } // v is an interface value (any)
type killPath struct{ why string }
type budgetExceeded struct{ what string }

type deferRec struct {
	fn   *Func
	free []Value
	args []Value
	bi   *ssa.Builtin
	next *deferRec
}

type panicRec struct{ v Value }

type Frame struct {
	fn        *Func
	pc        int
	r         []Value
	parent    *Frame
	ret       int32
	defers    *deferRec
	panicking *panicRec
	recovered bool
	deferOf   bool
	stamp     uint64
	depth     int
}

func (f *Frame) clone() *Frame {
	g := *f
	g.r = append([]Value(nil), f.r...)
	return &g
}

func (f *Frame) v(i int32) Value {
	if i >= 0 {
		return f.r[i]
	}
	return f.fn.consts[^i]
}

type trailEnt struct {
	p   *Value
	old Value
	f   func()
}

// dec is one recorded nondeterministic outcome of a path.
type dec struct {
	b   bool
	imp bool   // implied by the path condition
	v   uint64 // candidate value of a concretisation
}

type choicePoint struct {
	fr       *Frame
	mark     int // heap trail
	decLen   int // decisions at the start of the instruction
	pre      []dec
	pcLen    int
	knownLen int
	inLen    int
	evLen    int
	coverLen int
	steps    int64
	stamp    uint64
	model    Model
}

type inputRec struct {
	name string
	e    *Expr // nil for Choose
	val  uint64
	ch   bool
}

// event is something observable about a path, compared with the native run.
type event struct {
	kind  string // "assert", "obs", "cover", "known"
	label string
	v     []Value // string bytes or scalar
	w     uint8
	str   bool
}

// M is one symbolic machine (one worker).
type M struct {
	x      *Explorer
	prog   *Program
	t      *Terms
	sol    *Solver
	funcs  map[*ssa.Function]*Func
	glob   map[*ssa.Global]*Value
	failed map[*ssa.Package]bool // the initialiser stopped half way
	rtypes rtypeTable

	fr    *Frame
	done  bool
	steps int64
	trail []trailEnt
	mark  int

	pc       []*Expr
	known    map[*Expr]bool
	knownLog []*Expr
	concMask uint64
	concV    map[*Expr]*Expr
	decs     []dec
	forced   []dec
	decStep  int64 // m.steps of the last decision
	decBase  int   // len(decs) at the start of the current instruction
	pcBase   int
	knBase   int
	inBase   int
	evBase   int
	covBase  int
	model    Model
	cps      []*choicePoint
	counter  uint64
	epoch    uint64
	inputs   []inputRec
	events   []event
	root     *choicePoint
	inInit   bool
	started  bool

	rtErr *RType // shim.RuntimeError

	onceDone   []*Value
	env        map[string]Value
	stopAtRoot bool

	pathNo int64
	stats  *Stats
}

func (m *M) undo(f func()) { m.trail = append(m.trail, trailEnt{f: f}) }

// store writes v into the slot p, in place for aggregates.
func (m *M) store(p *Value, v Value) {
	if v.o != nil {
		if a, ok := v.o.(*Agg); ok {
			if b, ok := p.o.(*Agg); ok {
				m.storeAgg(b, a)
				return
			}
			v = Value{o: copyAgg(a)}
		}
	}
	m.trail = append(m.trail, trailEnt{p: p, old: *p})
	*p = v
}

func (m *M) storeAgg(dst, src *Agg) {
	if dst == src {
		return
	}
	for i := range dst.f {
		m.store(&dst.f[i], src.f[i])
	}
}

func (m *M) undoTo(mark int) {
	for i := len(m.trail) - 1; i >= mark; i-- {
		e := &m.trail[i]
		if e.f != nil {
			e.f()
			e.f = nil
		} else {
			*e.p = e.old
		}
		e.p = nil
		e.old = Value{}
	}
	m.trail = m.trail[:mark]
}

// ---- path condition ----

func (m *M) learn(e *Expr, b bool) {
	if _, ok := m.known[e]; ok {
		return
	}
	m.known[e] = b
	m.knownLog = append(m.knownLog, e)
	switch e.op {
	case ONot:
		m.learn(e.a, !b)
	case OAnd:
		if b {
			m.learn(e.a, true)
			m.learn(e.b, true)
		}
	case OOr:
		if !b {
			m.learn(e.a, false)
			m.learn(e.b, false)
		}
	case OEq:
		if b && e.a.op == OVar && e.b.op == OConst {
			m.concV[e.a] = e.b
			m.concMask |= e.a.mask
		}
	case OVar:
		m.concV[e] = m.t.Bool(b)
		m.concMask |= e.mask
	}
}

func (m *M) unlearn(n int) {
	if n == len(m.knownLog) {
		return
	}
	for i := len(m.knownLog) - 1; i >= n; i-- {
		e := m.knownLog[i]
		delete(m.known, e)
		if e.op == OEq && e.a.op == OVar {
			delete(m.concV, e.a)
		}
		if e.op == OVar {
			delete(m.concV, e)
		}
	}
	m.knownLog = m.knownLog[:n]
	m.concMask = 0
	for v := range m.concV {
		m.concMask |= v.mask
	}
}

// simp rewrites e with what the path already fixed.
func (m *M) simp(e *Expr) *Expr {
	if e.op == OConst || len(m.knownLog) == 0 {
		return e
	}
	return m.t.Subst(e, ^uint64(0), func(x *Expr) *Expr {
		if x.op == OVar {
			if c, ok := m.concV[x]; ok {
				return c
			}
			return nil
		}
		if x.w == 0 {
			if b, ok := m.known[x]; ok {
				return m.t.Bool(b)
			}
		}
		return nil
	})
}

func (m *M) assume(lit *Expr) {
	m.pc = append(m.pc, lit)
	if lit.op == ONot {
		m.learn(lit.a, false)
	} else {
		m.learn(lit, true)
	}
}

func (m *M) beginDecision() {
	if m.decStep != m.steps {
		m.decStep = m.steps
		m.decBase = len(m.decs)
		m.pcBase = len(m.pc)
		m.knBase = len(m.knownLog)
		m.inBase = len(m.inputs)
		m.evBase = len(m.events)
	}
	if m.root == nil && m.started {
		// first nondeterminism of this machine: everything before it is
		// permanent set-up, shared by all paths.
		m.trail = m.trail[:0]
		fr := m.fr.clone()
		fr.pc--
		m.counter++
		m.root = &choicePoint{fr: fr, steps: m.steps - 1, stamp: m.counter}
		m.fr.stamp = m.counter
		m.epoch = m.counter
		// everything the current instruction did so far is part of set-up
		m.decBase, m.pcBase, m.knBase, m.inBase, m.evBase = 0, 0, 0, len(m.inputs), len(m.events)
		m.root.inLen, m.root.evLen = len(m.inputs), len(m.events)
		m.mark = 0
		if m.stopAtRoot {
			panic(rootReached{})
		}
	}
}

// decide returns the truth of c on this path, forking when both are possible.
func (m *M) decide(c *Expr) bool {
	if c.op == OConst {
		return c.c != 0
	}
	c = m.simp(c)
	if c.op == OConst {
		return c.c != 0
	}
	return m.decideV(c, 0)
}

func (m *M) lit(c *Expr, b bool) *Expr {
	if b {
		return c
	}
	return m.t.Not(c)
}

func (m *M) decideV(c *Expr, val uint64) bool {
	if m.inInit {
		panic(engineError("symbolic value during package initialisation"))
	}
	m.beginDecision()
	if len(m.forced) > 0 {
		d := m.forced[0]
		m.forced = m.forced[1:]
		m.decs = append(m.decs, d)
		l := m.lit(c, d.b)
		if d.imp {
			m.learnLit(l)
		} else {
			m.assume(l)
		}
		return d.b
	}
	b := m.t.Eval(c, m.model) != 0
	other := m.lit(c, !b)
	mod := m.patch(other)
	if mod == nil {
		m.stats.Queries++
		r, vals := m.sol.Check(m.pc, other, m.pathVars())
		switch r {
		case Unsat:
			m.decs = append(m.decs, dec{b: b, imp: true, v: val})
			m.learnLit(m.lit(c, b))
			return b
		case Unknown:
			panic(engineError("solver: unknown on a branch condition (" + strings.Join(m.sol.errs, "; ") + ") " + c.String()))
		}
		mod = m.mkModel(vals)
		if m.t.Eval(other, mod) == 0 {
			panic(engineError("solver model does not satisfy the query: " + other.String()))
		}
	} else {
		m.stats.PatchSat++
	}
	// both outcomes possible
	fr := m.fr.clone()
	fr.pc--
	m.counter++
	pre := append([]dec(nil), m.decs[m.decBase:]...)
	pre = append(pre, dec{b: !b, v: val})
	m.cps = append(m.cps, &choicePoint{
		fr: fr, mark: m.mark, decLen: m.decBase, pre: pre, pcLen: m.pcBase, knownLen: m.knBase,
		inLen: m.inBase, evLen: m.evBase, steps: m.steps - 1, stamp: m.counter, model: mod,
	})
	m.fr.stamp = m.counter
	m.epoch = m.counter
	m.stats.Choices++
	m.decs = append(m.decs, dec{b: b, v: val})
	m.assume(m.lit(c, b))
	return b
}

func (m *M) learnLit(l *Expr) {
	if l.op == ONot {
		m.learn(l.a, false)
	} else {
		m.learn(l, true)
	}
}

func (m *M) pathVars() []*Expr {
	var r []*Expr
	for _, in := range m.inputs {
		if in.e != nil {
			r = append(r, in.e)
		}
	}
	return r
}

func (m *M) mkModel(vals []uint64) Model {
	mod := make(Model, len(m.t.vars))
	i := 0
	for _, in := range m.inputs {
		if in.e != nil {
			mod[in.e.c] = vals[i]
			i++
		}
	}
	return mod
}

// patch looks for a model of pc ∧ lit close to the current one by changing a
// single variable. A model found this way is a certificate by itself.
func (m *M) patch(lit *Expr) Model {
	if lit.size > 200 {
		return nil
	}
	var v *Expr
	n := 0
	for _, in := range m.inputs {
		if in.e != nil && in.e.mask&lit.mask != 0 {
			v = in.e
			n++
		}
	}
	if n != 1 || len(m.inputs) > 60 {
		return nil
	}
	var rel []*Expr
	for _, p := range m.pc {
		if p.mask&v.mask != 0 {
			rel = append(rel, p)
		}
	}
	mod := append(Model(nil), m.model...)
	for uint64(len(mod)) <= v.c {
		mod = append(mod, 0)
	}
	try := func(x uint64) bool {
		mod[v.c] = x & maskW(v.w)
		if m.t.Eval(lit, mod) == 0 {
			return false
		}
		for _, p := range rel {
			if m.t.Eval(p, mod) == 0 {
				return false
			}
		}
		return true
	}
	if v.w == 0 {
		if try(1 - mod[v.c]) {
			return mod
		}
		return nil
	}
	cur := mod[v.c]
	if v.w == 8 {
		for i := uint64(0); i < 256; i++ {
			if try((0x61 + i) & 0xff) {
				return mod
			}
		}
		return nil
	}
	cands := []uint64{cur + 1, cur - 1, 0, 1, 2, 3, 4, 5, 6, 7, 8, ^uint64(0)}
	collectConsts(lit, &cands, 0)
	for _, x := range cands {
		if try(x) {
			return mod
		}
	}
	return nil
}

func collectConsts(e *Expr, out *[]uint64, depth int) {
	if depth > 8 || e == nil {
		return
	}
	if e.op == OConst && e.w > 0 {
		*out = append(*out, e.c, e.c+1, e.c-1)
		return
	}
	collectConsts(e.a, out, depth+1)
	collectConsts(e.b, out, depth+1)
	collectConsts(e.d, out, depth+1)
}

// truth decides a bool Value.
func (m *M) truth(v Value) bool {
	if v.o == nil {
		return v.n != 0
	}
	return m.decide(v.o.(*Expr))
}

// concretize forks over the possible values of e.
func (m *M) concretize(e *Expr) uint64 {
	for i := 0; ; i++ {
		e = m.simp(e)
		if e.op == OConst {
			return e.c
		}
		if i > 400 {
			panic(engineError("concretisation of a term with too many values: " + e.String()))
		}
		var v uint64
		if len(m.forced) > 0 {
			v = m.forced[0].v
		} else {
			v = m.t.Eval(e, m.model)
		}
		c := m.t.Eq(e, m.t.Const(e.w, v))
		if c.op == OConst {
			if c.c != 0 {
				return v
			}
			continue
		}
		if m.decideV(c, v) {
			return v
		}
	}
}

func (m *M) intOf(v Value, w uint8) int64 {
	if v.o == nil {
		return sextW(v.n, w)
	}
	return sextW(m.concretize(v.o.(*Expr)), w)
}

// require adds c to the path condition, or ends the path.
func (m *M) require(c *Expr) {
	if c.op == OConst {
		if c.c == 0 {
			panic(killPath{"assume"})
		}
		return
	}
	c = m.simp(c)
	if c.op == OConst {
		if c.c == 0 {
			panic(killPath{"assume"})
		}
		return
	}
	m.beginDecision()
	if len(m.forced) > 0 {
		// the model handed over already satisfies every assumption
		m.assume(c)
		return
	}
	if m.t.Eval(c, m.model) == 0 {
		mod := m.patch(c)
		if mod == nil {
			m.stats.Queries++
			r, vals := m.sol.Check(m.pc, c, m.pathVars())
			switch r {
			case Unsat:
				panic(killPath{"assume"})
			case Unknown:
				panic(engineError("solver: unknown on an assumption"))
			}
			mod = m.mkModel(vals)
		}
		m.model = mod
	}
	m.assume(c)
}

// ---- control ----

func (m *M) writable(p *Frame) *Frame {
	if p.stamp < m.epoch {
		p = p.clone()
		p.stamp = m.counter
	}
	return p
}

func (m *M) ret(fr *Frame, v Value) {
	p := fr.parent
	if p == nil {
		m.done = true
		return
	}
	p = m.writable(p)
	m.fr = p
	if fr.ret >= 0 {
		p.r[fr.ret] = v
	}
	if p.panicking != nil && fr.deferOf {
		if p.recovered {
			p.panicking = nil
			p.recovered = false
			p.pc = p.fn.recover
			return
		}
		m.unwind(p.panicking)
	}
}

// unwind propagates a panic from the current frame.
func (m *M) unwind(pv *panicRec) {
	fr := m.writable(m.fr)
	for {
		for fr.defers != nil {
			d := fr.defers
			fr.defers = d.next
			fr.panicking = pv
			fr.recovered = false
			m.fr = fr
			if m.callDeferred(fr, d) {
				return
			}
		}
		if fr.parent == nil {
			m.fr = fr
			panic(uncaught{pv.v})
		}
		fr = m.writable(fr.parent)
		m.fr = fr
	}
}

type uncaught struct{ v Value }

// callDeferred starts a deferred call; false when it completed at once.
func (m *M) callDeferred(fr *Frame, d *deferRec) bool {
	if d.bi != nil {
		m.builtin(fr, d.bi, d.args, nil)
		return false
	}
	if d.fn.intr != nil {
		d.fn.intr(m, fr, d.args)
		return false
	}
	m.push(fr, d.fn, d.free, d.args, -1, true)
	return true
}

func (m *M) push(fr *Frame, fn *Func, free, args []Value, dst int32, deferOf bool) {
	if !fn.compiled {
		m.compile(fn)
	}
	fn.calls++
	nf := &Frame{fn: fn, parent: fr, ret: dst, deferOf: deferOf, stamp: m.counter, depth: fr.depth + 1}
	if nf.depth > m.x.cfg.MaxDepth {
		panic(budgetExceeded{"call depth"})
	}
	nf.r = make([]Value, fn.nregs)
	n := copy(nf.r, args)
	copy(nf.r[n:], free)
	m.fr = nf
}

// call invokes fn with args; dst receives the result.
func (m *M) call(fr *Frame, fn *Func, free, args []Value, dst int32) {
	if fn.fast != nil {
		if v, ok := fn.fast(args); ok {
			if dst >= 0 {
				fr.r[dst] = v
			}
			return
		}
	}
	if fn.intr != nil {
		fn.calls++
		v := fn.intr(m, fr, args)
		if dst >= 0 {
			fr.r[dst] = v
		}
		return
	}
	m.push(fr, fn, free, args, dst, false)
}

func (m *M) throw(v Value) { panic(&targetPanic{v}) }

// throwRT raises a Go run-time error.
func (m *M) throwRT(msg string) {
	if m.rtErr == nil {
		panic(engineError("runtime error before shim is known: " + msg))
	}
	m.throw(Value{o: &Iface{m.rtErr, Value{o: &Agg{[]Value{strV(msg)}}}}})
}

func (m *M) describe(v Value) string {
	if v.o == nil {
		return "nil"
	}
	i, ok := v.o.(*Iface)
	if !ok {
		return "?"
	}
	render := func(x Value) string {
		if s, ok := conc(x); ok {
			return s
		}
		b := make([]byte, 0)
		for _, y := range strBytes(x) {
			if y.o == nil {
				b = append(b, byte(y.n))
			} else {
				b = append(b, byte(m.t.Eval(y.o.(*Expr), m.model)))
			}
		}
		return string(b)
	}
	switch u := i.t.t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return render(i.v)
		}
		return fmt.Sprintf("%s(%d)", i.t.t, i.v.n)
	case *types.Struct:
		if i.t == m.rtErr {
			return "runtime error: " + render(i.v.o.(*Agg).f[0])
		}
	case *types.Pointer:
		if i.t.t.String() == "*errors.errorString" || i.t.t.String() == "*fmt.wrapError" {
			return render(i.v.o.(*Value).o.(*Agg).f[0])
		}
	}
	return "value of type " + i.t.t.String()
}

// outcome of one path
type outcome struct {
	kind   string // done panic killed budget error
	detail string
	stack  []string
}

// segment executes instructions until the path ends or something unusual
// happens.
func (m *M) segment() (out *outcome) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case *targetPanic:
			m.fr = m.writable(m.fr)
			out = m.doUnwind(x.v)
		case uncaught:
			out = &outcome{kind: "panic", detail: m.describe(x.v), stack: m.backtrace()}
		case killPath:
			out = &outcome{kind: "killed", detail: x.why}
		case rootReached:
			out = &outcome{kind: "root"}
		case budgetExceeded:
			out = &outcome{kind: "budget", detail: x.what, stack: m.backtrace()}
		case engineError:
			out = &outcome{kind: "error", detail: string(x), stack: m.backtrace()}
		default:
			out = &outcome{kind: "error", detail: fmt.Sprintf("%v\n%s", r, debug.Stack()), stack: m.backtrace()}
		}
	}()
	limit := m.x.cfg.MaxSteps
	for !m.done {
		fr := m.fr
		m.steps++
		if m.steps > limit {
			panic(budgetExceeded{"steps"})
		}
		m.mark = len(m.trail)
		fr.fn.steps++
		f := fr.fn.code[fr.pc]
		fr.pc++
		f(m, fr)
	}
	return &outcome{kind: "done"}
}

func (m *M) doUnwind(v Value) (out *outcome) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case uncaught:
			out = &outcome{kind: "panic", detail: m.describe(x.v), stack: m.backtrace()}
		case *targetPanic:
			out = m.doUnwind(x.v)
		case engineError:
			out = &outcome{kind: "error", detail: string(x), stack: m.backtrace()}
		case budgetExceeded:
			out = &outcome{kind: "budget", detail: x.what, stack: m.backtrace()}
		default:
			out = &outcome{kind: "error", detail: fmt.Sprintf("%v\n%s", r, debug.Stack())}
		}
	}()
	m.unwind(&panicRec{v})
	return nil
}

func (m *M) backtrace() []string {
	var r []string
	for f := m.fr; f != nil && len(r) < 40; f = f.parent {
		pos := ""
		if f.pc > 0 && f.pc-1 < len(f.fn.src) && f.fn.src[f.pc-1] != nil {
			p := f.fn.src[f.pc-1].Pos()
			if p == token.NoPos {
				for k := f.pc - 1; k >= 0 && p == token.NoPos; k-- {
					if f.fn.src[k] != nil {
						p = f.fn.src[k].Pos()
					}
				}
			}
			pos = m.prog.Fset.Position(p).String()
		}
		r = append(r, f.fn.name+" "+pos)
	}
	return r
}

// runPath runs the current path to its end.
func (m *M) runPath() *outcome {
	for {
		if out := m.segment(); out != nil {
			return out
		}
	}
}

// backtrack resumes the latest choice point; false when there is none.
func (m *M) backtrack() bool {
	n := len(m.cps)
	if n == 0 {
		return false
	}
	cp := m.cps[n-1]
	m.cps = m.cps[:n-1]
	m.restore(cp)
	m.forced = cp.pre
	m.model = cp.model
	m.pathNo++
	return true
}

func (m *M) restore(cp *choicePoint) {
	m.undoTo(cp.mark)
	m.unlearn(cp.knownLen)
	m.pc = m.pc[:cp.pcLen]
	m.decs = m.decs[:cp.decLen]
	m.inputs = m.inputs[:cp.inLen]
	m.events = m.events[:cp.evLen]
	m.steps = cp.steps
	m.decStep = -1
	m.done = false
	m.epoch = m.root.stamp
	if k := len(m.cps); k > 0 {
		m.epoch = m.cps[k-1].stamp
	}
	m.fr = cp.fr
	m.counter++
	m.fr.stamp = m.counter
}

// restart begins a new job from the root with a forced prefix.
func (m *M) restart(prefix []dec, model []namedVal) {
	m.cps = m.cps[:0]
	cp := *m.root
	cp.fr = m.root.fr.clone()
	m.restore(&cp)
	m.forced = prefix
	m.model = m.model[:0]
	m.setModel(model)
	m.pathNo++
}

func (m *M) setModel(model []namedVal) {
	m.model = make(Model, len(m.t.vars)+len(model))
	for _, nv := range model {
		e := m.t.Var(nv.name, nv.w)
		m.model[e.c] = nv.v
	}
}

// donate hands the oldest open alternative to another worker.
func (m *M) donate() *job {
	if len(m.cps) == 0 {
		return nil
	}
	cp := m.cps[0]
	m.cps = append(m.cps[:0:0], m.cps[1:]...)
	pre := append([]dec(nil), m.decs[:cp.decLen]...)
	pre = append(pre, cp.pre...)
	var mod []namedVal
	for _, v := range m.t.vars {
		if v.c < uint64(len(cp.model)) {
			mod = append(mod, namedVal{v.name, v.w, cp.model[v.c]})
		}
	}
	return &job{prefix: pre, model: mod}
}

type namedVal struct {
	name string
	w    uint8
	v    uint64
}

type job struct {
	prefix []dec
	model  []namedVal
}
