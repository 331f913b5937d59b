package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type rtypeTable struct {
	m  typeutil.Map
	n  int
	fc map[types.Type]*RType // fast path by pointer identity
}

func (m *M) rtype(t types.Type) *RType {
	if r, ok := m.rtypes.fc[t]; ok {
		return r
	}
	var r *RType
	ut := types.Unalias(t)
	if x := m.rtypes.m.At(ut); x != nil {
		r = x.(*RType)
	} else {
		r = &RType{t: ut, id: m.rtypes.n, impl: map[*RType]bool{}, methods: map[*types.Func]*Func{}}
		m.rtypes.n++
		m.rtypes.m.Set(ut, r)
	}
	if m.rtypes.fc == nil {
		m.rtypes.fc = map[types.Type]*RType{}
	}
	m.rtypes.fc[t] = r
	return r
}

func (m *M) implements(t, iface *RType) bool {
	if b, ok := t.impl[iface]; ok {
		return b
	}
	b := types.Implements(t.t, iface.t.Underlying().(*types.Interface))
	t.impl[iface] = b
	return b
}

// method finds the function implementing an interface method for t.
func (m *M) method(t *RType, meth *types.Func) *Func {
	if f, ok := t.methods[meth]; ok {
		return f
	}
	m.prog.mu.Lock()
	fn := m.prog.SSA.LookupMethod(t.t, meth.Pkg(), meth.Name())
	m.prog.mu.Unlock()
	if fn == nil {
		panic(engineError(fmt.Sprintf("no method %s on %s", meth, t.t)))
	}
	f := m.fn(fn)
	t.methods[meth] = f
	return f
}

func (m *M) fn(f *ssa.Function) *Func {
	if x, ok := m.funcs[f]; ok {
		return x
	}
	name := f.String()
	if r, ok := m.prog.Shims[name]; ok {
		x := m.fn(r)
		m.funcs[f] = x
		return x
	}
	x := &Func{fn: f, name: name}
	x.closure = Value{o: &Closure{fn: x}}
	m.funcs[f] = x
	x.fast = fastPaths[name]
	if f.Synthetic == "package initializer" {
		x.intr = nop // the initialisers are run in order by runInits
	}
	if in, ok := intrinsics[name]; ok {
		x.intr = in
	} else if o := f.Origin(); o != nil {
		if in, ok := intrinsics[o.String()]; ok {
			x.intr = in
		}
	}
	return x
}

// uninit tells whether g has an initial value which was not computed.
// The standard files stay nil: what is written there is dropped.
func (m *M) uninit(g *ssa.Global) bool {
	switch g.String() {
	case "os.Stdin", "os.Stdout", "os.Stderr":
		return false
	}
	return m.prog.uninit[g] || m.failed[g.Pkg] && m.global(g).isZero() && initialised(g.Pkg)[g]
}

func (v Value) isZero() bool {
	if a, ok := v.o.(*Agg); ok {
		for _, x := range a.f {
			if !x.isZero() {
				return false
			}
		}
		return true
	}
	return v.o == nil && v.n == 0
}

func (m *M) global(g *ssa.Global) *Value {
	if p, ok := m.glob[g]; ok {
		return p
	}
	p := new(Value)
	t := g.Type().(*types.Pointer).Elem()
	*p = m.zero(t)
	if g.String() == "os.Stderr" {
		// told apart from the standard output, which is nil
		file := m.zero(t.(*types.Pointer).Elem())
		p.o = &file
	}
	m.glob[g] = p
	return p
}

type compiler struct {
	m     *M
	f     *Func
	regs  map[ssa.Value]int32
	cidx  map[ssa.Value]int32
	ckeys map[string]int32
	fix   []func() // after block starts are known
	cur   ssa.Instruction
}

func (m *M) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(engineError("constant of type " + t.String()))
	}
	if bits, ok := isFloat(b); ok {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return floatV(f, bits)
	}
	switch {
	case b.Info()&types.IsString != 0:
		return strV(constant.StringVal(c.Value))
	case b.Info()&types.IsBoolean != 0:
		return boolV(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, _, _ := widthOf(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: uint64(i) & maskW(w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: u & maskW(w)}
	}
	panic(engineError("constant of type " + t.String()))
}

func (c *compiler) addConst(v Value) int32 {
	c.f.consts = append(c.f.consts, v)
	return ^int32(len(c.f.consts) - 1)
}

// op returns the operand index of a value.
func (c *compiler) op(v ssa.Value) int32 {
	if i, ok := c.regs[v]; ok {
		return i
	}
	if i, ok := c.cidx[v]; ok {
		return i
	}
	var i int32
	switch x := v.(type) {
	case *ssa.Const:
		i = c.addConst(c.m.constant(x))
	case *ssa.Function:
		i = c.addConst(c.m.fn(x).closure)
	case *ssa.Global:
		i = c.addConst(Value{o: c.m.global(x)})
	case *ssa.Builtin:
		i = c.addConst(Value{})
	default:
		i = int32(c.f.nregs)
		c.f.nregs++
		c.regs[v] = i
		return i
	}
	c.cidx[v] = i
	return i
}

func (c *compiler) ops(vs []ssa.Value) []int32 {
	r := make([]int32, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func gather(fr *Frame, ix []int32) []Value {
	r := make([]Value, len(ix))
	for i, x := range ix {
		r[i] = fr.v(x)
	}
	return r
}

func (m *M) compile(f *Func) {
	fn := f.fn
	if fn.Blocks == nil {
		panic(engineError("function without a body: " + f.name))
	}
	c := &compiler{m: m, f: f, regs: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}}
	for _, p := range fn.Params {
		c.op(p)
	}
	for _, p := range fn.FreeVars {
		c.op(p)
	}
	f.nparams = len(fn.Params)
	f.start = make([]int, len(fn.Blocks))
	f.recover = -1
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		c.block(b)
	}
	// code that runs after a recovered panic
	f.recover = len(f.code)
	c.emit(nil, runDefers)
	if fn.Recover != nil {
		f.start[fn.Recover.Index] = len(f.code)
		for _, in := range fn.Recover.Instrs {
			c.instr(in)
		}
	} else {
		z := m.zeroResult(fn.Signature)
		c.emit(nil, func(m *M, fr *Frame) { m.ret(fr, copyV(z)) })
	}
	for _, g := range c.fix {
		g()
	}
	f.compiled = true
}

func (m *M) zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return Value{}
	case 1:
		return m.zero(sig.Results().At(0).Type())
	}
	return m.zero(sig.Results())
}

func (c *compiler) emit(in ssa.Instruction, f instr) {
	c.f.code = append(c.f.code, f)
	c.f.src = append(c.f.src, in)
}

func (c *compiler) block(b *ssa.BasicBlock) {
	c.f.start[b.Index] = len(c.f.code)
	for _, in := range b.Instrs {
		c.instr(in)
	}
}

type move struct{ dst, src int32 }

// edge compiles the control transfer from block b to block t.
func (c *compiler) edge(b, t *ssa.BasicBlock) func(fr *Frame) {
	idx := -1
	// b may be listed twice among t's predecessors (both arms of an If); both
	// entries then carry the same phi operands position by position, but the
	// operands differ, so the caller passes the arm via predIndex.
	for i, p := range t.Preds {
		if p == b {
			idx = i
			break
		}
	}
	return c.edgeIdx(t, idx)
}

func (c *compiler) edgeIdx(t *ssa.BasicBlock, idx int) func(fr *Frame) {
	var mv []move
	for _, in := range t.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mv = append(mv, move{c.op(phi), c.op(phi.Edges[idx])})
	}
	f := c.f
	pc := new(int)
	c.fix = append(c.fix, func() { *pc = f.start[t.Index] })
	// is a sequential copy safe?
	safe := true
	for i := range mv {
		for j := i + 1; j < len(mv); j++ {
			if mv[j].src == mv[i].dst {
				safe = false
			}
		}
	}
	switch {
	case len(mv) == 0:
		return func(fr *Frame) { fr.pc = *pc }
	case len(mv) == 1:
		d, s := mv[0].dst, mv[0].src
		return func(fr *Frame) { fr.r[d] = fr.v(s); fr.pc = *pc }
	case safe:
		return func(fr *Frame) {
			for _, x := range mv {
				fr.r[x.dst] = fr.v(x.src)
			}
			fr.pc = *pc
		}
	}
	return func(fr *Frame) {
		var tmp [16]Value
		vs := tmp[:0]
		for _, x := range mv {
			vs = append(vs, fr.v(x.src))
		}
		for i, x := range mv {
			fr.r[x.dst] = vs[i]
		}
		fr.pc = *pc
	}
}

func runDefers(m *M, fr *Frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.pc-- // come back here
		if m.callDeferred(fr, d) {
			return
		}
		fr.pc++
	}
}

func slot(m *M, v Value) *Value {
	p, ok := v.o.(*Value)
	if !ok {
		if v.o == nil {
			m.throwRT("invalid memory address or nil pointer dereference")
		}
		panic(engineError(fmt.Sprintf("pointer expected, got %T", v.o)))
	}
	return p
}

func (m *M) load(v Value) Value {
	switch p := v.o.(type) {
	case *Value:
		return copyV(*p)
	case *SymPtr:
		return m.iteOver(p.elems, p.idx)
	case nil:
		m.throwRT("invalid memory address or nil pointer dereference")
	}
	panic(engineError(fmt.Sprintf("load through %T", v.o)))
}

// iteOver selects elems[idx] for a symbolic in-bounds index.
func (m *M) iteOver(elems []Value, idx *Expr) Value {
	w := uint8(0xff)
	scalar := true
	for _, e := range elems {
		switch x := e.o.(type) {
		case nil:
		case *Expr:
			w = x.w
		default:
			scalar = false
		}
	}
	if !scalar {
		return copyV(elems[m.concretize(idx)])
	}
	if w == 0xff {
		// all concrete: width unknown here, use 64 and let the caller narrow
		return m.iteConst(elems, idx, 64)
	}
	return m.iteConst(elems, idx, w)
}

func (m *M) iteConst(elems []Value, idx *Expr, w uint8) Value {
	t := m.t
	n := len(elems)
	r := m.expr(elems[n-1], w)
	// runs of equal values become range tests
	for i := n - 2; i >= 0; {
		j := i
		for j > 0 && elems[j-1].o == nil && elems[i].o == nil && elems[j-1].n == elems[i].n {
			j--
		}
		v := m.expr(elems[i], w)
		if v != r {
			c := t.Cmp(OUlt, idx, t.Const(idx.w, uint64(i+1)))
			r = t.Ite(c, v, r)
		}
		i = j - 1
	}
	return exprV(r)
}

func narrow(m *M, v Value, w uint8) Value {
	if e := v.sym(); e != nil && e.w != w {
		if w == 0 {
			return exprV(m.t.Not(m.t.Eq(e, m.t.Const(e.w, 0))))
		}
		return exprV(m.t.Trunc(e, w))
	}
	return v
}

func (c *compiler) instr(in ssa.Instruction) {
	c.cur = in
	f := c.compileInstr(in)
	if f != nil && c.f.fn.Synthetic != "package initializer" {
		for _, o := range in.Operands(nil) {
			if g, ok := (*o).(*ssa.Global); ok && c.m.uninit(g) {
				f = c.unsupported("the initial value of " + g.String())
			}
		}
	}
	if f != nil {
		c.emit(in, f)
	}
}

func (c *compiler) compileInstr(in ssa.Instruction) instr {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		return nil
	case *ssa.Alloc:
		d := c.op(x)
		t := x.Type().(*types.Pointer).Elem()
		z := c.m.zero(t)
		if _, ok := z.o.(*Agg); ok {
			return func(m *M, fr *Frame) { p := new(Value); *p = copyV(z); fr.r[d] = Value{o: p} }
		}
		return func(m *M, fr *Frame) { fr.r[d] = Value{o: new(Value)} }
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(m *M, fr *Frame) {
			p := fr.v(a)
			if sp, ok := p.o.(*SymPtr); ok {
				m.store(&sp.elems[m.concretize(sp.idx)], fr.v(v))
				return
			}
			m.store(slot(m, p), fr.v(v))
		}
	case *ssa.Jump:
		e := c.edge(x.Block(), x.Block().Succs[0])
		return func(m *M, fr *Frame) { e(fr) }
	case *ssa.If:
		cond := c.op(x.Cond)
		b := x.Block()
		s0, s1 := b.Succs[0], b.Succs[1]
		var e0, e1 func(*Frame)
		if s0 == s1 {
			var idx []int
			for i, p := range s0.Preds {
				if p == b {
					idx = append(idx, i)
				}
			}
			e0, e1 = c.edgeIdx(s0, idx[0]), c.edgeIdx(s0, idx[1])
		} else {
			e0, e1 = c.edge(b, s0), c.edge(b, s1)
		}
		return func(m *M, fr *Frame) {
			v := fr.v(cond)
			var t bool
			if v.o == nil {
				t = v.n != 0
			} else {
				t = m.decide(v.o.(*Expr))
			}
			if t {
				e0(fr)
			} else {
				e1(fr)
			}
		}
	case *ssa.Return:
		ix := c.ops(x.Results)
		switch len(ix) {
		case 0:
			return func(m *M, fr *Frame) { m.ret(fr, Value{}) }
		case 1:
			i := ix[0]
			return func(m *M, fr *Frame) { m.ret(fr, fr.v(i)) }
		}
		return func(m *M, fr *Frame) { m.ret(fr, Value{o: &Agg{gather(fr, ix)}}) }
	case *ssa.Panic:
		v := c.op(x.X)
		return func(m *M, fr *Frame) {
			pv := fr.v(v)
			if pv.o == nil {
				m.throwRT("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			m.throw(pv)
		}
	case *ssa.RunDefers:
		return runDefers
	case *ssa.Call:
		return c.call(x)
	case *ssa.Defer:
		return c.deferInstr(x)
	case *ssa.Extract:
		d, t, i := c.op(x), c.op(x.Tuple), x.Index
		return func(m *M, fr *Frame) { fr.r[d] = fr.v(t).o.(*Agg).f[i] }
	case *ssa.MakeInterface:
		d, v := c.op(x), c.op(x.X)
		rt := c.m.rtype(x.X.Type())
		return func(m *M, fr *Frame) { fr.r[d] = Value{o: &Iface{rt, fr.v(v)}} }
	case *ssa.ChangeInterface:
		d, v := c.op(x), c.op(x.X)
		return func(m *M, fr *Frame) { fr.r[d] = fr.v(v) }
	case *ssa.ChangeType:
		d, v := c.op(x), c.op(x.X)
		return func(m *M, fr *Frame) { fr.r[d] = fr.v(v) }
	case *ssa.Convert:
		return c.convert(x)
	case *ssa.MultiConvert:
		return c.unsupported("MultiConvert")
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.MakeClosure:
		d := c.op(x)
		fn := c.m.fn(x.Fn.(*ssa.Function))
		ix := c.ops(x.Bindings)
		return func(m *M, fr *Frame) { fr.r[d] = Value{o: &Closure{fn, gather(fr, ix)}} }
	case *ssa.MakeMap:
		d := c.op(x)
		return func(m *M, fr *Frame) { fr.r[d] = Value{o: newMap()} }
	case *ssa.MakeChan:
		d := c.op(x)
		return func(m *M, fr *Frame) { fr.r[d] = Value{o: &Native{"chan"}} }
	case *ssa.MakeSlice:
		d, l, cp := c.op(x), c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lw, _, _ := widthOf(x.Len.Type())
		cw, _, _ := widthOf(x.Cap.Type())
		z := c.m.zero(et)
		return func(m *M, fr *Frame) {
			n, k := m.intOf(fr.v(l), lw), m.intOf(fr.v(cp), cw)
			if n < 0 || n > 1<<26 {
				m.throwRT("makeslice: len out of range")
			}
			if k < n || k > 1<<26 {
				m.throwRT("makeslice: cap out of range")
			}
			a := make([]Value, k)
			if _, ok := z.o.(*Agg); ok {
				for i := range a {
					a[i] = copyV(z)
				}
			}
			fr.r[d] = Value{o: &Slice{a[:n]}}
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		return c.unsupported("SliceToArrayPointer")
	case *ssa.FieldAddr:
		d, v, i := c.op(x), c.op(x.X), x.Field
		return func(m *M, fr *Frame) {
			p := slot(m, fr.v(v))
			fr.r[d] = Value{o: &p.o.(*Agg).f[i]}
		}
	case *ssa.Field:
		d, v, i := c.op(x), c.op(x.X), x.Field
		return func(m *M, fr *Frame) { fr.r[d] = fr.v(v).o.(*Agg).f[i] }
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Index:
		return c.index(x)
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.MapUpdate:
		mp, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(m *M, fr *Frame) {
			mo, _ := fr.v(mp).o.(*MapObj)
			if mo == nil {
				m.throw(m.plainError("assignment to entry in nil map"))
			}
			m.mapSet(mo, kt, fr.v(k), fr.v(v))
		}
	case *ssa.Range:
		d, v := c.op(x), c.op(x.X)
		return func(m *M, fr *Frame) {
			// iterator: Agg{position, snapshot of the ranged value}
			p := new(Value)
			fr.r[d] = Value{o: &Agg{[]Value{{o: p}, fr.v(v)}}}
		}
	case *ssa.Next:
		return c.next(x)
	case *ssa.Go:
		return c.unsupported("go statement")
	case *ssa.Send:
		return c.unsupported("channel send")
	case *ssa.Select:
		return c.unsupported("select")
	}
	return c.unsupported(fmt.Sprintf("%T", in))
}

func (m *M) plainError(msg string) Value {
	return Value{o: &Iface{m.rtErr, Value{o: &Agg{[]Value{strV(msg)}}}}}
}

func (c *compiler) unsupported(what string) instr {
	name := c.f.name
	return func(m *M, fr *Frame) { panic(engineError("unsupported: " + what + " in " + name)) }
}

func (c *compiler) unop(x *ssa.UnOp) instr {
	d, v := c.op(x), c.op(x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			p := c.m.global(g)
			return func(m *M, fr *Frame) { fr.r[d] = copyV(*p) }
		}
		w, _, scal := widthOf(x.Type())
		return func(m *M, fr *Frame) {
			a := fr.v(v)
			if p, ok := a.o.(*Value); ok {
				fr.r[d] = copyV(*p)
				return
			}
			r := m.load(a)
			if scal {
				r = narrow(m, r, w)
			}
			fr.r[d] = r
		}
	case token.NOT:
		return func(m *M, fr *Frame) {
			a := fr.v(v)
			if a.o == nil {
				fr.r[d] = Value{n: 1 - a.n}
			} else {
				fr.r[d] = exprV(m.t.Not(a.o.(*Expr)))
			}
		}
	case token.SUB:
		if bits, ok := isFloat(x.Type()); ok {
			return func(m *M, fr *Frame) { fr.r[d] = floatV(-fr.v(v).float(bits), bits) }
		}
		w, _, ok := widthOf(x.Type())
		if !ok {
			return c.unsupported("negation of " + x.Type().String())
		}
		return func(m *M, fr *Frame) {
			a := fr.v(v)
			if a.o == nil {
				fr.r[d] = Value{n: (-a.n) & maskW(w)}
			} else {
				fr.r[d] = exprV(m.t.Bin(OSub, m.t.Const(w, 0), m.expr(a, w)))
			}
		}
	case token.XOR:
		w, _, _ := widthOf(x.Type())
		return func(m *M, fr *Frame) {
			a := fr.v(v)
			if a.o == nil {
				fr.r[d] = Value{n: (^a.n) & maskW(w)}
			} else {
				fr.r[d] = exprV(m.t.Bin(OBXor, m.expr(a, w), m.t.Const(w, maskW(w))))
			}
		}
	}
	return c.unsupported("unary " + x.Op.String())
}

func (c *compiler) binop(x *ssa.BinOp) instr {
	d, p, q := c.op(x), c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		if w, _, ok := widthOf(t); ok {
			if _, _, ok2 := widthOf(x.Y.Type()); ok2 {
				return func(m *M, fr *Frame) {
					a, b := fr.v(p), fr.v(q)
					if a.o == nil && b.o == nil {
						fr.r[d] = boolV((a.n == b.n) != neg)
						return
					}
					e := m.t.Eq(m.expr(a, w), m.expr(b, w))
					if neg {
						e = m.t.Not(e)
					}
					fr.r[d] = exprV(e)
				}
			}
		}
		// comparing an interface with a concrete value
		ti, tj := types.IsInterface(t), types.IsInterface(x.Y.Type())
		if ti != tj {
			return c.unsupported("mixed interface comparison")
		}
		if _, isNil := x.X.(*ssa.Const); isNil {
			t = x.Y.Type()
		}
		return func(m *M, fr *Frame) {
			r := m.eq(t, fr.v(p), fr.v(q))
			if neg {
				if r.o == nil {
					r.n = 1 - r.n
				} else {
					r = exprV(m.t.Not(r.o.(*Expr)))
				}
			}
			fr.r[d] = r
		}
	}
	if isString(t) {
		switch x.Op {
		case token.ADD:
			return func(m *M, fr *Frame) { fr.r[d] = concat(fr.v(p), fr.v(q)) }
		case token.LSS:
			return func(m *M, fr *Frame) { fr.r[d] = m.strLess(fr.v(p), fr.v(q)) }
		case token.GTR:
			return func(m *M, fr *Frame) { fr.r[d] = m.strLess(fr.v(q), fr.v(p)) }
		case token.LEQ, token.GEQ:
			le := x.Op == token.LEQ
			return func(m *M, fr *Frame) {
				a, b := fr.v(p), fr.v(q)
				if le {
					a, b = b, a
				}
				r := m.strLess(a, b)
				if r.o == nil {
					r.n = 1 - r.n
				} else {
					r = exprV(m.t.Not(r.o.(*Expr)))
				}
				fr.r[d] = r
			}
		}
	}
	if bits, ok := isFloat(t); ok {
		op := x.Op
		return func(m *M, fr *Frame) {
			va, vb := fr.v(p), fr.v(q)
			if va.o != nil || vb.o != nil {
				panic(engineError("symbolic floating point"))
			}
			a, b := va.float(bits), vb.float(bits)
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				fr.r[d] = boolV(a < b)
				return
			case token.LEQ:
				fr.r[d] = boolV(a <= b)
				return
			case token.GTR:
				fr.r[d] = boolV(a > b)
				return
			case token.GEQ:
				fr.r[d] = boolV(a >= b)
				return
			default:
				panic(engineError("float op"))
			}
			if bits == 32 {
				r = float64(float32(r))
			}
			fr.r[d] = floatV(r, bits)
		}
	}
	w, signed, ok := widthOf(t)
	if !ok {
		return c.unsupported("binary " + x.Op.String() + " on " + t.String())
	}
	cmp := func(uop, sop Op, swap bool) instr {
		op := uop
		if signed {
			op = sop
		}
		return func(m *M, fr *Frame) {
			a, b := fr.v(p), fr.v(q)
			if swap {
				a, b = b, a
			}
			if a.o == nil && b.o == nil {
				fr.r[d] = Value{n: cmpConst(op, a.n, b.n, w)}
				return
			}
			fr.r[d] = exprV(m.t.Cmp(op, m.expr(a, w), m.expr(b, w)))
		}
	}
	arith := func(op Op) instr {
		return func(m *M, fr *Frame) {
			a, b := fr.v(p), fr.v(q)
			if a.o == nil && b.o == nil {
				fr.r[d] = Value{n: binConst(op, a.n, b.n, w)}
				return
			}
			fr.r[d] = exprV(m.t.Bin(op, m.expr(a, w), m.expr(b, w)))
		}
	}
	switch x.Op {
	case token.LSS:
		return cmp(OUlt, OSlt, false)
	case token.LEQ:
		return cmp(OUle, OSle, false)
	case token.GTR:
		return cmp(OUlt, OSlt, true)
	case token.GEQ:
		return cmp(OUle, OSle, true)
	case token.ADD:
		return func(m *M, fr *Frame) {
			a, b := fr.v(p), fr.v(q)
			if a.o == nil && b.o == nil {
				fr.r[d] = Value{n: (a.n + b.n) & maskW(w)}
				return
			}
			fr.r[d] = exprV(m.t.Bin(OAdd, m.expr(a, w), m.expr(b, w)))
		}
	case token.SUB:
		return arith(OSub)
	case token.MUL:
		return arith(OMul)
	case token.AND:
		return arith(OBAnd)
	case token.OR:
		return arith(OBOr)
	case token.XOR:
		return arith(OBXor)
	case token.AND_NOT:
		return func(m *M, fr *Frame) {
			a, b := fr.v(p), fr.v(q)
			if a.o == nil && b.o == nil {
				fr.r[d] = Value{n: a.n &^ b.n}
				return
			}
			nb := m.t.Bin(OBXor, m.expr(b, w), m.t.Const(w, maskW(w)))
			fr.r[d] = exprV(m.t.Bin(OBAnd, m.expr(a, w), nb))
		}
	case token.QUO, token.REM:
		op := OUDiv
		switch {
		case x.Op == token.QUO && signed:
			op = OSDiv
		case x.Op == token.REM && signed:
			op = OSRem
		case x.Op == token.REM:
			op = OURem
		}
		return func(m *M, fr *Frame) {
			a, b := fr.v(p), fr.v(q)
			if m.truth(m.eqZero(b, w)) {
				m.throwRT("integer divide by zero")
			}
			if a.o == nil && b.o == nil {
				fr.r[d] = Value{n: binConst(op, a.n, b.n, w)}
				return
			}
			fr.r[d] = exprV(m.t.Bin(op, m.expr(a, w), m.expr(b, w)))
		}
	case token.SHL, token.SHR:
		op := OShl
		if x.Op == token.SHR {
			op = OLshr
			if signed {
				op = OAshr
			}
		}
		yw, ysigned, _ := widthOf(x.Y.Type())
		return func(m *M, fr *Frame) {
			a, b := fr.v(p), fr.v(q)
			if b.o == nil {
				if ysigned && sextW(b.n, yw) < 0 {
					m.throwRT("negative shift amount")
				}
				if a.o == nil {
					fr.r[d] = Value{n: binConst(op, a.n, b.n, w)}
					return
				}
				k := b.n
				if k > 64 {
					k = 64
				}
				if k >= uint64(w) { // out of range amounts saturate
					if op == OAshr {
						k = uint64(w) - 1
					} else {
						fr.r[d] = Value{}
						return
					}
				}
				fr.r[d] = exprV(m.t.Bin(op, m.expr(a, w), m.t.Const(w, k)))
				return
			}
			k := m.concretize(b.o.(*Expr))
			if ysigned && sextW(k, yw) < 0 {
				m.throwRT("negative shift amount")
			}
			if a.o == nil {
				fr.r[d] = Value{n: binConst(op, a.n, k, w)}
				return
			}
			if k >= uint64(w) {
				if op == OAshr {
					k = uint64(w) - 1
				} else {
					fr.r[d] = Value{}
					return
				}
			}
			fr.r[d] = exprV(m.t.Bin(op, m.expr(a, w), m.t.Const(w, k)))
		}
	}
	return c.unsupported("binary " + x.Op.String())
}

func (m *M) eqZero(v Value, w uint8) Value {
	if v.o == nil {
		return boolV(v.n == 0)
	}
	return exprV(m.t.Eq(m.expr(v, w), m.t.Const(w, 0)))
}

func (c *compiler) convert(x *ssa.Convert) instr {
	d, v := c.op(x), c.op(x.X)
	from, to := x.X.Type(), x.Type()
	fw, fs, fi := widthOf(from)
	tw, ts, ti := widthOf(to)
	fb, ff := isFloat(from)
	tb, tf := isFloat(to)
	switch {
	case fi && ti:
		return func(m *M, fr *Frame) {
			a := fr.v(v)
			if a.o == nil {
				if fs {
					fr.r[d] = Value{n: uint64(sextW(a.n, fw)) & maskW(tw)}
				} else {
					fr.r[d] = Value{n: a.n & maskW(tw)}
				}
				return
			}
			e := m.expr(a, fw)
			switch {
			case tw < fw:
				e = m.t.Trunc(e, tw)
			case fs:
				e = m.t.Sext(e, tw)
			default:
				e = m.t.Zext(e, tw)
			}
			fr.r[d] = exprV(e)
		}
	case fi && tf:
		return func(m *M, fr *Frame) {
			a := fr.v(v)
			k := m.intOf(a, fw)
			if fs {
				fr.r[d] = floatV(float64(k), tb)
			} else {
				fr.r[d] = floatV(float64(uint64(k)&maskW(fw)), tb)
			}
		}
	case ff && ti:
		return func(m *M, fr *Frame) {
			f := fr.v(v).float(fb)
			if ts {
				fr.r[d] = Value{n: uint64(int64(f)) & maskW(tw)}
			} else {
				fr.r[d] = Value{n: uint64(f) & maskW(tw)}
			}
		}
	case ff && tf:
		return func(m *M, fr *Frame) { fr.r[d] = floatV(fr.v(v).float(fb), tb) }
	case isString(to) && isString(from):
		return func(m *M, fr *Frame) { fr.r[d] = fr.v(v) }
	case isString(to) && fi:
		return func(m *M, fr *Frame) {
			a := fr.v(v)
			if a.o == nil {
				k := sextW(a.n, fw)
				if !fs {
					k = int64(a.n)
				}
				r := rune(0xFFFD)
				if k >= 0 && k <= math.MaxInt32 {
					r = rune(k)
				}
				fr.r[d] = strV(string(r))
				return
			}
			e := m.expr(a, fw)
			if fw > 32 {
				if !m.decide(m.t.Cmp(OUlt, e, m.t.Const(fw, 0x110000))) {
					fr.r[d] = strV("\uFFFD")
					return
				}
				e = m.t.Trunc(e, 32)
			} else if fw < 32 {
				if fs {
					e = m.t.Sext(e, 32)
				} else {
					e = m.t.Zext(e, 32)
				}
			}
			fr.r[d] = mkStr(m.encodeRune(exprV(e)))
		}
	}
	if isString(to) {
		if s, ok := from.Underlying().(*types.Slice); ok {
			ew, _, _ := widthOf(s.Elem())
			if ew == 8 {
				return func(m *M, fr *Frame) {
					sl, _ := fr.v(v).o.(*Slice)
					if sl == nil {
						fr.r[d] = Value{}
						return
					}
					fr.r[d] = mkStr(append([]Value(nil), sl.a...))
				}
			}
			return func(m *M, fr *Frame) {
				sl, _ := fr.v(v).o.(*Slice)
				var out []Value
				if sl != nil {
					for _, r := range sl.a {
						out = append(out, m.encodeRune(r)...)
					}
				}
				fr.r[d] = mkStr(out)
			}
		}
	}
	if isString(from) {
		if s, ok := to.Underlying().(*types.Slice); ok {
			ew, _, _ := widthOf(s.Elem())
			if ew == 8 {
				return func(m *M, fr *Frame) {
					fr.r[d] = Value{o: &Slice{append([]Value{}, strBytes(fr.v(v))...)}}
				}
			}
			return func(m *M, fr *Frame) {
				b := strBytes(fr.v(v))
				out := []Value{}
				for len(b) > 0 {
					r, n := m.decodeRune(b)
					out = append(out, r)
					b = b[n:]
				}
				fr.r[d] = Value{o: &Slice{out}}
			}
		}
	}
	// unsafe.Pointer and friends: keep the representation
	if isUnsafe(from) || isUnsafe(to) {
		return func(m *M, fr *Frame) { fr.r[d] = fr.v(v) }
	}
	return c.unsupported("conversion " + from.String() + " -> " + to.String())
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) instr {
	d, v := c.op(x), c.op(x.X)
	rt := c.m.rtype(x.AssertedType)
	isI := types.IsInterface(x.AssertedType)
	z := c.m.zero(x.AssertedType)
	commaOk := x.CommaOk
	srcT := x.X.Type()
	return func(m *M, fr *Frame) {
		a := fr.v(v)
		i, _ := a.o.(*Iface)
		ok := false
		var r Value
		if i != nil {
			if isI {
				if m.implements(i.t, rt) {
					ok, r = true, a
				}
			} else if i.t == rt {
				ok, r = true, i.v
			}
		}
		if commaOk {
			if !ok {
				r = copyV(z)
			}
			fr.r[d] = Value{o: &Agg{[]Value{r, boolV(ok)}}}
			return
		}
		if !ok {
			s := "nil"
			if i != nil {
				s = types.TypeString(i.t.t, shortQual)
			}
			m.throwRT("interface conversion: " + types.TypeString(srcT, shortQual) + " is " + s + ", not " + types.TypeString(rt.t, shortQual))
		}
		fr.r[d] = r
	}
}

func shortQual(p *types.Package) string { return p.Name() }

func (c *compiler) slice(x *ssa.Slice) instr {
	d, v := c.op(x), c.op(x.X)
	lo, hi, mx := int32(-1<<30), int32(-1<<30), int32(-1<<30)
	const none = int32(-1 << 30)
	var lw, hw, mw uint8
	if x.Low != nil {
		lo = c.op(x.Low)
		lw, _, _ = widthOf(x.Low.Type())
	}
	if x.High != nil {
		hi = c.op(x.High)
		hw, _, _ = widthOf(x.High.Type())
	}
	if x.Max != nil {
		mx = c.op(x.Max)
		mw, _, _ = widthOf(x.Max.Type())
	}
	str := isString(x.X.Type())
	return func(m *M, fr *Frame) {
		a := fr.v(v)
		var backing []Value
		var n, cp int
		isNil := false
		switch {
		case str:
			n = strLen(a)
			cp = n
		default:
			switch o := a.o.(type) {
			case nil:
				if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
					m.throwRT("invalid memory address or nil pointer dereference")
				}
				isNil = true
			case *Slice:
				backing = o.a
				n, cp = len(o.a), cap(o.a)
			case *Value: // pointer to array
				backing = o.o.(*Agg).f
				n, cp = len(backing), len(backing)
			default:
				panic(engineError(fmt.Sprintf("slice of %T", a.o)))
			}
		}
		l, h, k := 0, n, cp
		if lo != none {
			l = int(m.intOf(fr.v(lo), lw))
		}
		if hi != none {
			h = int(m.intOf(fr.v(hi), hw))
		}
		if mx != none {
			k = int(m.intOf(fr.v(mx), mw))
			if k < 0 || k > cp {
				m.throwRT(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", k, cp))
			}
		}
		if h < 0 || h > k {
			if str {
				m.throwRT(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			m.throwRT(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, k))
		}
		if l < 0 || l > h {
			m.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if str {
			fr.r[d] = substr(a, l, h)
			return
		}
		if isNil {
			fr.r[d] = Value{}
			return
		}
		fr.r[d] = Value{o: &Slice{backing[l:h:k]}}
	}
}

func (m *M) bounds(i Value, w uint8, signed bool, n int) {
	if i.o == nil {
		k := sextW(i.n, w)
		if !signed {
			k = int64(i.n)
		}
		if k < 0 || k >= int64(n) {
			m.throwRT(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return
	}
	e := i.o.(*Expr)
	if uint64(n) > maskW(e.w) && !signed {
		return
	}
	if n > 0 && uint64(n) <= maskW(e.w) {
		if m.decide(m.t.Cmp(OUlt, e, m.t.Const(e.w, uint64(n)))) {
			return
		}
	}
	m.throwRT(fmt.Sprintf("index out of range [symbolic] with length %d", n))
}

func onlyLoaded(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) instr {
	d, v, ix := c.op(x), c.op(x.X), c.op(x.Index)
	w, signed, _ := widthOf(x.Index.Type())
	lazy := onlyLoaded(x)
	et := x.Type().(*types.Pointer).Elem()
	if _, _, ok := widthOf(et); !ok {
		lazy = false
	}
	return func(m *M, fr *Frame) {
		a := fr.v(v)
		var el []Value
		switch o := a.o.(type) {
		case nil:
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
				m.throwRT("invalid memory address or nil pointer dereference")
			}
		case *Slice:
			el = o.a
		case *Value:
			el = o.o.(*Agg).f
		default:
			panic(engineError(fmt.Sprintf("index of %T", a.o)))
		}
		i := fr.v(ix)
		m.bounds(i, w, signed, len(el))
		if i.o == nil {
			fr.r[d] = Value{o: &el[i.n]}
			return
		}
		if lazy {
			fr.r[d] = Value{o: &SymPtr{el, i.o.(*Expr)}}
			return
		}
		fr.r[d] = Value{o: &el[m.concretize(i.o.(*Expr))]}
	}
}

func (c *compiler) index(x *ssa.Index) instr {
	d, v, ix := c.op(x), c.op(x.X), c.op(x.Index)
	w, signed, _ := widthOf(x.Index.Type())
	rw, _, scal := widthOf(x.Type())
	str := isString(x.X.Type())
	return func(m *M, fr *Frame) {
		a := fr.v(v)
		i := fr.v(ix)
		if str {
			m.bounds(i, w, signed, strLen(a))
			if i.o == nil {
				fr.r[d] = strByte(a, int(i.n))
				return
			}
			fr.r[d] = narrow(m, m.iteConst(strBytes(a), i.o.(*Expr), 8), 8)
			return
		}
		el := a.o.(*Agg).f
		m.bounds(i, w, signed, len(el))
		if i.o == nil {
			fr.r[d] = copyV(el[i.n])
			return
		}
		if scal {
			fr.r[d] = narrow(m, m.iteOver(el, i.o.(*Expr)), rw)
			return
		}
		fr.r[d] = copyV(el[m.concretize(i.o.(*Expr))])
	}
}

func (c *compiler) lookup(x *ssa.Lookup) instr {
	d, v, ix := c.op(x), c.op(x.X), c.op(x.Index)
	if isString(x.X.Type()) {
		w, signed, _ := widthOf(x.Index.Type())
		return func(m *M, fr *Frame) {
			a, i := fr.v(v), fr.v(ix)
			m.bounds(i, w, signed, strLen(a))
			if i.o == nil {
				fr.r[d] = strByte(a, int(i.n))
				return
			}
			fr.r[d] = narrow(m, m.iteConst(strBytes(a), i.o.(*Expr), 8), 8)
		}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	z := c.m.zero(mt.Elem())
	commaOk := x.CommaOk
	return func(m *M, fr *Frame) {
		mo, _ := fr.v(v).o.(*MapObj)
		k := fr.v(ix)
		i := -1
		if mo != nil {
			i = m.mapFind(mo, mt.Key(), k)
		} else if f, ok := k.o.(*Iface); ok && !types.Comparable(f.t.t) {
			m.throwRT("hash of unhashable type " + f.t.t.String())
		}
		var r Value
		if i >= 0 {
			r = copyV(*mo.vals[i])
		} else {
			r = copyV(z)
		}
		if commaOk {
			r = Value{o: &Agg{[]Value{r, boolV(i >= 0)}}}
		}
		fr.r[d] = r
	}
}

func (c *compiler) next(x *ssa.Next) instr {
	d, it := c.op(x), c.op(x.Iter)
	if x.IsString {
		return func(m *M, fr *Frame) {
			a := fr.v(it).o.(*Agg)
			p := a.f[0].o.(*Value)
			s := a.f[1]
			pos := int(p.n)
			if pos >= strLen(s) {
				fr.r[d] = Value{o: &Agg{[]Value{boolV(false), {}, {}}}}
				return
			}
			r, n := m.decodeRune(strWindow(s, pos))
			m.store(p, intV(pos+n))
			fr.r[d] = Value{o: &Agg{[]Value{boolV(true), intV(pos), r}}}
		}
	}
	tt := x.Type().(*types.Tuple)
	kz, vz := c.m.zeroOrNothing(tt.At(1).Type()), c.m.zeroOrNothing(tt.At(2).Type())
	return func(m *M, fr *Frame) {
		a := fr.v(it).o.(*Agg)
		p := a.f[0].o.(*Value)
		mo, _ := a.f[1].o.(*MapObj)
		pos := int(p.n)
		if mo != nil {
			if m.x.cfg.ReverseMaps {
				// p counts from the end of the entries present at the start
				n := len(mo.keys)
				for pos < n && !mo.live[n-1-pos] {
					pos++
				}
				if pos < n {
					m.store(p, intV(pos+1))
					fr.r[d] = Value{o: &Agg{[]Value{boolV(true), copyV(mo.keys[n-1-pos]), copyV(*mo.vals[n-1-pos])}}}
					return
				}
			} else {
				for pos < len(mo.keys) && !mo.live[pos] {
					pos++
				}
				if pos < len(mo.keys) {
					m.store(p, intV(pos+1))
					fr.r[d] = Value{o: &Agg{[]Value{boolV(true), copyV(mo.keys[pos]), copyV(*mo.vals[pos])}}}
					return
				}
			}
		}
		fr.r[d] = Value{o: &Agg{[]Value{boolV(false), copyV(kz), copyV(vz)}}}
	}
}

func (m *M) zeroOrNothing(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return m.zero(t)
}

// strWindow is up to four bytes of s from pos on.
func strWindow(s Value, pos int) []Value {
	switch o := s.o.(type) {
	case *SymStr:
		return o.b[pos:]
	case string:
		end := pos + 4
		if end > len(o) {
			end = len(o)
		}
		return strBytes(strV(o[pos:end]))
	}
	return nil
}

// ---- calls ----

func (c *compiler) call(x *ssa.Call) instr {
	d := c.op(x)
	cc := x.Common()
	ix := c.ops(cc.Args)
	if cc.IsInvoke() {
		rcv := c.op(cc.Value)
		meth := cc.Method
		return func(m *M, fr *Frame) {
			i, _ := fr.v(rcv).o.(*Iface)
			if i == nil {
				m.throwRT("invalid memory address or nil pointer dereference")
			}
			fn := m.method(i.t, meth)
			args := make([]Value, len(ix)+1)
			args[0] = i.v
			for k, j := range ix {
				args[k+1] = fr.v(j)
			}
			m.call(fr, fn, nil, args, d)
		}
	}
	switch callee := cc.Value.(type) {
	case *ssa.Builtin:
		return func(m *M, fr *Frame) {
			fr.r[d] = m.builtin(fr, callee, gather(fr, ix), cc)
		}
	case *ssa.Function:
		fn := c.m.fn(callee)
		if fn.intr != nil {
			in := fn.intr
			return func(m *M, fr *Frame) { fn.calls++; v := in(m, fr, gather(fr, ix)); fr.r[d] = v }
		}
		if fast := fn.fast; fast != nil {
			return func(m *M, fr *Frame) { m.call(fr, fn, nil, gather(fr, ix), d) }
		}
		return func(m *M, fr *Frame) {
			if !fn.compiled {
				m.compile(fn)
			}
			fn.calls++
			nf := &Frame{fn: fn, parent: fr, ret: d, stamp: m.counter, depth: fr.depth + 1}
			if nf.depth > m.x.cfg.MaxDepth {
				panic(budgetExceeded{"call depth"})
			}
			nf.r = make([]Value, fn.nregs)
			for k, j := range ix {
				nf.r[k] = fr.v(j)
			}
			m.fr = nf
		}
	}
	fv := c.op(cc.Value)
	return func(m *M, fr *Frame) {
		cl, _ := fr.v(fv).o.(*Closure)
		if cl == nil {
			m.throwRT("invalid memory address or nil pointer dereference")
		}
		m.call(fr, cl.fn, cl.free, gather(fr, ix), d)
	}
}

func (c *compiler) deferInstr(x *ssa.Defer) instr {
	cc := x.Common()
	ix := c.ops(cc.Args)
	if x.DeferStack != nil {
		return c.unsupported("range-over-func defer")
	}
	if cc.IsInvoke() {
		rcv := c.op(cc.Value)
		meth := cc.Method
		return func(m *M, fr *Frame) {
			i, _ := fr.v(rcv).o.(*Iface)
			if i == nil {
				m.throwRT("invalid memory address or nil pointer dereference")
			}
			args := append([]Value{i.v}, gather(fr, ix)...)
			fr.defers = &deferRec{fn: m.method(i.t, meth), args: args, next: fr.defers}
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return func(m *M, fr *Frame) {
			fr.defers = &deferRec{bi: bi, args: gather(fr, ix), next: fr.defers}
		}
	}
	fv := c.op(cc.Value)
	return func(m *M, fr *Frame) {
		cl, _ := fr.v(fv).o.(*Closure)
		if cl == nil {
			panic(engineError("deferred nil function"))
		}
		fr.defers = &deferRec{fn: cl.fn, free: cl.free, args: gather(fr, ix), next: fr.defers}
	}
}
