// Package engine is a symbolic executor for Go programs in go/ssa form.
//
// This file: hash-consed bit-vector / boolean terms with a small rewriter.
// Width 0 is the sort Bool, widths 1..64 are (_ BitVec w).
package engine

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
)

var opNames = [...]string{
	OConst: "const", OVar: "var", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OZext: "zext", OSext: "sext", OTrunc: "trunc",
}

// Expr is an immutable term. Two structurally equal terms of the same Terms
// store are the same pointer.
type Expr struct {
	op      Op
	w       uint8
	c       uint64 // value of a constant, index of a variable
	a, b, d *Expr
	id      uint32
	mask    uint64 // over-approximates the set of variables (bit index mod 64)
	name    string
	size    uint32
	emitted bool
	gen     uint32
	val     uint64
	sgen    uint32 // substitution memo
	sval    *Expr
}

type exprKey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d *Expr
}

// Terms is a store of hash-consed terms. It belongs to one worker.
type Terms struct {
	tab    map[exprKey]*Expr
	vars   []*Expr
	byName map[string]*Expr
	nid    uint32
	gen    uint32
	sgen   uint32
	True   *Expr
	False  *Expr
}

func NewTerms() *Terms {
	t := &Terms{tab: map[exprKey]*Expr{}, byName: map[string]*Expr{}}
	t.True = t.mk(exprKey{op: OConst, w: 0, c: 1})
	t.False = t.mk(exprKey{op: OConst, w: 0, c: 0})
	return t
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sextW(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Terms) mk(k exprKey) *Expr {
	if e, ok := t.tab[k]; ok {
		return e
	}
	e := &Expr{op: k.op, w: k.w, c: k.c, a: k.a, b: k.b, d: k.d, id: t.nid, size: 1}
	t.nid++
	for _, x := range [...]*Expr{k.a, k.b, k.d} {
		if x != nil {
			e.mask |= x.mask
			e.size += x.size
			if e.size > 1<<30 {
				e.size = 1 << 30
			}
		}
	}
	t.tab[k] = e
	return e
}

func (t *Terms) Const(w uint8, v uint64) *Expr {
	if w == 0 {
		if v != 0 {
			return t.True
		}
		return t.False
	}
	return t.mk(exprKey{op: OConst, w: w, c: v & maskW(w)})
}

func (t *Terms) Bool(b bool) *Expr {
	if b {
		return t.True
	}
	return t.False
}

// Var returns the variable of that name, creating it on first use.
func (t *Terms) Var(name string, w uint8) *Expr {
	if e, ok := t.byName[name]; ok {
		if e.w != w {
			panic("engine: variable " + name + " used at two widths")
		}
		return e
	}
	e := &Expr{op: OVar, w: w, c: uint64(len(t.vars)), id: t.nid, name: name, size: 1}
	e.mask = uint64(1) << (uint(len(t.vars)) & 63)
	t.nid++
	t.vars = append(t.vars, e)
	t.byName[name] = e
	return e
}

func (e *Expr) IsConst() bool { return e.op == OConst }

func (t *Terms) Not(x *Expr) *Expr {
	switch x.op {
	case OConst:
		return t.Bool(x.c == 0)
	case ONot:
		return x.a
	}
	return t.mk(exprKey{op: ONot, w: 0, a: x})
}

func (t *Terms) And(x, y *Expr) *Expr {
	if x == y {
		return x
	}
	if x.op == OConst {
		if x.c == 0 {
			return x
		}
		return y
	}
	if y.op == OConst {
		if y.c == 0 {
			return y
		}
		return x
	}
	if t.isNeg(x, y) {
		return t.False
	}
	if x.op == OAnd && (x.a == y || x.b == y) {
		return x
	}
	if y.op == OAnd && (y.a == x || y.b == x) {
		return y
	}
	if x.id > y.id {
		x, y = y, x
	}
	return t.mk(exprKey{op: OAnd, a: x, b: y})
}

func (t *Terms) isNeg(x, y *Expr) bool {
	return (x.op == ONot && x.a == y) || (y.op == ONot && y.a == x)
}

func (t *Terms) Or(x, y *Expr) *Expr {
	if x == y {
		return x
	}
	if x.op == OConst {
		if x.c != 0 {
			return x
		}
		return y
	}
	if y.op == OConst {
		if y.c != 0 {
			return y
		}
		return x
	}
	if t.isNeg(x, y) {
		return t.True
	}
	if x.op == OOr && (x.a == y || x.b == y) {
		return x
	}
	if y.op == OOr && (y.a == x || y.b == x) {
		return y
	}
	if x.id > y.id {
		x, y = y, x
	}
	return t.mk(exprKey{op: OOr, a: x, b: y})
}

func (t *Terms) Eq(x, y *Expr) *Expr {
	if x == y {
		return t.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("engine: eq of widths %d and %d", x.w, y.w))
	}
	if x.op == OConst && y.op == OConst {
		return t.Bool(x.c == y.c)
	}
	if x.op == OConst {
		x, y = y, x
	}
	if x.w == 0 {
		if y.op == OConst {
			if y.c != 0 {
				return x
			}
			return t.Not(x)
		}
		if t.isNeg(x, y) {
			return t.False
		}
	}
	if y.op == OConst {
		switch x.op {
		case OZext:
			if y.c&^maskW(x.a.w) != 0 {
				return t.False
			}
			return t.Eq(x.a, t.Const(x.a.w, y.c))
		case OSext:
			lo := y.c & maskW(x.a.w)
			if uint64(sextW(lo, x.a.w))&maskW(x.w) != y.c {
				return t.False
			}
			return t.Eq(x.a, t.Const(x.a.w, lo))
		case OAdd:
			if x.b.op == OConst {
				return t.Eq(x.a, t.Const(x.w, y.c-x.b.c))
			}
		case OIte:
			if x.b.op == OConst || x.d.op == OConst {
				p := t.Eq(x.b, y)
				q := t.Eq(x.d, y)
				return t.Ite(x.a, p, q)
			}
		}
	}
	if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
		return t.Eq(x.a, y.a)
	}
	if y.op != OConst && x.id > y.id {
		x, y = y, x
	}
	return t.mk(exprKey{op: OEq, a: x, b: y})
}

func (t *Terms) Ite(c, x, y *Expr) *Expr {
	if c.op == OConst {
		if c.c != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if c.op == ONot {
		c, x, y = c.a, y, x
	}
	if x.w == 0 {
		if x.op == OConst {
			if x.c != 0 {
				return t.Or(c, y)
			}
			return t.And(t.Not(c), y)
		}
		if y.op == OConst {
			if y.c != 0 {
				return t.Or(t.Not(c), x)
			}
			return t.And(c, x)
		}
	}
	return t.mk(exprKey{op: OIte, w: x.w, a: c, b: x, d: y})
}

func (t *Terms) Zext(x *Expr, w uint8) *Expr {
	if x.w == w {
		return x
	}
	if x.op == OConst {
		return t.Const(w, x.c)
	}
	if x.op == OZext {
		return t.Zext(x.a, w)
	}
	if x.op == OIte && x.b.op == OConst && x.d.op == OConst {
		return t.Ite(x.a, t.Const(w, x.b.c), t.Const(w, x.d.c))
	}
	return t.mk(exprKey{op: OZext, w: w, a: x})
}

func (t *Terms) Sext(x *Expr, w uint8) *Expr {
	if x.w == w {
		return x
	}
	if x.op == OConst {
		return t.Const(w, uint64(sextW(x.c, x.w)))
	}
	if x.op == OZext {
		return t.Zext(x.a, w)
	}
	if x.op == OSext {
		return t.Sext(x.a, w)
	}
	return t.mk(exprKey{op: OSext, w: w, a: x})
}

func (t *Terms) Trunc(x *Expr, w uint8) *Expr {
	if x.w == w {
		return x
	}
	if x.op == OConst {
		return t.Const(w, x.c)
	}
	if x.op == OZext || x.op == OSext {
		if x.a.w == w {
			return x.a
		}
		if x.a.w > w {
			return t.Trunc(x.a, w)
		}
		if x.op == OZext {
			return t.Zext(x.a, w)
		}
		return t.Sext(x.a, w)
	}
	if x.op == OTrunc {
		return t.Trunc(x.a, w)
	}
	if x.op == OIte {
		return t.Ite(x.a, t.Trunc(x.b, w), t.Trunc(x.d, w))
	}
	if x.op == OAdd || x.op == OSub || x.op == OBAnd || x.op == OBOr || x.op == OBXor {
		return t.Bin(x.op, t.Trunc(x.a, w), t.Trunc(x.b, w))
	}
	return t.mk(exprKey{op: OTrunc, w: w, a: x})
}

// Cmp builds one of ult ule slt sle.
func (t *Terms) Cmp(op Op, x, y *Expr) *Expr {
	if x.w != y.w {
		panic("engine: cmp of different widths")
	}
	if x == y {
		return t.Bool(op == OUle || op == OSle)
	}
	if x.op == OConst && y.op == OConst {
		return t.Bool(cmpConst(op, x.c, y.c, x.w) != 0)
	}
	// zext(x) on both sides or against a constant: signed becomes unsigned, narrow.
	zx := x.op == OZext
	zy := y.op == OZext
	if zx && zy && x.a.w == y.a.w {
		return t.Cmp(unsignedOf(op), x.a, y.a)
	}
	if zx && y.op == OConst {
		n := x.a.w
		if op == OSlt || op == OSle {
			if sextW(y.c, y.w) < 0 {
				return t.False
			}
			op = unsignedOf(op)
		}
		if y.c&^maskW(n) != 0 {
			return t.True
		}
		return t.Cmp(op, x.a, t.Const(n, y.c))
	}
	if zy && x.op == OConst {
		n := y.a.w
		if op == OSlt || op == OSle {
			if sextW(x.c, x.w) < 0 {
				return t.True
			}
			op = unsignedOf(op)
		}
		if x.c&^maskW(n) != 0 {
			return t.False
		}
		return t.Cmp(op, t.Const(n, x.c), y.a)
	}
	if y.op == OConst && x.op == OIte && x.b.op == OConst && x.d.op == OConst {
		return t.Ite(x.a, t.Cmp(op, x.b, y), t.Cmp(op, x.d, y))
	}
	if x.op == OConst && y.op == OIte && y.b.op == OConst && y.d.op == OConst {
		return t.Ite(y.a, t.Cmp(op, x, y.b), t.Cmp(op, x, y.d))
	}
	switch op {
	case OUlt:
		if y.op == OConst && y.c == 0 {
			return t.False
		}
		if y.op == OConst && y.c == 1 {
			return t.Eq(x, t.Const(x.w, 0))
		}
		if x.op == OConst && x.c == maskW(x.w) {
			return t.False
		}
	case OUle:
		if x.op == OConst && x.c == 0 {
			return t.True
		}
		if y.op == OConst && y.c == maskW(y.w) {
			return t.True
		}
	}
	// canonical form: only "<" comparisons, "<=" as the negation.
	if op == OUle {
		return t.Not(t.Cmp(OUlt, y, x))
	}
	if op == OSle {
		return t.Not(t.Cmp(OSlt, y, x))
	}
	return t.mk(exprKey{op: op, a: x, b: y})
}

func unsignedOf(op Op) Op {
	switch op {
	case OSlt:
		return OUlt
	case OSle:
		return OUle
	}
	return op
}

func cmpConst(op Op, x, y uint64, w uint8) uint64 {
	var b bool
	switch op {
	case OUlt:
		b = x < y
	case OUle:
		b = x <= y
	case OSlt:
		b = sextW(x, w) < sextW(y, w)
	case OSle:
		b = sextW(x, w) <= sextW(y, w)
	}
	if b {
		return 1
	}
	return 0
}

func binConst(op Op, x, y uint64, w uint8) uint64 {
	var r uint64
	switch op {
	case OAdd:
		r = x + y
	case OSub:
		r = x - y
	case OMul:
		r = x * y
	case OUDiv:
		if y == 0 {
			r = maskW(w)
		} else {
			r = x / y
		}
	case OURem:
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case OSDiv:
		sx, sy := sextW(x, w), sextW(y, w)
		if sy == 0 {
			if sx >= 0 {
				r = maskW(w)
			} else {
				r = 1
			}
		} else if sy == -1 {
			r = uint64(-sx)
		} else {
			r = uint64(sx / sy)
		}
	case OSRem:
		sx, sy := sextW(x, w), sextW(y, w)
		if sy == 0 {
			r = x
		} else if sy == -1 {
			r = 0
		} else {
			r = uint64(sx % sy)
		}
	case OBAnd:
		r = x & y
	case OBOr:
		r = x | y
	case OBXor:
		r = x ^ y
	case OShl:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x << y
		}
	case OLshr:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x >> y
		}
	case OAshr:
		sx := sextW(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		r = uint64(sx >> y)
	}
	return r & maskW(w)
}

// Bin builds an arithmetic or bitwise binary operation.
func (t *Terms) Bin(op Op, x, y *Expr) *Expr {
	if x.w != y.w {
		panic(fmt.Sprintf("engine: %s of widths %d and %d", opNames[op], x.w, y.w))
	}
	if x.op == OConst && y.op == OConst {
		return t.Const(x.w, binConst(op, x.c, y.c, x.w))
	}
	w := x.w
	switch op {
	case OAdd:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if y.c == 0 {
				return x
			}
			if x.op == OAdd && x.b.op == OConst {
				return t.Bin(OAdd, x.a, t.Const(w, x.b.c+y.c))
			}
			if x.op == OIte && x.b.op == OConst && x.d.op == OConst {
				return t.Ite(x.a, t.Const(w, x.b.c+y.c), t.Const(w, x.d.c+y.c))
			}
		} else if x.id > y.id {
			x, y = y, x
		}
	case OSub:
		if x == y {
			return t.Const(w, 0)
		}
		if y.op == OConst {
			return t.Bin(OAdd, x, t.Const(w, -y.c))
		}
	case OMul:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			switch y.c {
			case 0:
				return y
			case 1:
				return x
			}
			if bits.OnesCount64(y.c) == 1 {
				return t.Bin(OShl, x, t.Const(w, uint64(bits.TrailingZeros64(y.c))))
			}
		}
	case OBAnd:
		if x.op == OConst {
			x, y = y, x
		}
		if x == y {
			return x
		}
		if y.op == OConst {
			if y.c == 0 {
				return y
			}
			if y.c == maskW(w) {
				return x
			}
			if x.op == OZext && maskW(x.a.w)&^y.c == 0 {
				return x
			}
			if x.op == OZext {
				return t.Zext(t.Bin(OBAnd, x.a, t.Const(x.a.w, y.c)), w)
			}
		}
	case OBOr:
		if x.op == OConst {
			x, y = y, x
		}
		if x == y {
			return x
		}
		if y.op == OConst && y.c == 0 {
			return x
		}
	case OBXor:
		if x.op == OConst {
			x, y = y, x
		}
		if x == y {
			return t.Const(w, 0)
		}
		if y.op == OConst && y.c == 0 {
			return x
		}
	case OShl, OLshr, OAshr:
		if y.op == OConst && y.c == 0 {
			return x
		}
	case OUDiv, OSDiv:
		if y.op == OConst && y.c == 1 {
			return x
		}
	}
	return t.mk(exprKey{op: op, w: w, a: x, b: y})
}

// Rebuild applies the smart constructors to new operands.
func (t *Terms) rebuild(e, a, b, d *Expr) *Expr {
	switch e.op {
	case ONot:
		return t.Not(a)
	case OAnd:
		return t.And(a, b)
	case OOr:
		return t.Or(a, b)
	case OEq:
		return t.Eq(a, b)
	case OIte:
		return t.Ite(a, b, d)
	case OUlt, OUle, OSlt, OSle:
		return t.Cmp(e.op, a, b)
	case OZext:
		return t.Zext(a, e.w)
	case OSext:
		return t.Sext(a, e.w)
	case OTrunc:
		return t.Trunc(a, e.w)
	}
	return t.Bin(e.op, a, b)
}

// Subst replaces known sub-terms and variables; leaf returns nil for "unchanged".
func (t *Terms) Subst(e *Expr, mask uint64, leaf func(*Expr) *Expr) *Expr {
	t.sgen++
	return t.subst(e, mask, leaf)
}

func (t *Terms) subst(e *Expr, mask uint64, leaf func(*Expr) *Expr) *Expr {
	if e.mask&mask == 0 || e.op == OConst {
		return e
	}
	if e.sgen == t.sgen {
		return e.sval
	}
	var r *Expr
	if x := leaf(e); x != nil {
		r = x
	} else if e.op == OVar {
		r = e
	} else {
		a, b, d := e.a, e.b, e.d
		if a != nil {
			a = t.subst(a, mask, leaf)
		}
		if b != nil {
			b = t.subst(b, mask, leaf)
		}
		if d != nil {
			d = t.subst(d, mask, leaf)
		}
		if a == e.a && b == e.b && d == e.d {
			r = e
		} else {
			r = t.rebuild(e, a, b, d)
		}
	}
	e.sgen = t.sgen
	e.sval = r
	return r
}

// Model maps variable index to value; absent means 0.
type Model []uint64

// Eval evaluates e under the model.
func (t *Terms) Eval(e *Expr, m Model) uint64 {
	t.gen++
	return t.eval(e, m)
}

func (t *Terms) eval(e *Expr, m Model) uint64 {
	switch e.op {
	case OConst:
		return e.c
	case OVar:
		if e.c < uint64(len(m)) {
			return m[e.c] & maskW(e.w)
		}
		return 0
	}
	if e.gen == t.gen {
		return e.val
	}
	var r uint64
	switch e.op {
	case ONot:
		r = 1 - t.eval(e.a, m)
	case OAnd:
		r = t.eval(e.a, m)
		if r != 0 {
			r = t.eval(e.b, m)
		}
	case OOr:
		r = t.eval(e.a, m)
		if r == 0 {
			r = t.eval(e.b, m)
		}
	case OEq:
		if t.eval(e.a, m) == t.eval(e.b, m) {
			r = 1
		}
	case OIte:
		if t.eval(e.a, m) != 0 {
			r = t.eval(e.b, m)
		} else {
			r = t.eval(e.d, m)
		}
	case OUlt, OUle, OSlt, OSle:
		r = cmpConst(e.op, t.eval(e.a, m), t.eval(e.b, m), e.a.w)
	case OZext:
		r = t.eval(e.a, m)
	case OSext:
		r = uint64(sextW(t.eval(e.a, m), e.a.w)) & maskW(e.w)
	case OTrunc:
		r = t.eval(e.a, m) & maskW(e.w)
	default:
		r = binConst(e.op, t.eval(e.a, m), t.eval(e.b, m), e.w)
	}
	e.gen = t.gen
	e.val = r
	return r
}

// String renders a term for diagnostics.
func (e *Expr) String() string {
	var b strings.Builder
	e.write(&b, 0)
	return b.String()
}

func (e *Expr) write(b *strings.Builder, depth int) {
	if depth > 12 {
		b.WriteString("…")
		return
	}
	switch e.op {
	case OConst:
		if e.w == 0 {
			fmt.Fprintf(b, "%v", e.c != 0)
		} else {
			fmt.Fprintf(b, "%d", sextW(e.c, e.w))
		}
	case OVar:
		b.WriteString(e.name)
	default:
		b.WriteString("(" + opNames[e.op])
		for _, x := range [...]*Expr{e.a, e.b, e.d} {
			if x != nil {
				b.WriteByte(' ')
				x.write(b, depth+1)
			}
		}
		b.WriteByte(')')
	}
}
