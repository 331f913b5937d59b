package engine

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Value is a Go value inside the executor.
//
//	bool, integers   n = bits zero-extended from the type's width, or o = *Expr
//	floats           n = IEEE bits (never symbolic)
//	string           o = string | *SymStr | nil for ""
//	pointer          o = *Value (the slot) | *SymPtr | nil
//	struct, array    o = *Agg (immutable while in a register)
//	slice            o = *Slice | nil
//	map              o = *MapObj | nil
//	func             o = *Closure | nil
//	interface        o = *Iface | nil
//	opaque           o = *Native
type Value struct {
	n uint64
	o any
}

type Agg struct{ f []Value }
type Slice struct{ a []Value }
type SymStr struct{ b []Value }
type Iface struct {
	t *RType
	v Value
}
type Closure struct {
	fn   *Func
	free []Value
}
type Native struct{ v any }

// SymPtr is the address of an element selected by a symbolic (in-bounds) index.
type SymPtr struct {
	elems []Value
	idx   *Expr
}

// RType is an interned types.Type.
type RType struct {
	t       types.Type
	id      int
	impl    map[*RType]bool
	methods map[*types.Func]*Func
}

type MapObj struct {
	idx  map[any]int
	keys []Value
	vals []*Value
	live []bool
	n    int
	sym  int // number of live keys that are not concrete
}

func boolV(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func intV(i int) Value    { return Value{n: uint64(i)} }
func strV(s string) Value { return Value{o: s} }
func (v Value) int() int  { return int(v.n) }
func (v Value) sym() *Expr {
	if v.o == nil {
		return nil
	}
	e, _ := v.o.(*Expr)
	return e
}

// exprV wraps a term, folding constants.
func exprV(e *Expr) Value {
	if e.op == OConst {
		return Value{n: e.c}
	}
	return Value{o: e}
}

func (m *M) expr(v Value, w uint8) *Expr {
	if v.o != nil {
		e := v.o.(*Expr)
		if e.w != w {
			panic(engineError(fmt.Sprintf("width confusion: %d vs %d", e.w, w)))
		}
		return e
	}
	return m.t.Const(w, v.n)
}

func copyV(v Value) Value {
	if v.o != nil {
		if a, ok := v.o.(*Agg); ok {
			return Value{o: copyAgg(a)}
		}
	}
	return v
}

func copyAgg(a *Agg) *Agg {
	f := make([]Value, len(a.f))
	for i, x := range a.f {
		if x.o != nil {
			if b, ok := x.o.(*Agg); ok {
				x = Value{o: copyAgg(b)}
			}
		}
		f[i] = x
	}
	return &Agg{f}
}

// opaque struct types are represented by *Native.
func opaqueType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == "regexp" && n.Obj().Name() == "Regexp"
}

func (m *M) zero(t types.Type) Value {
	if opaqueType(t) {
		return Value{}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = m.zero(u.Field(i).Type())
		}
		return Value{o: &Agg{f}}
	case *types.Array:
		f := make([]Value, u.Len())
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range f {
				f[i] = m.zero(u.Elem())
			}
		}
		return Value{o: &Agg{f}}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = m.zero(u.At(i).Type())
		}
		return Value{o: &Agg{f}}
	}
	return Value{}
}

// width of a scalar type; 0 for bool.
func widthOf(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (bits int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func floatV(f float64, bits int) Value {
	if bits == 32 {
		return Value{n: uint64(math.Float32bits(float32(f)))}
	}
	return Value{n: math.Float64bits(f)}
}
func (v Value) float(bits int) float64 {
	if bits == 32 {
		return float64(math.Float32frombits(uint32(v.n)))
	}
	return math.Float64frombits(v.n)
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.o.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(engineError(fmt.Sprintf("not a string: %T", v.o)))
}

func strByte(v Value, i int) Value {
	switch s := v.o.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic(engineError("strByte"))
}

// conc returns the Go string when v is fully concrete.
func conc(v Value) (string, bool) {
	switch s := v.o.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if x.o != nil {
			return Value{o: &SymStr{b}}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.n))
	}
	return strV(sb.String())
}

func strBytes(v Value) []Value {
	switch s := v.o.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].n = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(engineError("strBytes"))
}

func substr(v Value, i, j int) Value {
	switch s := v.o.(type) {
	case nil:
		return v
	case string:
		return strV(s[i:j])
	case *SymStr:
		return mkStr(s.b[i:j:j])
	}
	panic(engineError("substr"))
}

func concat(a, b Value) Value {
	x, ok1 := conc(a)
	y, ok2 := conc(b)
	if ok1 && ok2 {
		if x == "" {
			return b
		}
		if y == "" {
			return a
		}
		return strV(x + y)
	}
	p, q := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(p)+len(q))
	r = append(r, p...)
	r = append(r, q...)
	return mkStr(r)
}

func (m *M) strEq(a, b Value) Value {
	x, ok1 := conc(a)
	y, ok2 := conc(b)
	if ok1 && ok2 {
		return boolV(x == y)
	}
	n := strLen(a)
	if n != strLen(b) {
		return boolV(false)
	}
	r := m.t.True
	for i := 0; i < n; i++ {
		p, q := strByte(a, i), strByte(b, i)
		if p.o == nil && q.o == nil {
			if p.n != q.n {
				return boolV(false)
			}
			continue
		}
		r = m.t.And(r, m.t.Eq(m.expr(p, 8), m.expr(q, 8)))
		if r == m.t.False {
			break
		}
	}
	return exprV(r)
}

// strLess is a < b lexicographically.
func (m *M) strLess(a, b Value) Value {
	x, ok1 := conc(a)
	y, ok2 := conc(b)
	if ok1 && ok2 {
		return boolV(x < y)
	}
	na, nb := strLen(a), strLen(b)
	n := na
	if nb < n {
		n = nb
	}
	r := m.t.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		p, q := m.expr(strByte(a, i), 8), m.expr(strByte(b, i), 8)
		r = m.t.Or(m.t.Cmp(OUlt, p, q), m.t.And(m.t.Eq(p, q), r))
	}
	return exprV(r)
}

// decodeRune decodes the first rune of b, forking on the UTF-8 classes of
// symbolic bytes.
func (m *M) decodeRune(b []Value) (Value, int) {
	if len(b) == 0 {
		return Value{n: 0xFFFD}, 0
	}
	sym := false
	var buf [4]byte
	n := 0
	for i := 0; i < 4 && i < len(b); i++ {
		if b[i].o != nil {
			sym = true
			break
		}
		buf[i] = byte(b[i].n)
		n++
		if i == 0 && buf[0] < 0x80 {
			break
		}
	}
	if !sym || (n > 0 && utf8.FullRune(buf[:n])) {
		r, sz := utf8.DecodeRune(buf[:n])
		return Value{n: uint64(uint32(r))}, sz
	}
	t := m.t
	c := func(x uint64) *Expr { return t.Const(8, x) }
	b0 := m.expr(b[0], 8)
	if m.decide(t.Cmp(OUlt, b0, c(0x80))) {
		return exprV(t.Zext(b0, 32)), 1
	}
	bad := Value{n: 0xFFFD}
	if m.decide(t.Or(t.Cmp(OUlt, b0, c(0xC2)), t.Cmp(OUlt, c(0xF4), b0))) {
		return bad, 1
	}
	size := 4
	if m.decide(t.Cmp(OUlt, b0, c(0xE0))) {
		size = 2
	} else if m.decide(t.Cmp(OUlt, b0, c(0xF0))) {
		size = 3
	}
	if len(b) < size {
		return bad, 1
	}
	b1 := m.expr(b[1], 8)
	lo, hi := c(0x80), c(0xBF)
	if size == 3 {
		lo = t.Ite(t.Eq(b0, c(0xE0)), c(0xA0), lo)
		hi = t.Ite(t.Eq(b0, c(0xED)), c(0x9F), hi)
	}
	if size == 4 {
		lo = t.Ite(t.Eq(b0, c(0xF0)), c(0x90), lo)
		hi = t.Ite(t.Eq(b0, c(0xF4)), c(0x8F), hi)
	}
	ok := t.And(t.Cmp(OUle, lo, b1), t.Cmp(OUle, b1, hi))
	for i := 2; i < size; i++ {
		x := m.expr(b[i], 8)
		ok = t.And(ok, t.And(t.Cmp(OUle, c(0x80), x), t.Cmp(OUle, x, c(0xBF))))
	}
	if !m.decide(ok) {
		return bad, 1
	}
	z := func(e *Expr, mask uint64) *Expr {
		return t.Bin(OBAnd, t.Zext(e, 32), t.Const(32, mask))
	}
	var lead uint64
	switch size {
	case 2:
		lead = 0x1F
	case 3:
		lead = 0x0F
	default:
		lead = 0x07
	}
	r := z(b0, lead)
	for i := 1; i < size; i++ {
		r = t.Bin(OBOr, t.Bin(OShl, r, t.Const(32, 6)), z(m.expr(b[i], 8), 0x3F))
	}
	return exprV(r), size
}

// encodeRune is string(rune), forking on the length classes.
func (m *M) encodeRune(r Value) []Value {
	if r.o == nil {
		return strBytes(strV(string(rune(int32(uint32(r.n))))))
	}
	t := m.t
	e := m.expr(r, 32)
	c := func(x uint64) *Expr { return t.Const(32, x) }
	by := func(hi uint64, sh uint64, mask uint64) Value {
		x := t.Bin(OLshr, e, c(sh))
		x = t.Bin(OBAnd, x, c(mask))
		x = t.Bin(OBOr, x, c(hi))
		return exprV(t.Trunc(x, 8))
	}
	if m.decide(t.Cmp(OUlt, e, c(0x80))) {
		return []Value{exprV(t.Trunc(e, 8))}
	}
	if m.decide(t.Cmp(OUlt, e, c(0x800))) {
		return []Value{by(0xC0, 6, 0x1F), by(0x80, 0, 0x3F)}
	}
	bad := t.Or(t.Cmp(OUlt, c(0x10FFFF), e), t.And(t.Cmp(OUle, c(0xD800), e), t.Cmp(OUle, e, c(0xDFFF))))
	if m.decide(bad) {
		return strBytes(strV("\uFFFD"))
	}
	if m.decide(t.Cmp(OUlt, e, c(0x10000))) {
		return []Value{by(0xE0, 12, 0x0F), by(0x80, 6, 0x3F), by(0x80, 0, 0x3F)}
	}
	return []Value{by(0xF0, 18, 0x07), by(0x80, 12, 0x3F), by(0x80, 6, 0x3F), by(0x80, 0, 0x3F)}
}

// ---- equality ----

func (m *M) andV(a, b Value) Value {
	if a.o == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.o == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return exprV(m.t.And(a.o.(*Expr), b.o.(*Expr)))
}

func (m *M) eq(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(a, b)
		}
		if bits, ok := isFloat(u); ok {
			return boolV(a.float(bits) == b.float(bits))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return boolV(a.o == b.o)
		}
		w, _, ok := widthOf(u)
		if !ok {
			panic(engineError("eq on " + t.String()))
		}
		if a.o == nil && b.o == nil {
			return boolV(a.n == b.n)
		}
		return exprV(m.t.Eq(m.expr(a, w), m.expr(b, w)))
	case *types.Interface:
		if a.o == nil || b.o == nil {
			return boolV(a.o == nil && b.o == nil)
		}
		x, y := a.o.(*Iface), b.o.(*Iface)
		if x.t != y.t {
			return boolV(false)
		}
		if !types.Comparable(x.t.t) {
			m.throwRT("comparing uncomparable type " + x.t.t.String())
		}
		return m.eq(x.t.t, x.v, y.v)
	case *types.Struct:
		if opaqueType(t) {
			panic(engineError("comparison of opaque struct"))
		}
		r := boolV(true)
		x, y := a.o.(*Agg), b.o.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.andV(r, m.eq(u.Field(i).Type(), x.f[i], y.f[i]))
			if r.o == nil && r.n == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		r := boolV(true)
		x, y := a.o.(*Agg), b.o.(*Agg)
		for i := range x.f {
			r = m.andV(r, m.eq(u.Elem(), x.f[i], y.f[i]))
			if r.o == nil && r.n == 0 {
				return r
			}
		}
		return r
	}
	return boolV(a.o == b.o)
}

// ---- maps ----

type ifaceKey struct {
	t *RType
	k any
}

// mapKey turns a concrete value into a comparable Go value; ok is false when
// the value has symbolic parts.
func mapKey(v Value) (any, bool) {
	switch o := v.o.(type) {
	case nil:
		return v.n, true
	case string:
		if o == "" {
			return uint64(0), true // the nil representation of ""
		}
		return o, true
	case *Expr, *SymStr:
		return nil, false
	case *Iface:
		k, ok := mapKey(o.v)
		return ifaceKey{o.t, k}, ok
	case *Agg:
		var b strings.Builder
		for _, x := range o.f {
			k, ok := mapKey(x)
			if !ok {
				return nil, false
			}
			switch k.(type) {
			case uint64, string, ifaceKey:
				fmt.Fprintf(&b, "%T:%#v;", k, k)
			default:
				fmt.Fprintf(&b, "%T:%p;", k, k)
			}
		}
		return b.String(), true
	}
	return v.o, true
}

func newMap() *MapObj { return &MapObj{idx: map[any]int{}} }

// mapFind returns the index of the entry equal to key, or -1.
func (m *M) mapFind(mo *MapObj, kt types.Type, key Value) int {
	k, ok := mapKey(key)
	if ok && mo.sym == 0 {
		if i, hit := mo.idx[k]; hit {
			return i
		}
		return -1
	}
	for i := range mo.keys {
		if !mo.live[i] {
			continue
		}
		if m.truth(m.eq(kt, mo.keys[i], key)) {
			return i
		}
	}
	return -1
}

func (m *M) mapSet(mo *MapObj, kt types.Type, key, val Value) {
	if i := m.mapFind(mo, kt, key); i >= 0 {
		m.store(mo.vals[i], val)
		return
	}
	i := len(mo.keys)
	slot := &Value{}
	*slot = copyV(val)
	mo.keys = append(mo.keys, copyV(key))
	mo.vals = append(mo.vals, slot)
	mo.live = append(mo.live, true)
	mo.n++
	k, ok := mapKey(key)
	if ok {
		mo.idx[k] = i
	} else {
		mo.sym++
	}
	m.undo(func() {
		mo.keys = mo.keys[:i]
		mo.vals = mo.vals[:i]
		mo.live = mo.live[:i]
		mo.n--
		if ok {
			delete(mo.idx, k)
		} else {
			mo.sym--
		}
	})
}

func (m *M) mapDelete(mo *MapObj, kt types.Type, key Value) {
	i := m.mapFind(mo, kt, key)
	if i < 0 {
		return
	}
	mo.live[i] = false
	mo.n--
	k, ok := mapKey(mo.keys[i])
	if ok {
		delete(mo.idx, k)
	} else {
		mo.sym--
	}
	m.undo(func() {
		mo.live[i] = true
		mo.n++
		if ok {
			mo.idx[k] = i
		} else {
			mo.sym++
		}
	})
}

func (m *M) mapClear(mo *MapObj) {
	old := *mo
	*mo = MapObj{idx: map[any]int{}}
	m.undo(func() { *mo = old })
}

// ---- functions ----

type instr func(m *M, fr *Frame)

type Intrinsic func(m *M, fr *Frame, args []Value) Value

type Func struct {
	fn       *ssa.Function
	name     string
	code     []instr
	src      []ssa.Instruction
	nregs    int
	nparams  int
	consts   []Value
	compiled bool
	intr     Intrinsic
	fast     func([]Value) (Value, bool)
	start    []int // pc of each block
	recover  int   // pc of the recover block or -1
	closure  Value // the plain function value
	calls    int64
	steps    int64
}
