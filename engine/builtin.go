package engine

import (
	"unsafe"

	"fmt"
	"go/types"
	"math"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// growCap is the capacity the Go run-time chooses when appending.
func (m *M) growCap(et types.Type, oldCap, need int) int {
	size, ptr := m.prog.sizeof(et)
	key := growKey{size, ptr, oldCap, need}
	if c, ok := m.prog.grow.Load(key); ok {
		return c.(int)
	}
	var elem reflect.Type
	switch {
	case size == 0:
		return need
	case ptr:
		elem = reflect.ArrayOf(int(size/8), reflect.TypeOf((*byte)(nil)))
	default:
		elem = reflect.ArrayOf(int(size), reflect.TypeOf(byte(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(elem), oldCap, oldCap)
	c := reflect.AppendSlice(s, reflect.MakeSlice(reflect.SliceOf(elem), need-oldCap, need-oldCap)).Cap()
	m.prog.grow.Store(key, c)
	return c
}

type growKey struct {
	size int64
	ptr  bool
	old  int
	need int
}

func (m *M) appendSlice(et types.Type, sl *Slice, add []Value) Value {
	var old []Value
	if sl != nil {
		old = sl.a
	}
	if len(add) == 0 {
		if sl == nil {
			return Value{}
		}
		return Value{o: sl}
	}
	n := len(old) + len(add)
	if n <= cap(old) {
		r := old[:n]
		// the source may overlap the destination: snapshot first
		tmp := make([]Value, len(add))
		for i, v := range add {
			tmp[i] = copyV(v)
		}
		for i, v := range tmp {
			m.store(&r[len(old)+i], v)
		}
		return Value{o: &Slice{r}}
	}
	c := m.growCap(et, cap(old), n)
	if c < n {
		c = n
	}
	r := make([]Value, n, c)
	for i, v := range old {
		r[i] = copyV(v)
	}
	for i, v := range add {
		r[len(old)+i] = copyV(v)
	}
	if z := m.zero(et); z.o != nil {
		full := r[:c]
		for i := n; i < c; i++ {
			full[i] = copyV(z)
		}
	}
	return Value{o: &Slice{r}}
}

func sliceVals(v Value) []Value {
	switch o := v.o.(type) {
	case nil:
		return nil
	case *Slice:
		return o.a
	case string, *SymStr:
		return strBytes(v)
	}
	panic(engineError(fmt.Sprintf("slice expected, got %T", v.o)))
}

func (m *M) builtin(fr *Frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	sig, _ := b.Type().(*types.Signature)
	argT := func(i int) types.Type {
		if cc != nil {
			return cc.Args[i].Type()
		}
		return sig.Params().At(i).Type()
	}
	switch b.Name() {
	case "append":
		st := argT(0).Underlying().(*types.Slice)
		sl, _ := args[0].o.(*Slice)
		if len(args) == 1 {
			return args[0]
		}
		return m.appendSlice(st.Elem(), sl, sliceVals(args[1]))
	case "len":
		switch o := args[0].o.(type) {
		case nil:
			if p, ok := argT(0).Underlying().(*types.Pointer); ok {
				return intV(int(p.Elem().Underlying().(*types.Array).Len()))
			}
			return intV(0)
		case string:
			return intV(len(o))
		case *SymStr:
			return intV(len(o.b))
		case *Slice:
			return intV(len(o.a))
		case *MapObj:
			return intV(o.n)
		case *Agg:
			return intV(len(o.f))
		case *Value:
			return intV(len(o.o.(*Agg).f))
		case *Native:
			return intV(0)
		}
	case "cap":
		switch o := args[0].o.(type) {
		case nil:
			return intV(0)
		case *Slice:
			return intV(cap(o.a))
		case *Agg:
			return intV(len(o.f))
		case *Value:
			return intV(len(o.o.(*Agg).f))
		}
	case "copy":
		dst := sliceVals(args[0])
		src := sliceVals(args[1])
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyV(src[i])
		}
		for i := range tmp {
			m.store(&dst[i], tmp[i])
		}
		return intV(n)
	case "delete":
		mo, _ := args[0].o.(*MapObj)
		if mo != nil {
			m.mapDelete(mo, argT(0).Underlying().(*types.Map).Key(), args[1])
		}
		return Value{}
	case "clear":
		switch o := args[0].o.(type) {
		case *MapObj:
			m.mapClear(o)
		case *Slice:
			z := m.zero(argT(0).Underlying().(*types.Slice).Elem())
			for i := range o.a {
				m.store(&o.a[i], z)
			}
		}
		return Value{}
	case "min", "max":
		r := args[0]
		for i := 1; i < len(args); i++ {
			r = m.minmax(argT(0), r, args[i], b.Name() == "min")
		}
		return r
	case "panic":
		m.throw(args[0])
	case "print", "println":
		return Value{}
	case "recover":
		if fr.deferOf && fr.parent != nil && fr.parent.panicking != nil && !fr.parent.recovered {
			p := m.writable(fr.parent)
			fr.parent = p
			p.recovered = true
			return p.panicking.v
		}
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			m.throwRT("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		n := m.intOf(args[1], 64)
		if n == 0 {
			return Value{}
		}
		if p, ok := args[0].o.(*strPtr); ok {
			return mkStr(append([]Value(nil), p.b[:n]...))
		}
		if p, ok := args[0].o.(*Value); ok { // &b[0]: elements lie side by side
			return mkStr(append([]Value(nil), unsafe.Slice(p, n)...))
		}
	case "SliceData", "StringData":
		if args[0].o == nil {
			return Value{}
		}
		return Value{o: &strPtr{sliceVals(args[0])}}
	case "Slice":
		n := m.intOf(args[1], 64)
		if p, ok := args[0].o.(*strPtr); ok {
			return Value{o: &Slice{append([]Value(nil), p.b[:n]...)}}
		}
		if n == 0 {
			return Value{}
		}
	}
	panic(engineError("unsupported builtin " + b.Name()))
}

// strPtr is what unsafe.SliceData and unsafe.StringData return.
type strPtr struct{ b []Value }

func (m *M) minmax(t types.Type, a, b Value, min bool) Value {
	if bits, ok := isFloat(t); ok {
		if min {
			return floatV(math.Min(a.float(bits), b.float(bits)), bits)
		}
		return floatV(math.Max(a.float(bits), b.float(bits)), bits)
	}
	if isString(t) {
		less := m.truth(m.strLess(a, b))
		if less == min {
			return a
		}
		return b
	}
	w, signed, ok := widthOf(t)
	if !ok {
		panic(engineError("min/max of " + t.String()))
	}
	op := OUlt
	if signed {
		op = OSlt
	}
	x, y := m.expr(a, w), m.expr(b, w)
	c := m.t.Cmp(op, x, y)
	if min {
		return exprV(m.t.Ite(c, x, y))
	}
	return exprV(m.t.Ite(c, y, x))
}
