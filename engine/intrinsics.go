package engine

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
)

// intrinsics replace functions that have no Go body, that belong to the
// verification interface, or whose interpretation would be pointless.
var intrinsics map[string]Intrinsic

// fastPaths run natively when every argument is concrete.
var fastPaths map[string]func(args []Value) (Value, bool)

func argStr(m *M, v Value) string {
	s, ok := conc(v)
	if !ok {
		panic(engineError("a concrete string is required here"))
	}
	return s
}

// concStr forces a string to be concrete by forking over its bytes.
func (m *M) concStr(v Value) string {
	if s, ok := conc(v); ok {
		return s
	}
	var b []byte
	for _, x := range strBytes(v) {
		b = append(b, byte(m.intOf(x, 8)))
	}
	return string(b)
}

func nop(m *M, fr *Frame, a []Value) Value { return Value{} }

func tuple(v ...Value) Value { return Value{o: &Agg{v}} }

func agg(v Value) *Agg { return v.o.(*Value).o.(*Agg) }

func (m *M) uniqueName(name string) string {
	n := 0
	for _, in := range m.inputs {
		if in.name == name || strings.HasPrefix(in.name, name+"#") {
			n++
		}
	}
	if n == 0 {
		return name
	}
	return name + "#" + strconv.Itoa(n)
}

func (m *M) fresh(name string, w uint8) *Expr {
	m.beginDecision()
	name = m.uniqueName(name)
	e := m.t.Var(name, w)
	m.inputs = append(m.inputs, inputRec{name: name, e: e})
	return e
}

// choose forks over 0..n-1 without asking the solver: the variable is fresh.
func (m *M) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	e := m.fresh(name, 16)
	m.require(m.t.Cmp(OUlt, e, m.t.Const(16, uint64(n))))
	for i := 0; i < n-1; i++ {
		if m.decide(m.t.Eq(e, m.t.Const(16, uint64(i)))) {
			return i
		}
	}
	// the last value is implied
	m.learn(m.t.Eq(e, m.t.Const(16, uint64(n-1))), true)
	return n - 1
}

func (m *M) event(kind, label string, v Value, w uint8, str bool) {
	ev := event{kind: kind, label: label, w: w, str: str}
	if str {
		ev.v = strBytes(v)
	} else {
		ev.v = []Value{v}
	}
	m.events = append(m.events, ev)
}

func (m *M) assertCond(c Value, label string) {
	m.stats.Asserts[label]++
	m.event("assert", label, Value{}, 0, false)
	if c.o == nil {
		if c.n == 0 {
			m.violation("assert", label)
			panic(killPath{"assertion failed"})
		}
		return
	}
	e := m.simp(c.o.(*Expr))
	if e.op == OConst {
		if e.c == 0 {
			m.violation("assert", label)
			panic(killPath{"assertion failed"})
		}
		return
	}
	m.beginDecision()
	if len(m.forced) > 0 {
		d := m.forced[0]
		m.forced = m.forced[1:]
		m.decs = append(m.decs, d)
		if d.imp {
			m.learnLit(e)
		} else {
			m.assume(e)
		}
		return
	}
	m.stats.AssertQueries++
	neg := m.t.Not(e)
	r, vals := m.sol.Check(m.pc, neg, m.pathVars())
	m.stats.Queries++
	switch r {
	case Unsat:
		m.decs = append(m.decs, dec{b: true, imp: true})
		m.learnLit(e)
		return
	case Unknown:
		panic(engineError("solver: unknown on assertion " + label))
	}
	old := m.model
	m.model = m.mkModel(vals)
	m.violation("assert", label)
	m.model = old
	// continue where the assertion holds
	if m.t.Eval(e, m.model) == 0 {
		r, vals := m.sol.Check(m.pc, e, m.pathVars())
		m.stats.Queries++
		if r != Sat {
			panic(killPath{"assertion failed"})
		}
		m.model = m.mkModel(vals)
	}
	m.decs = append(m.decs, dec{b: true})
	m.assume(e)
}

func (m *M) violation(kind, label string) {
	m.x.addCandidate(&Candidate{Kind: kind, Label: label, Inputs: m.inputValues(), Stack: m.backtrace()})
}

// InputVal is one input of a concrete case.
type InputVal struct {
	Name string `json:"n"`
	Val  uint64 `json:"v"`
}

func (m *M) inputValues() []InputVal {
	var r []InputVal
	for _, in := range m.inputs {
		r = append(r, InputVal{in.name, m.t.Eval(in.e, m.model)})
	}
	return r
}

func (m *M) renderEvents() []string {
	var r []string
	for _, e := range m.events {
		switch e.kind {
		case "obs":
			if e.str {
				b := make([]byte, len(e.v))
				for i, x := range e.v {
					b[i] = byte(m.evalV(x))
				}
				r = append(r, "obs "+e.label+"="+strconv.Quote(string(b)))
			} else {
				v := m.evalV(e.v[0])
				if e.w == 0 {
					r = append(r, fmt.Sprintf("obs %s=%v", e.label, v != 0))
				} else {
					r = append(r, fmt.Sprintf("obs %s=%d", e.label, sextW(v, e.w)))
				}
			}
		default:
			r = append(r, e.kind+" "+e.label)
		}
	}
	return r
}

func (m *M) evalV(v Value) uint64 {
	if v.o == nil {
		return v.n
	}
	return m.t.Eval(v.o.(*Expr), m.model)
}

func (m *M) symString(name string, n int) Value {
	b := make([]Value, n)
	for i := range b {
		b[i] = Value{o: m.fresh(name+"["+strconv.Itoa(i)+"]", 8)}
	}
	return mkStr(b)
}

func (m *M) inAlphabet(b Value, alpha string) {
	e := m.expr(b, 8)
	c := m.t.False
	x := []byte(alpha)
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	for i := 0; i < len(x); {
		j := i
		for j+1 < len(x) && x[j+1] <= x[j]+1 {
			j++
		}
		lo, hi := m.t.Const(8, uint64(x[i])), m.t.Const(8, uint64(x[j]))
		if i == j || x[i] == x[j] {
			c = m.t.Or(c, m.t.Eq(e, lo))
		} else {
			c = m.t.Or(c, m.t.And(m.t.Cmp(OUle, lo, e), m.t.Cmp(OUle, e, hi)))
		}
		i = j + 1
	}
	m.require(c)
}

const symPkg = "verif/sym."

func init() {
	intrinsics = map[string]Intrinsic{
		// ---- verification interface ----
		symPkg + "Byte": func(m *M, fr *Frame, a []Value) Value {
			return Value{o: m.fresh(argStr(m, a[0]), 8)}
		},
		symPkg + "Bool": func(m *M, fr *Frame, a []Value) Value {
			return Value{o: m.fresh(argStr(m, a[0]), 0)}
		},
		symPkg + "Int": func(m *M, fr *Frame, a []Value) Value {
			e := m.fresh(argStr(m, a[0]), 64)
			lo, hi := a[1].n, a[2].n
			m.require(m.t.And(m.t.Cmp(OSle, m.t.Const(64, lo), e), m.t.Cmp(OSle, e, m.t.Const(64, hi))))
			return exprV(m.simp(e))
		},
		symPkg + "Choose": func(m *M, fr *Frame, a []Value) Value {
			return intV(m.choose(argStr(m, a[0]), int(a[1].n)))
		},
		symPkg + "StringN": func(m *M, fr *Frame, a []Value) Value {
			return m.symString(argStr(m, a[0]), int(a[1].n))
		},
		symPkg + "String": func(m *M, fr *Frame, a []Value) Value {
			name := argStr(m, a[0])
			n := m.choose(name+".len", int(a[1].n)+1)
			return m.symString(name, n)
		},
		symPkg + "StringIn": func(m *M, fr *Frame, a []Value) Value {
			name := argStr(m, a[0])
			n := m.choose(name+".len", int(a[1].n)+1)
			s := m.symString(name, n)
			for _, b := range strBytes(s) {
				m.inAlphabet(b, argStr(m, a[2]))
			}
			return s
		},
		symPkg + "StringNIn": func(m *M, fr *Frame, a []Value) Value {
			s := m.symString(argStr(m, a[0]), int(a[1].n))
			for _, b := range strBytes(s) {
				m.inAlphabet(b, argStr(m, a[2]))
			}
			return s
		},
		symPkg + "Assume": func(m *M, fr *Frame, a []Value) Value {
			if a[0].o == nil {
				if a[0].n == 0 {
					panic(killPath{"assume"})
				}
				return Value{}
			}
			m.require(a[0].o.(*Expr))
			return Value{}
		},
		symPkg + "Assert": func(m *M, fr *Frame, a []Value) Value {
			m.assertCond(a[0], argStr(m, a[1]))
			return Value{}
		},
		symPkg + "Cover": func(m *M, fr *Frame, a []Value) Value {
			l := argStr(m, a[0])
			m.stats.Covers[l]++
			m.event("cover", l, Value{}, 0, false)
			return Value{}
		},
		symPkg + "ObserveInt": func(m *M, fr *Frame, a []Value) Value {
			m.event("obs", argStr(m, a[0]), a[1], 64, false)
			return Value{}
		},
		symPkg + "ObserveBool": func(m *M, fr *Frame, a []Value) Value {
			m.event("obs", argStr(m, a[0]), a[1], 0, false)
			return Value{}
		},
		symPkg + "ObserveString": func(m *M, fr *Frame, a []Value) Value {
			m.event("obs", argStr(m, a[0]), a[1], 8, true)
			return Value{}
		},
		symPkg + "Stop": func(m *M, fr *Frame, a []Value) Value { panic(killPath{"stop"}) },
		symPkg + "Known": func(m *M, fr *Frame, a []Value) Value {
			return boolV(m.x.cfg.Known[argStr(m, a[0])])
		},
		symPkg + "KnownHit": func(m *M, fr *Frame, a []Value) Value {
			id := argStr(m, a[0])
			m.event("known", id, Value{}, 0, false)
			m.x.addKnownHit(id, m.inputValues())
			return Value{}
		},
		symPkg + "Symbolic": func(m *M, fr *Frame, a []Value) Value { return boolV(true) },
		symPkg + "Thorough": func(m *M, fr *Frame, a []Value) Value { return boolV(m.x.cfg.Thorough) },
		symPkg + "And": func(m *M, fr *Frame, a []Value) Value {
			return m.andV(a[0], a[1])
		},
		symPkg + "Or": func(m *M, fr *Frame, a []Value) Value {
			return exprV(m.t.Or(m.expr(a[0], 0), m.expr(a[1], 0)))
		},
		symPkg + "Not": func(m *M, fr *Frame, a []Value) Value {
			return exprV(m.t.Not(m.expr(a[0], 0)))
		},
		symPkg + "Implies": func(m *M, fr *Frame, a []Value) Value {
			return exprV(m.t.Or(m.t.Not(m.expr(a[0], 0)), m.expr(a[1], 0)))
		},
		symPkg + "IteInt": func(m *M, fr *Frame, a []Value) Value {
			return exprV(m.t.Ite(m.expr(a[0], 0), m.expr(a[1], 64), m.expr(a[2], 64)))
		},
		symPkg + "Concrete": func(m *M, fr *Frame, a []Value) Value {
			return Value{n: uint64(m.intOf(a[0], 64))}
		},
		symPkg + "ConcreteString": func(m *M, fr *Frame, a []Value) Value {
			return strV(m.concStr(a[0]))
		},

		// ---- shim helpers ----
		"verif/shim.typeName": func(m *M, fr *Frame, a []Value) Value {
			if a[0].o == nil {
				return strV("<nil>")
			}
			return strV(types.TypeString(a[0].o.(*Iface).t.t, shortQual))
		},
		"verif/shim.basic": func(m *M, fr *Frame, a []Value) Value {
			// (kind int, i int64, u uint64, f float64, s string)
			i, _ := a[0].o.(*Iface)
			if i == nil {
				return tuple(intV(0), Value{}, Value{}, Value{}, Value{})
			}
			t := i.t.t
			if isString(t) {
				return tuple(intV(4), Value{}, Value{}, Value{}, i.v)
			}
			if bits, ok := isFloat(t); ok {
				return tuple(intV(5), Value{}, Value{}, floatV(i.v.float(bits), 64), Value{})
			}
			if w, s, ok := widthOf(t); ok {
				if w == 0 {
					return tuple(intV(1), exprV(m.t.Ite(m.expr(i.v, 0), m.t.Const(64, 1), m.t.Const(64, 0))), Value{}, Value{}, Value{})
				}
				if s {
					return tuple(intV(2), exprV(m.t.Sext(m.expr(i.v, w), 64)), Value{}, Value{}, Value{})
				}
				return tuple(intV(3), Value{}, exprV(m.t.Zext(m.expr(i.v, w), 64)), Value{}, Value{})
			}
			return tuple(intV(0), Value{}, Value{}, Value{}, Value{})
		},
		"verif/shim.onceTest": func(m *M, fr *Frame, a []Value) Value {
			p := a[0].o.(*Value)
			for _, c := range m.onceDone {
				if c == p {
					return boolV(true)
				}
			}
			m.onceDone = append(m.onceDone, p)
			n := len(m.onceDone)
			m.undo(func() { m.onceDone = m.onceDone[:n-1] })
			return boolV(false)
		},

		"verif/shim.swap": func(m *M, fr *Frame, a []Value) Value {
			s := sliceVals(a[0].o.(*Iface).v)
			i, j := a[1].int(), a[2].int()
			x, y := copyV(s[i]), copyV(s[j])
			m.store(&s[i], y)
			m.store(&s[j], x)
			return Value{}
		},
		"verif/shim.length": func(m *M, fr *Frame, a []Value) Value {
			return intV(len(sliceVals(a[0].o.(*Iface).v)))
		},

		// ---- os ----
		"os.Getenv": func(m *M, fr *Frame, a []Value) Value {
			if v, ok := m.env[argStr(m, a[0])]; ok {
				return v
			}
			return Value{}
		},
		"os.LookupEnv": func(m *M, fr *Frame, a []Value) Value {
			v, ok := m.env[argStr(m, a[0])]
			return tuple(v, boolV(ok))
		},
		"os.Setenv": func(m *M, fr *Frame, a []Value) Value {
			k := argStr(m, a[0])
			old, had := m.env[k]
			m.env[k] = a[1]
			m.undo(func() {
				if had {
					m.env[k] = old
				} else {
					delete(m.env, k)
				}
			})
			return Value{}
		},
		"os.Unsetenv": func(m *M, fr *Frame, a []Value) Value {
			k := argStr(m, a[0])
			old, had := m.env[k]
			delete(m.env, k)
			m.undo(func() {
				if had {
					m.env[k] = old
				}
			})
			return Value{}
		},
		"os.Exit": func(m *M, fr *Frame, a []Value) Value {
			m.throw(m.plainError(fmt.Sprintf("os.Exit(%d)", a[0].int())))
			return Value{}
		},

		// ---- sync ----
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.Mutex).TryLock":   func(m *M, fr *Frame, a []Value) Value { return boolV(true) },
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.Pool).Put":        nop,
		"runtime.KeepAlive":       nop,
		"runtime.GC":              nop,
		"internal/race.Enable":    nop,
		"internal/race.Disable":   nop,

		// ---- strings.Builder: the text is kept in the buf field ----
		"(*strings.Builder).WriteString": func(m *M, fr *Frame, a []Value) Value {
			b := slot(m, a[0]).o.(*Agg)
			m.store(&b.f[1], concat(b.f[1], a[1]))
			return tuple(intV(strLen(a[1])), Value{})
		},
		"(*strings.Builder).WriteByte": func(m *M, fr *Frame, a []Value) Value {
			b := slot(m, a[0]).o.(*Agg)
			m.store(&b.f[1], concat(b.f[1], mkStr([]Value{a[1]})))
			return Value{}
		},
		"(*strings.Builder).WriteRune": func(m *M, fr *Frame, a []Value) Value {
			b := slot(m, a[0]).o.(*Agg)
			r := m.encodeRune(a[1])
			m.store(&b.f[1], concat(b.f[1], mkStr(r)))
			return tuple(intV(len(r)), Value{})
		},
		"(*strings.Builder).Write": func(m *M, fr *Frame, a []Value) Value {
			b := slot(m, a[0]).o.(*Agg)
			s := sliceVals(a[1])
			m.store(&b.f[1], concat(b.f[1], mkStr(append([]Value(nil), s...))))
			return tuple(intV(len(s)), Value{})
		},
		"(*strings.Builder).String": func(m *M, fr *Frame, a []Value) Value {
			return slot(m, a[0]).o.(*Agg).f[1]
		},
		"(*strings.Builder).Len": func(m *M, fr *Frame, a []Value) Value {
			return intV(strLen(slot(m, a[0]).o.(*Agg).f[1]))
		},
		"(*strings.Builder).Cap": func(m *M, fr *Frame, a []Value) Value {
			return intV(strLen(slot(m, a[0]).o.(*Agg).f[1]))
		},
		"(*strings.Builder).Grow": nop,
		"(*strings.Builder).Reset": func(m *M, fr *Frame, a []Value) Value {
			m.store(&slot(m, a[0]).o.(*Agg).f[1], Value{})
			return Value{}
		},

		// ---- strings / bytealg ----
		"strings.Index": func(m *M, fr *Frame, a []Value) Value { return intV(m.strIndex(a[0], a[1])) },
		"strings.IndexByte": func(m *M, fr *Frame, a []Value) Value {
			return intV(m.strIndex(a[0], mkStr([]Value{a[1]})))
		},
		"strings.LastIndex": func(m *M, fr *Frame, a []Value) Value {
			n, k := strLen(a[0]), strLen(a[1])
			for i := n - k; i >= 0; i-- {
				if m.truth(m.strEq(substr(a[0], i, i+k), a[1])) {
					return intV(i)
				}
			}
			return intV(-1)
		},
		"strings.Clone":              func(m *M, fr *Frame, a []Value) Value { return a[0] },
		"internal/stringslite.Clone": func(m *M, fr *Frame, a []Value) Value { return a[0] },
		"internal/bytealg.IndexString": func(m *M, fr *Frame, a []Value) Value {
			return intV(m.strIndex(a[0], a[1]))
		},
		"internal/bytealg.IndexByteString": func(m *M, fr *Frame, a []Value) Value {
			return intV(m.strIndex(a[0], mkStr([]Value{a[1]})))
		},
		"internal/bytealg.IndexByte": func(m *M, fr *Frame, a []Value) Value {
			for i, x := range sliceVals(a[0]) {
				if m.truth(exprV(m.t.Eq(m.expr(x, 8), m.expr(a[1], 8)))) {
					return intV(i)
				}
			}
			return intV(-1)
		},
		"internal/bytealg.Index": func(m *M, fr *Frame, a []Value) Value {
			return intV(m.strIndex(mkStr(sliceVals(a[0])), mkStr(sliceVals(a[1]))))
		},
		"internal/bytealg.CountString": func(m *M, fr *Frame, a []Value) Value {
			return m.countByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Count": func(m *M, fr *Frame, a []Value) Value {
			return m.countByte(sliceVals(a[0]), a[1])
		},
		"internal/bytealg.Equal": func(m *M, fr *Frame, a []Value) Value {
			return m.strEq(mkStr(append([]Value(nil), sliceVals(a[0])...)), mkStr(append([]Value(nil), sliceVals(a[1])...)))
		},
		"bytes.Equal": func(m *M, fr *Frame, a []Value) Value {
			return m.strEq(mkStr(append([]Value(nil), sliceVals(a[0])...)), mkStr(append([]Value(nil), sliceVals(a[1])...)))
		},
		"internal/bytealg.MakeNoZero": func(m *M, fr *Frame, a []Value) Value {
			return Value{o: &Slice{make([]Value, a[0].int())}}
		},
		"internal/stringslite.Index": func(m *M, fr *Frame, a []Value) Value { return intV(m.strIndex(a[0], a[1])) },
		"strings.Compare":            func(m *M, fr *Frame, a []Value) Value { return m.strCompare(a[0], a[1]) },
		"internal/bytealg.CompareString": func(m *M, fr *Frame, a []Value) Value {
			return m.strCompare(a[0], a[1])
		},
		"cmp.CompareString": func(m *M, fr *Frame, a []Value) Value { return m.strCompare(a[0], a[1]) },
		"unicode/utf8.DecodeRuneInString": func(m *M, fr *Frame, a []Value) Value {
			r, n := m.decodeRune(strWindow(a[0], 0))
			return tuple(r, intV(n))
		},
		"unicode/utf8.DecodeRune": func(m *M, fr *Frame, a []Value) Value {
			r, n := m.decodeRune(sliceVals(a[0]))
			return tuple(r, intV(n))
		},
		"unicode/utf8.RuneCountInString": func(m *M, fr *Frame, a []Value) Value {
			b := strBytes(a[0])
			k := 0
			for len(b) > 0 {
				_, n := m.decodeRune(b)
				b = b[n:]
				k++
			}
			return intV(k)
		},
		"unicode/utf8.ValidString": func(m *M, fr *Frame, a []Value) Value {
			b := strBytes(a[0])
			for len(b) > 0 {
				r, n := m.decodeRune(b)
				if n == 1 && r.o == nil && r.n == 0xFFFD {
					return boolV(false)
				}
				b = b[n:]
			}
			return boolV(true)
		},

		// ---- atomics ----
		"sync/atomic.LoadInt32":             atomicLoad,
		"sync/atomic.LoadInt64":             atomicLoad,
		"sync/atomic.LoadUint32":            atomicLoad,
		"sync/atomic.LoadUint64":            atomicLoad,
		"sync/atomic.LoadPointer":           atomicLoad,
		"sync/atomic.StoreInt32":            atomicStore,
		"sync/atomic.StorePointer":          atomicStore,
		"sync/atomic.CompareAndSwapPointer": atomicCAS,
		"sync/atomic.StoreInt64":            atomicStore,
		"sync/atomic.StoreUint32":           atomicStore,
		"sync/atomic.StoreUint64":           atomicStore,
		"sync/atomic.AddInt32":              atomicAdd(32),
		"sync/atomic.AddInt64":              atomicAdd(64),
		"sync/atomic.AddUint32":             atomicAdd(32),
		"sync/atomic.AddUint64":             atomicAdd(64),
		"sync/atomic.CompareAndSwapInt32":   atomicCAS,
		"sync/atomic.CompareAndSwapInt64":   atomicCAS,
		"sync/atomic.CompareAndSwapUint32":  atomicCAS,

		// ---- math ----
		"math.Float64bits":     func(m *M, fr *Frame, a []Value) Value { return a[0] },
		"math.Float64frombits": func(m *M, fr *Frame, a []Value) Value { return a[0] },
		"math.Float32bits":     func(m *M, fr *Frame, a []Value) Value { return a[0] },
		"math.Float32frombits": func(m *M, fr *Frame, a []Value) Value { return a[0] },
		"math.Floor":           mathFn(math.Floor),
		"math.Ceil":            mathFn(math.Ceil),
		"math.Trunc":           mathFn(math.Trunc),
		"math.Sqrt":            mathFn(math.Sqrt),
		"math.Abs":             mathFn(math.Abs),
		"math.Mod": func(m *M, fr *Frame, a []Value) Value {
			return floatV(math.Mod(a[0].float(64), a[1].float(64)), 64)
		},
		"math.Pow": func(m *M, fr *Frame, a []Value) Value {
			return floatV(math.Pow(a[0].float(64), a[1].float(64)), 64)
		},
		"strconv.ParseFloat": func(m *M, fr *Frame, a []Value) Value {
			f, err := strconv.ParseFloat(m.concStr(a[0]), int(a[1].n))
			e := Value{}
			if err != nil {
				e = m.plainError(err.Error())
			}
			return tuple(floatV(f, 64), e)
		},
		"strconv.FormatFloat": func(m *M, fr *Frame, a []Value) Value {
			return strV(strconv.FormatFloat(a[0].float(64), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
		},

		// ---- regexp ----
		"regexp.Compile":     reCompile(false),
		"regexp.MustCompile": reCompile(true),
		"regexp.QuoteMeta":   func(m *M, fr *Frame, a []Value) Value { return strV(quoteMeta(m.concStr(a[0]))) },
		"regexp.MatchString": func(m *M, fr *Frame, a []Value) Value {
			re := m.reCompile(m.concStr(a[0]))
			if re.err != nil {
				return tuple(boolV(false), m.plainError(re.err.Error()))
			}
			return tuple(boolV(m.reFind(re, a[1], 0) != nil), Value{})
		},
		"(*regexp.Regexp).String":                  reM(func(m *M, re *reNative, a []Value) Value { return strV(re.src) }),
		"(*regexp.Regexp).Longest":                 func(m *M, fr *Frame, a []Value) Value { panic(engineError("Regexp.Longest is not modelled")) },
		"(*regexp.Regexp).NumSubexp":               reM(func(m *M, re *reNative, a []Value) Value { return intV(re.re.NumSubexp()) }),
		"(*regexp.Regexp).FindStringIndex":         reM(reFindStringIndex),
		"(*regexp.Regexp).FindString":              reM(reFindString),
		"(*regexp.Regexp).MatchString":             reM(func(m *M, re *reNative, a []Value) Value { return boolV(m.reFind(re, a[1], 0) != nil) }),
		"(*regexp.Regexp).FindStringSubmatch":      reM(reFindStringSubmatch),
		"(*regexp.Regexp).FindStringSubmatchIndex": reM(reFindStringSubmatchIndex),
		"(*regexp.Regexp).ReplaceAllString":        reM(reReplaceAllString),
		"(*regexp.Regexp).ReplaceAllLiteralString": reM(reReplaceAllLiteralString),
		"(*regexp.Regexp).FindAllString":           reM(reFindAllString),
		"(*regexp.Regexp).FindAllStringIndex":      reM(reFindAllStringIndex),
		"(*regexp.Regexp).Match": reM(func(m *M, re *reNative, a []Value) Value {
			return boolV(m.reFind(re, mkStr(append([]Value(nil), sliceVals(a[1])...)), 0) != nil)
		}),
		"(*regexp.Regexp).FindIndex": reM(func(m *M, re *reNative, a []Value) Value {
			return reFindStringIndex(m, re, []Value{a[0], mkStr(append([]Value(nil), sliceVals(a[1])...))})
		}),
		"internal/godebug.New":                      func(m *M, fr *Frame, a []Value) Value { return Value{} },
		"(*internal/godebug.Setting).Value":         func(m *M, fr *Frame, a []Value) Value { return Value{} },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"internal/runtime/atomic.Load":              atomicLoad,
		"internal/reflectlite.TypeOf":               func(m *M, fr *Frame, a []Value) Value { return Value{} },
		"time.Now":                                  func(m *M, fr *Frame, a []Value) Value { panic(engineError("time.Now is not modelled")) },
	}
	_ = os.Args

	cs := func(f func(s string) Value) func([]Value) (Value, bool) {
		return func(a []Value) (Value, bool) {
			s, ok := conc(a[0])
			if !ok {
				return Value{}, false
			}
			return f(s), true
		}
	}
	c2 := func(f func(s, t string) Value) func([]Value) (Value, bool) {
		return func(a []Value) (Value, bool) {
			s, ok := conc(a[0])
			t, ok2 := conc(a[1])
			if !ok || !ok2 {
				return Value{}, false
			}
			return f(s, t), true
		}
	}
	strSlice := func(x []string) Value {
		if x == nil {
			return Value{}
		}
		r := make([]Value, len(x))
		for i, s := range x {
			r[i] = strV(s)
		}
		return Value{o: &Slice{r}}
	}
	fastPaths = map[string]func([]Value) (Value, bool){
		"strconv.Itoa": func(a []Value) (Value, bool) {
			if a[0].o != nil {
				return Value{}, false
			}
			return strV(strconv.Itoa(int(int64(a[0].n)))), true
		},
		"strings.ToLower":   cs(func(s string) Value { return strV(strings.ToLower(s)) }),
		"strings.ToUpper":   cs(func(s string) Value { return strV(strings.ToUpper(s)) }),
		"strings.TrimSpace": cs(func(s string) Value { return strV(strings.TrimSpace(s)) }),
		"strings.HasPrefix": c2(func(s, t string) Value { return boolV(strings.HasPrefix(s, t)) }),
		"strings.HasSuffix": c2(func(s, t string) Value { return boolV(strings.HasSuffix(s, t)) }),
		"strings.Contains":  c2(func(s, t string) Value { return boolV(strings.Contains(s, t)) }),
		"strings.Split":     c2(func(s, t string) Value { return strSlice(strings.Split(s, t)) }),
		"strings.Count":     c2(func(s, t string) Value { return intV(strings.Count(s, t)) }),
		"strings.Trim":      c2(func(s, t string) Value { return strV(strings.Trim(s, t)) }),
		"strings.Repeat": func(a []Value) (Value, bool) {
			s, ok := conc(a[0])
			if !ok || a[1].o != nil || int64(a[1].n) < 0 || int64(a[1].n) > 1<<20 {
				return Value{}, false
			}
			return strV(strings.Repeat(s, a[1].int())), true
		},
		"strings.ReplaceAll": func(a []Value) (Value, bool) {
			x, o1 := conc(a[0])
			y, o2 := conc(a[1])
			z, o3 := conc(a[2])
			if !o1 || !o2 || !o3 {
				return Value{}, false
			}
			return strV(strings.ReplaceAll(x, y, z)), true
		},
	}
}

func mathFn(f func(float64) float64) Intrinsic {
	return func(m *M, fr *Frame, a []Value) Value { return floatV(f(a[0].float(64)), 64) }
}

func atomicLoad(m *M, fr *Frame, a []Value) Value { return *slot(m, a[0]) }
func atomicStore(m *M, fr *Frame, a []Value) Value {
	m.store(slot(m, a[0]), a[1])
	return Value{}
}
func atomicAdd(w uint8) Intrinsic {
	return func(m *M, fr *Frame, a []Value) Value {
		p := slot(m, a[0])
		r := exprV(m.t.Bin(OAdd, m.expr(*p, w), m.expr(a[1], w)))
		m.store(p, r)
		return r
	}
}
func atomicCAS(m *M, fr *Frame, a []Value) Value {
	p := slot(m, a[0])
	if p.o == a[1].o && p.n == a[1].n {
		m.store(p, a[2])
		return boolV(true)
	}
	return boolV(false)
}

func (m *M) strIndex(s, sub Value) int {
	n, k := strLen(s), strLen(sub)
	for i := 0; i+k <= n; i++ {
		if m.truth(m.strEq(substr(s, i, i+k), sub)) {
			return i
		}
	}
	return -1
}

func (m *M) countByte(b []Value, c Value) Value {
	r := m.t.Const(64, 0)
	for _, x := range b {
		e := m.t.Eq(m.expr(x, 8), m.expr(c, 8))
		r = m.t.Bin(OAdd, r, m.t.Ite(e, m.t.Const(64, 1), m.t.Const(64, 0)))
	}
	return exprV(r)
}

func (m *M) strCompare(a, b Value) Value {
	lt := m.expr(m.strLess(a, b), 0)
	eq := m.expr(m.strEq(a, b), 0)
	t := m.t
	return exprV(t.Ite(lt, t.Const(64, ^uint64(0)), t.Ite(eq, t.Const(64, 0), t.Const(64, 1))))
}
