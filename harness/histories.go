package harness

import (
	"strconv"

	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C12: histories ----

var historical = []*G{
	backtracking[0], backtracking[3], backtracking[5],
	{"a+*(", [][2]string{
		{"E", "l:E o:[+] r:T | T"},
		{"T", "T '*' F | F"},
		{"F", "'(' E | 'a'"},
	}},
	{"abx", [][2]string{
		{"A", "B [x] | 'a'"},
		{"B", "A [x] 'b'? | &:L 'b'"},
		{"L", "k:[ab]* 'x'"},
	}},
	{"ab\n", [][2]string{
		{"S", "(x:P)? y:Q* | @:P Q"},
		{"P", "k:/[ab]+/ l:N"},
		{"Q", "!N [ab] | N"},
		{"N", `[\n]`},
	}},
}

// origins tells where the maps in a come from.
func origins(a joeson.Ast) (s string) {
	switch x := a.(type) {
	case *joeson.NativeArray:
		for i := 0; i < x.Length(); i++ {
			s += origins(x.Get(i))
		}
	case *joeson.NativeMap:
		o := x.GetOrigin()
		s = o.RuleName + " " + strconv.Itoa(o.Line) + ":" + strconv.Itoa(o.Start) + "-" + strconv.Itoa(o.End) + "{"
		for _, k := range x.Keys() {
			y, _ := x.GetExists(k)
			s += origins(y)
		}
		s += "}"
	}
	return s
}

// again parses s with gm and with a fresh copy of it, which have to agree.
func again(fresh, gm *joeson.Grammar, s string) {
	a, b := gm.ParseString(s), fresh.ParseString(s)
	sym.Assert(outcome(a) == outcome(b), "outcome")
	if outcome(a) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "value")
		sym.Assert(origins(a) == origins(b), "origin")
	} else {
		sym.Assert((a == nil) == (b == nil), "outcome")
		if e, ok := a.(joeson.ParseError); ok {
			sym.Assert(e.ErrorString == b.(joeson.ParseError).ErrorString, "message")
		}
	}
}

// C12_Twice: any text first.
//
//verif:bounds 6 grammars (backtracking, left recursion, labels); first text of length <= 3, second of length <= 3 (thorough 4) over the grammar's alphabet of 2 to 5 characters
//verif:expect outcome value message accepted
func C12_Twice() {
	compiler()
	g := pick(historical)
	fresh := g.build(nil)
	gm := g.build(nil)
	gm.ParseString(sym.StringIn("first", 3, g.alphabet))
	again(fresh, gm, sym.StringIn("in", 3+deep(1), g.alphabet))
}

// C12_Between: other grammars built and used in between, tokens parsed, the
// first parse given options.
//
//verif:bounds the same grammars; in between one of: a token stream, another grammar, the same grammar compiled again, a SkipLog parse, the rules printed; first text of length <= 2 (thorough 3), second of length <= 2 (thorough 3)
//verif:expect outcome value message accepted
func C12_Between() {
	compiler()
	g := pick(historical)
	fresh := g.build(nil)
	gm := g.build(nil)
	first := sym.StringIn("first", 2+deep(1), g.alphabet)
	switch sym.Choose("between", 5) {
	case 0:
		gm.ParseTokens(joeson.NewTokenStream("?"+first, []joeson.Token{{Repr: first, OriginalOffset: 1, WorkOffset: 0}}))
	case 1:
		o := pick(historical).build(nil)
		gm.ParseString(first)
		o.ParseString(first)
	case 2:
		g.build(nil).ParseString(first)
	case 3:
		gm.ParseString(first, joeson.SkipLog{Bool: true}, joeson.SkipCache{Bool: true})
	default:
		gm.ParseString(first)
		_ = gm.String()
		gm.CountRules()
	}
	again(fresh, gm, sym.StringIn("in", 2+deep(1), g.alphabet))
}

// C12_Aborted: a parse aborted by a panic leaves nothing behind.
//
//verif:bounds the same grammars, any rule's callback panicking when first called, in the first parse only; first text of length <= 3, second of length <= 3 (thorough 4)
//verif:expect outcome value message accepted aborted
func C12_Aborted() {
	compiler()
	g := pick(historical)
	fresh := g.build(nil)
	bad := sym.Choose("bad", len(g.rules))
	armed := false
	gm := g.build(func(i int) []any {
		if i != bad {
			return nil
		}
		return []any{func(a joeson.Ast) joeson.Ast {
			if armed {
				panic("abort")
			}
			return a
		}}
	})
	first := sym.StringIn("first", 3, g.alphabet)
	armed = true
	p, _ := try(func() joeson.Ast { return gm.ParseString(first) })
	armed = false
	if p != nil {
		sym.Cover("aborted")
	} else {
		sym.Stop()
	}
	again(fresh, gm, sym.StringIn("in", 3+deep(1), g.alphabet))
}

// C12_Reentrant: a callback parses another text with the same grammar.
//
//verif:bounds the same grammars, any rule's callback parsing an inner text of length <= 2 whenever called from outside; outer text of length <= 3 (thorough 4)
//verif:expect outcome value message accepted entered
func C12_Reentrant() {
	compiler()
	g := pick(historical)
	fresh := g.build(nil)
	bad := sym.Choose("rule", len(g.rules))
	inner := sym.StringIn("inner", 2, g.alphabet)
	depth := 0
	var gm *joeson.Grammar
	gm = g.build(func(i int) []any {
		if i != bad {
			return nil
		}
		return []any{func(a joeson.Ast) joeson.Ast {
			if depth == 0 && gm != nil {
				depth++
				sym.Cover("entered")
				gm.ParseString(inner)
				depth--
			}
			return a
		}}
	})
	again(fresh, gm, sym.StringIn("in", 3+deep(1), g.alphabet))
}
