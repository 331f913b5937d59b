package harness

import (
	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C11: callbacks ----

// what a callback does
const (
	keep = iota
	wrap
	replace
	rejectOdd   // when the match ends on an odd position
	rejectValue // when the value is the string "a"
	callbackKinds
)

func act(kind int, a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast {
	switch kind {
	case wrap:
		return joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString("w"), a})
	case replace:
		return joeson.NewNativeString("r")
	case rejectOdd:
		if ctx.Code.Pos()%2 == 1 {
			return nil
		}
	case rejectValue:
		if s, ok := a.(joeson.NativeString); ok && string(s) == "a" {
			return nil
		}
	}
	return a
}

func actV(kind int, v *V, end int) *V {
	switch kind {
	case wrap:
		return varr(vstr("w"), v)
	case replace:
		return vstr("r")
	case rejectOdd:
		if end%2 == 1 {
			return nil
		}
	case rejectValue:
		if v.K == 's' && v.S == "a" {
			return nil
		}
	}
	return v
}

// signed is the callback f in one of the three signatures, the first only
// where no context is needed.
func signed(sig int, f func(joeson.Ast, *joeson.ParseContext) joeson.Ast) any {
	switch sig {
	case 0:
		return func(a joeson.Ast) joeson.Ast { return f(a, nil) }
	case 1:
		return f
	}
	return func(a joeson.Ast, ctx *joeson.ParseContext, _ joeson.Ast) joeson.Ast { return f(a, ctx) }
}

func called() *R {
	switch sym.Choose("grammar", 6) {
	case 0:
		return rules("",
			"S", alt(seq(ref("A"), ref("B")), seq(ref("B"), ref("A")), ref("A")),
			"A", plus(class("ab"), nil),
			"B", class("ab"))
	case 1:
		return rules("",
			"S", seq(lab("x", opt(ref("A"))), lab("y", star(ref("B"), nil))),
			"A", seq(ref("B"), ref("B")),
			"B", alt(lit("a"), lit("b")))
	case 2:
		return rules("",
			"S", seq(not(ref("A")), star(alt(ref("A"), ref("B")), nil)),
			"A", seq(class("a"), look(ref("B"))),
			"B", class("ab"))
	case 3:
		return rules("",
			"S", alt(seq(ref("A"), lit("b")), seq(ref("A"), ref("A")), ref("B")),
			"A", opt(ref("B")),
			"B", lab("l", plus(class("a"), nil)))
	case 4:
		return rules("S ",
			"S", alt(seq(ref("S"), ref("A")), ref("B")),
			"A", class("ab"),
			"B", seq(class("a"), opt(ref("A"))))
	}
	return rules("",
		"S", plus(ref("A"), ref("B")),
		"A", alt(seq(ref("B"), lit("a")), class("a")),
		"B", class("b"))
}

// C11_Values: every rule with any kind of callback.
//
//verif:bounds 6 grammars of three rules, each rule's callback one of none, keep, wrap, replace, reject on odd ends, reject the string "a", signatures func(Ast,*ParseContext) or with the caller; texts over a b of length <= 4 (thorough 5)
//verif:expect language value accepted
func C11_Values() {
	compiler()
	g := called()
	kinds := make([]int, len(g.Names))
	sig := 1 + sym.Choose("signature", 2)
	gm := grammarOf("gm", g.lines(func(i int) []any {
		kinds[i] = sym.Choose("callback", callbackKinds)
		if kinds[i] == keep {
			return nil
		}
		k := kinds[i]
		return []any{signed(sig, func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast { return act(k, a, ctx) })}
	})...)
	g.cb = func(name string, v *V, start, end int) *V {
		for i, n := range g.Names {
			if n == name {
				return actV(kinds[i], v, end)
			}
		}
		return v
	}
	s := sym.StringIn("in", 4+deep(1), "ab")
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}

// C11_Received: what callbacks receive, in which order, in all signatures.
//
//verif:bounds the same grammars without the left-recursive one, all callbacks recording the value received, each in any of the three signatures; texts over a b of length <= 4 (thorough 6)
//verif:expect order received context accepted
func C11_Received() {
	compiler()
	g := called()
	sym.Assume(g.LR == "")
	type call struct {
		name string
		v    joeson.Ast
		end  int
	}
	var got []call
	length := 0
	gm := grammarOf("gm", g.lines(func(i int) []any {
		name := g.Names[i]
		return []any{signed(sym.Choose("signature", 3), func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast {
			end := -1
			if ctx != nil {
				end = ctx.Code.Pos()
				sym.Assert(ctx.Code.Length() == length, "context")
			}
			got = append(got, call{name, a, end})
			return a
		})}
	})...)
	// the reference calls back once per rule and start
	type key struct {
		name  string
		start int
	}
	seen := map[key]bool{}
	var want []*V
	var names []string
	var ends []int
	g.cb = func(name string, v *V, start, end int) *V {
		if k := (key{name, start}); !seen[k] {
			seen[k] = true
			want, names, ends = append(want, v), append(names, name), append(ends, end)
		}
		return v
	}
	s := sym.StringIn("in", 4+deep(2), "ab")
	got, length = nil, len(s)
	res := gm.ParseString(s)
	ok, _ := g.parse(s)
	if ok {
		sym.Cover("accepted")
	}
	sym.Assert((outcome(res) == accepted) == ok, "language")
	sym.Assert(len(got) == len(want), "order")
	for i, c := range got {
		sym.Assert(c.name == names[i], "order")
		sym.Assert(same(c.v, want[i]), "received")
		sym.Assert(c.end < 0 || c.end == ends[i], "context")
	}
}

// boom is a panic value of the user's own.
type boom struct{ n int }

// C11_Panic: what a callback panics with is what the caller of the parse gets.
//
//verif:bounds 6 grammars, a rule chosen at will panics when called the first or second time, with a string, a pointer, an error or a ParseError; texts over a b of length <= 4 (thorough 5)
//verif:expect panicked unchanged language value
func C11_Panic() {
	compiler()
	g := called()
	bad := sym.Choose("bad", len(g.Names))
	at := sym.Choose("call", 2)
	var value any
	mine := &boom{7}
	switch sym.Choose("value", 3) {
	case 0:
		value = "stop it"
	case 1:
		value = mine
	}
	calls, panicked := 0, false
	gm := grammarOf("gm", g.lines(func(i int) []any {
		if i != bad {
			return nil
		}
		return []any{func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast {
			calls++
			if calls == at+1 {
				panicked = true
				if value == nil {
					value = ctx.Error("no " + a.String())
				}
				panic(value)
			}
			return a
		}}
	})...)
	s := sym.StringIn("in", 4+deep(1), "ab")
	calls = 0
	got, res := try(func() joeson.Ast { return gm.ParseString(s) })
	if panicked {
		sym.Cover("panicked")
		sym.Assert(got != nil, "unchanged")
		switch v := value.(type) {
		case string:
			sym.Assert(got == v, "unchanged")
		case *boom:
			sym.Assert(got == mine, "unchanged")
		case joeson.ParseError:
			e, ok := got.(joeson.ParseError)
			sym.Assert(ok && e.ErrorString == v.ErrorString, "unchanged")
		}
		// and once more, undisturbed
		calls = 2
		_, res = try(func() joeson.Ast { return gm.ParseString(s) })
	} else {
		sym.Assert(got == nil, "unchanged")
	}
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Assert(same(res, w), "value")
	}
}

// try runs f and gives what it panics with.
func try(f func() joeson.Ast) (p any, r joeson.Ast) {
	defer func() {
		if p = recover(); p != nil {
			stopped(p)
		}
	}()
	return nil, f()
}
