package harness

import (
	"strconv"

	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// G is a grammar as rule texts; the first rule is the entry.
type G struct {
	alphabet string
	rules    [][2]string
}

// build compiles g; extra gives further arguments for rule i.
func (g *G) build(extra func(i int) []any) *joeson.Grammar {
	var l []joeson.Line
	for i, r := range g.rules {
		a := []any{joeson.Named(r[0], r[1])}
		if extra != nil {
			a = append(a, extra(i)...)
		}
		if i == 0 {
			l = append(l, joeson.O(a...))
		} else {
			l = append(l, joeson.I(a...))
		}
	}
	return grammarOf("gm", l...)
}

// grammars without left recursion, all of which backtrack over shared rules
var backtracking = []*G{
	{"abc", [][2]string{
		{"S", "(A 'c' | A 'b' | A A | B)+"},
		{"A", "[ab] 'a'?"},
		{"B", "A? 'c' A*"},
	}},
	{"a+*()", [][2]string{
		{"E", "T '+' E | T"},
		{"T", "F '*' T | F"},
		{"F", "'(' E ')' | 'a'"},
	}},
	{"abc", [][2]string{
		{"S", "(!K W | K 'c' | K)+"},
		{"K", "'ab' !W"},
		{"W", "[ab] (?[bc])"},
	}},
	{"abc", [][2]string{
		{"S", "x:P y:Q | x:P z:P | y:Q? z:P*','"},
		{"P", "v:[ab] w:'a'?"},
		{"Q", "P 'c' | P P"},
	}},
	{"ab,", [][2]string{
		{"S", "L ';' | L ',' | L"},
		{"L", "I*_c{1,3}"},
		{"I", "_w ('a' I | [ab])"},
		{"_c", "',' _w"},
		{"_w", "'b'*"},
	}},
	{"ab", [][2]string{
		{"S", "!(!P) R | P* Q | R"},
		{"P", "'a' Q 'a' | 'b'"},
		{"Q", "'a' P | 'a'?"},
		{"R", "(Q 'b')+ | P"},
	}},
}

func pick(l []*G) *G { return l[sym.Choose("grammar", len(l))] }

func always(i int) []any { return nil }

// sameResult compares two results, of parses of the same text.
func sameResult(a, b joeson.Ast, label string) {
	ea, eb := outcome(a), outcome(b)
	sym.Assert(ea == eb, label+" outcome")
	if ea == accepted {
		sym.Assert(canon(a) == canon(b), label+" value")
	} else {
		sym.Assert((a == nil) == (b == nil), label+" failure")
	}
}

// C05_Rules: any rules skipping the cache.
//
//verif:bounds 6 backtracking grammars of 3 to 5 rules, any subset of the rules SkipCache; texts over the grammar's alphabet (2 to 5 characters) of length <= 5 (thorough 7)
//verif:expect cache_outcome cache_value accepted
func C05_Rules() {
	compiler()
	g := pick(backtracking)
	cached := g.build(nil)
	fresh := g.build(func(i int) []any {
		if sym.Bool("skip") {
			return []any{joeson.SkipCache{Bool: true}}
		}
		return nil
	})
	s := sym.StringIn("in", 5+deep(2), g.alphabet)
	a, b := cached.ParseString(s), fresh.ParseString(s)
	ea, eb := outcome(a), outcome(b)
	sym.Assert(ea == eb, "cache_outcome")
	if ea == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "cache_value")
	} else {
		sym.Assert((a == nil) == (b == nil), "cache_outcome")
	}
}

// C05_Callbacks: rules whose callbacks replace or reject values.
//
//verif:bounds 6 backtracking grammars of 3 to 5 rules, any subset of the rules SkipCache, a rule chosen at will rejects its value when it ends on an odd position, another wraps it; texts over the grammar's alphabet of length <= 3 (thorough 4)
//verif:expect cache_outcome cache_value accepted
func C05_Callbacks() {
	compiler()
	g := pick(backtracking)
	rejects := sym.Choose("rejects", len(g.rules))
	wraps := sym.Choose("wraps", len(g.rules))
	reject := func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast {
		if ctx.Code.Pos()%2 == 1 {
			return nil
		}
		return a
	}
	wrap := func(a joeson.Ast) joeson.Ast {
		return joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString("w"), a})
	}
	args := func(i int) (r []any) {
		if i == rejects {
			r = append(r, reject)
		} else if i == wraps {
			r = append(r, wrap)
		}
		return r
	}
	cached := g.build(args)
	fresh := g.build(func(i int) []any {
		r := args(i)
		if sym.Bool("skip") {
			r = append(r, joeson.SkipCache{Bool: true})
		}
		return r
	})
	s := sym.StringIn("in", 3+deep(1), g.alphabet)
	a, b := cached.ParseString(s), fresh.ParseString(s)
	ea, eb := outcome(a), outcome(b)
	sym.Assert(ea == eb, "cache_outcome")
	if ea == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "cache_value")
	} else {
		sym.Assert((a == nil) == (b == nil), "cache_outcome")
	}
}

// ---- C06 ----

// counted compiles g with a marker rule at the head of every rule, which is
// never cached and reports each evaluation of the rule.
func (g *G) counted(seen func(rule, pos int), called func(rule int)) *joeson.Grammar {
	var l []joeson.Line
	for i, r := range g.rules {
		i := i
		mark := "_m" + strconv.Itoa(i)
		body := mark + " (" + r[1] + ")"
		cb := func(a joeson.Ast) joeson.Ast {
			called(i)
			return a
		}
		if i == 0 {
			l = append(l, joeson.O(joeson.Named(r[0], body), cb))
		} else {
			l = append(l, joeson.I(joeson.Named(r[0], body), cb))
		}
		l = append(l, joeson.I(joeson.Named(mark, "'~'?"), joeson.SkipCache{Bool: true},
			func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast {
				seen(i, ctx.Code.Pos())
				return a
			}))
	}
	return grammarOf("gm", l...)
}

func evaluations(g *G, max int) {
	var count map[[2]int]int
	var calls []int
	gm := g.counted(func(r, p int) {
		count[[2]int{r, p}]++
	}, func(r int) { calls[r]++ })
	s := sym.StringIn("in", max, g.alphabet)
	count, calls = map[[2]int]int{}, make([]int, len(g.rules))
	gm.ParseString(s)
	for r := range g.rules {
		n := 0
		for p := 0; p <= len(s); p++ {
			sym.Assert(count[[2]int{r, p}] <= 1, "once")
			n += count[[2]int{r, p}]
		}
		sym.Assert(calls[r] <= n, "callbacks")
	}
	sym.Assert(len(count) <= len(g.rules)*(len(s)+1), "total")
}

// C06_Backtracking: evaluations per rule and position.
//
//verif:bounds 6 backtracking grammars of 3 to 5 rules; texts over the grammar's alphabet of length <= 6 (thorough 8)
//verif:expect once callbacks total
func C06_Backtracking() {
	compiler()
	evaluations(pick(backtracking), 6+deep(2))
}

// C06_Expr: any rule body over two further rules.
//
//verif:bounds entry rules: all expressions of operator depth <= 2 over references to Q = 'a' R? | 'b' and R = [ab] Q?; texts over a b of length <= 3 (thorough 5)
//verif:expect once callbacks total
func C06_Expr() {
	compiler()
	n := gen(2, func() *N {
		if sym.Bool("Q") {
			return ref("Q")
		}
		return ref("R")
	})
	evaluations(&G{"ab", [][2]string{{"S", n.text(0)}, {"Q", "'a' R? | 'b'"}, {"R", "[ab] Q?"}}}, 3+deep(2))
}

// C06_Exponential: nesting that costs exponential time without the cache.
//
//verif:bounds E = T '+' E | T '-' E | T, T = '(' E ')' | '(' E ']' | '(' E | 'a'; texts of 10 (thorough 20) opening parentheses followed by 4 arbitrary characters of the alphabet
//verif:expect once total
func C06_Exponential() {
	compiler()
	g := &G{"()[]a+-", [][2]string{
		{"E", "T '+' E | T '-' E | T"},
		{"T", "'(' E ')' | '(' E ']' | '(' E | 'a'"},
	}}
	var count map[[2]int]int
	gm := g.counted(func(r, p int) {
		count[[2]int{r, p}]++
		sym.Assert(count[[2]int{r, p}] <= 1, "once")
	}, func(int) {})
	s := ""
	for i := 0; i < 10+deep(10); i++ {
		s += "("
	}
	s += sym.StringNIn("in", 4, "()]a+-")
	count = map[[2]int]int{}
	gm.ParseString(s)
	sym.Assert(len(count) <= 2*(len(s)+1), "total")
}
