package harness

import (
	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C34: builds ----

func upper(it joeson.Ast) joeson.Ast {
	return joeson.NewNativeArray([]joeson.Ast{it, joeson.NewNativeString("cb")})
}

// lineSets make rules in all the ways there are; calling one again gives
// equal, new lines.
var lineSets = []func() []joeson.Line{
	func() []joeson.Line {
		return []joeson.Line{
			joeson.O(joeson.Named("S", "x:P* (y:'b' | z:Q)?"), upper),
			joeson.I(joeson.Named("P", "'a'"), func(it joeson.Ast, ctx *joeson.ParseContext) joeson.Ast { return upper(it) }),
			joeson.I(joeson.Named("Q", "[ab]{1,2}"), joeson.SkipCache{Bool: true}),
		}
	},
	func() []joeson.Line {
		return []joeson.Line{
			joeson.I(joeson.Named("N", "/a+/")),
			joeson.O(named("S",
				joeson.O("S 'b' N", func(it joeson.Ast, ctx *joeson.ParseContext, by joeson.Ast) joeson.Ast { return upper(it) }),
				joeson.O(named("T", joeson.O("'b' T"), joeson.O("N"))),
				joeson.I(joeson.Named("U", "'a'")),
			)),
		}
	},
	func() []joeson.Line {
		return []joeson.Line{
			joeson.O("A !A 'b' | A", joeson.Debug{}),
			joeson.O(joeson.NewALine([]joeson.Line{joeson.O("(?'b') B"), joeson.I(joeson.Named("A", "'a' | B"), upper)})),
			joeson.I(joeson.Named("B", joeson.O("'b' _s", upper))),
			joeson.I(joeson.Named("_s", "'a'*")),
		}
	},
	func() []joeson.Line {
		return []joeson.Line{
			joeson.O(joeson.Named("E", "@:L &:L? | l:E [b] r:L | k:L")),
			joeson.I(joeson.Named("L", "a:/a/ (b:'b')?")),
		}
	},
}

func buildOf(lines []joeson.Line) *joeson.Grammar {
	return joeson.GrammarWithOptionsFromLines("gm", joeson.GrammarOptions{TraceOptions: quiet(), LazyGrammar: compiler()}, lines)
}

func alike(a, b *joeson.Grammar) {
	sym.Assert(a.CountRules() == b.CountRules(), "rules")
	sym.Assert(a.IsReady() && b.IsReady(), "rules")
	sym.Assert(a.String() == b.String(), "printed")
}

// C34_Same: the same lines used for several grammars.
//
//verif:bounds 4 sets of lines (all three callback signatures, options, nested and unnamed ranks, left recursion, labels), each used for three grammars, one of which parses a text of length <= 2 over a b in between; then each of the last two against a grammar from lines of its own, texts over a b of length <= 4 (thorough 5)
//verif:expect rules printed outcome value message accepted
func C34_Same() {
	compiler()
	k := sym.Choose("lines", len(lineSets))
	fresh := buildOf(lineSets[k]())
	lines := lineSets[k]()
	first := buildOf(lines)
	alike(fresh, first)
	first.ParseString(sym.StringIn("first", 2, "ab"))
	second := buildOf(lines)
	alike(fresh, second)
	alike(fresh, first)
	third := buildOf(lines)
	third.Bomb()
	gm := first
	if sym.Bool("later") {
		gm = second
	}
	again(fresh, gm, sym.StringIn("in", 4+deep(1), "ab"))
}

// C34_Failed: a build that fails changes nothing for the next.
//
//verif:bounds as above, after one to two builds with the body of the last rule replaced by any text of length <= 3 (thorough 4) over a ' ( | * ! and blank, most of which are invalid; the same lines used otherwise, and the same compiling grammar; texts over a b of length <= 3
//verif:expect rules printed outcome value message accepted failed
func C34_Failed() {
	compiler()
	k := sym.Choose("lines", len(lineSets))
	fresh := buildOf(lineSets[k]())
	lines := lineSets[k]()
	bad := append([]joeson.Line{}, lines[:len(lines)-1]...)
	bad = append(bad, joeson.I(joeson.Named("Z", sym.StringIn("bad", 3+deep(1), "a'(|*! "))))
	if !panics(func() { buildOf(bad) }) {
		sym.Stop()
	}
	sym.Cover("failed")
	if sym.Bool("twice") {
		panics(func() { buildOf(bad) })
	}
	gm := buildOf(lines)
	alike(fresh, gm)
	again(fresh, gm, sym.StringIn("in", 3, "ab"))
}

func neighbours(name string) *R {
	switch sym.Choose(name, 6) {
	case 0:
		return rules("",
			"S", alt(seq(ref("A"), lit("b")), ref("A")),
			"A", ref("B"),
			"B", lit("a"))
	case 1:
		return rules("",
			"S", seq(ref("B"), ref("B")),
			"X", lit("b"),
			"B", lit("a"))
	case 2:
		return rules("",
			"S", seq(ref("B"), opt(ref("A"))),
			"A", lit("a"),
			"B", alt(ref("A"), lit("b")))
	case 3:
		return rules("S ",
			"S", alt(seq(ref("S"), ref("B")), ref("A")),
			"A", class("ab"),
			"B", lit("a"))
	case 4:
		return rules("",
			"S", alt(seq(ref("A"), lit("b")), ref("A")),
			"A", star(ref("B"), nil),
			"B", class("ab"))
	}
	return rules("",
		"S", seq(not(ref("B")), lab("x", ref("A"))),
		"B", lit("b"),
		"A", seq(class("ab"), opt(ref("B"))))
}

// C34_Others: grammars built one after the other from lines that have names
// or texts in common.
//
//verif:bounds any two of 6 grammars of three rules, with common names, texts and positions, the last rule of the first with a callback or without, in any of the three rotations of the lines; the first may parse "ab" before the second is built; then either of them, texts over a b of length <= 3 (thorough 4)
//verif:expect language value accepted
func C34_Others() {
	compiler()
	var gs [2]*R
	var gm [2]*joeson.Grammar
	for i, name := range []string{"first", "second"} {
		g := neighbours(name)
		cb := i == 0 && sym.Bool("callback")
		l := g.lines(func(i int) []any {
			if cb && i == 2 {
				return []any{upper}
			}
			return nil
		})
		k := sym.Choose("rotated", 3)
		l = append(append([]joeson.Line{}, l[k:]...), l[:k]...)
		if cb {
			g.cb = func(name string, v *V, start, end int) *V {
				if name == g.Names[2] {
					return varr(v, vstr("cb"))
				}
				return v
			}
		}
		gs[i], gm[i] = g, buildOf(l)
		if i == 0 && sym.Bool("used") {
			gm[0].ParseString("ab")
		}
	}
	i := sym.Choose("which", 2)
	s := sym.StringIn("in", 3+deep(1), "ab")
	res := gm[i].ParseString(s)
	ok, w := gs[i].parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}
