package harness

import (
	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C20: tokens and their text ----

var tokenized = []*G{
	backtracking[0], backtracking[1], backtracking[4], historical[3], historical[4], historical[5],
	{"ab \n", [][2]string{
		{"S", `(?W) (x:W y:_ | x:/a[^\n]/)* N?`},
		{"W", `/[ab]+/ | 'b\n'`},
		{"_", `[ \n]*`},
		{"N", `!W /(?s)./`},
	}},
}

// cut makes tokens of s, cut at up to two places, with junk in the original
// before each of them; origin gives where an offset in s came from.
func cut(s string) (ts *joeson.TokenStream, original string, origin []int) {
	p := sym.Choose("cut", len(s)+1)
	q := p + sym.Choose("cut2", len(s)+1-p)
	junk, inserted := "\n~", len(s)+1
	switch sym.Choose("original", 3) {
	case 1:
		junk = ""
	case 2:
		junk, inserted = "", q
	}
	var toks []joeson.Token
	origin = make([]int, len(s)+1)
	piece := func(from, to int) {
		if from == to {
			return
		}
		original += junk
		toks = append(toks, joeson.Token{Repr: s[from:to], OriginalOffset: len(original), WorkOffset: from})
		if from >= inserted {
			// a token of which the original has nothing, like an automatic
			// semicolon
			for i := from + 1; i <= to; i++ {
				origin[i] = -1
			}
			origin[from] = len(original)
			return
		}
		for i := from; i <= to; i++ {
			origin[i] = len(original) + i - from
		}
		original += s[from:to]
	}
	piece(0, p)
	piece(p, q)
	piece(q, len(s))
	return joeson.NewTokenStream(original, toks), original, origin
}

func tokens(g *G, s string) {
	gm := g.build(nil)
	b := gm.ParseString(s)
	ts, original, origin := cut(s)
	a := gm.ParseTokens(ts)
	sym.Assert(outcome(a) == outcome(b), "outcome")
	if outcome(a) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "value")
		return
	}
	sym.Assert((a == nil) == (b == nil), "outcome")
	if a == nil {
		return
	}
	sym.Cover("refused")
	pa, la, ca := position(a.(joeson.ParseError).ErrorString)
	pb, _, _ := position(b.(joeson.ParseError).ErrorString)
	sym.Assert(pa == pb, "offset")
	if len(s) > 0 && origin[pa] >= 0 {
		l, c := lineCol(original, origin[pa])
		sym.Assert(la == l && ca == c, "coordinates")
	}
}

// C20_Cut: any text, cut anywhere.
//
//verif:bounds 7 grammars (backtracking, left recursion, joins, predicates, labels, regexps, strings of several characters); texts over the grammar's alphabet of length <= 4 (thorough 5), cut into at most 3 tokens anywhere, with or without other text between them in the original, or the last of them not in the original at all
//verif:expect outcome value offset coordinates accepted refused
func C20_Cut() {
	compiler()
	g := pick(tokenized)
	tokens(g, sym.StringIn("in", 4+deep(1), g.alphabet))
}

// C20_Words: longer words, so that literals and regexps span tokens.
//
//verif:bounds S = ('abc' | /a+b/ | 'ab' [^x] | !'b' /../)+ ; texts over a b c of length <= 5 (thorough 6), cut as above
//verif:expect outcome value offset coordinates accepted refused
func C20_Words() {
	compiler()
	g := &G{"abc", [][2]string{{"S", "(x:'abc' | /a+b/ | 'ab' [^x] | !'b' /../)+"}}}
	tokens(g, sym.StringIn("in", 5+deep(1), g.alphabet))
}
