package harness

import (
	"strconv"
	"strings"

	"verif/sym"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

// silent is a left-recursive grammar with rules that give no value.
func silent() *R {
	a, b := ref("_A"), ref("_B")
	switch sym.Choose("silent", 6) {
	case 0:
		return rules("_A ", "S", a, "_A", alt(seq(a, lit("x")), seq(lit("a"), lit("b"))))
	case 1:
		return rules("_A _B ", "S", a,
			"_A", alt(seq(b, lit("x")), seq(lit("a"), lit("b"))),
			"_B", alt(seq(a, lit("y")), seq(lit("b"), look(lit("x")))))
	case 2:
		return rules("_A _B _C ", "S", seq(a, class("b")),
			"_A", alt(seq(b, lit("x")), not(class("xyb"))),
			"_B", seq(ref("_C"), opt(lit("y"))),
			"_C", seq(a, lit("a")))
	case 3:
		return rules("_A _B ", "S", seq(a, opt(class("ab"))),
			"_A", alt(seq(opt(lit("y")), b, lit("x")), look(lit("ab")), seq(lit("a"), lit(""))),
			"_B", a)
	case 4:
		return rules("A ", "S", ref("A"),
			"A", alt(seq(lab("l", opt(class("y"))), ref("A"), lit("x")), seq(lab("l", opt(class("b"))), lit("a"))))
	}
	return rules("A B ", "S", ref("A"),
		"A", seq(ref("B"), opt(class("x"))),
		"B", alt(seq(ref("A"), lit("y")), seq(lit("a"), lit(""))))
}

// C08_Silent: left recursion through rules without a value.
//
//verif:bounds 6 grammars, of one to three left-recursive rules, whose steps or bases give undefined or the same map each; texts over a b x y of length <= 5 (thorough 7)
//verif:expect language value accepted
func C08_Silent() {
	compiler()
	compare(silent(), 5+deep(2), "abxy")
}

// C07_Constant: callbacks which give the same value at every step.
//
//verif:bounds R = R [+] [a] | [a], R = R [+] R [a] | [a] b?, or the cycles of two and three rules of C08_Cycles; callbacks of all rules giving one string, one node, an empty array or map, undefined, or what they receive; texts over a b + x y of length <= 5 (thorough 6)
//verif:expect language accepted
func C07_Constant() {
	compiler()
	r := ref("R")
	var g *R
	alphabet := "ab+"
	switch sym.Choose("grammar", 4) {
	case 0:
		g = rules("R ", "S", r, "R", alt(seq(r, class("+"), class("a")), class("a")))
	case 1:
		g = rules("R ", "S", seq(r, opt(class("b"))), "R", alt(seq(r, class("+"), opt(class("b"))), seq(class("a"), opt(lit("b")))))
	case 2:
		alphabet = "abxy"
		g = rules("A B ", "A", alt(seq(ref("B"), class("x")), class("a")), "B", alt(seq(ref("A"), class("y")), class("b")))
	default:
		alphabet = "abxy"
		g = rules("A B C ",
			"A", alt(seq(ref("B"), class("x")), class("a")),
			"B", alt(seq(ref("C"), class("y")), class("b")),
			"C", alt(seq(ref("A"), class("x")), class("b")))
	}
	how := sym.Choose("value", 6)
	node := joeson.NewNativeMap(map[string]joeson.Ast{"k": joeson.NewNativeString("v")})
	gm := grammarOf("gm", g.lines(func(i int) []any {
		return []any{func(it joeson.Ast) joeson.Ast {
			switch how {
			case 0:
				return joeson.NewNativeString("v")
			case 1:
				return node
			case 2:
				return joeson.NewEmptyNativeArray()
			case 3:
				return joeson.NewEmptyNativeMap()
			case 4:
				return joeson.NewNativeUndefined()
			}
			return it
		}}
	})...)
	s := sym.StringIn("in", 5+deep(1), alphabet)
	ok, _ := g.parse(s)
	sym.Assert((outcome(gm.ParseString(s)) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
	}
}

// C23_Empty: conversions of what has no text.
//
//verif:bounds arrays of up to two elements, each an empty string, undefined, an empty array, an array of those or a byte; as an integer and as text; maps of such values
//verif:expect text rejected value concat
func C23_Empty() {
	a := joeson.NewEmptyNativeArray()
	m := joeson.NewEmptyNativeMap()
	text := ""
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		var x joeson.Ast
		switch sym.Choose([]string{"first", "second"}[i], 5) {
		case 0:
			x = joeson.NewNativeString("")
		case 1:
			x = joeson.NewNativeUndefined()
		case 2:
			x = joeson.NewEmptyNativeArray()
		case 3:
			x = joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeUndefined(), joeson.NewNativeString(""), joeson.NewEmptyNativeArray()})
		case 4:
			c := sym.StringN([]string{"c1", "c2"}[i], 1)
			x = joeson.NewNativeString(c)
			text += c
		}
		a.Append(x)
		m.Set([]string{"x", "y"}[i], x)
	}
	sym.Assert(string(a.Concat()) == text, "text")
	sym.Assert(string(m.Concat()) == text, "concat")
	var got joeson.NativeInt
	p := panics(func() { got = joeson.NewNativeIntFrom(a) })
	if want, ok := decimal(text); ok {
		sym.Assert(!p && got.Int() == want, "value")
	} else {
		sym.Assert(p, "rejected")
	}
}

// C24_Blocks: insertion into longer slices.
//
//verif:bounds the even numbers from 0 to 2n-2 for n = 16, 17, 33, 40, 65, 129 (thorough also 257, 1025), with or without room for another; any value from -1 to 2n
//verif:expect left right inserted
func C24_Blocks() {
	n := []int{16, 17, 33, 40, 65, 129, 257, 1025}[sym.Choose("n", 6+deep(2))]
	a := make([]int, 0, n+sym.Choose("room", 2))
	for i := 0; i < n; i++ {
		a = append(a, 2*i)
	}
	x := sym.Int("x", -1, 2*n)
	l, r := helpers.BisectLeft(a, x), helpers.BisectRight(a, x)
	sym.Assert(0 <= l && l <= n && (l == 0 || a[l-1] < x) && (l == n || a[l] >= x), "left")
	sym.Assert(0 <= r && r <= n && (r == 0 || a[r-1] <= x) && (r == n || a[r] > x), "right")
	var b []int
	if sym.Choose("side", 2) == 0 {
		b = helpers.InsortLeft(a, x)
	} else {
		b, l = helpers.InsortRight(a, x), r
	}
	ok := len(b) == n+1 && b[l] == x
	for i := 0; i <= n && ok; i++ {
		if i < l {
			ok = b[i] == 2*i
		} else if i > l {
			ok = b[i] == 2*(i-1)
		}
	}
	sym.Assert(ok, "inserted")
}

// C11_Options: a callback among options.
//
//verif:bounds the grammars of C11_Values without the left-recursive one, the callback (wrap, replace, reject on odd ends) of any of the rules, of any signature, before, between or after an option (thorough up to two) of that rule, each any of Debug, SkipLog, SkipCache, on or off; texts over a b of length <= 3 (thorough 4)
//verif:expect language value accepted
func C11_Options() {
	sym.Capture()
	compiler()
	g := called()
	sym.Assume(g.LR == "")
	at := sym.Choose("rule", len(g.Names))
	k := []int{wrap, replace, rejectOdd}[sym.Choose("callback", 3)]
	sig := sym.Choose("signature", 3)
	if k == rejectOdd && sig == 0 {
		sym.Stop() // which tells no position
	}
	gm := grammarOf("gm", g.lines(func(i int) []any {
		if i != at {
			return nil
		}
		n := sym.Choose("options", 2+deep(1))
		p := sym.Choose("place", n+1)
		var args []any
		for j := 0; j <= n; j++ {
			if j == p {
				args = append(args, signed(sig, func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast { return act(k, a, ctx) }))
			}
			if j < n {
				on := sym.Choose([]string{"on1", "on2"}[j], 2) == 1
				switch sym.Choose([]string{"option1", "option2"}[j], 3) {
				case 0:
					args = append(args, joeson.Debug{Bool: on})
				case 1:
					args = append(args, joeson.SkipLog{Bool: on})
				default:
					args = append(args, joeson.SkipCache{Bool: on})
				}
			}
		}
		return args
	})...)
	g.cb = func(name string, v *V, start, end int) *V {
		if name == g.Names[at] {
			return actV(k, v, end)
		}
		return v
	}
	s := sym.StringIn("in", 3+deep(1), "ab")
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}

// C03_Stacked: an operator applied to what another one gives.
//
//verif:bounds (([ab] op) op) op' followed by [b] or nothing, op and op' any of ? * + {2,} {,1} {1,2} *[b] or, for the inner, !! and (?), labelled or not, also within a sequence of two; texts over a b of length <= 4 (thorough 5)
//verif:expect language value accepted
func C03_Stacked() {
	compiler()
	post := func(k int, n *N) *N {
		switch k {
		case 0:
			return opt(n)
		case 1:
			return star(n, nil)
		case 2:
			return plus(n, nil)
		case 3:
			return rep(n, 2, -1)
		case 4:
			return rep(n, -1, 1)
		case 5:
			return rep(n, 1, 2)
		}
		return star(n, class("b"))
	}
	n := post(sym.Choose("inner", 7), class("a"))
	n = post(sym.Choose("outer", 7), n)
	g := rules("", "S", n)
	switch sym.Choose("within", 4) {
	case 1:
		g = rules("", "S", seq(lab("x", n), lab("y", opt(class("b")))))
	case 2:
		g = rules("", "S", seq(ref("A"), class("ab")), "A", n)
	case 3:
		g = rules("", "S", post(sym.Choose("third", 3), ref("A")), "A", n)
	}
	compare(g, 4+deep(1), "ab")
}

// C02_Names: labels of any form.
//
//verif:bounds two labelled elements [a] or [a]? and [b] or [b]*, or the second within a referenced rule merged by @ or &, the labels any two of _ . _x x_ a.b x1 ._1 label S end min; texts over a b of length <= 3
//verif:expect language value accepted
func C02_Names() {
	compiler()
	words := []string{"_", ".", "_x", "x_", "a.b", "x1", "._1", "label", "S", "end", "min"}
	i, j := sym.Choose("first", len(words)), sym.Choose("second", len(words))
	if i == j {
		sym.Stop()
	}
	x, y := class("a"), class("b")
	if sym.Choose("optional", 2) == 1 {
		x, y = opt(x), star(y, nil)
	}
	x = lab(words[i], x)
	var g *R
	switch sym.Choose("where", 3) {
	case 0:
		g = rules("", "S", seq(x, lab(words[j], y)))
	case 1:
		g = rules("", "S", seq(x, lab("@", ref("Q"))), "Q", seq(lab(words[j], y), opt(lit("a"))))
	default:
		g = rules("", "S", seq(x, lab("&", ref("Q"))), "Q", seq(lab(words[j], y), opt(lit("a"))))
	}
	compare(g, 3, "ab")
}

// C21_Kinds: every kind of lexical error, and what is nearly one.
//
//verif:bounds one of 52 fragments (strings, runes, numbers, comments, escapes, characters, byte order marks, each right or wrong in one of the ways the Go scanner knows), at the beginning, after a declaration or on a second line, with nothing, a semicolon, a word or any one of a 0 _ ' " newline after it
//verif:expect error tokens coordinates
func C21_Kinds() {
	fragments := []string{
		"\ufeff", "a\ufeff", "\x00", "\xff", "é", "\u201c", "#", "$", "?", "@", "~", "...", "\\",
		"'", "''", "'ab'", "'\n'", "'a", "'\\''", "'\\q'", "'\\400'", "'\\377'", "'\\xg'", "'\\xfg'", "'\\ud800'", "'\\U00110000'", "'é'",
		"\"a\n", "\"a", "\"\\q\"", "\"\\\"\"", "`a", "`a\n`", "`\r`", "/*a", "/*a*/", "/* * /", "//a",
		"0x", "0x1F", "0b2", "0b01", "08", "08.", "0o8", "1__2", "1_000", "1_", "1e", "1e+1", "0x1.0", "0x1p-2",
	}
	s := []string{"", "var a = ", "x\n"}[sym.Choose("before", 3)]
	s += fragments[sym.Choose("fragment", len(fragments))]
	switch sym.Choose("after", 4) {
	case 1:
		s += ";"
	case 2:
		s += " b"
	case 3:
		s += sym.StringNIn("byte", 1, "a0_'\"\n")
	}
	goCode(s)
}

// C14_Kin: regular expressions and classes which nearly read the same.
//
//verif:bounds two of 14 regular expressions, classes and literals (with a blank, a newline or a bracket more, in upper case, escaped), one after the other or as alternatives of one grammar, or in two grammars one after the other; texts over a A blank newline of length <= 3
//verif:expect language value accepted
func C14_Kin() {
	compiler()
	re := func(s string) *N { return &N{K: 'x', S: s} }
	all := []*N{re("a"), re("a "), re(" a"), re(" a "), re("A"), re("(a)"), re("[a]"), re("a\n"), re("a+"), re("a*"), class("a"), class("a "), lit("a"), lit("a ")}
	x, y := all[sym.Choose("first", len(all))], all[sym.Choose("second", len(all))]
	var g *R
	switch sym.Choose("how", 3) {
	case 0:
		g = rules("", "S", seq(lab("x", x), lab("y", y)))
	case 1:
		g = rules("", "S", alt(seq(lab("x", x), class(" a")), seq(lab("y", y), opt(class("A ")))))
	default:
		rules("", "S", x).compile()
		g = rules("", "S", lab("y", y))
	}
	compare(g, 3, "aA \n")
}

// C31_Apart: two rules of many, far from each other.
//
//verif:bounds S = P [x] | Q [y] | P Q?, P = [a] and Q = [ab] being 1, 32, 64, 128 or 256 (thorough also 512, 1024) rules apart, from the first or the third on; texts over a b x y of length <= 3
//verif:depth 400000
//verif:expect language value accepted
func C31_Apart() {
	compiler()
	d := []int{1, 32, 64, 128, 256, 512, 1024}[sym.Choose("apart", 5+deep(2))]
	at := []int{0, 2}[sym.Choose("from", 2)]
	p, q := ref("P"), ref("Q")
	body := alt(seq(p, class("x")), seq(q, class("y")), seq(p, opt(q)))
	lines := []joeson.Line{joeson.O(joeson.Named("S", body.text(0)))}
	for i := 0; i <= at+d+1; i++ {
		name, text := "F"+strconv.Itoa(i), "'z'"
		if i == at {
			name, text = "P", "[a]"
		} else if i == at+d {
			name, text = "Q", "[ab]"
		}
		lines = append(lines, joeson.I(joeson.Named(name, text)))
	}
	gm := grammarOf("gm", lines...)
	g := rules("", "S", body, "P", class("a"), "Q", class("ab"))
	s := sym.StringIn("in", 3, "abxy")
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}

// C35_Within: a parse within a callback of another.
//
//verif:bounds two grammars without trace options, or with any of their own without the Stack option; the second parses a text of length <= 2 over a b in a callback of the first, each with or without Debug; then both without
//verif:expect outer inner over
func C35_Within() {
	compiler()
	build := func(name string, args ...any) *joeson.Grammar {
		to := (*joeson.TraceOptions)(nil)
		if sym.Choose(name, 2) == 1 {
			to = joeson.Mute()
		}
		return joeson.GrammarWithOptionsFromLines("gm", joeson.GrammarOptions{TraceOptions: to, LazyGrammar: compiler()},
			[]joeson.Line{joeson.O(append([]any{joeson.Named(name, "[ab] T?")}, args...)...), joeson.I(joeson.Named("T", "[b]"))})
	}
	sym.Capture()
	s := sym.StringIn("in", 2, "ab")
	debug, within := sym.Choose("debug", 2) == 1, sym.Choose("within", 2) == 1
	inner := build("Inner")
	outer := build("Outer", func(it joeson.Ast) joeson.Ast {
		if within {
			inner.ParseString(s, joeson.Debug{Bool: true})
		} else {
			inner.ParseString(s)
		}
		return it
	})
	if debug {
		outer.ParseString("ab", joeson.Debug{Bool: true})
	} else {
		outer.ParseString("ab")
	}
	p := sym.Printed()
	sym.Assert(strings.Contains(p, "Outer") == debug, "outer")
	sym.Assert(strings.Contains(p, "Inner") == within, "inner")
	debug, within = false, false
	outer.ParseString("ab")
	inner.ParseString(s)
	sym.Assert(sym.Printed() == "", "over")
}
