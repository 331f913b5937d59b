package harness

import (
	"strconv"
	"strings"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	"verif/sym"
)

// rankBodies are bodies of alternatives, of which several may match a text.
var rankBodies = []string{"[ab]", "[ab]+", "'a'? [b]", "x:W"}

// callback is a callback of alternative i, or none.
func callback(i, how int) []any {
	switch how {
	case 1: // what ends on an odd position is refused
		return []any{func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast {
			if ctx.Code.Pos()%2 == 1 {
				return nil
			}
			return a
		}}
	case 2:
		return []any{func(a joeson.Ast) joeson.Ast {
			return joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeInt(i), a})
		}}
	}
	return nil
}

// C30_Callbacks: alternatives with callbacks, some of the same text, as a rank
// and as rules a choice refers to.
//
//verif:bounds ranks of 3 alternatives, some of the same text (thorough any 3 out of 4 texts), the first two (thorough all) with a callback that refuses, one that replaces or none, at the top, in a named rank, or the last two in a rank of their own; followed by an optional b; texts over a b of length <= 3
//verif:expect outcome value accepted
func C30_Callbacks() {
	compiler()
	const n = 3
	var body []string
	if sym.Thorough() {
		for i := 0; i < n; i++ {
			body = append(body, rankBodies[sym.Choose("body", len(rankBodies))])
		}
	} else {
		body = [][]string{
			{"[ab]", "[ab]", "[ab]+"}, {"x:W", "[ab]+", "x:W"}, {"[ab]+", "'a'? [b]", "[ab]"}, {"'a'? [b]", "x:W", "'a'? [b]"},
		}[sym.Choose("bodies", 4)]
	}
	how := []int{sym.Choose("callback", 3), sym.Choose("callback", 3), 0}
	if sym.Thorough() {
		how[2] = sym.Choose("callback", 3)
	}
	w := joeson.I(joeson.Named("W", "/[ab]/"))
	choice := []joeson.Line{joeson.O(joeson.Named("S", "v:T 'b'?")), w}
	names := ""
	var o []joeson.Line
	for i := range body {
		name := "A" + string("0123"[i])
		if i > 0 {
			names += " | "
		}
		names += name
		choice = append(choice, joeson.I(append([]any{joeson.Named(name, body[i])}, callback(i, how[i])...)...))
		o = append(o, joeson.O(append([]any{body[i]}, callback(i, how[i])...)...))
	}
	choice = append(choice, joeson.I(joeson.Named("T", names)))
	s0 := joeson.O(joeson.Named("S", "v:T 'b'?"))
	var l []joeson.Line
	switch sym.Choose("rank", 2) {
	case 0:
		l = []joeson.Line{s0, w, joeson.I(named("T", o...))}
	default:
		l = []joeson.Line{s0, joeson.I(named("T", append(o[:n-2:n-2], joeson.O(named("U", o[n-2], w, o[n-1])))...))}
	}
	s := sym.StringIn("in", 3, "ab")
	a, b := grammarOf("ranked", l...).ParseString(s), grammarOf("chosen", choice...).ParseString(s)
	sym.Assert(outcome(a) == outcome(b), "outcome")
	if outcome(a) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "value")
	}
}

// alikes is a grammar of two ranks whose alternatives have the given names.
func alikes(names, body []string, skip []bool) *joeson.Grammar {
	line := func(i int) joeson.Line {
		a := []any{joeson.Named(names[i], body[i])}
		if skip[i] {
			a = append(a, joeson.SkipCache{Bool: true})
		}
		return joeson.O(a...)
	}
	return grammarOf("gm",
		joeson.O(joeson.Named("S", "A 'c' | (A | B)*")),
		joeson.I(named("A", line(0), line(1))),
		joeson.I(named("B", line(2), line(3))))
}

var alikeBodies = []string{"'b' 'a'", "x:[ab]", "[b]*{1,}", "!'b' [ab] 'c'?"}

// C05_Alike: alternatives of the same name in several ranks.
//
//verif:bounds two ranks of two alternatives each in 4 choices, with 3 choices of names that occur more than once, none, one or two of them SkipCache; texts over a b c of length <= 3 (thorough 4)
//verif:expect cache_outcome cache_value accepted
func C05_Alike() {
	compiler()
	names := [][]string{{"p", "q", "p", "q"}, {"p", "q", "q", "r"}, {"p", "p", "r", "p"}}[sym.Choose("names", 3)]
	var body []string
	turn := sym.Choose("bodies", 4)
	for i := 0; i < 4; i++ {
		body = append(body, alikeBodies[(turn+i*(1+turn%2))%4])
	}
	skip := [][]bool{{false, false, false, false}, {true, false, false, false}, {false, false, true, true}, {false, true, true, false}}[sym.Choose("skip", 4)]
	s := sym.StringIn("in", 3+deep(1), "abc")
	cached := alikes(names, body, skip)
	fresh := alikes([]string{"p", "q", "r", "s"}, body, []bool{true, true, true, true})
	a, b := cached.ParseString(s), fresh.ParseString(s)
	sym.Assert(outcome(a) == outcome(b), "cache_outcome")
	if outcome(a) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "cache_value")
	}
}

// C30_Alike: the names of alternatives do not matter unless they are referred
// to.
//
//verif:bounds two ranks of two alternatives each in 4 choices, with 3 choices of names that occur more than once; texts over a b c of length <= 3 (thorough 4)
//verif:expect outcome value accepted
func C30_Alike() {
	compiler()
	names := [][]string{{"p", "q", "p", "q"}, {"p", "q", "q", "r"}, {"p", "p", "r", "p"}}[sym.Choose("names", 3)]
	var body []string
	turn := sym.Choose("bodies", 4)
	for i := 0; i < 4; i++ {
		body = append(body, alikeBodies[(turn+i*(1+turn%2))%4])
	}
	s := sym.StringIn("in", 3+deep(1), "abc")
	none := make([]bool, 4)
	a, b := alikes(names, body, none).ParseString(s), alikes([]string{"p", "q", "r", "s"}, body, none).ParseString(s)
	sym.Assert(outcome(a) == outcome(b), "outcome")
	if outcome(a) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "value")
	}
}

// C07_Forms: left recursion that is not an alternative of its own.
//
//verif:bounds R with an optional or labelled optional (R op), a choice of R and a base or a repetition at its beginning, where a step may fail after having consumed more than the best so far; on its own, or followed by an operator, twice, or behind a predicate; texts over a b + of length <= 5 (thorough 7)
//verif:expect language value accepted
func C07_Forms() {
	compiler()
	r := ref("R")
	var body *N
	switch sym.Choose("form", 6) {
	case 0:
		body = seq(opt(seq(r, class("+"))), class("a"))
	case 1:
		body = seq(lab("l", opt(seq(r, class("+")))), lab("r", class("ab")))
	case 2:
		body = seq(opt(seq(r, lit("+"), opt(class("b")))), ref("N"))
	case 3:
		body = alt(seq(r, class("+"), class("+"), class("a")), seq(opt(seq(r, class("b"))), class("a")))
	case 4:
		body = seq(alt(seq(r, lit("+")), seq(r, lit("b"), lit("+")), look(class("a"))), class("a"), opt(class("b")))
	default:
		body = seq(opt(seq(lab("l", r), lab("o", class("+b")))), class("a"))
	}
	var s *N
	switch sym.Choose("entry", 4) {
	case 0:
		s = r
	case 1:
		s = seq(r, class("+b"))
	case 2:
		s = seq(lab("x", r), opt(lit("+")), lab("y", opt(r)), opt(lit("+")))
	default:
		s = alt(seq(r, lit("++")), seq(look(r), r, lit("+"), class("b")), plus(class("ab+"), nil))
	}
	compare(rules("R ", "S", s, "R", body, "N", class("a")), 5+deep(2), "ab+")
}

// C34_Failures: a grammar after many builds that failed.
//
//verif:bounds one of 4 sets of lines, after 40 or 130 (thorough 300) builds that failed, in one to three ranks of ranks, because of one of 3 invalid texts; texts over a b of length <= 3
//verif:expect rules printed outcome value message accepted failed
func C34_Failures() {
	compiler()
	k := sym.Choose("lines", len(lineSets))
	fresh := buildOf(lineSets[k]())
	n := []int{40, 130, 300}[sym.Choose("builds", 2+deep(1))]
	z := []string{"(", "'a' |", "/(/"}[sym.Choose("bad", 3)]
	bad := []joeson.Line{joeson.O(joeson.Named("Z", z))}
	for i := sym.Choose("ranks", 3); i > 0; i-- {
		bad = []joeson.Line{joeson.O(named("R", bad...))}
	}
	for i := 0; i < n; i++ {
		if panics(func() { buildOf(bad) }) {
			sym.Cover("failed")
		}
	}
	gm := buildOf(lineSets[k]())
	alike(fresh, gm)
	again(fresh, gm, sym.StringIn("in", 3, "ab"))
}

// C28_Missing: labels without a value, and maps of nothing else, merged.
//
//verif:bounds sequences of three elements out of 6 kinds: an optional labelled, @ or & on a rule both labels of which are optional, @ or & on one with a value, a label; texts over a b c of length <= 3 (thorough 4)
//verif:expect language value accepted
func C28_Missing() {
	compiler()
	e := func() *N {
		switch sym.Choose("element", 6) {
		case 0:
			return lab("r", opt(class("b")))
		case 1:
			return lab("@", ref("N"))
		case 2:
			return lab("&", ref("N"))
		case 3:
			return lab("&", ref("M"))
		case 4:
			return lab("@", ref("M"))
		}
		return lab("p", opt(class("ab")))
	}
	merging(rules("", "S", seq(e(), e(), e()),
		"N", seq(lab("s", opt(class("a"))), lab("p", opt(class("c")))),
		"M", seq(lab("q", class("ab")), lab("s", opt(lit("c"))))), 3+deep(1))
}

// C03_Endless: repetitions of thousands of elements.
//
//verif:bounds [a-c]* , [a-c]*','{2,}, [a-c]+ or W{1,} as a value between others, over 5000 (thorough 70000) elements, the byte in the middle or the last one any of 6
//verif:depth 60000
//verif:steps 100000000
//verif:expect language value accepted refused
func C03_Endless() {
	compiler()
	sep := ""
	var e *N
	switch sym.Choose("repetition", 4) {
	case 0:
		e = star(class("a-c"), nil)
	case 1:
		e, sep = star(class("a-c"), lit(",")), ","
		e.Min = 2
	case 2:
		e = plus(class("a-c"), nil)
	case 3:
		e = rep(ref("W"), 1, -1)
	}
	g := rules("", "S", seq(lab("x", e), lab("y", star(class("a-d"), nil))), "W", class("a-c"))
	gm := g.compile()
	n := 5000
	if sym.Thorough() {
		n = 70000
	}
	s := strings.Repeat("b"+sep, n) + "b"
	k := []int{len(s) / 2, len(s) - 1}[sym.Choose("place", 2)]
	s = s[:k] + sym.StringNIn("byte", 1, "acde,\n") + s[k+1:]
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	reached(ok)
	if ok {
		sym.Assert(same(res, w), "value")
	}
}

// C36_Rules: rules in any order.
//
//verif:bounds a rank at the top or named, with three I lines and two O lines of any of 6 orders of names, not in that of the alphabet; the I line in the middle being a rank of two more; what is returned before the first node any text of up to 8 characters over _ s t o p
//verif:expect nested parent start order
func C36_Rules() {
	compiler()
	o := orders[sym.Choose("order", len(orders))]
	var i, names []string
	for k := range o {
		i = append(i, "IJK"[o[k]:o[k]+1])
	}
	names = append(names, "VWX"[o[2]:o[2]+1], "VWX"[o[0]:o[0]+1])
	line := func(k int) joeson.Line {
		if k == 1 {
			return joeson.I(named(i[k], joeson.O(joeson.Named("Q"+names[0], "'q'")), joeson.O(joeson.Named("Q"+names[1], "'r'"))))
		}
		return joeson.I(joeson.Named(i[k], "'"+i[k]+"'"))
	}
	l := []joeson.Line{line(0), joeson.O(joeson.Named(names[0], i[0])), line(1), line(2), joeson.O(joeson.Named(names[1], i[1]))}
	if sym.Bool("nested") {
		l = []joeson.Line{joeson.O(named("Top", l...))}
	}
	gm := grammarOf("gm", l...)
	var v visits
	odd := sym.StringIn("returned", 8, "_stop")
	sym.Assume(odd != "__stop__")
	v.walk(gm, nil, func(joeson.Parser) string { r := odd; odd = ""; return r })
	seen := ""
	for _, n := range v.nodes {
		if joeson.IsRule(n) {
			s := helpers.StripAnsi(joeson.String(n))
			s = s[:strings.Index(s, ":")]
			// where the rule is visited last
			if at := strings.Index(seen, " "+s+" "); at >= 0 {
				seen = seen[:at] + seen[at+len(s)+1:]
			}
			seen = strings.TrimSuffix(seen, " ") + " " + s + " "
		}
	}
	at := -1
	for _, s := range []string{i[0], "Q" + names[0], "Q" + names[1], i[1], i[2]} {
		if s == i[1] {
			// a rank is shown by its name before what is in it
			continue
		}
		k := strings.Index(seen, " "+s+" ")
		sym.Assert(k > at, "order")
		at = k
	}
	sym.Assert(strings.Index(seen, " "+i[1]+" ") > strings.Index(seen, " "+i[0]+" "), "order")
	sym.Assert(strings.Index(seen, " "+i[1]+" ") < strings.Index(seen, " "+i[2]+" "), "order")
	sym.Assert(strings.Index(seen, " "+names[0]+" ") < strings.Index(seen, " "+names[1]+" "), "order")
}

// C35_Failed: trace options after a build that failed.
//
//verif:bounds any trace options but those that print the steps of building, with which a build has failed because of one of 2 (thorough 3) invalid texts, one of 2 (thorough 3) grammars built with them afterwards, against options of their own; then a text of length <= 2 over its alphabet parsed
//verif:expect kept same failed
func C35_Failed() {
	compiler()
	g := traced[[]int{1, 3, 5}[sym.Choose("grammar", 2+deep(1))]]
	to := anyOptions()
	sym.Assume(to.FilterLine == -1)
	sym.Assume(sym.Or(to.SkipSetup, !to.Stack)) // the steps of a build are many
	own := *to
	z := []string{"/(/", "'a' |", "("}[sym.Choose("bad", 2+deep(1))]
	build := func(to *joeson.TraceOptions, z string) *joeson.Grammar {
		lines := []joeson.Line{}
		for i, r := range g.rules {
			if i == 0 {
				lines = append(lines, joeson.O(joeson.Named(r[0], r[1])))
			} else {
				lines = append(lines, joeson.I(joeson.Named(r[0], r[1])))
			}
		}
		if z != "" {
			lines = append(lines, joeson.I(joeson.Named("Z", z)))
		}
		return joeson.GrammarWithOptionsFromLines("title", joeson.GrammarOptions{TraceOptions: to, LazyGrammar: compiler()}, lines)
	}
	sym.Capture()
	if panics(func() { build(to, z) }) {
		sym.Cover("failed")
	}
	sym.Assert(*to == own, "kept")
	traces()
	a := build(to, "")
	x := traces()
	b := build(&own, "")
	sym.Assert(sameLines(x, traces()), "same")
	s := sym.StringIn("in", 2, g.alphabet)
	a.ParseString(s)
	x = traces()
	b.ParseString(s)
	sym.Assert(sameLines(x, traces()), "same")
}

// C18_Shown: what is shown of a text with odd bytes in it.
//
//verif:bounds texts of 3 or 50 bytes, any ASCII byte but ESC at one of 3 places around the position; rune streams and token streams
//verif:expect shown
func C18_Shown() {
	n := []int{3, 50}[sym.Choose("len", 2)]
	pos := []int{0, 1, 2, n - 1, n}[sym.Choose("pos", 5)]
	at := []int{pos - 1, pos, pos + 1}[sym.Choose("place", 3)]
	if at < 0 || at >= n {
		sym.Stop()
	}
	s := strings.Repeat("ab", n)[:n]
	b := sym.StringNIn("byte", 1, ascii)
	sym.Assume(b != "\x1b")
	s = s[:at] + b + s[at+1:]
	var st joeson.CodeStream = joeson.NewRuneStream(s)
	if sym.Bool("tokens") {
		st = joeson.NewTokenStream(s, []joeson.Token{{Repr: s}})
	}
	st.SetPos(pos)
	from, to := 0, n
	if pos > 20 {
		from = pos - 20
	}
	if to > pos+40 {
		to = pos + 40
	}
	want := "Code at offset " + strconv.Itoa(pos) + "/" + strconv.Itoa(n) + ": '\x1b" + s[from:pos] + "\x1b|\x1b" + s[pos:to] + "\x1b'"
	// without the colours; the symbolic byte is no ESC
	got := st.Print()
	bare := ""
	for i := 0; i < len(got); i++ {
		if got[i] == 0x1b {
			for got[i] != 'm' {
				i++
			}
			continue
		}
		bare += got[i : i+1]
	}
	sym.Assert(bare == strings.ReplaceAll(want, "\x1b", ""), "shown")
	sym.Assert(st.Pos() == pos, "shown")
}
