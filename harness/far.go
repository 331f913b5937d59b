package harness

import (
	"math"
	"regexp"
	"strconv"
	"strings"
	"verif/sym"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

// far is a number of repetitions well beyond what a table, a window or a
// narrow integer would hold.
func far(n int) int { return []int{140, 300, 1100, 5000, 70000}[sym.Choose("far", n)] }

// C10_Far: the furthest success far beyond where the parse stopped.
//
//verif:bounds S = (W _)* [!] 'end' over 140, 300, 1100 or 5000 words of a letter with blanks, or newlines, between them, and one of 16 bytes for a word near the beginning, in the middle or at the end
//verif:depth 60000
//verif:expect after_the_prefix inside_the_text furthest_success line column error
func C10_Far() {
	compiler()
	g := rules("", "S", seq(plus(seq(ref("W"), ref("_")), nil), class("!"), lit("end")), "W", class("a-c"), "_", class(" \n"))
	n := far(4)
	s := strings.Repeat([]string{"a ", "a\n"}[sym.Choose("between", 2)], n) + "!"
	at := []int{2, n, 2*n - 1, 2 * n}[sym.Choose("place", 4)]
	errorAt(g, s[:at]+sym.StringNIn("byte", 1, "abcdex!. \n\t1Z(){")+s[at+1:])
}

// C16_Far: reading far ahead, and far into a text.
//
//verif:bounds 140, 300, 1100, 5000 or 70000 bytes of one letter, then one of any kind and the word end; a string of all of it, up to its end, or a regular expression; from the beginning or from near the end
//verif:depth 60000
//verif:expect string until regexp
func C16_Far() {
	n := far(5)
	b := sym.StringNIn("byte", 1, ascii)
	s := strings.Repeat("a", n) + b + "end."
	var st joeson.CodeStream = joeson.NewRuneStream(s)
	if sym.Bool("tokens") {
		st = joeson.NewTokenStream(s, []joeson.Token{{Repr: s}})
	}
	p := []int{0, n - 1}[sym.Choose("pos", 2)]
	st.SetPos(p)
	switch sym.Choose("what", 3) {
	case 0:
		want := strings.Repeat("a", n-p) + "nend"
		ok, got := st.MatchString(want)
		sym.Assert(ok == (b == "n"), "string")
		if ok {
			sym.Assert(got == want && st.Pos() == n+4, "string")
		} else {
			sym.Assert(st.Pos() == p, "string")
		}
	case 1:
		got := st.GetUntil("end")
		sym.Assert(got == s[p:n+4] && st.Pos() == n+4, "until")
	case 2:
		ok, got := st.MatchRegexp(*regexp.MustCompile("a*"))
		k := n
		if b == "a" {
			k++
		}
		sym.Assert(ok && got == s[p:k] && st.Pos() == k, "regexp")
	}
}

// C17_Far: lines and columns far into a text.
//
//verif:bounds 140, 300, 1100, 5000 or 70000 lines of two letters, or one line as long, any ASCII byte in place of the first or the last; the first and the last positions, one in the middle and those around the byte
//verif:depth 60000
//verif:expect line col cursor
func C17_Far() {
	n := far(5)
	s := strings.Repeat([]string{"ab\n", "abc"}[sym.Choose("lines", 2)], n)
	at := []int{0, len(s) - 1}[sym.Choose("place", 2)]
	b := sym.StringNIn("byte", 1, ascii)
	s = s[:at] + b + s[at+1:]
	p := []int{0, 1, len(s) / 2, len(s) - 2, len(s) - 1, len(s)}[sym.Choose("pos", 6)]
	st := joeson.NewRuneStream(s)
	l := strings.Count(s[:p], "\n")
	c := p - 1 - strings.LastIndex(s[:p], "\n")
	sym.Assert(st.PosToLine(p) == l, "line")
	sym.Assert(st.PosToCol(p) == c, "col")
	st.SetPos(p)
	sym.Assert(st.Line() == l && st.Col() == c, "cursor")
}

// C18_Far: peeking far.
//
//verif:bounds 140, 300 or 1100 lines of a letter or of a character of two bytes, one of 3 places any byte but newline; PeekRunes of -n, -n/2, n/2, 2n and the extremes, PeekLines of -n, -n/2, n/2, n and two of them, from the beginning, the middle and the end; both kinds of stream
//verif:depth 60000
//verif:expect runes lines
func C18_Far() {
	n := far(3)
	line := []string{"b\n", "é\n"}[sym.Choose("letter", 2)]
	s := strings.Repeat(line, n)
	if line == "b\n" {
		at := []int{0, n / 2 * 2, 2*n - 2}[sym.Choose("place", 3)]
		s = s[:at] + sym.StringNIn("byte", 1, asciiNNL) + s[at+1:]
	}
	var st joeson.CodeStream = joeson.NewRuneStream(s)
	if sym.Bool("tokens") {
		st = joeson.NewTokenStream(s, []joeson.Token{{Repr: s}})
	}
	pos := []int{0, n / 2 * len(line), len(s)}[sym.Choose("pos", 3)]
	st.SetPos(pos)
	amounts := []int{-2 * n, -n, -n / 2, -1, 1, n / 2, n, 2 * n, math.MinInt, math.MaxInt}
	switch sym.Choose("what", 3) {
	case 0:
		amount := amounts[sym.Choose("n", len(amounts))]
		k := amount
		from, to := pos, pos
		for k < 0 && from > 0 {
			from--
			for s[from]&0xc0 == 0x80 {
				from--
			}
			k++
		}
		for k > 0 && to < len(s) {
			to++
			for to < len(s) && s[to]&0xc0 == 0x80 {
				to++
			}
			k--
		}
		sym.Assert(st.PeekRunes(amount) == s[from:to], "runes")
	case 1:
		peeked(st, s, amounts[sym.Choose("n", 8)])
	case 2:
		peeked(st, s, amounts[sym.Choose("n", 8)], amounts[sym.Choose("m", 8)])
	}
}

// at is the line and the column of a position.
func at(text string, pos int) (line, col int) {
	return strings.Count(text[:pos], "\n"), pos - 1 - strings.LastIndex(text[:pos], "\n")
}

// C19_Far: a stream of many tokens.
//
//verif:bounds 140, 300, 1100 or 5000 tokens of two letters, one byte or two left out before each, any byte of ASCII in one of 3 places of the original or of the tokens; the first, last and middle positions and those around the byte
//verif:depth 60000
//verif:expect line col
func C19_Far() {
	n := far(4)
	gap := []string{" ", "\n", "é"}[sym.Choose("gap", 3)]
	k := []int{0, n / 2, n - 1}[sym.Choose("place", 3)]
	b := sym.StringNIn("byte", 1, ascii)
	inGap := sym.Bool("between")
	orig := ""
	toks := make([]joeson.Token, n)
	for i := range toks {
		if i == k && inGap {
			orig += b
		}
		orig += gap
		t := "ab"
		if i == k && !inGap {
			t = "a" + b
		}
		toks[i] = joeson.Token{Repr: t, OriginalOffset: len(orig), WorkOffset: 2 * i}
		orig += t
	}
	ts := joeson.NewTokenStream(orig, toks)
	for _, i := range []int{0, n / 4, n / 2, n/2 + 1, n - 1} {
		l, c := at(orig, toks[i].OriginalOffset+1)
		sym.Assert(ts.PosToLine(2*i+1) == l, "line")
		sym.Assert(ts.PosToCol(2*i+1) == c, "col")
	}
}

// C20_Far: parsing many tokens.
//
//verif:bounds S = W* with W = [a-c] '-'? over 140, 300 or 1100 tokens of two letters with a blank or newline before each in the original, any ASCII byte in place of one of 3
//verif:depth 60000
//verif:expect outcome value offset coordinates accepted refused
func C20_Far() {
	compiler()
	g := rules("", "S", star(ref("W"), nil), "W", seq(lab("k", class("a-c")), opt(lit("-"))))
	gm := g.compile()
	n := far(3)
	k := []int{0, n / 2, n - 1}[sym.Choose("place", 3)]
	b := sym.StringNIn("byte", 1, ascii)
	gap := []string{" ", "\n"}[sym.Choose("gap", 2)]
	orig, work := "", ""
	toks := make([]joeson.Token, n)
	for i := range toks {
		t := "ab"
		if i == k {
			t = "a" + b
		}
		orig += gap
		toks[i] = joeson.Token{Repr: t, OriginalOffset: len(orig), WorkOffset: len(work)}
		orig += t
		work += t
	}
	x, y := gm.ParseTokens(joeson.NewTokenStream(orig, toks)), gm.ParseString(work)
	sym.Assert((x == nil) == (y == nil) && outcome(x) == outcome(y), "outcome")
	if outcome(y) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(x) == canon(y), "value")
		return
	}
	sym.Cover("refused")
	px, lx, cx := position(x.(joeson.ParseError).ErrorString)
	py, _, _ := position(y.(joeson.ParseError).ErrorString)
	sym.Assert(px == py, "offset")
	l, c := at(orig, toks[px/2].OriginalOffset+px%2)
	sym.Assert(lx == l && cx == c, "coordinates")
}

// C03_Far: repetitions with large limits.
//
//verif:bounds [a-c]{m,n} with m and n of none, 127, 128, 255, 256, 257, 1000 or 1024 followed by [a-d]*; texts of m-1, m, n or n+1 elements, the last byte any
//verif:depth 60000
//verif:expect language value accepted refused
func C03_Far() {
	compiler()
	limits := []int{-1, 127, 128, 255, 256, 257, 1000, 1024}
	m, n := limits[sym.Choose("min", 8)], limits[sym.Choose("max", 8)]
	if n >= 0 && n < m {
		sym.Stop()
	}
	k := []int{m - 1, m, n, n + 1}[sym.Choose("elements", 4)]
	if k < 1 {
		sym.Stop()
	}
	g := rules("", "S", seq(lab("x", rep(class("a-c"), m, n)), lab("y", star(class("a-d"), nil))))
	gm := g.compile()
	s := strings.Repeat("b", k-1) + sym.StringNIn("last", 1, "acde\n")
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	reached(ok)
	if ok {
		sym.Assert(same(res, w), "value")
	}
}

// C07_Far: left recursion over a long text.
//
//verif:bounds E = l:E o:[+-] r:T | T, T = k:[a-c] over 140, 300 or 1100 operands; one of 3 bytes any of a + - x and newline
//verif:depth 60000
//verif:expect language value accepted
func C07_Far() {
	compiler()
	g := rules("E ",
		"E", alt(seq(lab("l", ref("E")), lab("o", class("+-")), lab("r", ref("T"))), ref("T")),
		"T", seq(lab("k", class("a-c"))))
	gm := g.compile()
	n := far(3)
	s := strings.Repeat("a+", n) + "b"
	k := []int{1, n, 2 * n}[sym.Choose("place", 3)]
	s = s[:k] + sym.StringNIn("byte", 1, "a+-x\n") + s[k+1:]
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, v), "value")
	}
}

// C11_Far: the calls of a callback over a long text.
//
//verif:bounds S = P* with P = W | [!] and a callback on W = [a-c], over 140, 300, 1100 or 5000 letters, one of 3 bytes any of a c d ! and newline; the callback refusing, keeping or replacing all, or those beyond a position
//verif:depth 60000
//verif:expect called result
func C11_Far() {
	compiler()
	n := far(4)
	from := []int{0, n - 2, n + 1}[sym.Choose("from", 3)]
	kind := sym.Choose("callback", 3)
	calls, last := 0, -1
	gm := grammarOf("gm",
		joeson.O(joeson.Named("S", "P*")),
		joeson.I(joeson.Named("P", "W | [!]")),
		joeson.I(joeson.Named("W", "[a-c]"), func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast {
			calls++
			sym.Assert(ctx.Code.Pos() == last+2 || ctx.Code.Pos() > last+2, "called")
			last = ctx.Code.Pos() - 1
			if ctx.Code.Pos() > from {
				switch kind {
				case 0:
					return nil
				case 1:
					return joeson.NewNativeString("X")
				}
			}
			return a
		}))
	k := []int{0, n / 2, n - 1}[sym.Choose("place", 3)]
	b := sym.StringNIn("byte", 1, "acd!\n")
	s := strings.Repeat("b", k) + b + strings.Repeat("b", n-k-1)
	res := gm.ParseString(s)
	// what is read, up to the first that is refused
	want, called, stopped := "", 0, false
	for i := 0; i < n && !stopped; i++ {
		c := s[i : i+1]
		if c == "!" {
			want += c
			continue
		}
		if c != "a" && c != "b" && c != "c" {
			stopped = true
			break
		}
		called++
		if i+1 > from && kind == 0 {
			stopped = true
			break
		}
		if i+1 > from && kind == 1 {
			c = "X"
		}
		want += c
	}
	sym.Assert(calls == called, "called")
	sym.Assert((outcome(res) == accepted) == !stopped, "result")
	if !stopped {
		sym.Assert(string(res.(*joeson.NativeArray).Concat()) == want, "result")
	}
}

// C22_Far: maps of many keys.
//
//verif:bounds 140, 300 or 1100 keys of up to three digits in an order that is not theirs, then one of 3 of them or another set to an arbitrary integer
//verif:depth 60000
//verif:expect keys get
func C22_Far() {
	n := far(3)
	nm := joeson.NewEmptyNativeMap()
	ks := make([]string, n)
	for i := range ks {
		ks[i] = strconv.Itoa(i * 7 % 1103)
		nm.Set(ks[i], joeson.NewNativeInt(i))
	}
	x := sym.Int("x", math.MinInt, math.MaxInt)
	k := []int{0, n / 2, n - 1, -1}[sym.Choose("again", 4)]
	if k < 0 {
		ks, k = append(ks, "other"), n
	}
	nm.Set(ks[k], joeson.NewNativeInt(x))
	got := nm.Keys()
	sym.Assert(len(got) == len(ks), "keys")
	for i, key := range ks {
		sym.Assert(got[i] == key, "keys")
		v, ok := nm.GetIntExists(key)
		sym.Assert(ok && nm.Exists(key), "get")
		if i == k {
			sym.Assert(v == x, "get")
		} else {
			sym.Assert(v == i, "get")
		}
	}
	_, ok := nm.GetExists("none")
	sym.Assert(!ok, "get")
}

// C24_Far: bisection and insertion in long slices.
//
//verif:bounds 140, 300 or 1100 integers, each there once, twice or three times; any integer
//verif:depth 60000
//verif:expect left right inserted
func C24_Far() {
	n := far(3)
	d := 1 + sym.Choose("times", 3)
	a := make([]int, n)
	for i := range a {
		a[i] = i / d * 3
	}
	x := sym.Int("x", math.MinInt, math.MaxInt)
	l, r := helpers.BisectLeft(a, x), helpers.BisectRight(a, x)
	sym.Assert(0 <= l && l <= n && (l == 0 || a[l-1] < x) && (l == n || a[l] >= x), "left")
	sym.Assert(0 <= r && r <= n && (r == 0 || a[r-1] <= x) && (r == n || a[r] > x), "right")
	want := r
	var b []int
	if sym.Bool("side") {
		b, want = helpers.InsortLeft(a[:n:n], x), l
	} else {
		b = helpers.InsortRight(a[:n:n], x)
	}
	sym.Assert(len(b) == n+1 && b[want] == x, "inserted")
	for _, i := range []int{0, n / 2, n - 1} {
		j := i
		if i >= want {
			j++
		}
		sym.Assert(b[j] == a[i], "inserted")
	}
}

// C04_Far: predicates that look far ahead.
//
//verif:bounds !(W+ [!]) or ?(W+ [!]) before W* and [!?]* , and both after W*, W = [a-c], over 140, 300, 1100 or 5000 letters and any of a ! ? and newline
//verif:depth 60000
//verif:expect language value accepted refused
func C04_Far() {
	compiler()
	ahead := seq(plus(ref("W"), nil), class("!"))
	p := not(ahead)
	if sym.Bool("positive") {
		p = look(ahead)
	}
	all := lab("x", star(ref("W"), nil))
	g := rules("", "S", seq(p, all, lab("y", star(class("!?"), nil))), "W", class("a-c"))
	gm := g.compile()
	s := strings.Repeat("a", far(4)) + sym.StringNIn("byte", 1, "a!?\n")
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	reached(ok)
	if ok {
		sym.Assert(same(res, v), "value")
	}
}

// C35_Far: the steps of one line far into a text.
//
//verif:bounds S = L* with L = 'a' '\n' and any byte in place of one of 3, over 140 or 300 lines; filters of 0, 1, 127, 128, 139, 255, 256 and 299
//verif:depth 60000
//verif:expect filter
func C35_Far() {
	compiler()
	gm := grammarOf("gm", joeson.O(joeson.Named("S", "L*")), joeson.I(joeson.Named("L", "[a]'\n'")))
	n := far(2)
	s := strings.Repeat("a\n", n)
	k := []int{0, n, 2*n - 1}[sym.Choose("place", 3)]
	s = s[:k] + sym.StringNIn("byte", 1, "ab\n") + s[k+1:]
	gm.TraceOptions = &joeson.TraceOptions{Stack: true, FilterLine: -1}
	sym.Capture()
	gm.ParseString(s)
	all := traces()
	line := []int{0, 1, 127, 128, 139, 255, 256, 299}[sym.Choose("filter", 8)]
	gm.TraceOptions = &joeson.TraceOptions{Stack: true, FilterLine: line}
	gm.ParseString(s)
	var some []string
	for _, l := range all {
		if atLine(l, strconv.Itoa(line)) {
			some = append(some, l)
		}
	}
	sym.Assert(sameLines(traces(), some), "filter")
}

// C29_Far: origins far into a text.
//
//verif:bounds S = L* with L = k:W+ '\n'?, W = x:[a-c], over 140, 300 or 1100 lines of two letters, one of 3 bytes any of a d and newline
//verif:depth 60000
//verif:expect span code line accepted
func C29_Far() {
	compiler()
	g := rules("", "S", plus(ref("L"), nil), "L", seq(lab("k", ref("W")), lab("n", opt(class("\n")))), "W", seq(lab("x", class("a-c"))))
	gm := g.compile()
	n := far(3)
	s := strings.Repeat("a\n", n)
	k := []int{0, n, 2*n - 1}[sym.Choose("place", 3)]
	s = s[:k] + sym.StringNIn("byte", 1, "ad\n") + s[k+1:]
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		spans(res, v, s)
	}
}
