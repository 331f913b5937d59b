package harness

import (
	"math"
	"strconv"
	"strings"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	"verif/sym"
)

// The harnesses here take a few large concrete inputs with something open in
// them: limits of one or two digits, long texts, many elements.

// C03_Large: bounds of one to three digits.
//
//verif:bounds [a-c]{m,n} with m in none,1,9,10,11,99,100 and n in none,9,10,12,100, with and without a join, followed by [a-d]*; texts of m-1, m, m+1, n-1, n or n+1 elements, the last byte any
//verif:depth 120000
//verif:expect language value accepted refused
func C03_Large() {
	compiler()
	m := []int{-1, 1, 9, 10, 11, 99, 100}[sym.Choose("min", 7)]
	n := []int{-1, 9, 10, 12, 100}[sym.Choose("max", 5)]
	if n >= 0 && n < m {
		sym.Stop()
	}
	v := class("a-c")
	var p *N
	join := sym.Bool("join")
	sep := ""
	if join {
		sep = "-"
		p = repJoin(v, lit("-"), m, n)
	} else {
		p = rep(v, m, n)
	}
	g := rules("", "S", seq(lab("x", p), lab("y", star(class("a-d"), nil))))
	gm := g.compile()
	k := 0
	switch sym.Choose("elements", 6) {
	case 0:
		k = m - 1
	case 1:
		k = m
	case 2:
		k = m + 1
	case 3:
		k = n - 1
	case 4:
		k = n
	case 5:
		k = n + 1
	}
	if k <= 0 {
		sym.Stop()
	}
	s := strings.Repeat("b"+sep, k)
	s = s[:len(s)-1-len(sep)] + sym.StringN("last", 1)
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	reached(ok)
	if ok {
		sym.Assert(same(res, w), "value")
	}
}

// C06_Long: a rule is evaluated once however long the text is.
//
//verif:bounds S = R 'b' | R 'c' | !R | R, R = [a]* or /a*/ with a callback; texts of 300, 5000 or 70000 (300 for [a]*) letters a and one of b, c or d
//verif:depth 400000
//verif:expect once
func C06_Long() {
	compiler()
	n := 0
	body, k := "/a*/", 300
	switch sym.Choose("grammar", 2) {
	case 0:
		k = []int{300, 5000, 70000}[sym.Choose("length", 3)]
	case 1:
		body = "[a]*"
	}
	gm := grammarOf("gm", joeson.O(joeson.Named("S", "R 'b' | R 'c' | !R | R")), joeson.I(joeson.Named("R", body), func(a joeson.Ast) joeson.Ast { n++; return a }))
	gm.ParseString(strings.Repeat("a", k) + sym.StringNIn("end", 1, "bcd"))
	sym.Assert(n == 1, "once")
}

// C31_Far: what lies far into a text is parsed as at its beginning.
//
//verif:bounds S = /a*/ T, T = R 'b' | R 'c' | L, with a rule of its own for the letters, R = [d]* and L left-recursive; 0, 250 to 260, 32766 to 32768, 65534 to 65536 or 70000 letters a before d and any text over b c d x of length <= 2 (thorough 3)
//verif:depth 400000
//verif:expect language value accepted refused
func C31_Far() {
	compiler()
	g := rules("L ",
		"S", seq(lab("w", ref("W")), lab("t", ref("T"))),
		"W", &N{K: 'x', S: "a*"},
		"T", alt(seq(lab("r", ref("R")), lit("b")), seq(lab("r", ref("R")), lit("c")), lab("l", ref("L"))),
		"R", star(class("d"), nil),
		"L", alt(seq(lab("x", ref("L")), lit("x"), lab("y", ref("D"))), ref("D")),
		"D", class("d"))
	gm := g.compile()
	k := 0
	switch sym.Choose("where", 5) {
	case 1:
		k = 250 + sym.Choose("more", 11)
	case 2:
		k = 32766 + sym.Choose("more", 3)
	case 3:
		k = 65534 + sym.Choose("more", 3)
	case 4:
		k = 70000
	}
	s := "d" + sym.StringIn("end", 2+deep(1), "bcdx")
	res := gm.ParseString(strings.Repeat("a", k) + s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	reached(ok)
	if ok {
		a, _ := res.(*joeson.NativeMap).GetExists("w")
		sym.Assert(len(a.(joeson.NativeString)) == k, "value")
		t, _ := res.(*joeson.NativeMap).GetExists("t")
		sym.Assert(same(t, w.A[1]), "value")
	}
}

// C14_Long: long literals, regular expressions and classes.
//
//verif:bounds 'x', /x/ with x a word of 9, 17, 40 or 300 letters, and [x] of up to 26; the text x with any byte in place of the first, second, a middle, the last but one or the last, one byte shorter or longer; for the class: any byte
//verif:expect language accepted refused
func C14_Long() {
	compiler()
	x := ""
	n := []int{9, 17, 40, 300}[sym.Choose("length", 4)]
	for i := 0; i < n; i++ {
		x += string(rune('a' + (i*7+i/26)%26))
	}
	kind := sym.Choose("kind", 3)
	if kind == 2 {
		if n > 17 {
			x = "abcdefghijklmnopqrstuvwxyz"
		}
		gm := grammarOf("gm", joeson.O(joeson.Named("S", "["+x+"]")))
		s := sym.StringN("in", 1)
		res := gm.ParseString(s)
		ok := classHas(x, s[0])
		sym.Assert((outcome(res) == accepted) == ok, "language")
		return
	}
	q := "'/"[kind : kind+1]
	gm := grammarOf("gm", joeson.O(joeson.Named("S", q+x+q)))
	t, at, b := altered(x, 0, 1, n/2, n/2+1, n-2, n-1)
	ok := at < 0 || b == x[at]
	switch sym.Choose("cut", 4) {
	case 1:
		t, ok = t[:n-1], false
	case 2:
		t, ok = t+x[n-1:], false
	case 3:
		t, ok = t[:n/2], false
	}
	res := gm.ParseString(t)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	reached(ok)
	if ok {
		sym.Assert(string(res.(joeson.NativeString)) == x, "language")
	}
}

// C02_Labels: labels given more than once in a sequence.
//
//verif:bounds sequences of three (thorough also four) elements [ab], 'b'?, a reference to Q = k:[ab] or 'a'*, each labelled x, y, k, & or @ or not at all, the value of & and @ being Q's; texts over a b of length <= 3 (thorough 5)
//verif:expect language value accepted
func C02_Labels() {
	compiler()
	n := 3
	if sym.Thorough() {
		n += sym.Choose("elements", 2)
	}
	var kids []*N
	some := false
	for i := 0; i < n; i++ {
		var e *N
		switch sym.Choose("element", 4) {
		case 0:
			e = class("ab")
		case 1:
			e = opt(lit("b"))
		case 2:
			e = ref("Q")
		case 3:
			e = star(class("a"), nil)
		}
		l := []string{"", "x", "y", "k", "&", "@"}[sym.Choose("label", 6)]
		if (l == "&" || l == "@") && e.K != 'r' {
			sym.Stop()
		}
		if l == "k" && i != n-1 && i != 0 {
			sym.Stop()
		}
		if l != "" {
			e = lab(l, e)
			some = true
		}
		kids = append(kids, e)
	}
	if !some {
		sym.Stop()
	}
	g := rules("", "S", seq(kids...), "Q", seq(lab("k", class("ab"))))
	compare(g, 3+deep(2), "ab")
}

// ruin alters all maps and arrays in a.
func ruin(a joeson.Ast) {
	switch x := a.(type) {
	case *joeson.NativeArray:
		for i := 0; i < x.Length(); i++ {
			ruin(x.Get(i))
		}
		if x.Length() > 0 {
			(*x)[0] = joeson.NewNativeString("?")
		}
		x.Append(joeson.NewNativeInt(1))
	case *joeson.NativeMap:
		for _, k := range x.Keys() {
			v, _ := x.GetExists(k)
			ruin(v)
			x.Set(k, joeson.NewNativeString("?"))
		}
		x.Set("?", joeson.NewNativeInt(1))
	}
}

// C12_Altered: what a parse returned is altered, and the same text or another parsed.
//
//verif:bounds the grammars of C12_Twice; first text of length <= 4, all the maps and arrays of its result altered; then the same text, or any of length <= 3, given as a string or as a token
//verif:expect outcome value message accepted
func C12_Altered() {
	compiler()
	g := pick(historical)
	fresh := g.build(nil)
	gm := g.build(nil)
	s := sym.StringIn("first", 4, g.alphabet)
	if sym.Bool("token") {
		ruin(gm.ParseTokens(joeson.NewTokenStream(s, []joeson.Token{{Repr: s}})))
	} else {
		ruin(gm.ParseString(s))
	}
	if len(s) <= 3 && sym.Bool("other") {
		s = sym.StringIn("in", 3, g.alphabet)
	}
	again(fresh, gm, s)
}

const page = "one\ntwo\n\nfour, a longer line of 32 letters.\n5\n6\n7\n8\n9\n10\n11\n\n\nthe last but one is longer than the one before it\nend"

// C18_Long: peeking at a page of text.
//
//verif:bounds a text of 15 lines and 115 bytes with any byte but newline in it; 9 positions; PeekRunes of any integer, PeekLines of one or two integers in -20..20; both kinds of stream
//verif:expect lines stays
func C18_Long() {
	text := page[:20] + sym.StringNIn("byte", 1, asciiNNL) + page[21:]
	st := joeson.NewRuneStream(text)
	if sym.Choose("stream", 2) == 1 {
		k := len(text) / 2
		st = joeson.NewTokenStream(text, []joeson.Token{{Repr: text[:k]}, {Repr: text[k:], OriginalOffset: k, WorkOffset: k}})
	}
	pos := []int{0, 3, 4, 20, 60, 64, 70, 100, len(text)}[sym.Choose("pos", 9)]
	st.SetPos(pos)
	switch sym.Choose("what", 3) {
	case 0:
		n := sym.Int("runes", math.MinInt, math.MaxInt)
		got := st.PeekRunes(n)
		from, to := pos, pos
		if n > 0 {
			to = len(text)
			if n < to-pos {
				to = pos + n
			}
		} else {
			from = 0
			if n > -pos {
				from = pos + n
			}
		}
		sym.Assert(got == text[from:to], "runes")
	case 1:
		n := sym.Choose("n", 41) - 20
		peeked(st, text, n)
	case 2:
		n := sym.Choose("n", 13)*3 - 18
		peeked(st, text, n, sym.Choose("m", 13)*3-18)
	}
	sym.Assert(st.Pos() == pos, "stays")
}

func peeked(st joeson.CodeStream, text string, a ...int) {
	lo, hi := 0, 0
	for i, n := range a {
		if i == 0 && len(a) > 1 {
			lo, hi = n, n
			continue
		}
		lo, hi = helpers.Min(lo, n), helpers.Max(hi, n)
	}
	cur := strings.Count(text[:st.Pos()], "\n")
	var want []string
	for i, l := range strings.Split(text, "\n") {
		if i-cur >= lo && i-cur <= hi {
			want = append(want, l)
		}
	}
	sym.Assert(st.PeekLines(a...) == strings.Join(want, "\n"), "lines")
}

// C24_Long: bisection and insertion in longer slices.
//
//verif:bounds sorted slices of 6 to 9 (thorough 17) arbitrary integers; any value; insertion for up to 7 (thorough 10)
//verif:expect left right inserted
func C24_Long() {
	a := make([]int, 6+sym.Choose("len", 4+deep(8)))
	for i := range a {
		a[i] = sym.Int("a", math.MinInt, math.MaxInt)
		if i > 0 {
			sym.Assume(a[i-1] <= a[i])
		}
	}
	x := sym.Int("x", math.MinInt, math.MaxInt)
	l, r := 0, 0
	for _, v := range a {
		l = sym.IteInt(v < x, l+1, l)
		r = sym.IteInt(v <= x, r+1, r)
	}
	switch sym.Choose("what", 3) {
	case 0:
		sym.Assert(helpers.BisectLeft(a, x) == l, "left")
	case 1:
		sym.Assert(helpers.BisectRight(a, x) == r, "right")
	case 2:
		if len(a) > 7+deep(3) {
			sym.Stop()
		}
		old := append([]int{}, a...)
		var b []int
		if sym.Bool("side") {
			b = helpers.InsortLeft(a, x)
		} else {
			b = helpers.InsortRight(a, x)
		}
		sym.Assert(len(b) == len(old)+1, "inserted")
		for i := range b {
			w := x
			if i < len(old) {
				w = sym.IteInt(i < l, old[i], w)
			}
			if i > 0 {
				w = sym.IteInt(i > l, old[i-1], w)
			}
			sym.Assert(b[i] == w, "inserted")
		}
	}
}

// C19_Many: many tokens, and texts that are not ASCII.
//
//verif:bounds four to six (thorough 8) tokens of one byte and one of two among them, the original text having 0 or 1 byte before each, any ASCII byte at any one place; or two tokens of é 世 and an arbitrary byte with 0 or 1 between; every position
//verif:expect line col cursor code
func C19_Many() {
	orig := ""
	var toks []joeson.Token
	work := 0
	var at []int
	add := func(s string) {
		toks = append(toks, joeson.Token{Repr: s, OriginalOffset: len(orig), WorkOffset: work})
		for j := range []byte(s) {
			at = append(at, len(orig)+j)
		}
		work += len(s)
		orig += s
	}
	if sym.Bool("ascii") {
		k := 4 + sym.Choose("tokens", 3+deep(2))
		wide := sym.Choose("wide", k)
		// any byte at one place, a newline after the second token
		t, gaps := "a.bcd\nefghijklmnopq", make([]bool, k)
		n := k + 1
		for i := range gaps {
			gaps[i] = sym.Bool("gap")
			if gaps[i] {
				n++
			}
		}
		x := sym.Choose("any", n)
		t = t[:x] + sym.StringNIn("byte", 1, ascii) + t[x+1:n]
		for i, from := 0, 0; i < k; i++ {
			if gaps[i] {
				orig += t[from : from+1]
				from++
			}
			l := 1
			if i == wide {
				l = 2
			}
			add(t[from : from+l])
			from += l
		}
	} else {
		orig = []string{"", "é", "\n", " "}[sym.Choose("first", 4)]
		add("é")
		orig += []string{"", "世", "\n", sym.StringN("skipped", 1)}[sym.Choose("second", 4)]
		add("世" + sym.StringN("token", 1) + "é")
		orig += []string{"", "\xff"}[sym.Choose("last", 2)]
	}
	ts := joeson.NewTokenStream(orig, toks)
	p := sym.Choose("pos", len(at))
	line, col := lineCol(orig, at[p])
	sym.Assert(ts.PosToLine(p) == line, "line")
	sym.Assert(ts.PosToCol(p) == col, "col")
	ts.SetPos(p)
	sym.Assert(ts.Line() == line && ts.Col() == col, "cursor")
	sym.Assert(ts.Code() == orig, "code")
}

// C22_Many: a map of many keys.
//
//verif:bounds 1 to 12 (thorough 40) keys of one to two letters set in an order that is not theirs, then any of them or another set again, to any of the values of C22_History
//verif:expect keys get concat
func C22_Many() {
	n := 1 + sym.Choose("keys", 12+deep(28))
	nm := joeson.NewEmptyNativeMap()
	var ks []string
	t := make([]string, n)
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i * 7 % 41)
		ks = append(ks, k)
		t[i] = "v" + strconv.Itoa(i)
		nm.Set(k, joeson.NewNativeString(t[i]))
	}
	v, x := value()
	i := sym.Choose("again", n+1)
	if i == n {
		ks, t = append(ks, "other"), append(t, x)
	} else {
		t[i] = x
	}
	nm.Set(ks[i], v)
	sym.Assert(strings.Join(nm.Keys(), ",") == strings.Join(ks, ","), "keys")
	for j, k := range ks {
		got, ok := nm.GetExists(k)
		sym.Assert(ok, "get")
		if i == j {
			sym.Assert(sameAst(got, v), "get")
		} else {
			sym.Assert(string(got.(joeson.NativeString)) == t[j], "get")
		}
	}
	sym.Assert(string(nm.Concat()) == strings.Join(t, ""), "concat")
}

// C23_Many: arrays of many elements or nested deep.
//
//verif:bounds arrays of 10, 100 or 1500 elements, or nested 10, 100 or 500 levels deep; any byte as the last or innermost element
//verif:depth 40000
//verif:expect concat print list
func C23_Many() {
	c := sym.StringN("s", 1)
	x := joeson.NewNativeString(c)
	if sym.Bool("deep") {
		n := []int{10, 100, 500}[sym.Choose("n", 3)]
		a := joeson.NewNativeArray([]joeson.Ast{x})
		for i := 1; i < n; i++ {
			a = joeson.NewNativeArray([]joeson.Ast{a})
		}
		sym.Assert(string(a.Concat()) == c, "concat")
		sym.Assert(a.String() == strings.Repeat("[", n)+c+strings.Repeat("]", n), "print")
		return
	}
	n := []int{10, 100, 1500}[sym.Choose("n", 3)]
	a := joeson.NewEmptyNativeArray()
	for i := 1; i < n; i++ {
		a.Append(joeson.NewNativeString("ab"))
	}
	a.Append(x)
	sym.Assert(a.Length() == n && sameAst(a.Get(n-1), x), "list")
	sym.Assert(string(a.Concat()) == strings.Repeat("ab", n-1)+c, "concat")
	sym.Assert(a.String() == "["+strings.Repeat("ab,", n-1)+c+"]", "print")
}

// C32_Many: many words.
//
//verif:bounds TRACE of 4 to 6 (thorough 8) words, the last two any of the documented ones, the others stack or none; any default options
//verif:expect options
func C32_Many() {
	def := anyOptions()
	n := 4 + sym.Choose("words", 3+deep(2))
	want := &joeson.TraceOptions{FilterLine: -1}
	var ws []string
	for i := 0; i < n; i++ {
		k := 2
		if i >= n-2 {
			k = 7
		}
		w := []string{"none", "stack", "loop", "grammar", "skipsetup", "all", "line=7"}[sym.Choose("word", k)]
		switch w {
		case "none":
			*want = joeson.TraceOptions{FilterLine: -1}
		case "stack":
			want.Stack = true
		case "loop":
			want.Loop = true
		case "grammar":
			want.Grammar = true
		case "skipsetup":
			want.SkipSetup = true
		case "all":
			*want = *joeson.Verbose()
		case "line=7":
			want.FilterLine = 7
		}
		ws = append(ws, w)
	}
	defer setenv("TRACE", strings.Join(ws, ","))()
	defer setenv("trace", "")()
	sym.Assert(sameOptions(joeson.TraceOptionsFromEnvironmentOrUse(def), want), "options")
}

// C08_Long: cycles through many rules.
//
//verif:bounds A0 = A1 [x] | [a], A1 = A2 | [b], ... An = A0 for n = 1, 3, 5, 6, 7, 9 (thorough 1 to 9 and 16), with or without [y] after one of the references; entered at A0 or after an [x]; texts over a b x y of length <= 4
//verif:expect language value accepted
func C08_Long() {
	compiler()
	n := []int{1, 3, 5, 6, 7, 9, 2, 4, 8, 16}[sym.Choose("n", 6+deep(4))]
	late := sym.Choose("y after", n)
	var a []any
	lr := ""
	if sym.Bool("entry") {
		a = append(a, "S", alt(seq(class("x"), ref("A0")), ref("A0")))
	}
	a = append(a, "A0", alt(seq(ref("A1"), class("x")), class("a")))
	for i := 1; i <= n; i++ {
		next := ref("A" + strconv.Itoa((i+1)%(n+1)))
		body := next
		if i == late {
			body = alt(seq(next, class("y")), next, class("b"))
		}
		a = append(a, "A"+strconv.Itoa(i), body)
	}
	for i := 0; i <= n; i++ {
		lr += "A" + strconv.Itoa(i) + " "
	}
	compare(rules(lr, a...), 4, "abxy")
}

// C29_Bytes: what comes before a result may be any bytes.
//
//verif:bounds S = w:/(?s)[^a]*/ p:P, P = k:'a' q:Q?, Q = k:[ab]; texts: any one or two bytes, é, 世 or U+FFFD, before any of a, aa, ab; any bytes of length 0 to 2 (thorough 3)
//verif:expect span code line accepted
func C29_Bytes() {
	compiler()
	g := rules("",
		"S", seq(lab("w", &N{K: 'x', S: "[^a]*"}), lab("p", ref("P"))),
		"P", seq(lab("k", lit("a")), lab("q", opt(ref("Q")))),
		"Q", seq(lab("k", class("ab"))))
	gm := g.compile()
	s := ""
	switch sym.Choose("prefix", 4) {
	case 0:
		s = sym.String("in", 2+deep(1))
	case 1:
		s = "é"
	case 2:
		s = "世\xff"
	case 3:
		s = "\uFFFD\n"
	}
	s += []string{"a", "aa", "ab"}[sym.Choose("rest", 3)]
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		spans(res, v, s)
	}
}
