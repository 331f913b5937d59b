package harness

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	"verif/sym"
)

// The harnesses here go on where those in large.go end.

// numbers of many digits, at the limits of 32 and 64 bits among them
var numerals = []string{"99999", "2147483647", "2147483648", "-2147483649", "4294967296", "+9007199254740993", "0000000012", "9223372036854775807", "-9223372036854775808", "123456789012345678901"}

// numeral is one of the above with any byte in place of one, and what it says.
func numeral() (s string, n int, ok bool) {
	s, _, _ = altered(numerals[sym.Choose("numeral", len(numerals))], 0, 1, -1)
	t := strings.TrimLeft(s, "+-")
	if len(s)-len(t) > 1 || len(t) == 0 {
		return s, 0, false
	}
	neg := len(t) < len(s) && s[0] == '-'
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return s, 0, false
		}
	}
	t = strings.TrimLeft(t, "0")
	most := "9223372036854775807"
	if neg {
		most = "9223372036854775808"
	}
	if len(t) > len(most) || len(t) == len(most) && t > most {
		return s, 0, false
	}
	for i := 0; i < len(t); i++ {
		if neg {
			n = n*10 - int(t[i]-'0')
		} else {
			n = n*10 + int(t[i]-'0')
		}
	}
	return s, n, true
}

// C22_Numerals: integers of many digits in a map.
//
//verif:bounds ten numerals of 5 to 21 digits with a sign or none, any byte in place of the first, the second or the last; as a string, as an array of two, or, if they are integers of 64 bits, as an integer
//verif:expect int string
func C22_Numerals() {
	s, n, ok := numeral()
	nm := joeson.NewEmptyNativeMap()
	text := true
	switch sym.Choose("kind", 3) {
	case 0:
		nm.Set("k", joeson.NewNativeString(s))
	case 1:
		nm.Set("k", joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString(s[:2]), joeson.NewNativeString(s[2:])}))
	case 2:
		if !ok {
			sym.Stop()
		}
		nm.Set("k", joeson.NewNativeInt(n))
		text = false
	}
	got, has := 0, false
	p := panics(func() { got, has = nm.GetIntExists("k") })
	sym.Assert(p == !ok, "int")
	if ok {
		sym.Assert(has && got == n, "int")
	}
	if text {
		t, has := nm.GetStringExists("k")
		sym.Assert(has && t == s, "string")
	}
}

// C23_Numerals: conversions between text and integers of many digits.
//
//verif:bounds the numerals of C22_Numerals, as a string, a string value, an array of two or of five; and any integer as an integer of the language
//verif:expect value rejected
func C23_Numerals() {
	s, n, ok := numeral()
	var got joeson.NativeInt
	p := panics(func() {
		switch sym.Choose("from", 4) {
		case 0:
			got = joeson.NewNativeIntFromString(s)
		case 1:
			got = joeson.NewNativeIntFrom(joeson.NewNativeString(s))
		case 2:
			got = joeson.NewNativeIntFrom(joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString(s[:2]), joeson.NewNativeString(s[2:])}))
		case 3:
			a := joeson.NewEmptyNativeArray()
			a.Append(joeson.NewNativeUndefined())
			a.Append(joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString(s[:1])}))
			a.Append(joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString(s[1:4]), joeson.NewEmptyNativeArray(), joeson.NewNativeString(s[4:])}))
			got = joeson.NewNativeIntFrom(a)
		}
	})
	if ok {
		sym.Assert(!p && got.Int() == n, "value")
	} else {
		sym.Assert(p, "rejected")
	}
}

// C25_Wide: padding, cutting and indenting at greater widths.
//
//verif:bounds strings of 0, 1, 2, 20 or 70 bytes, one of them any; padded to 8, 9, 10, 15 to 17, 31 to 33, 63 to 65, 99 to 101, 127 to 129, 255 to 257 or 1000; their last n runes and slices for n, i, j any integers in -80..80; indentation of 0 to 40 and 200 steps
//verif:expect left right indent last slice
func C25_Wide() {
	s := []string{"", "x", "xy", "0123456789abcdefghij", strings.Repeat("0123456789", 7)}[sym.Choose("string", 5)]
	if len(s) > 0 {
		s, _, _ = altered(s, 0, len(s)-1)
	}
	switch sym.Choose("what", 4) {
	case 0:
		n := []int{8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000}[sym.Choose("width", 22)]
		blanks := ""
		if n > len(s) {
			blanks = strings.Repeat(" ", n-len(s))
		}
		sym.Assert(helpers.PadLeft(s, n) == s+blanks, "left")
		sym.Assert(helpers.PadRight(s, n) == blanks+s, "right")
	case 1:
		if len(s) > 0 {
			sym.Stop()
		}
		n := sym.Choose("steps", 42)
		if n == 41 {
			n = 200
		}
		sym.Assert(helpers.Indent(n) == strings.Repeat("  ", n), "indent")
	case 2:
		s += "é世"
		n := sym.Int("n", -80, 80)
		got := helpers.LastNRunes(s, n)
		sym.Assert(strings.HasSuffix(s, got), "last")
		if len(got) < len(s) {
			k := 0
			for range got {
				k++
			}
			sym.Assert(k == n || n < 0 && k == 0, "last")
		}
	case 3:
		i, j := sym.Int("i", -80, 80), sym.Int("j", -80, 80)
		from, to := i, j
		if from < 0 {
			from = max(from+len(s), 0)
		}
		if to < 0 {
			to += len(s)
		}
		want := ""
		if to > len(s) {
			to = len(s)
		}
		if from < to {
			want = s[from:to]
		}
		sym.Assert(helpers.SliceString(s, i, j) == want, "slice")
	}
}

// C32_Line: line numbers of many digits.
//
//verif:bounds TRACE of line= followed by one of the numerals of C22_Numerals, alone, after stack or before loop; any default options
//verif:expect options refused
func C32_Line() {
	s, n, ok := numeral()
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] != ',', s[i] != 0)) // no NUL in the environment
	}
	want := &joeson.TraceOptions{FilterLine: n}
	env := "line=" + s
	switch sym.Choose("words", 3) {
	case 1:
		env = "stack," + env
		want.Stack = true
	case 2:
		env += ",loop"
		want.Loop = true
	}
	defer setenv("TRACE", env)()
	defer setenv("trace", "")()
	var got *joeson.TraceOptions
	p := panics(func() { got = joeson.TraceOptionsFromEnvironmentOrUse(anyOptions()) })
	sym.Assert(p == !ok, "refused")
	if ok {
		sym.Assert(sameOptions(got, want), "options")
	}
}

const alphabet = "abcdefghijklmnopqrstuvwxyz"

// C01_Wide: choices of many alternatives.
//
//verif:bounds choices of 5, 9, 12 or 17 alternatives, each taking two letters of which the next takes one, or a reference to a rule that does, with a label of its own, in the body of a rule or in a group; texts: any byte
//verif:expect language value accepted
func C01_Wide() {
	compiler()
	n := []int{5, 9, 12, 17}[sym.Choose("alternatives", 4)]
	by := sym.Choose("reference", 3)
	var kids []*N
	for i := 0; i < n; i++ {
		e := class(alphabet[i : i+2])
		if by == 1 && i%2 == 0 || by == 2 {
			e = alt(ref("R"+strconv.Itoa(i)), lit("Z"))
		}
		kids = append(kids, seq(lab("k"+strconv.Itoa(i), e)))
	}
	body := alt(kids...)
	if sym.Bool("group") {
		body = seq(lab("x", body), lab("y", opt(lit("!"))))
	}
	a := []any{"S", body}
	for i := 0; i < n && by > 0; i++ {
		a = append(a, "R"+strconv.Itoa(i), class(alphabet[i:i+2]))
	}
	g := rules("", a...)
	gm := g.compile()
	s := sym.StringN("in", 1)
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, v), "value")
	}
}

// C30_Wide: ranks of many alternatives.
//
//verif:bounds ranks of 5, 10, 11, 12 or 21 alternatives as in C01_Wide, at the top, named, unnamed, the first half in a rank of its own, with names, or with an I line before each; texts: any byte
//verif:expect language value accepted
func C30_Wide() {
	compiler()
	n := []int{5, 10, 11, 12, 21}[sym.Choose("alternatives", 5)]
	var kids []*N
	var o []joeson.Line
	how := sym.Choose("rank", 7)
	for i := 0; i < n; i++ {
		if how == 6 {
			o = append(o, joeson.I(joeson.Named("M"+strconv.Itoa(i), "'x'")))
		}
		e := seq(lab("k"+strconv.Itoa(i), class(alphabet[i:i+2])))
		kids = append(kids, e)
		if how == 5 {
			o = append(o, joeson.O(joeson.Named("N"+strconv.Itoa(i), e.text(0))))
		} else {
			o = append(o, joeson.O(e.text(0)))
		}
	}
	l := o
	switch how {
	case 1:
		l = []joeson.Line{joeson.O(named("S", o...))}
	case 2:
		l = []joeson.Line{joeson.O(joeson.NewALine(o))}
	case 3:
		l = append([]joeson.Line{joeson.O(named("T", o[:n/2]...))}, o[n/2:]...)
	case 4:
		l = []joeson.Line{joeson.O("T"), joeson.I(joeson.Named("T", joeson.NewALine(append(o[:n-2:n-2], joeson.O(joeson.NewALine(o[n-2:]))))))}
	}
	g := rules("", "S", alt(kids...))
	gm := grammarOf("gm", l...)
	s := sym.StringN("in", 1)
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(canon(res) == v.show(), "value")
	}
}

// C02_Wide: sequences of many elements.
//
//verif:bounds sequences of 4 to 7, 10 or 20 elements, [a-c] or 'x' or an optional [d] in turn, none, one in two or all of them labelled, or all given the same three labels; texts with any byte in place of the first, a middle or the last
//verif:expect language value accepted
func C02_Wide() {
	compiler()
	n := []int{4, 5, 6, 7, 10, 20}[sym.Choose("elements", 6)]
	how := sym.Choose("labels", 4)
	var kids []*N
	s := ""
	for i := 0; i < n; i++ {
		e, t := class("a-c"), "b"
		switch i % 3 {
		case 1:
			e, t = lit("x"), "x"
		case 2:
			e, t = opt(class("d")), "d"
		}
		switch how {
		case 1:
			if i%2 == 0 {
				e = lab("k"+strconv.Itoa(i), e)
			}
		case 2:
			e = lab("k"+strconv.Itoa(i), e)
		case 3:
			e = lab("k"+strconv.Itoa(i%3), e)
		}
		kids = append(kids, e)
		s += t
	}
	g := rules("", "S", seq(kids...))
	gm := g.compile()
	s, _, _ = altered(s, 0, 2, n/2, n-1)
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, v), "value")
	}
}

// C04_Wide: predicates in predicates.
//
//verif:bounds an element of 4 kinds inside 2 to 6 predicates, each ! or ?, possibly in a sequence with [ab] before or behind, then /.*/ or a class; texts over a b of length <= 3
//verif:expect language value accepted
func C04_Wide() {
	compiler()
	var e *N
	switch sym.Choose("element", 4) {
	case 0:
		e = lit("a")
	case 1:
		e = ref("R")
	case 2:
		e = seq(class("ab"), lit("b"))
	case 3:
		e = star(lit("b"), nil)
	}
	n := 2 + sym.Choose("predicates", 5)
	mixed := sym.Choose("mixed", 3)
	for i := 0; i < n; i++ {
		switch mixed {
		case 1:
			if i == 1 {
				e = seq(e, class("ab"))
			}
		case 2:
			if i == 1 {
				e = seq(class("ab"), e)
			}
		}
		if i < 3 && sym.Bool("look") {
			e = look(e)
		} else {
			e = not(e)
		}
	}
	g := rules("", "S", seq(e, lab("k", star(class("ab"), nil))), "R", seq(lit("b"), lit("a")))
	compare(g, 3, "ab")
}

// C15_Wide: many parentheses and many blanks.
//
//verif:bounds an expression of 6 kinds in 0, 1, 4, 8 or 20 (thorough also 2, 3, 12) parentheses, one closing one too many or missing, between other elements, with 0, 1, 5 or 300 blanks or newlines or both around; texts over a b of length <= 3
//verif:expect reported language valid invalid
//verif:depth 60000
func C15_Wide() {
	compiler()
	t := []string{"a b", "a | b", "x:a", "a* b | R", "!a b", "(?a) R"}[sym.Choose("expression", 6)]
	n := []int{0, 1, 4, 8, 20, 2, 3, 12}[sym.Choose("parentheses", 5+deep(3))]
	w := []string{"", " ", "     ", "\n", strings.Repeat(" ", 300), " \n \n"}[sym.Choose("blanks", 6)]
	m := n
	switch sym.Choose("closing", 4) {
	case 0:
		m++
	case 1:
		if n == 0 {
			sym.Stop()
		}
		m--
	}
	t = strings.Repeat("("+w, n) + t + strings.Repeat(w+")", m)
	switch sym.Choose("around", 3) {
	case 0:
		t = "a" + w + " " + t
	case 1:
		t = w + t + w + "|" + w + "R" + w
	}
	read(t, 3)
}

// C26_Wide: the printed notation of repetitions with large bounds, of long
// literals, and of bodies of many elements.
//
//verif:bounds 'a'{m,n} with m, n of 0, 9, 10, 11, 99, 100 or none; a literal of 3, 21 or 100 letters; sequences and choices of 5 or 12 elements; texts made to fit, one shorter or longer, with any byte in place of the last
//verif:depth 60000
//verif:expect language value accepted
func C26_Wide() {
	compiler()
	var e *N
	s := ""
	switch sym.Choose("kind", 4) {
	case 0:
		m := []int{-1, 0, 9, 10, 11, 99, 100}[sym.Choose("min", 7)]
		n := []int{-1, 9, 10, 100}[sym.Choose("max", 4)]
		if n >= 0 && m > n || m < 0 && n < 0 {
			sym.Stop()
		}
		e = seq(lab("x", rep(lit("a"), m, n)), lab("y", opt(lit("b"))))
		k := m
		if sym.Bool("most") {
			k = n
		}
		if k < 0 {
			sym.Stop()
		}
		s = strings.Repeat("a", k+1)
	case 1:
		n := []int{3, 21, 100}[sym.Choose("length", 3)]
		s = strings.Repeat("abcdefghi", 12)[:n]
		e = lit(s)
	case 2:
		n := []int{5, 12}[sym.Choose("elements", 2)]
		var kids []*N
		for i := 0; i < n; i++ {
			kids = append(kids, lab("k"+strconv.Itoa(i), opt(lit(alphabet[i:i+1]))))
		}
		e = seq(kids...)
		s = alphabet[:n]
	case 3:
		n := []int{5, 12}[sym.Choose("elements", 2)]
		var kids []*N
		for i := 0; i < n; i++ {
			kids = append(kids, seq(lab("k"+strconv.Itoa(i), lit(alphabet[i:i+1]))))
		}
		e = alt(kids...)
		s = "a"
	}
	text := e.text(0)
	p := helpers.StripAnsi(compiler().Get().ParseString(text).String())
	gm := grammarOf("gm", joeson.O(joeson.Named("S", text)))
	back := grammarOf("gm", joeson.O(joeson.Named("S", p)))
	switch sym.Choose("size", 3) {
	case 1:
		s += "b"
	case 2:
		s = s[:len(s)-1]
	}
	if len(s) > 0 {
		s = s[:len(s)-1] + sym.StringN("last", 1)
	}
	x, y := gm.ParseString(s), back.ParseString(s)
	sym.Assert(outcome(x) == outcome(y), "language")
	if outcome(x) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(x) == canon(y), "value")
	}
}

// C28_Wide: maps of many labels, merged.
//
//verif:bounds three rules of 1, 4 or 12 labels each, every third label common to two of them, merged with @ or & in any combination in a sequence with one label before and one behind, or with an optional one in the midst; texts with any byte at one place
//verif:expect language value accepted
func C28_Wide() {
	compiler()
	n := []int{1, 4, 12}[sym.Choose("labels", 3)]
	a := []any{"S", nil}
	var kids []*N
	s := "a"
	kids = append(kids, lab("k0", class("a-c")))
	for i := 0; i < 3; i++ {
		name := "M" + strconv.Itoa(i)
		var l []*N
		for j := 0; j < n; j++ {
			k := "k" + strconv.Itoa(j)
			if j%3 != 0 {
				k = alphabet[i:i+1] + k
			}
			l = append(l, lab(k, class("a-c")))
			s += alphabet[(i+j)%3 : (i+j)%3+1]
		}
		a = append(a, name, seq(l...))
		e := ref(name)
		if i == 1 && sym.Bool("optional") {
			e = opt(e)
		}
		kids = append(kids, lab([]string{"@", "&", "m"}[sym.Choose("merge", 3)], e))
	}
	kids = append(kids, lab("k1", class("a-c")))
	a[1] = seq(kids...)
	g := rules("", a...)
	gm := g.compile()
	s, _, _ = altered(s+"a", 0, 1, 1+n, -1)
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(canon(res) == v.show(), "value")
	}
}

// C12_Many: many parses first.
//
//verif:bounds the grammars of C12_Twice; 2 to 5 or 40 parses first, of texts of one and two characters of the alphabet, all different, and the same text at every other of them; then any text of length <= 3
//verif:expect outcome value message accepted
func C12_Many() {
	compiler()
	g := pick(historical)
	fresh := g.build(nil)
	gm := g.build(nil)
	n := []int{2, 3, 4, 5, 40}[sym.Choose("parses", 5)]
	same := sym.Bool("same")
	for i := 0; i < n; i++ {
		k := len(g.alphabet)
		j := i
		if same && i%2 == 1 {
			j = 0
		}
		x := g.alphabet[j%k : j%k+1]
		if j >= k {
			x += g.alphabet[j/k%k : j/k%k+1]
		}
		gm.ParseString(x)
	}
	again(fresh, gm, sym.StringIn("in", 3, g.alphabet))
}

// C34_Many: many grammars from the same lines.
//
//verif:bounds the lines of C34_Same, used for 5 or 12 grammars in turn with a parse of each; then the first or the last against a grammar from lines of its own; texts over a b of length <= 3
//verif:expect rules printed outcome value message accepted
func C34_Many() {
	compiler()
	k := sym.Choose("lines", len(lineSets))
	n := []int{5, 12}[sym.Choose("grammars", 2)]
	fresh := buildOf(lineSets[k]())
	lines := lineSets[k]()
	var gms []*joeson.Grammar
	for i := 0; i < n; i++ {
		gms = append(gms, buildOf(lines))
		gms[i].ParseString("ab")
	}
	alike(fresh, gms[0])
	alike(fresh, gms[n-1])
	gm := gms[0]
	if sym.Bool("last") {
		gm = gms[n-1]
	}
	again(fresh, gm, sym.StringIn("in", 3, "ab"))
}

// manyRules puts n rules that are not used before and after those of g.
func manyRules(n int, g *R) (l []joeson.Line) {
	for i := 0; i < n; i++ {
		l = append(l, joeson.I(joeson.Named("Z"+strconv.Itoa(i), "'z'")))
	}
	l = append(l, g.lines(nil)...)
	return append(l, joeson.I(joeson.Named("Y", "S 'y'")))
}

// C08_Far: cycles among many rules.
//
//verif:bounds the grammars of C08_Cycles after 29, 31, 63 or 64 (thorough to 67, and 130) other rules; texts over their alphabet of length <= 3
//verif:expect language value accepted
//verif:depth 60000
func C08_Far() {
	compiler()
	n := []int{29, 31, 63, 64, 61, 62, 65, 66, 67, 130}[sym.Choose("others", 4+deep(6))]
	var g *R
	switch sym.Choose("grammar", 3) {
	case 0:
		g = rules("A B ", "S", seq(lab("x", ref("A")), lab("y", opt(lit("!")))), "A", alt(seq(lab("l", ref("B")), class("x")), class("a")), "B", alt(seq(lab("m", ref("A")), lit("y")), ref("A")))
	case 1:
		g = rules("A ", "S", ref("A"), "A", alt(seq(lab("l", ref("A")), lit("x"), lab("r", ref("B"))), ref("B")), "B", class("ab"))
	case 2:
		g = rules("A B C ", "S", ref("A"), "A", alt(seq(ref("B"), lit("x")), lit("a")), "B", ref("C"), "C", alt(seq(ref("A"), lit("y")), ref("A")))
	}
	gm := grammarOf("gm", manyRules(n, g)...)
	s := sym.StringIn("in", 3, "axy")
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, v), "value")
	}
}

// C06_Far: evaluations of one of many rules.
//
//verif:bounds S = R 'b' | R 'c' | !R | R | R 'd' with R = [a]* called back, after 0, 30 to 33 or 62 to 65 other rules; texts over a b c d of length <= 3
//verif:depth 60000
//verif:expect once
func C06_Far() {
	compiler()
	n := []int{0, 30, 31, 32, 33, 62, 63, 64, 65}[sym.Choose("others", 9)]
	calls := map[int]int{}
	l := manyRules(n, rules("", "S", ref("T")))
	l = append(l, joeson.I(joeson.Named("T", "(R 'b' | R 'c' | !R | R 'd' | R) T?")), joeson.I(joeson.Named("R", "[a]*"), func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast {
		calls[ctx.Code.Pos()]++
		return a
	}))
	gm := grammarOf("gm", l...)
	s := sym.StringIn("in", 3, "abcd")
	if len(s) == 0 || s[0] == 'a' {
		sym.Stop()
	}
	gm.ParseString("a" + s)
	sym.Assert(calls[1] == 1, "once")
}

// paged parses the page line by line.
func paged() *R {
	return rules("",
		"S", plus(ref("L"), nil),
		"L", alt(seq(lab("w", plus(ref("W"), ref("_"))), lab("e", opt(ref("E")))), seq(lab("e", ref("E")))),
		"W", seq(lab("k", &N{K: 'x', S: "[a-z0-9,.]+"})),
		"E", seq(lab("n", plus(class("\n"), nil))),
		"_", lit(" "))
}

// C10_Long: errors far into a text.
//
//verif:bounds a text of 15 lines and 115 bytes with any ASCII byte in place of every other one; a grammar of lines and words
//verif:depth 60000
//verif:expect after_the_prefix inside_the_text furthest_success line column error
func C10_Long() {
	compiler()
	at := sym.Choose("place", 58) * 2
	errorAt(paged(), page[:at]+sym.StringNIn("byte", 1, ascii)+page[at+1:])
}

// C29_Long: the origins of results far into a text.
//
//verif:bounds the text and the grammar of C10_Long, a letter, comma, blank or newline at any third place
//verif:depth 60000
//verif:expect span code line accepted
func C29_Long() {
	compiler()
	at := sym.Choose("place", 38) * 3
	g := paged()
	gm := g.compile()
	s := page[:at] + sym.StringNIn("byte", 1, "q, \n") + page[at+1:]
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		spans(res, v, s)
	}
}

// C17_Long: lines and columns in a page of text.
//
//verif:bounds a text of 15 lines and 115 bytes, any byte in place of one of 4; any position
//verif:expect line col cursor
func C17_Long() {
	text, _, _ := altered(page, 0, 20, 60, -1)
	p := sym.Choose("pos", len(text)+1)
	st := joeson.NewRuneStream(text)
	l, c := lineCol(text, p)
	sym.Assert(st.PosToLine(p) == l, "line")
	sym.Assert(st.PosToCol(p) == c, "col")
	st.SetPos(p)
	sym.Assert(st.Line() == l && st.Col() == c, "cursor")
}

// C16_Long: reading a page of text.
//
//verif:bounds a text of 15 lines and 115 bytes with any byte in place of one of 3, from one of 6 positions: a string of 1, 8, 30 or all the rest of the bytes of the original text; up to a string of one to three bytes out of it; one of 5 regular expressions, over several lines
//verif:expect string until regexp stays
func C16_Long() {
	text, _, _ := altered(page, 0, 20, 60)
	p := []int{0, 4, 19, 21, 60, 100}[sym.Choose("pos", 6)]
	st := stream(text)
	st.SetPos(p)
	rest := text[p:]
	switch sym.Choose("what", 3) {
	case 0:
		n := []int{1, 8, 30, len(page) - p}[sym.Choose("length", 4)]
		if p+n > len(page) {
			sym.Stop()
		}
		want := page[p : p+n]
		ok, got := st.MatchString(want)
		if rest[:n] != want {
			sym.Assert(!ok && st.Pos() == p, "string")
			return
		}
		sym.Assert(ok && got == want && st.Pos() == p+n, "string")
	case 1:
		delim := []string{"\n", "of", "one", "\n\n\n", "end", "11"}[sym.Choose("delim", 6)]
		got := st.GetUntil(delim)
		n := 0
		for i := 0; i+len(delim) <= len(rest); i++ {
			if rest[i:i+len(delim)] == delim {
				n = i + len(delim)
				break
			}
		}
		sym.Assert(got == rest[:n] && st.Pos() == p+n, "until")
	case 2:
		// what each regular expression matches: the longest text of these
		// characters, then the rest of it
		var re, in, then string
		switch sym.Choose("re", 5) {
		case 0:
			re, in = "[a-z]+", "a"
		case 1:
			re, in = `[a-z0-9,. \n]+`, "a0,. \n"
		case 2:
			re, in, then = `[a-z0-9,. \n]*end`, "a0,. \n", "end"
		case 3:
			re, in = `(?s).+`, "*"
		case 4:
			re, in, then = `(?m)[a-z ]*$`, "a ", "$"
		}
		n := 0
		for n < len(rest) {
			c := rest[n]
			ok := in == "*"
			for _, x := range []byte(in) {
				if x == 'a' {
					ok = sym.Or(ok, sym.And(c >= 'a', c <= 'z'))
				} else if x == '0' {
					ok = sym.Or(ok, sym.And(c >= '0', c <= '9'))
				} else {
					ok = sym.Or(ok, c == x)
				}
			}
			if !ok {
				break
			}
			n++
		}
		ok := n > 0
		switch then {
		case "end":
			ok = n == len(rest)
		case "$":
			// the lines of the page, altered at one place, end in letters, or there is no match
			ok = n == len(rest) || rest[n] == '\n'
		}
		did, got := st.MatchRegexp(*regexp.MustCompile(re))
		sym.Assert(did == ok, "regexp")
		if ok {
			sym.Assert(got == rest[:n] && st.Pos() == p+n, "regexp")
		} else {
			sym.Assert(st.Pos() == p, "stays")
		}
	}
}

// C27_Long: traces of a longer text.
//
//verif:bounds the grammar of C10_Long, the first 58 bytes of its text, or these after 20 lines of one letter, with a letter, an exclamation mark, newline or the byte 0xc3 in place of one of 3; any trace options with the line filter from -1 to 30
//verif:depth 60000
//verif:expect outcome value message accepted
func C27_Long() {
	compiler()
	g := paged()
	silent, gm := g.compile(), g.compile()
	gm.TraceOptions = &joeson.TraceOptions{Stack: sym.Bool("stack"), Loop: sym.Bool("loop"), Grammar: sym.Bool("grammar"), FilterLine: []int{-1, 0, 4, 20, 30}[sym.Choose("filter", 5)]}
	s := page[:58]
	at := []int{2, 30, 57}[sym.Choose("place", 3)]
	s = s[:at] + sym.StringNIn("byte", 1, "x!\n\xc3") + s[at+1:]
	if sym.Bool("far") {
		s = strings.Repeat("a\n", 20) + s
	}
	quietly(gm.ParseString(s), silent.ParseString(s))
}

// C20_Many: a text of many tokens.
//
//verif:bounds the grammar and the text of C10_Long with any ASCII byte in place of one of 4, cut into tokens of 1, 3 or 50 bytes, or into words and newlines with the blanks, or two bytes before each, in the original only
//verif:depth 60000
//verif:expect outcome value offset coordinates accepted refused
func C20_Many() {
	compiler()
	g := paged()
	gm := g.compile()
	at := []int{3, 20, 60, 100}[sym.Choose("place", 4)]
	s := page[:at] + sym.StringNIn("byte", 1, ascii) + page[at+1:]
	b := gm.ParseString(s)
	n := []int{1, 3, 50}[sym.Choose("size", 3)]
	junk := []string{"", "\n~"}[sym.Choose("junk", 2)]
	var toks []joeson.Token
	orig := ""
	origin := make([]int, len(s)+1)
	for i := 0; i < len(s); i += n {
		t := s[i:min(i+n, len(s))]
		orig += junk
		toks = append(toks, joeson.Token{Repr: t, OriginalOffset: len(orig), WorkOffset: i})
		for j := range []byte(t + "x") {
			origin[i+j] = len(orig) + j
		}
		orig += t
	}
	a := gm.ParseTokens(joeson.NewTokenStream(orig, toks))
	sym.Assert((a == nil) == (b == nil) && outcome(a) == outcome(b), "outcome")
	if outcome(b) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "value")
		return
	}
	if b == nil {
		return
	}
	sym.Cover("refused")
	pa, la, ca := position(a.(joeson.ParseError).ErrorString)
	pb, _, _ := position(b.(joeson.ParseError).ErrorString)
	sym.Assert(pa == pb, "offset")
	l, c := lineCol(orig, origin[pa])
	sym.Assert(la == l && ca == c, "coordinates")
}

// C05_Long: rules that skip the cache, in a longer text.
//
//verif:bounds the grammar and the text of C10_Long with any ASCII byte in place of one of 4, any one or two of its rules or all of them SkipCache; and the same for a backtracking expression of 40 characters
//verif:depth 60000
//verif:expect cache_outcome cache_value accepted
func C05_Long() {
	compiler()
	g := paged()
	s := page
	places := []int{3, 20, 60, 100}
	if sym.Bool("expression") {
		g = rules("", "S", alt(seq(lab("l", ref("T")), lit("+"), lab("r", ref("S"))), seq(ref("T"), lit("-"), ref("S")), ref("T")),
			"T", alt(seq(lit("("), lab("e", ref("S")), lit(")")), seq(lit("["), lab("e", ref("S")), lit("]")), ref("N")),
			"N", plus(class("0-9"), nil))
		s = "1+(23-[4+5]-6)+7-[(8)]+[9-10]-((11)+12)"
		places = []int{0, 2, 13, 38}
	}
	cached := g.compile()
	x, y := sym.Choose("one", len(g.Names)+1), sym.Choose("other", len(g.Names))
	fresh := grammarOf("gm", g.lines(func(i int) []any {
		if i == x || i == y || x == len(g.Names) {
			return []any{joeson.SkipCache{Bool: true}}
		}
		return nil
	})...)
	at := places[sym.Choose("place", 4)]
	s = s[:at] + sym.StringNIn("byte", 1, ascii) + s[at+1:]
	a, b := cached.ParseString(s), fresh.ParseString(s)
	sym.Assert(outcome(a) == outcome(b), "cache_outcome")
	if outcome(a) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "cache_value")
	} else {
		sym.Assert((a == nil) == (b == nil), "cache_outcome")
	}
}

// C11_Long: callbacks in a longer text.
//
//verif:bounds the grammar and the text of C10_Long with any ASCII byte in place of one of 4, the callback of any one of its rules wrapping the value, rejecting those that end on odd positions, or replacing it
//verif:depth 60000
//verif:expect language value accepted
func C11_Long() {
	compiler()
	g := paged()
	which, kind := sym.Choose("rule", len(g.Names)), 1+sym.Choose("callback", callbackKinds-1)
	sig := sym.Choose("signature", 2) + 1
	gm := grammarOf("gm", g.lines(func(i int) []any {
		if i != which {
			return nil
		}
		return []any{signed(sig, func(a joeson.Ast, ctx *joeson.ParseContext) joeson.Ast { return act(kind, a, ctx) })}
	})...)
	g.cb = func(name string, v *V, start, end int) *V {
		if name == g.Names[which] {
			return actV(kind, v, end)
		}
		return v
	}
	at := []int{3, 20, 60, 100}[sym.Choose("place", 4)]
	s := page[:at] + sym.StringNIn("byte", 1, ascii) + page[at+1:]
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, v), "value")
	}
}

// C09_Long: everything read is in the result of a longer text, too.
//
//verif:bounds three of the grammars of C09_Bytes; the text of C10_Long or 20 repeated multi-byte characters with any byte in place of one of 4
//verif:depth 60000
//verif:expect whole accepted
func C09_Long() {
	compiler()
	g := capturing[[]int{0, 2, 4}[sym.Choose("grammar", 3)]]
	s := page
	if sym.Bool("wide") {
		s = strings.Repeat("aé\n世", 20)
	}
	at := []int{0, 20, 60, 100}[sym.Choose("place", 4)]
	whole(g, s[:at]+sym.StringN("byte", 1)+s[at+1:])
}

// C07_Long: left recursion over a longer text.
//
//verif:bounds E = l:E o:[+-] r:T | T, T = l:T o:[*] r:F | F, F = '(' e:E ')' | k:[a-c]; texts of 1, 5, 20 or 40 operands with + - * in turn, in parentheses or not, any byte in place of one of 4
//verif:depth 60000
//verif:expect language value accepted
func C07_Long() {
	compiler()
	g := rules("E T ",
		"E", alt(seq(lab("l", ref("E")), lab("o", class("+-")), lab("r", ref("T"))), ref("T")),
		"T", alt(seq(lab("l", ref("T")), lab("o", class("*")), lab("r", ref("F"))), ref("F")),
		"F", alt(seq(lit("("), lab("e", ref("E")), lit(")")), lab("k", class("a-c"))))
	gm := g.compile()
	n := []int{1, 5, 20, 40}[sym.Choose("operands", 4)]
	s, paren := "a", sym.Bool("parentheses")
	for i := 1; i < n; i++ {
		s += "+*-*"[i%4:i%4+1] + "abc"[i%3:i%3+1]
		if paren && i%10 == 3 {
			s = "(" + s + ")"
		}
	}
	s, _, _ = altered(s, 0, len(s)/2, (len(s)-1)/2, -1)
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, v), "value")
	}
}

const program = "package p\n\nimport \"fmt\"\n\n// a comment\nvar s, t = `raw\n  text`, 'x'\n\nfunc f(a int) (r float64) {\n\tfor i := 0; i < 10; i++ { /* one\ntwo */\n\t\tif s[i] != '\\n' && a >= 0x1F { r += 1.5e-3 }\n\t}\n\treturn\n}\n"

// C21_Program: a program of 15 lines.
//
//verif:bounds a Go program of 200 bytes and 15 lines (comments, raw strings, numbers, operators, statements ended by newlines), any ASCII byte in place of one of 18
//verif:expect error tokens coordinates
func C21_Program() {
	at := []int{0, 9, 12, 18, 24, 32, 44, 50, 60, 61, 68, 71, 90, 100, 112, 130, 150, 170}[sym.Choose("place", 18)]
	goCode(program[:at] + sym.StringNIn("byte", 1, ascii) + program[at+1:])
}

// C33_Long: many operations on a lazy value.
//
//verif:bounds 7 (thorough 9) operations among Get, Set of an arbitrary integer, SetLazy and Clear on a value made from a function
//verif:expect value once set
func C33_Long() {
	calls := 0
	res := sym.Int("f", -100, 100)
	f := func() int { calls++; return res }
	z := helpers.LazyFromFunc(f)
	set, val, has := false, 0, true
	want := 0
	for i := 0; i < 7+deep(2); i++ {
		switch sym.Choose("op", 4) {
		case 0:
			if !set && !has {
				sym.Stop()
			}
			if !set {
				set, val = true, res
				want++
			}
			sym.Assert(z.Get() == val, "value")
		case 1:
			val, set = sym.Int("v", -100, 100), true
			z.Set(val)
		case 2:
			z.SetLazy(f)
			has = true
		case 3:
			z.Clear()
			set, has = false, false
		}
		sym.Assert(z.IsSet() == set, "set")
		sym.Assert(calls == want, "once")
	}
}

// C13_Long: long rule texts, wide ones, and deep ones.
//
//verif:bounds a word, a string, a class or a regexp of 3 or 70 letters; repetition limits of 1 to 9 digits; 5 or 18 alternatives or sequence elements, on one line or several; 2, 5 or 8 nested parentheses; one byte at one of 3 places being any of a 1 ' / ] ) } , | * : _ . space and newline
//verif:depth 60000
//verif:expect reported printed valid invalid
func C13_Long() {
	compiler()
	intentionGrammar()
	letters := strings.Repeat("abc", 24)
	digits := "123456789"
	t := ""
	switch sym.Choose("kind", 9) {
	case 0:
		t = letters[:[]int{3, 70}[sym.Choose("letters", 2)]] + " 'x'"
	case 1:
		t = "'" + letters[:[]int{3, 70}[sym.Choose("letters", 2)]] + "' x"
	case 2:
		t = "[" + letters[:[]int{3, 70}[sym.Choose("letters", 2)]] + "] x"
	case 3:
		t = "/" + letters[:[]int{3, 70}[sym.Choose("letters", 2)]] + "/ x"
	case 4:
		t = "a{" + digits[:1+sym.Choose("digits", 9)] + ",} x"
	case 5:
		t = "a*b{1," + digits[:1+sym.Choose("digits", 9)] + "}"
	case 6:
		n := []int{5, 18}[sym.Choose("elements", 2)]
		t = "a" + strings.Repeat([]string{" | a", "\n| b c", " | x:b"}[sym.Choose("form", 3)], n-1)
	case 7:
		n := []int{5, 18}[sym.Choose("elements", 2)]
		t = "a" + strings.Repeat([]string{" a", "\n  b*", " x:b"}[sym.Choose("form", 3)], n-1)
	case 8:
		n := []int{2, 5, 8}[sym.Choose("parentheses", 3)]
		t = strings.Repeat("(a ", n) + "b" + strings.Repeat(" c)", n)
	}
	at := []int{1, len(t) / 2, len(t) - 1}[sym.Choose("place", 3)]
	agree(t[:at] + sym.StringNIn("byte", 1, "a1'/])},|*:_. \n") + t[at+1:])
}

// C27_Deep: traces of nested rules as deep as the text.
//
//verif:bounds the grammar E ::= '(' E ')' | 'x' over 3, 70 or 300 parentheses, with either letter, a parenthesis or newline in the middle; any trace options
//verif:depth 60000
//verif:steps 400000000
//verif:expect outcome value message accepted
func C27_Deep() {
	compiler()
	g := rules("", "E", alt(seq(lit("("), lab("e", ref("E")), lit(")")), lit("x")))
	silent, gm := g.compile(), g.compile()
	gm.TraceOptions = &joeson.TraceOptions{Stack: sym.Bool("stack"), Loop: sym.Bool("loop"), Grammar: sym.Bool("grammar"), FilterLine: []int{-1, 0, 1}[sym.Choose("filter", 3)]}
	n := []int{3, 70, 300}[sym.Choose("parentheses", 3)]
	s := strings.Repeat("(", n) + sym.StringNIn("byte", 1, "xy)\n") + strings.Repeat(")", n)
	quietly(gm.ParseString(s), silent.ParseString(s))
}
