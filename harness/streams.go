package harness

import (
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// deep is n in the thorough tier.
func deep(n int) int {
	if sym.Thorough() {
		return n
	}
	return 0
}

// panics tells whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			stopped(r)
			p = true
		}
	}()
	f()
	return false
}

// stopped passes on what ends a native case.
func stopped(r any) {
	if s, ok := r.(sym.Stopped); ok {
		panic(s)
	}
}

// stream makes a stream of either kind over text.
func stream(text string) joeson.CodeStream {
	switch sym.Choose("stream", 2) {
	case 0:
		return joeson.NewRuneStream(text)
	}
	// the tokens of an original text with blanks between them
	k := sym.Choose("cut", len(text)+1)
	orig := text[:k] + " " + text[k:]
	toks := []joeson.Token{{Repr: text[:k], OriginalOffset: 0, WorkOffset: 0}, {Repr: text[k:], OriginalOffset: k + 1, WorkOffset: k}}
	return joeson.NewTokenStream(orig, toks)
}

// C16_String: MatchString on any text, position and needle.
//
//verif:bounds text: any bytes, length <= 3 (thorough 4); needle: any bytes, length <= 2 (thorough 3); position: any; both kinds of stream (token streams cut anywhere)
//verif:expect match text moves stays
func C16_String() {
	text := sym.String("text", 3+deep(1))
	needle := sym.String("needle", 2+deep(1))
	pos := sym.Choose("pos", len(text)+1)
	st := stream(text)
	st.SetPos(pos)
	ok, m := st.MatchString(needle)
	want := strings.HasPrefix(text[pos:], needle)
	sym.Assert(ok == want, "match")
	if ok {
		sym.Assert(m == needle, "text")
		sym.Assert(st.Pos() == pos+len(needle), "moves")
	} else {
		sym.Assert(st.Pos() == pos, "stays")
	}
}

// C16_Rune: MatchRune with an arbitrary threshold predicate.
//
//verif:bounds text: any bytes, length <= 4; position: any rune boundary or not; predicate: rune >= an arbitrary rune in 0..0x10FFFF; both kinds of stream
//verif:expect match rune moves stays end
func C16_Rune() {
	text := sym.String("text", 4)
	pos := sym.Choose("pos", len(text)+1)
	st := stream(text)
	st.SetPos(pos)
	least := rune(sym.Int("least", 0, 0x10FFFF))
	calls := 0
	ok, m := st.MatchRune(func(r rune) bool { calls++; return r >= least })
	if pos == len(text) {
		sym.Assert(!ok && st.Pos() == pos && calls == 0, "end")
		return
	}
	r, w := utf8.DecodeRuneInString(text[pos:])
	sym.Assert(ok == (r >= least), "match")
	if ok {
		sym.Assert(m == r, "rune")
		sym.Assert(st.Pos() == pos+w, "moves")
	} else {
		sym.Assert(st.Pos() == pos, "stays")
	}
}

// C16_Regexp: MatchRegexp matches at the position only.
//
//verif:bounds text: any bytes, length <= 3 (thorough 4); position: any; regexps a+, (ab)*, b?c, [^a], a|ab, (?i)x, \n, $, ..; both kinds of stream
//verif:expect match text moves stays
func C16_Regexp() {
	text := sym.String("text", 3+deep(1))
	pos := sym.Choose("pos", len(text)+1)
	st := stream(text)
	st.SetPos(pos)
	rest := text[pos:]
	var re string
	n := -1 // length of the match
	has := func(i int, c byte) bool { return i < len(rest) && rest[i] == c }
	switch sym.Choose("re", 7) {
	case 0:
		re = "a+"
		for i := 0; has(i, 'a'); i++ {
			n = i + 1
		}
	case 1:
		re = "(ab)*"
		n = 0
		for has(n, 'a') && has(n+1, 'b') {
			n += 2
		}
	case 2:
		re = "b?c"
		if has(0, 'c') {
			n = 1
		} else if has(0, 'b') && has(1, 'c') {
			n = 2
		}
	case 3:
		re = "[^a]"
		if len(rest) > 0 && rest[0] != 'a' {
			_, n = utf8.DecodeRuneInString(rest)
		}
	case 4:
		re = "a|ab"
		if has(0, 'a') {
			n = 1
		}
	case 5:
		re = "\n"
		if has(0, '\n') {
			n = 1
		}
	case 6:
		re = "[x-z]{2,3}"
		in := func(i int) bool { return i < len(rest) && sym.And(rest[i] >= 'x', rest[i] <= 'z') }
		if in(0) && in(1) {
			n = 2
			if in(2) {
				n = 3
			}
		}
	}
	ok, m := st.MatchRegexp(*regexp.MustCompile(re))
	sym.Assert(ok == (n >= 0), "match")
	if ok {
		sym.Assert(m == rest[:n], "text")
		sym.Assert(st.Pos() == pos+n, "moves")
	} else {
		sym.Assert(st.Pos() == pos, "stays")
	}
}

// C16_Until: GetUntil reads through the first occurrence, or nothing.
//
//verif:bounds text: any bytes, length <= 3 (thorough 4); delimiter: any bytes, length 1..2; position: any; both kinds of stream
//verif:expect found unfound moves stays
func C16_Until() {
	text := sym.String("text", 3+deep(1))
	pos := sym.Choose("pos", len(text)+1)
	n := 1 + sym.Choose("delim.len", 2)
	delim := sym.StringN("delim", n)
	st := stream(text)
	st.SetPos(pos)
	got := st.GetUntil(delim)
	for i := pos; i+n <= len(text); i++ {
		if text[i:i+n] == delim {
			sym.Assert(got == text[pos:i+n], "found")
			sym.Assert(st.Pos() == i+n, "moves")
			return
		}
	}
	sym.Assert(got == "", "unfound")
	sym.Assert(st.Pos() == pos, "stays")
}

// C16_SetPos: positions outside the text are refused, those inside are kept.
//
//verif:bounds text: any bytes, length <= 2; position: any integer in -4..8 or one of the two at either end of int; both kinds of stream
//verif:expect outside unchanged inside
func C16_SetPos() {
	text := sym.String("text", 2)
	st := stream(text)
	p0 := sym.Choose("before", len(text)+1)
	st.SetPos(p0)
	n := sym.Int("n", -4, 8)
	if i := sym.Choose("extreme", 5); i > 0 {
		n = []int{math.MinInt, math.MinInt + 1, math.MaxInt - 1, math.MaxInt}[i-1]
	}
	p := panics(func() { st.SetPos(n) })
	if sym.Or(n < 0, n > len(text)) {
		sym.Assert(p, "outside")
		sym.Assert(st.Pos() == p0, "unchanged")
	} else {
		sym.Assert(!p && st.Pos() == n, "inside")
	}
}

// C16_Two: two operations in a row; a failed one leaves no trace.
//
//verif:bounds text: any bytes, length <= 3; two operations, each MatchString of an arbitrary byte, MatchRune of an arbitrary ASCII byte, MatchRegexp [^a]b? or GetUntil of an arbitrary byte; both kinds of stream
//verif:expect pos
func C16_Two() {
	text := sym.String("text", 3)
	st := stream(text)
	pos := 0
	for i := 0; i < 2; i++ {
		rest := text[pos:]
		c := sym.Byte("c")
		adv := 0
		switch sym.Choose("op", 4) {
		case 0:
			st.MatchString(string([]byte{c}))
			if len(rest) > 0 && rest[0] == c {
				adv = 1
			}
		case 1:
			sym.Assume(c < 0x80)
			st.MatchRune(func(r rune) bool { return r == rune(c) })
			if len(rest) > 0 && rest[0] == c {
				adv = 1
			}
		case 2:
			st.MatchRegexp(*regexp.MustCompile("[^a]b?"))
			if len(rest) > 0 && rest[0] != 'a' {
				_, adv = utf8.DecodeRuneInString(rest)
				if adv < len(rest) && rest[adv] == 'b' {
					adv++
				}
			}
		case 3:
			st.GetUntil(string([]byte{c}))
			for k := 0; k < len(rest); k++ {
				if rest[k] == c {
					adv = k + 1
					break
				}
			}
		}
		pos += adv
		sym.Assert(st.Pos() == pos, "pos")
	}
}

// lineCol is the specification of positions.
func lineCol(text string, pos int) (line, col int) {
	for i := 0; i < pos; i++ {
		nl := text[i] == '\n'
		line = sym.IteInt(nl, line+1, line)
		col = sym.IteInt(nl, 0, col+1)
	}
	return
}

// C17_LineCol: PosToLine and PosToCol count newlines.
//
//verif:bounds text: any ASCII text of length <= 9 (thorough 12); position: any, up to the end of the text
//verif:expect line col cursor-line cursor-col
func C17_LineCol() {
	lineCols(sym.StringIn("text", 9+deep(3), ascii))
}

// C17_Bytes: the same for texts of arbitrary bytes.
//
//verif:bounds text: any bytes, length <= 4 (thorough 5); position: any, up to the end of the text
//verif:expect line col cursor-line cursor-col
func C17_Bytes() {
	lineCols(sym.String("text", 4+deep(1)))
}

func lineCols(text string) {
	pos := sym.Choose("pos", len(text)+1)
	st := joeson.NewRuneStream(text)
	line, col := lineCol(text, pos)
	sym.Assert(st.PosToLine(pos) == line, "line")
	sym.Assert(st.PosToCol(pos) == col, "col")
	st.SetPos(pos)
	sym.Assert(st.Line() == line, "cursor-line")
	sym.Assert(st.Col() == col, "cursor-col")
	sym.Assert(st.Code() == text, "code")
	sym.Assert(st.Length() == len(text), "length")
}

// C17_Monotone: a later position never has a smaller line, nor a smaller
// column on the same line.
//
//verif:bounds text: any bytes, length <= 4 (thorough 5); any two positions
//verif:expect line col
func C17_Monotone() {
	text := sym.String("text", 4+deep(1))
	p := sym.Choose("p", len(text)+1)
	q := p + sym.Choose("q", len(text)+1-p)
	st := joeson.NewRuneStream(text)
	lp, lq := st.PosToLine(p), st.PosToLine(q)
	sym.Assert(lp <= lq, "line")
	if lp == lq {
		sym.Assert(st.PosToCol(p)+(q-p) == st.PosToCol(q), "col")
	}
}

// C18_Lines: PeekLines gives the lines of the range that exist.
//
//verif:bounds text: any ASCII text of length <= 4 (thorough 5); position: any; zero to two arguments, any integers; rune streams, and token streams cut at one place
//verif:expect lines stays
func C18_Lines() {
	text := sym.StringIn("text", 4+deep(1), ascii)
	k := len(text) / 2
	st := joeson.NewRuneStream(text)
	if sym.Choose("stream", 2) == 1 {
		st = joeson.NewTokenStream(text, []joeson.Token{{Repr: text[:k]}, {Repr: text[k:], OriginalOffset: k, WorkOffset: k}})
	}
	pos := sym.Choose("pos", len(text)+1)
	st.SetPos(pos)
	peekLines(st, text, sym.Choose("args", 3))
	sym.Assert(st.Pos() == pos, "stays")
}

// C18_Three: three arguments.
//
//verif:bounds text: three lines of one byte (any but newline); cursor on any; three arguments, any integers
//verif:expect lines
func C18_Three() {
	text := sym.StringNIn("a", 1, asciiNNL) + "\n" + sym.StringNIn("b", 1, asciiNNL) + "\n" + sym.StringNIn("c", 1, asciiNNL)
	st := joeson.NewRuneStream(text)
	st.SetPos(2 * sym.Choose("line", 3))
	peekLines(st, text, 3)
}

func peekLines(st joeson.CodeStream, orig string, k int) {
	cur := st.Line()
	a := []int{}
	for i := 0; i < k; i++ {
		a = append(a, sym.Int("n", math.MinInt, math.MaxInt))
	}
	got := st.PeekLines(a...)
	lo, hi := 0, 0 // relative to the cursor's line
	for i, n := range a {
		if i == 0 && k > 1 {
			lo, hi = n, n
			continue
		}
		lo = sym.IteInt(n < lo, n, lo)
		hi = sym.IteInt(n > hi, n, hi)
	}
	var want []string
	for i, l := range strings.Split(orig, "\n") {
		if i-cur >= lo && i-cur <= hi {
			want = append(want, l)
		}
	}
	sym.Assert(got == strings.Join(want, "\n"), "lines")
}

// C18_Runes: PeekRunes forward and backward on UTF-8 text.
//
//verif:bounds text: up to 3 runes, each any ASCII byte or one of é 世 🙂 U+FFFD; position: any rune boundary; argument: any integer; both kinds of stream
//verif:expect forward backward stays
func C18_Runes() {
	k := sym.Choose("runes", 4)
	text := ""
	at := []int{0}
	for i := 0; i < k; i++ {
		switch sym.Choose("rune", 5) {
		case 0:
			text += sym.StringNIn("c", 1, ascii)
		case 1:
			text += "é"
		case 2:
			text += "世"
		case 3:
			text += "🙂"
		case 4:
			text += "\uFFFD"
		}
		at = append(at, len(text))
	}
	st := joeson.CodeStream(joeson.NewRuneStream(text))
	if sym.Choose("stream", 2) == 1 {
		c := at[k/2]
		st = joeson.NewTokenStream(text[:c]+" "+text[c:], []joeson.Token{{Repr: text[:c]}, {Repr: text[c:], OriginalOffset: c + 1, WorkOffset: c}})
	}
	i := sym.Choose("pos", k+1)
	st.SetPos(at[i])
	n := sym.Int("n", math.MinInt, math.MaxInt)
	got := st.PeekRunes(n)
	if n > 0 {
		j := k
		if n < k-i {
			j = i + n
		}
		sym.Assert(got == text[at[i]:at[j]], "forward")
	} else {
		j := i + n
		if j < 0 {
			j = 0
		}
		sym.Assert(got == text[at[j]:at[i]], "backward")
	}
	sym.Assert(st.Pos() == at[i], "stays")
}

// C18_Any: no peek panics or moves, whatever the bytes.
//
//verif:bounds text: any bytes, length <= 2 (thorough 3); position: any; any integers as arguments; both kinds of stream; Print too, and PrintDebug for length <= 1
//verif:expect stays
func C18_Any() {
	text := sym.String("text", 2+deep(1))
	st := stream(text)
	pos := sym.Choose("pos", len(text)+1)
	st.SetPos(pos)
	switch sym.Choose("what", 4) {
	case 0:
		st.PeekRunes(sym.Int("n", math.MinInt, math.MaxInt))
	case 1:
		st.PeekLines(sym.Int("n", math.MinInt, math.MaxInt), sym.Int("m", math.MinInt, math.MaxInt))
	case 2:
		st.Print()
	case 3:
		sym.Assume(len(text) <= 1)
		st.PrintDebug()
	}
	sym.Assert(st.Pos() == pos, "stays")
}

// C19_Coords: coordinates inside tokens are those of the original text.
//
//verif:bounds original text: any ASCII text of length 1..6 (thorough 8); up to three non-empty tokens cut out of it in order, anywhere; every position inside a token, at first or after any other has been looked up
//verif:expect line col
func C19_Coords() {
	n := 1 + sym.Choose("len", 6+deep(2))
	orig := sym.StringNIn("orig", n, ascii)
	k := 1 + sym.Choose("tokens", 3)
	var toks []joeson.Token
	from, work := 0, 0
	var at []int // original offset of each byte of the work text
	for i := 0; i < k; i++ {
		if from >= n {
			sym.Stop()
		}
		s := from + sym.Choose("skip", n-from)
		l := 1 + sym.Choose("size", n-s)
		toks = append(toks, joeson.Token{Repr: orig[s : s+l], OriginalOffset: s, WorkOffset: work})
		for j := 0; j < l; j++ {
			at = append(at, s+j)
		}
		work += l
		from = s + l
	}
	ts := joeson.NewTokenStream(orig, toks)
	p := sym.Choose("pos", len(at))
	if sym.Bool("earlier") {
		// a lookup leaves no trace
		q := sym.Choose("earlier pos", len(at))
		_, col := lineCol(orig, at[q])
		sym.Assert(ts.PosToCol(q) == col, "col")
	}
	line, col := lineCol(orig, at[p])
	sym.Assert(ts.PosToLine(p) == line, "line")
	sym.Assert(ts.PosToCol(p) == col, "col")
	ts.SetPos(p)
	sym.Assert(ts.Line() == line && ts.Col() == col, "cursor")
	sym.Assert(ts.Code() == orig, "code")
}

// plain drops the colours.
func plain(s string) string {
	r := ""
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b {
			r += s[from:i]
			for s[i] != 'm' {
				i++
			}
			from = i + 1
		}
	}
	return r + s[from:]
}

// C18_Print: the one-line rendering of a stream, and of an error.
//
//verif:bounds texts of 0 to 70 letters (10 lengths), the first and last on either side of the position any; every position; rune stream, token stream of one token at an offset of 0 to 2, and the ParseError where that position is the end of what was parsed
//verif:expect shown
func C18_Print() {
	compiler()
	n := [...]int{0, 1, 2, 19, 20, 21, 40, 41, 61, 70}[sym.Choose("len", 10)]
	pos := sym.Choose("pos", n+1)
	text := ""
	for i := 0; i < n; i++ {
		if i == pos-20 || i == pos-1 || i == pos || i == pos+39 {
			text += sym.StringNIn("text", 1, "abcdefghijklmnopqrstuvwxyz")
		} else {
			text += string(rune('a' + i%26))
		}
	}
	end := n
	got := ""
	switch sym.Choose("of", 3) {
	case 0:
		st := joeson.NewRuneStream(text)
		st.SetPos(pos)
		got = plain(st.Print())
	case 1:
		off := sym.Choose("offset", 3)
		if n == 0 || pos == n {
			sym.Stop()
		}
		text = "   "[:off] + text
		st := joeson.NewTokenStream(text, []joeson.Token{{Repr: text[off:], OriginalOffset: off, WorkOffset: 0}})
		st.SetPos(pos)
		got = plain(st.Print())
		pos, end = pos+off, n+off
	case 2:
		if pos == n || n > 21 {
			sym.Stop()
		}
		gm := grammarOf("gm", joeson.O(joeson.Named("S", "/.{"+strconv.Itoa(pos)+"}/")))
		res := gm.ParseString(text)
		sym.Assert(joeson.IsParseError(res), "error")
		msg := plain(res.(joeson.ParseError).ErrorString)
		i := strings.Index(msg, "\n") + 1
		got = msg[i : i+strings.IndexByte(msg[i:], '\n')]
	}
	from := 0
	if pos > 20 {
		from = pos - 20
	}
	if end > pos+40 {
		end = pos + 40
	}
	want := "Code at offset " + strconv.Itoa(pos) + "/" + strconv.Itoa(len(text)) + ": '" + text[from:pos] + "|" + text[pos:end] + "'"
	sym.Assert(got == want, "shown")
}
