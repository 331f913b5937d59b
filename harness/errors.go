package harness

import (
	"strings"

	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// leaves is the text of all strings in a result, in order.
func leaves(a joeson.Ast) string {
	switch x := a.(type) {
	case joeson.NativeString:
		return string(x)
	case *joeson.NativeArray:
		s := ""
		for i := 0; i < x.Length(); i++ {
			s += leaves(x.Get(i))
		}
		return s
	case *joeson.NativeMap:
		s := ""
		for _, k := range x.Keys() {
			y, _ := x.GetExists(k)
			s += leaves(y)
		}
		return s
	}
	return ""
}

// ---- C09 ----

// grammars in which every character read is captured
var capturing = []*G{
	{"", [][2]string{{"S", `([a-c] | [^a-c] [\n])*`}}},
	{"", [][2]string{
		{"E", "E [+] T | T"},
		{"T", `[\(] E [\)] | [^+\(\)]`}}},
	{"", [][2]string{
		{"S", "L R*"},
		{"R", "N L"},
		{"L", `/[^\n]*/`},
		{"N", `[\n]`}}},
	{"", [][2]string{
		{"S", "P+"},
		{"P", `/(?s)../ | !([é] P) /(?s)./`}}},
	{"", [][2]string{
		{"S", "x:[a]? y:T z:S?"},
		{"T", `(?[^a]) [^\n]{1,2} | [\n]`}}},
	{"", [][2]string{
		{"A", `B [\x00-\x1f] | [^\x00]`},
		{"B", "A [^a]{,2} | 'ab'?"}}},
	{"", [][2]string{
		{"S", `(A | B)+`},
		{"A", `a:/[a-z]+/ b:C`},
		{"B", `a:/[0-9]+/ b:C?`},
		{"C", `/[ \n]*/ | [\xff]`}}},
	{"", [][2]string{
		{"S", "(!W X)* W?"},
		{"W", `/(?i)if|É/`},
		{"X", `/(?s)^./`}}},
}

func whole(g *G, s string) {
	gm := g.build(nil)
	res := gm.ParseString(s)
	if outcome(res) == accepted {
		sym.Cover("accepted")
		sym.Assert(leaves(res) == s, "whole")
		res.String()
		return
	}
	sym.Cover("refused")
	if res != nil {
		sym.Assert(res.(joeson.ParseError).ErrorString != "", "message")
		res.String()
	}
}

// C09_Bytes: any bytes.
//
//verif:bounds 8 grammars over every operator, classes, regexps, left recursion; texts: all byte strings of length <= 3 (thorough 4)
//verif:expect whole accepted refused
func C09_Bytes() {
	compiler()
	whole(pick(capturing), sym.String("in", 3+deep(1)))
}

// C09_Mixed: longer texts of special characters.
//
//verif:bounds the same grammars; texts of length <= 5 (thorough 6) over a + ( newline, the two bytes of é, 0xff, NUL
//verif:expect whole accepted refused
func C09_Mixed() {
	compiler()
	whole(pick(capturing), sym.StringIn("in", 5+deep(1), "a+(\n\xc3\xa9\xff\x00"))
}

// C09_Tokens: a token stream of arbitrary pieces ends likewise.
//
//verif:bounds the same grammars; token streams of one or two tokens of <= 2 characters each over a b + ( newline é 0xff NUL
//verif:expect accepted refused
func C09_Tokens() {
	compiler()
	g := pick(capturing)
	gm := g.build(nil)
	a := sym.StringNIn("a", 1+sym.Choose("a.len", 2), "a+(\n\xc3\xa9\xff\x00")
	b := sym.StringNIn("b", sym.Choose("b.len", 3), "a+\n\xc3")
	toks := []joeson.Token{{Repr: a, OriginalOffset: 0, WorkOffset: 0}}
	if len(b) > 0 {
		toks = append(toks, joeson.Token{Repr: b, OriginalOffset: len(a), WorkOffset: len(a)})
	}
	res := gm.ParseTokens(joeson.NewTokenStream(a+b, toks))
	if outcome(res) == accepted {
		sym.Cover("accepted")
		sym.Assert(leaves(res) == a+b, "whole")
		return
	}
	sym.Cover("refused")
}

// ---- C10 ----

// position reads the offset, line and column out of an error message.
func position(msg string) (pos, line, col int) {
	const head = "Error parsing at char:"
	sym.Assert(strings.HasPrefix(msg, head), "form")
	i := len(head)
	number := func() (n int) {
		for i < len(msg) && msg[i] >= '0' && msg[i] <= '9' {
			n = n*10 + int(msg[i]-'0')
			i++
		}
		return n
	}
	skip := func(s string) {
		sym.Assert(strings.HasPrefix(msg[i:], s), "form")
		i += len(s)
	}
	pos = number()
	skip("=(line:")
	line = number()
	skip(",col:")
	col = number()
	skip(").")
	return
}

// errorAt has the furthest success of g computed by the reference.
func errorAt(g *R, s string) {
	gm := g.compile()
	res := gm.ParseString(s)
	if res == nil || !joeson.IsParseError(res) {
		return
	}
	sym.Cover("error")
	pos, line, col := position(res.(joeson.ParseError).ErrorString)
	end, _ := g.eval(ref(g.Names[0]), s, 0)
	if end < 0 {
		end = 0
	}
	sym.Assert(end <= pos, "after_the_prefix")
	sym.Assert(pos <= len(s), "inside_the_text")
	sym.Assert(pos == max(end, g.far), "furthest_success")
	l, c := lineCol(s, pos)
	sym.Assert(line == l, "line")
	sym.Assert(col == c, "column")
}

// C10_Position: where errors are reported.
//
//verif:bounds 7 multi-line grammars (lists, nesting, predicates, failing after long prefixes, rules that match the empty text); texts over their alphabets with newline of length <= 6 (thorough 8)
//verif:expect after_the_prefix inside_the_text furthest_success line column error
func C10_Position() {
	compiler()
	nl := class("\n")
	word := plus(class("ab"), nil)
	var g *R
	switch sym.Choose("grammar", 7) {
	case 0:
		g = rules("", "S", seq(ref("L"), star(seq(nl, ref("L")), nil)), "L", seq(ref("W"), star(seq(lit(","), ref("W")), nil)), "W", word)
	case 1:
		g = rules("", "S", star(ref("P"), nil), "P", alt(seq(lit("("), star(ref("P"), nil), lit(")")), class("a"), nl))
	case 2:
		g = rules("", "S", alt(seq(ref("X"), lit(")")), seq(ref("X"), ref("Y")), ref("X")), "X", plus(class("a"), nil), "Y", seq(nl, ref("X"), lit(",")))
	case 3:
		g = rules("", "S", star(seq(not(ref("K")), ref("C")), nil), "K", seq(class("a"), class("b"), ref("C")), "C", alt(class("ab"), nl))
	case 4:
		g = rules("", "S", alt(seq(ref("W"), ref("E"), lit("(")), class("a")), "W", word, "E", opt(lit(",")))
	case 5:
		g = rules("", "S", alt(seq(ref("L"), ref("E"), ref("E"), lit(")")), seq(class("a"), ref("F"))), "L", star(ref("C"), nil), "C", alt(class("ab"), nl), "E", star(lit(","), nil), "F", not(ref("C")))
	default:
		g = rules("", "S", seq(opt(ref("A")), lit("(")), "A", seq(ref("B"), opt(ref("A"))), "B", alt(seq(ref("D"), ref("D"), lit(",")), seq(nl, ref("D"))), "D", class("ab"))
	}
	errorAt(g, sym.StringIn("in", 6+deep(2), "a(,)\nb"))
}

// C10_Any: messages can be built whatever the text.
//
//verif:bounds 8 grammars over every operator; texts of length <= 4 (thorough 5) over a + ( newline, the bytes of é, 0xff, NUL
//verif:expect inside_the_text line column error
func C10_Any() {
	compiler()
	gm := pick(capturing).build(nil)
	s := sym.StringIn("in", 4+deep(1), "a+(\n\xc3\xa9\xff\x00")
	res := gm.ParseString(s)
	if res == nil || !joeson.IsParseError(res) {
		return
	}
	sym.Cover("error")
	pos, line, col := position(res.(joeson.ParseError).ErrorString)
	sym.Assert(0 <= pos && pos <= len(s), "inside_the_text")
	l, c := lineCol(s, pos)
	sym.Assert(line == l, "line")
	sym.Assert(col == c, "column")
}
