package harness

import (
	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	"verif/sym"
)

// ---- C26 ----

// C26_Colours: stripping colours gives the text back.
//
//verif:bounds any two texts of any bytes but ESC, CSI and BEL of lengths <= 2 and <= 1 (thorough 3 and 2), each in any of 16 colours or none, side by side or nested
//verif:expect plain coloured
func C26_Colours() {
	s, t := sym.String("s", 2+deep(1)), sym.String("t", 1+deep(1))
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(sym.And(s[i] != 0x1b, s[i] != 7), sym.And(s[i] != 0xc2, s[i] != 0x9b)))
	}
	for i := 0; i < len(t); i++ {
		sym.Assume(sym.And(sym.And(t[i] != 0x1b, t[i] != 7), sym.And(t[i] != 0xc2, t[i] != 0x9b)))
	}
	colours := []func(string) string{
		joeson.Black, joeson.Red, joeson.Green, joeson.Yellow, joeson.Blue, joeson.Magenta, joeson.Cyan, joeson.White,
		joeson.BoldBlack, joeson.BoldRed, joeson.BoldGreen, joeson.BoldYellow, joeson.BoldBlue, joeson.BoldMagenta, joeson.BoldCyan, joeson.BoldWhite,
	}
	k := sym.Choose("colour", len(colours)+1)
	if k == len(colours) {
		sym.Assert(helpers.StripAnsi(s+t) == s+t, "plain")
		return
	}
	c := colours[k]
	sym.Assert(helpers.StripAnsi(s+c(t)) == s+t, "coloured")
	sym.Assert(helpers.StripAnsi(c(s+joeson.Red(t)+"e")) == s+t+"e", "coloured")
}

// genPrintable makes an expression in which no prefix or postfix operator
// stands directly on another.
func genPrintable(depth int, operand bool) *N {
	k := 0
	if depth > 0 {
		k = sym.Choose("op", 10)
	}
	if operand && k > 2 {
		sym.Stop()
	}
	switch k {
	case 0:
		switch sym.Choose("leaf", 4) {
		case 0:
			return lit("a")
		case 1:
			return lit("b,")
		case 2:
			return ref("R")
		}
		return ref("_r")
	case 1:
		return seq(genPrintable(depth-1, false), genPrintable(depth-1, false))
	case 2:
		return alt(genPrintable(depth-1, false), genPrintable(depth-1, false))
	case 3:
		return star(genPrintable(depth-1, true), nil)
	case 4:
		return plus(genPrintable(depth-1, true), nil)
	case 5:
		return opt(genPrintable(depth-1, true))
	case 6:
		return not(genPrintable(depth-1, true))
	case 7:
		return look(genPrintable(depth-1, false))
	case 8:
		m, n := minMax()
		return rep(genPrintable(depth-1, true), m, n)
	}
	return star(genPrintable(depth-1, true), genPrintable(0, true))
}

func printed(e *N, max int) {
	text := e.text(0)
	p := helpers.StripAnsi(compiler().Get().ParseString(text).String())
	r, _r := joeson.I(joeson.Named("R", "'a' [b]*")), joeson.I(joeson.Named("_r", "[a-b]"))
	gm := grammarOf("gm", joeson.O(joeson.Named("S", text)), r, _r)
	back := grammarOf("gm", joeson.O(joeson.Named("S", p)), r, _r)
	s := sym.StringIn("in", max, "ab,")
	x, y := gm.ParseString(s), back.ParseString(s)
	sym.Assert(outcome(x) == outcome(y), "language")
	if outcome(x) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(x) == canon(y), "value")
	}
}

// C26_Printed: the printed notation of a rule compiles back to it.
//
//verif:bounds all expressions of depth <= 1 over two literals and two references, and those with one more level in a sequence or choice (thorough: depth <= 2); texts over a b , of length <= 3
//verif:expect language value accepted
func C26_Printed() {
	compiler()
	if sym.Thorough() {
		printed(genPrintable(2, false), 3)
		return
	}
	e := genPrintable(1, false)
	switch sym.Choose("in", 4) {
	case 1:
		e = seq(e, ref("R"))
	case 2:
		e = alt(lit("b,"), e)
	case 3:
		e = seq(lit("a"), alt(ref("R"), e))
	}
	printed(e, 3)
}

// C26_Literals: literals of any printable characters.
//
//verif:bounds literals of any printable ASCII characters, length <= 3; texts of ASCII characters of length <= 4
//verif:expect language accepted
func C26_Literals() {
	compiler()
	x := sym.StringIn("literal", 3, ascii)
	sym.Assume(len(x) > 0)
	src := ""
	for i := 0; i < len(x); i++ {
		sym.Assume(sym.And(x[i] >= ' ', x[i] < 127))
		if sym.Or(x[i] == '\\', x[i] == '\'') {
			src += "\\"
		}
		src += x[i : i+1]
	}
	p := helpers.StripAnsi(compiler().Get().ParseString("'" + src + "'").String())
	back := grammarOf("gm", joeson.O(joeson.Named("S", p)))
	s := sym.StringIn("in", 4, ascii)
	res := back.ParseString(s)
	sym.Assert((outcome(res) == accepted) == (s == x), "language")
	if outcome(res) == accepted {
		sym.Cover("accepted")
	}
}
