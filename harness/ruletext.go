package harness

import (
	"regexp"
	"strconv"

	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C14 ----

// C14_Literal: any characters between quotes.
//
//verif:bounds rule texts 'x' with x any ASCII text of length <= 3; texts: all ASCII strings of length <= 4
//verif:expect reported language valid invalid
func C14_Literal() {
	compiler()
	x := sym.StringIn("literal", 3, ascii)
	// read x: an unescaped quote or a lone backslash at the end make three
	// quotes, which is no rule text
	want, valid := "", true
	for i := 0; i < len(x); i++ {
		if x[i] == '\'' {
			valid = false
			break
		}
		if x[i] == '\\' {
			i++
			if i == len(x) {
				valid = false
				break
			}
		}
		want += x[i : i+1]
	}
	if !valid && len(x) >= 2 {
		// two quotes of its own may well be balanced
		n := 0
		for i := 0; i < len(x); i++ {
			if x[i] == '\'' || x[i] == '\\' {
				n++
			}
		}
		if n > 1 {
			sym.Stop()
		}
	}
	var gm *joeson.Grammar
	refused := panics(func() { gm = grammarOf("gm", joeson.O(joeson.Named("S", "'"+x+"'"))) })
	sym.Assert(refused == !valid, "reported")
	if refused {
		sym.Cover("invalid")
		return
	}
	sym.Cover("valid")
	s := sym.StringIn("in", 4, ascii)
	res := gm.ParseString(s)
	sym.Assert((outcome(res) == accepted) == (s == want), "language")
	if outcome(res) == accepted {
		sym.Assert(same(res, vstr(want)), "language")
	}
}

// C14_Bytes: non-ASCII literals against texts of any bytes, invalid UTF-8 among them.
//
//verif:bounds the literals é, 世a, aé, 日, U+FFFD, aU+FFFD, the lone byte 0xff and 0xc3 0x28, alone or before any one byte; texts: any bytes, length <= 4
//verif:expect language accepted
func C14_Bytes() {
	compiler()
	x := [...]string{"é", "世a", "aé", "日", "\uFFFD", "a\uFFFD", "\xff", "\xc3("}[sym.Choose("literal", 8)]
	more := sym.Bool("more")
	rule := "'" + x + "'"
	if more {
		rule = "x:" + rule + " y:/(?s)./"
	}
	gm := grammarOf("gm", joeson.O(joeson.Named("S", rule)))
	s := sym.String("in", 4)
	res := gm.ParseString(s)
	if more {
		ok := len(s) > len(x) && s[:len(x)] == x
		if ok {
			loc := dot.FindStringIndex(s[len(x):])
			ok = loc != nil && loc[1] == len(s)-len(x)
		}
		sym.Assert((outcome(res) == accepted) == ok, "language")
		if ok {
			sym.Cover("accepted")
			sym.Assert(same(res, &V{K: 'm', Keys: []string{"x", "y"}, A: []*V{vstr(x), vstr(s[len(x):])}}), "language")
		}
		return
	}
	sym.Assert((outcome(res) == accepted) == (s == x), "language")
	if outcome(res) == accepted {
		sym.Cover("accepted")
		sym.Assert(same(res, vstr(x)), "language")
	}
}

var dot = regexp.MustCompile("^(?s:.)")

// C14_Class: any characters between brackets.
//
//verif:bounds rule texts [x] 'b'? with x any text of length <= 3 over a b - ^ \ ] d 0 and n; texts over a b d 0 - ^ \ ] n newline of length <= 2
//verif:expect reported language valid invalid
func C14_Class() {
	compiler()
	x := sym.ConcreteString(sym.StringIn("class", 3, "ab-^\\]d0n"))
	n := parseRule("[" + x + "] 'b'?")
	if n != nil {
		if m := n.Kids[0]; n.K != 's' || m.K != 'x' || len(n.Kids) != 2 || m.S != "["+x+"]" {
			sym.Stop() // the class ends before
		}
	}
	var gm *joeson.Grammar
	refused := panics(func() { gm = grammarOf("gm", joeson.O(joeson.Named("S", "["+x+"] 'b'?"))) })
	sym.Assert(refused == (n == nil), "reported")
	if refused {
		sym.Cover("invalid")
		return
	}
	sym.Cover("valid")
	s := sym.StringIn("in", 2, "abd0-^\\]n\n")
	re := regexp.MustCompile("^(?:[" + x + "])b?$")
	want := re.MatchString(s)
	if len(s) == 2 && s[1] == '\n' {
		want = false
	}
	sym.Assert((outcome(gm.ParseString(s)) == accepted) == want, "language")
}

// C14_ClassRune: classes match one rune, whatever its size.
//
//verif:bounds classes [é], [^a], [à-ü], [世x], [^\n], [\x80-\x{ffff}]; texts: all byte strings of length <= 3
//verif:expect language accepted
func C14_ClassRune() {
	compiler()
	x := [...]string{"é", "^a", "à-ü", "世x", `^\n`, `\x80-\x{ffff}`}[sym.Choose("class", 6)]
	gm := grammarOf("gm", joeson.O(joeson.Named("S", "["+x+"]")))
	s := sym.String("in", 3)
	loc := regexp.MustCompile(`^[` + x + `]`).FindStringIndex(s)
	want := loc != nil && loc[1] == len(s)
	res := gm.ParseString(s)
	sym.Assert((outcome(res) == accepted) == want, "language")
	if want {
		sym.Cover("accepted")
		sym.Assert(same(res, vstr(s)), "language")
	}
}

// C14_Regexp: a regexp matches where the parse stands and nowhere else.
//
//verif:bounds rules x:'a'? y:/re/ z:/(?s).*/ with 18 regexps (alternation, laziness, flags, anchors, escapes, classes, empty matches); texts over a b / newline of length <= 4 (thorough 5)
//verif:expect language value accepted
func C14_Regexp() {
	compiler()
	re := [...]string{"b", "a|ab", "ab|a", "(?i)AB", "^b", "b$", `\/`, "a{2}", `\x61`, "(?s).", ".", "b*", "(a)(b)?", "a+?", `b\b`, `\n`, "[ab]+b", `(?m)^a$`}[sym.Choose("regexp", 18)]
	gm := grammarOf("gm", joeson.O(joeson.Named("S", "x:'a'? y:/"+re+"/ z:/(?s).*/")))
	s := sym.StringIn("in", 4+deep(1), "ab/\n")
	rest, x := s, undef
	if len(s) > 0 && s[0] == 'a' {
		rest, x = s[1:], vstr("a")
	}
	loc := regexp.MustCompile("(" + re + ")").FindStringIndex(rest)
	ok := loc != nil && loc[0] == 0
	res := gm.ParseString(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, &V{K: 'm', Keys: []string{"x", "y", "z"}, A: []*V{x, vstr(rest[:loc[1]]), vstr(rest[loc[1]:])}}), "value")
	}
}

// C14_Invalid: rule texts with one character too many, too few or exchanged.
//
//verif:bounds 8 valid rule texts of 8 to 18 characters with one character deleted, or one of ' a | * ( ) [ ] { } / \ ? inserted or put in its place, anywhere; texts over a b of length <= 2
//verif:expect reported language valid invalid
func C14_Invalid() {
	compiler()
	t := [...]string{"'a' [ab] | b", "('a' b)*R", "x:'a' y:/b+/", "(?R) 'a'{1,2}", "!b ('a' | b)+", "'\\'' [\\]a] a", "/\\/|a/ ?b R", "b*'a'{,2} R?"}[sym.Choose("rule", 8)]
	i := sym.Choose("at", len(t))
	switch sym.Choose("edit", 3) {
	case 0:
		t = t[:i] + t[i+1:]
	case 1:
		t = t[:i] + string("'a|*()[]{}/\\?"[sym.Choose("char", 13)]) + t[i:]
	default:
		t = t[:i] + string("'a|*()[]{}/\\?"[sym.Choose("char", 13)]) + t[i+1:]
	}
	read(t, 2)
}

// ---- C15 ----

func bindPiece(name string) string {
	return [...]string{"", "'a'", "b", "(R)", "[ab]"}[sym.Choose(name, 5)]
}

// C15_Binding: arbitrary text in the notation between two operands.
//
//verif:bounds rule texts: A x B with A, B of nothing, 'a', b, (R), [ab] and x any text of length <= 2 (thorough 3) over ' a | * + ? ! ( ) { , } 1 space : newline; texts over a b of length <= 3
//verif:expect reported language valid invalid
func C15_Binding() {
	compiler()
	t := bindPiece("head") + sym.StringIn("rule", 2+deep(1), "'a|*+?!(){,}1 :\n") + bindPiece("tail")
	read(t, 3)
}

// C15_Free: arbitrary text in the notation.
//
//verif:bounds rule texts: any text of length <= 5 (thorough 6) over a | * ? ! ( ) space; texts over a b of length <= 3
//verif:expect reported language valid invalid
func C15_Free() {
	compiler()
	read(sym.StringIn("rule", 5+deep(1), "a|*?!() "), 3)
}

// spelled renders n with something redundant at place *k: 0 nothing, 1 a
// blank, 2 a newline and blanks, 3 parentheses.
func (n *N) spelled(level int, k *int, kind int) string {
	here := func(want bool) bool {
		if !want {
			return false
		}
		*k--
		return *k == -1
	}
	blank := func() string {
		if here(kind == 1) {
			return " "
		}
		if here(kind == 2) {
			return "\n  "
		}
		return ""
	}
	if here(kind == 3) && n.Label == "" {
		return "(" + n.spelled(0, k, kind) + ")"
	}
	if n.Label != "" {
		c := *n
		c.Label = ""
		return n.Label + ":" + c.spelled(1, k, kind)
	}
	s := ""
	paren := false
	switch n.K {
	default:
		return n.text(level)
	case 's':
		for i, x := range n.Kids {
			if i > 0 {
				s += " "
			}
			s += blank() + x.spelled(1, k, kind)
		}
		s += blank()
		paren = level >= 1
	case '|':
		for i, x := range n.Kids {
			if i > 0 {
				s += blank() + "|" + blank()
			}
			l := 1
			if x.K == 's' {
				l = 0
			}
			s += x.spelled(l, k, kind)
		}
		s += blank()
		paren = level >= 1
	case '?':
		s = n.Kids[0].spelled(2, k, kind) + "?"
		paren = level >= 2
	case '!':
		s = "!" + n.Kids[0].spelled(2, k, kind)
		paren = level >= 2
	case '&':
		return "(?" + blank() + n.Kids[0].spelled(0, k, kind) + blank() + ")"
	case '*':
		s = n.Kids[0].spelled(2, k, kind)
		j := ""
		if n.Join != nil {
			j = n.Join.spelled(2, k, kind)
		}
		rng := "{" + blank()
		if n.Min >= 0 {
			rng += strconv.Itoa(n.Min)
		}
		rng += blank() + "," + blank()
		if n.Max >= 0 {
			rng += strconv.Itoa(n.Max)
		}
		rng += blank() + "}"
		switch n.Form {
		case '*', '+':
			s += string([]byte{n.Form}) + j
		case '{':
			s += rng
		case 'j':
			s += "*" + j + rng
		}
		paren = level >= 2
	}
	if paren {
		return "(" + blank() + s + ")"
	}
	return s
}

// C15_Layout: something redundant at any place of a rule text.
//
//verif:bounds 10 rule bodies over all operators, a blank, a newline with blanks or redundant parentheses at any place allowed, or none; texts over a b , of length <= 4 (thorough 6)
//verif:expect language value accepted redundant
func C15_Layout() {
	compiler()
	a, b, r := lit("a"), class("b"), ref("R")
	bodies := []*N{
		seq(lit("a"), class("ab"), class("b")),
		alt(seq(a, b), seq(b, a), b),
		seq(star(b, lit(",")), opt(a)),
		repJoin(alt(a, b), lit(","), 1, 2),
		seq(rep(a, -1, 2), plus(r, nil)),
		seq(not(alt(a, r)), look(seq(b, b)), star(b, nil)),
		opt(star(alt(seq(a, b), r), opt(lit(",")))),
		alt(plus(r, lit(",")), seq(opt(b), a)),
		star(seq(a, not(a)), nil),
		seq(lab("x", b), lab("y", opt(r)), lab("z", star(a, nil))),
	}
	i := sym.Choose("body", len(bodies))
	kind := sym.Choose("kind", 4)
	k := 0
	if kind > 0 {
		k = sym.Choose("place", 24)
	}
	left := k
	t := bodies[i].spelled(0, &left, kind)
	if kind > 0 {
		if left >= 0 {
			sym.Stop() // there are fewer places
		}
		sym.Cover("redundant")
	}
	g := rules("", "S", bodies[i], "R", alt(lit("ab"), lit("b")))
	gm := grammarOf("gm", joeson.O(joeson.Named("S", t)), joeson.I(joeson.Named("R", "'ab' | 'b'")))
	s := sym.StringIn("in", 4+deep(2), "ab,")
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}
