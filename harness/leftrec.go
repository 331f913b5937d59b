package harness

import (
	"verif/sym"
)

// ---- C07: direct left recursion ----

// named rules from name, body pairs
func rules(lr string, a ...any) *R {
	g := &R{LR: lr}
	for i := 0; i < len(a); i += 2 {
		g.Names = append(g.Names, a[i].(string))
		g.Body = append(g.Body, a[i+1].(*N))
	}
	return g
}

// compare parses an arbitrary text with g and with the real thing.
func compare(g *R, max int, alphabet string) {
	gm := g.compile()
	s := sym.StringIn("in", max, alphabet)
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	if g.entered && sym.Known("other-entry") && ((outcome(res) == accepted) != ok || ok && !same(res, w)) {
		sym.KnownHit("other-entry")
		return
	}
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}

// C07_One: one left-recursive rule.
//
//verif:bounds R = R A1 | [R A2 |] B1 [| B2] with A1, A2 and B1, B2 each one of 4 forms (several characters, R itself to the right, optional and repeated parts), labelled or not; texts over a b + - of length <= 5 (thorough 6)
//verif:expect language value accepted
func C07_One() {
	compiler()
	tail := func(i int) *N {
		op := class("+")
		if i == 1 {
			op = class("-")
		}
		var n *N
		switch sym.Choose("tail", 4) {
		case 0:
			n = seq(ref("R"), op, class("ab"))
		case 1:
			n = seq(ref("R"), op, ref("R"))
		case 2:
			n = seq(ref("R"), op, opt(class("b")))
		default:
			n = seq(lab("l", ref("R")), lab("o", plus(op, nil)), lab("r", class("a")))
		}
		return n
	}
	base := func() *N {
		switch sym.Choose("base", 3) {
		case 0:
			return class("ab")
		case 1:
			return seq(class("a"), class("b"))
		}
		return plus(class("a"), nil)
	}
	kids := []*N{tail(0)}
	if sym.Bool("second") {
		kids = append(kids, tail(1))
	}
	kids = append(kids, base())
	if sym.Bool("base2") {
		kids = append(kids, class("b"))
	}
	compare(rules("R ", "R", alt(kids...)), 5+deep(1), "ab+-")
}

// C07_Levels: left-recursive rules on top of one another, with parentheses.
//
//verif:bounds E = E [+-] T | T; T = T '*' F | F; F = '(' E ')' | [ab]; texts over a b + * ( ) of length <= 6 (thorough 8)
//verif:expect language value accepted
func C07_Levels() {
	compiler()
	compare(rules("E T ",
		"E", alt(seq(lab("l", ref("E")), lab("o", class("+")), lab("r", ref("T"))), ref("T")),
		"T", alt(seq(ref("T"), lit("*"), ref("F")), ref("F")),
		"F", alt(seq(lit("("), ref("E"), lit(")")), class("ab")),
	), 6+deep(2), "a+*()")
}

// C07_Again: a left-recursive rule tried again at the same place.
//
//verif:bounds 5 entry rules that use the left-recursive rule E = E '+' T | T, T = T [*] F | F, F = [ab], several times at one position, behind predicates, in repetitions and through other rules; texts over a b + * ; of length <= 5 (thorough 7)
//verif:expect language value accepted
func C07_Again() {
	compiler()
	e, t := ref("E"), ref("T")
	var s *N
	switch sym.Choose("entry", 6) {
	case 0:
		s = alt(seq(e, lit(";")), seq(e, lit("+")), seq(t, class(";")), e)
	case 1:
		s = seq(not(seq(e, lit(";"))), star(e, lit(";")))
	case 2:
		s = plus(alt(seq(e, lit(";")), seq(t, lit("*")), class("+*")), nil)
	case 3:
		s = alt(seq(ref("X"), lit(";")), seq(t, opt(class(";")), e), ref("X"))
	case 4:
		s = seq(opt(seq(e, lit(";"))), look(e), t, star(class("+*ab"), nil))
	default:
		s = seq(star(seq(t, lit(";")), nil), lab("x", e), lab("y", opt(lit(";"))))
	}
	compare(rules("E T ",
		"S", s,
		"X", alt(seq(e, class("+")), seq(t, class("*")), e),
		"E", alt(seq(e, class("+"), t), t),
		"T", alt(seq(t, class("*"), ref("F")), ref("F")),
		"F", class("a"),
	), 5+deep(2), "a+*;")
}

// ---- C08: indirect left recursion ----

func cycles() *R {
	switch sym.Choose("cycle", 10) {
	case 0: // two rules
		return rules("A B ",
			"A", alt(seq(ref("B"), class("x")), class("a")),
			"B", alt(seq(ref("A"), class("y")), class("b")))
	case 1: // three rules
		return rules("A B C ",
			"A", alt(seq(ref("B"), class("x")), class("a")),
			"B", alt(seq(ref("C"), class("y")), class("b")),
			"C", alt(seq(ref("A"), class("x")), class("b")))
	case 2: // two rules, from another rule, again and again
		return rules("A B ",
			"S", alt(seq(ref("A"), class("b")), seq(not(seq(ref("A"), class("a"))), ref("A"), opt(class("b"))), seq(ref("A"), class("a"), star(ref("A"), nil))),
			"A", alt(seq(ref("B"), class("x")), class("a")),
			"B", alt(seq(ref("A"), class("y")), class("b")))
	case 3: // without consumption in between
		return rules("R Y X ",
			"R", alt(seq(ref("Y"), class("b")), seq(ref("X"), class("x")), class("a")),
			"Y", ref("R"),
			"X", ref("Y"))
	case 4: // hidden behind an optional that matches nothing
		return rules("R ",
			"R", alt(seq(opt(lit("y")), ref("R"), class("x")), class("a")))
	case 5: // hidden behind a repetition and a predicate
		return rules("R ",
			"R", alt(seq(star(lit("y"), nil), look(class("ab")), ref("R"), class("x")), class("ab")))
	case 6: // direct and indirect in one cycle
		return rules("A B ",
			"A", alt(seq(ref("A"), class("x")), seq(ref("B"), class("x")), class("a")),
			"B", alt(seq(ref("A"), class("y")), seq(ref("B"), class("y")), class("b")))
	case 7: // a cycle within a cycle
		return rules("R E Z ",
			"R", alt(seq(ref("E"), class("x")), class("a")),
			"E", alt(seq(ref("Z"), class("y")), seq(ref("R"), class("a")), class("b")),
			"Z", alt(seq(ref("E"), class("b")), class("b")))
	case 8: // two cycles through one rule
		return rules("R E Z ",
			"R", alt(seq(ref("E"), class("x")), seq(ref("Z"), class("y")), class("a")),
			"E", alt(seq(ref("R"), class("a")), ref("R")),
			"Z", alt(seq(ref("E"), class("b")), ref("R")))
	}
	return rules("A B ", // two ways round
		"A", alt(seq(ref("B"), class("x")), seq(ref("B"), class("y")), class("a")),
		"B", alt(seq(ref("A"), class("b")), ref("A"), class("b")))
}

// C08_Cycles: cycles of two and three rules, hidden recursion.
//
//verif:bounds 10 left-recursive cycles; texts over a b x y of length <= 5 (thorough 7)
//verif:expect language value accepted
func C08_Cycles() {
	compiler()
	compare(cycles(), 5+deep(2), "abxy")
}

// C08_Entered: another rule of the cycle is wanted where one has been grown.
//
//verif:bounds S = A [b] | B [a] | A; A = B [x] | [a]; B = A [y] | [b]; texts over a b x y of length <= 5 (thorough 7)
//verif:expect language value accepted
func C08_Entered() {
	compiler()
	compare(rules("A B ",
		"S", alt(seq(ref("A"), class("b")), seq(ref("B"), class("a")), ref("A")),
		"A", alt(seq(ref("B"), class("x")), class("a")),
		"B", alt(seq(ref("A"), class("y")), class("b"))), 5+deep(2), "abxy")
}

// C08_Any: any cycles among three rules.
//
//verif:bounds R = r [x] | r' [y] | [a]; Y = r [b] | r'; Z = r [x] | [b] with each r any of R Y Z; texts over a b x y of length <= 4
//verif:expect language value accepted
func C08_Any() {
	compiler()
	r := func() *N {
		return ref(string("RYZ"[sym.Choose("ref", 3)]))
	}
	compare(rules("R Y Z ",
		"R", alt(seq(r(), class("x")), seq(r(), class("y")), class("a")),
		"Y", alt(seq(r(), class("b")), r()),
		"Z", alt(seq(r(), class("x")), class("b"))), 4, "abxy")
}
