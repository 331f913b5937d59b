package harness

import (
	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C28 ----

// merged makes any element of a sequence with labels.
func merged(kinds int) *N {
	switch sym.Choose("element", kinds) {
	case 0:
		return lab("p", class("ab"))
	case 1:
		return lab("@", ref("M"))
	case 2:
		return lab("&", ref("M"))
	case 3:
		return opt(lab("p", lit("a")))
	case 4:
		return class("ab")
	case 5:
		return lab("x", ref("M"))
	case 6:
		return lab("@", alt(ref("D"), ref("M")))
	case 7:
		return opt(seq(lab("q", class("a")), lab("x", class("b"))))
	case 8:
		return lab("@", opt(ref("M")))
	case 9:
		return lab("&", opt(ref("D")))
	case 10:
		return lab("&", seq(lab("x", class("ab")), lab("p", opt(lit("b")))))
	}
	return opt(seq(lit("a"), opt(lab("p", class("b")))))
}

func merging(g *R, max int) {
	gm := g.compile()
	s := sym.StringIn("in", max, "abc")
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(canon(res) == v.show(), "value")
	}
}

func merger(body ...any) *R {
	return rules("", append(body,
		"M", seq(lab("p", class("ab")), lab("q", opt(lit("c")))),
		"D", seq(lab("q", lit("b")), lab("z", lit("b"))))...)
}

// C28_Two: sequences of two elements.
//
//verif:bounds two elements of 12 kinds (labels, @ and & on rules, choices, optionals and groups, optional groups with labels, unlabelled), labels colliding or not; texts over a b c of length <= 5 (thorough 6)
//verif:expect language value accepted
func C28_Two() {
	compiler()
	merging(merger("S", seq(merged(12), merged(12))), 5+deep(1))
}

// C28_Three: sequences of three elements.
//
//verif:bounds three elements of 9 kinds (thorough 12); texts over a b c of length <= 4 (thorough 5)
//verif:expect language value accepted
func C28_Three() {
	compiler()
	k := 9 + deep(3)
	merging(merger("S", seq(merged(k), merged(k), merged(k))), 4+deep(1))
}

// C28_Shared: merged maps that several alternatives and rules obtain.
//
//verif:bounds two merging sequences of two elements of 4 kinds each, tried one after the other at the same position, whose maps are used again by a third; texts over a b c of length <= 4 (thorough 5)
//verif:expect language value accepted
func C28_Shared() {
	compiler()
	m := func() *N {
		switch sym.Choose("merged", 4) {
		case 0:
			return lab("@", ref("M"))
		case 1:
			return lab("&", ref("M"))
		case 2:
			return opt(lab("x", class("ab")))
		}
		return lab("p", ref("M"))
	}
	g := merger(
		"S", alt(seq(ref("T"), lit("c")), seq(ref("U"), lit("c")), seq(lab("m", ref("M")), lab("t", opt(ref("T"))), lab("u", opt(ref("U"))))),
		"T", seq(m(), m()),
		"U", seq(m(), m()))
	merging(g, 4+deep(1))
}

var _ joeson.Ast
