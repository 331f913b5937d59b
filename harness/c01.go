package harness

import (
	"verif/sym"
)

// gen makes an arbitrary parsing expression of the given depth.
func gen(depth int, leaves func() *N) *N {
	k := 0
	if depth > 0 {
		k = sym.Choose("op", 10)
	}
	switch k {
	case 0:
		return leaves()
	case 1:
		return seq(gen(depth-1, leaves), gen(depth-1, leaves))
	case 2:
		return alt(gen(depth-1, leaves), gen(depth-1, leaves))
	case 3:
		return star(gen(depth-1, leaves), nil)
	case 4:
		return plus(gen(depth-1, leaves), nil)
	case 5:
		return opt(gen(depth-1, leaves))
	case 6:
		return not(gen(depth-1, leaves))
	case 7:
		return look(gen(depth-1, leaves))
	case 8:
		m, n := minMax()
		return rep(gen(depth-1, leaves), m, n)
	}
	return star(gen(depth-1, leaves), gen(0, leaves))
}

func minMax() (m, n int) {
	switch sym.Choose("minmax", 5) {
	case 0:
		return 0, 1
	case 1:
		return 1, 1
	case 2:
		return -1, 2
	case 3:
		return 2, -1
	}
	return 1, 2
}

func leafAB() *N {
	switch sym.Choose("leaf", 3) {
	case 0:
		return lit("a")
	case 1:
		return lit("ab")
	}
	return class("a-b")
}

// C01_Expr: one rule, any expression of depth 2, any ASCII text up to 3 bytes.
//
//verif:bounds rule bodies: all expressions of operator depth <= 2 over 'a', 'ab', [a-b], with {m,n} one of {0,1} {1,1} {,2} {2,} {1,2}; texts: all ASCII strings without newline of length <= 3
//verif:expect language
func C01_Expr() {
	compiler()
	n := gen(2, leafAB)
	g := &R{Names: []string{"start"}, Body: []*N{n}}
	gm := g.compile()
	s := sym.StringIn("in", 3, asciiNNL)
	res := gm.ParseString(s)
	ok, _ := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
}

// C01_Refs: three rules on top of one another.
//
//verif:bounds S and P: all expressions of operator depth <= 1, S over the references P and Q, P over Q and 'a' (thorough: S also over 'a', P also over 'ab'); Q one of 'a' 'b'?, [ab], 'ab' | 'b'; texts over a b and one other letter of length <= 3 (thorough 4)
//verif:expect language
func C01_Refs() {
	compiler()
	k := deep(1)
	s := gen(1, func() *N { return []*N{ref("P"), ref("Q"), lit("a")}[sym.Choose("sleaf", 2+k)] })
	p := gen(1, func() *N { return []*N{ref("Q"), lit("a"), lit("ab")}[sym.Choose("pleaf", 2+k)] })
	q := []*N{seq(lit("a"), opt(lit("b"))), class("ab"), alt(lit("ab"), lit("b"))}[sym.Choose("q", 3)]
	g := &R{Names: []string{"S", "P", "Q"}, Body: []*N{s, p, q}}
	gm := g.compile()
	in := sym.StringIn("in", 3+k, "abc")
	res := gm.ParseString(in)
	ok, _ := g.parse(in)
	sym.Assert((outcome(res) == accepted) == ok, "language")
}

// C01_EmptyLiterals: elements that match nothing are still matched, also where the text ends.
//
//verif:bounds rule bodies over '', 'a' and a reference to a rule that matches '' or 'b': all expressions of operator depth <= 1, alone, after 'a', before it, after a repetition or as the second alternative (thorough: all of depth <= 2); texts over a b of length <= 3
//verif:expect language accepted
func C01_EmptyLiterals() {
	compiler()
	leaf := func() *N { return []*N{lit(""), lit("a"), ref("E")}[sym.Choose("leaf", 3)] }
	var n *N
	if sym.Thorough() {
		n = gen(2, leaf)
	} else {
		n = gen(1, leaf)
		switch sym.Choose("in", 5) {
		case 1:
			n = seq(lit("a"), n)
		case 2:
			n = seq(n, lit("a"))
		case 3:
			n = seq(star(class("ab"), nil), n)
		case 4:
			n = alt(seq(lit("a"), lit("b")), n)
		}
	}
	g := &R{Names: []string{"start", "E"}, Body: []*N{n, alt(lit("b"), lit(""))}}
	gm := g.compile()
	s := sym.StringIn("in", 3, "ab")
	res := gm.ParseString(s)
	ok, _ := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
	}
}
