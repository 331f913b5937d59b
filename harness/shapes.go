package harness

import (
	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C02: shapes of results ----

// element makes any of the documented kinds of sequence elements; its label,
// if it has one, is unique to place i.
func element(i, kinds int) *N {
	name := string("xyz"[i])
	switch sym.Choose("element", kinds) {
	case 0:
		return lit("a")
	case 1:
		return class("a-b")
	case 2:
		return ref("_r")
	case 3:
		return lab(name, class("ab"))
	case 4:
		return star(class("ab"), nil)
	case 5:
		return opt(ref("R"))
	case 6:
		return not(lit("b"))
	case 7:
		return look(class("ab"))
	case 8:
		return ref("R")
	case 9:
		return star(lit("a"), nil)
	case 10:
		return opt(lit("a"))
	case 11:
		return lab(name, opt(lit("a")))
	case 12:
		return lab(name, plus(ref("R"), lit(",")))
	case 13:
		return alt(lit("b"), ref("R"))
	case 14:
		return alt(class("ab"), ref("R"))
	case 15:
		return lab(name, alt(lit("b"), ref("_r")))
	}
	return plus(seq(lit("a"), ref("R")), nil)
}

func shape(n *N, max int) {
	g := &R{Names: []string{"start", "R", "_r"}, Body: []*N{n, seq(class("ab"), class("ab")), class("ab")}}
	gm := g.compile()
	s := sym.StringIn("in", max, "ab,")
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, v), "value")
	}
}

// C02_One: rules of a single element.
//
//verif:bounds one element of 17 kinds (literal, class, captured and uncaptured references, labels, repetition with and without join, optional, predicates, choices); texts over a b , of length <= 5
//verif:expect language value accepted
func C02_One() {
	compiler()
	shape(element(0, 17), 5)
}

// C02_Two: sequences of two elements.
//
//verif:bounds two elements of 17 kinds; texts over a b , of length <= 4 (thorough 6)
//verif:expect language value accepted
func C02_Two() {
	compiler()
	shape(seq(element(0, 17), element(1, 17)), 4+deep(2))
}

// C02_Three: sequences of three elements.
//
//verif:bounds three elements of 9 kinds (thorough 17); texts over a b , of length <= 4
//verif:expect language value accepted
func C02_Three() {
	compiler()
	k := 9 + deep(8)
	shape(seq(element(0, k), element(1, k), element(2, k)), 4)
}

// C02_Choice: choices of alternatives, labelled or not.
//
//verif:bounds two alternatives, each one or two elements of 17 kinds; texts over a b , of length <= 3 (thorough 5)
//verif:expect language value accepted
func C02_Choice() {
	compiler()
	part := func(i int) *N {
		if sym.Bool("pair") {
			return seq(element(i, 9+deep(8)), lit("b"))
		}
		return element(i, 17)
	}
	shape(alt(part(0), part(1)), 3+deep(2))
}

var _ joeson.Ast

// ---- C03: repetition ----

func repeated() *N {
	switch sym.Choose("value", 5) {
	case 0:
		return class("ab")
	case 1:
		return lit("ab")
	case 2:
		return ref("R")
	case 3:
		return opt(lit("a"))
	}
	return alt(lit("aa"), ref("B"))
}

func joined() *N {
	switch sym.Choose("join", 4) {
	case 0:
		return nil
	case 1:
		return lit(",")
	case 2:
		return opt(lit(","))
	}
	return class(",b")
}

func repetition(v, j *N, m, n int, tail *N, max int) {
	var p *N
	switch {
	case j != nil && m < 0 && n < 0 && sym.Bool("star"):
		p = star(v, j)
	case j != nil && m == 1 && n < 0 && sym.Bool("plus"):
		p = plus(v, j)
	case j != nil:
		p = repJoin(v, j, m, n)
	case m < 0 && n < 0 && sym.Bool("star"):
		p = star(v, nil)
	case m == 1 && n < 0 && sym.Bool("plus"):
		p = plus(v, nil)
	default:
		p = rep(v, m, n)
	}
	body := seq(lab("x", p), lab("y", tail))
	g := &R{Names: []string{"start", "R", "B"}, Body: []*N{body, seq(class("ab"), lit("a")), lit("b")}}
	gm := g.compile()
	s := sym.StringIn("in", max, "ab,")
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}

// C03_Bounds: values without join, all bounds; what is left goes to a tail.
//
//verif:bounds values [ab], 'ab', a reference, 'a'?, a choice; {m,n} with m in none,0..3, n in none,0..4, * and +; texts over a b , of length <= 5 (thorough 6)
//verif:expect language value accepted
func C03_Bounds() {
	compiler()
	repetition(repeated(), nil, sym.Choose("min", 5)-1, sym.Choose("max", 6)-1, star(class("ab"), nil), 5+deep(1))
}

// C03_Join: values with joins.
//
//verif:bounds as above with joins ',', ','?, [,b] and m in none,0..2, n in none,0..2 (thorough 0..3, 0..4), tail any of a b ,; texts over a b , of length <= 4 (thorough 6)
//verif:expect language value accepted
func C03_Join() {
	compiler()
	j := joined()
	sym.Assume(j != nil)
	repetition(repeated(), j, sym.Choose("min", 4+deep(1))-1, sym.Choose("max", 4+deep(2))-1, star(class("ab,"), nil), 4+deep(2))
}

// C03_Nested: repetitions inside repetitions, the text is all there is.
//
//verif:bounds a repetition {m,n} of a repetition with join, m in 0..2, n in none,1,2; texts over a b , of length <= 5 (thorough 7)
//verif:expect language value accepted
func C03_Nested() {
	compiler()
	in := plus(class("ab"), lit(","))
	if sym.Bool("star") {
		in = star(class("ab"), lit(","))
	}
	j := joined()
	m, n := sym.Choose("min", 3), sym.Choose("max", 3)
	if n == 0 {
		n = -1
	}
	p := repJoin(in, j, m, n)
	if j == nil {
		p = rep(in, m, n)
	}
	g := &R{Names: []string{"start"}, Body: []*N{p}}
	gm := g.compile()
	s := sym.StringIn("in", 5+deep(2), "ab,")
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}

// ---- C04: predicates ----

func leafPred() *N {
	switch sym.Choose("leaf", 4) {
	case 0:
		return lit("a")
	case 1:
		return lit("ab")
	case 2:
		return class("ab")
	}
	return ref("R")
}

// predicate makes !e, ?(e), !!e or !?(e).
func predicate(e *N) *N {
	switch sym.Choose("predicate", 4) {
	case 0:
		return not(e)
	case 1:
		return look(e)
	case 2:
		return not(not(e))
	}
	return not(look(e))
}

func predicates(body *N, max int) {
	g := &R{Names: []string{"start", "R"}, Body: []*N{body, alt(lit("ba"), plus(lit("a"), nil))}}
	gm := g.compile()
	s := sym.StringIn("in", max, "abc")
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}

// C04_Sequence: a predicate at each place of a sequence.
//
//verif:bounds !e, ?(e), !!e, !?(e) first, between or last among [ab] captures; e: all expressions of depth <= 1 over 'a', 'ab', [ab] and a reference; texts over a b c of length <= 4 (thorough 5)
//verif:expect language value accepted
func C04_Sequence() {
	compiler()
	p := predicate(gen(1, leafPred))
	c := class("a-c")
	var body *N
	switch sym.Choose("place", 3) {
	case 0:
		body = seq(p, star(c, nil))
	case 1:
		body = seq(c, p, star(c, nil))
	default:
		body = seq(c, c, p)
	}
	predicates(body, 4+deep(1))
}

// C04_Nested: predicates inside repetition, choice and optional.
//
//verif:bounds (P [a-c])*, (P [a-c] | 'b')+, (P 'a')? [a-c]*, x:P y:[a-c]*, P alone | [a-c]+, with P as above over e one of L, L 'b', L*'c', L? with L a leaf as above (thorough: depth <= 1); texts over a b c of length <= 3 (thorough 4)
//verif:expect language value accepted
func C04_Nested() {
	compiler()
	e := leafPred()
	switch sym.Choose("compound", 5) {
	case 1:
		e = seq(e, lit("b"))
	case 2:
		e = star(e, lit("c"))
	case 3:
		e = opt(e)
	case 4:
		e = gen(deep(1), leafPred)
	}
	p := predicate(e)
	c := class("a-c")
	var body *N
	switch sym.Choose("form", 5) {
	case 0:
		body = star(seq(p, c), nil)
	case 1:
		body = plus(alt(seq(p, c), ref("R")), nil)
	case 2:
		body = seq(opt(seq(p, c)), star(c, nil))
	case 3:
		body = seq(lab("x", seq(p, c)), lab("y", star(c, nil)))
	default:
		body = alt(seq(p, c, c), plus(c, nil))
	}
	predicates(body, 3+deep(1))
}

// C04_Value: a predicate that is a rule of its own.
//
//verif:bounds P = !e, ?(e), !!e or !?(e) for all expressions e of depth <= 1 over 'a', 'ab', [ab] and a reference; used as P T, x:P y:T, P T | T, (P [a-c])* and as the whole grammar, T = [a-c]*; texts over a b c of length <= 3 (thorough 4)
//verif:expect language value accepted
func C04_Value() {
	compiler()
	p := predicate(gen(1, leafPred))
	body := ref("P")
	switch sym.Choose("use", 5) {
	case 0:
		body = seq(ref("P"), ref("T"))
	case 1:
		body = seq(lab("x", ref("P")), lab("y", ref("T")))
	case 2:
		body = alt(seq(ref("P"), ref("T")), ref("T"))
	case 3:
		body = star(seq(ref("P"), class("a-c")), nil)
	}
	g := &R{Names: []string{"S", "P", "T", "R"}, Body: []*N{body, p, star(class("a-c"), nil), alt(lit("ba"), plus(lit("a"), nil))}}
	gm := g.compile()
	s := sym.StringIn("in", 3+deep(1), "abc")
	res := gm.ParseString(s)
	ok, w := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(same(res, w), "value")
	}
}
