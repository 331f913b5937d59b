package harness

import (
	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C30 ----

func named(name string, lines ...joeson.Line) joeson.NamedRule { return joeson.Named(name, lines) }

func alternative() *N {
	switch sym.Choose("alternative", 8) {
	case 0:
		return lit("a")
	case 1:
		return seq(class("ab"), ref("R"))
	case 2:
		return seq(lab("x", ref("R")), lab("y", opt(lit("b"))))
	case 3:
		return plus(ref("_r"), lit("b"))
	case 4:
		return ref("R")
	case 5:
		return alt(seq(lit("a"), ref("_r")), ref("R"))
	case 6:
		return seq(not(ref("R")), class("ab"))
	}
	return seq(ref("_r"), ref("N"))
}

// ranked puts the alternatives in a rank in one of several ways, the I lines
// among them.
func ranked(alts []*N, r, _r joeson.Line, n joeson.Line) []joeson.Line {
	var o []joeson.Line
	for _, a := range alts {
		o = append(o, joeson.O(a.text(0)))
	}
	last := o[len(o)-1]
	switch sym.Choose("rank", 7) {
	case 0: // alternatives at the top
		return append(append([]joeson.Line{r, _r}, o...), n)
	case 1: // in a named rank
		return []joeson.Line{joeson.O(named("S", append(o, n, r)...)), _r}
	case 2: // in an unnamed rank
		return []joeson.Line{n, joeson.O(joeson.NewALine(append([]joeson.Line{r}, append(o, _r)...)))}
	case 3: // ranks in ranks
		return []joeson.Line{joeson.O(named("S", r, joeson.O(named("T", append([]joeson.Line{n}, o...)...)), _r))}
	case 4: // the last alternatives in a rank of their own
		return append(append([]joeson.Line{_r}, o[:len(o)-1]...), joeson.O(named("T", r, last)), n)
	case 5: // the first alternative in a rank of its own, the rank referred to
		return []joeson.Line{joeson.O("T"), r, joeson.I(joeson.Named("T", joeson.NewALine(append([]joeson.Line{joeson.O(named("U", o[0], n))}, append(o[1:], _r)...))))}
	}
	// alternatives given names
	var l []joeson.Line
	for i, a := range alts {
		l = append(l, joeson.O(joeson.Named(string("XYZ"[i]), a.text(0))))
	}
	return append(l, n, _r, r)
}

func arranged(gm *joeson.Grammar, g *R, max int, alphabet string) {
	s := sym.StringIn("in", max, alphabet)
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		sym.Assert(canon(res) == v.show(), "value")
	}
}

// C30_Ranks: ranks of alternatives in place of a choice.
//
//verif:bounds two alternatives of 8 kinds (thorough three), as a rank at the top, named, unnamed, nested, split or referred to, with named alternatives, I lines anywhere in between; texts over a b of length <= 4
//verif:expect language value accepted
func C30_Ranks() {
	compiler()
	alts := []*N{alternative(), alternative()}
	if sym.Thorough() {
		alts = append(alts, alternative())
	}
	rb, nb, _rb := seq(lab("k", lit("b")), lab("l", star(lit("a"), nil))), alt(lit("b"), seq(ref("R"), lit("a"))), seq(lit("a"), class("ab"))
	l := ranked(alts, joeson.I(joeson.Named("R", rb.text(0))), joeson.I(joeson.Named("_r", _rb.text(0))), joeson.I(joeson.Named("N", nb.text(0))))
	g := rules("", "S", alt(alts...), "R", rb, "N", nb, "_r", _rb)
	arranged(grammarOf("gm", l...), g, 4, "ab")
}

var orders = [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// grammars with four rules to arrange
var arrangeable = []*R{
	rules("", "S", alt(seq(lab("x", ref("A")), lab("y", ref("B"))), seq(ref("C"), ref("A"))),
		"A", alt(seq(ref("_D"), lit("a")), lit("b")), "B", plus(ref("A"), ref("_D")), "C", seq(look(ref("B")), ref("_D")), "_D", opt(lit("a"))),
	rules("A B ", "S", ref("A"),
		"A", alt(seq(lab("l", ref("A")), lit("+"), lab("r", ref("B"))), ref("B")),
		"B", alt(seq(ref("B"), ref("C")), ref("C")), "C", alt(class("ab"), seq(ref("_D"), ref("A"), lit(")"))), "_D", lit("(")),
	rules("A B C ", "S", ref("A"),
		"A", alt(seq(ref("B"), ref("_D")), lit("b")), "B", alt(seq(ref("C"), lit("b")), lit("a")), "C", seq(ref("A"), lit("+")), "_D", lit("a")),
}

// C30_Placement: I lines in any order at any place.
//
//verif:bounds 3 grammars of five rules (backtracking, left recursion, a cycle), all orders of three of their I lines, before or after the O line, in the rank of a nested rule, or one of them in the rank of another; texts of length <= 3 (thorough 4) over their alphabet
//verif:expect language value accepted
func C30_Placement() {
	compiler()
	g := arrangeable[sym.Choose("grammar", len(arrangeable))]
	o := orders[sym.Choose("order", len(orders))]
	line := func(i int) joeson.Line { return joeson.I(joeson.Named(g.Names[i], g.Body[i].text(0))) }
	s := joeson.O(joeson.Named("S", g.Body[0].text(0)))
	x, y, z, d := line(1+o[0]), line(1+o[1]), line(1+o[2]), line(4)
	var l []joeson.Line
	switch sym.Choose("place", 6) {
	case 0:
		l = []joeson.Line{x, y, z, d, s}
	case 1:
		l = []joeson.Line{s, d, x, y, z}
	case 2:
		l = []joeson.Line{x, s, y, d, z}
	case 3:
		l = []joeson.Line{d, joeson.O(named("Top", x, s, y)), z}
	case 4:
		// the rule z as a rank holding y, d and its own body
		l = []joeson.Line{s, joeson.I(joeson.Named(g.Names[1+o[2]], joeson.NewALine([]joeson.Line{y, joeson.O(g.Body[1+o[2]].text(0)), d}))), x}
	default:
		l = []joeson.Line{joeson.O(named("Top", joeson.O(named("In", z, d, s)), y)), x}
	}
	arranged(grammarOf("gm", l...), g, 3+deep(1), "ab+()")
}

var ruleNames = []string{"A", "a", "EXPR", "joeson", "x9.y", "B_", "S"}

// C30_Names: rules under other names.
//
//verif:bounds the same grammars, any two of their rules under any two of 6 names (lower case, digits, dots, underscores, joeson's own rule names) and the underscored one under another or none of 4 names; texts of length <= 3 over their alphabet
//verif:expect language value accepted
func C30_Names() {
	compiler()
	g := arrangeable[sym.Choose("grammar", len(arrangeable))]
	a, b := sym.Choose("first", len(ruleNames)), sym.Choose("second", len(ruleNames))
	if a == b {
		sym.Stop()
	}
	d := []string{"_D", "_", "__", "_9a."}[sym.Choose("underscored", 4)]
	p := sym.Choose("renamed", 3)
	to := map[string]string{"A": "A1", "B": "B1", "C": "C1", "_D": d, "S": "start"}
	to[g.Names[1+p]] = ruleNames[a]
	to[g.Names[1+(p+1)%3]] = ruleNames[b]
	var l []joeson.Line
	for i, n := range g.Names {
		text := g.Body[i].renamed(to).text(0)
		if i == 0 {
			l = append(l, joeson.O(joeson.Named(to[n], text)))
		} else {
			l = append(l, joeson.I(joeson.Named(to[n], text)))
		}
	}
	arranged(grammarOf("gm", l...), g, 3, "ab+()")
}

func (n *N) renamed(to map[string]string) *N {
	c := *n
	if c.K == 'r' {
		c.S = to[c.S]
	}
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.renamed(to))
	}
	if n.Join != nil {
		c.Join = n.Join.renamed(to)
	}
	return &c
}
