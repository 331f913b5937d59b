package harness

import (
	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C29 ----

// node is a custom parse result.
type node struct {
	*joeson.Attr
	origin joeson.Origin
	of     joeson.Ast
}

func (n *node) String() string            { return "node" }
func (n *node) SetOrigin(o joeson.Origin) { n.origin = o }
func (n *node) GetOrigin() joeson.Origin  { return n.origin }

// spans checks the origin of everything in a that a rule returned.
func spans(a joeson.Ast, v *V, s string) {
	switch v.K {
	case 'a':
		for i, y := range v.A {
			spans(a.(*joeson.NativeArray).Get(i), y, s)
		}
		return
	case 'm':
		for i, k := range v.Keys {
			y, _ := a.(*joeson.NativeMap).GetExists(k)
			spans(y, v.A[i], s)
		}
	case 'n':
		sym.Assert(a.GetOrigin().RuleName == v.Rule, "name")
		spans(a.(*node).of, v.A[0], s)
	default:
		return
	}
	if v.Rule == "" {
		return
	}
	o := a.GetOrigin()
	sym.Assert(o.Start == v.Start, "span")
	sym.Assert(o.End == v.End, "span")
	sym.Assert(o.Code == s, "code")
	sym.Assert(o.Code[o.Start:o.End] == s[v.Start:v.End], "code")
	line, _ := lineCol(s, v.End)
	sym.Assert(o.Line == line, "line")
	sym.Assert(o.RuleName == v.Rule, "name")
}

var nested = []*R{
	rules("", "S", seq(lab("x", ref("A")), lab("y", plus(ref("B"), lit("\n")))),
		"A", seq(lab("k", class("ab")), lit("\n")),
		"B", alt(seq(lab("l", ref("A")), lab("m", ref("A"))), seq(lab("k", lit("a"))))),
	rules("E ", "E", alt(seq(lab("l", ref("E")), lit("\n"), lab("r", ref("T"))), ref("T")),
		"T", alt(seq(lit("a"), ref("E"), lit("b")), seq(lab("v", plus(class("b"), nil))))),
	// T's map is handed on by rules that match more
	rules("", "S", alt(seq(lab("x", ref("P")), lit("\n")), seq(lab("x", ref("T")), lab("y", ref("Q"))), seq(lab("z", ref("Q")))),
		"P", seq(ref("T"), opt(lit("b"))),
		"Q", seq(opt(lit("b")), ref("P")),
		"T", seq(lab("k", lit("a")))),
	rules("", "S", star(ref("L"), lit("\n")),
		"L", alt(seq(lab("@", ref("W")), lab("o", opt(ref("W")))), seq(opt(lab("k", ref("W"))), lab("e", opt(lit("b"))))),
		"W", seq(lab("w", lit("a")), lab("n", opt(lit("\n"))))),
	rules("", "S", seq(not(ref("A")), look(ref("B")), ref("B")),
		"A", seq(lab("a", ref("B")), lit("a")),
		"B", seq(lab("b", plus(class("ab"), nil)), lab("c", opt(ref("A"))), opt(lit("\n")))),
}

func originOf(g *R, gm *joeson.Grammar, max int) {
	s := sym.StringIn("in", max, "ab\n")
	res := gm.ParseString(s)
	ok, v := g.parse(s)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if ok {
		sym.Cover("accepted")
		spans(res, v, s)
	}
}

// C29_Maps: maps made of labels.
//
//verif:bounds 5 grammars (nested labelled rules, left recursion, maps handed on by rules that match more, merged and optional labels, predicates over the rules that follow); texts over a b newline of length <= 8 (thorough 9)
//verif:expect span code line accepted
func C29_Maps() {
	compiler()
	g := nested[sym.Choose("grammar", len(nested))]
	originOf(g, g.compile(), 8+deep(1))
}

// C29_Custom: values made by callbacks.
//
//verif:bounds the same grammars, callbacks on any one or on all of their rules wrapping the value; texts over a b newline of length <= 7 (thorough 8)
//verif:expect span code line name accepted
func C29_Custom() {
	compiler()
	k := sym.Choose("grammar", len(nested))
	h := nested[k]
	which := sym.Choose("rule", 5)
	if which > len(h.Names) {
		sym.Stop()
	}
	// a rule merged with @ has to return a map
	wrap := func(i int) bool { return (which == 0 || which == i+1) && h.Names[i] != "W" }
	g := &R{Names: h.Names, Body: h.Body, LR: h.LR}
	g.cb = func(name string, v *V, start, end int) *V {
		for i, n := range h.Names {
			if n == name && wrap(i) {
				return &V{K: 'n', A: []*V{v}}
			}
		}
		return v
	}
	gm := grammarOf("gm", g.lines(func(i int) []any {
		if !wrap(i) {
			return nil
		}
		return []any{func(a joeson.Ast) joeson.Ast { return &node{Attr: joeson.NewAttr(), of: a} }}
	})...)
	originOf(g, gm, 7+deep(1))
}
