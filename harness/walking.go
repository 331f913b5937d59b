package harness

import (
	"strings"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	"verif/sym"
)

// ---- C36: walks ----

// walkable makes a grammar of three rules with any expression for the first,
// and gives the number of parsers an expression is made of.
func walkable(depth int) (g *R, gm *joeson.Grammar) {
	next := 0
	e := gen(depth, func() *N {
		next++
		switch sym.Choose("leaf", 3) {
		case 0:
			return ref("A")
		case 1:
			return class("bc")
		}
		return lit(alphabet[next-1 : next])
	})
	g = rules("", "S", e, "A", alt(lit("a"), seq(ref("B"), lit("c"))), "B", opt(lit("b")))
	return g, g.compile()
}

// shown is the texts of the literals, classes and references in n, in order.
func (n *N) shown() (l []string) {
	switch n.K {
	case 'l':
		return []string{"'" + n.S + "'"}
	case 'r':
		return []string{n.S}
	case 'c':
		return []string{"/([" + n.S + "])/g"}
	}
	for _, k := range n.Kids {
		l = append(l, k.shown()...)
	}
	if n.Join != nil {
		l = append(l, n.Join.shown()...)
	}
	return l
}

func (n *N) parsers() int {
	k := 1
	for _, x := range n.Kids {
		k += x.parsers()
	}
	if n.Join != nil {
		k += n.Join.parsers()
	}
	return k
}

// visits checks the calls of a walk as they come.
type visits struct {
	open  []joeson.Parser // the nodes which have been descended into
	nodes []joeson.Parser
}

func (v *visits) walk(from, parent joeson.Parser, stop func(node joeson.Parser) string) {
	started := false
	top := func() joeson.Parser {
		if len(v.open) == 0 {
			return parent
		}
		return v.open[len(v.open)-1]
	}
	res := joeson.Walk(from, parent, joeson.WalkPrepost{
		Pre: func(node, by joeson.Parser) string {
			sym.Assert(started == (len(v.open) > 0), "nested")
			sym.Assert(started || node == from, "start")
			started = true
			sym.Assert(by == top(), "parent")
			v.nodes = append(v.nodes, node)
			how := stop(node)
			if how != "__stop__" {
				v.open = append(v.open, node)
			}
			return how
		},
		Post: func(node, by joeson.Parser) string {
			sym.Assert(len(v.open) > 0 && node == top(), "nested")
			v.open = v.open[:len(v.open)-1]
			sym.Assert(by == top(), "parent")
			return "__stop__"
		},
	})
	sym.Assert(res == from, "start")
	sym.Assert(len(v.open) == 0, "nested")
}

func printedAs(p joeson.Parser) string { return helpers.StripAnsi(p.String()) }

// C36_All: a walk of a grammar.
//
//verif:bounds grammars of three rules, the first any expression of operator depth <= 1 (thorough 2); walked from the grammar down, what is returned before a node being any text of up to 8 characters over _ s t o p once; then any text of length <= 2 over a b c parsed
//verif:expect nested parent start all order language
func C36_All() {
	compiler()
	g, gm := walkable(1 + deep(1))
	fresh := g.compile()
	var v visits
	odd := sym.StringIn("returned", 8, "_stop")
	sym.Assume(odd != "__stop__")
	v.walk(gm, nil, func(joeson.Parser) string { r := odd; odd = ""; return r })
	for i, name := range g.Names {
		// the last visit of the rule, from where all that is in it follows
		at := -1
		for j, n := range v.nodes {
			if joeson.IsRule(n) && strings.HasPrefix(helpers.StripAnsi(joeson.String(n)), name+": ") {
				at = j
			}
		}
		sym.Assert(at >= 0, "all")
		var leaves []string
		k := g.Body[i].parsers()
		sym.Assert(at+k <= len(v.nodes), "all")
		for _, n := range v.nodes[at : at+k] {
			s := printedAs(n)
			for _, l := range []string{"'", "/", "A", "B"} {
				if strings.HasPrefix(s, l) && !strings.ContainsAny(s[1:], "*?! |") {
					leaves = append(leaves, s)
					break
				}
			}
		}
		sym.Assert(strings.Join(leaves, "\n") == strings.Join(g.Body[i].shown(), "\n"), "order")
	}
	s := sym.StringIn("in", 2, "abc")
	x, y := gm.ParseString(s), fresh.ParseString(s)
	sym.Assert(outcome(x) == outcome(y), "language")
	if outcome(x) == accepted {
		sym.Assert(canon(x) == canon(y), "language")
	}
}

// C36_Stopped: a walk stopped at some node.
//
//verif:bounds the same grammars; the walk told to stop below any one of its nodes, against one which is not; also started at any node with any parent given
//verif:expect nested parent start stopped
func C36_Stopped() {
	compiler()
	_, gm := walkable(1 + deep(1))
	var all visits
	all.walk(gm, nil, func(joeson.Parser) string { return "" })
	// the nodes below each, by walks of their own
	at := sym.Int("at", 0, 60)
	sym.Assume(at < len(all.nodes))
	var below visits
	below.walk(all.nodes[at], gm, func(joeson.Parser) string { return "" })
	n := 0
	var v visits
	v.walk(gm, nil, func(joeson.Parser) string {
		n++
		if n-1 == at {
			return "__stop__"
		}
		return ""
	})
	sym.Assert(len(v.nodes) == len(all.nodes)-len(below.nodes)+1, "stopped")
	for i, x := range v.nodes {
		if i > at {
			i += len(below.nodes) - 1
		}
		sym.Assert(x == all.nodes[i], "stopped")
	}
	for i, x := range below.nodes {
		sym.Assert(x == all.nodes[at+i], "stopped")
	}
}
