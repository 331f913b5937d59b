package harness

import (
	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	"verif/sym"
)

// ---- C13 ----

var intention *joeson.Grammar

// intentionGrammar is joeson's grammar compiled from its own rule texts.
func intentionGrammar() *joeson.Grammar {
	if intention == nil {
		intention = grammarOf("intention", joeson.IntentionRules()...)
	}
	return intention
}

// compiled is what gm makes of rule text t: "" if it refuses it.
func compiled(gm *joeson.Grammar, t string) (printed string, refused bool) {
	p, r := try(func() joeson.Ast { return gm.ParseString(t) })
	if p != nil || outcome(r) == rejected {
		return "", true
	}
	return helpers.StripAnsi(r.String()), false
}

func agree(t string) {
	h, refused := compiled(compiler().Get(), t)
	i, other := compiled(intentionGrammar(), t)
	sym.Assert(refused == other, "reported")
	if refused || other {
		sym.Cover("invalid")
		return
	}
	sym.Cover("valid")
	sym.Assert(h == i, "printed")
}

// C13_Free: arbitrary text in the notation.
//
//verif:bounds rule texts: any text of length <= 4 (thorough 5) over a . _ : ' / [ ] ( ) * + ? ! { } , | & @ \ 1 space and newline
//verif:expect reported printed valid invalid
func C13_Free() {
	compiler()
	intentionGrammar()
	agree(sym.StringIn("rule", 4+deep(1), "a._:'/[]()*+?!{},|&@\\1 \n"))
}

var noted = [][2]string{
	{"'a'", ""}, {"a*", "b"}, {"x:", ""}, {"(a", ")"}, {"[a", "]"}, {"/a", "/"}, {"a{", "}"}, {"a b", " | c"},
	{"a{1,", "}"}, {"a*'b'", ""}, {"(?", "a)"}, {"a(", ")"}, {"(a: b)", ""}, {"@:", "a b"}, {"a | ", " b"}, {"'\\", "'"},
	{"(x:a)?", " y:b"}, {"(a ", " -> {b})"}, {"!", "(a b)"},
}

// C13_Templates: rule texts in which a few characters are open.
//
//verif:bounds 19 templates covering the notation, each with any text of length <= 2 (thorough 3) over a . _ : ' / [ ] ( ) * + ? ! { } , | & @ \ 1 space and newline at its open place
//verif:expect reported printed valid invalid
func C13_Templates() {
	compiler()
	intentionGrammar()
	t := noted[sym.Choose("template", len(noted))]
	agree(t[0] + sym.StringIn("rule", 2+deep(1), "a._:'/[]()*+?!{},|&@\\1 \n") + t[1])
}

// C13_Grammars: grammars of rules with several operators parse alike whichever
// of the two compiled them.
//
//verif:bounds all expressions over three leaves of nesting depth <= 1; texts over a b of length <= 3
//verif:expect language value accepted
func C13_Grammars() {
	compiler()
	lazy := joeson.GrammarOptions{TraceOptions: quiet(), LazyGrammar: helpers.LazyFromValue(intentionGrammar())}
	e := gen(1, leafAB)
	g := rules("", "S", e, "R", alt(lit("ab"), class("b")))
	h := g.compile()
	i := joeson.GrammarWithOptionsFromLines("gm", lazy, g.lines(nil))
	s := sym.StringIn("in", 3, "ab")
	a, b := h.ParseString(s), i.ParseString(s)
	sym.Assert(outcome(a) == outcome(b), "language")
	if outcome(a) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "value")
	}
}
