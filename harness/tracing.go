package harness

import (
	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C27 ----

var traced = []*G{
	historical[0], historical[2], historical[3], historical[4], historical[5],
	{"ab\n", [][2]string{
		{"S", "!A (?B) C{1,2} | A+[\n] | D"},
		{"A", "'a' B?"},
		{"B", "x:[ab]* @:(y:[\n])?"},
		{"C", "B D* | '\n'"},
		{"D", "D 'a' | D A | [b]"},
	}},
	{"ab\n", [][2]string{
		{"A", "B 'a' | '\n'"},
		{"B", "C 'b' | A"},
		{"C", "A '\n' | 'b'"},
	}},
}

// parseOptions are any of the options of a single parse.
func parseOptions() (o []joeson.ParseOption) {
	switch sym.Choose("options", 4) {
	case 1:
		o = append(o, joeson.Debug{Bool: true})
	case 2:
		o = append(o, joeson.SkipLog{Bool: true})
	case 3:
		o = append(o, joeson.Debug{Bool: true}, joeson.SkipLog{Bool: sym.Bool("skiplog")}, joeson.SkipCache{Bool: true})
	}
	return o
}

// quietly compares what a traced parse made of s with a silent one.
func quietly(a, b joeson.Ast) {
	sym.Assert((a == nil) == (b == nil), "outcome")
	sym.Assert(outcome(a) == outcome(b), "outcome")
	if outcome(b) == accepted {
		sym.Cover("accepted")
		sym.Assert(canon(a) == canon(b), "value")
	} else if e, ok := b.(joeson.ParseError); ok {
		sym.Assert(e.ErrorString == a.(joeson.ParseError).ErrorString, "message")
	}
}

// C27_Options: any trace options of the grammar and any options of the parse.
//
//verif:bounds 7 grammars (every operator, direct, indirect and no left recursion, labels, newlines); any trace options, the line filter any number from -1 to 100, combined with Debug, SkipLog or SkipCache options for the parse; texts of length <= 3 over the grammar's alphabet
//verif:expect outcome value message options accepted
func C27_Options() {
	compiler()
	g := pick(traced)
	silent, gm := g.build(nil), g.build(nil)
	to := anyOptions()
	before := to.Copy()
	gm.TraceOptions = to
	o := parseOptions()
	s := sym.StringIn("in", 3, g.alphabet)
	quietly(gm.ParseString(s, o...), silent.ParseString(s))
	sym.Assert(sameOptions(gm.TraceOptions, before), "options")
}

// C27_Bytes: every trace on, any text.
//
//verif:bounds 2 grammars over every byte, every trace on or just the line filter's line 0; texts: any bytes, length <= 2 (thorough 3)
//verif:expect outcome value message accepted
func C27_Bytes() {
	compiler()
	g := pick([]*G{
		{"", [][2]string{{"S", "x:T y:S?"}, {"T", "(?[^a]) [^\n] | [\n]"}}},
		{"", [][2]string{{"E", "E [\\x00-+] T | T"}, {"T", "[^\\x00-+] | /(?s).\\xff/"}}},
	})
	silent, gm := g.build(nil), g.build(nil)
	gm.TraceOptions = &joeson.TraceOptions{Stack: true, Loop: true, Grammar: true, FilterLine: sym.Choose("filter", 2) - 1}
	s := sym.String("in", 2+deep(1))
	quietly(gm.ParseString(s), silent.ParseString(s))
}

// C27_Rules: options given to rules.
//
//verif:bounds the same 7 grammars, any one rule with any of Debug, SkipLog or both, with a callback or without; Stack traces on or off; texts of length <= 3
//verif:expect outcome value message accepted
func C27_Rules() {
	compiler()
	g := pick(traced)
	silent := g.build(nil)
	rule := sym.Choose("rule", 5)
	if rule >= len(g.rules) {
		sym.Stop()
	}
	kind := sym.Choose("kind", 5)
	gm := g.build(func(i int) []any {
		if i != rule {
			return nil
		}
		id := func(a joeson.Ast) joeson.Ast { return a }
		switch kind {
		case 0:
			return []any{joeson.Debug{Bool: true}}
		case 1:
			return []any{joeson.SkipLog{Bool: true}}
		case 2:
			return []any{joeson.Debug{Bool: true}, joeson.SkipLog{Bool: true}}
		case 3:
			return []any{id, joeson.Debug{Bool: true}}
		}
		return []any{joeson.Debug{Bool: true}, id}
	})
	gm.TraceOptions.Stack = sym.Bool("stack")
	s := sym.StringIn("in", 3, g.alphabet)
	quietly(gm.ParseString(s), silent.ParseString(s))
}

// C27_Setup: traces while the grammar itself is built, with the shared
// compiler or its own.
//
//verif:bounds one of 3 grammars built with any trace options (the line filter from -1 to 2); texts of length <= 3
//verif:expect outcome value message options accepted
func C27_Setup() {
	compiler()
	g := []*G{traced[1], traced[2], traced[5]}[sym.Choose("grammar", 3)]
	silent := g.build(nil)
	to := anyOptions()
	sym.Assume(to.FilterLine <= 2)
	before := to.Copy()
	var lines []joeson.Line
	for i, r := range g.rules {
		if i == 0 {
			lines = append(lines, joeson.O(joeson.Named(r[0], r[1])))
		} else {
			lines = append(lines, joeson.I(joeson.Named(r[0], r[1])))
		}
	}
	gm := joeson.GrammarWithOptionsFromLines("gm", joeson.GrammarOptions{TraceOptions: to, LazyGrammar: compiler()}, lines)
	sym.Assert(sameOptions(to, before), "options")
	s := sym.StringIn("in", 3, g.alphabet)
	quietly(gm.ParseString(s), silent.ParseString(s))
	sym.Assert(sameOptions(gm.TraceOptions, before), "options")
}

// C27_Aborted: the options are restored when a callback panics.
//
//verif:bounds the same 7 grammars, any rule's callback panicking when first called; any trace options; Debug, SkipLog and SkipCache options for the parse; texts of length <= 3
//verif:expect options aborted
func C27_Aborted() {
	compiler()
	g := pick(traced)
	bad := sym.Choose("bad", 5)
	if bad >= len(g.rules) {
		sym.Stop()
	}
	gm := g.build(func(i int) []any {
		if i != bad {
			return nil
		}
		return []any{func(a joeson.Ast) joeson.Ast { panic("abort") }}
	})
	to := anyOptions()
	before := to.Copy()
	gm.TraceOptions = to
	o := parseOptions()
	p, _ := try(func() joeson.Ast { return gm.ParseString(sym.StringIn("in", 3, g.alphabet), o...) })
	if p != nil {
		sym.Cover("aborted")
	}
	sym.Assert(gm.TraceOptions == to, "options")
	sym.Assert(sameOptions(to, before), "options")
}
