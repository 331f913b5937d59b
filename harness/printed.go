package harness

import (
	"strconv"
	"strings"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	"verif/sym"
)

// ---- C35 ----

// traces are the lines printed since the last time, without colours.
func traces() []string {
	out := plain(sym.Printed())
	sym.Assert(out == "" || out[len(out)-1] == '\n', "lines")
	if out == "" {
		return nil
	}
	return strings.Split(out[:len(out)-1], "\n")
}

// atLine tells whether a traced step was at the given line.
func atLine(step string, line string) bool {
	return strings.HasPrefix(step, line+",")
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C35_Quiet: without traces nothing is printed.
//
//verif:bounds building the compiler of rule texts and 7 grammars without traces, or one that has Stack or Loop set afterwards and is told SkipLog; texts of length <= 3 (thorough 4) over the grammar's alphabet, parsed with up to three options that ask for nothing, as a string or as tokens
//verif:expect nothing
func C35_Quiet() {
	sym.Capture()
	compiler()
	sym.Assert(sym.Printed() == "", "nothing")
	g := pick(traced)
	gm := g.build(nil)
	sym.Assert(sym.Printed() == "", "nothing")
	s := sym.StringIn("in", 3+deep(1), g.alphabet)
	switch sym.Choose("how", 5) {
	case 0:
		gm.ParseString(s)
	case 1:
		gm.ParseString(s, joeson.SkipCache{Bool: true}, joeson.SkipLog{Bool: false}, joeson.Debug{Bool: false})
	case 2:
		gm.ParseTokens(joeson.NewTokenStream(s, []joeson.Token{{Repr: s}}))
		_ = gm.String()
		gm.CountRules()
	case 3:
		gm.TraceOptions = &joeson.TraceOptions{Stack: true, Loop: sym.Bool("loop"), Grammar: true, FilterLine: -1}
		gm.ParseString(s, joeson.SkipLog{Bool: true})
	case 4:
		gm.ParseString(s, joeson.Debug{Bool: true}, joeson.SkipLog{Bool: true})
	}
	sym.Assert(sym.Printed() == "", "nothing")
}

// C35_Steps: the steps of a parse, of one line, of that parse only.
//
//verif:bounds 7 grammars; Stack against the Debug option of one parse, and any line filter from -2 to 4; texts of length <= 3 (thorough 4) over the grammar's alphabet
//verif:expect some last debug filter over
func C35_Steps() {
	compiler()
	g := pick(traced)
	gm, stack := g.build(nil), g.build(nil)
	stack.TraceOptions = &joeson.TraceOptions{Stack: true, FilterLine: -1}
	s := sym.StringIn("in", 3+deep(1), g.alphabet)
	sym.Capture()
	res := stack.ParseString(s)
	all := traces()
	// where the first rule is wanted, at least
	sym.Assert(len(all) > 1 && strings.HasPrefix(all[0], "0,0\t"), "some")
	if outcome(res) == accepted {
		line, col := lineCol(s, len(s))
		last := all[len(all)-1]
		sym.Assert(strings.HasPrefix(last, strconv.Itoa(line)+","+strconv.Itoa(col)+"\t"), "last")
		sym.Assert(strings.Contains(last, helpers.Escape(res.String())), "last")
	}
	for _, l := range all {
		sym.Assert(len(l) > 1 && '0' <= l[0] && l[0] <= '3' && l[1] == ',', "some")
	}
	if sym.Bool("debug") {
		gm.ParseString(s, joeson.Debug{Bool: true})
		sym.Assert(sameLines(traces(), all), "debug")
		gm.ParseString(s)
		sym.Assert(len(traces()) == 0, "over")
		gm.ParseString(s, joeson.Debug{Bool: true})
		sym.Assert(sameLines(traces(), all), "debug")
		return
	}
	n := sym.Choose("filter", 7) - 2
	stack.TraceOptions = &joeson.TraceOptions{Stack: true, FilterLine: n}
	stack.ParseString(s)
	var some []string
	for _, l := range all {
		if n == -1 || n >= 0 && atLine(l, "01234"[n:n+1]) {
			some = append(some, l)
		}
	}
	sym.Assert(sameLines(traces(), some), "filter")
}

// C35_Rules: the steps of rules that are traced.
//
//verif:bounds 7 grammars; each of their rules alone given Debug; texts of length <= 3 (thorough 4) over the grammar's alphabet
//verif:expect part whole named
func C35_Rules() {
	compiler()
	g := pick(traced)
	var gms []*joeson.Grammar
	for i := range g.rules {
		i := i
		gms = append(gms, g.build(func(k int) []any {
			if i != k {
				return nil
			}
			return []any{joeson.Debug{Bool: true}}
		}))
	}
	stack := g.build(nil)
	stack.TraceOptions = &joeson.TraceOptions{Stack: true, FilterLine: -1}
	s := sym.StringIn("in", 3+deep(1), g.alphabet)
	sym.Capture()
	stack.ParseString(s)
	all := traces()
	n := 0
	for i, gm := range gms {
		gm.ParseString(s)
		part := traces()
		n += len(part)
		k := 0
		for _, l := range all {
			if k < len(part) && l == part[k] {
				k++
			}
		}
		sym.Assert(k == len(part), "part")
		if len(part) > 0 {
			sym.Assert(strings.Contains(part[0], "* "+g.rules[i][0]+": "), "named")
		}
	}
	sym.Assert(n == len(all), "whole")
}

// C35_Setup: what building a grammar prints.
//
//verif:bounds 7 grammars built with any trace options, the line filter off
//verif:expect rules loop steps
func C35_Setup() {
	compiler()
	g := pick(traced)
	to := anyOptions()
	sym.Assume(to.FilterLine == -1)
	sym.Capture()
	lines := []joeson.Line{}
	for i, r := range g.rules {
		if i == 0 {
			lines = append(lines, joeson.O(joeson.Named(r[0], r[1])))
		} else {
			lines = append(lines, joeson.I(joeson.Named(r[0], r[1])))
		}
	}
	gm := joeson.GrammarWithOptionsFromLines("title", joeson.GrammarOptions{TraceOptions: to, LazyGrammar: compiler()}, lines)
	rows, loops, steps := make([]int, len(g.rules)), make([]int, len(g.rules)), 0
	for _, l := range traces() {
		found := false
		for i, r := range g.rules {
			if strings.HasPrefix(l, "|   "+r[0]+" ") {
				rows[i]++
				found = true
			}
			if strings.HasPrefix(l, "Loop ") && strings.Contains(l, ":\t"+r[0]+": ") {
				loops[i]++
				found = true
			}
		}
		if !found && l != "" && '0' <= l[0] && l[0] <= '9' {
			steps++
		} else {
			sym.Assert(found || strings.HasPrefix(l, "|") || strings.HasPrefix(l, "+--"), "rules")
			sym.Assert(to.Grammar || strings.HasPrefix(l, "Loop "), "rules")
		}
	}
	for i := range g.rules {
		want := 0
		if to.Grammar {
			want = 1
		}
		sym.Assert(rows[i] == want, "rules")
		want = 0
		if to.Loop {
			want = 1
		}
		sym.Assert(loops[i] == want, "loop")
	}
	sym.Assert((steps > 0) == sym.And(to.Stack, !to.SkipSetup), "steps")
	// asked for
	gm.PrintRules()
	n := 0
	for _, l := range traces() {
		for _, r := range g.rules {
			if strings.HasPrefix(l, "|   "+r[0]+" ") {
				n++
			}
		}
	}
	sym.Assert(n == len(g.rules), "rules")
}
