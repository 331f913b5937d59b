// Package harness holds the proof obligations: ordinary Go functions over the
// public interface of joeson whose unknowns come from verif/sym.
package harness

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	"verif/sym"
)

// ---- grammars as data, and the meaning of parsing expressions ----

// N is a parsing expression.
//
//	'l' literal S       'c' class S (body of [...])   'x' regexp S
//	'r' reference S     's' sequence Kids             '|' choice Kids
//	'*' repetition of Kids[0] Min..Max joined by Join
//	'?' optional        '!' negative look-ahead       '&' look-ahead
type N struct {
	K     byte
	S     string
	Kids  []*N
	Join  *N
	Min   int  // -1: none
	Max   int  // -1: none
	Form  byte // '*', '+' or '{': how a repetition is written
	Label string
}

func lit(s string) *N   { return &N{K: 'l', S: s} }
func class(s string) *N { return &N{K: 'c', S: s} }
func ref(s string) *N   { return &N{K: 'r', S: s} }
func seq(k ...*N) *N    { return &N{K: 's', Kids: k} }
func alt(k ...*N) *N    { return &N{K: '|', Kids: k} }
func opt(k *N) *N       { return &N{K: '?', Kids: []*N{k}} }
func not(k *N) *N       { return &N{K: '!', Kids: []*N{k}} }
func look(k *N) *N      { return &N{K: '&', Kids: []*N{k}} }
func star(k, j *N) *N   { return &N{K: '*', Kids: []*N{k}, Join: j, Min: -1, Max: -1, Form: '*'} }
func plus(k, j *N) *N   { return &N{K: '*', Kids: []*N{k}, Join: j, Min: 1, Max: -1, Form: '+'} }
func rep(k *N, m, n int) *N {
	return &N{K: '*', Kids: []*N{k}, Min: m, Max: n, Form: '{'}
}
func repJoin(k, j *N, m, n int) *N {
	return &N{K: '*', Kids: []*N{k}, Join: j, Min: m, Max: n, Form: 'j'}
}
func lab(l string, n *N) *N {
	c := *n
	c.Label = l
	return &c
}

// text renders n in joeson's rule notation. level 0: anywhere; 1: element of
// a sequence; 2: operand of a postfix or prefix operator.
func (n *N) text(level int) string {
	if n.Label != "" {
		c := *n
		c.Label = ""
		s := n.Label + ":" + c.text(1)
		if level >= 2 {
			return "(" + s + ")"
		}
		return s
	}
	switch n.K {
	case 'l':
		return "'" + n.S + "'"
	case 'c':
		return "[" + n.S + "]"
	case 'x':
		return "/" + n.S + "/"
	case 'r':
		return n.S
	case 's':
		s := ""
		for i, k := range n.Kids {
			if i > 0 {
				s += " "
			}
			s += k.text(1)
		}
		if level >= 1 && len(n.Kids) > 1 {
			return "(" + s + ")"
		}
		return s
	case '|':
		s := ""
		for i, k := range n.Kids {
			if i > 0 {
				s += " | "
			}
			if k.K == 's' && k.Label == "" {
				s += k.text(0)
			} else {
				s += k.text(1)
			}
		}
		if level >= 1 {
			return "(" + s + ")"
		}
		return s
	}
	s := ""
	switch n.K {
	case '?':
		s = n.Kids[0].text(2) + "?"
	case '!':
		s = "!" + n.Kids[0].text(2)
	case '&':
		return "(?" + n.Kids[0].text(0) + ")"
	case '*':
		s = n.Kids[0].text(2)
		j := ""
		if n.Join != nil {
			j = n.Join.text(2)
		}
		rng := "{"
		if n.Min >= 0 {
			rng += strconv.Itoa(n.Min)
		}
		rng += ","
		if n.Max >= 0 {
			rng += strconv.Itoa(n.Max)
		}
		rng += "}"
		switch n.Form {
		case '*':
			s += "*" + j
		case '+':
			s += "+" + j
		case '{':
			s += rng
		case 'j':
			s += "*" + j + rng
		}
	}
	if level >= 2 {
		return "(" + s + ")"
	}
	return s
}

// V is an expected parse result.
type V struct {
	K    byte // 'u' undefined, 's' string, 'a' array, 'm' map
	S    string
	A    []*V
	Keys []string
	// the text the rule that returned it matched; none if Rule is ""
	Rule       string
	Start, End int
}

var undef = &V{K: 'u'}

func vstr(s string) *V { return &V{K: 's', S: s} }
func varr(a ...*V) *V  { return &V{K: 'a', A: a} }

// R is a grammar: named rules, the first is the entry.
type R struct {
	Names []string
	Body  []*N
	LR    string // names of the left-recursive rules, each followed by a space
	// cb is what the callback of a rule makes of a value
	cb    func(name string, v *V, start, end int) *V
	far   int // the furthest position at which a rule has matched
	seeds []seed
	grown []seed
	// entered: a rule of a cycle was wanted where it had been involved in
	// growing another rule of the cycle
	entered bool
}

// seed is what a left-recursive rule being grown at pos is for the time being.
type seed struct {
	name string
	pos  int
	end  int
	v    *V
	used bool   // it was recursive there
	with string // the left-recursive rules it involved
}

func (g *R) rule(name string) *N {
	for i, n := range g.Names {
		if n == name {
			return g.Body[i]
		}
	}
	return nil
}

// eval gives PEG meaning to n at pos: end < 0 on failure.
func (g *R) eval(n *N, in string, pos int) (end int, v *V) {
	switch n.K {
	case 'l':
		e := pos + len(n.S)
		if e <= len(in) && in[pos:e] == n.S {
			return e, vstr(n.S)
		}
		return -1, nil
	case 'c':
		if pos < len(in) && classHas(n.S, in[pos]) {
			return pos + 1, vstr(in[pos : pos+1])
		}
		return -1, nil
	case 'x':
		if loc := regexp.MustCompile("^(?:" + n.S + ")").FindStringIndex(in[pos:]); loc != nil {
			return pos + loc[1], vstr(in[pos : pos+loc[1]])
		}
		return -1, nil
	case 'r':
		return g.evalRule(n.S, in, pos)
	case 's':
		return g.evalSeq(n, in, pos)
	case '|':
		for _, k := range n.Kids {
			if e, v := g.eval(k, in, pos); e >= 0 {
				if k.Label != "" {
					v = &V{K: 'm', Keys: []string{k.Label}, A: []*V{v}}
				}
				return e, v
			}
		}
		return -1, nil
	case '?':
		if e, v := g.evalBody(n.Kids[0], in, pos); e >= 0 {
			return e, v
		}
		return pos, undef
	case '!':
		if e, _ := g.eval(n.Kids[0], in, pos); e >= 0 {
			return -1, nil
		}
		return pos, undef
	case '&':
		if e, _ := g.eval(n.Kids[0], in, pos); e >= 0 {
			return pos, undef
		}
		return -1, nil
	case '*':
		var a []*V
		p := pos
		for n.Max < 0 || len(a) < n.Max {
			q := p
			if len(a) > 0 && n.Join != nil {
				e, _ := g.eval(n.Join, in, q)
				if e < 0 {
					break
				}
				q = e
			}
			e, v := g.eval(n.Kids[0], in, q)
			if e < 0 {
				break
			}
			// an iteration that consumes nothing ends the repetition
			if e == p && n.Max < 0 && len(a) > 0 && len(a) >= n.Min {
				break
			}
			p = e
			a = append(a, v)
		}
		if n.Min > len(a) {
			return -1, nil
		}
		return p, varr(a...)
	}
	panic("eval: unknown kind")
}

// evalBody evaluates the body of a rule: a label on the whole makes a map.
func (g *R) evalBody(n *N, in string, pos int) (int, *V) {
	e, v := g.eval(n, in, pos)
	if e >= 0 && n.Label != "" {
		v = &V{K: 'm', Keys: []string{n.Label}, A: []*V{v}}
	}
	return e, v
}

func (g *R) callback(name string, e int, v *V, pos int) (int, *V) {
	if e < 0 {
		return e, v
	}
	if g.cb != nil {
		if v = g.cb(name, v, pos, e); v == nil {
			return -1, nil
		}
	}
	if v.K == 'm' || v.K == 'n' {
		c := *v
		c.Rule, c.Start, c.End = name, pos, e
		v = &c
	}
	return e, v
}

// evalRule evaluates a rule; a left-recursive one starts out as a failure and
// is evaluated again, being what it was the last time, as long as it grows.
func (g *R) evalRule(name, in string, pos int) (int, *V) {
	body := g.rule(name)
	if !strings.Contains(g.LR, name+" ") {
		e, v := g.evalBody(body, in, pos)
		e, v = g.callback(name, e, v, pos)
		if e >= 0 && pos > g.far {
			g.far = pos
		}
		return e, v
	}
	for i := len(g.seeds) - 1; i >= 0; i-- {
		if s := &g.seeds[i]; s.name == name && s.pos == pos {
			s.used = true
			return s.end, s.v
		}
	}
	for i := range g.seeds {
		if s := &g.seeds[i]; s.pos == pos {
			s.with += name + " "
		}
	}
	for _, s := range g.grown {
		if s.pos == pos && s.name != name && strings.Contains(s.with, name+" ") {
			g.entered = true
		}
	}
	g.seeds = append(g.seeds, seed{name: name, pos: pos, end: -1})
	k := len(g.seeds) - 1
	start := len(g.grown)
	for {
		g.grown = g.grown[:start]
		e, v := g.evalBody(body, in, pos)
		e, v = g.callback(name, e, v, pos)
		if e < 0 || e <= g.seeds[k].end {
			break
		}
		g.seeds[k].end, g.seeds[k].v = e, v
	}
	r := g.seeds[k]
	g.seeds = g.seeds[:k]
	if r.used {
		g.grown = append(g.grown, r)
	}
	return r.end, r.v
}

// captures tells whether n adds a value to the sequence it stands in.
func (n *N) captures() bool {
	switch n.K {
	case 'l', '!', '&':
		return false
	case 'r':
		return n.S[0] != '_'
	case '|':
		for _, k := range n.Kids {
			if !k.captures() {
				return false
			}
		}
		return true
	case '?', '*':
		return n.Kids[0].captures()
	case 's':
		for _, k := range n.Kids {
			if k.captures() {
				return true
			}
		}
		return false
	}
	return true
}

// grouped: an optional group with labels, which joins the labels of the
// sequence it stands in.
func (n *N) grouped() bool {
	if n.K != '?' || n.Label != "" {
		return false
	}
	k := n.Kids[0]
	if k.Label != "" {
		return true
	}
	if k.K == 's' {
		for _, x := range k.Kids {
			if x.Label != "" || x.grouped() {
				return true
			}
		}
	}
	return k.grouped()
}

// set gives key k of map v a value, at the end if it is new.
func (v *V) set(k string, x *V) {
	for i, old := range v.Keys {
		if old == k {
			v.A[i] = x
			return
		}
	}
	v.Keys = append(v.Keys, k)
	v.A = append(v.A, x)
}

func (g *R) evalSeq(n *N, in string, pos int) (int, *V) {
	labels := false
	for _, k := range n.Kids {
		if k.Label != "" || k.grouped() {
			labels = true
		}
	}
	var a []*V
	m := &V{K: 'm'}
	some := false
	p := pos
	for _, k := range n.Kids {
		e, v := g.eval(k, in, p)
		if e < 0 {
			return -1, nil
		}
		p = e
		switch {
		case !labels:
			if k.captures() {
				a = append(a, v)
			}
		case k.Label == "@" || k.grouped():
			if v.K == 'm' {
				some = true
				for i, key := range v.Keys {
					m.set(key, v.A[i])
				}
			}
		case k.Label == "&":
			if v.K == 'm' {
				some = true
				o := &V{K: 'm'}
				for i, key := range v.Keys {
					o.set(key, v.A[i])
				}
				for i, key := range m.Keys {
					o.set(key, m.A[i])
				}
				m = o
			}
		case k.Label != "":
			some = true
			m.set(k.Label, v)
		}
	}
	if labels {
		if !some {
			return p, undef
		}
		return p, m
	}
	switch len(a) {
	case 0:
		if len(n.Kids) == 1 {
			break
		}
		return p, undef
	case 1:
		return p, a[0]
	}
	if len(n.Kids) == 1 {
		_, v := g.eval(n.Kids[0], in, pos)
		return p, v
	}
	return p, varr(a...)
}

// show renders v as canon renders a result.
func (v *V) show() string {
	switch v.K {
	case 's':
		return "'" + v.S + "'"
	case 'a':
		s := "["
		for i, x := range v.A {
			if i > 0 {
				s += ","
			}
			s += x.show()
		}
		return s + "]"
	case 'm':
		s := "{"
		for i, x := range v.A {
			if i > 0 {
				s += ","
			}
			s += v.Keys[i] + ":" + x.show()
		}
		return s + "}"
	}
	return "U"
}

// classHas: c is in the class body s (letters, digits and ranges).
func classHas(s string, c byte) bool {
	r := false
	for i := 0; i < len(s); i++ {
		if i+2 < len(s) && s[i+1] == '-' {
			r = sym.Or(r, sym.And(s[i] <= c, c <= s[i+2]))
			i += 2
		} else {
			r = sym.Or(r, c == s[i])
		}
	}
	return r
}

// parse is the expected outcome for a whole text.
func (g *R) parse(in string) (ok bool, v *V) {
	e, v := g.evalRule(g.Names[0], in, 0)
	if e < 0 {
		return false, nil
	}
	return e == len(in), v
}

// ---- the real thing ----

var joesonGrammar *joeson.Grammar

func quiet() *joeson.TraceOptions { return joeson.Mute() }

// compiler returns the grammar that compiles rule texts, built once.
func compiler() *helpers.Lazy[*joeson.Grammar] {
	if joesonGrammar == nil {
		joesonGrammar = joeson.NewJoesonWithOptions(quiet())
	}
	return helpers.LazyFromValue(joesonGrammar)
}

func grammarOf(name string, lines ...joeson.Line) *joeson.Grammar {
	return joeson.GrammarWithOptionsFromLines(name, joeson.GrammarOptions{TraceOptions: quiet(), LazyGrammar: compiler()}, lines)
}

func (g *R) lines(extra func(i int) []any) []joeson.Line {
	var l []joeson.Line
	for i, n := range g.Names {
		a := []any{joeson.Named(n, g.Body[i].text(0))}
		if extra != nil {
			a = append(a, extra(i)...)
		}
		if i == 0 {
			l = append(l, joeson.O(a...))
		} else {
			l = append(l, joeson.I(a...))
		}
	}
	return l
}

func (g *R) compile() *joeson.Grammar { return grammarOf("gm", g.lines(nil)...) }

func (g *R) show() string {
	s := ""
	for i, n := range g.Names {
		s += n + " = " + g.Body[i].text(0) + "; "
	}
	return s
}

// outcome classes of a parse
const (
	accepted = iota
	rejected // nil or ParseError
)

func outcome(a joeson.Ast) int {
	if a == nil || joeson.IsParseError(a) {
		return rejected
	}
	return accepted
}

// same compares a parse result with what is expected.
func same(a joeson.Ast, v *V) bool {
	switch v.K {
	case 'u':
		_, ok := a.(joeson.NativeUndefined)
		return ok
	case 's':
		s, ok := a.(joeson.NativeString)
		if !ok {
			return false
		}
		return string(s) == v.S
	case 'a':
		x, ok := a.(*joeson.NativeArray)
		if !ok || x.Length() != len(v.A) {
			return false
		}
		r := true
		for i, y := range v.A {
			r = sym.And(r, same(x.Get(i), y))
		}
		return r
	case 'm':
		x, ok := a.(*joeson.NativeMap)
		if !ok {
			return false
		}
		keys := x.Keys()
		if len(keys) != len(v.Keys) {
			return false
		}
		r := true
		for i, k := range v.Keys {
			y, ok := x.GetExists(k)
			if !ok {
				return false
			}
			r = sym.And(r, same(y, v.A[i]))
		}
		return r
	}
	return false
}

// canon renders a parse result.
func canon(a joeson.Ast) string {
	switch x := a.(type) {
	case nil:
		return "nil"
	case joeson.NativeUndefined:
		return "U"
	case joeson.NativeString:
		return "'" + string(x) + "'"
	case joeson.NativeInt:
		return "#" + strconv.Itoa(x.Int())
	case *joeson.NativeArray:
		s := "["
		for i := 0; i < x.Length(); i++ {
			if i > 0 {
				s += ","
			}
			s += canon(x.Get(i))
		}
		return s + "]"
	case *joeson.NativeMap:
		s := "{"
		for i, k := range x.Keys() {
			if i > 0 {
				s += ","
			}
			y, _ := x.GetExists(k)
			s += k + ":" + canon(y)
		}
		return s + "}"
	case joeson.ParseError:
		return "ParseError"
	}
	return "?"
}

// alphabets
const (
	ascii    = "\x00\x01\x02\x03\x04\x05\x06\x07\x08\t\n\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\x7f"
	asciiNNL = "\x00\x01\x02\x03\x04\x05\x06\x07\x08\t\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\x7f"
)
