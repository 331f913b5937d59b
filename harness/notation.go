package harness

import (
	"regexp"

	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// notation reads rule texts, by recursive descent and on its own account.
type notation struct {
	s    string
	bad  bool // a class or regexp which does not compile
	read map[int]reading
}

// reading is what expr made of the text at some place.
type reading struct {
	end int
	x   *N
}

// parseRule gives the expression that the rule text s stands for, or nil.
func parseRule(s string) *N {
	n := &notation{s: s, read: map[int]reading{}}
	e, x := n.expr(0)
	if n.bad || e != len(s) {
		return nil
	}
	return x
}

func (n *notation) at(i int) byte {
	if i < len(n.s) {
		return n.s[i]
	}
	return 0
}

func (n *notation) blanks(i int) int {
	for n.at(i) == ' ' || n.at(i) == '\n' {
		i++
	}
	return i
}

func (n *notation) pipe(i int) int {
	if j := n.blanks(i); n.at(j) == '|' {
		return j + 1
	}
	return -1
}

func (n *notation) pipes(i int) int {
	for j := n.pipe(i); j >= 0; j = n.pipe(i) {
		i = j
	}
	return i
}

func (n *notation) expr(i int) (int, *N) {
	if r, ok := n.read[i]; ok {
		return r.end, r.x
	}
	e, x := n.choice(i)
	if e < 0 {
		e, x = -1, nil
	} else {
		e = n.blanks(e)
	}
	n.read[i] = reading{e, x}
	return e, x
}

func (n *notation) choice(i int) (int, *N) {
	var kids []*N
	e := n.pipes(i)
	for {
		j := e
		if len(kids) > 0 {
			if j = n.pipe(e); j < 0 {
				break
			}
		}
		f, x := n.sequence(j)
		if f < 0 {
			break
		}
		e = f
		kids = append(kids, x)
	}
	if len(kids) >= 2 {
		return n.pipes(e), alt(kids...)
	}
	return n.sequence(i)
}

func (n *notation) sequence(i int) (int, *N) {
	var kids []*N
	for {
		e, x := n.labeled(n.blanks(i))
		if e < 0 {
			break
		}
		i = e
		kids = append(kids, x)
	}
	switch len(kids) {
	case 0:
		return -1, nil
	case 1:
		return i, kids[0]
	}
	return i, seq(kids...)
}

func letter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '.' || c == '_'
}

func (n *notation) word(i int) int {
	if !letter(n.at(i)) {
		return -1
	}
	for letter(n.at(i)) || n.at(i) >= '0' && n.at(i) <= '9' {
		i++
	}
	return i
}

func (n *notation) labeled(i int) (int, *N) {
	label, at := "", i
	e := n.word(i)
	if e < 0 && (n.at(i) == '&' || n.at(i) == '@') {
		e = i + 1
	}
	if e >= 0 && n.at(e) == ':' {
		label, at = n.s[i:e], e+1
	}
	f, x := n.decorated(at)
	if f < 0 {
		f, x = n.primary(at)
	}
	if f >= 0 && label != "" {
		x = lab(label, x)
	}
	return f, x
}

func (n *notation) number(i int) (int, int) {
	v := -1
	for c := n.at(i); c >= '0' && c <= '9'; c = n.at(i) {
		if v < 0 {
			v = 0
		}
		v = v*10 + int(c-'0')
		i++
	}
	return i, v
}

func (n *notation) bounds(i int) (end, min, max int) {
	if n.at(i) != '{' {
		return -1, 0, 0
	}
	i, min = n.number(n.blanks(i + 1))
	if i = n.blanks(i); n.at(i) != ',' {
		return -1, 0, 0
	}
	i, max = n.number(n.blanks(i + 1))
	if i = n.blanks(i); n.at(i) != '}' {
		return -1, 0, 0
	}
	return i + 1, min, max
}

func (n *notation) decorated(i int) (int, *N) {
	if e, x := n.primary(i); e >= 0 {
		switch n.at(e) {
		case '?':
			return e + 1, opt(x)
		case '*', '+':
			p := star(x, nil)
			if n.at(e) == '+' {
				p = plus(x, nil)
			}
			many := n.at(e) == '*'
			e++
			if c := n.at(e); c != ' ' && c != '\n' {
				if f, j := n.primary(e); f >= 0 {
					e, p.Join = f, j
				}
			}
			if many {
				if f, min, max := n.bounds(e); f >= 0 {
					e, p.Min, p.Max = f, min, max
				}
			}
			return e, p
		case '{':
			if f, min, max := n.bounds(e); f >= 0 {
				return f, rep(x, min, max)
			}
		}
	}
	switch {
	case n.at(i) == '!':
		if e, x := n.primary(i + 1); e >= 0 {
			return e, not(x)
		}
	case n.at(i) == '(' && n.at(i+1) == '?':
		if e, x := n.expr(i + 2); e >= 0 && n.at(e) == ')' {
			return e + 1, look(x)
		}
	case n.at(i) == '?':
		if e, x := n.expr(i + 1); e >= 0 {
			return e, look(x)
		}
	}
	return -1, nil
}

func (n *notation) primary(i int) (int, *N) {
	if e := n.word(i); e >= 0 {
		if n.at(e) == '(' {
			if f, _ := n.expr(e + 1); f >= 0 && n.at(f) == ')' {
				return f + 1, ref(n.s[i:e])
			}
		}
		return e, ref(n.s[i:e])
	}
	switch n.at(i) {
	case '(':
		at := i + 1
		if e := n.word(at); e >= 0 && n.at(e) == ':' && n.at(e+1) == ' ' {
			at = e + 2
		}
		if e, x := n.expr(at); e >= 0 && n.at(e) == ')' {
			if x.K == 's' || x.K == '|' || x.Label != "" {
				return e + 1, x
			}
			return e + 1, x
		}
	case '\'':
		if e, t := n.quoted(i+1, '\'', false); e >= 0 {
			return e, lit(t)
		}
	case '[':
		if e, t := n.quoted(i+1, ']', true); e >= 0 {
			if _, err := regexp.Compile("[" + t + "]"); err != nil {
				n.bad = true
			}
			return e, &N{K: 'x', S: "[" + t + "]"}
		}
	case '/':
		if e, t := n.quoted(i+1, '/', true); e >= 0 {
			if _, err := regexp.Compile(t); err != nil {
				n.bad = true
			}
			return e, &N{K: 'x', S: t}
		}
	}
	return -1, nil
}

// quoted reads up to the delimiter; a backslash takes the next character
// along and is itself only kept if keep.
func (n *notation) quoted(i int, end byte, keep bool) (int, string) {
	t := ""
	for ; i < len(n.s); i++ {
		c := n.s[i]
		if c == end {
			return i + 1, t
		}
		if c == '\\' && i+1 < len(n.s) {
			if keep {
				t += "\\"
			}
			i++
			c = n.s[i]
		}
		t += string([]byte{c})
	}
	return -1, ""
}

// refs lists the names n refers to.
func (n *N) refs() []string {
	var r []string
	if n.K == 'r' {
		r = append(r, n.S)
	}
	for _, k := range n.Kids {
		r = append(r, k.refs()...)
	}
	if n.Join != nil {
		r = append(r, n.Join.refs()...)
	}
	return r
}

// read compiles the rule text t, next to rules a, b and R, and compares it
// with what the reference makes of it.
func read(t string, max int) {
	x := parseRule(t)
	var names []string
	if x != nil {
		names = x.refs()
	}
	for _, r := range names {
		if r != "a" && r != "b" && r != "R" {
			sym.Stop() // nothing is claimed about undefined rules
		}
	}
	var gm *joeson.Grammar
	refused := panics(func() {
		gm = grammarOf("gm",
			joeson.O(joeson.Named("S", t)),
			joeson.I(joeson.Named("a", "'a'")),
			joeson.I(joeson.Named("b", "[b]")),
			joeson.I(joeson.Named("R", "'ab' | 'b'")))
	})
	sym.Assert(refused == (x == nil), "reported")
	if refused {
		sym.Cover("invalid")
		return
	}
	sym.Cover("valid")
	g := rules("", "S", x, "a", lit("a"), "b", class("b"), "R", alt(lit("ab"), lit("b")))
	s := sym.StringIn("in", max, "ab")
	ok, _ := g.parse(s)
	sym.Assert((outcome(gm.ParseString(s)) == accepted) == ok, "language")
}
