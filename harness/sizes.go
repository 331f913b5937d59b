package harness

import (
	"strconv"
	"strings"

	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// ---- C31 ----

// altered is s with the byte at one of the given places (or none) open.
func altered(s string, places ...int) (t string, at int, b byte) {
	k := sym.Choose("place", len(places)+1)
	if k == len(places) {
		return s, -1, 0
	}
	at = places[k]
	if at < 0 {
		at += len(s)
	}
	x := sym.StringN("byte", 1)
	return s[:at] + x + s[at+1:], at, x[0]
}

// depth of nesting in brackets, -1 if t is not "(((x)))" with x in [ab].
func brackets(t string) int {
	n := 0
	for n < len(t) && t[n] == '(' {
		n++
	}
	if n >= len(t) || (t[n] != 'a' && t[n] != 'b') || len(t) != 2*n+1 {
		return -1
	}
	for i := n + 1; i < len(t); i++ {
		if t[i] != ')' {
			return -1
		}
	}
	return n
}

// C31_Nested: a text nested many levels deep.
//
//verif:bounds texts ((..a..)) of nesting 0, 1, 64, 500 or 3000, any byte in place of the first, a middle or the last bracket or of the letter; grammars with the brackets in the entry rule, in another, or tried three times at every level (there nesting 3000 only when thorough)
//verif:depth 120000
//verif:expect language value accepted refused
func C31_Nested() {
	compiler()
	var gm *joeson.Grammar
	kind := sym.Choose("grammar", 3)
	switch kind {
	case 0:
		gm = grammarOf("gm", joeson.O(joeson.Named("E", "'(' E ')' | [ab]")))
	case 1:
		gm = grammarOf("gm", joeson.O(joeson.Named("E", "F | T")), joeson.I(joeson.Named("F", "'(' x:E ')'")), joeson.I(joeson.Named("T", "[ab]")))
	default: // every level is tried twice more
		gm = grammarOf("gm", joeson.O(joeson.Named("E", "!('(' E '!') F | T")), joeson.I(joeson.Named("F", "'(' E '?x' | '(' E ')'")), joeson.I(joeson.Named("T", "[ab]")))
	}
	n := []int{0, 1, 64, 500, 3000}[sym.Choose("depth", 5)]
	if kind == 2 && n > 500 && !sym.Thorough() {
		sym.Stop()
	}
	s := strings.Repeat("(", n) + "a" + strings.Repeat(")", n)
	t, at, b := altered(s, 0, n/2, n, n+n/2, -1)
	res := gm.ParseString(t)
	ok := at < 0 || b == s[at] || at == n && b == 'b'
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if !ok {
		sym.Cover("refused")
		return
	}
	sym.Cover("accepted")
	if kind == 1 {
		for i := 0; i < n; i++ {
			res, _ = res.(*joeson.NativeMap).GetExists("x")
		}
	}
	sym.Assert(string(res.(joeson.NativeString)) == t[n:n+1], "value")
}

// C31_Repeated: a text of many elements.
//
//verif:bounds 1, 65, 600 or 2000 elements joined by commas, any byte in place of the first or last element, a middle element or comma; as a repetition with join, right recursion or left recursion (to 600)
//verif:depth 120000
//verif:expect language value accepted refused
func C31_Repeated() {
	compiler()
	kind := sym.Choose("grammar", 3)
	n := []int{1, 65, 600, 2000}[sym.Choose("elements", 4)]
	if kind == 2 && n > 600 {
		sym.Stop()
	}
	gm := grammarOf("gm", joeson.O(joeson.Named("S", []string{"E*','", "h:E t:(',' S)? | h:E", "l:S ',' r:E | E"}[kind])), joeson.I(joeson.Named("E", "[a-c]")))
	s := strings.Repeat("a,", n-1) + "b"
	places := []int{0, (n - 1) / 2 * 2, -1}
	if n > 1 {
		places = append(places, n/2*2-1)
	}
	t, at, b := altered(s, places...)
	res := gm.ParseString(t)
	ok := at < 0 || b == s[at] || at%2 == 0 && 'a' <= b && b <= 'c'
	sym.Assert((outcome(res) == accepted) == ok, "language")
	if !ok {
		sym.Cover("refused")
		return
	}
	sym.Cover("accepted")
	switch kind {
	case 0:
		a := res.(*joeson.NativeArray)
		sym.Assert(a.Length() == n, "value")
		for i := 0; i < n; i++ {
			sym.Assert(string(a.Get(i).(joeson.NativeString)) == t[2*i:2*i+1], "value")
		}
	case 1:
		for i := 0; i < n; i++ {
			m := res.(*joeson.NativeMap)
			h, _ := m.GetExists("h")
			sym.Assert(string(h.(joeson.NativeString)) == t[2*i:2*i+1], "value")
			res, _ = m.GetExists("t")
		}
		sym.Assert(joeson.IsUndefined(res), "value")
	case 2:
		for i := n - 1; i > 0; i-- {
			m := res.(*joeson.NativeMap)
			r, _ := m.GetExists("r")
			sym.Assert(string(r.(joeson.NativeString)) == t[2*i:2*i+1], "value")
			res, _ = m.GetExists("l")
		}
		sym.Assert(string(res.(joeson.NativeString)) == t[:1], "value")
	}
}

// C31_Rules: a grammar of many rules.
//
//verif:bounds 1, 31, 32, 33, 63, 64, 65 or 130 rules in a chain, left-recursive levels or a choice; texts that reach the first, a middle or the last rule, with any byte in place of one
//verif:depth 120000
//verif:expect language value accepted refused
func C31_Rules() {
	compiler()
	n := []int{1, 31, 32, 33, 63, 64, 65, 130}[sym.Choose("rules", 8)]
	kind := sym.Choose("grammar", 3)
	name := func(i int) string { return "R" + strconv.Itoa(i) }
	lines := []joeson.Line{}
	switch kind {
	case 0: // a chain: R0 = [a-z] R1 | '.'
		lines = append(lines, joeson.O(joeson.Named("S", "R0")))
		for i := 0; i < n; i++ {
			lines = append(lines, joeson.I(joeson.Named(name(i), "[a-z] "+name(i+1)+" | '.'")))
		}
		lines = append(lines, joeson.I(joeson.Named(name(n), "'!'")))
		gm := grammarOf("gm", lines...)
		k := []int{0, n / 2, n}[sym.Choose("reach", 3)]
		end := "."
		if k == n {
			end = "!"
		}
		s := strings.Repeat("q", k) + end
		t, at, b := altered(s, 0, k/2, k)
		res := gm.ParseString(t)
		ok := at < 0 || b == s[at] || at < k && 'a' <= b && b <= 'z'
		sym.Assert((outcome(res) == accepted) == ok, "language")
		reached(ok)
		if ok {
			sym.Assert(leaves(res) == t, "value")
		}
	case 1: // levels of left recursion: R0 = R0 '+' R1 | R1
		if n > 65 {
			sym.Stop()
		}
		lines = append(lines, joeson.O(joeson.Named("S", "R0")))
		for i := 0; i < n; i++ {
			lines = append(lines, joeson.I(joeson.Named(name(i), "l:"+name(i)+" '"+string("+*-"[i%3])+"' r:"+name(i+1)+" | "+name(i+1))))
		}
		lines = append(lines, joeson.I(joeson.Named(name(n), "[a-z]")))
		gm := grammarOf("gm", lines...)
		op := "+*-"[(n-1)%3 : (n-1)%3+1]
		s := "a" + op + "b" + op + "c"
		t, at, b := altered(s, 0, 1, 2, 3)
		ok := at < 0 || at%2 == 0 && 'a' <= b && b <= 'z' || at%2 == 1 && (b == op[0] || b == '+' || n > 1 && b == '*' || n > 2 && b == '-')
		res := gm.ParseString(t)
		sym.Assert((outcome(res) == accepted) == ok, "language")
		reached(ok)
		if ok {
			sym.Assert(leaves(res) == t[:1]+t[2:3]+t[4:], "value")
		}
	default: // a choice of rules: S = R0 | R1 | ...
		body := "R0"
		for i := 0; i < n; i++ {
			lines = append(lines, joeson.I(joeson.Named(name(i), "'"+strconv.Itoa(1000+i)+"' k:[ab]")))
			if i > 0 {
				body += " | " + name(i)
			}
		}
		gm := grammarOf("gm", append(lines, joeson.O(joeson.Named("S", body)))...)
		k := []int{0, n / 2, n - 1}[sym.Choose("reach", 3)]
		s := strconv.Itoa(1000+k) + "a"
		t, at, b := altered(s, 1, 3, 4)
		ok := false
		for i := 0; i < n; i++ {
			ok = sym.Or(ok, t[:4] == strconv.Itoa(1000+i))
		}
		if at == 4 {
			ok = b == 'a' || b == 'b'
		}
		res := gm.ParseString(t)
		sym.Assert((outcome(res) == accepted) == ok, "language")
		reached(ok)
		if ok {
			sym.Assert(leaves(res) == t[4:], "value")
		}
	}
}

func reached(ok bool) {
	if ok {
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

// C31_Body: a rule body of many elements.
//
//verif:bounds sequences and choices of 2, 40 or 300 elements; any byte in place of the first, a middle or the last
//verif:depth 120000
//verif:expect language value accepted refused
func C31_Body() {
	compiler()
	n := []int{2, 40, 300}[sym.Choose("elements", 3)]
	if sym.Bool("choice") {
		body := "'000'"
		for i := 1; i < n; i++ {
			body += " | '" + strconv.Itoa(1000 + i)[1:] + "'"
		}
		gm := grammarOf("gm", joeson.O(joeson.Named("S", body)))
		s := strconv.Itoa(1000 + n - 1)[1:]
		t, _, _ := altered(s, 0, 1, 2)
		ok := false
		for i := 0; i < n; i++ {
			ok = sym.Or(ok, t == strconv.Itoa(1000 + i)[1:])
		}
		res := gm.ParseString(t)
		sym.Assert((outcome(res) == accepted) == ok, "language")
		reached(ok)
		if ok {
			sym.Assert(string(res.(joeson.NativeString)) == t, "value")
		}
		return
	}
	gm := grammarOf("gm", joeson.O(joeson.Named("S", strings.Repeat("[a-c] 'x' ", n/2))))
	s := strings.Repeat("bx", n/2)
	t, at, b := altered(s, 0, n/2, -1)
	ok := at < 0 || b == s[at] || s[at] == 'b' && 'a' <= b && b <= 'c'
	res := gm.ParseString(t)
	sym.Assert((outcome(res) == accepted) == ok, "language")
	reached(ok)
	if ok {
		w := ""
		for i := 0; i < len(t); i += 2 {
			w += t[i : i+1]
		}
		sym.Assert(leaves(res) == w, "value")
	}
}
