package engine

import (
	"regexp"
	"regexp/syntax"
	"unicode"
)

// reNative is a compiled regular expression. Matching on symbolic text is a
// prioritised backtracking search over the same program package regexp runs,
// deciding each rune class symbolically.
type reNative struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
	err  error
}

func (m *M) reCompile(src string) *reNative {
	re, err := regexp.Compile(src)
	if err != nil {
		return &reNative{src: src, err: err}
	}
	p, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return &reNative{src: src, err: err}
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return &reNative{src: src, err: err}
	}
	return &reNative{src: src, re: re, prog: prog}
}

func quoteMeta(s string) string { return regexp.QuoteMeta(s) }

func reCompile(must bool) Intrinsic {
	return func(m *M, fr *Frame, a []Value) Value {
		src := m.concStr(a[0])
		n := m.reCompile(src)
		if n.err != nil {
			if must {
				m.throw(Value{o: &Iface{m.rtype(stringType), strV("regexp: Compile(" + src + "): " + n.err.Error())}})
			}
			return tuple(Value{}, m.plainError(n.err.Error()))
		}
		p := &Value{o: &Native{n}}
		if must {
			return Value{o: p}
		}
		return tuple(Value{o: p}, Value{})
	}
}

func reM(f func(m *M, re *reNative, a []Value) Value) Intrinsic {
	return func(m *M, fr *Frame, a []Value) Value {
		p := slot(m, a[0])
		n, ok := p.o.(*Native)
		if !ok {
			panic(engineError("method of a zero regexp.Regexp"))
		}
		return f(m, n.v.(*reNative), a)
	}
}

// reFind returns capture positions of the leftmost match at or after from.
func (m *M) reFind(re *reNative, s Value, from int) []int {
	if c, ok := conc(s); ok {
		if from > 0 {
			// keep the context before from: use the symbolic matcher's rules
			return m.reSearch(re, strBytes(s), from)
		}
		return re.re.FindStringSubmatchIndex(c)
	}
	return m.reSearch(re, strBytes(s), from)
}

func (m *M) reSearch(re *reNative, b []Value, from int) []int {
	ncap := re.re.NumSubexp()*2 + 2
	for start := from; start <= len(b); {
		s := &reState{m: m, p: re.prog, b: b, seen: map[[2]int]bool{}, caps: make([]int, ncap)}
		for i := range s.caps {
			s.caps[i] = -1
		}
		s.caps[0] = start
		if s.run(uint32(re.prog.Start), start) {
			return s.caps
		}
		if start == len(b) {
			break
		}
		if re.anchored() {
			return nil
		}
		_, n := m.decodeRune(b[start:])
		start += n
	}
	return nil
}

func (re *reNative) anchored() bool {
	return re.prog.StartCond()&syntax.EmptyBeginText != 0
}

type reState struct {
	m    *M
	p    *syntax.Prog
	b    []Value
	seen map[[2]int]bool
	caps []int
}

// run explores in priority order. (pc,pos) pairs already tried have failed.
func (s *reState) run(pc uint32, pos int) bool {
	k := [2]int{int(pc), pos}
	if s.seen[k] {
		return false
	}
	s.seen[k] = true
	in := &s.p.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		return s.run(in.Out, pos) || s.run(in.Arg, pos)
	case syntax.InstCapture:
		if int(in.Arg) < len(s.caps) {
			old := s.caps[in.Arg]
			s.caps[in.Arg] = pos
			if s.run(in.Out, pos) {
				return true
			}
			s.caps[in.Arg] = old
			return false
		}
		return s.run(in.Out, pos)
	case syntax.InstEmptyWidth:
		if !s.empty(syntax.EmptyOp(in.Arg), pos) {
			return false
		}
		return s.run(in.Out, pos)
	case syntax.InstMatch:
		s.caps[1] = pos
		return true
	case syntax.InstFail:
		return false
	case syntax.InstNop:
		return s.run(in.Out, pos)
	case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		if pos >= len(s.b) {
			return false
		}
		r, n := s.m.decodeRune(s.b[pos:])
		if !s.match(in, r) {
			return false
		}
		return s.run(in.Out, pos+n)
	}
	panic(engineError("regexp instruction " + in.Op.String()))
}

func (s *reState) match(in *syntax.Inst, r Value) bool {
	if r.o == nil {
		return in.MatchRune(rune(int32(uint32(r.n))))
	}
	m := s.m
	t := m.t
	e := m.expr(r, 32)
	c := func(x rune) *Expr { return t.Const(32, uint64(uint32(x))) }
	switch in.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return m.decide(t.Not(t.Eq(e, c('\n'))))
	}
	cond := t.False
	if len(in.Rune) == 1 {
		r0 := in.Rune[0]
		cond = t.Eq(e, c(r0))
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
				cond = t.Or(cond, t.Eq(e, c(r1)))
			}
		}
		return m.decide(cond)
	}
	for i := 0; i+1 < len(in.Rune); i += 2 {
		lo, hi := in.Rune[i], in.Rune[i+1]
		if lo == hi {
			cond = t.Or(cond, t.Eq(e, c(lo)))
		} else {
			cond = t.Or(cond, t.And(t.Cmp(OUle, c(lo), e), t.Cmp(OUle, e, c(hi))))
		}
	}
	return m.decide(cond)
}

func (s *reState) empty(op syntax.EmptyOp, pos int) bool {
	m := s.m
	t := m.t
	nl := func(i int) bool { return m.decide(t.Eq(m.expr(s.b[i], 8), t.Const(8, '\n'))) }
	word := func(i int) bool {
		if i < 0 || i >= len(s.b) {
			return false
		}
		e := m.expr(s.b[i], 8)
		c := t.False
		for _, r := range [][2]byte{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}} {
			c = t.Or(c, t.And(t.Cmp(OUle, t.Const(8, uint64(r[0])), e), t.Cmp(OUle, e, t.Const(8, uint64(r[1])))))
		}
		return m.decide(c)
	}
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != len(s.b) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 && !nl(pos-1) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && pos != len(s.b) && !nl(pos) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := word(pos-1) != word(pos)
		if op&syntax.EmptyWordBoundary != 0 && !b {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

func ints(x []int) Value {
	if x == nil {
		return Value{}
	}
	r := make([]Value, len(x))
	for i, v := range x {
		r[i] = intV(v)
	}
	return Value{o: &Slice{r}}
}

func reFindStringIndex(m *M, re *reNative, a []Value) Value {
	loc := m.reFind(re, a[1], 0)
	if loc == nil {
		return Value{}
	}
	return ints(loc[:2:2])
}

func reFindString(m *M, re *reNative, a []Value) Value {
	loc := m.reFind(re, a[1], 0)
	if loc == nil {
		return Value{}
	}
	return substr(a[1], loc[0], loc[1])
}

func reFindStringSubmatchIndex(m *M, re *reNative, a []Value) Value {
	return ints(m.reFind(re, a[1], 0))
}

func reFindStringSubmatch(m *M, re *reNative, a []Value) Value {
	loc := m.reFind(re, a[1], 0)
	if loc == nil {
		return Value{}
	}
	r := make([]Value, len(loc)/2)
	for i := range r {
		if loc[2*i] >= 0 {
			r[i] = substr(a[1], loc[2*i], loc[2*i+1])
		}
	}
	return Value{o: &Slice{r}}
}

// reAll enumerates successive non-overlapping matches as package regexp does.
func (m *M) reAll(re *reNative, s Value, n int) [][]int {
	if c, ok := conc(s); ok {
		return re.re.FindAllStringSubmatchIndex(c, n)
	}
	b := strBytes(s)
	var out [][]int
	prevEnd := -1
	for pos := 0; pos <= len(b) && (n < 0 || len(out) < n); {
		loc := m.reSearch(re, b, pos)
		if loc == nil {
			break
		}
		accept := true
		if loc[1] == pos {
			if loc[0] == prevEnd {
				accept = false
			}
			if pos < len(b) {
				_, w := m.decodeRune(b[pos:])
				pos += w
			} else {
				pos = len(b) + 1
			}
		} else {
			pos = loc[1]
		}
		prevEnd = loc[1]
		if accept {
			out = append(out, loc)
		}
	}
	return out
}

func reFindAllString(m *M, re *reNative, a []Value) Value {
	all := m.reAll(re, a[1], int(m.intOf(a[2], 64)))
	if all == nil {
		return Value{}
	}
	var r []Value
	for _, l := range all {
		r = append(r, substr(a[1], l[0], l[1]))
	}
	return Value{o: &Slice{r}}
}

func reFindAllStringIndex(m *M, re *reNative, a []Value) Value {
	all := m.reAll(re, a[1], int(m.intOf(a[2], 64)))
	if all == nil {
		return Value{}
	}
	var r []Value
	for _, l := range all {
		r = append(r, ints(l[:2:2]))
	}
	return Value{o: &Slice{r}}
}

func reReplaceAllLiteralString(m *M, re *reNative, a []Value) Value {
	if c, ok := conc(a[1]); ok {
		if r, ok := conc(a[2]); ok {
			return strV(re.re.ReplaceAllLiteralString(c, r))
		}
	}
	out := Value{}
	last := 0
	n := strLen(a[1])
	for _, l := range m.reAll(re, a[1], -1) {
		out = concat(out, substr(a[1], last, l[0]))
		out = concat(out, a[2])
		last = l[1]
	}
	return concat(out, substr(a[1], last, n))
}

func reReplaceAllString(m *M, re *reNative, a []Value) Value {
	repl, ok := conc(a[2])
	if c, ok2 := conc(a[1]); ok && ok2 {
		return strV(re.re.ReplaceAllString(c, repl))
	}
	for i := 0; ok && i < len(repl); i++ {
		if repl[i] == '$' {
			ok = false
		}
	}
	if !ok {
		panic(engineError("ReplaceAllString with a template on symbolic text"))
	}
	return reReplaceAllLiteralString(m, re, a)
}
