package harness

import (
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
	"verif/sym"
)

// ---- C22: NativeMap ----

// value makes an arbitrary Ast and its text.
func value() (joeson.Ast, string) {
	switch sym.Choose("value", 5) {
	case 0:
		s := sym.StringN("s", 1)
		return joeson.NewNativeString(s), s
	case 1:
		n := -12
		if sym.Bool("positive") {
			n = 305
		}
		return joeson.NewNativeInt(n), strconv.Itoa(n)
	case 3:
		s := sym.StringN("m", 1)
		m := joeson.NewEmptyNativeMap()
		m.Set("z", joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString(s)}))
		m.Set("b", joeson.NewNativeInt(3))
		return m, s + "3"
	case 2:
		s := sym.StringN("a", 1)
		return joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString(s), joeson.NewNativeString("b")}), s + "b"
	}
	return joeson.NewNativeUndefined(), ""
}

var mapKeys = []string{"k", "b", "z", ""}

// sameAst is identity for arrays and maps, equality for the others.
func sameAst(a, b joeson.Ast) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case joeson.NativeString:
		y, ok := b.(joeson.NativeString)
		return ok && x == y
	case joeson.NativeInt:
		y, ok := b.(joeson.NativeInt)
		return ok && x == y
	case *joeson.NativeArray:
		y, ok := b.(*joeson.NativeArray)
		return ok && x == y
	case *joeson.NativeMap:
		y, ok := b.(*joeson.NativeMap)
		return ok && x == y
	case joeson.NativeUndefined:
		_, ok := b.(joeson.NativeUndefined)
		return ok
	}
	return false
}

// C22_History: any sequence of Set calls.
//
//verif:bounds up to 3 Set calls (thorough 4) of any of the keys k, b, z and "", values: strings of an arbitrary byte, two integers, arrays, a map, undefined; map empty at first or made from a Go map with the keys z and b
//verif:expect get exists keys empty concat string undefined
func C22_History() {
	var ks []string
	vs := map[string]joeson.Ast{}
	tx := map[string]string{}
	var nm *joeson.NativeMap
	if sym.Choose("initial", 2) == 0 {
		nm = joeson.NewEmptyNativeMap()
	} else {
		nm = joeson.NewNativeMap(map[string]joeson.Ast{"z": joeson.NewNativeString("Z"), "b": joeson.NewNativeInt(7)})
		ks = []string{"b", "z"}
		vs["z"], vs["b"], tx["z"], tx["b"] = joeson.NewNativeString("Z"), joeson.NewNativeInt(7), "Z", "7"
	}
	n := sym.Choose("sets", 4+deep(1))
	for i := 0; i < n; i++ {
		k := mapKeys[sym.Choose("key", len(mapKeys))]
		v, t := value()
		nm.Set(k, v)
		if _, ok := vs[k]; !ok {
			ks = append(ks, k)
		}
		vs[k], tx[k] = v, t
	}
	sym.Assert(nm.IsEmpty() == (len(ks) == 0), "empty")
	sym.Assert(strings.Join(nm.Keys(), ",") == strings.Join(ks, ",") && len(nm.Keys()) == len(ks), "keys")
	whole, shown := "", "NativeMap{"
	for i, k := range ks {
		whole += tx[k]
		if i > 0 {
			shown += ", "
		}
		shown += k + ":" + vs[k].String()
	}
	sym.Assert(string(nm.Concat()) == whole, "concat")
	sym.Assert(nm.String() == shown+"}", "string")
	for _, k := range append(mapKeys, "absent") {
		want, has := vs[k]
		got, ok := nm.GetExists(k)
		sym.Assert(ok == has && nm.Exists(k) == has, "exists")
		sym.Assert(nm.IsUndefined(k) == joeson.IsUndefined(want), "undefined")
		if has {
			sym.Assert(sameAst(got, want) && sameAst(nm.Get(k), want) && sameAst(nm.GetOrPanic(k), want), "get")
		} else {
			sym.Assert(got == nil && nm.Get(k) == nil, "get")
			sym.Assert(panics(func() { nm.GetOrPanic(k) }), "get")
		}
	}
	if !sym.Thorough() && n > 2 {
		return
	}
	// the first key which exists wins
	a, b := mapKeys[sym.Choose("w1", 4)], mapKeys[sym.Choose("w2", 4)]
	_, ha := vs[a]
	_, hb := vs[b]
	if ha {
		sym.Assert(sameAst(nm.GetWhicheverOrPanic([]string{a, b}), vs[a]), "whichever")
	} else if hb {
		sym.Assert(sameAst(nm.GetWhicheverOrPanic([]string{a, b}), vs[b]), "whichever")
	} else {
		sym.Assert(panics(func() { nm.GetWhicheverOrPanic([]string{a, b}) }), "whichever")
	}
}

// C22_Initial: a map made from a Go map has its keys in order.
//
//verif:bounds Go maps of up to 3 keys, any bytes, length <= 2 (thorough 3), the first with any byte in front; then one Set of any key of a byte
//verif:expect keys get
func C22_Initial() {
	h := map[string]joeson.Ast{}
	n := sym.Choose("n", 4)
	for i := 0; i < n; i++ {
		k := sym.String("key", 2+deep(1))
		if i == 0 {
			k = sym.StringN("front", 1) + k
		}
		h[k] = joeson.NewNativeInt(i)
	}
	m := len(h)
	var want []string
	for k := range h {
		i := 0
		for i < len(want) && want[i] < k {
			i++
		}
		want = append(want[:i:i], append([]string{k}, want[i:]...)...)
	}
	nm := joeson.NewNativeMap(h)
	keys := nm.Keys()
	sym.Assert(len(keys) == m, "keys")
	for i, k := range keys {
		sym.Assert(k == want[i], "keys")
	}
	k := sym.StringN("set", 1)
	has := nm.Exists(k)
	x := joeson.NewNativeInt(9)
	nm.Set(k, x)
	keys = nm.Keys()
	if has {
		sym.Assert(len(keys) == m, "keys")
	} else {
		sym.Assert(len(keys) == m+1 && keys[m] == k, "keys")
	}
	for i := range want {
		sym.Assert(keys[i] == want[i], "keys")
	}
	got, ok := nm.GetExists(k)
	sym.Assert(ok && sameAst(got, x), "get")
}

// decimal tells whether s is a decimal integer, and which.
func decimal(s string) (n int, ok bool) {
	t := s
	if len(t) > 0 && (t[0] == '-' || t[0] == '+') {
		t = t[1:]
	}
	if len(t) == 0 {
		return 0, false
	}
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0, false
		}
		n = n*10 + int(t[i]-'0')
	}
	if s[0] == '-' {
		n = -n
	}
	return n, true
}

// C22_Typed: the typed getters convert or panic.
//
//verif:bounds one key; value: any string of <= 2 bytes (thorough 3), any integer in -40..40, an array of two strings of <= 1 byte, undefined, a map, a value of another type, or no value
//verif:expect int string none foreign
func C22_Typed() {
	nm := joeson.NewEmptyNativeMap()
	var i int
	var iok bool // an integer is expected
	var s string
	var sok bool
	switch sym.Choose("kind", 7) {
	case 0:
		s, sok = sym.String("s", 2+deep(1)), true
		nm.Set("k", joeson.NewNativeString(s))
		i, iok = decimal(s)
	case 1:
		i, iok = sym.Int("i", -40, 40), true
		nm.Set("k", joeson.NewNativeInt(i))
	case 2:
		a, b := sym.String("a", 1), sym.String("b", 1)
		s, sok = a+b, true
		nm.Set("k", joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString(a), joeson.NewNativeString(b)}))
		i, iok = decimal(s)
	case 3:
		nm.Set("k", joeson.NewNativeUndefined())
	case 4:
		nm.Set("k", joeson.NewEmptyNativeMap())
	case 6:
		// neither converted nor concatenated
		nm.Set("k", &node{Attr: joeson.NewAttr()})
		sym.Assert(panics(func() { nm.Concat() }), "foreign")
	case 5:
		_, e1 := nm.GetIntExists("k")
		_, e2 := nm.GetStringExists("k")
		sym.Assert(!e1 && !e2, "none")
		return
	}
	nm.Set("other", joeson.NewNativeString("x"))
	var gi int
	var ok bool
	p := panics(func() { gi, ok = nm.GetIntExists("k") })
	sym.Assert(p == !iok, "int")
	if iok {
		sym.Assert(ok && gi == i, "int")
	}
	var gs string
	p = panics(func() { gs, ok = nm.GetStringExists("k") })
	sym.Assert(p == !sok, "string")
	if sok {
		sym.Assert(ok && gs == s, "string")
	}
}

// ---- C23: native values ----

// tree makes an arbitrary value of nested arrays, its leaves' text and its
// printed form.
func tree(depth int) (joeson.Ast, string, string) {
	k := 4
	if depth == 0 {
		k = 3
	}
	switch sym.Choose("node", k) {
	case 0:
		s := sym.String("s", 1)
		return joeson.NewNativeString(s), s, s
	case 1:
		n := -7
		if sym.Bool("positive") {
			n = 42
		}
		return joeson.NewNativeInt(n), strconv.Itoa(n), strconv.Itoa(n)
	case 2:
		return joeson.NewNativeUndefined(), "", "<NativeUndefined>"
	}
	n := sym.Choose("kids", 3)
	a := joeson.NewEmptyNativeArray()
	t, p := "", "["
	for i := 0; i < n; i++ {
		x, y, z := tree(depth - 1)
		a.Append(x)
		t += y
		if i > 0 {
			p += ","
		}
		p += z
	}
	return a, t, p + "]"
}

// C23_Concat: concatenation and printing of nested arrays.
//
//verif:bounds arrays of up to 2 (thorough 3) elements, the first nested up to 2 deeper, the second 1, with up to 2 elements each; leaves: strings of <= 1 arbitrary byte, two integers, undefined
//verif:expect concat print list from
func C23_Concat() {
	n := sym.Choose("top", 3+deep(1))
	a := joeson.NewNativeArray(nil)
	if sym.Choose("empty", 2) == 1 {
		a = joeson.NewEmptyNativeArray()
	}
	t, p := "", "["
	var kids []joeson.Ast
	for i := 0; i < n; i++ {
		x, y, z := tree(2 - i - (n-1)/2)
		a.Append(x)
		kids = append(kids, x)
		t += y
		if i > 0 {
			p += ","
		}
		p += z
	}
	sym.Assert(string(a.Concat()) == t, "concat")
	sym.Assert(a.String() == p+"]", "print")
	sym.Assert(a.Length() == n && len(a.Array()) == n, "list")
	for i, x := range kids {
		sym.Assert(sameAst(a.Get(i), x) && sameAst(a.Array()[i], x), "list")
	}
	sym.Assert(string(joeson.NewNativeStringFrom(a)) == t, "from")
}

// C23_Int: conversions between text and integers.
//
//verif:bounds any string of <= 4 bytes (thorough 5), given as string, as a string value or as an array of its two halves
//verif:expect value rejected
func C23_Int() {
	s := sym.String("s", 4+deep(1))
	var got joeson.NativeInt
	var p bool
	switch sym.Choose("from", 3) {
	case 0:
		p = panics(func() { got = joeson.NewNativeIntFromString(s) })
	case 1:
		p = panics(func() { got = joeson.NewNativeIntFrom(joeson.NewNativeString(s)) })
	case 2:
		k := len(s) / 2
		a := joeson.NewNativeArray([]joeson.Ast{joeson.NewNativeString(s[:k]), joeson.NewNativeUndefined(), joeson.NewNativeString(s[k:])})
		p = panics(func() { got = joeson.NewNativeIntFrom(a) })
	}
	if n, ok := decimal(s); ok {
		sym.Assert(!p && got.Int() == n, "value")
	} else {
		sym.Assert(p, "rejected")
	}
}

// C23_Back: integers print and read back.
//
//verif:bounds integers in -120..120 and the 4 at either extreme of int; booleans
//verif:expect back
func C23_Back() {
	n := 0
	switch sym.Choose("range", 3) {
	case 0:
		n = sym.Int("n", -120, 120)
	case 1:
		n = int(^uint(0)>>1) - sym.Choose("below", 4)
	case 2:
		n = -int(^uint(0)>>1) - 1 + sym.Choose("above", 4)
	}
	x := joeson.NewNativeInt(n)
	sym.Assert(x.Int() == n && x.Bool() == (n != 0), "value")
	sym.Assert(x.String() == strconv.Itoa(n), "print")
	sym.Assert(joeson.NewNativeIntFromString(x.String()).Int() == n, "back")
	sym.Assert(joeson.NewNativeIntFrom(joeson.NewNativeStringFrom(x)).Int() == n, "back")
	sym.Assert(joeson.NewNativeIntFrom(x) == x, "same")
	b := sym.Bool("b")
	sym.Assert(joeson.NewNativeIntFromBool(b).Bool() == b, "bool")
}

// C23_Undefined: what counts as undefined, and what converts to a string.
//
//verif:bounds nil, undefined, strings of <= 2 bytes, integers, arrays, maps
//verif:expect undefined string
func C23_Undefined() {
	var x joeson.Ast
	want := false
	text, conv := "", true
	switch sym.Choose("kind", 6) {
	case 0:
		want, conv = true, false
	case 1:
		x, want, conv = joeson.NewNativeUndefined(), true, false
	case 2:
		text = sym.String("s", 2)
		x = joeson.NewNativeString(text)
		sym.Assert(x.String() == text, "string")
	case 3:
		n := sym.Int("n", -20, 20)
		x, text = joeson.NewNativeInt(n), strconv.Itoa(n)
	case 4:
		x = joeson.NewEmptyNativeArray()
	case 5:
		x, conv = joeson.NewEmptyNativeMap(), false
	}
	sym.Assert(joeson.IsUndefined(x) == want, "undefined")
	if x != nil {
		var got joeson.NativeString
		p := panics(func() { got = joeson.NewNativeStringFrom(x) })
		sym.Assert(p == !conv, "string")
		if conv {
			sym.Assert(string(got) == text, "string")
		}
	}
}

// ---- C24: bisection ----

func sorted() []int {
	n := sym.Choose("len", 5+deep(1))
	a := make([]int, n, n+sym.Choose("spare", 2))
	for i := range a {
		a[i] = sym.Int("a", math.MinInt, math.MaxInt)
		if i > 0 {
			sym.Assume(a[i-1] <= a[i])
		}
	}
	return a
}

// C24_Bisect: bisection counts.
//
//verif:bounds sorted slices of up to 4 (thorough 5) arbitrary integers, with and without spare capacity; any value
//verif:expect left right
func C24_Bisect() {
	a := sorted()
	x := sym.Int("x", math.MinInt, math.MaxInt)
	l, r := 0, 0
	for _, v := range a {
		l = sym.IteInt(v < x, l+1, l)
		r = sym.IteInt(v <= x, r+1, r)
	}
	sym.Assert(helpers.BisectLeft(a, x) == l, "left")
	sym.Assert(helpers.BisectRight(a, x) == r, "right")
}

// C24_Insort: sorted insertion.
//
//verif:bounds sorted slices of up to 4 (thorough 5) arbitrary integers, with and without spare capacity; any value
//verif:expect sorted kept
func C24_Insort() {
	a := sorted()
	old := append([]int{}, a...)
	x := sym.Int("x", math.MinInt, math.MaxInt)
	var b []int
	left := sym.Choose("side", 2) == 0
	if left {
		b = helpers.InsortLeft(a, x)
	} else {
		b = helpers.InsortRight(a, x)
	}
	sym.Assert(len(b) == len(old)+1, "length")
	ok := true
	for i := 1; i < len(b); i++ {
		ok = sym.And(ok, b[i-1] <= b[i])
	}
	sym.Assert(ok, "sorted")
	// b is old with x put in at some place
	some := false
	for at := range b {
		eq := b[at] == x
		for i, v := range old {
			j := i
			if i >= at {
				j++
			}
			eq = sym.And(eq, b[j] == v)
		}
		some = sym.Or(some, eq)
	}
	sym.Assert(some, "kept")
}

// ---- C25: string helpers ----

// C25_Slice: SliceString is JavaScript's slice.
//
//verif:bounds any bytes, length <= 4 (thorough 6); any integers as bounds
//verif:expect slice
func C25_Slice() {
	s := sym.String("s", 4+deep(2))
	i, j := sym.Int("i", math.MinInt, math.MaxInt), sym.Int("j", math.MinInt, math.MaxInt)
	got := helpers.SliceString(s, i, j)
	// the specification, on the bytes one by one
	n := len(s)
	from := sym.IteInt(i < 0, i+n, i)
	from = sym.IteInt(from < 0, 0, from)
	to := sym.IteInt(j < 0, j+n, j)
	want := 0
	for k := 0; k < n; k++ {
		in := sym.And(k >= from, k < to)
		want = sym.IteInt(in, want+1, want)
	}
	sym.Assert(len(got) == want, "length")
	sym.Assert(want == 0 || s[from:from+want] == got, "slice")
}

// C25_Pad: padding.
//
//verif:bounds any bytes, length <= 3; width: any integer up to 7
//verif:expect left right
func C25_Pad() {
	s := sym.String("s", 3)
	n := sym.Int("n", math.MinInt, 7)
	l, r := helpers.PadLeft(s, n), helpers.PadRight(s, n)
	w := len(s)
	if n > w {
		w = n
	}
	sym.Assert(len(l) == w && l == s+strings.Repeat(" ", w-len(s)), "left")
	sym.Assert(len(r) == w && r == strings.Repeat(" ", w-len(s))+s, "right")
}

// C25_Last: LastNRunes and its reverse on any bytes.
//
//verif:bounds any bytes, length <= 4 (thorough 5); n: any integer
//verif:expect suffix count
func C25_Last() {
	s := sym.String("s", 4+deep(1))
	n := sym.Int("n", math.MinInt, math.MaxInt)
	got := helpers.LastNRunes(s, n)
	sym.Assert(strings.HasSuffix(s, got), "suffix")
	k := 0
	for range got {
		k++
	}
	all := 0
	for range s {
		all++
	}
	switch {
	case n <= 0:
		sym.Assert(got == "", "count")
	case n >= all:
		sym.Assert(got == s, "count")
	default:
		// cutting bytes off the front of invalid UTF-8 may change how the rest decodes,
		// counted from the end it is n runes
		sym.Assert(k == n, "count")
	}
	helpers.LastNRunesReversed(s, n)
}

// C25_Reversed: the last runes in reverse order, of UTF-8 text.
//
//verif:bounds up to 4 runes, each any ASCII byte or one of é 世 🙂; n: any integer
//verif:expect reversed
func C25_Reversed() {
	k := sym.Choose("runes", 5)
	var r []string
	for i := 0; i < k; i++ {
		switch sym.Choose("rune", 4) {
		case 0:
			r = append(r, sym.StringNIn("c", 1, ascii))
		case 1:
			r = append(r, "é")
		case 2:
			r = append(r, "世")
		case 3:
			r = append(r, "🙂")
		}
	}
	n := sym.Int("n", math.MinInt, math.MaxInt)
	want, last := "", ""
	for i := k - 1; i >= 0 && n >= k-i; i-- {
		want += r[i]
		last = r[i] + last
	}
	s := strings.Join(r, "")
	sym.Assert(helpers.LastNRunesReversed(s, n) == want, "reversed")
	sym.Assert(helpers.LastNRunes(s, n) == last, "last")
}

// C25_MinMax: the smaller and the larger argument.
//
//verif:bounds any integers
//verif:expect min max
func C25_MinMax() {
	a, b := sym.Int("a", math.MinInt, math.MaxInt), sym.Int("b", math.MinInt, math.MaxInt)
	m, n := helpers.Min(a, b), helpers.Max(a, b)
	sym.Assert(sym.And(sym.And(m <= a, m <= b), sym.Or(m == a, m == b)), "min")
	sym.Assert(sym.And(sym.And(n >= a, n >= b), sym.Or(n == a, n == b)), "max")
}

// C25_Sorted: keys of a Go map come out sorted, once each.
//
//verif:bounds maps with up to 3 arbitrary string keys of one byte, or integer keys in -9..9
//verif:expect strings ints
func C25_Sorted() {
	n := sym.Choose("n", 4)
	ms := map[string]int{}
	mi := map[int]int{}
	for i := 0; i < n; i++ {
		ms[sym.StringN("k", 1)] = i
		mi[sym.Int("i", -9, 9)] = i
	}
	ks := helpers.SortStringKeys(ms)
	sym.Assert(len(ks) == len(ms) && sort.StringsAreSorted(ks), "strings")
	for _, k := range ks {
		_, ok := ms[k]
		sym.Assert(ok, "strings")
	}
	is := helpers.SortIntKeys(mi)
	sym.Assert(len(is) == len(mi) && sort.IntsAreSorted(is), "ints")
	for _, k := range is {
		_, ok := mi[k]
		sym.Assert(ok, "ints")
	}
}

// ---- C26: escaping ----

// C26_Escape: distinct strings stay distinct.
//
//verif:bounds two strings of any bytes, length <= 2 and <= 2 (thorough 3)
//verif:expect distinct clean
func C26_Escape() {
	a, b := sym.String("a", 2+deep(1)), sym.String("b", 2)
	x, y := helpers.Escape(a), helpers.Escape(b)
	sym.Assert(sym.Implies(x == y, a == b), "distinct")
	for i := 0; i < len(x); i++ {
		c := x[i]
		sym.Assert(sym.And(c != '\n', sym.And(c != '\r', sym.And(c != '\t', sym.And(c != '\a', sym.And(c != '\f', sym.And(c != '\b', c != '\v')))))), "clean")
	}
}

// ---- C32: TRACE ----

func setenv(k, v string) func() {
	old, had := os.LookupEnv(k)
	if v == "" {
		os.Unsetenv(k)
	} else {
		os.Setenv(k, v)
	}
	return func() {
		if had {
			os.Setenv(k, old)
		} else {
			os.Unsetenv(k)
		}
	}
}

func sameOptions(a, b *joeson.TraceOptions) bool {
	return sym.And(sym.And(a.Stack == b.Stack, a.Loop == b.Loop), sym.And(sym.And(a.Grammar == b.Grammar, a.SkipSetup == b.SkipSetup), a.FilterLine == b.FilterLine))
}

func anyOptions() *joeson.TraceOptions {
	return &joeson.TraceOptions{Stack: sym.Bool("stack"), Loop: sym.Bool("loop"), Grammar: sym.Bool("grammar"), SkipSetup: sym.Bool("skipsetup"), FilterLine: sym.Int("filter", math.MinInt, math.MaxInt)}
}

// C32_Words: the words of TRACE apply from left to right.
//
//verif:bounds up to 3 comma-separated words, each documented (with line numbers of one or two arbitrary bytes), an arbitrary word of 1..3 bytes, or a documented word with a character too many before or after it; in TRACE, or in trace when TRACE is empty; any default options
//verif:expect options refused
func C32_Words() {
	def := anyOptions()
	want := &joeson.TraceOptions{FilterLine: -1}
	n := 1 + sym.Choose("words", 3)
	bad := false
	env := ""
	for i := 0; i < n; i++ {
		w := ""
		k := 9
		if i == 0 {
			k = 10
		} else if !sym.Thorough() {
			k = 7 // arbitrary words in the first place only
		}
		switch sym.Choose("word", k) {
		case 0:
			w = "none"
			*want = joeson.TraceOptions{FilterLine: -1}
		case 1:
			w = "stack"
			want.Stack = true
		case 2:
			w = "loop"
			want.Loop = true
		case 3:
			w = "grammar"
			want.Grammar = true
		case 4:
			w = "skipsetup"
			want.SkipSetup = true
		case 5:
			w = "all"
			*want = *joeson.Verbose()
			sym.Assert(want.Stack && want.Grammar && want.FilterLine == -1, "verbose")
		case 6:
			w = "line=12"
			want.FilterLine = 12
		case 7:
			s := sym.StringNIn("n", 1+sym.Choose("digits", 2), asciiNoComma)
			w = "line=" + s
			if v, ok := decimal(s); ok {
				want.FilterLine = v
			} else {
				bad = true
			}
		case 8:
			s := sym.StringNIn("w", 1+sym.Choose("letters", 3), asciiNoComma)
			sym.Assume(s != "all")
			w = s
			bad = true
		case 9:
			w = []string{"none", "stack", "loop", "grammar", "skipsetup", "all", "line=12"}[sym.Choose("known", 7)]
			c := sym.StringNIn("c", 1, asciiNoComma+" \t")
			if sym.Bool("behind") {
				sym.Assume(sym.Or(w != "line=12", sym.Or(c[0] < '0', c[0] > '9')))
				w += c
			} else {
				w = c + w
			}
			bad = true
		}
		if i > 0 {
			env += ","
		}
		env += w
	}
	if sym.Choose("name", 2) == 0 {
		defer setenv("TRACE", env)()
		defer setenv("trace", "none")()
	} else {
		defer setenv("TRACE", "")()
		defer setenv("trace", env)()
	}
	var got *joeson.TraceOptions
	p := panics(func() { got = joeson.TraceOptionsFromEnvironmentOrUse(def) })
	if bad {
		sym.Assert(p, "refused")
		return
	}
	sym.Assert(!p && sameOptions(got, want), "options")
	sym.Assert(sameOptions(joeson.DefaultTraceOptions(), want), "default")
}

const asciiNoComma = "!\"#$%&'()*+-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// C32_Unset: without TRACE the given options are used.
//
//verif:bounds any options
//verif:expect checked
func C32_Unset() {
	defer setenv("TRACE", "")()
	defer setenv("trace", "")()
	def := anyOptions()
	got := joeson.TraceOptionsFromEnvironmentOrUse(def)
	sym.Cover("checked")
	if sym.Known("ignored-default") && sameOptions(got, joeson.Mute()) {
		if !sameOptions(got, def) {
			sym.KnownHit("ignored-default")
		}
		return
	}
	sym.Assert(sameOptions(got, def), "default")
}

// C32_Copy: a copy is equal and independent.
//
//verif:bounds any options
//verif:expect equal independent
func C32_Copy() {
	a := anyOptions()
	old := *a
	b := a.Copy()
	sym.Assert(sameOptions(a, b), "equal")
	b.Stack, b.Loop, b.Grammar, b.SkipSetup, b.FilterLine = !b.Stack, !b.Loop, !b.Grammar, !b.SkipSetup, b.FilterLine+1
	sym.Assert(sameOptions(a, &old), "independent")
	m, v := joeson.Mute(), joeson.Verbose()
	sym.Assert(sameOptions(m, &joeson.TraceOptions{FilterLine: -1}), "mute")
	m.Stack, v.Stack = true, false
	sym.Assert(!joeson.Mute().Stack && joeson.Verbose().Stack, "independent")
}

// ---- C33: lazy values ----

// C33_History: any sequence of operations on a lazy value.
//
//verif:bounds up to 4 operations (thorough 6) among Get, IsSet, Set of an arbitrary integer, SetLazy of either of two functions and Clear, Get of one which has neither a value nor a function being the last; made with NewLazy, LazyFromValue or LazyFromFunc
//verif:expect value once set
func C33_History() {
	calls := 0
	res := sym.Int("f", math.MinInt, math.MaxInt)
	f := func() int { calls++; return res }
	g := func() int { calls++; return 7 }
	cur := 0 // what the function it has returns
	var z *helpers.Lazy[int]
	set, val, has := false, 0, false
	switch sym.Choose("made", 3) {
	case 0:
		z = helpers.NewLazy[int]()
	case 1:
		val = sym.Int("v", math.MinInt, math.MaxInt)
		z, set = helpers.LazyFromValue(val), true
	case 2:
		z, has, cur = helpers.LazyFromFunc(f), true, res
	}
	want := 0
	n := sym.Choose("ops", 5+deep(2))
	for i := 0; i < n; i++ {
		switch sym.Choose("op", 6) {
		case 4:
			z.Clear()
			set, has = false, false
		case 0:
			if !set && !has {
				// nothing to return, and no function to call
				panics(func() { z.Get() })
				sym.Assert(calls == want, "once")
				sym.Stop()
			}
			if !set {
				set, val = true, cur
				want++
			}
			sym.Assert(z.Get() == val, "value")
		case 1:
			sym.Assert(z.IsSet() == set, "set")
		case 2:
			val, set = sym.Int("v", math.MinInt, math.MaxInt), true
			z.Set(val)
		case 3:
			z.SetLazy(f)
			has, cur = true, res
		case 5:
			z.SetLazy(g)
			has, cur = true, 7
		}
		sym.Assert(calls == want, "once")
	}
}

// C33_String: the same for a lazy string and for a nil pointer, whose values are zero values.
//
//verif:bounds any string of <= 2 bytes
//verif:expect value once
func C33_String() {
	s := sym.String("s", 2)
	calls := 0
	z := helpers.LazyFromFunc(func() string { calls++; return s })
	sym.Assert(!z.IsSet() && calls == 0, "once")
	sym.Assert(z.Get() == s && z.Get() == s && z.IsSet(), "value")
	sym.Assert(calls == 1, "once")
	p := 0
	y := helpers.LazyFromFunc(func() *int { p++; return nil })
	sym.Assert(y.Get() == nil && y.Get() == nil && p == 1, "once")
}
