package harness

import (
	goscanner "go/scanner"
	"go/token"

	"github.com/grepsuzette/joeson"
	"verif/sym"
)

// lexeme is a token of the Go scanner.
type lexeme struct {
	tok    token.Token
	lit    string
	offset int
}

func (l lexeme) text() string {
	if l.tok == token.SEMICOLON && l.lit == "\n" {
		return ";\n"
	}
	if l.lit != "" {
		return l.lit
	}
	return l.tok.String()
}

// lex is what the Go scanner says about src.
func lex(src string) ([]lexeme, int) {
	var s goscanner.Scanner
	fset := token.NewFileSet()
	file := fset.AddFile("", fset.Base(), len(src))
	s.Init(file, []byte(src), func(token.Position, string) {}, 0)
	var r []lexeme
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			return r, s.ErrorCount
		}
		r = append(r, lexeme{tok, lit, int(pos) - file.Base()})
	}
}

func sameLexemes(a, b []lexeme) bool {
	// a semicolon which the scanner inserts at the end of the text may be
	// explicit in the other
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].tok != b[i].tok {
			return false
		}
		if a[i].tok != token.SEMICOLON && a[i].lit != b[i].lit {
			return false
		}
	}
	return true
}

func wordEnd(s string) bool {
	if s == "" {
		return false
	}
	c := s[len(s)-1]
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '='
}

// growTogether tells if tokens l, written next to each other, are others, and
// no space is due between any of them.
func growTogether(l []lexeme) bool {
	t := l[0].text()
	for i := 1; i < len(l); i++ {
		if wordEnd(l[i-1].text()) && l[i].lit != "" {
			return false
		}
		t += l[i].text()
	}
	got, nerr := lex(t)
	if nerr > 0 || len(got) < len(l) {
		return true
	}
	for i := range l {
		if got[i].tok != l[i].tok || got[i].lit != l[i].lit {
			return true
		}
	}
	return false
}

func goCode(src string) {
	want, nerr := lex(src)
	ts, err := joeson.TokenStreamFromGoCode(src)
	sym.Assert((err != nil) == (nerr > 0), "error")
	if err != nil {
		sym.Assert(err.Error() != "", "message")
		return
	}
	sym.Assert(ts.Code() == src, "source")
	work := ts.PeekRunes(1000)
	got, gerr := lex(work)
	if gerr > 0 || !sameLexemes(want, got) {
		// tokens which grow together for want of a space: listed when the
		// second has no literal, or the first ends with something else than
		// a letter, a digit, an underscore or =
		for n := 2; n <= 3; n++ {
			for i := 0; i+n <= len(want); i++ {
				if growTogether(want[i:i+n]) && sym.Known("glued") {
					sym.KnownHit("glued")
					return
				}
			}
		}
	}
	sym.Assert(gerr == 0, "work")
	sym.Assert(sameLexemes(want, got), "tokens")
	if len(want) == 0 {
		return
	}
	for i, l := range got {
		line, col := lineCol(src, want[i].offset)
		gl, gc := ts.PosToLine(l.offset), ts.PosToCol(l.offset)
		if l.offset > 0 && work[l.offset-1] == ' ' && gl == line && gc == col+1 && sym.Known("space") {
			sym.KnownHit("space")
			continue
		}
		sym.Assert(gl == line && gc == col, "coordinates")
	}
}

// C21_Any: any short source.
//
//verif:bounds Go source: any ASCII text of length <= 2 (thorough 3)
//verif:expect error tokens coordinates
func C21_Any() {
	goCode(sym.StringIn("src", 2+deep(1), ascii))
}

// C21_Small: longer sources over a smaller alphabet.
//
//verif:bounds Go source: length <= 4 (thorough 5) over a 1 + = , ( " / space newline
//verif:expect error tokens coordinates
func C21_Small() {
	goCode(sym.StringIn("src", 4+deep(1), "a1+=,(\"/ \n"))
}

// C21_Words: words next to each other.
//
//verif:bounds Go source "var x y" with x and y any texts of <= 2 characters over a F 0 _ " = . é's bytes, and a blank, a newline, a comment or nothing between them
//verif:expect error tokens coordinates
func C21_Words() {
	x := sym.StringNIn("x", 1+sym.Choose("x.len", 2), "aF0_\"=.\xc3\xa9")
	y := sym.StringNIn("y", 1+sym.Choose("y.len", 1+deep(1)), "aF0_\"=.\xc3\xa9")
	sep := [...]string{" ", "\n", "/**/", ""}[sym.Choose("between", 4)]
	goCode("var " + x + sep + y)
}

// C21_History: an earlier call, lexically correct or not, changes nothing.
//
//verif:bounds a first source "a" or "'", then any source of length <= 2 over a 1 + = , ( " / space newline
//verif:expect error tokens coordinates
func C21_History() {
	first := "a"
	if sym.Bool("bad") {
		first = "'"
	}
	_, err := joeson.TokenStreamFromGoCode(first)
	sym.Assert((err != nil) == (first == "'"), "error")
	goCode(sym.StringIn("src", 2, "a1+=,(\"/ \n"))
}
