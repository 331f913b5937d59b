// Package shim holds small Go models of library functions whose real bodies
// rest on reflection or the run-time. They are executed symbolically in place
// of the originals; their agreement with the originals is checked by replaying
// every explored path against the native build.
package shim

import (
	"io"
	"os"
	"strconv"
	"strings"
	"sync"
)

// RuntimeError models runtime.Error values.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return "runtime error: " + e.Msg }
func (e RuntimeError) RuntimeError() {}

// modelled by the engine
func typeName(v any) string                                          { return "" }
func basic(v any) (kind int, i int64, u uint64, f float64, s string) { return }
func onceTest(o *sync.Once) bool                                     { return false }

type stringer interface{ String() string }

func OnceDo(o *sync.Once, f func()) {
	if !onceTest(o) {
		f()
	}
}

func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// RType stands for reflect.Type; only its name is available.
type RType struct{ name string }

func (t RType) String() string { return t.name }
func (t RType) Name() string   { return t.name }

func TypeOf(v any) any {
	if v == nil {
		return nil
	}
	return RType{typeName(v)}
}

func DeepEqual(a, b any) bool { panic("reflect.DeepEqual is not modelled") }

func formatAny(v any, verb byte, plus, sharp bool) string {
	if v == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return typeName(v)
	}
	switch x := v.(type) {
	case error:
		return quoteIf(x.Error(), verb)
	case stringer:
		return quoteIf(x.String(), verb)
	case []string:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += quoteIf(e, verb)
		}
		return s + "]"
	case []byte:
		return quoteIf(string(x), verb)
	case []int:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += strconv.Itoa(e)
		}
		return s + "]"
	case []any:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += formatAny(e, verb, plus, sharp)
		}
		return s + "]"
	}
	kind, i, u, f, s := basic(v)
	switch kind {
	case 1:
		if i != 0 {
			return "true"
		}
		return "false"
	case 2:
		switch verb {
		case 'x':
			return strconv.FormatInt(i, 16)
		case 'o':
			return strconv.FormatInt(i, 8)
		case 'b':
			return strconv.FormatInt(i, 2)
		case 'c':
			return string(rune(i))
		case 'q':
			return strconv.QuoteRune(rune(i))
		}
		r := strconv.FormatInt(i, 10)
		if plus && i >= 0 {
			r = "+" + r
		}
		return r
	case 3:
		switch verb {
		case 'x':
			return strconv.FormatUint(u, 16)
		case 'c':
			return string(rune(u))
		}
		return strconv.FormatUint(u, 10)
	case 4:
		return quoteIf(s, verb)
	case 5:
		switch verb {
		case 'f':
			return strconv.FormatFloat(f, 'f', 6, 64)
		case 'e':
			return strconv.FormatFloat(f, 'e', 6, 64)
		}
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	return "<" + typeName(v) + ">"
}

func quoteIf(s string, verb byte) string {
	if verb == 'q' {
		return strconv.Quote(s)
	}
	if verb == 'x' {
		const hex = "0123456789abcdef"
		r := ""
		for i := 0; i < len(s); i++ {
			r += string(hex[s[i]>>4]) + string(hex[s[i]&15])
		}
		return r
	}
	return s
}

func pad(s string, width int, minus, zero bool) string {
	n := 0
	for range s {
		n++
	}
	for n < width {
		if minus {
			s += " "
		} else if zero {
			s = "0" + s
		} else {
			s = " " + s
		}
		n++
	}
	return s
}

func Sprintf(format string, a ...any) string {
	out := ""
	arg := 0
	i := 0
	for i < len(format) {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		out += format[i:j]
		i = j
		if i >= len(format) {
			break
		}
		i++
		if i >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		plus, sharp, minus, zero := false, false, false, false
		for i < len(format) {
			c := format[i]
			if c == '+' {
				plus = true
			} else if c == '#' {
				sharp = true
			} else if c == '-' {
				minus = true
			} else if c == '0' {
				zero = true
			} else if c != ' ' {
				break
			}
			i++
		}
		width := 0
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		prec := -1
		if i < len(format) && format[i] == '.' {
			prec = 0
			i++
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			out += "%"
			continue
		}
		if arg >= len(a) {
			out += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		var s string
		if verb == 'f' && prec >= 0 {
			_, _, _, f, _ := basic(a[arg])
			s = strconv.FormatFloat(f, 'f', prec, 64)
		} else {
			s = formatAny(a[arg], verb, plus, sharp)
		}
		out += pad(s, width, minus, zero)
		arg++
	}
	if arg < len(a) {
		out += "%!(EXTRA "
		for k := arg; k < len(a); k++ {
			if k > arg {
				out += ", "
			}
			if a[k] == nil {
				out += "<nil>"
			} else {
				out += typeName(a[k]) + "=" + formatAny(a[k], 'v', false, false)
			}
		}
		out += ")"
	}
	return out
}

func isStr(v any) bool {
	_, ok := v.(string)
	return ok
}

func Sprint(a ...any) string {
	out := ""
	for i, v := range a {
		if i > 0 && !isStr(v) && !isStr(a[i-1]) {
			out += " "
		}
		out += formatAny(v, 'v', false, false)
	}
	return out
}

func Sprintln(a ...any) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			out += " "
		}
		out += formatAny(v, 'v', false, false)
	}
	return out + "\n"
}

// Output is formatted (its String methods run); what goes to the standard
// output is kept if the harness wants to know, the rest is dropped.
var (
	capturing bool
	printed   string
)

func put(s string) (int, error) {
	if capturing {
		printed += s
	}
	return len(s), nil
}

func Capture() { capturing, printed = true, "" }

func Printed() string {
	s := printed
	printed = ""
	return s
}

func Printf(format string, a ...any) (int, error) { return put(Sprintf(format, a...)) }
func Print(a ...any) (int, error)                 { return put(Sprint(a...)) }
func Println(a ...any) (int, error)               { return put(Sprintln(a...)) }

func FileWrite(f *os.File, b []byte) (int, error) { return FileWriteString(f, string(b)) }

func FileWriteString(f *os.File, s string) (int, error) {
	if f == os.Stdout {
		return put(s)
	}
	return len(s), nil
}

// Any other writer (a strings.Builder, a bytes.Buffer, one of the code's own)
// gets the text.
func write(w io.Writer, s string) (int, error) {
	if f, file := w.(*os.File); file {
		return FileWriteString(f, s)
	}
	return w.Write([]byte(s))
}
func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return write(w, Sprintf(format, a...))
}
func Fprint(w io.Writer, a ...any) (int, error)   { return write(w, Sprint(a...)) }
func Fprintln(w io.Writer, a ...any) (int, error) { return write(w, Sprintln(a...)) }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func Errorf(format string, a ...any) error {
	w := &wrapError{}
	b := []byte(format)
	for i := 0; i+1 < len(b); i++ {
		if b[i] == '%' && b[i+1] == 'w' {
			b[i+1] = 'v'
			for _, x := range a {
				if e, ok := x.(error); ok {
					w.err = e
				}
			}
		}
	}
	w.msg = Sprintf(string(b), a...)
	return w
}

func SortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func SortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// swap is modelled by the engine: exchange two elements of any slice.
func swap(x any, i, j int) {}

func length(x any) int { return 0 }

func SortSlice(x any, less func(i, j int) bool) {
	n := length(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}

type replacer struct {
	r      *strings.Replacer
	oldnew []string
}

var replacers []replacer

func NewReplacer(oldnew ...string) *strings.Replacer {
	if len(oldnew)%2 == 1 {
		panic("strings.NewReplacer: odd argument count")
	}
	r := new(strings.Replacer)
	replacers = append(replacers, replacer{r, append([]string{}, oldnew...)})
	return r
}

// Replace compares at each position in argument order, without overlaps; an
// empty old string matches where nothing else does, once per position.
func Replace(r *strings.Replacer, s string) string {
	var on []string
	for _, x := range replacers {
		if x.r == r {
			on = x.oldnew
		}
	}
	var out []byte
	prevEmpty := false
	for i := 0; i <= len(s); {
		hit := false
		for k := 0; k < len(on); k += 2 {
			old := on[k]
			if (old != "" || !prevEmpty) && i+len(old) <= len(s) && s[i:i+len(old)] == old {
				out = append(out, on[k+1]...)
				i += len(old)
				prevEmpty = old == ""
				hit = true
				break
			}
		}
		if hit && !prevEmpty {
			continue
		}
		if i < len(s) {
			out = append(out, s[i])
		}
		i++
		prevEmpty = false
	}
	return string(out)
}
