// Package sym is the vocabulary of the harnesses. Under the symbolic engine
// these functions create unknowns and proof obligations; compiled natively
// they replay one concrete case and record what can be observed.
package sym

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// Stopped is the panic value that ends a native case early.
type Stopped struct{ Why string }

var (
	inputs   map[string]uint64
	used     map[string]int
	events   []string
	failures []string
	invalid  string
	known    map[string]bool
	thorough bool
)

// Start begins a native case.
func Start(in map[string]uint64, kn map[string]bool, th bool) {
	inputs, used, events, failures, invalid, known, thorough = in, map[string]int{}, nil, nil, "", kn, th
	if output != nil {
		os.Stdout = uncaptured
	}
}

// Result ends a native case.
func Result() (ev []string, fail []string, inv string) { return events, failures, invalid }

func get(name string) uint64 {
	n := used[name]
	used[name]++
	if n > 0 {
		name += "#" + strconv.Itoa(n)
	}
	return inputs[name]
}

func stop(why string) {
	panic(Stopped{why})
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(get(name)) }

// Bool is an arbitrary truth value.
func Bool(name string) bool { return get(name) != 0 }

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(get(name))
	if v < lo || v > hi {
		invalid = name + " out of range"
		stop("assume")
	}
	return v
}

// Choose is an arbitrary integer in [0,n), explored case by case.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(uint16(get(name)))
	if v >= n {
		invalid = name + " out of range"
		stop("assume")
	}
	return v
}

// StringN is an arbitrary string of n bytes.
func StringN(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name + "[" + strconv.Itoa(i) + "]"))
	}
	return string(b)
}

// String is an arbitrary string of at most max bytes.
func String(name string, max int) string {
	return StringN(name, Choose(name+".len", max+1))
}

// StringIn is an arbitrary string of at most max bytes, all from alphabet.
func StringIn(name string, max int, alphabet string) string {
	return StringNIn(name, Choose(name+".len", max+1), alphabet)
}

// StringNIn is an arbitrary string of n bytes, all from alphabet.
func StringNIn(name string, n int, alphabet string) string {
	s := StringN(name, n)
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(alphabet, s[i]) < 0 {
			invalid = name + " outside its alphabet"
			stop("assume")
		}
	}
	return s
}

// Assume restricts the cases under consideration.
func Assume(c bool) {
	if !c {
		invalid = "assumption"
		stop("assume")
	}
}

// Assert is a proof obligation.
func Assert(c bool, label string) {
	events = append(events, "assert "+label)
	if !c {
		failures = append(failures, "assert "+label)
		stop("assertion failed: " + label)
	}
}

// Cover marks a situation that must be reachable.
func Cover(label string) { events = append(events, "cover "+label) }

// Observe* record values compared between symbolic and native execution.
func ObserveInt(label string, v int)   { events = append(events, fmt.Sprintf("obs %s=%d", label, v)) }
func ObserveBool(label string, v bool) { events = append(events, fmt.Sprintf("obs %s=%v", label, v)) }
func ObserveString(label string, v string) {
	events = append(events, "obs "+label+"="+strconv.Quote(v))
}

// Stop ends the case; nothing more is claimed about it.
func Stop() {
	invalid = "stop"
	stop("stop")
}

// Known tells whether id is a listed known finding.
func Known(id string) bool { return known[id] }

// KnownHit reports that the case exhibits the known finding id.
func KnownHit(id string) { events = append(events, "known "+id) }

// Symbolic is true under the symbolic engine.
func Symbolic() bool { return false }

// Thorough is true when the deep bounds are to be used.
func Thorough() bool { return thorough }

// Boolean connectives that do not branch.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }

// IteInt selects without branching.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Concrete case-splits over the values of v.
func Concrete(v int) int { return v }

// ConcreteString case-splits over the values of s.
func ConcreteString(s string) string { return s }

var output, uncaptured *os.File

// Capture keeps what is printed on the standard output from here on.
func Capture() {
	if output == nil {
		f, err := os.CreateTemp("", "verif")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		output, uncaptured = f, os.Stdout
	}
	output.Truncate(0)
	output.Seek(0, 0)
	os.Stdout = output
}

// Printed is what has been printed since Capture or the last Printed.
func Printed() string {
	n, err := output.Seek(0, 1)
	if err != nil {
		panic(err)
	}
	b := make([]byte, n)
	if _, err := output.ReadAt(b, 0); err != nil && n > 0 {
		panic(err)
	}
	output.Truncate(0)
	output.Seek(0, 0)
	return string(b)
}
