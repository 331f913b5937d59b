package engine

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one incremental SMT solver process (z3 -in).
type Solver struct {
	t      *Terms
	cmd    *exec.Cmd
	in     *bufio.Writer
	inPipe io.WriteCloser
	out    *bufio.Reader
	nvars  int
	stack  []*Expr // assertions currently pushed, one level each
	errs   []string

	Queries, NSat, NUnsat, NUnknown int
	Time                            time.Duration
	Slowest                         time.Duration

	// Every sampleEvery-th query is kept as a stand-alone script, to be
	// re-decided by a second solver.
	sampleEvery int
	Samples     []Sample
}

type Sample struct {
	Script string
	Res    Result
}

func NewSolver(t *Terms, sampleEvery int) (*Solver, error) {
	s := &Solver{t: t, sampleEvery: sampleEvery}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.in.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func constText(e *Expr) string {
	if e.w == 0 {
		if e.c != 0 {
			return "true"
		}
		return "false"
	}
	if e.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(e.w/4), e.c)
	}
	return fmt.Sprintf("#b%0*b", int(e.w), e.c)
}

func opText(e *Expr, arg func(*Expr) string) string {
	switch e.op {
	case OZext:
		if e.a.w == 0 {
			return fmt.Sprintf("(ite %s %s %s)", arg(e.a), fmt.Sprintf("(_ bv1 %d)", e.w), fmt.Sprintf("(_ bv0 %d)", e.w))
		}
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, arg(e.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, arg(e.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, arg(e.a))
	}
	r := "(" + opNames[e.op] + " " + arg(e.a)
	if e.b != nil {
		r += " " + arg(e.b)
	}
	if e.d != nil {
		r += " " + arg(e.d)
	}
	return r + ")"
}

func sortText(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

const inlineSize = 16

// text returns the SMT-LIB text of e, first defining large shared sub-terms.
func (s *Solver) text(e *Expr) string {
	switch e.op {
	case OConst:
		return constText(e)
	case OVar:
		return fmt.Sprintf("v%d", e.c)
	}
	if e.size <= inlineSize {
		return opText(e, s.text)
	}
	s.define(e)
	return fmt.Sprintf("e%d", e.id)
}

func (s *Solver) define(e *Expr) {
	if e.emitted {
		return
	}
	// iterative post-order to keep the Go stack small
	body := opText(e, s.text)
	e.emitted = true
	fmt.Fprintf(s.in, "(define-fun e%d () %s %s)\n", e.id, sortText(e.w), body)
}

func (s *Solver) declare() {
	for ; s.nvars < len(s.t.vars); s.nvars++ {
		v := s.t.vars[s.nvars]
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", s.nvars, sortText(v.w))
	}
}

func (s *Solver) assert(e *Expr) {
	txt := s.text(e)
	s.in.WriteString("(assert ")
	s.in.WriteString(txt)
	s.in.WriteString(")\n")
}

// Check decides pc ∧ extra. On Sat it returns values for want.
func (s *Solver) Check(pc []*Expr, extra *Expr, want []*Expr) (Result, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.Slowest {
			s.Slowest = d
		}
	}()
	s.declare()
	// synchronise the solver's stack with pc
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		txt := s.text(pc[n])
		s.in.WriteString("(push 1)\n(assert " + txt + ")\n")
		s.stack = append(s.stack, pc[n])
	}
	if extra != nil {
		txt := s.text(extra)
		s.in.WriteString("(push 1)\n(assert " + txt + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	s.Queries++
	line := s.readLine()
	var r Result
	var vals []uint64
	switch line {
	case "sat":
		r = Sat
		s.NSat++
		if len(want) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range want {
				fmt.Fprintf(s.in, "v%d ", v.c)
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			vals = s.readValues(len(want))
		}
	case "unsat":
		r = Unsat
		s.NUnsat++
	default:
		r = Unknown
		s.NUnknown++
		if strings.Contains(line, "error") || line == "" {
			s.errs = append(s.errs, line)
		}
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	if s.sampleEvery > 0 && s.Queries%s.sampleEvery == 0 && r != Unknown && len(s.Samples) < 400 {
		s.Samples = append(s.Samples, Sample{s.Script(pc, extra), r})
	}
	return r, vals
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "error: solver died: " + err.Error()
	}
	return strings.TrimSpace(l)
}

// readValues parses ((v0 #x00) (v1 true) ...).
func (s *Solver) readValues(n int) []uint64 {
	depth := 0
	var b strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.errs = append(s.errs, "error: solver died in get-value")
			return make([]uint64, n)
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
		b.WriteByte(c)
		if depth == 0 && c == ')' {
			break
		}
	}
	s.out.ReadString('\n')
	txt := b.String()
	if strings.HasPrefix(txt, "(error") {
		s.errs = append(s.errs, txt)
		return make([]uint64, n)
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	vals := make([]uint64, 0, n)
	for i := 1; i < len(f); i += 2 {
		v := f[i]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			fmt.Sscanf(v[2:], "%x", &x)
		case strings.HasPrefix(v, "#b"):
			fmt.Sscanf(v[2:], "%b", &x)
		default:
			s.errs = append(s.errs, "error: cannot parse value "+v)
		}
		vals = append(vals, x)
	}
	if len(vals) != n {
		s.errs = append(s.errs, "error: get-value returned a wrong count: "+txt)
		return make([]uint64, n)
	}
	return vals
}

// Script renders pc ∧ extra as a self-contained SMT-LIB script.
func (s *Solver) Script(pc []*Expr, extra *Expr) string {
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	seen := map[*Expr]string{}
	var rec func(e *Expr) string
	rec = func(e *Expr) string {
		switch e.op {
		case OConst:
			return constText(e)
		}
		if x, ok := seen[e]; ok {
			return x
		}
		if e.op == OVar {
			x := fmt.Sprintf("v%d", e.c)
			fmt.Fprintf(&b, "(declare-const %s %s)\n", x, sortText(e.w))
			seen[e] = x
			return x
		}
		body := opText(e, rec)
		x := fmt.Sprintf("e%d", e.id)
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", x, sortText(e.w), body)
		seen[e] = x
		return x
	}
	var all []string
	for _, e := range pc {
		all = append(all, rec(e))
	}
	if extra != nil {
		all = append(all, rec(extra))
	}
	for _, a := range all {
		b.WriteString("(assert " + a + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}
