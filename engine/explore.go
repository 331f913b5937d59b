package engine

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Config bounds one exploration.
type Config struct {
	MaxSteps    int64 // interpreted instructions per path
	MaxDepth    int   // nested calls
	MaxPaths    int64
	Known       map[string]bool
	Thorough    bool
	ReverseMaps bool
	Workers     int
	TimeLimit   time.Duration
	SampleEvery int // every n-th solver query is kept for the second solver
	PathSamples int // paths kept for native validation
	MaxCands    int
}

// Candidate is a property violation found symbolically; it counts once its
// inputs were replayed against the real code.
type Candidate struct {
	Kind   string // "assert", "panic", "budget"
	Label  string
	Inputs []InputVal
	Stack  []string
}

// PathSample is one explored path: concrete inputs and what the symbolic
// execution says is observable for them.
type PathSample struct {
	Inputs []InputVal
	Events []string
}

type Stats struct {
	Paths, Done, Panics, Killed, Budget, Errors int64
	Steps                                       int64
	Queries, PatchSat, Choices, AssertQueries   int64
	Asserts, Covers                             map[string]int64
	Kills                                       map[string]int64
}

func newStats() *Stats {
	return &Stats{Asserts: map[string]int64{}, Covers: map[string]int64{}, Kills: map[string]int64{}}
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Done += o.Done
	s.Panics += o.Panics
	s.Killed += o.Killed
	s.Budget += o.Budget
	s.Errors += o.Errors
	s.Steps += o.Steps
	s.Queries += o.Queries
	s.PatchSat += o.PatchSat
	s.Choices += o.Choices
	s.AssertQueries += o.AssertQueries
	for k, v := range o.Asserts {
		s.Asserts[k] += v
	}
	for k, v := range o.Covers {
		s.Covers[k] += v
	}
	for k, v := range o.Kills {
		s.Kills[k] += v
	}
}

// Report is the result of exploring one harness function.
type Report struct {
	Stats      Stats
	Cands      []*Candidate
	Known      map[string][][]InputVal
	Samples    []PathSample
	Errors     []string
	ErrInputs  [][]InputVal
	Complete   bool
	Why        string
	Wall       time.Duration
	SetupSteps int64

	SolverTime    time.Duration
	SolverSlowest time.Duration
	Sat, Unsat    int
	Unknown       int
	QuerySamples  []Sample
	Funcs         map[string]int64
	Prof          map[string]int64
	Blocks        int
}

// Explorer runs every path of one harness function.
type Explorer struct {
	cfg   Config
	prog  *Program
	entry *ssa.Function

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*job
	busy     int
	waiting  int
	stop     bool
	why      string
	deadline time.Time
	start    time.Time
	cands    []*Candidate
	perLabel map[string]int
	known    map[string][][]InputVal
	samples  []PathSample
	nSampled int64
	errs     []string
	errIn    [][]InputVal
	paths    int64
	rep      *Report
}

func Explore(prog *Program, entry string, cfg Config) (*Report, error) {
	f := prog.Harness.Func(entry)
	if f == nil {
		return nil, fmt.Errorf("no harness function %s", entry)
	}
	if cfg.Workers == 0 {
		cfg.Workers = 1
	}
	if cfg.MaxCands == 0 {
		cfg.MaxCands = 12
	}
	x := &Explorer{cfg: cfg, prog: prog, entry: f, perLabel: map[string]int{}, known: map[string][][]InputVal{},
		rep: &Report{Stats: *newStats(), Known: map[string][][]InputVal{}, Funcs: map[string]int64{}, Prof: map[string]int64{}, Complete: true}}
	x.cond = sync.NewCond(&x.mu)
	x.start = time.Now()
	x.deadline = x.start.Add(cfg.TimeLimit)
	x.queue = []*job{{}}
	var wg sync.WaitGroup
	for i := 0; i < cfg.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x.worker(i)
		}(i)
	}
	wg.Wait()
	r := x.rep
	r.Cands = x.cands
	r.Known = x.known
	r.Samples = x.samples
	r.Errors = x.errs
	r.ErrInputs = x.errIn
	r.Wall = time.Since(x.start)
	if x.why != "" {
		r.Complete = false
		r.Why = x.why
	}
	return r, nil
}

func (x *Explorer) halt(why string) {
	x.mu.Lock()
	if !x.stop {
		x.stop = true
		x.why = why
	}
	x.cond.Broadcast()
	x.mu.Unlock()
}

// next returns the next job, or nil when everything is explored.
func (x *Explorer) next() *job {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.waiting++
	for {
		if x.stop {
			x.waiting--
			return nil
		}
		if len(x.queue) > 0 {
			j := x.queue[0]
			x.queue = x.queue[1:]
			x.waiting--
			x.busy++
			return j
		}
		if x.busy == 0 {
			x.stop = true
			x.cond.Broadcast()
			x.waiting--
			return nil
		}
		x.cond.Wait()
	}
}

func (x *Explorer) finish() {
	x.mu.Lock()
	x.busy--
	if x.busy == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

func (x *Explorer) hungry() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.queue) < x.waiting
}

func (x *Explorer) push(j *job) {
	x.mu.Lock()
	x.queue = append(x.queue, j)
	x.cond.Signal()
	x.mu.Unlock()
}

func (x *Explorer) addCandidate(c *Candidate) {
	x.mu.Lock()
	defer x.mu.Unlock()
	k := c.Kind + " " + c.Label
	x.perLabel[k]++
	if x.perLabel[k] > 3 {
		return
	}
	x.cands = append(x.cands, c)
	if len(x.cands) >= x.cfg.MaxCands {
		x.stop = true
		x.why = "enough counterexamples"
		x.cond.Broadcast()
		return
	}
	// a little more exploration may find a simpler or a replayable one
	if d := time.Now().Add(10 * time.Second); d.Before(x.deadline) {
		x.deadline = d
	}
}

func (x *Explorer) addKnownHit(id string, in []InputVal) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.known[id]) < 3 {
		x.known[id] = append(x.known[id], in)
	}
}

func (x *Explorer) addSample(m *M) {
	if x.cfg.PathSamples == 0 {
		return
	}
	x.mu.Lock()
	x.nSampled++
	n := x.nSampled
	keep := -1
	if len(x.samples) < x.cfg.PathSamples {
		x.samples = append(x.samples, PathSample{})
		keep = len(x.samples) - 1
	} else {
		// a deterministic reservoir
		h := (uint64(n)*0x9E3779B97F4A7C15 ^ uint64(n)>>7) % uint64(n)
		if h < uint64(x.cfg.PathSamples) {
			keep = int(h)
		}
	}
	x.mu.Unlock()
	if keep >= 0 {
		s := PathSample{m.inputValues(), m.renderEvents()}
		x.mu.Lock()
		x.samples[keep] = s
		x.mu.Unlock()
	}
}

func newM(x *Explorer) (*M, error) {
	m := &M{x: x, prog: x.prog, t: NewTerms(), funcs: map[*ssa.Function]*Func{}, glob: map[*ssa.Global]*Value{}, failed: map[*ssa.Package]bool{},
		known: map[*Expr]bool{}, concV: map[*Expr]*Expr{}, env: map[string]Value{}, stats: newStats(), decStep: -1}
	sol, err := NewSolver(m.t, x.cfg.SampleEvery)
	if err != nil {
		return nil, err
	}
	m.sol = sol
	m.rtErr = m.rtype(x.prog.shimPkg.Type("RuntimeError").Type())
	return m, nil
}

// invoke sets the machine up to run f with no arguments.
func (m *M) invoke(f *Func) {
	if !f.compiled {
		m.compile(f)
	}
	m.fr = &Frame{fn: f, ret: -1, stamp: m.counter, depth: 1}
	m.fr.r = make([]Value, f.nregs)
	m.done = false
}

func (m *M) runInits() error {
	m.inInit = true
	for _, f := range m.prog.inits {
		m.invoke(m.fn(f))
		if out := m.runPath(); out.kind != "done" {
			if m.prog.std[f.Pkg.Pkg.Path()] {
				m.failed[f.Pkg] = true
				continue // what follows in it is not needed, or is reported when it is
			}
			return fmt.Errorf("initialising %s: %s: %s\n%s", f, out.kind, out.detail, strings.Join(out.stack, "\n"))
		}
	}
	m.inInit = false
	m.trail = m.trail[:0]
	m.steps = 0
	return nil
}

type rootReached struct{}

func (x *Explorer) worker(i int) {
	m, err := newM(x)
	if err == nil {
		defer m.sol.Close()
		err = m.runInits()
	}
	if err != nil {
		x.mu.Lock()
		x.errs = append(x.errs, "set-up: "+err.Error())
		x.mu.Unlock()
		x.halt("set-up failed")
		return
	}
	m.invoke(m.fn(x.entry))
	m.started = true
	setup := true
	for {
		j := x.next()
		if j == nil {
			break
		}
		m.runJob(j, setup)
		setup = false
		x.finish()
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	r := x.rep
	r.Stats.add(m.stats)
	r.SolverTime += m.sol.Time
	if m.sol.Slowest > r.SolverSlowest {
		r.SolverSlowest = m.sol.Slowest
	}
	r.Sat += m.sol.NSat
	r.Unsat += m.sol.NUnsat
	r.Unknown += m.sol.NUnknown
	r.QuerySamples = append(r.QuerySamples, m.sol.Samples...)
	if m.root != nil && m.root.steps > r.SetupSteps {
		r.SetupSteps = m.root.steps
	}
	for _, f := range m.funcs {
		if f.calls > 0 {
			r.Funcs[f.name] += f.calls
			r.Prof[f.name] += f.steps
		}
	}
}

func (m *M) runJob(j *job, setup bool) {
	x := m.x
	if j.prefix == nil && j.model == nil {
		// the initial job: from the start of the harness
		if !setup {
			m.invoke(m.fn(x.entry))
		}
	} else {
		if m.root == nil {
			m.stopAtRoot = true
			out := m.runPath()
			m.stopAtRoot = false
			if out.kind != "root" {
				x.mu.Lock()
				x.errs = append(x.errs, "worker did not reach the first choice: "+out.kind+" "+out.detail)
				x.mu.Unlock()
				x.halt("engine error")
				return
			}
		}
		m.restart(j.prefix, j.model)
	}
	for {
		s0 := m.steps
		out := m.runPath()
		m.stats.Steps += m.steps - s0
		m.account(out)
		x.mu.Lock()
		x.paths++
		stop := x.stop
		over := time.Now().After(x.deadline)
		many := x.cfg.MaxPaths > 0 && x.paths >= x.cfg.MaxPaths
		x.mu.Unlock()
		if stop {
			return
		}
		if over {
			x.halt("time limit")
			return
		}
		if many {
			x.halt("path limit")
			return
		}
		for x.hungry() {
			d := m.donate()
			if d == nil {
				break
			}
			x.push(d)
		}
		if !m.backtrack() {
			return
		}
	}
}

func (m *M) account(out *outcome) {
	x := m.x
	m.stats.Paths++
	switch out.kind {
	case "done":
		m.stats.Done++
		x.addSample(m)
	case "killed":
		m.stats.Killed++
		m.stats.Kills[out.detail]++
	case "panic":
		m.stats.Panics++
		x.addCandidate(&Candidate{Kind: "panic", Label: clip(out.detail, 200), Inputs: m.inputValues(), Stack: out.stack})
	case "budget":
		m.stats.Budget++
		x.addCandidate(&Candidate{Kind: "budget", Label: out.detail, Inputs: m.inputValues(), Stack: out.stack})
	default:
		m.stats.Errors++
		x.mu.Lock()
		if k := "undecided " + out.detail; x.perLabel[k] < 1 && len(x.errs) < 8 {
			x.perLabel[k]++
			x.errs = append(x.errs, out.detail+"\n  at "+strings.Join(head(out.stack, 12), "\n  at "))
		}
		if len(x.errIn) < 200 {
			x.errIn = append(x.errIn, m.inputValues())
		}
		x.mu.Unlock()
	}
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// FuncsOf lists the executed functions whose name contains one of the parts.
func (r *Report) FuncsOf(parts ...string) []string {
	var out []string
	for n := range r.Funcs {
		for _, p := range parts {
			if strings.Contains(n, p) {
				out = append(out, n)
				break
			}
		}
	}
	sort.Strings(out)
	return out
}
