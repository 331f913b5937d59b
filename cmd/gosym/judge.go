package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/engine"
)

// a case handed to the native build, and what came back
type caseIn struct {
	ID int               `json:"id"`
	H  string            `json:"h"`
	In map[string]uint64 `json:"in"`
}

type caseOut struct {
	ID     int      `json:"id"`
	Events []string `json:"events"`
	Fail   []string `json:"fail"`
	Inv    string   `json:"inv"`
	Panic  string   `json:"panic"`
	Hang   bool     `json:"hang"`
	crash  string
	done   bool
}

func (c *caseOut) broken() string {
	switch {
	case c == nil:
		return ""
	case len(c.Fail) > 0:
		return strings.Join(c.Fail, "; ")
	case c.Panic != "":
		return "panic: " + c.Panic
	case c.Hang:
		return "does not terminate (20 s)"
	case c.crash != "":
		return c.crash
	}
	return ""
}

func inMap(in []engine.InputVal) map[string]uint64 {
	m := map[string]uint64{}
	for _, v := range in {
		m[v.Name] = v.Val
	}
	return m
}

// runNative replays the cases against the native build, restarting it after a
// case that kills or hangs it.
func runNative(tmp, bin string, kf map[string]string, cases []caseIn) map[int]*caseOut {
	res := map[int]*caseOut{}
	var ids []string
	for k := range kf {
		ids = append(ids, k)
	}
	for round := 0; len(cases) > 0 && round < 40; round++ {
		in := filepath.Join(tmp, fmt.Sprintf("cases%d.json", time.Now().UnixNano()))
		out := in + ".out"
		f, err := os.Create(in)
		if err != nil {
			die("%v", err)
		}
		enc := json.NewEncoder(f)
		for _, c := range cases {
			enc.Encode(c)
		}
		f.Close()
		ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
		cmd := exec.CommandContext(ctx, bin, in, out, strings.Join(ids, ","), *tier)
		cmd.Dir = tmp
		var errb strings.Builder
		cmd.Stderr = &limited{b: &errb}
		cmd.Run()
		cancel()
		next := 0
		if g, err := os.Open(out); err == nil {
			sc := bufio.NewScanner(g)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				var o caseOut
				if json.Unmarshal(sc.Bytes(), &o) != nil {
					break
				}
				o.done = true
				res[o.ID] = &o
				next++
			}
			g.Close()
		}
		os.Remove(in)
		os.Remove(out)
		if next >= len(cases) {
			break
		}
		// a hang is reported by the process itself before it exits
		if next > 0 {
			if o := res[cases[next-1].ID]; o != nil && o.Hang {
				cases = cases[next:]
				continue
			}
		}
		res[cases[next].ID] = &caseOut{ID: cases[next].ID, crash: "crash: " + firstLine(errb.String())}
		cases = cases[next+1:]
	}
	return res
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 4096 {
		l.b.Write(p)
	}
	return len(p), nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "stack") || strings.Contains(l, "panic") || strings.Contains(l, "exceeds") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// reproduced tells whether one of the candidates fails natively.
func reproduced(tmp, bin string, kf map[string]string, h string, cands []*engine.Candidate) bool {
	var cases []caseIn
	for i, c := range cands {
		cases = append(cases, caseIn{i, h, inMap(c.Inputs)})
	}
	for _, o := range runNative(tmp, bin, kf, cases) {
		if o != nil && o.broken() != "" {
			return true
		}
	}
	return false
}

func judge(tmp, bin string, kf map[string]string, results []*harnessResult, t0 time.Time, tLoad time.Duration) int {
	type origin struct {
		r    *harnessResult
		kind string // cand, sample, known, err
		c    *engine.Candidate
		s    *engine.PathSample
		id   string
	}
	var cases []caseIn
	var orig []origin
	add := func(h string, in []engine.InputVal, o origin) {
		cases = append(cases, caseIn{len(cases), h, inMap(in)})
		orig = append(orig, o)
	}
	for _, r := range results {
		for _, c := range r.rep.Cands {
			add(r.h.name, c.Inputs, origin{r: r, kind: "cand", c: c})
		}
		for id, ins := range r.rep.Known {
			for _, in := range ins {
				add(r.h.name, in, origin{r: r, kind: "known", id: id})
			}
		}
		for i := range r.rep.Samples {
			s := &r.rep.Samples[i]
			add(r.h.name, s.Inputs, origin{r: r, kind: "sample", s: s})
		}
		for _, in := range r.rep.ErrInputs {
			add(r.h.name, in, origin{r: r, kind: "err"})
		}
	}
	out := runNative(tmp, bin, kf, cases)
	var viol []string
	violN := 0
	knownSeen := map[string]bool{}
	var spurious, mismatch []string
	confirmed := map[string]bool{}
	validated := 0
	var violLine string
	for i, o := range orig {
		n := out[i]
		if n == nil {
			continue
		}
		br := n.broken()
		switch o.kind {
		case "cand", "err":
			if br != "" {
				key := o.r.h.name + " " + br
				if !confirmed[key] {
					confirmed[key] = true
					violN++
					p := writeReplay(o.r.h.name, cases[i].In, br, o.c)
					viol = append(viol, fmt.Sprintf("%s: %s [%s]", o.r.h.name, br, showMap(cases[i].In)))
					if violLine == "" {
						violLine = p
					}
				}
			} else if o.kind == "cand" {
				spurious = append(spurious, fmt.Sprintf("%s: %s %s not reproduced natively (%s) inv=%q", o.r.h.name, o.c.Kind, o.c.Label, showInputs(o.c.Inputs), n.Inv))
			}
		case "known":
			for _, e := range n.Events {
				if e == "known "+o.id {
					knownSeen[o.id] = true
				}
			}
			if br != "" {
				violN++
				p := writeReplay(o.r.h.name, cases[i].In, br, o.c)
				viol = append(viol, fmt.Sprintf("%s: %s [%s]", o.r.h.name, br, showMap(cases[i].In)))
				if violLine == "" {
					violLine = p
				}
			}
		case "sample":
			switch {
			case br != "":
				// the real code disagrees with the symbolic verdict: the real code decides
				key := o.r.h.name + " " + br
				if !confirmed[key] {
					confirmed[key] = true
					violN++
					p := writeReplay(o.r.h.name, cases[i].In, br, o.c)
					viol = append(viol, fmt.Sprintf("%s: %s [%s] (found while validating a path)", o.r.h.name, br, showMap(cases[i].In)))
					if violLine == "" {
						violLine = p
					}
				}
				mismatch = append(mismatch, fmt.Sprintf("%s: %s", o.r.h.name, br))
			case strings.Join(n.Events, "\n") != strings.Join(o.s.Events, "\n"):
				mismatch = append(mismatch, fmt.Sprintf("%s [%s]: symbolic %v native %v inv=%q", o.r.h.name, showMap(cases[i].In), clipList(o.s.Events), clipList(n.Events), n.Inv))
			default:
				validated++
				o.r.valid++
			}
		}
	}
	// a second solver re-decides a sample of the queries
	cross := crossCheck(results)

	// vacuity
	var vac []string
	for _, r := range results {
		if len(r.rep.Cands) > 0 {
			continue
		}
		if !r.rep.Complete && r.rep.Why == "set-up failed" {
			continue
		}
		for _, l := range r.h.d.expect {
			if r.rep.Stats.Covers[l] == 0 && r.rep.Stats.Asserts[l] == 0 {
				vac = append(vac, r.h.name+" never reaches "+l)
			}
		}
		if len(r.h.d.expect) == 0 && len(r.rep.Stats.Asserts) == 0 {
			vac = append(vac, r.h.name+" reaches no assertion")
		}
	}
	var errs []string
	var tot engine.Stats
	tot.Asserts, tot.Covers, tot.Kills = map[string]int64{}, map[string]int64{}, map[string]int64{}
	setupFail := false
	for _, r := range results {
		errs = append(errs, r.rep.Errors...)
		if r.rep.Why == "set-up failed" {
			setupFail = true
		}
		addStats(&tot, &r.rep.Stats)
	}

	for _, v := range viol {
		fmt.Println("violation:", v)
	}
	for _, v := range spurious {
		fmt.Println("not reproduced:", v)
	}
	for _, v := range mismatch {
		fmt.Println("model mismatch:", v)
	}
	for _, v := range cross.disagree {
		fmt.Println("solver disagreement:", v)
	}
	for _, v := range vac {
		fmt.Println("vacuous:", v)
	}
	for _, v := range errs {
		fmt.Println("undecided path:", v)
	}
	var kids []string
	for id := range kf {
		kids = append(kids, id)
	}
	sort.Strings(kids)
	for _, id := range kids {
		if knownSeen[id] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *property, kf[id])
		} else if *only == "" {
			fmt.Printf("note: listed finding %s was not observed\n", id)
		}
	}
	writeEvidence(results, &tot, validated, violN, cross, spurious, mismatch, vac, errs, knownSeen, time.Since(t0), tLoad)
	fmt.Printf("%s %s: %d harnesses, %d paths, %d solver queries, %d obligations decided by the solver, %d paths validated natively, %.1fs\n",
		*property, *tier, len(results), tot.Paths, tot.Queries, tot.AssertQueries, validated, time.Since(t0).Seconds())
	if violN > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *property, violLine)
		return 1
	}
	if len(cross.disagree) > 0 {
		return 2
	}
	if setupFail && tot.Done == 0 {
		return 2
	}
	// Undecided paths, unreproduced candidates and model mismatches reduce
	// what was covered; they are reported in the evidence, and are no verdict.
	if os.Getenv("GOSYM_STRICT") != "" && len(spurious)+len(mismatch)+len(vac)+len(errs) > 0 {
		return 3
	}
	return 0
}

func addStats(s, o *engine.Stats) {
	s.Paths += o.Paths
	s.Done += o.Done
	s.Panics += o.Panics
	s.Killed += o.Killed
	s.Budget += o.Budget
	s.Errors += o.Errors
	s.Steps += o.Steps
	s.Queries += o.Queries
	s.PatchSat += o.PatchSat
	s.Choices += o.Choices
	s.AssertQueries += o.AssertQueries
	for k, v := range o.Asserts {
		s.Asserts[k] += v
	}
}

func clipList(s []string) []string {
	if len(s) > 12 {
		s = s[len(s)-12:]
	}
	return s
}

func showMap(m map[string]uint64) string {
	var in []engine.InputVal
	for k, v := range m {
		in = append(in, engine.InputVal{Name: k, Val: v})
	}
	key := func(n string) (string, int) {
		if i := strings.IndexByte(n, '['); i > 0 {
			j, _ := strconv.Atoi(strings.TrimSuffix(strings.Split(n[i+1:], "]")[0], "]"))
			return n[:i], j
		}
		return n, -1
	}
	sort.Slice(in, func(i, j int) bool {
		a, x := key(in[i].Name)
		b, y := key(in[j].Name)
		if a != b {
			return a < b
		}
		return x < y
	})
	return showInputs(in)
}

type replayRec struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Tier     string            `json:"tier"`
	Inputs   map[string]uint64 `json:"inputs"`
	Shown    string            `json:"shown"`
	What     string            `json:"what"`
	Where    []string          `json:"where,omitempty"`
	Run      string            `json:"run"`
}

func writeReplay(h string, in map[string]uint64, what string, c *engine.Candidate) string {
	d := filepath.Join(*dir, "evidence")
	os.MkdirAll(d, 0o755)
	n := 0
	var p string
	for {
		p = filepath.Join(d, fmt.Sprintf("replay-%s-%d.json", *property, n))
		if writtenReplay[p] {
			n++
			continue
		}
		break
	}
	writtenReplay[p] = true
	r := replayRec{Property: *property, Harness: h, Tier: *tier, Inputs: in, Shown: showMap(in), What: what, Run: "./run.sh -replay " + p}
	if c != nil {
		r.Where = c.Stack
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

var writtenReplay = map[string]bool{}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var r replayRec
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	*property, *tier = r.Property, r.Tier
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	ov, err := makeOverlay(tmp)
	if err != nil {
		die("%v", err)
	}
	pkg := *pkgName
	if pkg == "" {
		pkg = "verif/harness"
	}
	bin, err := buildReplay(tmp, ov, pkg, []string{r.Harness})
	if err != nil {
		die("%v", err)
	}
	kf, _ := findings(r.Property)
	out := runNative(tmp, bin, kf, []caseIn{{0, r.Harness, r.Inputs}})[0]
	fmt.Println(r.Shown)
	for _, e := range out.Events {
		fmt.Println(" ", e)
	}
	if w := out.broken(); w != "" {
		fmt.Println("broken:", w)
		return 1
	}
	fmt.Println("holds", out.Inv)
	return 0
}

// ---- second solver ----

type crossRes struct {
	checked, agreed int
	unknown         int
	disagree        []string
	solver          string
	wall            time.Duration
}

func crossCheck(results []*harnessResult) crossRes {
	c := crossRes{solver: "cvc5"}
	if _, err := exec.LookPath("cvc5"); err != nil {
		c.solver = "z3-new"
		if _, err := exec.LookPath("z3-new"); err != nil {
			c.solver = "none"
			return c
		}
	}
	var q []engine.Sample
	for _, r := range results {
		q = append(q, r.rep.QuerySamples...)
	}
	max := 120
	if *tier == "thorough" {
		max = 1500
	}
	if len(q) > max {
		step := float64(len(q)) / float64(max)
		var s []engine.Sample
		for i := 0; i < max; i++ {
			s = append(s, q[int(float64(i)*step)])
		}
		q = s
	}
	t0 := time.Now()
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, s := range q {
		wg.Add(1)
		sem <- true
		go func(s engine.Sample) {
			defer func() { <-sem; wg.Done() }()
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			var cmd *exec.Cmd
			if c.solver == "cvc5" {
				cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "-")
			} else {
				cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2")
			}
			cmd.Stdin = strings.NewReader(s.Script)
			o, _ := cmd.Output()
			got := strings.TrimSpace(string(o))
			mu.Lock()
			defer mu.Unlock()
			c.checked++
			switch {
			case got == s.Res.String():
				c.agreed++
			case got == "sat" || got == "unsat":
				c.disagree = append(c.disagree, fmt.Sprintf("z3 says %v, %s says %s", s.Res, c.solver, got))
			default:
				c.unknown++
			}
		}(s)
	}
	wg.Wait()
	c.wall = time.Since(t0)
	return c
}

// ---- evidence ----

func writeEvidence(results []*harnessResult, tot *engine.Stats, validated, viol int, cross crossRes, spurious, mismatch, vac, errs []string, known map[string]bool, wall, tLoad time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	funcs := map[string]bool{}
	var hs []map[string]any
	var samples []any
	exhaustive := true
	var bounds []string
	var solver time.Duration
	var sat, unsat, unknown int
	for _, r := range results {
		rep := r.rep
		for _, f := range rep.FuncsOf("grepsuzette/joeson", "verif/gen/lisp") {
			funcs[f] = true
		}
		if !rep.Complete || rep.Stats.Budget > 0 || rep.Stats.Errors > 0 {
			exhaustive = false
		}
		solver += rep.SolverTime
		sat += rep.Sat
		unsat += rep.Unsat
		unknown += rep.Unknown
		bounds = append(bounds, r.h.name+": "+strings.Join(r.h.d.bounds, " "))
		h := map[string]any{
			"harness": r.h.name, "bounds": r.h.d.bounds, "paths": rep.Stats.Paths, "paths_completed": rep.Stats.Done,
			"paths_outside_assumptions": rep.Stats.Killed, "paths_over_budget": rep.Stats.Budget, "paths_undecided": rep.Stats.Errors,
			"instructions": rep.Stats.Steps, "branch_points": rep.Stats.Choices, "solver_queries": rep.Stats.Queries,
			"obligations_by_solver": rep.Stats.AssertQueries, "branch_models_by_evaluation": rep.Stats.PatchSat,
			"assertions_reached": rep.Stats.Asserts, "cover": rep.Stats.Covers,
			"solver_s": round(rep.SolverTime), "slowest_query_s": round(rep.SolverSlowest), "wall_s": round(rep.Wall),
			"exhaustive_within_bounds": rep.Complete && rep.Stats.Budget == 0 && rep.Stats.Errors == 0, "paths_validated_natively": r.valid,
		}
		if !rep.Complete {
			h["stopped"] = rep.Why
		}
		hs = append(hs, h)
		for i, s := range rep.Samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": r.h.name, "inputs": showInputs(s.Inputs), "observed": clipList(s.Events)})
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var kn []string
	for k := range known {
		kn = append(kn, k)
	}
	ev := map[string]any{
		"property": *property, "tier": *tier, "seed": seed, "level": "model_checking",
		"wall_s": round(wall), "violations": viol,
		"coverage": map[string]any{
			"states": tot.Paths, "transitions": tot.Steps, "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": exhaustive,
			"states_are": "symbolic execution paths; each stands for every input satisfying its path condition", "transitions_are": "executed SSA instructions",
			"bounds": bounds, "harnesses": hs, "functions_encoded": fl, "functions_encoded_count": len(fl),
			"queries": tot.Queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unknown,
			"how_obligations_are_decided":      "an assertion over symbolic values is one query (path condition and its negation); one that is already a constant where it is reached, the code and the specification having branched on the same symbols, rests on the queries that decided those branches: each side of a branch is taken unless the solver shows it unsatisfiable",
			"obligations_discharged_by_solver": tot.AssertQueries, "obligation_instances": tot.Asserts, "solver_s": round(solver),
			"cross_checked_queries": cross.checked, "cross_agreed": cross.agreed, "cross_unknown": cross.unknown, "cross_solver": cross.solver, "cross_s": round(cross.wall),
			"load_and_encode_s": round(tLoad), "not_reproduced": spurious, "model_mismatches": mismatch, "vacuous": vac, "undecided": errs, "known_findings_observed": kn,
		},
		"assumptions": []string{
			"bounds as listed; nothing is claimed outside them",
			"models of fmt, sort, sync, os environment, strings.Builder and regexp as in /verif/engine and /verif/shim, checked by replaying explored paths natively",
			"z3 4.8.12 answers are right (a sample is re-decided by " + cross.solver + ")",
			"the SSA construction of golang.org/x/tools v0.52.0 and the executor in /verif/engine",
		},
	}
	d := filepath.Join(*dir, "evidence")
	os.MkdirAll(d, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(d, *property+".json"), b, 0o644)
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }
