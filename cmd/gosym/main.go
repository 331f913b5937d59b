// gosym decides the properties of the harness package by symbolic execution
// of the real code, compiled from /repo's current sources.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine"
)

type directive struct {
	expect   []string
	bounds   []string
	steps    int64
	depth    int
	tiers    string
	time     map[string]time.Duration
	optional bool
}

type harness struct {
	name string
	d    directive
}

type harnessResult struct {
	h     harness
	rep   *engine.Report
	valid int
	bad   []string
}

var (
	dir      = flag.String("dir", "", "directory of the verification project")
	property = flag.String("property", "", "property to decide")
	tier     = flag.String("tier", "quick", "quick or thorough")
	only     = flag.String("only", "", "run only harness functions whose name contains this")
	workers  = flag.Int("workers", 0, "number of workers")
	verbose  = flag.Bool("v", false, "verbose")
	replayF  = flag.String("replay", "", "replay a recorded violation")
	noNative = flag.Bool("nonative", false, "skip the native replay (development)")
	pkgName  = flag.String("pkg", "", "harness package (default derived from the property)")
	known    = flag.String("known", "known_findings.txt", "file of known findings")
	progress = flag.Bool("progress", false, "print progress")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if *dir == "" {
		*dir, _ = os.Getwd()
	}
	*dir, _ = filepath.Abs(*dir)
	if *workers == 0 {
		*workers = runtime.NumCPU()
	}
	if *replayF != "" {
		os.Exit(replayFile(*replayF))
	}
	if *property == "" {
		die("no property given")
	}
	os.Exit(check())
}

// findings reads the known-findings file: lines
// "finding: property=<id> id=<fid> <text>"; "fixed:" lines suppress nothing.
func findings(prop string) (map[string]string, error) {
	b, err := os.ReadFile(filepath.Join(*dir, *known))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	r := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		r[strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
	return r, nil
}

func parseDirectives(doc *ast.CommentGroup) directive {
	d := directive{time: map[string]time.Duration{}}
	if doc == nil {
		return d
	}
	for _, c := range doc.List {
		t := strings.TrimPrefix(c.Text, "//")
		if !strings.HasPrefix(t, "verif:") {
			continue
		}
		key, rest, _ := strings.Cut(strings.TrimPrefix(t, "verif:"), " ")
		rest = strings.TrimSpace(rest)
		switch key {
		case "expect":
			d.expect = append(d.expect, strings.Fields(rest)...)
		case "bounds":
			d.bounds = append(d.bounds, rest)
		case "steps":
			d.steps, _ = strconv.ParseInt(rest, 10, 64)
		case "depth":
			d.depth, _ = strconv.Atoi(rest)
		case "tier":
			d.tiers = rest
		case "time":
			for _, f := range strings.Fields(rest) {
				k, v, _ := strings.Cut(f, "=")
				if dd, err := time.ParseDuration(v); err == nil {
					d.time[k] = dd
				}
			}
		default:
			die("unknown directive %s", t)
		}
	}
	return d
}

func check() int {
	t0 := time.Now()
	kf, err := findings(*property)
	if err != nil {
		die("%v", err)
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	ov, err := makeOverlay(tmp)
	if err != nil {
		die("overlay: %v", err)
	}
	pkg := *pkgName
	if pkg == "" {
		pkg = "verif/harness"
	}
	prog, files, err := engine.Load(*dir, pkg, ov.contents)
	if err != nil {
		fmt.Println("the code does not load:", err)
		return 2
	}
	tLoad := time.Since(t0)
	var hs []harness
	var all []string
	for _, f := range files {
		for _, dcl := range f.Decls {
			fd, ok := dcl.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || len(fd.Name.Name) < 4 || fd.Name.Name[3] != '_' {
				continue
			}
			if c := fd.Name.Name[0]; c != 'C' && c != 'S' {
				continue
			}
			all = append(all, fd.Name.Name)
			if !strings.HasPrefix(fd.Name.Name, *property+"_") || !strings.Contains(fd.Name.Name, *only) {
				continue
			}
			d := parseDirectives(fd.Doc)
			if d.tiers != "" && d.tiers != *tier {
				continue
			}
			hs = append(hs, harness{fd.Name.Name, d})
		}
	}
	if len(hs) == 0 {
		die("no harness for %s", *property)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	sort.Strings(all)
	// the native build of the same code
	type built struct {
		path string
		err  error
	}
	bch := make(chan built, 1)
	go func() {
		p, err := buildReplay(tmp, ov, pkg, all)
		bch <- built{p, err}
	}()

	var results []*harnessResult
	var b built
	waited := false
	for _, h := range hs {
		cfg := engine.Config{
			MaxSteps: 60_000_000, MaxDepth: 6000, Workers: *workers, Known: map[string]bool{}, Thorough: *tier == "thorough",
			SampleEvery: 37, PathSamples: 60, TimeLimit: 90 * time.Second,
		}
		if h.d.steps > 0 {
			cfg.MaxSteps = h.d.steps
		}
		if h.d.depth > 0 {
			cfg.MaxDepth = h.d.depth
		}
		if cfg.Thorough {
			cfg.TimeLimit = 20 * time.Minute
			cfg.PathSamples = 400
		}
		if d, ok := h.d.time[*tier]; ok {
			cfg.TimeLimit = d
		}
		for k := range kf {
			cfg.Known[k] = true
		}
		rep, err := engine.Explore(prog, h.name, cfg)
		if err != nil {
			die("%v", err)
		}
		results = append(results, &harnessResult{h: h, rep: rep})
		if *verbose {
			s := rep.Stats
			fmt.Printf("# %s: %.1fs paths=%d done=%d killed=%d panics=%d budget=%d errors=%d steps=%d setup=%d queries=%d (sat %d unsat %d) patch=%d asserts=%d solver=%.1fs cands=%d complete=%v %s\n",
				h.name, rep.Wall.Seconds(), s.Paths, s.Done, s.Killed, s.Panics, s.Budget, s.Errors, s.Steps, rep.SetupSteps, s.Queries, rep.Sat, rep.Unsat, s.PatchSat, s.AssertQueries, rep.SolverTime.Seconds(), len(rep.Cands), rep.Complete, rep.Why)
			fmt.Printf("#   asserts %v covers %v kills %v\n", s.Asserts, s.Covers, s.Kills)
			if *progress {
				var fn []string
				for f := range rep.Prof {
					fn = append(fn, f)
				}
				sort.Slice(fn, func(i, j int) bool { return rep.Prof[fn[i]] > rep.Prof[fn[j]] })
				for i, f := range fn {
					if i < 25 {
						fmt.Printf("#   prof %10d steps %9d calls %s\n", rep.Prof[f], rep.Funcs[f], f)
					}
				}
			}
			for _, e := range rep.Errors {
				fmt.Println("#   error:", e)
			}
			for _, c := range rep.Cands {
				fmt.Printf("#   candidate %s %s %s\n", c.Kind, c.Label, showInputs(c.Inputs))
				for i, s := range c.Stack {
					if i < 12 {
						fmt.Println("#      ", s)
					}
				}
			}
		}
		if len(rep.Cands) > 0 {
			if !waited {
				b, waited = <-bch, true
			}
			if b.err != nil || reproduced(tmp, b.path, kf, h.name, rep.Cands) {
				break
			}
		}
	}
	if !waited {
		b = <-bch
	}
	if b.err != nil {
		fmt.Println("the native build fails:", b.err)
		return 2
	}
	code := judge(tmp, b.path, kf, results, t0, tLoad)
	return code
}

// ---- overlay: generated packages ----

type overlay struct {
	contents map[string][]byte // path -> text, for the symbolic load
	jsonPath string            // for go build
}

func makeOverlay(tmp string) (*overlay, error) {
	ov := &overlay{contents: map[string][]byte{}}
	// examples/lisp-repl is a main package: the same files as an importable one
	src := "/repo/examples/lisp-repl"
	ents, err := os.ReadDir(src)
	if err == nil {
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, n))
			if err != nil {
				return nil, err
			}
			b = bytes.Replace(b, []byte("package main\n"), []byte("package lisp\n"), 1)
			b = bytes.Replace(b, []byte("func main()"), []byte("func main_()"), 1)
			ov.contents[filepath.Join(*dir, "gen", "lisp", n)] = b
		}
		exp, err := os.ReadFile(filepath.Join(*dir, "gen", "lisp_export.go.txt"))
		if err == nil {
			ov.contents[filepath.Join(*dir, "gen", "lisp", "zz_export.go")] = exp
		}
	}
	rep := map[string]string{}
	i := 0
	for p, b := range ov.contents {
		f := filepath.Join(tmp, fmt.Sprintf("ov%d.go", i))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return nil, err
		}
		rep[p] = f
	}
	ov.jsonPath = filepath.Join(tmp, "overlay.json")
	return ov, writeOverlay(ov.jsonPath, rep)
}

func writeOverlay(path string, rep map[string]string) error {
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	return os.WriteFile(path, j, 0o644)
}

func buildReplay(tmp string, ov *overlay, pkg string, names []string) (string, error) {
	var b strings.Builder
	fmt.Fprintf(&b, "package main\n\nimport (\n\th %q\n\t\"verif/replay\"\n)\n\nfunc main() {\n\treplay.Main(map[string]func(){\n", pkg)
	for _, n := range names {
		fmt.Fprintf(&b, "\t\t%q: h.%s,\n", n, n)
	}
	b.WriteString("\t})\n}\n")
	f := filepath.Join(tmp, "replay_main.go")
	if err := os.WriteFile(f, []byte(b.String()), 0o644); err != nil {
		return "", err
	}
	j, err := os.ReadFile(ov.jsonPath)
	if err != nil {
		return "", err
	}
	var m struct{ Replace map[string]string }
	if err := json.Unmarshal(j, &m); err != nil {
		return "", err
	}
	m.Replace[filepath.Join(*dir, "cmd", "replaymain", "main.go")] = f
	jp := filepath.Join(tmp, "overlay2.json")
	if err := writeOverlay(jp, m.Replace); err != nil {
		return "", err
	}
	out := filepath.Join(tmp, "replay")
	cmd := exec.Command("go", "build", "-overlay", jp, "-o", out, "./cmd/replaymain")
	cmd.Dir = *dir
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, o)
	}
	return out, nil
}

func showInputs(in []engine.InputVal) string {
	type grp struct {
		name string
		b    []byte
	}
	var parts []string
	var g *grp
	flush := func() {
		if g != nil {
			parts = append(parts, fmt.Sprintf("%s=%q", g.name, g.b))
			g = nil
		}
	}
	for _, v := range in {
		if i := strings.IndexByte(v.Name, '['); i > 0 {
			n := v.Name[:i]
			if g == nil || g.name != n {
				flush()
				g = &grp{name: n}
			}
			g.b = append(g.b, byte(v.Val))
			continue
		}
		flush()
		parts = append(parts, fmt.Sprintf("%s=%d", v.Name, int64(v.Val)))
	}
	flush()
	return strings.Join(parts, " ")
}
