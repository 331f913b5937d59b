package engine

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var stringType = types.Typ[types.String]

// Program is the SSA form of the harness and everything it imports, built
// from the current sources.
type Program struct {
	SSA     *ssa.Program
	Fset    *token.FileSet
	Harness *ssa.Package
	Shims   map[string]*ssa.Function
	inits   []*ssa.Function
	std     map[string]bool
	uninit  map[*ssa.Global]bool // with an initial value that is not computed
	shimPkg *ssa.Package
	mu      sync.Mutex
	sizes   types.Sizes
	grow    sync.Map
	sz      sync.Map
}

type sizeInfo struct {
	n   int64
	ptr bool
}

func (p *Program) sizeof(t types.Type) (int64, bool) {
	if v, ok := p.sz.Load(t); ok {
		s := v.(sizeInfo)
		return s.n, s.ptr
	}
	s := sizeInfo{p.sizes.Sizeof(t), hasPtr(t)}
	p.sz.Store(t, s)
	return s.n, s.ptr
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPtr(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// packages whose initialisers are not run; what the executed code needs from
// them is modelled by intrinsics.
func skipInit(path string) bool {
	switch path {
	case "runtime", "os", "reflect", "sync", "sync/atomic", "fmt", "regexp", "regexp/syntax", "syscall", "time",
		"io/fs", "path/filepath", "testing", "flag", "log", "context", "unique", "iter", "bufio", "internal/sync", "weak", "maps", "io/ioutil":
		return true
	}
	if path == "internal/strconv" {
		return false
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "vendor/")
}

// Load builds the program for the harness package at path (in dir).
func Load(dir, path string, overlay map[string][]byte) (*Program, []*ast.File, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Fset:    fset,
		Overlay: overlay,
		Env:     os.Environ(),
	}
	initial, err := packages.Load(cfg, path, "verif/shim")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{SSA: prog, Fset: fset, Shims: map[string]*ssa.Function{}, std: map[string]bool{}, uninit: map[*ssa.Global]bool{}, sizes: types.SizesFor("gc", "amd64")}
	var syntax []*ast.File
	for i, ip := range initial {
		switch ip.PkgPath {
		case "verif/shim":
			p.shimPkg = pkgs[i]
		default:
			p.Harness = pkgs[i]
			syntax = ip.Syntax
		}
	}
	if p.shimPkg == nil || p.Harness == nil {
		return nil, nil, fmt.Errorf("load: harness or shim package missing")
	}
	for target, name := range shimNames {
		f := p.shimPkg.Func(name)
		if f == nil {
			return nil, nil, fmt.Errorf("load: shim %s missing", name)
		}
		p.Shims[target] = f
	}
	// initialisers in dependency order
	seen := map[*packages.Package]bool{}
	var visit func(q *packages.Package)
	visit = func(q *packages.Package) {
		if seen[q] {
			return
		}
		seen[q] = true
		var names []string
		for n := range q.Imports {
			names = append(names, n)
		}
		sortStrings(names)
		for _, n := range names {
			visit(q.Imports[n])
		}
		if skipInit(q.PkgPath) {
			if sp := prog.Package(q.Types); sp != nil {
				for g := range initialised(sp) {
					p.uninit[g] = true
				}
			}
			return
		}
		p.std[q.PkgPath] = q.Module == nil
		if sp := prog.Package(q.Types); sp != nil {
			if f := sp.Func("init"); f != nil {
				p.inits = append(p.inits, f)
			}
		}
	}
	for _, q := range initial {
		visit(q)
	}
	return p, syntax, nil
}

// initialised are the variables that the initialiser of a package mentions,
// but for those the models stand in for.
func initialised(p *ssa.Package) map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	for name, mem := range p.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || name != "init" && !strings.HasPrefix(name, "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg == p {
						r[g] = true
					}
				}
			}
		}
	}
	if p.Pkg.Path() == "os" {
		for _, n := range []string{"Stdin", "Stdout", "Stderr", "Args"} {
			delete(r, p.Var(n))
		}
	}
	return r
}

// shimNames maps functions to their simplified Go models in verif/shim, which
// are themselves executed symbolically.
var shimNames = map[string]string{
	"fmt.Sprintf":       "Sprintf",
	"fmt.Sprint":        "Sprint",
	"fmt.Sprintln":      "Sprintln",
	"fmt.Printf":        "Printf",
	"fmt.Print":         "Print",
	"fmt.Println":       "Println",
	"fmt.Fprintf":       "Fprintf",
	"fmt.Fprint":        "Fprint",
	"fmt.Fprintln":      "Fprintln",
	"fmt.Errorf":        "Errorf",
	"(*os.File).Write":  "FileWrite",
	"verif/sym.Capture": "Capture",
	"verif/sym.Printed": "Printed",

	"(*os.File).WriteString": "FileWriteString",
	"reflect.TypeOf":         "TypeOf",
	"(*sync.Once).Do":        "OnceDo",
	"(*sync.Pool).Get":       "PoolGet",
	"sort.Slice":             "SortSlice",
	"sort.SliceStable":       "SortSlice",
	"sort.Strings":           "SortStrings",
	"sort.Ints":              "SortInts",
	"reflect.DeepEqual":      "DeepEqual",

	"strings.NewReplacer":         "NewReplacer",
	"(*strings.Replacer).Replace": "Replace",
}
