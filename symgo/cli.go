package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var verifDir = "/verif"

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

// modfile returns the go.mod to use, pointing at the repository under test.
func modfile(tmp, repo string) (string, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "go.mod"))
	if err != nil {
		return "", err
	}
	s := strings.Replace(string(b), "visigoth => /repo", "visigoth => "+repo, 1)
	m := filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(m, []byte(s), 0o644); err != nil {
		return "", err
	}
	// sums for every module the harness or the repository may use
	var sum []byte
	for _, f := range []string{filepath.Join(verifDir, "harness", "go.sum"), filepath.Join(repo, "go.sum")} {
		x, _ := os.ReadFile(f)
		sum = append(sum, x...)
		sum = append(sum, '\n')
	}
	return m, os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644)
}

func load(tmp, repo string) (*Engine, *ssa.Package, error) {
	mf, err := modfile(tmp, repo)
	if err != nil {
		return nil, nil, err
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        filepath.Join(verifDir, "harness"),
		Env:        append(goEnv(), "CGO_ENABLED=0", "GOEXPERIMENT=nojsonv2"),
		BuildFlags: []string{"-modfile=" + mf},
	}
	pkgs, err := packages.Load(cfg, "./props")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	std := map[*types.Package]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.Module == nil && p.Types != nil {
			std[p.Types] = true
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, std: std, sizes: types.SizesFor("gc", runtime.GOARCH), solverBin: "z3-new", workers: runtime.NumCPU(),
		bounds: map[string]int{}, stepFull: 30_000_000, repoPath: repo}
	if b := os.Getenv("SYMGO_SOLVER"); b != "" {
		e.solverBin = b
	}
	if n, _ := strconv.Atoi(os.Getenv("SYMGO_WORKERS")); n > 0 {
		e.workers = n
	}
	e.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rt := prog.ImportedPackage("runtime")
	e.errType = rt.Type("errorString").Type()
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Module != nil && strings.HasSuffix(p.Module.Path, "/visigoth") {
			e.target = append(e.target, p)
		}
	})
	return e, sp[0], nil
}

var propRE = regexp.MustCompile(`^([A-Z]\d\d)_(\w+)$`)

// harnesses lists the harness functions, by property.
func harnesses() (map[string][]string, []string, error) {
	fset := token.NewFileSet()
	dir := filepath.Join(verifDir, "harness", "props")
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	m := map[string][]string{}
	var all []string
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			return nil, nil, err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if g := propRE.FindStringSubmatch(fd.Name.Name); g != nil {
				m[g[1]] = append(m[g[1]], fd.Name.Name)
				all = append(all, fd.Name.Name)
			}
		}
	}
	for _, v := range m {
		sort.Strings(v)
	}
	sort.Strings(all)
	return m, all, nil
}

func cliMain() {
	prop := flag.String("prop", "", "property to check")
	fn := flag.String("fn", "", "explore one harness function and print statistics")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", os.Getenv("VERIF_REPO"), "repository under test")
	warm := flag.Bool("warm", false, "only build the native replay binary")
	rep := flag.String("replay", "", "recorded counterexample to run against the code")
	budget := flag.Duration("budget", 0, "time for each harness")
	flag.Parse()
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if *repo == "" {
		*repo = "/repo"
	}
	if *tier == "" {
		*tier = "quick"
	}
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	func() {
		defer os.RemoveAll(tmp)
		switch {
		case *fn != "":
			code = debugRun(tmp, *repo, *fn, *tier, *budget)
		case *warm:
			code = warmUp(tmp, *repo)
		case *rep != "":
			code = replayFile(tmp, *repo, *rep)
		case *prop != "":
			code = checkProp(tmp, *repo, *prop, *tier, *budget)
		default:
			flag.Usage()
		}
	}()
	os.Exit(code)
}

func debugRun(tmp, repo, fn, tier string, budget time.Duration) int {
	t0 := time.Now()
	e, pkg, err := load(tmp, repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("load %.2fs\n", time.Since(t0).Seconds())
	e.tier = tier
	if budget == 0 {
		budget = 60 * time.Second
	}
	var runs []*Run
	for _, f := range strings.Split(fn, ",") {
		h := pkg.Func(f)
		if h == nil {
			fmt.Fprintln(os.Stderr, "no harness", f)
			return 2
		}
		r := e.explore(h, budget, 0, 0)
		runs = append(runs, r)
		fmt.Printf("%s: paths %d pruned %d asserts %d decisions %d steps %d queries %d (sat %d unsat %d unk %d) solver %.2fs max %.3fs elapsed %.2fs complete %v threads %d deep %d\n",
			f, r.Paths, r.Pruned, r.Asserts, r.Decs, r.Steps, r.Queries, r.SatN, r.UnsatN, r.UnkN, r.SolveT.Seconds(), r.SolveMax.Seconds(), r.Elapsed.Seconds(), r.Complete, r.maxTh, r.deepDec)
		fmt.Println("  bounds", e.bounds, "covers", r.covers)
		if r.fatal != "" {
			fmt.Println("  FATAL", r.fatal)
		}
		for k, v := range r.reduced {
			fmt.Println("  reduced:", v, k)
		}
		for k, v := range r.partial {
			fmt.Println("  partial init:", k, v)
		}
		for _, v := range r.viol {
			b, _ := json.Marshal(v)
			fmt.Println("  VIOL", string(b))
		}
		if os.Getenv("SYMGO_SAMPLES") != "" {
			for _, s := range r.samples {
				fmt.Println("  sample", s.Inputs, s.Obs, s.Sched)
			}
		}
		if os.Getenv("SYMGO_FUNCS") != "" {
			type kv struct {
				k string
				v int
			}
			var l []kv
			for k, v := range r.funcs {
				l = append(l, kv{k, v})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
			for i := 0; i < len(l) && i < 40; i++ {
				fmt.Println("   ", l[i].v, l[i].k)
			}
		}
	}
	_ = runs
	return 0
}

func warmUp(tmp, repo string) int {
	_, all, err := harnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e, _, err := load(tmp, repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := startNative(e, tmp, repo, all)
	<-n.done
	if n.err != nil {
		fmt.Fprintln(os.Stderr, n.err)
		return 2
	}
	if _, err := n.raceBin(); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Println("ready; schedules can be imposed:", n.control)
	return 0
}
