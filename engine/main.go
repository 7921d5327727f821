package main

// vfengine: symbolic execution of /repo's Go code (go/ssa) with an SMT solver.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// skip lists harness files that are left out.
var skip = map[string]bool{}

func loadProg(repo string, overlayDirs map[string]string, patterns []string) (*Prog, error) {
	overlay := map[string][]byte{}
	for dir, sub := range overlayDirs {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") || skip[filepath.Base(f)] {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			name := "vf_" + filepath.Base(f)
			name = strings.TrimSuffix(name, ".go") + "_overlay.go"
			overlay[filepath.Join(repo, sub, name)] = b
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, fset: prog.Fset, ext: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		p.ext[sp.Pkg.Path()] = sp
	}
	p.pkg = spkgs[0]
	underTest = spkgs[0].Pkg.Path()
	return p, nil
}

// Report is what one harness run produced.
type Report struct {
	Harness     string         `json:"harness"`
	Package     string         `json:"package"`
	Tier        string         `json:"tier"`
	Paths       int            `json:"paths"`
	Infeasible  int            `json:"infeasible_paths"`
	Decisions   int64          `json:"decisions"`
	Instrs      int64          `json:"ssa_instructions"`
	Asserts     int64          `json:"assertions_checked"`
	AssertQ     int64          `json:"assertion_queries"`
	Trivial     int64          `json:"assertions_constant_true"`
	AssertIDs   map[string]int `json:"assert_ids"`
	Unknown     int            `json:"assertions_unknown"`
	Queries     int            `json:"solver_queries"`
	Sat         int            `json:"solver_sat"`
	Unsat       int            `json:"solver_unsat"`
	SolverUnk   int            `json:"solver_unknown"`
	DomSat      int            `json:"dom_sat"`
	DomUnsat    int            `json:"dom_unsat"`
	SolverTime  float64        `json:"solver_seconds"`
	Wall        float64        `json:"wall_seconds"`
	Merges      int            `json:"merged_branches"`
	Reached     map[string]int `json:"reached"`
	Bounded     map[string]int `json:"reduced_bound,omitempty"`
	Unsupported map[string]int `json:"unsupported,omitempty"`
	Errors      []string       `json:"errors,omitempty"`
	Violations  []*Violation   `json:"violations,omitempty"`
	Samples     []*Sample      `json:"samples,omitempty"`
	Functions   []string       `json:"functions"`
	Solver      string         `json:"solver"`
	Complete    bool           `json:"complete"`
	Doc         string         `json:"doc,omitempty"`
}

func (e *Explorer) report(wall float64) *Report {
	r := &Report{Harness: e.HName, Package: e.Harness.Pkg.Pkg.Path(), Tier: e.Tier, Paths: e.paths, Infeasible: e.infeasible, Decisions: e.decisions, Instrs: e.instrs,
		Asserts: e.asserts, AssertQ: e.assertQ, Trivial: e.trivAsserts, AssertIDs: e.assertIDs, Unknown: e.unkAsserts, Queries: e.queries,
		Sat: e.sats, Unsat: e.unsats, SolverUnk: e.unks, DomSat: e.domSat, DomUnsat: e.domUnsat, SolverTime: e.solverTime.Seconds(), Wall: wall, Merges: e.merges, Reached: e.reached,
		Bounded: e.bounded, Unsupported: e.unsup, Errors: e.errs, Samples: e.samples, Solver: e.Solver}
	var ids []string
	for id := range e.viol {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		r.Violations = append(r.Violations, e.viol[id]...)
	}
	for f := range e.funcs {
		if !strings.Contains(f, ".vf") {
			r.Functions = append(r.Functions, f)
		}
	}
	sort.Strings(r.Functions)
	r.Complete = len(e.bounded) == 0 && len(e.unsup) == 0 && len(e.errs) == 0 && e.unkAsserts == 0
	return r
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	hdir := flag.String("harness", "/verif/harness/oauth2", "overlay directory for package oauth2")
	tdir := flag.String("harness-test", "", "overlay directory for package oauth2test")
	run := flag.String("run", "", "comma separated harness functions or prefixes*")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "JSON report")
	workers := flag.Int("workers", 8, "workers")
	solver := flag.String("solver", "z3", "z3, z3old or cvc5")
	timeout := flag.Int("timeout", 10000, "solver timeout per query (ms)")
	budget := flag.Int("budget", 300, "seconds per harness")
	total := flag.Int("total", 0, "seconds for all harnesses together")
	maxSteps := flag.Int("steps", 4000000, "SSA instructions per path")
	verbose := flag.Bool("v", false, "verbose")
	list := flag.Bool("list", false, "list harnesses")
	samples := flag.Int("samples", 24, "passing paths kept for native validation")
	skips := flag.String("skip", "", "comma separated harness files to leave out")
	flag.Parse()
	for _, f := range strings.Split(*skips, ",") {
		skip[f] = true
	}

	t0 := time.Now()
	ov := map[string]string{*hdir: ""}
	pats := []string{"."}
	if *tdir != "" {
		ov[*tdir] = "oauth2test"
		pats = append(pats, "./oauth2test")
	}
	P, err := loadProg(*repo, ov, pats)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		os.Exit(3)
	}
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	var hs []*ssa.Function
	for _, pk := range P.prog.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), underTest) {
			continue
		}
		for n, m := range pk.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "vfH_") {
				continue
			}
			want := *list
			for _, r := range strings.Split(*run, ",") {
				if r == n || (strings.HasSuffix(r, "*") && strings.HasPrefix(n, strings.TrimSuffix(r, "*"))) {
					want = true
				}
			}
			if want {
				hs = append(hs, f)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name() < hs[j].Name() })
	if *list {
		for _, h := range hs {
			fmt.Println(h.Name())
		}
		return
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: no harness matches", *run)
		os.Exit(3)
	}
	var reps []*Report
	for hi, h := range hs {
		t1 := time.Now()
		e := &Explorer{P: P, Harness: h, HName: h.Name(), Tier: *tier, Workers: *workers, MaxSteps: *maxSteps,
			TimeoutMs: *timeout, Solver: *solver, Verbose: *verbose, SampleN: *samples, NoDomains: os.Getenv("VF_DOMAINS") == ""}
		e.Deadline = time.Now().Add(time.Duration(*budget) * time.Second)
		if *total > 0 {
			left := float64(*total) - time.Since(t0).Seconds()
			if hi < len(hs)-1 {
				left *= 0.6
			}
			e.Deadline = time.Now().Add(time.Duration(left * float64(time.Second)))
		}
		e.Run()
		r := e.report(time.Since(t1).Seconds())
		reps = append(reps, r)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%s: paths=%d infeas=%d instrs=%d q=%d (sat %d unsat %d unk %d) solver=%.1fs wall=%.1fs asserts=%d merges=%d\n", r.Harness, r.Paths, r.Infeasible, r.Instrs, r.Queries, r.Sat, r.Unsat, r.SolverUnk, r.SolverTime, r.Wall, r.Asserts, r.Merges)
			fmt.Fprintf(os.Stderr, "   reached=%v\n   bounded=%v\n   unsup=%v\n   errs=%v\n", r.Reached, r.Bounded, r.Unsupported, r.Errors)
			for _, v := range r.Violations {
				b, _ := json.Marshal(v)
				fmt.Fprintf(os.Stderr, "   VIOL %s\n", b)
			}
			type kv struct {
				k string
				n int
			}
			var l []kv
			for k, n := range e.branchSites {
				l = append(l, kv{k, n})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
			for i := 0; i < len(l) && i < 12; i++ {
				fmt.Fprintf(os.Stderr, "   %7d %s\n", l[i].n, l[i].k)
			}
		}
	}
	b, _ := json.MarshalIndent(reps, "", " ")
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	} else if !*verbose {
		os.Stdout.Write(b)
	}
}
