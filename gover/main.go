package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(dir string) (*Verifier, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedImports | packages.NeedModule, Dir: dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	v := &Verifier{prog: prog, fns: map[string]*ssa.Function{}, contracts: map[string]*Contract{}, preds: map[string]*Pred{}, ufns: map[string]*UFn{}, ghosts: map[string][]Ghost{}, cfgs: map[*ssa.Function]*cfgInfo{}, typeCache: map[string]types.Type{}, fnOf: map[string]*ssa.Function{}, freshish: map[*Term]bool{}, assumedSafety: map[string]int{}, allocFacts: map[string][]*Pred{}, entryFacts: map[string]*Axiom{}, constFields: map[string]bool{}, fieldInvs: map[string]*FieldInv{}, fieldInvUsed: map[string]bool{}, listOf: map[string]types.Type{}, storesOnly: map[string]bool{}}
	all := ssautil.AllFunctions(prog)
	collectConcrete(prog, all)
	for fn := range all {
		if isRepo(fn) || fn.Synthetic != "" {
			v.allFns = append(v.allFns, fn)
		}
	}
	for fn := range all {
		if fn.Synthetic != "" || !isRepo(fn) || len(fn.Blocks) == 0 {
			continue
		}
		k := funcKey(fn)
		if _, ok := v.fns[k]; ok {
			continue
		}
		v.fns[k] = fn
	}
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		v.extraPkgs = append(v.extraPkgs, p)
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	for _, p := range pkgs {
		visit(p.Types)
	}
	return v, nil
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	logDir := flag.String("log", "", "directory for SMT logs")
	verbose := flag.Bool("v", false, "verbose")
	jobs := flag.Int("j", 8, "parallel solvers")
	rl := flag.Int("rlimit", 4000000, "solver resource limit per obligation")
	rlc := flag.Int("rlimitcand", 1500000, "solver resource limit per candidate")
	listCalls := flag.Bool("closure", true, "also verify contracted callees")
	covers := flag.Bool("covers", false, "report calls whose contract leaves nothing reachable")
	retry := flag.Bool("retry", true, "retry undecided obligations with other back ends")
	retrySec := flag.Int("retrysec", 20, "time limit of a retry")
	mode := flag.String("mode", "", "property whose clauses are considered (default: all)")
	flag.Parse()
	t0 := time.Now()
	v, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "LOAD ERROR:", err)
		os.Exit(3)
	}
	files, _ := filepath.Glob(*specs + "/*.spec")
	sort.Strings(files)
	for _, f := range files {
		if err := v.loadSpec(f); err != nil {
			fmt.Fprintln(os.Stderr, "SPEC ERROR:", err)
			os.Exit(3)
		}
	}
	if *verbose {
		fmt.Printf("loaded %d functions, %d contracts in %.1fs\n", len(v.fns), len(v.contracts), time.Since(t0).Seconds())
	}
	v.setMode(*mode)
	v.imposeAll()
	v.callCovers = *covers
	var roots []string
	for _, a := range flag.Args() {
		for _, k := range v.order {
			if k == a || strings.HasSuffix(a, "*") && strings.HasPrefix(k, strings.TrimSuffix(a, "*")) || hasStr(v.contracts[k].props, a) {
				roots = append(roots, k)
			}
		}
	}
	res := v.verifyAll(roots, *listCalls, SolveOpts{rlimit: *rl, rlimitCand: *rlc, timeoutMs: 60000, logDir: *logDir, retry: *retry, retrySec: *retrySec}, *jobs)
	tot, dis := 0, 0
	for _, r := range res {
		n, d := len(r.Obls), 0
		for _, o := range r.Obls {
			if o.Status == "discharged" {
				d++
			}
		}
		tot += n
		dis += d
		fmt.Printf("%-50s %d/%d obligations, %d rounds, cands %d/%d, %d queries %.0fms %s\n", r.Key, d, n, r.Rounds, r.CandsKept, r.CandsTried, r.Queries, r.SolverMs, r.Err)
		for _, o := range r.Obls {
			if o.Status != "discharged" || *verbose {
				fmt.Printf("    %-10s %s  (%s) %s %.0fms %s\n", o.Status, o.Name, o.Pos, o.Label, o.Ms, o.Backend)
				if o.Model != "" {
					fmt.Println(o.Model)
				}
			}
		}
		if *verbose {
			sort.Strings(r.Cands)
			for _, c := range r.Cands {
				fmt.Println("    cand", c)
			}
		}
		for _, u := range r.Vacuous {
			fmt.Println("    VACUOUS", u)
		}
	}
	fmt.Printf("TOTAL %d/%d  %.1fs\n", dis, tot, time.Since(t0).Seconds())
}

func hasStr(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func (v *Verifier) verifyAll(roots []string, closure bool, o SolveOpts, jobs int) []*FnResult {
	// generation is sequential (shared term bank), solving is parallel
	done := map[string]bool{}
	var order []string
	work := append([]string{}, roots...)
	results := map[string]*FnResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, jobs)
	for {
		if len(work) == 0 {
			work = v.fieldInvRoots(done)
		}
		if len(work) == 0 {
			break
		}
		k := work[0]
		work = work[1:]
		if done[k] {
			continue
		}
		done[k] = true
		c := v.contracts[k]
		if closure {
			work = append(work, v.imposedOn[k]...)
		}
		if c == nil || c.trusted || c.iface || c.inline {
			continue
		}
		order = append(order, k)
		resetBank()
		v.freshish = map[*Term]bool{}
		vc := v.genVC(k)
		if closure && !v.storesOnly[k] {
			work = append(work, sortedKeys(vc.called)...)
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(pr *Prepared) {
			defer func() { <-sem; wg.Done() }()
			r := v.solve(pr, o)
			mu.Lock()
			results[r.Key] = r
			mu.Unlock()
		}(v.prepare(vc, v.axiomTerms()))
	}
	wg.Wait()
	var out []*FnResult
	for _, k := range order {
		out = append(out, results[k])
	}
	return out
}
