package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var safetyKinds = map[string]bool{"nil": true, "index": true, "slice": true, "makeslice": true, "typeassert": true, "panic": true, "div": true, "termination": true}

// setMode keeps only the contract clauses that are shared or belong to property p.
func (v *Verifier) setMode(p string) {
	v.mode = p
	if p == "" {
		return
	}
	f := func(cs []Clause) []Clause {
		var out []Clause
		for _, c := range cs {
			if len(c.props) == 0 || hasStr(c.props, p) {
				out = append(out, c)
			}
		}
		return out
	}
	for _, c := range v.contracts {
		if len(c.props) > 0 && !hasStr(c.props, p) {
			continue // a callee here: everything its callers may rely on is checked
		}
		c.requires, c.ensures, c.invs = f(c.requires), f(c.ensures), f(c.invs)
	}
}

type finding struct {
	prop, pat, text string
}

// known findings: lines "finding: property=C01 obligation=<prefix of the obligation name> <text>"
func loadFindings(path, prop string) []finding {
	var out []finding
	data, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || f[1] != "property="+prop || !strings.HasPrefix(f[2], "obligation=") {
			continue
		}
		out = append(out, finding{prop, strings.TrimPrefix(f[2], "obligation="), strings.Join(f[3:], " ")})
	}
	return out
}

type failure struct {
	name, pos, label, status string
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	repo := fs.String("repo", "/repo", "repository")
	base := fs.String("verif", "/verif", "framework directory")
	cmdline := fs.String("cmd", "", "command line recorded in the evidence")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	v, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "LOAD ERROR:", err)
		return 3
	}
	var fails []failure
	files, _ := filepath.Glob(*base + "/contracts/*.spec")
	sort.Strings(files)
	for _, f := range files {
		if err := v.loadSpec(f); err != nil {
			// a specification that no longer fits the code (a renamed type, say) decides nothing
			fails = append(fails, failure{*prop + ":specification", "", err.Error(), "error"})
		}
	}
	v.setMode(*prop)
	v.imposeAll()
	o := SolveOpts{rlimit: 4000000, rlimitCand: 1500000, timeoutMs: 60000, retry: true, retrySec: 60}
	if *tier == "thorough" {
		o.rlimit, o.rlimitCand, o.retrySec, o.cross = 20000000, 6000000, 90, true
	}
	var roots, missing []string
	for _, k := range v.order {
		c := v.contracts[k]
		if !hasStr(c.props, *prop) || c.trusted || c.iface {
			continue
		}
		if fn := v.fns[k]; fn == nil || len(fn.Blocks) == 0 {
			missing = append(missing, k)
			continue
		}
		roots = append(roots, k)
	}
	res := v.verifyAll(roots, true, o, 8)

	type fnEv struct {
		Function    string   `json:"function"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		SolverMs    float64  `json:"solver_ms"`
		Invariants  int      `json:"loop_invariants_kept"`
		Inlined     []string `json:"inlined_callees,omitempty"`
	}
	var fe []fnEv
	backends := map[string]int{}
	kinds := map[string]int{}
	tot, dis, queries, covers := 0, 0, 0, 0
	ms := 0.0
	trusted := map[string]bool{}
	inl := map[string]bool{}
	for _, r := range res {
		e := fnEv{Function: r.Key, Obligations: len(r.Obls), SolverMs: r.SolverMs, Invariants: r.CandsKept, Inlined: r.Inlined}
		if r.Err != "" {
			fails = append(fails, failure{r.Key + ":unverifiable", "", r.Err, "error"})
			tot++
		}
		for _, o := range r.Obls {
			tot++
			kinds[o.Kind]++
			if o.Status == "discharged" {
				dis++
				e.Discharged++
				backends[o.Backend]++
			} else {
				fails = append(fails, failure{o.Name, o.Pos, o.Label, o.Status})
			}
		}
		for _, u := range r.Vacuous {
			fails = append(fails, failure{u, "", "vacuous: no execution reaches this point", "failed"})
			tot++
		}
		covers += r.Covers
		ms += r.SolverMs
		queries += r.Queries
		for _, c := range r.Called {
			if ct := v.contracts[c]; ct != nil && (ct.trusted || ct.iface) {
				trusted[c] = true
			}
		}
		for _, c := range r.Inlined {
			inl[c] = true
		}
		fe = append(fe, e)
	}
	if len(roots) == 0 || tot == 0 {
		fails = append(fails, failure{*prop + ":vacuity", "", "no obligation was generated for this property", "error"})
	}
	// known findings
	known := loadFindings(*base+"/known_findings.txt", *prop)
	var open []failure
	hit := map[int]int{}
	for _, f := range fails {
		k := -1
		for i, kf := range known {
			if strings.HasPrefix(f.name, kf.pat) {
				k = i
			}
		}
		if k < 0 {
			open = append(open, f)
		} else {
			hit[k]++
		}
	}
	for i, kf := range known {
		if hit[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kf.text)
		}
	}
	// replay: look for a concrete failing input with the property's harness
	input := ""
	ranHarness, harnessNote := false, ""
	if len(open) > 0 || *tier == "thorough" {
		input, ranHarness, harnessNote = runHarness(*repo, *base, *prop, *tier, seed)
	}
	nv := 0
	if len(open) > 0 || input != "" {
		os.MkdirAll(*base+"/evidence/replay", 0o755)
		path := fmt.Sprintf("%s/evidence/replay/%s.txt", *base, *prop)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\nfailed obligations (function:kind:label#occurrence):\n", *prop)
		for _, f := range open {
			fmt.Fprintf(&sb, "  %-8s %s  %s  %s\n", f.status, f.name, f.pos, f.label)
		}
		fmt.Fprintf(&sb, "\nreplay on the real code: %s\n%s\n", harnessNote, input)
		fmt.Fprintf(&sb, "\nrerun: %s\n", *cmdline)
		os.WriteFile(path, []byte(sb.String()), 0o644)
		suffix := ""
		if input == "" {
			suffix = " no-failing-input-found"
		}
		for i, f := range open {
			if i >= 20 {
				fmt.Printf("... and %d more\n", len(open)-i)
				break
			}
			fmt.Printf("failed obligation: %s (%s) %s [%s]\n", f.name, f.pos, f.label, f.status)
		}
		if input != "" {
			fmt.Println(firstLines(input, 12))
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, path, suffix)
		nv = 1
	}
	// evidence
	tb := []string{"gover (this framework's verification-condition generator over go/ssa)", "golang.org/x/tools/go/ssa v0.52.0", "Go type checker", "z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2"}
	var assume []string
	for _, k := range sortedKeys(trusted) {
		what := "trusted contract"
		if v.contracts[k].iface {
			what = "assumed interface contract"
			if v.contracts[k].imposed {
				what = "interface contract, imposed on its implementers in this repository"
			}
		}
		assume = append(assume, what+": "+k)
	}
	for _, a := range v.usedAxioms() {
		assume = append(assume, "axiom: "+a)
	}
	for _, k := range sortedKeys(v.assumedSafety) {
		assume = append(assume, fmt.Sprintf("panic-freedom/termination of %s assumed here (%d obligations; partial correctness)", k, v.assumedSafety[k]))
	}
	for _, k := range missing {
		assume = append(assume, "function under contract no longer exists (its callers inline whatever replaced it): "+k)
	}
	assume = append(assume,
		"int is 64-bit and mathematical inside a proved no-overflow obligation; fixed-width integers wrap exactly",
		"slices and strings are no longer than 2^40 elements",
		"no other goroutine writes the objects a call works on",
		"callers respect the stated preconditions (requires clauses) of exported functions")
	sort.Slice(fe, func(i, j int) bool { return fe[i].Function < fe[j].Function })
	expected := 0
	for _, n := range hit {
		expected += n
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "proof",
		"wall_s": time.Since(t0).Seconds(), "violations": nv, "assumptions": assume,
		"coverage": map[string]interface{}{
			"obligations": tot, "discharged": dis, "checker_cmd": *cmdline, "trusted_base": tb,
			"functions_under_contract": len(fe), "functions": fe, "back_ends": backends, "kinds": kinds,
			"solver_queries": queries, "solver_ms": ms, "reachability_covers": covers, "known_finding_obligations": expected,
			"inlined_functions": sortedKeys(inl), "replay_harness_run": ranHarness, "replay_note": harnessNote,
		},
	}
	os.MkdirAll(*base+"/evidence", 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(*base+"/evidence/"+*prop+".json", append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d/%d obligations discharged, %d functions under contract, %d trusted, %.1fs\n", *prop, *tier, dis, tot, len(fe), len(trusted), time.Since(t0).Seconds())
	if nv > 0 {
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// runHarness runs the property's replay harness (in-package tests laid over the repository) against
// the current tree and returns what it reports as a failing input.
func runHarness(repo, base, prop, tier string, seed int) (string, bool, string) {
	all, _ := filepath.Glob(base + "/harness/*_test.go.txt")
	var files []string
	for _, f := range all {
		if b, err := os.ReadFile(f); err == nil && strings.Contains(string(b), "func TestVerif"+prop) {
			files = append(files, f)
		}
	}
	if len(files) == 0 {
		return "", false, "no harness for this property"
	}
	tmp, err := os.MkdirTemp("", "gover-harness")
	if err != nil {
		return "", false, err.Error()
	}
	defer os.RemoveAll(tmp)
	ran := false
	var notes []string
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		// first line: // dir: rtp
		first := strings.SplitN(string(src), "\n", 2)[0]
		dir := strings.TrimSpace(strings.TrimPrefix(first, "// dir:"))
		bn := strings.TrimSuffix(filepath.Base(f), ".txt")
		test := tmp + "/" + bn
		os.WriteFile(test, src, 0o644)
		ov := map[string]map[string]string{"Replace": {filepath.Join(repo, dir, "zz_"+bn): test}}
		ob, _ := json.Marshal(ov)
		ovf := tmp + "/overlay_" + bn + ".json"
		os.WriteFile(ovf, ob, 0o644)
		limit := 150 * time.Second
		if tier == "thorough" {
			limit = 400 * time.Second
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		c := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-timeout", limit.String(), "-overlay", ovf, "-run", "^TestVerif"+prop, "./"+dir)
		c.Dir = repo
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOMEMLIMIT=4GiB", fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "VERIF_KNOWN="+base+"/known_findings.txt")
		c.WaitDelay = 2 * time.Second
		out, err := c.CombinedOutput()
		cancel()
		s := string(out)
		var bad []string
		for _, l := range strings.Split(s, "\n") {
			if i := strings.Index(l, "FAILING-INPUT"); i >= 0 {
				bad = append(bad, l[i:])
			}
		}
		switch {
		case len(bad) > 0:
			return strings.Join(bad, "\n"), true, "harness " + bn
		case strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]"):
			notes = append(notes, bn+": does not build against the current tree")
		case err != nil:
			ran = true
			notes = append(notes, bn+": ended without a verdict: "+firstLines(lastLines(s, 5), 5))
		default:
			ran = true
			notes = append(notes, bn+": no failing input found")
		}
	}
	return "", ran, strings.Join(notes, "; ")
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, " | ")
}
