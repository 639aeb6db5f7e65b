package main

import (
	"bufio"
	"context"
	_ "embed"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

//go:embed prelude.smt2
var prelude string

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	log  *os.File
	n    int
	time time.Duration
	dead bool
}

var debugCands = os.Getenv("GOVER_CANDS") != ""

func newSolver(bin string, args []string, logf string) *Solver {
	c := exec.Command(bin, args...)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = nil
	if err := c.Start(); err != nil {
		return &Solver{dead: true}
	}
	s := &Solver{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}
	if logf != "" {
		s.log, _ = os.Create(logf)
	}
	return s
}

func (s *Solver) send(t string) {
	if s.dead {
		return
	}
	if s.log != nil {
		s.log.WriteString(t)
	}
	if _, err := io.WriteString(s.in, t); err != nil {
		s.dead = true
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "dead"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) check() string {
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.n++
	for {
		r := s.readLine()
		if s.log != nil {
			fmt.Fprintf(s.log, "; -> %s (%.2fs)\n", r, time.Since(t0).Seconds())
		}
		switch {
		case r == "sat" || r == "unsat" || r == "unknown" || r == "dead" || r == "timeout":
			s.time += time.Since(t0)
			return r
		case strings.HasPrefix(r, "(error"):
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", r)
			s.time += time.Since(t0)
			return "error"
		}
	}
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	if s.log != nil {
		s.log.Close()
	}
}

type OblResult struct {
	Name    string
	Kind    string
	Label   string
	Pos     string
	Props   []string
	Status  string // discharged, failed, unknown
	Backend string
	Ms      float64
	Model   string
}

type FnResult struct {
	Key        string
	Err        string
	Unsup      []string
	Obls       []OblResult
	Vacuous    []string
	Rounds     int
	Queries    int
	SolverMs   float64
	CandsKept  int
	CandsTried int
	Called     []string
	Cands      []string
	Inlined    []string
	Trivial    int
	Covers     int
}

type SolveOpts struct {
	rlimit     int
	rlimitCand int
	timeoutMs  int
	logDir     string
	retry      bool
	retrySec   int
	cross      bool // re-discharge every obligation with a second back end
}

func backendName(i int) string { return []string{"z3-new 5.3.2", "z3 4.8.12", "cvc5 1.1.2"}[i] }

type rit struct {
	defs string
	txt  string
	neg  string
	skip bool // trivially true
}

type Prepared struct {
	vc      *FnVC
	res     *FnResult
	pre     string
	r       []rit
	hasCand bool
	drop    map[int]map[int]bool // per query: assumptions about other paths (flag paths)
}

// prepare renders everything to text (single-threaded: the term bank is shared).
func (v *Verifier) prepare(vc *FnVC, ax []axTerm) *Prepared {
	res := &FnResult{Key: vc.key, Err: vc.err, Unsup: vc.unsup}
	pr := &Prepared{vc: vc, res: res}
	for k := range vc.called {
		res.Called = append(res.Called, k)
	}
	sortStrings(res.Called)
	for k := range vc.inl {
		res.Inlined = append(res.Inlined, k)
	}
	sortStrings(res.Inlined)
	if vc.err != "" {
		return pr
	}
	p := NewPrinter()
	// relevant axioms (closure over ufns)
	used := map[string]bool{}
	seen := map[*Term]bool{}
	for _, it := range vc.items {
		if it.t != nil {
			collectUFns(it.t, v, used, seen)
		}
		if it.reach != nil {
			collectUFns(it.reach, v, used, seen)
		}
	}
	inc := make([]bool, len(ax))
	defer func() {
		for i := range inc {
			if inc[i] {
				if v.axUsed == nil {
					v.axUsed = map[string]bool{}
				}
				v.axUsed[ax[i].a.name+" "+ax[i].a.src] = true
			}
		}
	}()
	for ch := true; ch; {
		ch = false
		for i, a := range ax {
			if inc[i] {
				continue
			}
			hit := false
			for k := range a.syms {
				if used[k] {
					hit = true
				}
			}
			if hit {
				inc[i] = true
				ch = true
				for k := range a.syms {
					used[k] = true
				}
			}
		}
	}
	for _, f := range []string{"lower", "upper"} {
		if used[f] {
			p.fold = append(p.fold, f)
		}
	}
	for _, it := range vc.items {
		if it.t != nil {
			p.Patterns(it.t)
		}
	}
	var pre strings.Builder
	for i, a := range ax {
		if inc[i] {
			t := p.Term(a.t)
			pre.WriteString(p.Take())
			pre.WriteString("(assert " + t + ")\n")
		}
	}
	for _, t := range implAxioms(used) {
		tx := p.Term(t)
		pre.WriteString(p.Take())
		pre.WriteString("(assert " + tx + ")\n")
	}
	// pre-render items once
	r := make([]rit, len(vc.items))
	for i, it := range vc.items {
		switch it.kind {
		case IAssume:
			t := p.Term(it.t)
			r[i] = rit{defs: p.Take(), txt: t}
		case IOblig:
			if it.okind == "termination" && it.cand != nil {
				rc := p.Term(it.reach)
				r[i] = rit{defs: p.Take(), txt: rc}
				continue
			}
			if it.t == True || it.reach == False {
				r[i].skip = true
				continue
			}
			t := p.Term(And(it.reach, Not(it.t)))
			r[i] = rit{defs: p.Take(), neg: t}
		case ICand:
			if it.t == True || it.reach == False {
				r[i].skip = true
				continue
			}
			t := p.Term(And(it.reach, Not(it.t)))
			r[i] = rit{defs: p.Take(), neg: t}
		case ICover:
			t := p.Term(it.reach)
			r[i] = rit{defs: p.Take(), txt: t}
		}
	}
	for _, it := range vc.items {
		if it.kind == ICand {
			pr.hasCand = true
		}
	}
	// definitions are global: sent up front
	for i := range r {
		pre.WriteString(r[i].defs)
		r[i].defs = ""
	}
	pr.pre, pr.r = pre.String(), r
	if vc.paths {
		pr.drop = dropped(vc.items)
	}
	return pr
}

// dropped finds, per query, the earlier assumptions of the form "c implies F"
// whose condition contradicts the query's path: they say nothing about it.
func dropped(items []Item) map[int]map[int]bool {
	type guard struct {
		lits map[int]bool
		eqs  map[int]*Term
	}
	mk := func(t *Term) guard {
		g := guard{map[int]bool{}, map[int]*Term{}}
		for _, c := range conj(t) {
			g.lits[c.id] = true
			if a, k := eqLit(c); a != nil {
				g.eqs[a.id] = k
			}
		}
		return g
	}
	contra := func(t *Term, g guard) bool {
		for _, c := range conj(t) {
			if g.lits[Not(c).id] {
				return true
			}
			if a, k := eqLit(c); a != nil && g.eqs[a.id] != nil && g.eqs[a.id] != k {
				return true
			}
		}
		return false
	}
	out := map[int]map[int]bool{}
	for i, it := range items {
		if it.kind == IAssume || it.reach == nil {
			continue
		}
		g := mk(it.reach)
		d := map[int]bool{}
		for j := 0; j < i; j++ {
			if a := items[j]; a.kind == IAssume && a.t.op == "=>" && contra(a.t.args[0], g) {
				d[j] = true
			}
		}
		out[i] = d
	}
	return out
}

func (v *Verifier) solve(pr *Prepared, o SolveOpts) *FnResult {
	vc, res, r, hasCand := pr.vc, pr.res, pr.r, pr.hasCand
	if vc.err != "" {
		return res
	}
	if vc.paths {
		return v.solvePaths(pr, o)
	}
	logf := ""
	if o.logDir != "" {
		logf = o.logDir + "/" + sanitize(vc.key) + ".smt2"
	}
	s := newSolver("z3-new", []string{"-in", "-smt2"}, logf)
	defer s.close()
	s.send(prelude)
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", o.timeoutMs))
	s.send(pr.pre)
	// Houdini
	tried := map[*Cand]bool{}
	retries := 0
	if hasCand {
		for round := 0; round < 30; round++ {
			res.Rounds++
			changed := false
			s.send(fmt.Sprintf("(push)\n(set-option :rlimit %d)\n", o.rlimitCand))
			for i, it := range vc.items {
				switch it.kind {
				case IAssume:
					if it.lit != nil && it.lit.dead {
						continue
					}
					s.send("(assert " + r[i].txt + ")\n")
				case ICand:
					tried[it.cand] = true
					if it.cand.dead || it.cand.measure {
						continue
					}
					if r[i].skip {
						continue
					}
					s.send("(push)\n(assert " + r[i].neg + ")\n")
					a := s.check()
					s.send("(pop)\n")
					if a == "unknown" && it.cand.user && o.retry && retries < 40 {
						// a solver without history often succeeds where the incremental one gives up
						retries++
						a = alone(pr.script(i), o)
					}
					if a != "unsat" {
						if debugCands {
							fmt.Fprintf(os.Stderr, "DEAD round %d %s %s: %s\n", round, it.name, a, it.cand.text)
						}
						if debugCands && os.Getenv("GOVER_DUMP") != "" && strings.Contains(it.cand.text, os.Getenv("GOVER_DUMP")) {
							os.WriteFile("/tmp/dump.smt2", []byte(prelude+pr.script(i)), 0o644)
						}
						it.cand.dead = true
						changed = true
					}
				}
			}
			s.send("(pop)\n")
			if !changed || s.dead {
				break
			}
		}
		// measures: all back edges must decrease under the surviving invariants
		s.send("(push)\n")
		for i, it := range vc.items {
			switch it.kind {
			case IAssume:
				if it.lit != nil && it.lit.dead {
					continue
				}
				s.send("(assert " + r[i].txt + ")\n")
			case ICand:
				if it.cand.dead || !it.cand.measure || r[i].skip {
					continue
				}
				s.send("(push)\n(assert " + r[i].neg + ")\n")
				a := s.check()
				s.send("(pop)\n")
				if a != "unsat" {
					it.cand.dead = true
				}
			}
		}
		s.send("(pop)\n")
	}
	for c := range tried {
		res.Cands = append(res.Cands, fmt.Sprintf("%s %s dead=%v measure=%v", c.loop.name, c.text, c.dead, c.measure))
		res.CandsTried++
		if !c.dead {
			res.CandsKept++
		}
	}
	// obligations
	s.send(fmt.Sprintf("(push)\n(set-option :rlimit %d)\n", o.rlimit))
	for i, it := range vc.items {
		switch it.kind {
		case IAssume:
			if it.lit != nil && it.lit.dead {
				continue
			}
			s.send("(assert " + r[i].txt + ")\n")
		case IOblig:
			or := OblResult{Name: it.name, Kind: it.okind, Label: it.label, Pos: it.pos, Props: it.props}
			if it.okind == "termination" && it.cand != nil {
				ok := false
				for _, m := range it.cand.loop.measures {
					if !m.dead {
						ok = true
						or.Label = "loop terminates: measure " + m.text
						or.Backend = backendName(0)
						break
					}
				}
				if ok {
					or.Status = "discharged"
				} else {
					// maybe the loop is unreachable
					s.send("(push)\n(assert " + r[i].txt + ")\n")
					a := s.check()
					s.send("(pop)\n")
					if a == "unsat" {
						or.Status = "discharged"
						or.Backend = backendName(0)
					} else {
						or.Status = "failed"
					}
				}
				res.Obls = append(res.Obls, or)
				continue
			}
			if r[i].skip {
				or.Status = "discharged"
				or.Backend = "simplifier"
				res.Trivial++
				res.Obls = append(res.Obls, or)
				continue
			}
			t0 := time.Now()
			s.send("(push)\n(assert " + r[i].neg + ")\n")
			a := s.check()
			if a == "sat" || a == "unknown" {
				if m := os.Getenv("GOVER_MODEL"); m != "" && strings.Contains(it.name, m) {
					s.send("(get-model)\n(echo \"ENDMODEL\")\n")
					for {
						l := s.readLine()
						if strings.Contains(l, "ENDMODEL") || s.dead {
							break
						}
						or.Model += l + "\n"
					}
				}
			}
			s.send("(pop)\n")
			or.Backend = backendName(0)
			if a != "unsat" && a != "sat" && o.retry {
				if b := portfolio(pr.script(i), o, vc.key+it.name); b != "" {
					a = "unsat"
					or.Backend = b
				}
			}
			or.Ms = float64(time.Since(t0).Microseconds()) / 1000
			if a == "unsat" {
				or.Status = "discharged"
			} else {
				or.Status = "failed"
				if a != "sat" {
					or.Status = "unknown"
				}
			}
			res.Obls = append(res.Obls, or)
		case ICover:
			s.send("(push)\n(assert " + r[i].txt + ")\n")
			a := s.check()
			s.send("(pop)\n")
			res.Covers++
			if a == "unsat" {
				res.Vacuous = append(res.Vacuous, it.name)
			}
		}
	}
	s.send("(pop)\n")
	res.Queries = s.n
	res.SolverMs = float64(s.time.Microseconds()) / 1000
	return res
}

// script is the query for item i on its own.
func (pr *Prepared) script(i int) string {
	var sb strings.Builder
	sb.WriteString(pr.pre)
	for j := 0; j < i; j++ {
		if it := pr.vc.items[j]; it.kind == IAssume && (it.lit == nil || !it.lit.dead) && !pr.drop[i][j] {
			sb.WriteString("(assert " + pr.r[j].txt + ")\n")
		}
	}
	q := pr.r[i].neg
	if q == "" {
		q = pr.r[i].txt
	}
	sb.WriteString("(assert " + q + ")\n(check-sat)\n")
	return sb.String()
}

// solvePaths decides a function explored path by path: every query in a solver
// of its own, without the assumptions about other paths.
func (v *Verifier) solvePaths(pr *Prepared, o SolveOpts) *FnResult {
	vc, res, r := pr.vc, pr.res, pr.r
	t00 := time.Now()
	var mu sync.Mutex
	var wg sync.WaitGroup
	each := func(want func(i int) bool, f func(i int)) {
		for i := range vc.items {
			if !want(i) {
				continue
			}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				f(i)
			}(i)
		}
		wg.Wait()
	}
	o.rlimitCand *= 5
	query := func(i int, o SolveOpts) bool {
		mu.Lock()
		res.Queries++
		sc := pr.script(i)
		mu.Unlock()
		return alone(sc, o) == "unsat"
	}
	tried := map[*Cand]bool{}
	kill := func(c *Cand, i int) {
		mu.Lock()
		if !c.pend && debugCands {
			fmt.Fprintf(os.Stderr, "DEAD round %d %s: %s\n", res.Rounds, vc.items[i].name, c.text)
			if d := os.Getenv("GOVER_DUMP"); d != "" && strings.Contains(c.text, d) {
				os.WriteFile("/tmp/dump.smt2", []byte(prelude+pr.script(i)), 0o644)
			}
		}
		c.pend = true
		mu.Unlock()
	}
	pending := func(c *Cand) bool {
		mu.Lock()
		defer mu.Unlock()
		return c.pend
	}
	settle := func() (changed bool) {
		for c := range tried {
			if c.pend && !c.dead {
				c.dead = true
				changed = true
			}
		}
		return
	}
	for i := range vc.items {
		if it := vc.items[i]; it.kind == ICand {
			tried[it.cand] = true
		}
	}
	for pr.hasCand && res.Rounds < 30 {
		res.Rounds++
		each(func(i int) bool {
			it := vc.items[i]
			return it.kind == ICand && !it.cand.dead && !it.cand.measure && !r[i].skip
		}, func(i int) {
			c := vc.items[i].cand
			if !pending(c) && !query(i, o) {
				kill(c, i)
			}
		})
		if !settle() {
			break
		}
	}
	each(func(i int) bool {
		it := vc.items[i]
		return it.kind == ICand && !it.cand.dead && it.cand.measure && !r[i].skip
	}, func(i int) {
		c := vc.items[i].cand
		if !pending(c) && !query(i, o) {
			kill(c, i)
		}
	})
	settle()
	for c := range tried {
		res.Cands = append(res.Cands, fmt.Sprintf("%s %s dead=%v measure=%v", c.loop.name, c.text, c.dead, c.measure))
		res.CandsTried++
		if !c.dead {
			res.CandsKept++
		}
	}
	obls := map[int]*OblResult{}
	o2 := o
	o2.rlimitCand = 2 * o.rlimit
	each(func(i int) bool { return vc.items[i].kind == IOblig }, func(i int) {
		it := vc.items[i]
		or := &OblResult{Name: it.name, Kind: it.okind, Label: it.label, Pos: it.pos, Props: it.props, Backend: backendName(0)}
		t0 := time.Now()
		ok := false
		switch {
		case it.okind == "termination" && it.cand != nil:
			for _, m := range it.cand.loop.measures {
				if !m.dead {
					ok = true
					or.Label = "loop terminates: measure " + m.text
					break
				}
			}
			if !ok {
				ok = query(i, o2)
			}
		case r[i].skip:
			ok = true
			or.Backend = "simplifier"
		default:
			ok = query(i, o2)
			if !ok && o.retry {
				mu.Lock()
				sc := pr.script(i)
				mu.Unlock()
				if b := portfolio(sc, o, vc.key+it.name); b != "" {
					ok = true
					or.Backend = b
				}
			}
		}
		or.Ms = float64(time.Since(t0).Microseconds()) / 1000
		or.Status = "unknown"
		if ok {
			or.Status = "discharged"
		}
		mu.Lock()
		obls[i] = or
		mu.Unlock()
	})
	for i := range vc.items {
		if or := obls[i]; or != nil {
			res.Obls = append(res.Obls, *or)
			if or.Backend == "simplifier" {
				res.Trivial++
			}
		}
	}
	vac := map[int]bool{}
	each(func(i int) bool { return vc.items[i].kind == ICover }, func(i int) {
		u := query(i, SolveOpts{rlimitCand: 400000})
		mu.Lock()
		res.Covers++
		if u {
			vac[i] = true
		}
		mu.Unlock()
	})
	for i := range vc.items {
		if vac[i] {
			res.Vacuous = append(res.Vacuous, vc.items[i].name)
		}
	}
	res.SolverMs = float64(time.Since(t00).Microseconds()) / 1000
	return res
}

// limited is a command with a limit on its processor time (and not on the time
// that passes, which depends on what else the machine does).
func limited(ctx context.Context, sec int, bin string, args ...string) *exec.Cmd {
	c := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -t %d; exec "$@"`, sec), "sh", bin}, args...)...)
	return c
}

// alone runs one query in a new process under a resource limit.
func alone(script string, o SolveOpts) string {
	c := limited(context.Background(), 60, "z3-new", "-in", "-smt2")
	c.Stdin = strings.NewReader(prelude + fmt.Sprintf("(set-option :rlimit %d)\n", 2*o.rlimitCand) + script)
	portSem <- struct{}{}
	out, _ := c.Output()
	<-portSem
	for _, l := range strings.Split(string(out), "\n") {
		if l = strings.TrimSpace(l); l == "unsat" {
			return l
		}
	}
	return "unknown"
}

var preFuns = []string{"rt", "kind", "elt", "eltbase", "eltidx", "slen", "sat", "ssub", "scat", "sunit", "sdiff", "bstr", "runestr", "bor", "band", "bxor"}

func init() {
	for _, f := range preFuns {
		preDeclared[f] = true
	}
}

var portSem = make(chan struct{}, 8)

// portLost counts the obligations that no back end could discharge.
var portLost atomic.Int32

// portfolio tries one obligation, alone in a new process, with several solvers and seeds; it
// returns the name of the back end that refuted the negated goal, or "".
func portfolio(script string, o SolveOpts, name string) string {
	body := strings.Replace(prelude, "(set-option :smt.random_seed 1)\n", "", 1)
	sec := o.retrySec
	if sec == 0 {
		sec = 20
	}
	if portLost.Load() >= 4 && sec > 15 {
		sec = 15 // the answer is no already; keep the check within its time
	}
	type job struct {
		name string
		bin  string
		args []string
		txt  string
	}
	noopt := body
	for _, l := range []string{"(set-option :auto_config false)\n", "(set-option :smt.mbqi false)\n", "(set-option :smt.arith.solver 6)\n"} {
		noopt = strings.Replace(noopt, l, "", 1)
	}
	as2 := strings.Replace(body, "(set-option :smt.arith.solver 6)\n", "(set-option :smt.arith.solver 2)\n", 1)
	jobs := []job{
		{backendName(0), "z3-new", []string{"-in", "-smt2", "smt.random_seed=7"}, body + script},
		{backendName(1), "z3", []string{"-in", "-smt2", "smt.random_seed=3"}, as2 + script},
		{backendName(2), "cvc5", []string{"--lang=smt2", "--no-full-saturate-quant"}, "(set-logic ALL)\n" + noopt + script},
		{backendName(0), "z3-new", []string{"-in", "-smt2", "smt.random_seed=11", "smt.case_split=3"}, as2 + script},
	}
	if o.logDir != "" {
		os.WriteFile(o.logDir+"/retry_"+sanitize(name)+".smt2", []byte(body+script), 0o644)
	}
	win := make(chan string, len(jobs))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, j := range jobs {
		c := limited(ctx, sec, j.bin, j.args...)
		c.Stdin = strings.NewReader(j.txt)
		go func() {
			portSem <- struct{}{}
			if ctx.Err() != nil {
				<-portSem
				win <- ""
				return
			}
			out, _ := c.Output()
			<-portSem
			r := ""
			for _, l := range strings.Split(string(out), "\n") {
				if strings.TrimSpace(l) == "unsat" {
					r = j.name
				}
			}
			win <- r
		}()
	}
	res := ""
	for range jobs {
		if r := <-win; r != "" {
			res = r
			break
		}
	}
	if res == "" {
		portLost.Add(1)
	}
	return res
}

func (v *Verifier) usedAxioms() []string { return sortedKeys(v.axUsed) }
