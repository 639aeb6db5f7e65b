package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- control flow

func (x *Exec) newFrame(fn *ssa.Function, depth int) *frame {
	fr := &frame{fn: fn, vals: map[ssa.Value][]*Term{}, addrs: map[ssa.Value]*Addr{}, in: map[*ssa.BasicBlock][]edge{}, depth: depth}
	fr.loopOf, fr.rpo, fr.back = x.V.cfg(fn)
	return fr
}

type cfgInfo struct {
	loops map[*ssa.BasicBlock]*natLoop
	rpo   []*ssa.BasicBlock
	back  map[[2]int]bool
}

func (v *Verifier) cfg(fn *ssa.Function) (map[*ssa.BasicBlock]*natLoop, []*ssa.BasicBlock, map[[2]int]bool) {
	if c, ok := v.cfgs[fn]; ok {
		return c.loops, c.rpo, c.back
	}
	c := &cfgInfo{loops: map[*ssa.BasicBlock]*natLoop{}, back: map[[2]int]bool{}}
	seen := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = 1
		for _, s := range b.Succs {
			if seen[s] == 0 {
				dfs(s)
			} else if seen[s] == 1 {
				c.back[[2]int{b.Index, s.Index}] = true
				l := c.loops[s]
				if l == nil {
					l = &natLoop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				// natural loop body
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					w := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[w] {
						continue
					}
					l.body[w] = true
					work = append(work, w.Preds...)
				}
			}
		}
		seen[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.rpo = append(c.rpo, post[i])
	}
	v.cfgs[fn] = c
	return c.loops, c.rpo, c.back
}

// run executes fn's body; results are collected in fr.rets.
func (x *Exec) run(fr *frame, st *State, reach *Term) {
	fr.in[fr.fn.Blocks[0]] = []edge{{nil, reach, st, nil}}
	x.runBlocks(fr, fr.rpo, nil, nil)
}

// runBlocks executes the given blocks (in rpo order). If only != nil, edges
// leaving it are dropped (dry runs). skipHead is the loop head already entered.
func (x *Exec) runBlocks(fr *frame, blocks []*ssa.BasicBlock, only map[*ssa.BasicBlock]bool, skipHead *ssa.BasicBlock) {
	for _, b := range blocks {
		if only != nil && !only[b] {
			continue
		}
		ins := fr.in[b]
		if b == skipHead {
			// state prepared by the loop machinery: single edge
			e := ins[0]
			x.runBlock(fr, b, e.st.clone(), e.cond, only)
			continue
		}
		if len(ins) == 0 {
			continue
		}
		live := false
		for _, e := range ins {
			if e.cond != False {
				live = true
			}
		}
		if !live {
			continue
		}
		if l, ok := fr.loopOf[b]; ok {
			x.enterLoop(fr, l, only)
			continue
		}
		st, reach, phis := x.mergeEdges(fr, b, ins)
		for p, v := range phis {
			fr.vals[p] = v
		}
		x.runBlock(fr, b, st, reach, only)
	}
}

func orReach(xs []*Term) *Term {
	// repeatedly merge pairs And(r,c), And(r,!c)
	cur := append([]*Term{}, xs...)
	changed := true
	for changed && len(cur) > 1 {
		changed = false
	outer:
		for i := 0; i < len(cur); i++ {
			for j := i + 1; j < len(cur); j++ {
				if m := mergeCompl(cur[i], cur[j]); m != nil {
					cur[i] = m
					cur = append(cur[:j], cur[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	return Or(cur...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

func mergeCompl(a, b *Term) *Term {
	if a == b {
		return a
	}
	ca, cb := conj(a), conj(b)
	sa, sb := map[*Term]bool{}, map[*Term]bool{}
	for _, t := range ca {
		sa[t] = true
	}
	for _, t := range cb {
		sb[t] = true
	}
	var da, db []*Term
	for _, t := range ca {
		if !sb[t] {
			da = append(da, t)
		}
	}
	for _, t := range cb {
		if !sa[t] {
			db = append(db, t)
		}
	}
	if len(da) == 0 {
		return a
	}
	if len(db) == 0 {
		return b
	}
	if len(da) == 1 && len(db) == 1 && Not(da[0]) == db[0] {
		var keep []*Term
		for _, t := range ca {
			if sb[t] {
				keep = append(keep, t)
			}
		}
		return And(keep...)
	}
	return nil
}

// stateMerge merges states under mutually exclusive conditions.
func (x *Exec) stateMerge(conds []*Term, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.m {
			keys[k] = true
		}
	}
	out := &State{m: map[string]*Term{}}
	for _, k := range sortedKeys(keys) {
		srt := mapSort[k]
		vs := make([]*Term, len(sts))
		for i, s := range sts {
			vs[i] = s.get(k, srt)
		}
		out.m[k] = x.mergeTerm(conds, vs)
	}
	al := make([]*Term, len(sts))
	for i, s := range sts {
		al[i] = s.alloc
	}
	same := true
	for _, a := range al {
		if a != al[0] {
			same = false
		}
	}
	if same {
		out.alloc = al[0]
	} else {
		n := Fresh("alloc", SInt)
		for i := range al {
			x.assume(Imp(conds[i], Eq(n, al[i])))
		}
		// whatever happens the counter only grows
		x.assume(Ge(n, x.alloc0))
		out.alloc = n
	}
	return out
}

func (x *Exec) mergeTerm(conds, vs []*Term) *Term {
	// group equal values
	last := vs[len(vs)-1]
	r := last
	for i := len(vs) - 2; i >= 0; i-- {
		if vs[i] == r {
			continue
		}
		r = Ite(conds[i], vs[i], r)
	}
	return r
}

// simplify edge conditions of a merge relative to each other: with exactly two
// edges And(r,c), And(r,!c) the choice is just c.
func choiceConds(cs []*Term) []*Term {
	if len(cs) == 2 {
		ca, cb := conj(cs[0]), conj(cs[1])
		sb := map[*Term]bool{}
		for _, t := range cb {
			sb[t] = true
		}
		for _, t := range ca {
			if sb[Not(t)] {
				return []*Term{t, Not(t)}
			}
		}
	}
	return cs
}

func (x *Exec) mergeEdges(fr *frame, b *ssa.BasicBlock, ins []edge) (*State, *Term, map[*ssa.Phi][]*Term) {
	var live []edge
	for _, e := range ins {
		if e.cond != False {
			live = append(live, e)
		}
	}
	conds := make([]*Term, len(live))
	sts := make([]*State, len(live))
	for i, e := range live {
		conds[i] = e.cond
		sts[i] = e.st
	}
	ch := choiceConds(conds)
	st := x.stateMerge(ch, sts)
	reach := x.nameReach(orReach(conds))
	phis := map[*ssa.Phi][]*Term{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n := len(leavesOf(p.Type()))
		out := make([]*Term, n)
		for k := 0; k < n; k++ {
			vs := make([]*Term, len(live))
			for i, e := range live {
				vs[i] = e.vals[p][k]
			}
			out[k] = x.mergeTerm(ch, vs)
		}
		phis[p] = out
	}
	return st, reach, phis
}

func (x *Exec) nameReach(t *Term) *Term { return t }

func (x *Exec) addEdge(fr *frame, from, to *ssa.BasicBlock, cond *Term, st *State, only map[*ssa.BasicBlock]bool) {
	if cond == False {
		return
	}
	vals := map[*ssa.Phi][]*Term{}
	pi := -1
	// an If with both successors equal has two pred entries; take the first unused
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = x.val(fr, p.Edges[pi], st)
	}
	e := edge{from, cond, st, vals}
	if fr.back[[2]int{from.Index, to.Index}] {
		// back edge
		for i := len(fr.activeLoops) - 1; i >= 0; i-- {
			al := fr.activeLoops[i]
			if al.nl.head == to {
				x.backEdge(fr, al, e)
				return
			}
		}
		return
	}
	if only != nil && !only[to] {
		return
	}
	fr.in[to] = append(fr.in[to], e)
}

func (x *Exec) runBlock(fr *frame, b *ssa.BasicBlock, st *State, reach *Term, only map[*ssa.BasicBlock]bool) {
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.val(fr, i.Cond, st)[0]
			if x.pathEdges && fr.depth == 0 {
				x.addEdge(fr, b, b.Succs[0], pathAnd(reach, c), st, only)
				x.addEdge(fr, b, b.Succs[1], pathAnd(reach, Not(c)), st.clone(), only)
				return
			}
			x.addEdge(fr, b, b.Succs[0], And(reach, c), st, only)
			x.addEdge(fr, b, b.Succs[1], And(reach, Not(c)), st.clone(), only)
			return
		case *ssa.Jump:
			x.addEdge(fr, b, b.Succs[0], reach, st, only)
			return
		case *ssa.Return:
			if only != nil {
				return
			}
			var vs []*Term
			for _, r := range i.Results {
				vs = append(vs, x.val(fr, r, st)...)
			}
			fr.rets = append(fr.rets, retVal{reach, st, vs})
			return
		case *ssa.Panic:
			x.oblig(reach, False, "panic", "explicit panic", fr, i.Pos())
			return
		default:
			reach = x.instr(fr, in, st, reach)
			if reach == False {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- loops

func (x *Exec) phiFresh(fr *frame, b *ssa.BasicBlock, st *State, reach *Term) map[*ssa.Phi][]*Term {
	out := map[*ssa.Phi][]*Term{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var ts []*Term
		for _, l := range leavesOf(p.Type()) {
			ts = append(ts, Fresh(phiName(p)+l.path, l.sort))
		}
		out[p] = ts
	}
	return out
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func copyVals(m map[ssa.Value][]*Term) map[ssa.Value][]*Term {
	n := make(map[ssa.Value][]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}
func copyAddrs(m map[ssa.Value]*Addr) map[ssa.Value]*Addr {
	n := make(map[ssa.Value]*Addr, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}
func copyIn(m map[*ssa.BasicBlock][]edge) map[*ssa.BasicBlock][]edge {
	n := make(map[*ssa.BasicBlock][]edge, len(m))
	for k, v := range m {
		n[k] = append([]edge{}, v...)
	}
	return n
}

type writeSet struct {
	all  map[string]bool
	refs map[string][]*Term
}

func (w *writeSet) add(r writeRec, clock0 int) bool {
	if w.all[r.m] {
		return false
	}
	if r.ref == nil {
		w.all[r.m] = true
		return true
	}
	if r.ref.isRefFresh && r.ref.birth > clock0 {
		return w.touch(r.m)
	}
	if r.ref.birth > clock0 {
		w.all[r.m] = true
		return true
	}
	for _, t := range w.refs[r.m] {
		if t == r.ref {
			return false
		}
	}
	w.refs[r.m] = append(w.refs[r.m], r.ref)
	return true
}

// touch registers the map as changed at fresh objects only
func (w *writeSet) touch(m string) bool {
	if _, ok := w.refs[m]; ok {
		return false
	}
	w.refs[m] = []*Term{}
	return true
}

func (x *Exec) havoc(ws *writeSet, base *State, clock0 int) *State {
	st := base.clone()
	for _, m := range sortedKeys(ws.all) {
		srt := mapSort[m]
		st.get(m, srt)
		st.m[m] = Fresh("L:"+m, srt)
	}
	for _, m := range sortedKeys(ws.refs) {
		if ws.all[m] {
			continue
		}
		srt := mapSort[m]
		cur := st.get(m, srt)
		_, vs := splitArr(srt)
		for _, r := range ws.refs[m] {
			cur = Store(cur, r, Fresh("L:"+m, vs))
		}
		st.m[m] = cur
	}
	n := Fresh("alloc", SInt)
	x.assume(Ge(n, base.alloc))
	st.alloc = n
	return st
}

// frame facts for wholly havocked maps: objects existing at function entry and
// outside the function's modifies set are unchanged.
func (x *Exec) loopFrameFacts(ws *writeSet, st *State, base *State, reach *Term) {
	if x.modAny {
		return
	}
	for _, m := range sortedKeys(ws.all) {
		if x.modAll[m] || strings.HasPrefix(m, "G:") {
			continue
		}
		srt := mapSort[m]
		k, _ := splitArr(srt)
		if k != SInt {
			continue
		}
		o := BoundVar("o", SInt)
		cond := []*Term{Lt(App("rt", SInt, o), x.alloc0)}
		for _, r := range x.modAllow[m] {
			cond = append(cond, Not(Eq(o, r)))
		}
		cur := st.m[m]
		sel := B.mk("select", "", nil, func() string { _, v := splitArr(srt); return v }(), cur, o)
		ent := x.entry.get(m, srt)
		selE := Select(ent, o)
		x.assume(Forall([]*Term{o}, [][]*Term{{sel}}, Imp(And(cond...), Eq(sel, selE))))
		// allowed refs without syntactic write stay as they are handled by candidates
	}
}

func (x *Exec) enterLoop(fr *frame, l *natLoop, only map[*ssa.BasicBlock]bool) {
	head := l.head
	ins := fr.in[head]
	est, ereach, ephis := x.mergeEdges(fr, head, ins)
	var body []*ssa.BasicBlock
	for _, b := range fr.rpo {
		if l.body[b] {
			body = append(body, b)
		}
	}
	// --- fixpoint of the write set by dry runs
	ws := &writeSet{all: map[string]bool{}, refs: map[string][]*Term{}}
	clock0 := B.clock
	for pass := 0; pass < 12; pass++ {
		sv, sa, si, sl, sr := fr.vals, fr.addrs, fr.in, fr.activeLoops, fr.rets
		sd := fr.defers
		fr.vals, fr.addrs, fr.in = copyVals(sv), copyAddrs(sa), copyIn(si)
		x.dry++
		log := []writeRec{}
		x.logs = append(x.logs, &log)
		B.clock++
		clock0 = B.clock
		st := x.havoc(ws, est, clock0)
		phis := x.phiFresh(fr, head, st, ereach)
		for p, v := range phis {
			fr.vals[p] = v
		}
		reach := Fresh("dry", SBool)
		fr.in[head] = []edge{{nil, reach, st, nil}}
		fr.activeLoops = append(append([]*activeLoop{}, sl...), &activeLoop{nl: l})
		x.runBlocks(fr, body, l.body, head)
		x.logs = x.logs[:len(x.logs)-1]
		x.dry--
		fr.vals, fr.addrs, fr.in, fr.activeLoops, fr.rets = sv, sa, si, sl, sr
		fr.defers = sd
		changed := false
		for _, r := range log {
			if ws.add(r, clock0) {
				changed = true
			}
		}
		if !changed {
			break
		}
		if pass == 11 {
			for m := range ws.refs {
				ws.all[m] = true
			}
		}
	}
	for _, lg := range x.logs {
		for _, m := range sortedKeys(ws.all) {
			*lg = append(*lg, writeRec{m, nil})
		}
		for _, m := range sortedKeys(ws.refs) {
			for _, r := range ws.refs[m] {
				*lg = append(*lg, writeRec{m, r})
			}
		}
	}
	// --- the real thing
	B.clock++
	st := x.havoc(ws, est, B.clock)
	x.loopFrameFacts(ws, st, est, ereach)
	reach := Fresh("reach", SBool)
	x.assume(Imp(reach, ereach))
	phis := x.phiFresh(fr, head, st, reach)
	for p, v := range phis {
		fr.vals[p] = v
		x.valid(p.Type(), v, st, reach)
	}
	al := &activeLoop{nl: l}
	al.headView = &LoopView{phis, st}
	al.entryView = &LoopView{ephis, est}
	if x.dry == 0 {
		info := &LoopInfo{name: fmt.Sprintf("%s loop%d", funcKey(fr.fn), len(x.loops)+1)}
		if p := headPos(head); p.IsValid() {
			pp := x.V.prog.Fset.Position(p)
			info.pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, "/repo/"), pp.Line)
		}
		al.info = info
		x.loops = append(x.loops, info)
		x.makeCands(fr, al, ws, est, ereach)
		for _, c := range al.cands {
			if c.eval == nil {
				continue
			}
			e := safeEval(c, al.entryView)
			h := safeEval(c, al.headView)
			if e == nil || h == nil {
				c.c.dead = true
				continue
			}
			x.items = append(x.items, Item{kind: ICand, t: e, reach: ereach, cand: c.c, name: "entry"})
		}
		for _, c := range al.cands {
			if c.eval == nil || c.c.dead {
				continue
			}
			h := safeEval(c, al.headView)
			x.items = append(x.items, Item{kind: IAssume, t: Imp(reach, h), lit: c.c})
		}
	}
	fr.in[head] = []edge{{nil, reach, st, nil}}
	fr.activeLoops = append(fr.activeLoops, al)
	// run the body blocks here only when nested ordering needs it: simply run
	// all blocks of the loop now, edges leaving the loop are queued in fr.in.
	x.runLoopBody(fr, l, body, only)
	fr.activeLoops = fr.activeLoops[:len(fr.activeLoops)-1]
	// obligations: termination
	if x.dry == 0 && x.V.wantTerm(fr) {
		x.obligDec(fr, al, reach)
	}
	// body blocks are done: clear their in-edges so that the caller's rpo walk skips them
	for _, b := range body {
		fr.in[b] = nil
	}
}

func safeEval(c *candInst, v *LoopView) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupErr); ok {
				t = nil
				return
			}
			if _, ok := r.(specErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(v)
}

func headPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *Exec) runLoopBody(fr *frame, l *natLoop, body []*ssa.BasicBlock, only map[*ssa.BasicBlock]bool) {
	head := l.head
	if x.dry == 0 && fr.depth == 0 && x.paths {
		x.runPaths(fr, l, head, fr.in[head][0], only)
		return
	}
	for _, b := range body {
		ins := fr.in[b]
		if len(ins) == 0 {
			continue
		}
		if b == head {
			e := ins[0]
			x.runBlock(fr, b, e.st.clone(), e.cond, only)
			continue
		}
		if l2, ok := fr.loopOf[b]; ok {
			x.enterLoop(fr, l2, only)
			continue
		}
		st, reach, phis := x.mergeEdges(fr, b, ins)
		if reach == False {
			continue
		}
		for p, v := range phis {
			fr.vals[p] = v
		}
		x.runBlock(fr, b, st, reach, only)
	}
}

// runPaths executes a loop body path by path instead of merging the states
// where branches join (flag paths): more obligations, each about one path.
// Values are overwritten path by path; every use is dominated by its
// definition, which the current path executed last.
func (x *Exec) runPaths(fr *frame, l *natLoop, b *ssa.BasicBlock, e edge, only map[*ssa.BasicBlock]bool) {
	if x.pathCount++; x.pathCount > 20000 {
		panic(unsupErr("too many paths"))
	}
	fr.in[b] = []edge{e}
	if l2, ok := fr.loopOf[b]; ok && b != l.head {
		x.enterLoop(fr, l2, only)
	} else {
		for p, v := range e.vals {
			if b != l.head {
				fr.vals[p] = v
			}
		}
		x.pathEdges = true
		x.runBlock(fr, b, e.st.clone(), e.cond, only)
		x.pathEdges = false
	}
	fr.in[b] = nil
	// the edges just queued inside the loop
	type next struct {
		b *ssa.BasicBlock
		e edge
	}
	var todo []next
	for _, s := range fr.rpo {
		if l.body[s] && s != l.head {
			for _, ne := range fr.in[s] {
				todo = append(todo, next{s, ne})
			}
			fr.in[s] = nil
		}
	}
	for _, n := range todo {
		x.runPaths(fr, l, n.b, n.e, only)
	}
}

// eqLit recognises a comparison of a term with an integer literal.
func eqLit(t *Term) (*Term, *Term) {
	if t.op != "=" || len(t.args) != 2 {
		return nil, nil
	}
	if t.args[1].op == "int" {
		return t.args[0], t.args[1]
	}
	if t.args[0].op == "int" {
		return t.args[1], t.args[0]
	}
	return nil, nil
}

// pathAnd is And, deciding c where reach fixes the terms it compares.
func pathAnd(reach, c *Term) *Term {
	known := map[*Term]*Term{}
	for _, t := range conj(reach) {
		if a, k := eqLit(t); a != nil {
			known[a] = k
		}
	}
	var simp func(c *Term) *Term
	simp = func(c *Term) *Term {
		if a, k := eqLit(c); a != nil && known[a] != nil {
			if known[a] == k {
				return True
			}
			return False
		}
		if strings.HasPrefix(c.op, "impl_") && known[c.args[0]] != nil {
			return implTerm(implIfaces[c.op], known[c.args[0]])
		}
		switch c.op {
		case "not":
			return Not(simp(c.args[0]))
		case "and", "or":
			var as []*Term
			for _, y := range c.args {
				as = append(as, simp(y))
			}
			if c.op == "and" {
				return And(as...)
			}
			return Or(as...)
		}
		return c
	}
	return And(reach, simp(c))
}

func (x *Exec) backEdge(fr *frame, al *activeLoop, e edge) {
	if x.dry > 0 || al.info == nil {
		return
	}
	v := &LoopView{e.vals, e.st}
	for _, c := range al.cands {
		if c.c.dead {
			continue
		}
		if c.eval != nil {
			t := safeEval(c, v)
			if t == nil {
				c.c.dead = true
				continue
			}
			x.items = append(x.items, Item{kind: ICand, t: t, reach: e.cond, cand: c.c, name: "preserve"})
		} else if c.meas != nil {
			t := x.measDec(c, al.headView, v)
			if t == nil {
				c.c.dead = true
				continue
			}
			x.items = append(x.items, Item{kind: ICand, t: t, reach: e.cond, cand: c.c, name: "decrease"})
		}
	}
}

func (x *Exec) measDec(c *candInst, h, b *LoopView) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupErr); ok {
				t = nil
				return
			}
			if _, ok := r.(specErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	hm, bm := c.meas(h), c.meas(b)
	r := False
	for i := len(hm) - 1; i >= 0; i-- {
		r = Or(And(Ge(hm[i], Int(0)), Lt(bm[i], hm[i])), And(Le(bm[i], hm[i]), r))
	}
	return r
}

func (x *Exec) obligDec(fr *frame, al *activeLoop, reach *Term) {
	base := funcKey(x.root)
	if fr.fn != x.root {
		base += ">" + funcKey(fr.fn)
	}
	base += ":termination:loop"
	x.nameCount[base]++
	x.nOblig++
	x.items = append(x.items, Item{kind: IOblig, t: False, reach: reach, okind: "termination", name: fmt.Sprintf("%s#%d", base, x.nameCount[base]), label: "loop terminates", pos: al.info.pos, cand: &Cand{loop: al.info}})
}

// ---------------------------------------------------------------- instructions

func (x *Exec) instr(fr *frame, in ssa.Instruction, st *State, reach *Term) (out *Term) {
	out = reach
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupErr); ok {
				x.unsupported(reach, string(u), fr, in.Pos())
				if v, ok := in.(ssa.Value); ok {
					x.freshVal(fr, v, st, reach)
				}
				return
			}
			panic(r)
		}
	}()
	switch i := in.(type) {
	case *ssa.Alloc:
		el := deref(i.Type())
		n := x.newRef(st, "new_"+i.Comment)
		fr.vals[i] = []*Term{n}
		a := x.ptrAddr(el, n)
		fr.addrs[i] = a
		x.store(a, zeroOf(el), st, reach, fr, i.Pos(), true)
	case *ssa.BinOp:
		fr.vals[i] = []*Term{x.binop(fr, i, st, reach)}
	case *ssa.UnOp:
		x.unop(fr, i, st, reach)
	case *ssa.FieldAddr:
		ref := x.val(fr, i.X, st)[0]
		x.nonNil(ref, reach, fr, i.Pos(), "field access")
		T := deref(i.X.Type())
		a := x.fieldAddr(T, i.Field, ref)
		fr.addrs[i] = a
	case *ssa.Field:
		s := i.X.Type().Underlying().(*types.Struct)
		o := structOffset(s, i.Field)
		n := len(leavesOf(s.Field(i.Field).Type()))
		fr.vals[i] = x.val(fr, i.X, st)[o : o+n]
	case *ssa.IndexAddr:
		idx := x.val(fr, i.Index, st)[0]
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.val(fr, i.X, st)
			x.oblig(reach, And(Le(Int(0), idx), Lt(idx, s[2])), "index", "slice index in range", fr, i.Pos())
			fr.addrs[i] = x.elemAddr(u.Elem(), s[0], Add(s[1], idx))
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			ref := x.val(fr, i.X, st)[0]
			x.nonNil(ref, reach, fr, i.Pos(), "array access")
			x.oblig(reach, And(Le(Int(0), idx), Lt(idx, Int(arr.Len()))), "index", "array index in range", fr, i.Pos())
			fr.addrs[i] = x.elemAddr(arr.Elem(), ref, idx)
		default:
			panic(unsupErr("IndexAddr of " + i.X.Type().String()))
		}
	case *ssa.Index:
		idx := x.val(fr, i.Index, st)[0]
		if isString(i.X.Type()) {
			s := x.val(fr, i.X, st)[0]
			x.oblig(reach, And(Le(Int(0), idx), Lt(idx, SLen(s))), "index", "string index in range", fr, i.Pos())
			fr.vals[i] = []*Term{SAt(s, idx)}
			return
		}
		arr := i.X.Type().Underlying().(*types.Array)
		x.oblig(reach, And(Le(Int(0), idx), Lt(idx, Int(arr.Len()))), "index", "array index in range", fr, i.Pos())
		var vs []*Term
		for _, a := range x.val(fr, i.X, st) {
			vs = append(vs, Select(a, idx))
		}
		x.valid(arr.Elem(), vs, st, reach)
		fr.vals[i] = vs
	case *ssa.Lookup:
		x.lookup(fr, i, st, reach)
	case *ssa.MapUpdate:
		mt := i.Map.Type().Underlying().(*types.Map)
		ref := x.val(fr, i.Map, st)[0]
		x.nonNil(ref, reach, fr, i.Pos(), "map update")
		x.mapStore(fr, mt, ref, x.val(fr, i.Key, st), x.val(fr, i.Value, st), st, reach, i.Pos())
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		n := x.newRef(st, "map")
		fr.vals[i] = []*Term{n}
		ks := mapKeySort(mt)
		nm := "M:" + tstr(mt)
		x.wr(nm+"#dom", ArrSort(SInt, ArrSort(ks, SBool)), n, ConstArr(ArrSort(ks, SBool), False), st, reach, fr, i.Pos(), true)
		x.wr(nm+"#n", ArrSort(SInt, SInt), n, Int(0), st, reach, fr, i.Pos(), true)
		for _, l := range leavesOf(mt.Elem()) {
			x.wr(nm+"#val"+l.path, ArrSort(SInt, ArrSort(ks, l.sort)), n, ConstArr(ArrSort(ks, l.sort), zeroSort(l.sort)), st, reach, fr, i.Pos(), true)
		}
	case *ssa.MakeSlice:
		el := i.Type().Underlying().(*types.Slice).Elem()
		ln := x.val(fr, i.Len, st)[0]
		cp := x.val(fr, i.Cap, st)[0]
		x.oblig(reach, And(Le(Int(0), ln), Le(ln, cp), Le(cp, IntB(Pow2(46)))), "makeslice", "make length in range", fr, i.Pos())
		x.assume(Imp(reach, Le(cp, IntB(Pow2(40)))))
		n := x.newRef(st, "slice")
		if !isStruct(el) {
			for _, l := range leavesOf(el) {
				as := ArrSort(SInt, l.sort)
				x.wr(elemMap(el)+l.path, ArrSort(SInt, as), n, ConstArr(as, zeroSort(l.sort)), st, reach, fr, i.Pos(), true)
			}
		}
		fr.vals[i] = []*Term{n, Int(0), ln, cp}
	case *ssa.Slice:
		x.slice(fr, i, st, reach)
	case *ssa.MakeInterface:
		fr.vals[i] = x.makeIface(i.X.Type(), x.val(fr, i.X, st))
	case *ssa.ChangeInterface:
		fr.vals[i] = x.val(fr, i.X, st)
	case *ssa.ChangeType:
		fr.vals[i] = x.val(fr, i.X, st)
	case *ssa.Convert:
		fr.vals[i] = x.convert(fr, i, st, reach)
	case *ssa.TypeAssert:
		x.typeAssert(fr, i, st, reach)
	case *ssa.Extract:
		tt := i.Tuple.Type().(*types.Tuple)
		o := tupleOffset(tt, i.Index)
		n := len(leavesOf(tt.At(i.Index).Type()))
		fr.vals[i] = x.val(fr, i.Tuple, st)[o : o+n]
	case *ssa.Store:
		a := x.addrOf(fr, i.Addr, st)
		x.checkDeref(fr, i.Addr, a, reach, i.Pos())
		x.store(a, x.val(fr, i.Val, st), st, reach, fr, i.Pos(), false)
	case *ssa.Call:
		return x.call(fr, i, st, reach)
	case *ssa.Defer:
		d := deferred{call: &i.Call, cond: reach, instr: i}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(fr, a, st))
		}
		if i.Call.IsInvoke() {
			r := x.val(fr, i.Call.Value, st)
			d.recvTag, d.recvVal = r[0], r[1]
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for k := len(fr.defers) - 1; k >= 0; k-- {
			d := fr.defers[k]
			cond := And(reach, d.cond)
			if d.cond != reach && mergeCompl(reach, d.cond) != d.cond {
				// executed only on some paths: run on a copy and merge
				s2 := st.clone()
				_, s3, _ := x.doCall(fr, d.call, d.args, d.recvTag, d.recvVal, s2, cond, d.instr)
				m := x.stateMerge([]*Term{d.cond, Not(d.cond)}, []*State{s3, st.clone()})
				*st = *m
			} else {
				_, s3, r := x.doCall(fr, d.call, d.args, d.recvTag, d.recvVal, st, reach, d.instr)
				*st = *s3
				reach = r
			}
		}
		return reach
	default:
		panic(unsupErr(fmt.Sprintf("instruction %T", in)))
	}
	return
}

func (x *Exec) freshVal(fr *frame, v ssa.Value, st *State, reach *Term) {
	var ts []*Term
	for _, l := range leavesOf(v.Type()) {
		ts = append(ts, Fresh("u_"+v.Name(), l.sort))
	}
	fr.vals[v] = ts
	x.valid(v.Type(), ts, st, reach)
}

func (x *Exec) nonNil(ref, reach *Term, fr *frame, pos token.Pos, what string) {
	if ref.isRefFresh || (ref.op == "sym" && strings.HasPrefix(ref.sym, "glob:")) {
		return
	}
	x.oblig(reach, Not(Eq(ref, Int(0))), "nil", what, fr, pos)
}

func (x *Exec) checkDeref(fr *frame, v ssa.Value, a *Addr, reach *Term, pos token.Pos) {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Alloc:
		return
	}
	if a.ref != nil {
		x.nonNil(a.ref, reach, fr, pos, "pointer dereference")
	}
}

func (x *Exec) unop(fr *frame, i *ssa.UnOp, st *State, reach *Term) {
	switch i.Op {
	case token.MUL:
		a := x.addrOf(fr, i.X, st)
		x.checkDeref(fr, i.X, a, reach, i.Pos())
		if a.kind == "global" {
			if ci := x.V.constGlobalInit(i.X.(*ssa.Global)); ci != nil {
				if ci.one != nil {
					fr.vals[i] = x.constVal(ci.one)
					return
				}
				if len(ci.elem) > 0 && len(x.loadV(a, st, reach)) == 4 {
					v := append([]*Term(nil), x.loadV(a, st, reach)...)
					v[2] = Int(int64(len(ci.elem)))
					fr.vals[i] = v
					return
				}
			}
		}
		if t := x.constElem(fr, i, st); t != nil {
			fr.vals[i] = []*Term{t}
			return
		}
		fr.vals[i] = x.loadV(a, st, reach)
	case token.NOT:
		fr.vals[i] = []*Term{Not(x.val(fr, i.X, st)[0])}
	case token.SUB:
		if isFloat(i.Type()) {
			fr.vals[i] = []*Term{App("fneg", SF, x.val(fr, i.X, st)[0])}
			return
		}
		fr.vals[i] = []*Term{x.wrap(Sub(Int(0), x.val(fr, i.X, st)[0]), i.Type(), reach, fr, i.Pos())}
	case token.XOR:
		v := x.val(fr, i.X, st)[0]
		_, hi := intRange(i.Type())
		_, signed := intBits(i.Type())
		if signed {
			fr.vals[i] = []*Term{Sub(Int(-1), v)}
		} else {
			fr.vals[i] = []*Term{Sub(IntB(hi), v)}
		}
	default:
		panic(unsupErr("unop " + i.Op.String()))
	}
}

// wrap makes the machine range explicit.
func (x *Exec) wrap(t *Term, typ types.Type, reach *Term, fr *frame, pos token.Pos) *Term {
	return x.wrap2(t, typ, reach, fr, pos, false)
}

func (x *Exec) wrap2(t *Term, typ types.Type, reach *Term, fr *frame, pos token.Pos, arith bool) *Term {
	lo, hi := intRange(typ)
	if within(t, lo, hi) {
		return t
	}
	n, signed := intBits(typ)
	if !signed {
		m := ModE(t, IntB(Pow2(n)))
		if arith && n <= 32 && m.op == "mod" && (t.lo != nil && t.lo.Sign() >= 0) {
			return Ite(Le(t, IntB(hi)), t, m).setRange(lo, hi)
		}
		return m
	}
	if n == 64 && !x.V.exactInt(fr.fn) {
		x.oblig(reach, And(Le(IntB(lo), t), Le(t, IntB(hi))), "overflow", "int arithmetic stays in range", fr, pos)
		return t
	}
	return Sub(ModE(Add(t, IntB(Pow2(n-1))), IntB(Pow2(n))), IntB(Pow2(n-1)))
}

func (x *Exec) binop(fr *frame, i *ssa.BinOp, st *State, reach *Term) *Term {
	a, b := x.val(fr, i.X, st), x.val(fr, i.Y, st)
	t := i.X.Type()
	switch i.Op {
	case token.EQL, token.NEQ:
		r := x.goEq(t, i.Y.Type(), a, b)
		if i.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	if isString(t) {
		switch i.Op {
		case token.ADD:
			return SCat(a[0], b[0])
		case token.LSS:
			return App("strlt", SBool, a[0], b[0])
		}
		panic(unsupErr("string op " + i.Op.String()))
	}
	if isFloat(t) {
		switch i.Op {
		case token.ADD:
			return App("fadd", SF, a[0], b[0])
		case token.SUB:
			return App("fsub", SF, a[0], b[0])
		case token.MUL:
			return App("fmul", SF, a[0], b[0])
		case token.QUO:
			return App("fdiv", SF, a[0], b[0])
		case token.LSS:
			return App("flt", SBool, a[0], b[0])
		case token.GTR:
			return App("flt", SBool, b[0], a[0])
		case token.LEQ:
			return App("fle", SBool, a[0], b[0])
		case token.GEQ:
			return App("fle", SBool, b[0], a[0])
		}
		panic(unsupErr("float op"))
	}
	if isBool(t) {
		switch i.Op {
		case token.AND:
			return And(a[0], b[0])
		case token.OR:
			return Or(a[0], b[0])
		}
	}
	p, q := a[0], b[0]
	switch i.Op {
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	case token.GEQ:
		return Le(q, p)
	case token.ADD:
		return x.wrap2(Add(p, q), i.Type(), reach, fr, i.Pos(), true)
	case token.SUB:
		return x.wrap(Sub(p, q), i.Type(), reach, fr, i.Pos())
	case token.MUL:
		return x.wrap2(Mul(p, q), i.Type(), reach, fr, i.Pos(), true)
	case token.QUO, token.REM:
		x.oblig(reach, Not(Eq(q, Int(0))), "div", "divisor not zero", fr, i.Pos())
		nonneg := p.lo != nil && p.lo.Sign() >= 0 && q.lo != nil && q.lo.Sign() >= 0
		if nonneg || (q.isInt() && q.num.Sign() > 0) {
			if nonneg {
				if i.Op == token.QUO {
					return DivE(p, q)
				}
				return ModE(p, q)
			}
			// truncated division by positive constant
			nq := Sub(Int(0), DivE(Sub(Int(0), p), q))
			qq := Ite(Ge(p, Int(0)), DivE(p, q), nq)
			if i.Op == token.QUO {
				return qq
			}
			return Sub(p, Mul(qq, q))
		}
		if i.Op == token.QUO {
			return App("tdiv", SInt, p, q)
		}
		return App("trem", SInt, p, q)
	case token.AND:
		return bitAnd(p, q)
	case token.OR:
		return bitOr(p, q)
	case token.XOR:
		return bitXor(p, q)
	case token.SHL:
		if q.isInt() {
			k := int(q.num.Int64())
			n, _ := intBits(i.Type())
			if k >= n {
				return Int(0)
			}
			return x.wrap(Mul(p, IntB(Pow2(k))), i.Type(), reach, fr, i.Pos())
		}
		panic(unsupErr("variable shift"))
	case token.SHR:
		if q.isInt() {
			k := int(q.num.Int64())
			return DivE(p, IntB(Pow2(k)))
		}
		panic(unsupErr("variable shift"))
	case token.AND_NOT:
		if q.isInt() {
			return Sub(p, bitAnd(p, q))
		}
	}
	panic(unsupErr("binop " + i.Op.String()))
}

func bitAnd(a, b *Term) *Term {
	if a.isInt() {
		a, b = b, a
	}
	if a.isInt() && b.isInt() && a.num.Sign() >= 0 && b.num.Sign() >= 0 {
		return IntB(new(big.Int).And(a.num, b.num))
	}
	if b.isInt() && b.num.Sign() >= 0 {
		// split the mask into runs of ones
		m := new(big.Int).Set(b.num)
		r := Int(0)
		pos := 0
		for m.Sign() > 0 {
			z := int(m.TrailingZeroBits())
			pos += z
			m.Rsh(m, uint(z))
			run := 0
			for m.Bit(run) == 1 {
				run++
			}
			part := ModE(DivE(a, IntB(Pow2(pos))), IntB(Pow2(run)))
			r = Add(r, Mul(part, IntB(Pow2(pos))))
			pos += run
			m.Rsh(m, uint(run))
		}
		return r
	}
	return App("band", SInt, a, b)
}

func bitLen(t *Term) int {
	if t.hi == nil || t.lo == nil || t.lo.Sign() < 0 {
		return 1000
	}
	return t.hi.BitLen()
}

func bitOr(a, b *Term) *Term {
	if a.isInt() && b.isInt() && a.num.Sign() >= 0 && b.num.Sign() >= 0 {
		return IntB(new(big.Int).Or(a.num, b.num))
	}
	if a.isInt() && a.num.Sign() == 0 {
		return b
	}
	if b.isInt() && b.num.Sign() == 0 {
		return a
	}
	if bitLen(a) <= b.tz && b.lo != nil && b.lo.Sign() >= 0 || bitLen(b) <= a.tz && a.lo != nil && a.lo.Sign() >= 0 {
		return Add(a, b)
	}
	// or of sums of disjoint parts: reassociate (x + y) | z
	if a.op == "+" && disjoint(a.args[0], b) && disjoint(a.args[1], b) {
		return Add(a, b)
	}
	r := App("bor", SInt, a, b)
	if bitLen(a) < 1000 && bitLen(b) < 1000 {
		r.setRange(big.NewInt(0), new(big.Int).Sub(Pow2(max(bitLen(a), bitLen(b))), big.NewInt(1)))
	}
	return r
}

func disjoint(a, b *Term) bool {
	if a.op == "+" {
		return disjoint(a.args[0], b) && disjoint(a.args[1], b)
	}
	if b.op == "+" {
		return disjoint(a, b.args[0]) && disjoint(a, b.args[1])
	}
	return bitLen(a) <= b.tz || bitLen(b) <= a.tz
}

func bitXor(a, b *Term) *Term {
	if a.isInt() && b.isInt() && a.num.Sign() >= 0 && b.num.Sign() >= 0 {
		return IntB(new(big.Int).Xor(a.num, b.num))
	}
	r := App("bxor", SInt, a, b)
	if bitLen(a) < 1000 && bitLen(b) < 1000 {
		r.setRange(big.NewInt(0), new(big.Int).Sub(Pow2(max(bitLen(a), bitLen(b))), big.NewInt(1)))
	}
	return r
}

// bstr: the string made of a byte-array segment; elements of byte arrays are bytes.
func (x *Exec) bstr(arr, off, n *Term) *Term {
	if !arr.bound {
		k := BoundVar("k", SInt)
		sel := B.mk("select", "", nil, SInt, arr, k)
		x.fact(fmt.Sprintf("bytes%d", arr.id), Forall([]*Term{k}, [][]*Term{{sel}}, And(Le(Int(0), sel), Le(sel, Int(255)))))
	}
	return App("bstr", SStr, arr, off, n)
}

func (x *Exec) strEqTrig(a, b *Term) {
	if a.bound || b.bound || a == b {
		return
	}
	// mention sdiff so that extensionality is available
	if _, ok := strConstOf(a); ok {
		if _, ok := strConstOf(b); ok {
			return
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	d := App("sdiff", SInt, a, b)
	x.fact(fmt.Sprintf("sdiff%d", d.id), Or(Eq(a, b), Not(Eq(SLen(a), SLen(b))),
		And(Le(Int(0), d), Lt(d, SLen(a)), Not(Eq(SAt(a, d), SAt(b, d))))))
}

func (x *Exec) goEq(ta, tb types.Type, a, b []*Term) *Term {
	if isIface(ta) && !isIface(tb) {
		b = x.makeIface(tb, b)
	} else if isIface(tb) && !isIface(ta) {
		a = x.makeIface(ta, a)
	}
	if _, ok := ta.Underlying().(*types.Slice); ok {
		// only comparison with nil
		if b[0].isInt() {
			return Eq(a[0], b[0])
		}
		return Eq(b[0], a[0])
	}
	if isFloat(ta) {
		return App("feq", SBool, a[0], b[0])
	}
	var cs []*Term
	for k := range a {
		if a[k].sort == SStr {
			x.strEqTrig(a[k], b[k])
		}
		cs = append(cs, Eq(a[k], b[k]))
	}
	return And(cs...)
}

func (x *Exec) makeIface(t types.Type, v []*Term) []*Term {
	tag := Int(int64(typeID(t)))
	ls := leavesOf(t)
	if len(ls) == 1 && ls[0].sort == SInt {
		return []*Term{tag, v[0]}
	}
	nm := "box." + sanitize(tstr(t))
	b := App(nm, SInt, v...)
	for i, l := range ls {
		if !b.bound {
			u := App(fmt.Sprintf("un%s.%d", nm, i), l.sort, b)
			x.fact(fmt.Sprintf("box%d.%d", b.id, i), Eq(u, v[i]))
		}
	}
	return []*Term{tag, b}
}

func (x *Exec) unbox(t types.Type, val *Term) []*Term {
	ls := leavesOf(t)
	if len(ls) == 1 && ls[0].sort == SInt {
		return []*Term{val}
	}
	nm := "box." + sanitize(tstr(t))
	if val.op == nm {
		return val.args
	}
	var out []*Term
	for i, l := range ls {
		out = append(out, App(fmt.Sprintf("un%s.%d", nm, i), l.sort, val))
	}
	// surjectivity: boxing again gives the same payload
	if !val.bound {
		x.fact(fmt.Sprintf("rebox%d.%s", val.id, nm), Imp(App("isbox."+sanitize(tstr(t)), SBool, val), Eq(App(nm, SInt, out...), val)))
	}
	return out
}

func (x *Exec) typeCond(t types.Type, tag *Term) *Term {
	if isIface(t) {
		var alts []*Term
		if t.Underlying().(*types.Interface).NumMethods() == 0 {
			return Not(Eq(tag, Int(0)))
		}
		if isErrorType(t) {
			return App("iserr", SBool, tag)
		}
		if impl := implementers(t); x.paths && len(impl) > manyTypes {
			return implTerm(t, tag)
		}
		for _, c := range implementers(t) {
			alts = append(alts, Eq(tag, Int(int64(typeID(c)))))
		}
		return Or(alts...)
	}
	return Eq(tag, Int(int64(typeID(t))))
}

// interfaces with many implementers: membership is a predicate on type tags
// (implAxioms), so that a test is one atom and not a disjunction.
const manyTypes = 12

var implIfaces = map[string]types.Type{}

func implTerm(t types.Type, tag *Term) *Term {
	if tag.isInt() {
		for _, c := range implementers(t) {
			if int64(typeID(c)) == tag.num.Int64() {
				return True
			}
		}
		return False
	}
	n := "impl_" + sanitize(types.TypeString(t, nil))
	implIfaces[n] = t
	return App(n, SBool, tag)
}

// implAxioms: what is known of the membership predicates used.
func implAxioms(used map[string]bool) []*Term {
	var out []*Term
	var ns []string
	for _, n := range sortedKeys(implIfaces) {
		if used[n] {
			ns = append(ns, n)
		}
	}
	set := func(n string) map[int]bool {
		m := map[int]bool{}
		for _, c := range implementers(implIfaces[n]) {
			m[typeID(c)] = true
		}
		return m
	}
	for _, n := range ns {
		in := set(n)
		for id := 0; id <= len(typeIDs); id++ {
			f := App(n, SBool, Int(int64(id)))
			if !in[id] {
				f = Not(f)
			}
			out = append(out, f)
		}
		for _, m := range ns {
			if m == n {
				continue
			}
			sub := true
			other := set(m)
			for id := range in {
				if !other[id] {
					sub = false
				}
			}
			if sub {
				v := BoundVar("g", SInt)
				out = append(out, Forall([]*Term{v}, [][]*Term{{App(n, SBool, v)}}, Imp(App(n, SBool, v), App(m, SBool, v))))
			}
		}
	}
	return out
}

func (x *Exec) typeAssert(fr *frame, i *ssa.TypeAssert, st *State, reach *Term) {
	v := x.val(fr, i.X, st)
	cond := x.typeCond(i.AssertedType, v[0])
	var out []*Term
	if isIface(i.AssertedType) {
		out = []*Term{v[0], v[1]}
	} else {
		out = x.unbox(i.AssertedType, v[1])
		x.valid(i.AssertedType, out, st, And(reach, cond))
	}
	if !i.CommaOk {
		x.oblig(reach, cond, "typeassert", "dynamic type is "+tstr(i.AssertedType), fr, i.Pos())
		fr.vals[i] = out
		return
	}
	z := zeroOf(i.AssertedType)
	var res []*Term
	for k := range out {
		res = append(res, Ite(cond, out[k], z[k]))
	}
	fr.vals[i] = append(res, cond)
}

func (x *Exec) slice(fr *frame, i *ssa.Slice, st *State, reach *Term) {
	var lo, hi *Term = Int(0), nil
	if i.Low != nil {
		lo = x.val(fr, i.Low, st)[0]
	}
	if i.High != nil {
		hi = x.val(fr, i.High, st)[0]
	}
	if i.Max != nil {
		panic(unsupErr("3-index slice"))
	}
	if isString(i.X.Type()) {
		s := x.val(fr, i.X, st)[0]
		if hi == nil {
			hi = SLen(s)
		}
		x.oblig(reach, And(Le(Int(0), lo), Le(lo, hi), Le(hi, SLen(s))), "slice", "string slice bounds", fr, i.Pos())
		fr.vals[i] = []*Term{SSub(s, lo, hi)}
		return
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.val(fr, i.X, st)
		if hi == nil {
			hi = s[2]
		}
		x.oblig(reach, And(Le(Int(0), lo), Le(lo, hi), Le(hi, s[3])), "slice", "slice bounds", fr, i.Pos())
		fr.vals[i] = []*Term{s[0], Add(s[1], lo), Sub(hi, lo), Sub(s[3], lo)}
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		ref := x.val(fr, i.X, st)[0]
		x.nonNil(ref, reach, fr, i.Pos(), "array slice")
		n := Int(arr.Len())
		if hi == nil {
			hi = n
		}
		x.oblig(reach, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), "slice", "slice bounds", fr, i.Pos())
		fr.vals[i] = []*Term{ref, lo, Sub(hi, lo), Sub(n, lo)}
	default:
		panic(unsupErr("slice of " + i.X.Type().String()))
	}
}

func (x *Exec) convert(fr *frame, i *ssa.Convert, st *State, reach *Term) []*Term {
	from, to := i.X.Type(), i.Type()
	v := x.val(fr, i.X, st)
	switch {
	case isInteger(from) && isInteger(to):
		lo, hi := intRange(to)
		if within(v[0], lo, hi) {
			return v
		}
		n, signed := intBits(to)
		if !signed {
			return []*Term{ModE(v[0], IntB(Pow2(n)))}
		}
		if n == 64 { // uint64 -> int64
			t := v[0]
			return []*Term{Ite(Le(t, IntB(hi)), t, Sub(t, IntB(Pow2(64))))}
		}
		return []*Term{Sub(ModE(Add(v[0], IntB(Pow2(n-1))), IntB(Pow2(n))), IntB(Pow2(n-1)))}
	case isInteger(from) && isString(to):
		return []*Term{App("runestr", SStr, v[0])}
	case isString(from) && isString(to):
		return v
	case isString(from): // []byte(s)
		if sl, ok := to.Underlying().(*types.Slice); ok && elemMap(sl.Elem()) == "E:uint8" {
			n := x.newRef(st, "bytes")
			arr := Fresh("bytes", ArrSort(SInt, SInt))
			k := BoundVar("k", SInt)
			sel := Select(arr, k)
			x.assume(Forall([]*Term{k}, [][]*Term{{sel}}, Imp(And(Le(Int(0), k), Lt(k, SLen(v[0]))), Eq(sel, SAt(v[0], k)))))
			x.assume(Eq(App("bstr", SStr, arr, Int(0), SLen(v[0])), v[0]))
			x.wr("E:uint8", ArrSort(SInt, ArrSort(SInt, SInt)), n, arr, st, reach, fr, i.Pos(), true)
			l := SLen(v[0])
			return []*Term{n, Int(0), l, l}
		}
	case isString(to): // string([]byte)
		if sl, ok := from.Underlying().(*types.Slice); ok && elemMap(sl.Elem()) == "E:uint8" {
			arr := Select(st.get("E:uint8", ArrSort(SInt, ArrSort(SInt, SInt))), v[0])
			return []*Term{x.bstr(arr, v[1], v[2])}
		}
	case isFloat(from) && isFloat(to):
		if from.Underlying().(*types.Basic).Kind() == types.Float64 && to.Underlying().(*types.Basic).Kind() == types.Float32 {
			return []*Term{App("f32of", SF, v[0])}
		}
		return v
	case isInteger(from) && isFloat(to):
		return []*Term{App("i2f", SF, v[0])}
	case isFloat(from) && isInteger(to):
		b, _ := intBits(to)
		r := App(fmt.Sprintf("f2i%d", b)+map[bool]string{true: "s", false: "u"}[func() bool { _, s := intBits(to); return s }()], SInt, v[0])
		x.rangeFactForce(to, r)
		return []*Term{r}
	}
	if isPtr(from) || isPtr(to) {
		panic(unsupErr("unsafe pointer conversion"))
	}
	panic(unsupErr("conversion " + from.String() + " to " + to.String()))
}

func (x *Exec) rangeFactForce(t types.Type, v *Term) {
	if v.bound {
		return
	}
	lo, hi := intRange(t)
	x.fact(fmt.Sprintf("rng%d", v.id), B.mk("and", "", nil, SBool, B.mk("<=", "", nil, SBool, IntB(lo), v), B.mk("<=", "", nil, SBool, v, IntB(hi))))
	v.setRange(lo, hi)
}

// ---------------------------------------------------------------- maps

func mapKeySort(mt *types.Map) string {
	ls := leavesOf(mt.Key())
	if len(ls) != 1 {
		panic(unsupErr("map key type " + mt.Key().String()))
	}
	return ls[0].sort
}

func (x *Exec) lookup(fr *frame, i *ssa.Lookup, st *State, reach *Term) {
	if isString(i.X.Type()) {
		s, idx := x.val(fr, i.X, st)[0], x.val(fr, i.Index, st)[0]
		x.oblig(reach, And(Le(Int(0), idx), Lt(idx, SLen(s))), "index", "string index in range", fr, i.Pos())
		fr.vals[i] = []*Term{SAt(s, idx)}
		return
	}
	mt := i.X.Type().Underlying().(*types.Map)
	ref := x.val(fr, i.X, st)[0]
	key := x.val(fr, i.Index, st)[0]
	present, vals := x.mapGet(mt, ref, key, st)
	x.valid(mt.Elem(), vals, st, And(reach, present))
	z := zeroOf(mt.Elem())
	var out []*Term
	for k := range vals {
		out = append(out, Ite(present, vals[k], z[k]))
	}
	if i.CommaOk {
		out = append(out, present)
	}
	fr.vals[i] = out
}

func (x *Exec) mapGet(mt *types.Map, ref, key *Term, st *State) (*Term, []*Term) {
	ks := mapKeySort(mt)
	nm := "M:" + tstr(mt)
	dom := Select(st.get(nm+"#dom", ArrSort(SInt, ArrSort(ks, SBool))), ref)
	present := And(Not(Eq(ref, Int(0))), Select(dom, key))
	var vals []*Term
	for _, l := range leavesOf(mt.Elem()) {
		vals = append(vals, Select(Select(st.get(nm+"#val"+l.path, ArrSort(SInt, ArrSort(ks, l.sort))), ref), key))
	}
	return present, vals
}

func (x *Exec) mapStore(fr *frame, mt *types.Map, ref *Term, key, val []*Term, st *State, reach *Term, pos token.Pos) {
	ks := mapKeySort(mt)
	nm := "M:" + tstr(mt)
	ds := ArrSort(SInt, ArrSort(ks, SBool))
	dom := Select(st.get(nm+"#dom", ds), ref)
	was := Select(dom, key[0])
	n := Select(st.get(nm+"#n", ArrSort(SInt, SInt)), ref)
	x.wr(nm+"#dom", ds, ref, Store(dom, key[0], True), st, reach, fr, pos, false)
	x.wr(nm+"#n", ArrSort(SInt, SInt), ref, Ite(was, n, Add(n, Int(1))), st, reach, fr, pos, false)
	for k, l := range leavesOf(mt.Elem()) {
		vs := ArrSort(SInt, ArrSort(ks, l.sort))
		in := Select(st.get(nm+"#val"+l.path, vs), ref)
		x.wr(nm+"#val"+l.path, vs, ref, Store(in, key[0], val[k]), st, reach, fr, pos, false)
	}
}

func (x *Exec) mapDelete(fr *frame, mt *types.Map, ref *Term, key []*Term, st *State, reach *Term, pos token.Pos) {
	ks := mapKeySort(mt)
	nm := "M:" + tstr(mt)
	ds := ArrSort(SInt, ArrSort(ks, SBool))
	dom := Select(st.get(nm+"#dom", ds), ref)
	was := Select(dom, key[0])
	n := Select(st.get(nm+"#n", ArrSort(SInt, SInt)), ref)
	x.wr(nm+"#dom", ds, ref, Store(dom, key[0], False), st, reach, fr, pos, false)
	x.wr(nm+"#n", ArrSort(SInt, SInt), ref, Ite(was, Sub(n, Int(1)), n), st, reach, fr, pos, false)
}
