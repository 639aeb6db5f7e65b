package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

// ---------------------------------------------------------------- state

type State struct {
	m     map[string]*Term
	alloc *Term
}

func (s *State) clone() *State {
	n := &State{m: make(map[string]*Term, len(s.m)), alloc: s.alloc}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

var mapSort = map[string]string{}

// get returns the current term of a heap map (or global); unseen maps start as
// the function-entry symbol.
func (s *State) get(name, srt string) *Term {
	if t, ok := s.m[name]; ok {
		return t
	}
	if old, ok := mapSort[name]; ok && old != srt {
		panic("heap map sort clash " + name + " " + old + " " + srt)
	}
	mapSort[name] = srt
	t := Sym("H:"+name, srt)
	s.m[name] = t
	return t
}

// ---------------------------------------------------------------- verification items

type ItemKind int

const (
	IAssume ItemKind = iota
	IOblig
	ICand  // candidate-invariant (or measure) check
	ICover // reachability cover: must not be unsat
)

type Item struct {
	kind  ItemKind
	t     *Term // assumption / goal (already guarded by reach for assumptions)
	reach *Term
	okind string // obligation kind
	name  string // stable obligation name
	label string // human text
	pos   string
	props []string // property labels (for ensures)
	cand  *Cand
	lit   *Cand // assumption only active when this candidate is alive
}

type Cand struct {
	id      int
	text    string
	dead    bool
	pend    bool // refuted in the current round
	measure bool
	user    bool // from a contract
	loop    *LoopInfo
}

type LoopInfo struct {
	name     string
	pos      string
	measures []*Cand
	cands    []*Cand
}

type writeRec struct {
	m   string
	ref *Term // nil: whole map
}

type Exec struct {
	V         *Verifier
	items     []Item
	dry       int
	paths     bool // flag paths: loop bodies path by path
	pathEdges bool
	pathCount int
	logs      []*[]writeRec
	root      *ssa.Function
	rootC     *Contract
	entry     *State
	alloc0    *Term
	modAllow  map[string][]*Term // allowed refs per map
	modAll    map[string]bool
	modAny    bool
	loops     []*LoopInfo
	nameCount map[string]int
	factSeen  map[string]bool
	ncand     int
	inlined   map[string]bool
	called    map[string]bool // contracts used
	stack     []*ssa.Function
	unsup     []string
	rootEnv   *Env
	nOblig    int
}

func (x *Exec) assume(t *Term) {
	if t == True || x.dry > 0 {
		return
	}
	x.items = append(x.items, Item{kind: IAssume, t: t})
}

func (x *Exec) assumeAt(reach, t *Term) { x.assume(Imp(reach, t)) }

func (x *Exec) oblig(reach, cond *Term, kind, label string, fr *frame, pos token.Pos) {
	x.obligP(reach, cond, kind, label, fr, pos, nil)
}

func (x *Exec) obligP(reach, cond *Term, kind, label string, fr *frame, pos token.Pos, props []string) {
	if x.dry > 0 {
		return
	}
	fnname := funcKey(x.root)
	if fr != nil {
		fnname = funcKey(fr.fn)
	}
	base := fnname + ":" + kind + ":" + label
	if fr != nil && fr.fn != x.root {
		base = funcKey(x.root) + ">" + base
	}
	x.nameCount[base]++
	name := fmt.Sprintf("%s#%d", base, x.nameCount[base])
	x.nOblig++
	p := ""
	if pos.IsValid() {
		pp := x.V.prog.Fset.Position(pos)
		p = fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, "/repo/"), pp.Line)
	}
	if x.rootC != nil && kind != "fieldinv" && x.V.storesOnly[funcKey(x.root)] {
		x.assume(Imp(reach, cond))
		return
	}
	if safetyKinds[kind] && x.rootC != nil && x.V.mode != "" && x.rootC.safety != nil && !hasStr(x.rootC.safety, x.V.mode) {
		// decided by another property's check: assumed here (partial correctness)
		x.V.assumedSafety[funcKey(x.root)]++
		x.assume(Imp(reach, cond))
		return
	}
	if cond == True || reach == False {
		x.items = append(x.items, Item{kind: IOblig, t: True, reach: reach, okind: kind, name: name, label: label, pos: p, props: props})
		return
	}
	x.items = append(x.items, Item{kind: IOblig, t: cond, reach: reach, okind: kind, name: name, label: label, pos: p, props: props})
	// assert, then assume
	x.assume(Imp(reach, cond))
}

func (x *Exec) unsupported(reach *Term, what string, fr *frame, pos token.Pos) {
	if x.dry == 0 {
		x.unsup = append(x.unsup, funcKey(fr.fn)+": "+what)
	}
	x.oblig(reach, False, "unsupported", what, fr, pos)
}

// ---------------------------------------------------------------- frames

type Addr struct {
	kind string // field elem cell global obj arr
	m    string
	ref  *Term
	idx  *Term
	typ  types.Type
}

type edge struct {
	from *ssa.BasicBlock
	cond *Term
	st   *State
	vals map[*ssa.Phi][]*Term // phi inputs evaluated at the edge
}

type retVal struct {
	cond *Term
	st   *State
	vals []*Term
}

type frame struct {
	fn          *ssa.Function
	vals        map[ssa.Value][]*Term
	addrs       map[ssa.Value]*Addr
	in          map[*ssa.BasicBlock][]edge
	rets        []retVal
	defers      []deferred
	depth       int
	env         *Env // spec environment of this function's own contract pool (may be nil)
	loopOf      map[*ssa.BasicBlock]*natLoop
	rpo         []*ssa.BasicBlock
	back        map[[2]int]bool
	c           *Contract
	activeLoops []*activeLoop
}

type deferred struct {
	call             *ssa.CallCommon
	args             [][]*Term
	cond             *Term
	instr            ssa.Instruction
	recvTag, recvVal *Term
}

type natLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type activeLoop struct {
	nl        *natLoop
	info      *LoopInfo
	cands     []*candInst
	headView  *LoopView
	entryView *LoopView
}

type LoopView struct {
	phis map[*ssa.Phi][]*Term
	st   *State
}

type candInst struct {
	c    *Cand
	eval func(v *LoopView) *Term   // invariant
	meas func(v *LoopView) []*Term // measure (lexicographic)
}

func funcKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		} else if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return tstr(t) + "." + s
	}
	if fn.Pkg != nil {
		return shortPath(fn.Pkg.Pkg.Path()) + "." + s
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return shortPath(fn.Object().Pkg().Path()) + "." + s
	}
	return s
}

// ---------------------------------------------------------------- typed facts

func (x *Exec) fact(key string, t *Term) {
	if x.dry > 0 || t == True {
		return
	}
	if x.factSeen[key] {
		return
	}
	x.factSeen[key] = true
	x.assume(t)
}

func (x *Exec) allocated(v *Term, st *State) *Term {
	return And(Ge(v, Int(0)), Or(Eq(v, Int(0)), And(Lt(Int(0), rt(v)), Lt(rt(v), st.alloc))))
}

func rt(v *Term) *Term {
	if v.isRefFresh && v.op == "sym" {
		return v
	}
	if (strings.HasPrefix(v.op, "sub.") || v.op == "elt") && len(v.args) > 0 {
		return rt(v.args[0])
	}
	return App("rt", SInt, v)
}

// valid emits typing facts for a value of type t whose leaves are ls.
func (x *Exec) valid(t types.Type, ls []*Term, st *State, reach *Term) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			x.rangeFact(t, ls[0])
		}
	case *types.Pointer, *types.Map:
		x.refFact(ls[0], st, reach)
	case *types.Chan, *types.Signature:
	case *types.Slice:
		x.sliceFact(ls, st, reach)
	case *types.Interface:
		x.ifaceFact(t, ls, st, reach)
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := len(leavesOf(ft))
			x.valid(ft, ls[o:o+n], st, reach)
			o += n
		}
	case *types.Tuple:
		o := 0
		for i := 0; i < u.Len(); i++ {
			ft := u.At(i).Type()
			n := len(leavesOf(ft))
			x.valid(ft, ls[o:o+n], st, reach)
			o += n
		}
	}
}

func (x *Exec) rangeFact(t types.Type, v *Term) {
	if v.isInt() || v.bound {
		return
	}
	lo, hi := intRange(t)
	if within(v, lo, hi) && v.op != "select" && v.op != "sym" {
		return
	}
	if v.op == "select" || v.op == "sym" {
		x.fact(fmt.Sprintf("rng%d", v.id), B.mk("and", "", nil, SBool, B.mk("<=", "", nil, SBool, IntB(lo), v), B.mk("<=", "", nil, SBool, v, IntB(hi))))
		v.setRange(lo, hi)
		return
	}
	x.fact(fmt.Sprintf("rng%d", v.id), And(Le(IntB(lo), v), Le(v, IntB(hi))))
}

func (x *Exec) refFact(v *Term, st *State, reach *Term) {
	if v.isInt() || v.isRefFresh || v.bound {
		return
	}
	if v.op == "ite" {
		x.refFact(v.args[1], st, And(reach, v.args[0]))
		x.refFact(v.args[2], st, And(reach, Not(v.args[0])))
		return
	}
	x.fact(fmt.Sprintf("ref%d@%d@%d", v.id, st.alloc.id, reach.id), Imp(reach, x.allocated(v, st)))
}

func (x *Exec) sliceFact(ls []*Term, st *State, reach *Term) {
	b, o, l, c := ls[0], ls[1], ls[2], ls[3]
	if b.bound || l.bound {
		return
	}
	mx := IntB(Pow2(40))
	x.refFact(b, st, reach)
	if !(o.isInt() && l.isInt() && c.isInt()) {
		x.fact(fmt.Sprintf("sl%d.%d.%d.%d@%d", b.id, o.id, l.id, c.id, reach.id), Imp(reach, And(Le(Int(0), o), Le(o, mx), Le(Int(0), l), Le(l, c), Le(c, mx), Imp(Eq(b, Int(0)), And(Eq(l, Int(0)), Eq(c, Int(0)))))))
	}
	if l.op == "select" || l.op == "sym" {
		l.setRange(big.NewInt(0), Pow2(40))
	}
	if o.op == "select" || o.op == "sym" {
		o.setRange(big.NewInt(0), Pow2(40))
	}
	if c.op == "select" || c.op == "sym" {
		c.setRange(big.NewInt(0), Pow2(40))
	}
}

func (x *Exec) ifaceFact(t types.Type, ls []*Term, st *State, reach *Term) {
	tag, val := ls[0], ls[1]
	if tag.isInt() || tag.bound {
		return
	}
	// nil interface has value 0; pointer payloads are allocated references
	impl := implementers(t)
	f := []*Term{Ge(tag, Int(0)), Imp(Eq(tag, Int(0)), Eq(val, Int(0)))}
	iu := t.Underlying().(*types.Interface)
	if iu.NumMethods() > 0 {
		if !isErrorType(t) {
			alts := []*Term{Eq(tag, Int(0))}
			if x.paths && len(impl) > manyTypes {
				alts = append(alts, implTerm(t, tag))
			} else {
				for _, c := range impl {
					alts = append(alts, Eq(tag, Int(int64(typeID(c)))))
				}
			}
			f = append(f, Or(alts...))
		}
	}
	x.fact(fmt.Sprintf("if%d.%d@%d", tag.id, val.id, reach.id), Imp(reach, And(f...)))
	// allocatedness of pointer payload
	allPtr := iu.NumMethods() > 0 && !isErrorType(t)
	for _, c := range impl {
		if !isPtr(c) {
			allPtr = false
		}
	}
	if allPtr {
		x.refFact(val, st, reach)
	} else {
		x.fact(fmt.Sprintf("ifv%d.%d@%d@%d", tag.id, val.id, st.alloc.id, reach.id), Imp(And(reach, App("isptrtag", SBool, tag)), x.allocated(val, st)))
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// ---------------------------------------------------------------- sub-objects

func (x *Exec) subRef(owner string, field string, ref *Term) *Term {
	f := "sub." + sanitize(owner+"."+field)
	t := App(f, SInt, ref)
	if ref.isRefFresh {
		t.isRefFresh = true
	}
	id := subKind(f)
	if field == "List" {
		// a list.List embedded behind other fields carries no value type (see listof)
		if ref.bound {
			q := BoundVar("subq", SInt)
			qt := App(f, SInt, q)
			x.fact("subtag"+f, Forall([]*Term{q}, [][]*Term{{qt}}, Eq(App("ltag", SInt, qt), Int(0))))
		} else {
			x.fact(fmt.Sprintf("subtag%d", t.id), Eq(App("ltag", SInt, t), Int(0)))
		}
	}
	if ref.bound {
		q := BoundVar("subq", SInt)
		qt := App(f, SInt, q)
		x.fact("subax"+f, Forall([]*Term{q}, [][]*Term{{qt}}, And(Eq(App("rt", SInt, qt), rt(q)), Eq(App("kind", SInt, qt), Int(int64(id))), Eq(App("inv."+f, SInt, qt), q), Imp(Gt(q, Int(0)), Gt(qt, Int(0))), Ge(qt, Int(0)))))
		return t
	}
	x.fact("sub"+fmt.Sprint(t.id), And(Eq(App("rt", SInt, t), rt(ref)), Eq(App("kind", SInt, t), Int(int64(id))), Eq(App("inv."+f, SInt, t), ref), Imp(Gt(ref, Int(0)), Gt(t, Int(0))), Ge(t, Int(0))))
	return t
}

var subKinds = map[string]int{}

func subKind(f string) int {
	if k, ok := subKinds[f]; ok {
		return k
	}
	k := len(subKinds) + 1
	subKinds[f] = k
	return k
}

// fieldAddr computes the location of field i of struct type T at object ref.
func (x *Exec) fieldAddr(T types.Type, i int, ref *Term) *Addr {
	st := T.Underlying().(*types.Struct)
	f := st.Field(i)
	owner := tstr(T)
	switch {
	case isStruct(f.Type()):
		if i == 0 {
			x.listFact(owner, ref)
			return &Addr{kind: "obj", ref: ref, typ: f.Type()}
		}
		return &Addr{kind: "obj", ref: x.subRef(owner, f.Name(), ref), typ: f.Type()}
	case isArray(f.Type()):
		return &Addr{kind: "arr", ref: x.subRef(owner, f.Name(), ref), typ: f.Type()}
	}
	return &Addr{kind: "field", m: owner + "." + f.Name(), ref: ref, typ: f.Type()}
}

func elemMap(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Kind() == types.Uint8 {
			return "E:uint8"
		}
		return "E:" + b.Name()
	}
	return "E:" + tstr(t)
}

func (x *Exec) elemAddr(el types.Type, base, idx *Term) *Addr {
	if isStruct(el) {
		t := App("elt", SInt, base, idx)
		if base.isRefFresh {
			t.isRefFresh = true
		}
		return &Addr{kind: "obj", ref: t, typ: el}
	}
	return &Addr{kind: "elem", m: elemMap(el), ref: base, idx: idx, typ: el}
}

func (x *Exec) ptrAddr(el types.Type, ref *Term) *Addr {
	switch {
	case isStruct(el):
		return &Addr{kind: "obj", ref: ref, typ: el}
	case isArray(el):
		return &Addr{kind: "arr", ref: ref, typ: el}
	}
	return &Addr{kind: "cell", m: "C:" + tstr(el.Underlying()), ref: ref, typ: el}
}

func (x *Exec) load(a *Addr, st *State) []*Term {
	var out []*Term
	switch a.kind {
	case "obj":
		s := a.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, x.load(x.fieldAddr(a.typ, i, a.ref), st)...)
		}
		return out
	case "arr":
		el := a.typ.Underlying().(*types.Array).Elem()
		for _, l := range leavesOf(el) {
			out = append(out, Select(st.get(elemMap(el)+l.path, ArrSort(SInt, ArrSort(SInt, l.sort))), a.ref))
		}
		return out
	}
	for _, l := range leavesOf(a.typ) {
		switch a.kind {
		case "global":
			out = append(out, st.get(a.m+l.path, l.sort))
		case "elem":
			out = append(out, Select(Select(st.get(a.m+l.path, ArrSort(SInt, ArrSort(SInt, l.sort))), a.ref), a.idx))
		default:
			out = append(out, Select(st.get(a.m+l.path, ArrSort(SInt, l.sort)), a.ref))
		}
	}
	if a.kind == "field" {
		if c, ok := x.V.constFields[a.m+"@"+a.ref.sym]; ok && a.ref.op == "sym" {
			return []*Term{Bool(c)}
		}
		if fi := x.V.fieldInvs[a.m]; fi != nil {
			x.fieldInvFact(fi, a, out, st)
		}
	}
	return out
}

// listFact: the values of lists embedded in owner have a fixed dynamic type.
func (x *Exec) listFact(owner string, ref *Term) {
	lo := x.V.listOf[owner]
	if lo == nil || ref.bound {
		return
	}
	x.fact(fmt.Sprintf("ltag%d", ref.id), Imp(Gt(ref, Int(0)), Eq(App("ltag", SInt, ref), Int(int64(typeID(lo))))))
}

func (x *Exec) fieldInvFact(fi *FieldInv, a *Addr, v []*Term, st *State) {
	x.V.fieldInvUsed[a.m] = true
	if a.ref.bound {
		q := BoundVar("fq", SInt)
		a2 := *a
		a2.ref = q
		var vs []*Term
		key := ""
		var trig [][]*Term
		for _, l := range leavesOf(a.typ) {
			m := st.get(a.m+l.path, ArrSort(SInt, l.sort))
			t := Select(m, q)
			vs = append(vs, t)
			trig = append(trig, []*Term{t})
			key += fmt.Sprintf(".%d", m.id)
		}
		x.fact("fiq"+key, Forall([]*Term{q}, trig, x.fieldInvTerm(fi, &a2, vs, st)))
		return
	}
	key := "fi"
	for _, t := range v {
		key += fmt.Sprintf(".%d", t.id)
	}
	x.fact(key, x.fieldInvTerm(fi, a, v, st))
}

func (x *Exec) fieldInvTerm(fi *FieldInv, a *Addr, v []*Term, st *State) *Term {
	e := &Env{x: x, vars: map[string]SVal{fi.params[0]: {ts: []*Term{a.ref}, typ: types.NewPointer(fi.owner)}, fi.params[1]: {ts: v, typ: a.typ}}, st: st, old: st}
	return e.Bool(fi.body)
}

func (x *Exec) loadV(a *Addr, st *State, reach *Term) []*Term {
	v := x.load(a, st)
	x.valid(a.typ, v, st, reach)
	return v
}

func (x *Exec) logWrite(m string, ref *Term) {
	for _, l := range x.logs {
		*l = append(*l, writeRec{m, ref})
	}
}

// store writes v at a; frame checked.
func (x *Exec) store(a *Addr, v []*Term, st *State, reach *Term, fr *frame, pos token.Pos, init bool) {
	switch a.kind {
	case "obj":
		s := a.typ.Underlying().(*types.Struct)
		o := 0
		if init {
			for _, af := range x.V.allocFacts[tstr(a.typ)] {
				e := &Env{x: x, vars: map[string]SVal{af.params[0]: {ts: []*Term{a.ref}, typ: types.NewPointer(a.typ)}}, st: st, old: st}
				x.fact(fmt.Sprintf("alloc%d.%s", a.ref.id, af.name), e.Bool(af.body))
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			n := len(leavesOf(s.Field(i).Type()))
			x.store(x.fieldAddr(a.typ, i, a.ref), v[o:o+n], st, reach, fr, pos, init)
			o += n
		}
		if init {
			for _, g := range x.V.ghosts[tstr(a.typ)] {
				x.wr(tstr(a.typ)+"."+g.name, ArrSort(SInt, g.sort), a.ref, zeroSort(g.sort), st, reach, fr, pos, init)
			}
		}
		return
	case "arr":
		el := a.typ.Underlying().(*types.Array).Elem()
		for i, l := range leavesOf(el) {
			x.wr(elemMap(el)+l.path, ArrSort(SInt, ArrSort(SInt, l.sort)), a.ref, v[i], st, reach, fr, pos, init)
		}
		return
	}
	if a.kind == "field" {
		if fi := x.V.fieldInvs[a.m]; fi != nil && x.dry == 0 {
			if t := x.fieldInvTerm(fi, a, v, st); !init || t != True {
				x.obligP(reach, t, "fieldinv", a.m, fr, pos, nil)
			}
		}
	}
	for i, l := range leavesOf(a.typ) {
		switch a.kind {
		case "global":
			nm := a.m + l.path
			st.get(nm, l.sort)
			x.logWrite(nm, nil)
			if !init {
				x.frameCheck(nm, nil, reach, fr, pos)
			}
			st.m[nm] = v[i]
		case "elem":
			nm := a.m + l.path
			srt := ArrSort(SInt, ArrSort(SInt, l.sort))
			inner := Select(st.get(nm, srt), a.ref)
			x.wr(nm, srt, a.ref, Store(inner, a.idx, v[i]), st, reach, fr, pos, init)
		default:
			x.wr(a.m+l.path, ArrSort(SInt, l.sort), a.ref, v[i], st, reach, fr, pos, init)
		}
	}
}

func (x *Exec) wr(nm, srt string, ref, v *Term, st *State, reach *Term, fr *frame, pos token.Pos, init bool) {
	cur := st.get(nm, srt)
	x.logWrite(nm, ref)
	if !init {
		x.frameCheck(nm, ref, reach, fr, pos)
	}
	st.m[nm] = Store(cur, ref, v)
}

func (x *Exec) frameCheck(nm string, ref *Term, reach *Term, fr *frame, pos token.Pos) {
	if x.modAny || x.modAll[nm] || x.dry > 0 {
		return
	}
	if ref != nil && ref.isRefFresh {
		return
	}
	if ref == nil {
		if strings.HasPrefix(nm, "G:") || true {
			x.oblig(reach, False, "frame", nm, fr, pos)
		}
		return
	}
	alts := []*Term{Ge(rt(ref), x.alloc0)}
	for _, r := range x.modAllow[nm] {
		if r == ref {
			return
		}
		alts = append(alts, Eq(r, ref))
	}
	x.oblig(reach, Or(alts...), "frame", nm, fr, pos)
}

func zeroSort(s string) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return StrConst("")
	case SF:
		return Sym("f64zero", SF)
	}
	_, v := splitArr(s)
	return ConstArr(s, zeroSort(v))
}

func zeroOf(t types.Type) []*Term {
	var out []*Term
	for _, l := range leavesOf(t) {
		out = append(out, zeroSort(l.sort))
	}
	return out
}

func (x *Exec) newRef(st *State, prefix string) *Term {
	n := Fresh(prefix, SInt)
	n.isRefFresh = true
	x.assume(And(B.mk("=", "", nil, SBool, n, st.alloc), Eq(App("rt", SInt, n), n), Eq(App("kind", SInt, n), Int(0))))
	x.assume(Gt(n, Int(0)))
	n.lo = big.NewInt(1)
	st.alloc = Add(n, Int(1))
	return n
}

// ---------------------------------------------------------------- values

func (x *Exec) val(fr *frame, v ssa.Value, st *State) []*Term {
	if ts, ok := fr.vals[v]; ok {
		return ts
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return []*Term{x.globRef(c)}
	case *ssa.Function:
		return []*Term{Sym("fn:"+funcKey(c), SInt)}
	case *ssa.Builtin:
		return []*Term{Int(0)}
	}
	if a, ok := fr.addrs[v]; ok {
		if a.kind == "obj" || a.kind == "arr" {
			return []*Term{a.ref}
		}
		if a.kind == "cell" {
			return []*Term{a.ref}
		}
		panic(unsupErr("interior pointer escapes: " + v.String()))
	}
	panic(unsupErr(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn)))
}

type unsupErr string

func (x *Exec) globRef(g *ssa.Global) *Term {
	t := Sym("glob:"+g.String(), SInt)
	x.fact(fmt.Sprintf("glob%d", t.id), And(Gt(t, Int(0)), Lt(rt(t), x.alloc0), Gt(rt(t), Int(0))))
	return t
}

func (x *Exec) constVal(c *ssa.Const) []*Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []*Term{Bool(constant.BoolVal(c.Value))}
		case u.Info()&types.IsString != 0:
			return []*Term{StrConst(constant.StringVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !ok {
				panic(unsupErr("const " + c.String()))
			}
			return []*Term{IntB(n)}
		case u.Info()&types.IsFloat != 0:
			return []*Term{Sym("f64:"+c.Value.ExactString(), SF)}
		}
	}
	panic(unsupErr("const " + c.String()))
}

func (x *Exec) addrOf(fr *frame, v ssa.Value, st *State) *Addr {
	if a, ok := fr.addrs[v]; ok {
		return a
	}
	if g, ok := v.(*ssa.Global); ok {
		el := deref(g.Type())
		if isStruct(el) || isArray(el) {
			return x.ptrAddr(el, x.globRef(g))
		}
		return &Addr{kind: "global", m: "G:" + shortPath(g.Pkg.Pkg.Path()) + "." + g.Name(), typ: el}
	}
	return x.ptrAddr(deref(v.Type()), x.val(fr, v, st)[0])
}
