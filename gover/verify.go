package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Verifier struct {
	prog          *ssa.Program
	fns           map[string]*ssa.Function
	contracts     map[string]*Contract
	order         []string
	preds         map[string]*Pred
	ufns          map[string]*UFn
	axioms        []*Axiom
	ghosts        map[string][]Ghost
	globalInvs    []*Node
	cfgs          map[*ssa.Function]*cfgInfo
	typeCache     map[string]types.Type
	extraPkgs     []*types.Package
	fnOf          map[string]*ssa.Function
	callCovers    bool // developer option: calls after which nothing is reachable are reported
	freshish      map[*Term]bool
	scc           map[string]int
	mode          string
	axUsed        map[string]bool
	assumedSafety map[string]int
	constFields   map[string]bool // map name "@" global symbol -> constant
	constSrc      []string
	allocFacts    map[string][]*Pred   // facts about rigid functions of a newly allocated object
	entryFacts    map[string]*Axiom    // named facts about entry states, assumed where a contract flags them
	fieldInvs     map[string]*FieldInv // map name -> invariant of every value of that field
	fieldInvUsed  map[string]bool
	allFns        []*ssa.Function
	constInits    map[*ssa.Global]*constInit // globals that keep their constant initial value
	storesOnly    map[string]bool            // functions of which only field-invariant stores are checked
	imposedOn     map[string][]string        // interface contract -> contracts of its implementers
	listOf        map[string]types.Type      // struct type embedding a list.List first -> dynamic type of its values
}

// FieldInv: every value of a struct field satisfies body (checked at every store).
type FieldInv struct {
	owner  types.Type
	m      string
	params []string
	body   *Node
	src    string
}

func (v *Verifier) wantTerm(fr *frame) bool { return true }
func (v *Verifier) exactInt(fn *ssa.Function) bool {
	c := v.contracts[funcKey(fn)]
	return c != nil && c.exactInt
}

// usable: the contract's parameter list still fits the function.
func (v *Verifier) usable(c *Contract, fn *ssa.Function) bool {
	n := len(fn.Params)
	if fn.Signature.Recv() != nil && len(fn.Params) == 0 {
		n = fn.Signature.Params().Len() + 1
	}
	if len(fn.Blocks) == 0 {
		n = fn.Signature.Params().Len()
		if fn.Signature.Recv() != nil {
			n++
		}
	}
	return len(c.params) == n && (len(c.results) == 0 || len(c.results) == fn.Signature.Results().Len())
}

// Result of generating VCs for one function.
type FnVC struct {
	key    string
	items  []Item
	err    string
	unsup  []string
	loops  []*LoopInfo
	called map[string]bool
	inl    map[string]bool
	nOblig int
	paths  bool
	lines  int
}

func (v *Verifier) genVC(key string) (out *FnVC) {
	ct := v.contracts[key]
	fn := v.fns[key]
	out = &FnVC{key: key}
	if v.storesOnly[key] {
		c := *ct
		c.ensures, c.returns, c.modAny, c.safety = nil, nil, true, nil
		ct = &c
	}
	if fn == nil {
		out.err = "function not found"
		return
	}
	if len(fn.Blocks) == 0 && ct.impose == nil {
		out.err = "no body"
		return
	}
	if ct.impose == nil && !v.usable(ct, fn) {
		out.err = "contract does not fit the function's signature"
		return
	}
	x := &Exec{V: v, root: fn, rootC: ct, nameCount: map[string]int{}, factSeen: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, modAllow: map[string][]*Term{}, modAll: map[string]bool{}}
	defer func() {
		out.items = x.items
		out.unsup = x.unsup
		out.loops = x.loops
		out.called = x.called
		out.inl = x.inlined
		out.nOblig = x.nOblig
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specErr:
				out.err = "spec error: " + string(e)
			case unsupErr:
				out.err = "unsupported: " + string(e)
			default:
				panic(r)
			}
		}
	}()
	x.alloc0 = Sym("alloc0", SInt)
	x.alloc0.lo = Int(1).num
	x.assume(B.mk("<=", "", nil, SBool, Int(1), x.alloc0))
	st := &State{m: map[string]*Term{}, alloc: x.alloc0}
	x.entry = st.clone()
	fr := x.newFrame(fn, 0)
	x.stack = []*ssa.Function{fn}
	var args [][]*Term
	sig := fn.Signature
	var recvT types.Type
	if ct.impose != nil {
		// the receiver of dynamic type ct.impose, seen through the interface
		x.stack = nil
		meth := ct.imposeMethod
		sig, recvT = meth.Type().(*types.Signature), ct.imposeIface
		val := Sym(key+"/this", SInt)
		x.assume(Lt(Int(0), val))
		x.valid(ct.impose, []*Term{val}, st, True)
		args = append(args, []*Term{Int(int64(typeID(ct.impose))), val})
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			var ts []*Term
			for _, l := range leavesOf(t) {
				ts = append(ts, Sym(fmt.Sprintf("%s/p%d%s", key, i, l.path), l.sort))
			}
			x.valid(t, ts, st, True)
			args = append(args, ts)
		}
	}
	for _, p := range fn.Params {
		if ct.impose != nil {
			break
		}
		var ts []*Term
		for _, l := range leavesOf(p.Type()) {
			ts = append(ts, Sym(fmt.Sprintf("%s/%s%s", key, p.Name(), l.path), l.sort))
		}
		fr.vals[p] = ts
		args = append(args, ts)
		x.valid(p.Type(), ts, st, True)
		if len(ts) == 1 {
			x.lowerBound(p.Type(), ts[0])
		}
	}
	env := x.envFor(ct, sig, args, recvT, st)
	env.old = x.entry
	env.reach = True
	x.rootEnv = env
	fr.c, fr.env = ct, env
	x.bindLets(env, ct)
	x.emitAxioms()
	for _, g := range v.globalInvs {
		x.assume(env.Bool(g))
	}
	for _, n := range ct.facts {
		x.assume(env.Bool(v.entryFacts[n].e))
	}
	for _, c := range ct.requires {
		x.assume(env.Bool(c.e))
	}
	x.items = append(x.items, Item{kind: ICover, reach: True, name: key + ":cover:precondition"})
	for _, m := range ct.modifies {
		for _, w := range env.modLocs(m) {
			if w.ref == nil {
				x.modAll[w.m] = true
			} else {
				x.modAllow[w.m] = append(x.modAllow[w.m], w.ref)
			}
		}
	}
	x.modAny = ct.modAny
	x.paths, out.paths = ct.paths, ct.paths
	run := st.clone()
	var vals []*Term
	var fst *State
	var reach *Term
	if ct.impose != nil {
		tfn, same, path := v.methodTarget(ct.impose, ct.imposeMethod)
		if !same {
			panic(unsupErr("method " + ct.imposeMethod.Name() + " reached through a pointer"))
		}
		recv := []*Term{args[0][1]}
		for _, h := range path {
			recv = []*Term{x.fieldAddr(h.T, h.i, recv[0]).ref}
		}
		fr.c, fr.env = nil, nil
		vals, fst, reach = x.callFn(fr, tfn, append([][]*Term{recv}, args[1:]...), run, True, fn.Pos())
	} else {
		x.run(fr, run, True)
		vals, fst, reach = x.finish(fr, run)
	}
	pos := fn.Pos()
	if reach == False {
		// never returns normally: only acceptable if stated
		out.err = ""
	}
	x.items = append(x.items, Item{kind: ICover, reach: reach, name: key + ":cover:exit"})
	pe := *env
	pe.vars = map[string]SVal{}
	for k, val := range env.vars {
		pe.vars[k] = val
	}
	pe.st = fst
	pe.old = x.entry
	pe.reach = reach
	for _, w := range ct.watches {
		pe.vars[w.name] = sortVal(fst.get("W:"+w.name, w.sort))
	}
	x.bindResults(&pe, ct, sig, vals)
	for i, rn := range ct.returns {
		v := pe
		v.st = x.entry
		w := v.rval(v.eval(rn))
		rt := sig.Results().At(i).Type()
		if w.isNil {
			w.ts = zeroOf(rt)
		}
		if w.typ != nil && isIface(rt) && !isIface(w.typ) {
			w.ts = x.makeIface(w.typ, w.ts)
		}
		got := pe.vars[fmt.Sprintf("result%d", i)].ts
		var cs []*Term
		for j := range got {
			if got[j].sort == SStr {
				x.strEqTrig(got[j], w.ts[j])
			}
			cs = append(cs, Eq(got[j], w.ts[j]))
		}
		x.obligP(reach, And(cs...), "post", fmt.Sprintf("returns%d", i), fr, pos, nil)
	}
	for _, g := range v.globalInvs {
		x.obligP(reach, pe.Bool(g), "post", "global invariant", fr, pos, nil)
	}
	for i, c := range ct.ensures {
		l := c.label
		if l == "" {
			l = fmt.Sprintf("post%d", i+1)
		}
		if ct.impose != nil {
			l = "interface-" + l
		}
		x.obligP(reach, pe.Bool(c.e), "post", l, fr, pos, c.props)
	}
	return
}

// imposeAll makes, for every interface contract marked "imposed", one contract per implementing
// type: the method's own contract must imply the interface's.
func (v *Verifier) imposeAll() {
	v.imposedOn = map[string][]string{}
	for _, k := range append([]string{}, v.order...) {
		ct := v.contracts[k]
		if !ct.iface || !ct.imposed {
			continue
		}
		i := strings.LastIndex(k, ".")
		it := v.resolveType(k[:i])
		iface, ok := it.Underlying().(*types.Interface)
		if !ok {
			panic(specErr("not an interface: " + k))
		}
		var m *types.Func
		for j := 0; j < iface.NumMethods(); j++ {
			if iface.Method(j).Name() == k[i+1:] {
				m = iface.Method(j)
			}
		}
		if m == nil {
			panic(specErr("no such interface method: " + k))
		}
		for _, t := range implementers(it) {
			fn, _, _ := v.methodTarget(t, m)
			if fn == nil {
				continue
			}
			c := *ct
			c.iface, c.imposed, c.impose, c.imposeMethod, c.imposeIface = false, false, t, m, it
			c.key = k + "@" + tstr(t)
			v.contracts[c.key], v.fns[c.key] = &c, fn
			v.order = append(v.order, c.key)
			v.imposedOn[k] = append(v.imposedOn[k], c.key)
		}
	}
}

func (x *Exec) lowerBound(t types.Type, v *Term) {}

func (x *Exec) emitAxioms() {
	// all axioms are emitted lazily at solve time when their function symbols occur
}

func (v *Verifier) axiomTerms() []axTerm {
	var out []axTerm
	x := &Exec{V: v, factSeen: map[string]bool{}, nameCount: map[string]int{}}
	x.alloc0 = Sym("alloc0", SInt)
	st := &State{m: map[string]*Term{}, alloc: x.alloc0}
	for _, a := range v.axioms {
		e := &Env{x: x, vars: map[string]SVal{}, st: st, old: st}
		t := e.Bool(a.e)
		syms := map[string]bool{}
		collectUFns(t, v, syms, map[*Term]bool{})
		out = append(out, axTerm{t, syms, a})
	}
	return out
}

type axTerm struct {
	t    *Term
	syms map[string]bool
	a    *Axiom
}

func collectUFns(t *Term, v *Verifier, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if _, ok := v.ufns[t.op]; ok || strings.HasPrefix(t.op, "impl_") {
		out[t.op] = true
	}
	for _, a := range t.args {
		collectUFns(a, v, out, seen)
	}
}

func (v *Verifier) sameSCC(a, b string) bool {
	if v.scc == nil {
		v.computeSCC()
	}
	x, ok1 := v.scc[a]
	y, ok2 := v.scc[b]
	return ok1 && ok2 && x == y && x >= 0
}

// computeSCC: call graph SCCs over repository functions (static and interface calls);
// singletons without a self-loop get -1.
func (v *Verifier) computeSCC() {
	v.scc = map[string]int{}
	succ := map[string][]string{}
	for k, fn := range v.fns {
		seen := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if c.IsInvoke() {
					for _, t := range implementers(c.Value.Type()) {
						if f, _, _ := v.methodTarget(t, c.Method); f != nil {
							if f.Synthetic != "" {
								obj, _, _ := types.LookupFieldOrMethod(t, true, c.Method.Pkg(), c.Method.Name())
								if tf, ok := obj.(*types.Func); ok {
									if g := v.prog.FuncValue(tf); g != nil {
										f = g
									}
								}
							}
							seen[funcKey(f)] = true
						}
					}
				} else if f := c.StaticCallee(); f != nil {
					seen[funcKey(f)] = true
				}
			}
		}
		for s := range seen {
			if _, ok := v.fns[s]; ok {
				succ[k] = append(succ[k], s)
			}
		}
	}
	idx := map[string]int{}
	low := map[string]int{}
	on := map[string]bool{}
	var stack []string
	n, comp := 0, 0
	var strong func(k string)
	strong = func(k string) {
		n++
		idx[k], low[k] = n, n
		stack = append(stack, k)
		on[k] = true
		for _, s := range succ[k] {
			if idx[s] == 0 {
				strong(s)
				low[k] = min(low[k], low[s])
			} else if on[s] {
				low[k] = min(low[k], idx[s])
			}
		}
		if low[k] == idx[k] {
			var mem []string
			for {
				s := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[s] = false
				mem = append(mem, s)
				if s == k {
					break
				}
			}
			id := -1
			if len(mem) > 1 {
				comp++
				id = comp
			} else {
				for _, s := range succ[k] {
					if s == k {
						comp++
						id = comp
					}
				}
			}
			for _, m := range mem {
				v.scc[m] = id
			}
		}
	}
	for _, k := range sortedKeys(v.fns) {
		if idx[k] == 0 {
			strong(k)
		}
	}
}

func isRepo(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/use-go/gosips")
}
