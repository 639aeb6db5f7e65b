package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// makeCands generates candidate invariants and measures for a loop.
func (x *Exec) makeCands(fr *frame, al *activeLoop, ws *writeSet, est *State, ereach *Term) {
	head := al.nl.head
	add := func(text string, ev func(v *LoopView) *Term) {
		x.ncand++
		c := &Cand{id: x.ncand, text: text, loop: al.info}
		al.info.cands = append(al.info.cands, c)
		al.cands = append(al.cands, &candInst{c: c, eval: ev})
	}
	addM := func(text string, ev func(v *LoopView) []*Term) {
		x.ncand++
		c := &Cand{id: x.ncand, text: text, measure: true, loop: al.info}
		al.info.measures = append(al.info.measures, c)
		al.cands = append(al.cands, &candInst{c: c, meas: ev})
	}
	var phis []*ssa.Phi
	for _, in := range head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entryPhi := al.entryView.phis
	// loop-invariant integer terms the loop compares against
	type bnd struct {
		name string
		t    func(v *LoopView) *Term
	}
	var bounds []bnd
	seenB := map[string]bool{}
	addBound := func(name string, f func(v *LoopView) *Term) {
		if !seenB[name] {
			seenB[name] = true
			bounds = append(bounds, bnd{name, f})
		}
	}
	for _, b := range fr.rpo {
		if !al.nl.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			if !isInteger(bo.X.Type()) {
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if f := x.invariantExpr(fr, al, o, est); f != nil {
					addBound(o.Name()+":"+o.String(), f)
				}
			}
		}
	}
	// lengths of strings / slices in scope
	for _, v := range fr.fn.Params {
		ts := fr.vals[v]
		if len(bounds) > 10 {
			break
		}
		var vv ssa.Value = v
		in, isInstr := vv.(ssa.Instruction)
		if isInstr && (in.Block() == nil || al.nl.body[in.Block()] || !in.Block().Dominates(head)) {
			continue
		}
		if isString(v.Type()) && len(ts) == 1 {
			t := SLen(ts[0])
			addBound("len "+v.Name(), func(*LoopView) *Term { return t })
		}
	}
	var intPhis []*ssa.Phi
	for _, p := range phis {
		p := p
		switch {
		case isInteger(p.Type()):
			intPhis = append(intPhis, p)
			e0 := entryPhi[p][0]
			add(phiName(p)+" >= entry", func(v *LoopView) *Term { return Ge(v.phis[p][0], e0) })
			add(phiName(p)+" <= entry", func(v *LoopView) *Term { return Le(v.phis[p][0], e0) })
			if !(e0.isInt() && e0.num.Sign() == 0) {
				add(phiName(p)+" >= 0", func(v *LoopView) *Term { return Ge(v.phis[p][0], Int(0)) })
			}
			add(phiName(p)+" >= -1", func(v *LoopView) *Term { return Ge(v.phis[p][0], Int(-1)) })
			for _, b := range bounds {
				b := b
				add(phiName(p)+" <= "+b.name, func(v *LoopView) *Term { return Le(v.phis[p][0], b.t(v)) })
				add(phiName(p)+" < "+b.name, func(v *LoopView) *Term { return Lt(v.phis[p][0], b.t(v)) })
				addM(b.name+" - "+phiName(p), func(v *LoopView) []*Term { return []*Term{Sub(b.t(v), v.phis[p][0])} })
			}
			addM(phiName(p), func(v *LoopView) []*Term { return []*Term{v.phis[p][0]} })
		case isPtr(p.Type()):
			add(phiName(p)+" != nil", func(v *LoopView) *Term { return Not(Eq(v.phis[p][0], Int(0))) })
			if tstr(p.Type()) == "*list.Element" {
				x.listCands(p, al, add, addM)
			}
		case isIface(p.Type()):
			add(phiName(p)+" != nil", func(v *LoopView) *Term { return Not(Eq(v.phis[p][0], Int(0))) })
			add(phiName(p)+" == nil", func(v *LoopView) *Term { return Eq(v.phis[p][0], Int(0)) })
		}
	}
	for i, p := range intPhis {
		for _, q := range intPhis[i+1:] {
			p, q := p, q
			d := Sub(entryPhi[p][0], entryPhi[q][0])
			add(phiName(p)+" - "+phiName(q)+" const", func(v *LoopView) *Term { return Eq(Sub(v.phis[p][0], v.phis[q][0]), d) })
			add(phiName(p)+" <= "+phiName(q), func(v *LoopView) *Term { return Le(v.phis[p][0], v.phis[q][0]) })
			add(phiName(q)+" <= "+phiName(p), func(v *LoopView) *Term { return Le(v.phis[q][0], v.phis[p][0]) })
			addM(phiName(q)+"-"+phiName(p), func(v *LoopView) []*Term { return []*Term{Sub(v.phis[q][0], v.phis[p][0])} })
			addM(phiName(p)+"-"+phiName(q), func(v *LoopView) []*Term { return []*Term{Sub(v.phis[p][0], v.phis[q][0])} })
		}
	}
	// unchanged cells of wholly havocked maps at the function's modifiable refs
	for _, m := range sortedKeys(ws.all) {
		m := m
		srt := mapSort[m]
		if k, _ := splitArrSafe(srt); k != SInt {
			continue
		}
		for _, r := range x.modAllow[m] {
			r := r
			ent := Select(est.get(m, srt), r)
			add("unchanged "+m, func(v *LoopView) *Term { return Eq(Select(v.st.get(m, srt), r), ent) })
		}
	}
	// cells havocked at known refs: integer-valued cells get bound templates
	for _, m := range sortedKeys(ws.refs) {
		if ws.all[m] || x.paths {
			continue
		}
		m := m
		srt := mapSort[m]
		_, vs := splitArrSafe(srt)
		for _, r := range ws.refs[m] {
			r := r
			ent := Select(est.get(m, srt), r)
			if vs == SInt {
				add(m+" >= entry", func(v *LoopView) *Term { return Ge(Select(v.st.get(m, srt), r), ent) })
			}
			add(m+" unchanged", func(v *LoopView) *Term { return Eq(Select(v.st.get(m, srt), r), ent) })
		}
	}
	// contract pools
	pools := []struct {
		c *Contract
		e *Env
	}{}
	if x.rootC != nil && x.rootEnv != nil {
		pools = append(pools, struct {
			c *Contract
			e *Env
		}{x.rootC, x.rootEnv})
	}
	if fr.c != nil && fr.env != nil && fr.c != x.rootC {
		pools = append(pools, struct {
			c *Contract
			e *Env
		}{fr.c, fr.env})
	}
	for _, pl := range pools {
		for _, c := range pl.c.invs {
			c := c
			for _, b := range x.metaBindings(fr, al, c.metas) {
				b := b
				e0 := pl.e
				add(c.src+b.text, func(v *LoopView) *Term {
					return x.poolEnv(e0, al, v, b).Bool(c.e)
				})
				al.info.cands[len(al.info.cands)-1].user = true
			}
		}
		for _, c := range pl.c.loopdec {
			c := c
			for _, b := range x.metaBindings(fr, al, c.metas) {
				b := b
				e0 := pl.e
				addM(c.src+b.text, func(v *LoopView) []*Term {
					var out []*Term
					for _, n := range c.es {
						out = append(out, x.poolEnv(e0, al, v, b).Int(n))
					}
					return out
				})
			}
		}
	}
	x.V.lexerMeasures(x, fr, al, ws, add, addM)
}

func splitArrSafe(s string) (string, string) {
	if len(s) < 7 || s[:7] != "(Array " {
		return "", s
	}
	return splitArr(s)
}

type metaBinding struct {
	text string
	vals map[string]func(v *LoopView) SVal
}

func (x *Exec) poolEnv(e0 *Env, al *activeLoop, v *LoopView, b metaBinding) *Env {
	ne := *e0
	ne.vars = map[string]SVal{}
	for k, val := range e0.vars {
		ne.vars[k] = val
	}
	ne.entPhis = map[string]SVal{}
	for k, f := range b.vals {
		ne.vars[k] = f(v)
		ne.entPhis[k] = f(al.entryView)
	}
	ne.st = v.st
	ne.ent = al.entryView.st
	ne.reach = nil
	return &ne
}

// metaBindings enumerates instantiations of metavariables by phis of the loop head and
// values defined before the loop.
func (x *Exec) metaBindings(fr *frame, al *activeLoop, metas []qvar) []metaBinding {
	out := []metaBinding{{"", map[string]func(v *LoopView) SVal{}}}
	for _, m := range metas {
		var t types.Type
		outer := false
		tn := m.typ
		if len(tn) > 0 && tn[0] == '^' { // ^T: only values from before the loop
			outer = true
			tn = tn[1:]
		}
		t = x.V.resolveType(tn)
		type opt struct {
			name string
			f    func(v *LoopView) SVal
		}
		var opts []opt
		for _, in := range al.nl.head.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if types.Identical(p.Type(), t) && !outer {
				opts = append(opts, opt{phiName(p), func(v *LoopView) SVal { return SVal{ts: v.phis[p], typ: t} }})
			}
		}
		// enclosing values
		for _, b := range fr.fn.Blocks {
			if al.nl.body[b] || !b.Dominates(al.nl.head) {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Type() == nil || !types.Identical(v.Type(), t) {
					continue
				}
				ts, ok := fr.vals[v]
				if !ok {
					continue
				}
				if _, isPhi := v.(*ssa.Phi); !isPhi && isInteger(t) && !outer {
					continue
				}
				opts = append(opts, opt{v.Name(), func(*LoopView) SVal { return SVal{ts: ts, typ: t} }})
			}
		}
		if !isInteger(t) {
			for _, p := range fr.fn.Params {
				if types.Identical(p.Type(), t) {
					ts := fr.vals[p]
					opts = append(opts, opt{p.Name(), func(*LoopView) SVal { return SVal{ts: ts, typ: t} }})
				}
			}
		}
		var no []metaBinding
		for _, o := range out {
			for _, p := range opts {
				nb := metaBinding{o.text + " [" + m.name + "=" + p.name + "]", map[string]func(v *LoopView) SVal{}}
				for k, f := range o.vals {
					nb.vals[k] = f
				}
				nb.vals[m.name] = p.f
				no = append(no, nb)
				if len(no) > 40 {
					break
				}
			}
		}
		out = no
	}
	return out
}

// invariantExpr: a closure evaluating an SSA integer operand at a loop view, when it is
// either defined outside the loop or a pure expression over such values and the state.
func (x *Exec) invariantExpr(fr *frame, al *activeLoop, v ssa.Value, est *State) func(*LoopView) *Term {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return nil
		}
		t := x.constVal(c)[0]
		return func(*LoopView) *Term { return t }
	}
	in, isInstr := v.(ssa.Instruction)
	if !isInstr || (in.Block() != nil && !al.nl.body[in.Block()]) {
		ts, ok := fr.vals[v]
		if !ok || len(ts) != 1 {
			return nil
		}
		t := ts[0]
		return func(*LoopView) *Term { return t }
	}
	switch i := v.(type) {
	case *ssa.Convert:
		if isInteger(i.X.Type()) && isInteger(i.Type()) {
			f := x.invariantExpr(fr, al, i.X, est)
			if f == nil {
				return nil
			}
			return f
		}
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := i.Call.Args[0]
			return x.lenExpr(fr, al, a)
		}
	case *ssa.BinOp:
		if i.Op == token.ADD || i.Op == token.SUB || i.Op == token.MUL {
			f, g := x.invariantExpr(fr, al, i.X, est), x.invariantExpr(fr, al, i.Y, est)
			if f == nil || g == nil {
				return nil
			}
			op := i.Op
			return func(v *LoopView) *Term {
				switch op {
				case token.ADD:
					return Add(f(v), g(v))
				case token.SUB:
					return Sub(f(v), g(v))
				}
				return Mul(f(v), g(v))
			}
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if fa, ok := i.X.(*ssa.FieldAddr); ok {
				return x.fieldExpr(fr, al, fa, func(a *Addr, v *LoopView) *Term { return x.load(a, v.st)[0] })
			}
		}
	}
	return nil
}

func (x *Exec) fieldExpr(fr *frame, al *activeLoop, fa *ssa.FieldAddr, get func(a *Addr, v *LoopView) *Term) func(*LoopView) *Term {
	base := fa.X
	in, isInstr := base.(ssa.Instruction)
	if isInstr && in.Block() != nil && al.nl.body[in.Block()] {
		if f2, ok := base.(*ssa.FieldAddr); ok {
			_ = f2
		}
		return nil
	}
	ts, ok := fr.vals[base]
	var ref *Term
	if ok {
		ref = ts[0]
	} else if a, ok := fr.addrs[base]; ok && a.kind == "obj" {
		ref = a.ref
	} else {
		return nil
	}
	T := deref(base.Type())
	idx := fa.Field
	return func(v *LoopView) *Term {
		return get(x.fieldAddr(T, idx, ref), v)
	}
}

func (x *Exec) lenExpr(fr *frame, al *activeLoop, a ssa.Value) func(*LoopView) *Term {
	in, isInstr := a.(ssa.Instruction)
	mapT, isMap := a.Type().Underlying().(*types.Map)
	ln := func(ts []*Term, st *State) *Term {
		if isMap {
			n := Select(st.get("M:"+tstr(mapT)+"#n", ArrSort(SInt, SInt)), ts[0])
			return Ite(Eq(ts[0], Int(0)), Int(0), n)
		}
		if len(ts) == 1 && ts[0].sort == SStr {
			return SLen(ts[0])
		}
		if len(ts) == 4 {
			return ts[2]
		}
		return nil
	}
	if !isInstr || (in.Block() != nil && !al.nl.body[in.Block()]) {
		ts, ok := fr.vals[a]
		if !ok {
			return nil
		}
		if !isMap && !(len(ts) == 1 && ts[0].sort == SStr) && len(ts) != 4 {
			return nil
		}
		return func(v *LoopView) *Term { return ln(ts, v.st) }
	}
	if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			n := len(leavesOf(u.Type()))
			if n != 1 && n != 4 {
				return nil
			}
			return x.fieldExpr(fr, al, fa, func(a *Addr, v *LoopView) *Term { return ln(x.load(a, v.st), v.st) })
		}
	}
	return nil
}

// list.Element cursors
func (x *Exec) listCands(p *ssa.Phi, al *activeLoop, add func(string, func(*LoopView) *Term), addM func(string, func(*LoopView) []*Term)) {
	srt := ArrSort(SInt, SInt)
	owner := func(st *State, e *Term) *Term { return Select(st.get("list.Element.owner", srt), e) }
	idx := func(st *State, l, e *Term) *Term {
		return Select(Select(st.get("list.List.idx", ArrSort(SInt, srt)), l), e)
	}
	n := func(st *State, l *Term) *Term { return Select(st.get("list.List.n", srt), l) }
	at := func(st *State, l, i *Term) *Term {
		return Select(Select(st.get("list.List.at", ArrSort(SInt, srt)), l), i)
	}
	e0 := al.entryView.phis[p][0]
	est := al.entryView.st
	own0 := owner(est, e0)
	add(phiName(p)+" stays in its list", func(v *LoopView) *Term {
		e := v.phis[p][0]
		k := idx(v.st, own0, e)
		return Or(Eq(e, Int(0)), And(Not(Eq(e0, Int(0))), Eq(owner(v.st, e), own0), Le(Int(0), k), Lt(k, n(v.st, own0)), Eq(at(v.st, own0, k), e)))
	})
	addM("list rest", func(v *LoopView) []*Term {
		e := v.phis[p][0]
		return []*Term{Ite(Eq(e, Int(0)), Int(0), Sub(n(v.st, own0), idx(v.st, own0, e)))}
	})
	addM("list start", func(v *LoopView) []*Term {
		e := v.phis[p][0]
		return []*Term{Ite(Eq(e, Int(0)), Int(0), Add(idx(v.st, own0, e), Int(1)))}
	})
}

// read positions advanced by the loop: they stay inside the text and are a progress measure.
func (v *Verifier) lexerMeasures(x *Exec, fr *frame, al *activeLoop, ws *writeSet, add func(string, func(*LoopView) *Term), addM func(string, func(*LoopView) []*Term)) {
	const pm, bm = "core.StringTokenizer.ptr", "core.StringTokenizer.buffer"
	srt, bs := ArrSort(SInt, SInt), ArrSort(SInt, SStr)
	refs := ws.refs[pm]
	if ws.all[pm] {
		refs = x.modAllow[pm]
	}
	for _, r := range refs {
		r := r
		n := func(v *LoopView) *Term { return SLen(Select(v.st.get(bm, bs), r)) }
		ptr := func(v *LoopView) *Term { return Select(v.st.get(pm, srt), r) }
		ent := Select(al.entryView.st.get(pm, srt), r)
		if ws.all[pm] {
			add("read position >= entry", func(v *LoopView) *Term { return Ge(ptr(v), ent) })
		}
		add("read position in the text", func(v *LoopView) *Term { return And(Le(Int(0), ptr(v)), Le(ptr(v), n(v))) })
		addM("unread text", func(v *LoopView) []*Term { return []*Term{Sub(n(v), ptr(v))} })
		// inside another loop: progress was made in the round of the outer loop, unless this is the
		// first arrival at the head (state as on entry)
		for i, o := range fr.activeLoops {
			if o == al || o.headView == nil {
				continue
			}
			oh := Select(o.headView.st.get(pm, srt), r)
			add(fmt.Sprintf("read on in round of outer loop %d", i), func(v *LoopView) *Term { return Gt(ptr(v), oh) })
			add(fmt.Sprintf("read on in round of outer loop %d or nothing read yet", i), func(v *LoopView) *Term {
				same := Eq(ptr(v), ent)
				for p, ts := range al.entryView.phis {
					for k := range ts {
						if k < len(v.phis[p]) {
							same = And(same, Eq(v.phis[p][k], ts[k]))
						}
					}
				}
				return Or(Gt(ptr(v), oh), same)
			})
		}
	}
}
