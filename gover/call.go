package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *frame, i *ssa.Call, st *State, reach *Term) *Term {
	var args [][]*Term
	if b, ok := i.Call.Value.(*ssa.Builtin); ok && !i.Call.IsInvoke() {
		for _, a := range i.Call.Args {
			args = append(args, x.val(fr, a, st))
		}
		x.builtin(fr, i, b.Name(), args, st, reach)
		return reach
	}
	for _, a := range i.Call.Args {
		args = append(args, x.val(fr, a, st))
	}
	var tag, val *Term
	if i.Call.IsInvoke() {
		r := x.val(fr, i.Call.Value, st)
		tag, val = r[0], r[1]
	}
	res, st2, r2 := x.doCall(fr, &i.Call, args, tag, val, st, reach, i)
	*st = *st2
	fr.vals[i] = res
	return r2
}

func (x *Exec) builtin(fr *frame, i *ssa.Call, name string, args [][]*Term, st *State, reach *Term) {
	switch name {
	case "len":
		t := i.Call.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			fr.vals[i] = []*Term{SLen(args[0][0])}
		case *types.Slice:
			fr.vals[i] = []*Term{args[0][2]}
		case *types.Map:
			n := Select(st.get("M:"+tstr(u)+"#n", ArrSort(SInt, SInt)), args[0][0])
			fr.vals[i] = []*Term{Ite(Eq(args[0][0], Int(0)), Int(0), n)}
		case *types.Array:
			fr.vals[i] = []*Term{Int(u.Len())}
		case *types.Pointer:
			fr.vals[i] = []*Term{Int(u.Elem().Underlying().(*types.Array).Len())}
		default:
			panic(unsupErr("len of " + t.String()))
		}
	case "cap":
		fr.vals[i] = []*Term{args[0][3]}
	case "copy":
		dst := args[0]
		var n *Term
		el := i.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
		if isStruct(el) {
			panic(unsupErr("copy of struct slice"))
		}
		src := args[1]
		srcStr := isString(i.Call.Args[1].Type())
		if srcStr {
			n = SLen(src[0])
		} else {
			n = src[2]
		}
		n = Ite(Le(n, dst[2]), n, dst[2])
		for _, l := range leavesOf(el) {
			nm := elemMap(el) + l.path
			as := ArrSort(SInt, l.sort)
			srt := ArrSort(SInt, as)
			cur := Select(st.get(nm, srt), dst[0])
			arr := Fresh("copy", as)
			k := BoundVar("k", SInt)
			sel := Select(arr, k)
			var sv *Term
			if srcStr {
				sv = SAt(src[0], Sub(k, dst[1]))
			} else {
				sv = Select(Select(st.get(nm, srt), src[0]), Add(src[1], Sub(k, dst[1])))
			}
			x.assumeAt(reach, Forall([]*Term{k}, [][]*Term{{sel}}, Eq(sel, Ite(And(Le(dst[1], k), Lt(k, Add(dst[1], n))), sv, Select(cur, k)))))
			x.wr(nm, srt, dst[0], Ite(Lt(Int(0), n), arr, cur), st, reach, fr, i.Pos(), false)
		}
		fr.vals[i] = []*Term{n}
	case "delete":
		mt := i.Call.Args[0].Type().Underlying().(*types.Map)
		// delete on a nil map is a no-op
		s2 := st.clone()
		x.mapDelete(fr, mt, args[0][0], args[1], s2, And(reach, Not(Eq(args[0][0], Int(0)))), i.Pos())
		m := x.stateMerge([]*Term{Not(Eq(args[0][0], Int(0))), Eq(args[0][0], Int(0))}, []*State{s2, st.clone()})
		*st = *m
		fr.vals[i] = nil
	case "println", "print":
		fr.vals[i] = nil
	case "append":
		sl := i.Call.Args[0].Type().Underlying().(*types.Slice)
		el := sl.Elem()
		if isStruct(el) {
			panic(unsupErr("append of struct elements"))
		}
		d, s := args[0], args[1]
		srcStr := isString(i.Call.Args[1].Type())
		var n *Term
		if srcStr {
			n = SLen(s[0])
		} else {
			n = s[2]
		}
		nl := Add(d[2], n)
		// slices and strings of more than 2^40 elements are taken to exhaust memory
		x.oblig(reach, Le(nl, IntB(Pow2(46))), "overflow", "append length", fr, i.Pos())
		x.assume(Imp(reach, Le(nl, IntB(Pow2(40)))))
		// abstracted as always reallocating when growing; in place only if capacity suffices: both
		// possibilities are covered by a fresh base or the old one (nondeterministic choice).
		nr := x.newRef(st, "append")
		inplace := Fresh("inplace", SBool)
		x.assume(Imp(inplace, And(Le(nl, d[3]), Not(Eq(d[0], Int(0))))))
		base := Ite(inplace, d[0], nr)
		off := Ite(inplace, d[1], Int(0))
		for _, l := range leavesOf(el) {
			nm := elemMap(el) + l.path
			as := ArrSort(SInt, l.sort)
			srt := ArrSort(SInt, as)
			cur := Select(st.get(nm, srt), d[0])
			arr := Fresh("app", as)
			k := BoundVar("k", SInt)
			sel := Select(arr, k)
			var sv *Term
			if srcStr {
				sv = SAt(s[0], Sub(k, Add(off, d[2])))
			} else {
				sv = Select(Select(st.get(nm, srt), s[0]), Add(s[1], Sub(k, Add(off, d[2]))))
			}
			in1 := And(Le(off, k), Lt(k, Add(off, d[2])))
			in2 := And(Le(Add(off, d[2]), k), Lt(k, Add(off, nl)))
			x.assumeAt(reach, Forall([]*Term{k}, [][]*Term{{sel}}, And(
				Imp(in1, Eq(sel, Select(cur, Add(d[1], Sub(k, off))))), Imp(in2, Eq(sel, sv)),
				Imp(And(inplace, Not(in1), Not(in2)), Eq(sel, Select(cur, k))))))
			x.wr(nm, srt, nr, arr, st, reach, fr, i.Pos(), true)
			x.wr(nm, srt, d[0], Ite(inplace, arr, cur), st, And(reach, inplace), fr, i.Pos(), false)
		}
		c := Fresh("cap", SInt)
		x.assume(And(Ge(c, nl), Le(c, IntB(Pow2(40))), Imp(inplace, Eq(c, d[3]))))
		fr.vals[i] = []*Term{base, off, nl, c}
	default:
		panic(unsupErr("builtin " + name))
	}
}

// target resolution for interface calls ---------------------------------

type target struct {
	fn   *ssa.Function
	typs []types.Type
	path []hop
	key  string
}

// hop: one embedded struct (not the first field) on the way to the receiver of a promoted method
type hop struct {
	T types.Type
	i int
}

func (v *Verifier) methodTarget(T types.Type, m *types.Func) (*ssa.Function, bool, []hop) {
	obj, path, _ := types.LookupFieldOrMethod(T, true, m.Pkg(), m.Name())
	f, ok := obj.(*types.Func)
	if !ok {
		return nil, false, nil
	}
	var hops []hop
	// identity path: every hop embeds at field 0 by value
	cur := T
	if p := deref(cur); p != nil {
		cur = p
	} else {
		return v.prog.MethodValue(v.msel(T, m)), false, nil
	}
	for _, i := range path[:len(path)-1] {
		st, ok := cur.Underlying().(*types.Struct)
		if !ok || isPtr(st.Field(i).Type()) || isIface(st.Field(i).Type()) {
			return v.prog.MethodValue(v.msel(T, m)), false, nil
		}
		if i != 0 {
			hops = append(hops, hop{cur, i})
		}
		cur = st.Field(i).Type()
	}
	fn := v.prog.FuncValue(f)
	if fn == nil {
		return v.prog.MethodValue(v.msel(T, m)), false, nil
	}
	if fn.Signature.Recv() != nil && !isPtr(fn.Signature.Recv().Type()) {
		return v.prog.MethodValue(v.msel(T, m)), false, nil
	}
	return fn, true, hops
}

func (v *Verifier) msel(T types.Type, m *types.Func) *types.Selection {
	ms := v.prog.MethodSets.MethodSet(T)
	return ms.Lookup(m.Pkg(), m.Name())
}

func (x *Exec) doCall(fr *frame, c *ssa.CallCommon, args [][]*Term, tag, val *Term, st *State, reach *Term, in ssa.Instruction) ([]*Term, *State, *Term) {
	if c.IsInvoke() {
		return x.invoke(fr, c, args, tag, val, st, reach, in)
	}
	fn := c.StaticCallee()
	if fn == nil {
		panic(unsupErr("call through function value"))
	}
	return x.callFn(fr, fn, args, st, reach, in.Pos())
}

func (x *Exec) invoke(fr *frame, c *ssa.CallCommon, args [][]*Term, tag, val *Term, st *State, reach *Term, in ssa.Instruction) ([]*Term, *State, *Term) {
	it := c.Value.Type()
	x.oblig(reach, Not(Eq(tag, Int(0))), "nil", "method call on nil interface", fr, in.Pos())
	key := tstr(it) + "." + c.Method.Name()
	if ct := x.V.contracts[key]; ct != nil && ct.iface && !tag.isInt() {
		x.called[key] = true
		return x.applyContract(fr, ct, c.Signature(), append([][]*Term{{tag, val}}, args...), it, st, reach, in.Pos(), key)
	}
	if isErrorType(it) {
		r := App("errstr", SStr, tag, val)
		return []*Term{r}, st, reach
	}
	var tgts []*target
	add := func(fn *ssa.Function, t types.Type, path []hop) {
		k := ""
		for _, h := range path {
			k += fmt.Sprintf("%s.%d ", tstr(h.T), h.i)
		}
		for _, g := range tgts {
			if g.fn == fn && g.key == k {
				g.typs = append(g.typs, t)
				return
			}
		}
		tgts = append(tgts, &target{fn, []types.Type{t}, path, k})
	}
	for _, t := range implementers(it) {
		if tag.isInt() && tag.num.Int64() != int64(typeID(t)) {
			continue
		}
		fn, same, path := x.V.methodTarget(t, c.Method)
		if fn == nil {
			panic(unsupErr("no method " + c.Method.Name() + " on " + t.String()))
		}
		if !same {
			// distinct wrapper per type
			tgts = append(tgts, &target{fn: fn, typs: []types.Type{t}})
			continue
		}
		add(fn, t, path)
	}
	if len(tgts) == 0 {
		panic(unsupErr("no implementation for " + key))
	}
	if len(tgts) > 12 {
		panic(unsupErr(fmt.Sprintf("dynamic call %s with %d targets needs an interface contract", key, len(tgts))))
	}
	var conds []*Term
	var sts []*State
	var ress [][]*Term
	for _, g := range tgts {
		var alts []*Term
		for _, t := range g.typs {
			alts = append(alts, Eq(tag, Int(int64(typeID(t)))))
		}
		cond := Or(alts...)
		if len(tgts) == 1 {
			cond = True
		}
		r := And(reach, cond)
		if r == False {
			continue
		}
		recv := []*Term{val}
		for _, h := range g.path {
			recv = []*Term{x.fieldAddr(h.T, h.i, recv[0]).ref}
		}
		if rc := g.fn.Signature.Recv(); rc != nil && !isPtr(rc.Type()) && !isPtr(g.typs[0]) {
			recv = x.unbox(g.typs[0], val)
		}
		s2 := st.clone()
		if len(tgts) == 1 {
			s2 = st
		}
		res, s3, r3 := x.callFn(fr, g.fn, append([][]*Term{recv}, args...), s2, r, in.Pos())
		conds = append(conds, r3)
		sts = append(sts, s3)
		ress = append(ress, res)
	}
	if len(conds) == 1 {
		return ress[0], sts[0], conds[0]
	}
	if len(conds) == 0 {
		return nil, st, False
	}
	ch := choiceConds(conds)
	out := x.stateMerge(ch, sts)
	var res []*Term
	for k := range ress[0] {
		vs := make([]*Term, len(ress))
		for j := range ress {
			vs[j] = ress[j][k]
		}
		res = append(res, x.mergeTerm(ch, vs))
	}
	rr := orReach(conds)
	// the tag is one of the known implementations
	if !tag.isInt() {
		x.assume(Imp(And(reach, Not(Eq(tag, Int(0)))), Or(func() []*Term {
			var a []*Term
			for _, t := range implementers(it) {
				a = append(a, Eq(tag, Int(int64(typeID(t)))))
			}
			return a
		}()...)))
	}
	return res, out, rr
}

const maxDepth = 14

func (x *Exec) callFn(fr *frame, fn *ssa.Function, args [][]*Term, st *State, reach *Term, pos token.Pos) ([]*Term, *State, *Term) {
	key := funcKey(fn)
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return x.inline(fr, fn, args, st, reach)
	}
	if r, ok := foldStd(key, args); ok {
		return r, st, reach
	}
	if ct := x.V.contracts[key]; ct != nil && !ct.inline && !ct.bare && !ct.iface && x.V.usable(ct, fn) {
		x.called[key] = true
		x.V.fnOf[key] = fn
		return x.applyContract(fr, ct, fn.Signature, args, nil, st, reach, pos, key)
	}
	if r, ok := x.special(fr, fn, key, args, st, reach, pos); ok {
		return r, st, reach
	}
	if len(fn.Blocks) == 0 {
		panic(unsupErr("external function without contract: " + key))
	}
	for _, f := range x.stack {
		if f == fn {
			panic(unsupErr("recursive function without contract: " + key))
		}
	}
	if len(x.stack) > maxDepth {
		panic(unsupErr("inlining too deep at " + key))
	}
	return x.inline(fr, fn, args, st, reach)
}

func (x *Exec) inline(fr *frame, fn *ssa.Function, args [][]*Term, st *State, reach *Term) ([]*Term, *State, *Term) {
	x.inlined[funcKey(fn)] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	nf := x.newFrame(fn, fr.depth+1)
	for i, p := range fn.Params {
		nf.vals[p] = args[i]
	}
	if ct := x.V.contracts[funcKey(fn)]; ct != nil {
		nf.c = ct
		nf.env = x.envFor(ct, fn.Signature, args, nil, st)
	}
	x.run(nf, st, reach)
	return x.finish(nf, st)
}

func (x *Exec) finish(nf *frame, st *State) ([]*Term, *State, *Term) {
	var conds []*Term
	var sts []*State
	for _, r := range nf.rets {
		if r.cond == False {
			continue
		}
		conds = append(conds, r.cond)
		sts = append(sts, r.st)
	}
	res := nf.fn.Signature.Results()
	n := len(leavesOf(res))
	if len(conds) == 0 {
		// never returns
		return zeroOf(res)[:n], st, False
	}
	ch := choiceConds(conds)
	out := x.stateMerge(ch, sts)
	var vals []*Term
	for k := 0; k < n; k++ {
		var vs []*Term
		for _, r := range nf.rets {
			if r.cond == False {
				continue
			}
			vs = append(vs, r.vals[k])
		}
		vals = append(vals, x.mergeTerm(ch, vs))
	}
	return vals, out, orReach(conds)
}

// ---------------------------------------------------------------- contracts at call sites

func (x *Exec) envFor(ct *Contract, sig *types.Signature, args [][]*Term, recvT types.Type, st *State) *Env {
	e := &Env{x: x, vars: map[string]SVal{}, st: st, old: st}
	var ptypes []types.Type
	if recvT != nil {
		ptypes = append(ptypes, recvT)
	} else if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	for i, n := range ct.params {
		if i < len(args) && n != "_" {
			e.vars[n] = SVal{ts: args[i], typ: ptypes[i]}
		}
	}
	return e
}

func (x *Exec) bindLets(e *Env, ct *Contract) {
	for _, l := range ct.lets {
		e.vars[l.label] = e.rval(e.eval(l.e))
	}
}

func (x *Exec) bindResults(e *Env, ct *Contract, sig *types.Signature, vals []*Term) {
	o := 0
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		n := len(leavesOf(t))
		v := SVal{ts: vals[o : o+n], typ: t}
		if i < len(ct.results) {
			e.vars[ct.results[i]] = v
		}
		e.vars[fmt.Sprintf("result%d", i)] = v
		if i == 0 {
			e.vars["result"] = v
		}
		o += n
	}
	for _, l := range ct.posts {
		e.vars[l.label] = e.rval(e.eval(l.e))
	}
}

// modLocs evaluates a modifies clause to (map, ref) pairs.
func (e *Env) modLocs(n *Node) []writeRec {
	x := e.x
	var out []writeRec
	leafs := func(m string, t types.Type, ref *Term, elem bool) {
		for _, l := range leavesOf(t) {
			s := ArrSort(SInt, l.sort)
			if elem {
				s = ArrSort(SInt, ArrSort(SInt, l.sort))
			}
			e.st.get(m+l.path, s)
			out = append(out, writeRec{m + l.path, ref})
		}
	}
	var objAll func(t types.Type, ref *Term)
	objAll = func(t types.Type, ref *Term) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			a := x.fieldAddr(t, i, ref)
			switch a.kind {
			case "obj":
				objAll(a.typ, a.ref)
			case "arr":
				el := a.typ.Underlying().(*types.Array).Elem()
				leafs(elemMap(el), el, a.ref, true)
			default:
				leafs(a.m, a.typ, a.ref, false)
			}
		}
		for _, g := range x.V.ghosts[tstr(t)] {
			m := tstr(t) + "." + g.name
			e.st.get(m, ArrSort(SInt, g.sort))
			out = append(out, writeRec{m, ref})
		}
	}
	if n.op == "call" && n.k[0].op == "id" {
		switch n.k[0].s {
		case "elems":
			v := e.rval(e.eval(n.k[1]))
			el := v.typ.Underlying().(*types.Slice).Elem()
			leafs(elemMap(el), el, v.ts[0], true)
			return out
		case "all": // all(x) every field of the object x points to
			v := e.eval(n.k[1])
			if v.addr != nil && v.addr.kind == "obj" {
				objAll(v.addr.typ, v.addr.ref)
			} else {
				objAll(deref(v.typ), v.ts[0])
			}
			return out
		case "every": // every(T.f): the field in every object
			s := n.k[1]
			T := x.V.resolveType(s.k[0].k[0].s + "." + s.k[0].s)
			path, gOwner, g := x.V.findField(T, s.s)
			if g != nil {
				m := tstr(gOwner) + "." + g.name
				e.st.get(m, ArrSort(SInt, g.sort))
				return append(out, writeRec{m, nil})
			}
			t := T
			for k, i := range path {
				f := t.Underlying().(*types.Struct).Field(i)
				if k == len(path)-1 {
					for _, l := range leavesOf(f.Type()) {
						m := tstr(t) + "." + f.Name() + l.path
						e.st.get(m, ArrSort(SInt, l.sort))
						out = append(out, writeRec{m, nil})
					}
				}
				t = f.Type()
			}
			return out
		case "mapof":
			v := e.rval(e.eval(n.k[1]))
			mt := v.typ.Underlying().(*types.Map)
			nm := "M:" + tstr(mt)
			ks := mapKeySort(mt)
			e.st.get(nm+"#dom", ArrSort(SInt, ArrSort(ks, SBool)))
			e.st.get(nm+"#n", ArrSort(SInt, SInt))
			out = append(out, writeRec{nm + "#dom", v.ts[0]}, writeRec{nm + "#n", v.ts[0]})
			for _, l := range leavesOf(mt.Elem()) {
				e.st.get(nm+"#val"+l.path, ArrSort(SInt, ArrSort(ks, l.sort)))
				out = append(out, writeRec{nm + "#val" + l.path, v.ts[0]})
			}
			return out
		}
	}
	if n.op == "tern" {
		// cond ? locs : nothing   -- conditional location: ref or 0
		c := e.Bool(n.k[0])
		for _, w := range e.modLocs(n.k[1]) {
			out = append(out, writeRec{w.m, Ite(c, w.ref, Int(0))})
		}
		return out
	}
	if n.op != "sel" {
		bad("modifies: unsupported location")
	}
	if n.k[0].op == "id" {
		if _, ok := e.lookup(n.k[0].s); !ok {
			// global
			v := e.globalVal(n.k[0].s, n.s)
			for _, l := range leavesOf(v.typ) {
				out = append(out, writeRec{"G:" + n.k[0].s + "." + n.s + l.path, nil})
			}
			return out
		}
	}
	b := e.eval(n.k[0])
	a, g, _ := e.fieldLoc(b, n.s)
	if g != nil {
		e.st.get(a.m, ArrSort(SInt, g.sort))
		return append(out, writeRec{a.m, a.ref})
	}
	if a == nil {
		bad("modifies: no location %s", n.s)
	}
	switch a.kind {
	case "obj":
		objAll(a.typ, a.ref)
	case "arr":
		el := a.typ.Underlying().(*types.Array).Elem()
		leafs(elemMap(el), el, a.ref, true)
	default:
		leafs(a.m, a.typ, a.ref, false)
	}
	return out
}

func (x *Exec) applyContract(fr *frame, ct *Contract, sig *types.Signature, args [][]*Term, recvT types.Type, st *State, reach *Term, pos token.Pos, key string) (res []*Term, out *State, r *Term) {
	defer func() {
		if p := recover(); p != nil {
			if se, ok := p.(specErr); ok {
				panic(unsupErr("contract of " + key + ": " + string(se)))
			}
			panic(p)
		}
	}()
	ct.used = true
	pre := st.clone()
	B.clock++
	start := B.clock
	e := x.envFor(ct, sig, args, recvT, pre)
	e.reach = reach
	x.bindLets(e, ct)
	nonnil := map[*Term]bool{}
	for k, c := range ct.requires {
		g := e.Bool(c.e)
		if g.op == "and" {
			for _, a := range g.args {
				nonnil[a] = true
			}
		}
		nonnil[g] = true
		l := c.label
		if l == "" {
			l = fmt.Sprintf("pre%d", k+1)
		}
		x.oblig(reach, g, "pre", key+"."+l, fr, pos)
	}
	// recursion measure
	if len(ct.decr) > 0 && x.rootC != nil && x.inRecursion(key) && len(x.rootC.decr) > 0 {
		r := False
		re := x.rootEnv.with(x.entry)
		for i := len(ct.decr) - 1; i >= 0; i-- {
			if i >= len(x.rootC.decr) {
				continue
			}
			h, b := re.Int(x.rootC.decr[i]), e.Int(ct.decr[i])
			r = Or(And(Ge(h, Int(0)), Lt(b, h)), And(Le(b, h), r))
		}
		x.oblig(reach, r, "termination", "recursive call of "+key+" decreases", fr, pos)
	} else if x.rootC != nil && x.inRecursion(key) {
		x.oblig(reach, False, "termination", "recursive call of "+key+" has no measure", fr, pos)
	}
	post := pre.clone()
	var everies []string // maps the callee may change anywhere: what it changed is checked after the call
	// havoc
	for _, m := range ct.modifies {
		for _, w := range e.modLocs(m) {
			srt := mapSort[w.m]
			// nothing is ever written through a nil pointer
			nz := True
			if w.ref != nil {
				base := w.ref
				for strings.HasPrefix(base.op, "sub.") && len(base.args) > 0 {
					base = base.args[0]
				}
				if base.isInt() && base == Int(0) {
					continue
				}
				if base.op == "select" || base.op == "ite" || base.op == "sym" {
					if nz = Not(Eq(base, Int(0))); nonnil[nz] {
						nz = True
					}
				}
			}
			x.logWrite(w.m, w.ref)
			cur := post.get(w.m, srt)
			if w.ref == nil && strings.HasPrefix(srt, "(Array Int") && !strings.HasPrefix(w.m, "G:") && !x.modAny && !x.modAll[w.m] && x.dry == 0 {
				everies = append(everies, w.m)
			} else {
				x.frameCheck(w.m, w.ref, And(reach, nz), fr, pos)
			}
			if w.ref == nil {
				nw := Fresh("K:"+w.m, srt)
				post.m[w.m] = nw
				if !strings.HasPrefix(w.m, "G:") {
					_ = cur
				} else {
					x.globalRange(w.m, nw)
				}
				continue
			}
			_, vs := splitArr(srt)
			post.m[w.m] = Store(cur, w.ref, Ite(nz, Fresh("K:"+w.m, vs), Select(cur, w.ref)))
		}
	}
	if ct.modAny {
		panic(unsupErr("call of a modifies-any contract"))
	}
	al := Fresh("alloc", SInt)
	x.assume(Ge(al, pre.alloc))
	post.alloc = al
	// results
	if len(ct.returns) > 0 {
		for i, rn := range ct.returns {
			v := e.rval(e.eval(rn))
			rt := sig.Results().At(i).Type()
			if v.isNil {
				v.ts = zeroOf(rt)
			}
			if v.typ != nil && isIface(rt) && !isIface(v.typ) {
				v.ts = x.makeIface(v.typ, v.ts)
			}
			res = append(res, v.ts...)
		}
		post.alloc = pre.alloc
	} else {
		for i := 0; i < sig.Results().Len(); i++ {
			nm := key
			if j := strings.LastIndex(nm, "."); j >= 0 {
				nm = nm[j+1:]
			}
			for _, l := range leavesOf(sig.Results().At(i).Type()) {
				res = append(res, Fresh(nm+l.path, l.sort))
			}
		}
	}
	pe := *e
	pe.vars = map[string]SVal{}
	for k, v := range e.vars {
		pe.vars[k] = v
	}
	pe.st = post
	pe.old = pre
	for _, w := range ct.watches {
		pe.vars[w.name] = sortVal(Fresh("watch."+w.name, w.sort))
	}
	x.bindResults(&pe, ct, sig, res)
	// fresh results: recognise unconditional freshness for cheap disjointness
	if len(ct.returns) == 0 {
		for _, c := range ct.ensures {
			x.markFresh(&pe, c.e, reach, start)
		}
		x.valid(sig.Results(), res, post, reach)
	}
	for _, c := range ct.ensures {
		x.assumeAt(reach, pe.Bool(c.e))
	}
	if x.rootC != nil {
		for _, w := range x.rootC.watches {
			if w.key == ct.key {
				post.get("W:"+w.name, w.sort)
				pre.get("W:"+w.name, w.sort)
				post.m["W:"+w.name] = pe.rval(pe.eval(w.e)).ts[0]
				x.logWrite("W:"+w.name, nil)
			}
		}
	}
	for _, m := range everies {
		o := BoundVar("o", SInt)
		nw := Select(post.get(m, mapSort[m]), o)
		g := []*Term{Gt(o, Int(0)), Gt(App("rt", SInt, o), Int(0)), Lt(App("rt", SInt, o), x.alloc0)}
		for _, r := range x.modAllow[m] {
			g = append(g, Not(Eq(o, r)))
		}
		x.oblig(reach, Forall([]*Term{o}, [][]*Term{{nw}}, Imp(And(g...), Eq(nw, Select(pre.get(m, mapSort[m]), o)))), "frame", m, fr, pos)
	}
	if x.V.callCovers && reach != False {
		x.items = append(x.items, Item{kind: ICover, reach: reach, name: funcKey(x.root) + ":cover:after " + key + " at " + x.V.prog.Fset.Position(pos).String()})
	}
	return res, post, reach
}

func (x *Exec) globalRange(m string, t *Term) {}

func (x *Exec) markFresh(e *Env, n *Node, reach *Term, start int) {
	if n.op == "bin" && n.s == "&&" {
		x.markFresh(e, n.k[0], reach, start)
		x.markFresh(e, n.k[1], reach, start)
		return
	}
	if n.op == "call" && n.k[0].op == "id" && n.k[0].s == "fresh" {
		v := e.eval(n.k[1])
		r := v.ts[0]
		if v.typ != nil && isIface(v.typ) {
			r = v.ts[1]
		}
		if r.op == "sym" && !r.isRefFresh && len(r.args) == 0 {
			x.assume(And(Gt(r, Int(0)), Eq(App("rt", SInt, r), r), Ge(r, e.old.alloc), Lt(r, e.st.alloc), Eq(App("kind", SInt, r), Int(0))))
			// nothing older than the call is this object; what else the call made may be
			r.isRefFresh, r.calleeFresh = true, true
			r.birth = start
		}
		return
	}
	if n.op == "call" && n.k[0].op == "id" && n.k[0].s == "freshOrNil" {
		v := e.eval(n.k[1])
		r := v.ts[0]
		if v.typ != nil && isIface(v.typ) {
			r = v.ts[1]
		}
		x.V.freshish[r] = true
	}
}

func (x *Exec) inRecursion(key string) bool {
	return x.V.sameSCC(funcKey(x.root), key)
}

// special: a few functions modelled directly
func (x *Exec) special(fr *frame, fn *ssa.Function, key string, args [][]*Term, st *State, reach *Term, pos token.Pos) ([]*Term, bool) {
	switch key {
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		// output only; results ignored in the repository
		return []*Term{Fresh("n", SInt), Int(0), Int(0)}, true
	}
	return nil, false
}

// foldStd evaluates pure string functions of the standard library on constants.
func foldStd(key string, args [][]*Term) ([]*Term, bool) {
	f := map[string]func(string) string{"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.TrimSpace": strings.TrimSpace}[key]
	if f == nil || len(args) != 1 || len(args[0]) != 1 {
		return nil, false
	}
	c, ok := strConstOf(args[0][0])
	if !ok {
		return nil, false
	}
	return []*Term{StrConst(f(c))}, true
}
