package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole-program scans that justify facts the executor uses without proof.

// addConstField: field f of the struct global g is never written after its declaration, so every
// load yields its initial value. The scan rejects any store to the field and any use of the
// global's address other than field access and method calls that do not store to the field.
func (v *Verifier) addConstField(g, f, val string) error {
	i := strings.LastIndex(g, ".")
	var gl *ssa.Global
	for _, p := range v.prog.AllPackages() {
		if shortPath(p.Pkg.Path()) == g[:i] {
			if m, ok := p.Members[g[i+1:]].(*ssa.Global); ok {
				gl = m
			}
		}
	}
	if gl == nil {
		return nil // no such global: nothing to assume
	}
	T := deref(gl.Type())
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	idx := -1
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == f {
			idx = k
		}
	}
	if idx < 0 {
		return nil
	}
	initOK := false
	for _, fn := range v.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), T) && fa.Field == idx {
					c, isC := s.Val.(*ssa.Const)
					_, lit := fa.X.(*ssa.Alloc)
					if (fa.X == gl || lit) && fn.Name() == "init" && isC && c.Value != nil && c.Value.Kind() == constant.Bool && fmt.Sprint(constant.BoolVal(c.Value)) == val {
						initOK = true
						continue
					}
					return nil // written: no longer a constant
				}
				if types.Identical(s.Val.Type(), T) {
					// the initialiser stores a literal whose fields were seen above
					if u, ok := s.Val.(*ssa.UnOp); ok && s.Addr == gl && fn.Name() == "init" {
						if a, ok := u.X.(*ssa.Alloc); ok && !a.Heap {
							continue
						}
					}
					return nil
				}
			}
		}
	}
	if !initOK && val != "false" {
		return nil
	}
	m := tstr(T) + "." + f
	v.constFields[m+"@glob:"+gl.String()] = val == "true"
	v.constSrc = append(v.constSrc, g+"."+f+" keeps its initial value "+val)
	return nil
}

// checkListOf: the address of the list.List embedded in T is used only as the receiver of
// container/list methods, so a *list.List held in a variable or field never is one of them.
func (v *Verifier) checkListOf(T string) error {
	for _, fn := range v.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != 0 {
					continue
				}
				o := deref(fa.X.Type())
				if tstr(o) != T {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch u := r.(type) {
					case *ssa.FieldAddr:
					case *ssa.DebugRef:
					case ssa.CallInstruction:
						c := u.Common()
						ok := !c.IsInvoke() && len(c.Args) > 0 && c.Args[0] == fa && c.StaticCallee() != nil && c.StaticCallee().Signature.Recv() != nil
						for _, a := range c.Args[min(1, len(c.Args)):] {
							if a == fa {
								ok = false
							}
						}
						if !ok {
							return fmt.Errorf("the list inside %s escapes in %s", T, fn)
						}
					default:
						return fmt.Errorf("the list inside %s escapes in %s", T, fn)
					}
				}
			}
		}
	}
	return nil
}

// fieldWriters: functions that store to a field (outside the ones already verified).
func (v *Verifier) fieldWriters(m string) []string {
	var out []string
	k := strings.LastIndex(m, ".")
	for _, key := range sortedKeys(v.fns) {
		fn := v.fns[key]
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					o := deref(fa.X.Type())
					if tstr(o) == m[:k] && o.Underlying().(*types.Struct).Field(fa.Field).Name() == m[k+1:] {
						hit = true
					}
				}
				if tstr(s.Val.Type()) == m[:k] {
					hit = true
				}
			}
		}
		if hit {
			out = append(out, key)
		}
	}
	return out
}

// fieldInvRoots: functions storing to the fields whose invariants were used, not verified yet.
// They get an empty contract under which only the stores are checked.
func (v *Verifier) fieldInvRoots(done map[string]bool) []string {
	var out []string
	for _, m := range sortedKeys(v.fieldInvUsed) {
		for _, k := range v.fieldWriters(m) {
			if done[k] {
				continue
			}
			v.storesOnly[k] = true
			if v.contracts[k] == nil || v.contracts[k].trusted {
				fn := v.fns[k]
				c := &Contract{key: k, modAny: true, bare: true}
				for i := range fn.Params {
					c.params = append(c.params, fmt.Sprintf("p%d", i))
				}
				v.contracts[k] = c
			}
			out = append(out, k)
		}
	}
	return out
}

// constInit: what a package initialiser puts into a global that nothing else ever changes: one
// constant, or the constants of an array or slice literal.
type constInit struct {
	one  *ssa.Const
	elem []*ssa.Const
}

func (v *Verifier) constGlobalInit(g *ssa.Global) *constInit {
	if v.constInits == nil {
		v.scanConstGlobals()
	}
	return v.constInits[g]
}

// readOnlyElems: the slice or array pointer val is only measured and read element by element.
func readOnlyElems(refs []ssa.Instruction) bool {
	for _, r := range refs {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, rr := range *u.Referrers() {
				switch w := rr.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					if w.Op != token.MUL {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); !ok || (b.Name() != "len" && b.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (v *Verifier) scanConstGlobals() {
	v.constInits = map[*ssa.Global]*constInit{}
	bad := map[*ssa.Global]bool{}
	put := func(g *ssa.Global) *constInit {
		if v.constInits[g] == nil {
			v.constInits[g] = &constInit{}
		}
		return v.constInits[g]
	}
	var rands []*ssa.Value
	for _, fn := range v.allFns {
		isInit := fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				rands = in.Operands(rands[:0])
				for k, op := range rands {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok || bad[g] {
						continue
					}
					good := false
					switch u := in.(type) {
					case *ssa.DebugRef:
						good = true
					case *ssa.UnOp:
						good = u.Op == token.MUL
						if good {
							switch deref(g.Type()).Underlying().(type) {
							case *types.Slice:
								good = readOnlyElems(*u.Referrers())
							case *types.Basic, *types.Array:
							default:
								good = false
							}
						}
					case *ssa.IndexAddr:
						if isInit && k == 0 {
							good = v.initElem(put(g), u, deref(g.Type()))
						}
						if !good {
							good = readOnlyElems([]ssa.Instruction{u})
						}
					case *ssa.Store:
						if isInit && k == 0 && u.Addr == g && fn.Pkg == g.Pkg {
							switch w := u.Val.(type) {
							case *ssa.Const:
								if _, basic := deref(g.Type()).Underlying().(*types.Basic); basic && put(g).one == nil {
									put(g).one = w
									good = true
								}
							case *ssa.Slice:
								if a, ok := w.X.(*ssa.Alloc); ok && w.Low == nil && w.High == nil && w.Max == nil && put(g).elem == nil {
									arr, ok := deref(a.Type()).Underlying().(*types.Array)
									good = ok
									for _, r := range *a.Referrers() {
										switch z := r.(type) {
										case *ssa.DebugRef:
										case *ssa.IndexAddr:
											if !good || !v.initElem(put(g), z, arr) {
												good = false
											}
										case *ssa.Slice:
											good = good && z == w
										default:
											good = false
										}
									}
									if good && put(g).elem == nil {
										put(g).elem = make([]*ssa.Const, arr.Len())
									}
								}
							}
						}
					}
					if !good {
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range bad {
		delete(v.constInits, g)
	}
}

// initElem: the element address a of an array literal is stored to once, with a constant.
func (v *Verifier) initElem(ci *constInit, a *ssa.IndexAddr, T types.Type) bool {
	arr, ok := T.Underlying().(*types.Array)
	c, isC := a.Index.(*ssa.Const)
	if _, basic := arr.Elem().Underlying().(*types.Basic); !ok || !isC || !basic || arr.Len() > 512 {
		return false
	}
	if ci.elem == nil {
		ci.elem = make([]*ssa.Const, arr.Len())
	}
	i := c.Int64()
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			w, isC := u.Val.(*ssa.Const)
			if u.Addr != a || !isC || ci.elem[i] != nil {
				return false
			}
			ci.elem[i] = w
		default:
			return false
		}
	}
	return true
}

// constElem: the value of element idx of a constant table (nil when in is not a load from one).
func (x *Exec) constElem(fr *frame, in *ssa.UnOp, st *State) *Term {
	ia, ok := in.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	var g *ssa.Global
	switch u := ia.X.(type) {
	case *ssa.Global:
		g = u
	case *ssa.UnOp:
		g, _ = u.X.(*ssa.Global)
	}
	if g == nil {
		return nil
	}
	ci := x.V.constGlobalInit(g)
	if ci == nil || len(ci.elem) == 0 {
		return nil
	}
	idx := x.val(fr, ia.Index, st)[0]
	var t *Term
	for k := len(ci.elem) - 1; k >= 0; k-- {
		c := ci.elem[k]
		if c == nil {
			c = ssa.NewConst(nil, in.Type())
		}
		e := x.constVal(c)[0]
		if t == nil {
			t = e
		} else {
			t = Ite(Eq(idx, Int(int64(k))), e, t)
		}
	}
	return t
}
