package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPrefix = "github.com/use-go/gosips/"

func shortPath(p string) string {
	if p == "github.com/use-go/gosips" {
		return "gosips"
	}
	p = strings.TrimPrefix(p, modPrefix)
	if i := strings.LastIndex(p, "/"); i >= 0 {
		p = p[i+1:]
	}
	return p
}

func qual(p *types.Package) string { return shortPath(p.Path()) }

func tstr(t types.Type) string { return types.TypeString(t, qual) }

// Leaf describes one SMT-sorted component of a Go type.
type Leaf struct {
	path string
	sort string
	typ  types.Type // leaf Go type (nil for synthetic)
	role string     // "", "base","off","len","cap","tag","val"
}

var leafCache = map[types.Type][]Leaf{}

func leavesOf(t types.Type) []Leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	l := leavesOf0(t)
	leafCache[t] = l
	return l
}

func leavesOf0(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, ""}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, t, ""}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, t, ""}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SF, t, ""}}
		default:
			return []Leaf{{"", SInt, t, ""}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, t, ""}}
	case *types.Slice:
		return []Leaf{{"#base", SInt, nil, "base"}, {"#off", SInt, nil, "off"}, {"#len", SInt, nil, "len"}, {"#cap", SInt, nil, "cap"}}
	case *types.Interface:
		return []Leaf{{"#tag", SInt, nil, "tag"}, {"#val", SInt, nil, "val"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				l.path = "." + f.Name() + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		el := leavesOf(u.Elem())
		var out []Leaf
		for _, l := range el {
			out = append(out, Leaf{"[]" + l.path, ArrSort(SInt, l.sort), nil, "arr"})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				l.path = fmt.Sprintf("$%d%s", i, l.path)
				out = append(out, l)
			}
		}
		return out
	}
	return []Leaf{{"", SInt, t, ""}}
}

func tupleOffset(t *types.Tuple, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += len(leavesOf(t.At(j).Type()))
	}
	return n
}

func structOffset(s *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += len(leavesOf(s.Field(j).Type()))
	}
	return n
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }
func isIface(t types.Type) bool  { _, ok := t.Underlying().(*types.Interface); return ok }
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// intRange gives bit width and signedness of an integer type.
func intBits(t types.Type) (bits int, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, true
}

func intRange(t types.Type) (lo, hi *big.Int) {
	n, s := intBits(t)
	one := big.NewInt(1)
	if s {
		h := Pow2(n - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return big.NewInt(0), new(big.Int).Sub(Pow2(n), one)
}

// ---- type ids for interface tags

var typeIDs = map[string]int{}
var typeByID = map[int]types.Type{}
var baseTypeIDs int

func typeID(t types.Type) int {
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if id, ok := typeIDs[k]; ok {
		return id
	}
	id := len(typeIDs) + 1
	typeIDs[k] = id
	typeByID[id] = t
	return id
}

// concrete types that some code in the program converts to an interface
var concreteTypes []types.Type

func collectConcrete(prog *ssa.Program, fns map[*ssa.Function]bool) {
	seen := map[string]bool{}
	var names []string
	m := map[string]types.Type{}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					k := types.TypeString(mi.X.Type(), nil)
					if !seen[k] {
						seen[k] = true
						names = append(names, k)
						m[k] = mi.X.Type()
					}
				}
			}
		}
	}
	// every named struct type's pointer of the repository as well (exported API: a caller may box it)
	for _, p := range prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), "github.com/use-go/gosips") {
			continue
		}
		for _, mem := range p.Members {
			if tn, ok := mem.(*ssa.Type); ok {
				if n, ok := tn.Type().(*types.Named); ok && isStruct(n) {
					pt := types.NewPointer(n)
					k := types.TypeString(pt, nil)
					if !seen[k] {
						seen[k] = true
						names = append(names, k)
						m[k] = pt
					}
				}
			}
		}
	}
	sortStrings(names)
	for _, k := range names {
		concreteTypes = append(concreteTypes, m[k])
		typeID(m[k])
	}
	baseTypeIDs = len(typeIDs)
}

var implCache = map[string][]types.Type{}

func implementers(it types.Type) []types.Type {
	k := types.TypeString(it, nil)
	if r, ok := implCache[k]; ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	for _, t := range concreteTypes {
		if isIface(t) {
			continue
		}
		if types.Implements(t, iface) {
			out = append(out, t)
		}
	}
	implCache[k] = out
	return out
}
