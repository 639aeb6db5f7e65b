package main

// Hash-consed SMT terms with light simplification. Integers are mathematical
// (sort Int); machine wrap-around is made explicit by the executor.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	id    int
	op    string // "int", "sym", "true", "false", or an SMT operator / function name
	sym   string
	num   *big.Int
	args  []*Term
	sort  string
	birth int // creation time of the youngest symbol in the term
	// interval knowledge for Int terms (nil = unbounded)
	lo, hi      *big.Int
	tz          int // known trailing zero bits (for Int terms, non-negative)
	isRefFresh  bool
	calleeFresh bool // made by a callee: may be the same object as another one made in that call
	bound       bool // contains a bound variable
}

type TermBank struct {
	tab      map[string]*Term
	n        int
	clock    int
	fresh    int
	decls    []string // declarations in order: emitted lazily
	declOf   map[string]string
	strConst map[string]*Term
}

// resetBank starts a fresh term bank, so that the terms (and the names in them) generated for a
// function do not depend on what was verified before it.
func resetBank() {
	B = NewBank()
	True = B.mk("true", "", nil, SBool)
	False = B.mk("false", "", nil, SBool)
	strConstBy = map[*Term]string{}
	subKinds = map[string]int{}
	for k, id := range typeIDs {
		if id > baseTypeIDs {
			delete(typeIDs, k)
			delete(typeByID, id)
		}
	}
}

func NewBank() *TermBank {
	return &TermBank{tab: map[string]*Term{}, declOf: map[string]string{}, strConst: map[string]*Term{}}
}

var B = NewBank()

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SF    = "F64"
)

func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func splitArr(s string) (k, v string) {
	// "(Array K V)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return in[:i], in[i+1:]
		}
	}
	panic("bad array sort " + s)
}

func (b *TermBank) mk(op, sym string, num *big.Int, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sym)
	if num != nil {
		sb.WriteString(num.String())
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	sb.WriteByte('|')
	sb.WriteString(srt)
	k := sb.String()
	if t, ok := b.tab[k]; ok {
		return t
	}
	t := &Term{id: b.n, op: op, sym: sym, num: num, args: args, sort: srt}
	b.n++
	for _, a := range args {
		if a.birth > t.birth {
			t.birth = a.birth
		}
		if a.bound {
			t.bound = true
		}
	}
	b.tab[k] = t
	t.bits()
	return t
}

// ---- constants and symbols

func Int(n int64) *Term     { return IntB(big.NewInt(n)) }
func IntB(n *big.Int) *Term { return B.mk("int", "", new(big.Int).Set(n), SInt) }
func Pow2(k int) *big.Int   { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

var True = B.mk("true", "", nil, SBool)
var False = B.mk("false", "", nil, SBool)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Sym makes (or finds) a named constant.
func Sym(name, srt string) *Term {
	t := B.mk("sym", name, nil, srt)
	return t
}

func Fresh(prefix, srt string) *Term {
	B.fresh++
	B.clock++
	prefix = sanitize(prefix)
	t := B.mk("sym", fmt.Sprintf("%s!%d", prefix, B.fresh), nil, srt)
	t.birth = B.clock
	return t
}

func BoundVar(prefix, srt string) *Term {
	t := Fresh(prefix, srt)
	t.bound = true
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (t *Term) isInt() bool { return t.op == "int" }

// ---- interval and bit knowledge

func (t *Term) bits() {
	if t.sort != SInt {
		return
	}
	switch t.op {
	case "int":
		t.lo, t.hi = t.num, t.num
		if t.num.Sign() == 0 {
			t.tz = 64
		} else {
			t.tz = int(t.num.TrailingZeroBits())
		}
	case "+":
		if t.args[0].lo != nil && t.args[1].lo != nil {
			t.lo = new(big.Int).Add(t.args[0].lo, t.args[1].lo)
		}
		if t.args[0].hi != nil && t.args[1].hi != nil {
			t.hi = new(big.Int).Add(t.args[0].hi, t.args[1].hi)
		}
		t.tz = min(t.args[0].tz, t.args[1].tz)
	case "-":
		if t.args[0].lo != nil && t.args[1].hi != nil {
			t.lo = new(big.Int).Sub(t.args[0].lo, t.args[1].hi)
		}
		if t.args[0].hi != nil && t.args[1].lo != nil {
			t.hi = new(big.Int).Sub(t.args[0].hi, t.args[1].lo)
		}
	case "*":
		a, b := t.args[0], t.args[1]
		if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
			t.lo = new(big.Int).Mul(a.lo, b.lo)
			if a.hi != nil && b.hi != nil {
				t.hi = new(big.Int).Mul(a.hi, b.hi)
			}
		}
		t.tz = min(a.tz+b.tz, 64)
	case "div":
		a, b := t.args[0], t.args[1]
		if b.isInt() && b.num.Sign() > 0 {
			if a.lo != nil {
				t.lo = new(big.Int).Div(a.lo, b.num)
			}
			if a.hi != nil {
				t.hi = new(big.Int).Div(a.hi, b.num)
			}
		}
	case "mod":
		a, b := t.args[0], t.args[1]
		if b.isInt() && b.num.Sign() > 0 {
			t.lo = big.NewInt(0)
			t.hi = new(big.Int).Sub(b.num, big.NewInt(1))
			if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(t.hi) < 0 {
				t.hi = a.hi
			}
			k := int(b.num.TrailingZeroBits())
			if new(big.Int).Lsh(big.NewInt(1), uint(k)).Cmp(b.num) == 0 {
				t.tz = min(a.tz, k)
				if a.tz >= k {
					t.tz = 64
				}
			}
		}
	case "ite":
		a, b := t.args[1], t.args[2]
		if a.lo != nil && b.lo != nil {
			t.lo = bmin(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = bmax(a.hi, b.hi)
		}
		t.tz = min(a.tz, b.tz)
	case "slen":
		t.lo = big.NewInt(0)
		t.hi = Pow2(40)
	case "sat":
		t.lo = big.NewInt(0)
		t.hi = big.NewInt(255)
	}
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// bound an Int term's known range (only when justified by an assumption emitted elsewhere)
func (t *Term) setRange(lo, hi *big.Int) *Term {
	if t.op == "int" {
		return t
	}
	if t.lo == nil || lo.Cmp(t.lo) > 0 {
		t.lo = lo
	}
	if t.hi == nil || hi.Cmp(t.hi) < 0 {
		t.hi = hi
	}
	return t
}

func within(t *Term, lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}

// ---- boolean

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return B.mk("not", "", nil, SBool, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.op == "true" || seen[x.id] {
			continue
		}
		if x.op == "false" {
			return False
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range out {
		if x.op == "not" && seen[x.args[0].id] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return B.mk("and", "", nil, SBool, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.op == "false" || seen[x.id] {
			continue
		}
		if x.op == "true" {
			return True
		}
		if x.op == "or" {
			for _, y := range x.args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range out {
		if x.op == "not" && seen[x.args[0].id] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return B.mk("or", "", nil, SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a.op == "true" {
		return b
	}
	if a.op == "false" || b.op == "true" || a == b {
		return True
	}
	if b.op == "false" {
		return Not(a)
	}
	return B.mk("=>", "", nil, SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c.op == "true" || a == b {
		return a
	}
	if c.op == "false" {
		return b
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	return B.mk("ite", "", nil, a.sort, c, a, b)
}

func rootOf(t *Term) *Term {
	for len(t.args) > 0 && (strings.HasPrefix(t.op, "sub.") || t.op == "elt") {
		t = t.args[0]
	}
	return t
}

func distinctTerms(a, b *Term) bool {
	if a.sort != SInt {
		if a.sort == SStr && a.op == "sym" && b.op == "sym" {
			ca, ok1 := strConstOf(a)
			cb, ok2 := strConstOf(b)
			return ok1 && ok2 && ca != cb
		}
		return false
	}
	if a.isInt() && b.isInt() {
		return a.num.Cmp(b.num) != 0
	}
	if a.isRefFresh && b.isRefFresh && a != b {
		ra, rb := rootOf(a), rootOf(b)
		if ra == rb || ra.birth != rb.birth || !(ra.calleeFresh && rb.calleeFresh) {
			return true
		}
	}
	if a.isRefFresh && !b.bound && b.birth < a.birth {
		return true
	}
	if b.isRefFresh && !a.bound && a.birth < b.birth {
		return true
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return true
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
		return true
	}
	// x + c1 vs x + c2
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba == bb && ba != nil && ca.Cmp(cb) != 0 {
		return true
	}
	return false
}

func splitConst(a *Term) (*Term, *big.Int) {
	if a.op == "+" && a.args[1].isInt() {
		return a.args[0], a.args[1].num
	}
	if a.isInt() {
		return nil, a.num
	}
	return a, big.NewInt(0)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if distinctTerms(a, b) {
		return False
	}
	if a.op == "ite" && b.isInt() && a.args[1].isInt() && a.args[2].isInt() {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && a.isInt() && b.args[1].isInt() && b.args[2].isInt() {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return B.mk("=", "", nil, SBool, a, b)
}

// ---- arithmetic

func Add(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Add(a.num, b.num))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.num.Sign() == 0 {
			return a
		}
		if a.op == "+" && a.args[1].isInt() {
			return Add(a.args[0], IntB(new(big.Int).Add(a.args[1].num, b.num)))
		}
	} else {
		// float constants outwards
		if a.op == "+" && a.args[1].isInt() {
			return Add(Add(a.args[0], b), a.args[1])
		}
		if b.op == "+" && b.args[1].isInt() {
			return Add(Add(a, b.args[0]), b.args[1])
		}
		if a.op == "-" && a.args[1] == b {
			return a.args[0]
		}
		if b.op == "-" && b.args[1] == a {
			return b.args[0]
		}
	}
	return B.mk("+", "", nil, SInt, a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return Int(0)
	}
	if b.isInt() {
		return Add(a, IntB(new(big.Int).Neg(b.num)))
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba != nil && ba == bb {
		return IntB(new(big.Int).Sub(ca, cb))
	}
	if ba != nil && bb != nil && (ca.Sign() != 0 || cb.Sign() != 0) {
		return Add(Sub(ba, bb), IntB(new(big.Int).Sub(ca, cb)))
	}
	if a.op == "+" {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return B.mk("-", "", nil, SInt, a, b)
}

func Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Mul(a.num, b.num))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.num.Sign() == 0 {
			return b
		}
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.op == "+" && a.args[1].isInt() {
			return Add(Mul(a.args[0], b), IntB(new(big.Int).Mul(a.args[1].num, b.num)))
		}
		if a.op == "*" && a.args[1].isInt() {
			return Mul(a.args[0], IntB(new(big.Int).Mul(a.args[1].num, b.num)))
		}
	}
	return B.mk("*", "", nil, SInt, a, b)
}

// DivE, ModE: Euclidean (SMT-LIB) division by a positive constant or general term
func DivE(a, b *Term) *Term {
	if b.isInt() && b.num.Sign() > 0 {
		if a.isInt() {
			q := new(big.Int)
			q.Div(a.num, b.num)
			return IntB(q)
		}
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(b.num) < 0 {
			return Int(0)
		}
		if a.op == "*" && a.args[1].isInt() {
			q, r := new(big.Int).DivMod(a.args[1].num, b.num, new(big.Int))
			if r.Sign() == 0 {
				return Mul(a.args[0], IntB(q))
			}
			q, r = new(big.Int).DivMod(b.num, a.args[1].num, new(big.Int))
			if r.Sign() == 0 && a.args[1].num.Sign() > 0 {
				return DivE(a.args[0], IntB(q))
			}
		}
		if a.op == "div" && a.args[1].isInt() && a.args[1].num.Sign() > 0 {
			return DivE(a.args[0], IntB(new(big.Int).Mul(a.args[1].num, b.num)))
		}
	}
	return B.mk("div", "", nil, SInt, a, b)
}

func ModE(a, b *Term) *Term {
	if b.isInt() && b.num.Sign() > 0 {
		if a.isInt() {
			return IntB(new(big.Int).Mod(a.num, b.num))
		}
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(b.num) < 0 {
			return a
		}
		if a.op == "mod" && a.args[1].isInt() && a.args[1].num.Sign() > 0 &&
			new(big.Int).Mod(a.args[1].num, b.num).Sign() == 0 {
			return ModE(a.args[0], b)
		}
		if a.op == "*" && a.args[1].isInt() {
			if new(big.Int).Mod(a.args[1].num, b.num).Sign() == 0 {
				return Int(0)
			}
			// (x*c) mod (c*d) = (x mod d)*c
			q, r := new(big.Int).DivMod(b.num, a.args[1].num, new(big.Int))
			if a.args[1].num.Sign() > 0 && r.Sign() == 0 {
				return Mul(ModE(a.args[0], IntB(q)), a.args[1])
			}
		}
	}
	return B.mk("mod", "", nil, SInt, a, b)
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.isInt() && b.isInt() {
		return Bool(a.num.Cmp(b.num) <= 0)
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return True
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return False
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba != nil && ba == bb {
		return Bool(ca.Cmp(cb) <= 0)
	}
	return B.mk("<=", "", nil, SBool, a, b)
}

func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.isInt() && b.isInt() {
		return Bool(a.num.Cmp(b.num) < 0)
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
		return True
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) >= 0 {
		return False
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba != nil && ba == bb {
		return Bool(ca.Cmp(cb) < 0)
	}
	return B.mk("<", "", nil, SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- arrays

func Select(m, i *Term) *Term {
	for {
		if m.op == "store" {
			if m.args[1] == i {
				return m.args[2]
			}
			if distinctTerms(m.args[1], i) {
				m = m.args[0]
				continue
			}
		}
		if m.op == "constarr" {
			return m.args[0]
		}
		break
	}
	_, v := splitArr(m.sort)
	t := B.mk("select", "", nil, v, m, i)
	return t
}

func Store(m, i, v *Term) *Term {
	_, vs := splitArr(m.sort)
	if vs != v.sort {
		panic("store sort mismatch " + m.sort + " " + v.sort)
	}
	if m.op == "store" && m.args[1] == i {
		m = m.args[0]
	}
	if v.op == "select" && v.args[0] == m && v.args[1] == i {
		return m
	}
	return B.mk("store", "", nil, m.sort, m, i, v)
}

func ConstArr(srt string, v *Term) *Term { return B.mk("constarr", "", nil, srt, v) }

func App(f string, srt string, args ...*Term) *Term {
	if r := foldApp(f, args); r != nil {
		return r
	}
	return B.mk(f, "", nil, srt, args...)
}

// foldApp evaluates the text and float functions on constants.
func foldApp(f string, args []*Term) *Term {
	switch f {
	case "lower", "upper", "trim":
		if c, ok := strConstOf(args[0]); ok {
			return StrConst(map[string]func(string) string{"lower": strings.ToLower, "upper": strings.ToUpper, "trim": strings.TrimSpace}[f](c))
		}
	case "eqfold":
		a, ok := strConstOf(args[0])
		b, ok2 := strConstOf(args[1])
		if ok && ok2 {
			return Bool(strings.EqualFold(a, b))
		}
	case "feq", "flt", "fle":
		a, b := args[0], args[1]
		if a.op == "sym" && b.op == "sym" && strings.HasPrefix(a.sym, "f64:") && strings.HasPrefix(b.sym, "f64:") {
			x, ok := new(big.Rat).SetString(a.sym[4:])
			y, ok2 := new(big.Rat).SetString(b.sym[4:])
			if ok && ok2 {
				c := x.Cmp(y)
				return Bool(f == "feq" && c == 0 || f == "flt" && c < 0 || f == "fle" && c <= 0)
			}
		}
	}
	return nil
}

func Forall(vars []*Term, trig [][]*Term, body *Term) *Term {
	if body == True {
		return True
	}
	if len(vars) == 0 {
		return body
	}
	// encode as special op "forall": args = vars..., body, then triggers
	args := append([]*Term{}, vars...)
	args = append(args, body)
	sym := strconv.Itoa(len(vars))
	for _, tg := range trig {
		sym += ":" + strconv.Itoa(len(tg))
		args = append(args, tg...)
	}
	t := B.mk("forall", sym, nil, SBool, args...)
	return t
}

func Exists(vars []*Term, body *Term) *Term { return Not(Forall(vars, nil, Not(body))) }

// ---- strings

var strConstBy = map[*Term]string{}

func strConstOf(t *Term) (string, bool) { s, ok := strConstBy[t]; return s, ok }

func StrConst(s string) *Term {
	if t, ok := B.strConst[s]; ok {
		return t
	}
	n := len(B.strConst)
	t := Sym(fmt.Sprintf("str!%d", n), SStr)
	B.strConst[s] = t
	strConstBy[t] = s
	return t
}

func SLen(s *Term) *Term {
	if c, ok := strConstOf(s); ok {
		return Int(int64(len(c)))
	}
	switch s.op {
	case "scat":
		return Add(SLen(s.args[0]), SLen(s.args[1]))
	case "sunit":
		return Int(1)
	}
	return B.mk("slen", "", nil, SInt, s)
}
func SAt(s, i *Term) *Term {
	if c, ok := strConstOf(s); ok && i.isInt() && i.num.IsInt64() {
		k := i.num.Int64()
		if k >= 0 && k < int64(len(c)) {
			return Int(int64(c[k]))
		}
	}
	return B.mk("sat", "", nil, SInt, s, i)
}
func SSub(s, lo, hi *Term) *Term {
	if c, ok := strConstOf(s); ok && lo.isInt() && hi.isInt() {
		l, h := lo.num.Int64(), hi.num.Int64()
		if 0 <= l && l <= h && h <= int64(len(c)) {
			return StrConst(c[l:h])
		}
	}
	if lo.isInt() && lo.num.Sign() == 0 && hi == SLen(s) {
		return s
	}
	return B.mk("ssub", "", nil, SStr, s, lo, hi)
}
func SCat(a, b *Term) *Term {
	ca, ok1 := strConstOf(a)
	cb, ok2 := strConstOf(b)
	if ok1 && ca == "" {
		return b
	}
	if ok2 && cb == "" {
		return a
	}
	if ok1 && ok2 {
		return StrConst(ca + cb)
	}
	if a.op == "scat" {
		return SCat(a.args[0], SCat(a.args[1], b))
	}
	if ok1 && b.op == "scat" {
		if cc, ok := strConstOf(b.args[0]); ok {
			return SCat(StrConst(ca+cc), b.args[1])
		}
	}
	return B.mk("scat", "", nil, SStr, a, b)
}
func SUnit(c *Term) *Term {
	if c.isInt() && c.num.IsInt64() && c.num.Int64() >= 0 && c.num.Int64() < 256 {
		return StrConst(string([]byte{byte(c.num.Int64())}))
	}
	return B.mk("sunit", "", nil, SStr, c)
}

// ---- printing

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(depth int) string {
	switch t.op {
	case "int":
		return numStr(t.num)
	case "sym":
		if c, ok := strConstOf(t); ok {
			return strconv.Quote(c)
		}
		return t.sym
	case "true", "false":
		return t.op
	}
	if depth == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteString(" " + a.str(depth-1))
	}
	sb.WriteString(")")
	return sb.String()
}

func numStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

// substitute replaces symbols.
func substitute(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return DivE(a[0], a[1])
	case "mod":
		return ModE(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "slen":
		return SLen(a[0])
	case "sat":
		return SAt(a[0], a[1])
	case "ssub":
		return SSub(a[0], a[1], a[2])
	case "scat":
		return SCat(a[0], a[1])
	case "sunit":
		return SUnit(a[0])
	}
	r := B.mk(t.op, t.sym, t.num, t.sort, a...)
	if r.lo == nil {
		r.lo = t.lo
	}
	if r.hi == nil {
		r.hi = t.hi
	}
	return r
}

// Printer emits terms with shared sub-terms named through define-fun.
type Printer struct {
	out        *strings.Builder
	named      map[*Term]string
	decl       map[string]bool
	funs       map[string][]string // uninterpreted function signatures known by the prelude
	n          int
	constFacts map[*Term]bool
	opaque     map[*Term]bool // terms of patterns that the solver must not look into: named by constants
	pseen      map[*Term]bool
	fold       []string // string functions in use whose value at a constant is written down
}

func NewPrinter() *Printer {
	return &Printer{out: &strings.Builder{}, named: map[*Term]string{}, decl: map[string]bool{}, constFacts: map[*Term]bool{}, opaque: map[*Term]bool{}, pseen: map[*Term]bool{}}
}

var smtBuiltin = map[string]bool{"+": true, "-": true, "*": true, "div": true, "mod": true, "and": true, "or": true, "not": true, "=>": true, "=": true, "<": true, "<=": true, "ite": true, "select": true, "store": true, "distinct": true}

// funSig of declared (prelude/spec) functions so that others are auto-declared
var preDeclared = map[string]bool{}

func (p *Printer) prep(t *Term) {
	// iterative post-order: declare symbols, define shared terms
	if p.named[t] != "" {
		return
	}
	switch t.op {
	case "int":
		p.named[t] = numStr(t.num)
		return
	case "true", "false":
		p.named[t] = t.op
		return
	case "sym":
		nm := "|" + t.sym + "|"
		p.named[t] = nm
		if t.bound {
			return
		}
		if !p.decl[nm] {
			p.decl[nm] = true
			fmt.Fprintf(p.out, "(declare-const %s %s)\n", nm, t.sort)
			if c, ok := strConstOf(t); ok {
				p.strFacts(t, c)
				for _, f := range p.fold {
					v := App(f, "Str", t)
					p.prep(v)
					if !preDeclared[f] && !p.decl[f] {
						p.decl[f] = true
						fmt.Fprintf(p.out, "(declare-fun %s (Str) Str)\n", f)
					}
					fmt.Fprintf(p.out, "(assert (= (%s %s) %s))\n", f, nm, p.named[v])
				}
			}
		}
		return
	}
	for _, a := range t.args {
		p.prep(a)
	}
	if !smtBuiltin[t.op] && t.op != "constarr" && t.op != "forall" && !preDeclared[t.op] && !p.decl[t.op] {
		p.decl[t.op] = true
		fmt.Fprintf(p.out, "(declare-fun %s (", t.op)
		for i, a := range t.args {
			if i > 0 {
				p.out.WriteByte(' ')
			}
			p.out.WriteString(a.sort)
		}
		fmt.Fprintf(p.out, ") %s)\n", t.sort)
	}
	s := p.render(t)
	if p.opaque[t] && !t.bound {
		p.n++
		nm := fmt.Sprintf("t%d", p.n)
		fmt.Fprintf(p.out, "(declare-const %s %s)\n(assert (= %s %s))\n", nm, t.sort, nm, s)
		p.named[t] = nm
		return
	}
	if t.bound || len(s) < 24 || t.op == "forall" && !t.bound {
		if t.op == "forall" && len(s) >= 24 && !t.bound {
			goto name
		}
		p.named[t] = s
		return
	}
name:
	p.n++
	nm := fmt.Sprintf("t%d", p.n)
	fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", nm, t.sort, s)
	p.named[t] = nm
}

func (p *Printer) render(t *Term) string {
	var sb strings.Builder
	if t.op == "constarr" {
		return "((as const " + t.sort + ") " + p.named[t.args[0]] + ")"
	}
	if t.op == "forall" {
		parts := strings.Split(t.sym, ":")
		n, _ := strconv.Atoi(parts[0])
		sb.WriteString("(forall (")
		for _, v := range t.args[:n] {
			fmt.Fprintf(&sb, "(|%s| %s)", v.sym, v.sort)
		}
		sb.WriteString(") ")
		body := p.named[t.args[n]]
		if len(parts) > 1 {
			sb.WriteString("(! " + body)
			k := n + 1
			for _, c := range parts[1:] {
				m, _ := strconv.Atoi(c)
				sb.WriteString(" :pattern (")
				for i := 0; i < m; i++ {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.named[t.args[k]])
					k++
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		return sb.String()
	}
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.named[a])
	}
	sb.WriteString(")")
	return sb.String()
}

func (p *Printer) Term(t *Term) string {
	p.prep(t)
	return p.named[t]
}

// Patterns finds the subterms of patterns that would make the solver reject or miss the pattern
// (conditionals): each is named by a constant of its own.
func (p *Printer) Patterns(t *Term) {
	if p.pseen[t] {
		return
	}
	p.pseen[t] = true
	if t.op == "forall" {
		n, _ := strconv.Atoi(strings.Split(t.sym, ":")[0])
		for _, a := range t.args[n+1:] {
			p.inPattern(a, map[*Term]bool{})
		}
	}
	for _, a := range t.args {
		p.Patterns(a)
	}
}

func (p *Printer) inPattern(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if !t.bound && t.op == "ite" {
		p.opaque[t] = true
		return
	}
	for _, a := range t.args {
		p.inPattern(a, seen)
	}
}

// facts about a string constant: length, characters, right-nested unit decomposition
func (p *Printer) strFacts(t *Term, c string) {
	nm := p.named[t]
	fmt.Fprintf(p.out, "(assert (= (slen %s) %d))\n", nm, len(c))
	n := len(c)
	if n > 64 {
		n = 64
	}
	for i := 0; i < n; i++ {
		fmt.Fprintf(p.out, "(assert (= (sat %s %d) %d))\n", nm, i, c[i])
	}
	if len(c) == 0 {
		fmt.Fprintf(p.out, "(assert (= %s sempty))\n", nm)
		return
	}
	if len(c) == 1 {
		fmt.Fprintf(p.out, "(assert (= %s (sunit %d)))\n", nm, c[0])
		return
	}
	if len(c) <= 64 {
		s := fmt.Sprintf("(sunit %d)", c[len(c)-1])
		for i := len(c) - 2; i >= 0; i-- {
			s = fmt.Sprintf("(scat (sunit %d) %s)", c[i], s)
		}
		fmt.Fprintf(p.out, "(assert (= %s %s))\n", nm, s)
	}
}

func (p *Printer) Take() string {
	s := p.out.String()
	p.out.Reset()
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
