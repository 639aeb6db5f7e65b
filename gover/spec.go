package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specErr string

// ---------------------------------------------------------------- syntax

type Node struct {
	op   string // num str id call sel idx slice bin un forall exists tern assert
	s    string
	n    *big.Int
	k    []*Node
	vars []qvar
	trig [][]*Node
	typ  string
	src  string
}

type qvar struct{ name, typ string }

type lexer struct {
	toks []string
	p    int
	src  string
}

var tokRe = regexp.MustCompile(`^(?:"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)'|[A-Za-z_$][A-Za-z0-9_$]*|0x[0-9a-fA-F]+|[0-9]+|<==>|==>|:=|::|&&|\|\||==|!=|<=|>=|\.\.|[-+*/%<>!?:.,()\[\]{}&])`)

func tokenize(s string) []string {
	var out []string
	for {
		s = strings.TrimLeft(s, " \t\n\r")
		if s == "" {
			return out
		}
		m := tokRe.FindString(s)
		if m == "" {
			panic(specErr("cannot tokenize: " + s))
		}
		out = append(out, m)
		s = s[len(m):]
	}
}

func (l *lexer) peek() string {
	if l.p < len(l.toks) {
		return l.toks[l.p]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.p++; return t }
func (l *lexer) expect(t string) {
	if l.next() != t {
		panic(specErr(fmt.Sprintf("expected %q at token %d of %q (got %q)", t, l.p, l.src, l.toks[min(l.p-1, len(l.toks)-1)])))
	}
}

func parseExpr(s string) *Node {
	l := &lexer{toks: tokenize(s), src: s}
	n := l.expr(0)
	if l.p != len(l.toks) {
		panic(specErr("trailing tokens in " + s + " at " + l.peek()))
	}
	n.src = s
	return n
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *lexer) expr(min int) *Node {
	if min == 0 {
		c := l.expr(1)
		if l.peek() == "?" {
			l.next()
			a := l.expr(0)
			l.expect(":")
			b := l.expr(0)
			return &Node{op: "tern", k: []*Node{c, a, b}}
		}
		return c
	}
	a := l.unary()
	for {
		op := l.peek()
		p, ok := prec[op]
		if !ok || p < min {
			return a
		}
		l.next()
		var b *Node
		if op == "==>" {
			b = l.expr(p)
		} else {
			b = l.expr(p + 1)
		}
		a = &Node{op: "bin", s: op, k: []*Node{a, b}}
	}
}

func (l *lexer) typ() string {
	s := ""
	for l.peek() == "*" || l.peek() == "[" {
		if l.next() == "*" {
			s += "*"
		} else {
			l.expect("]")
			s += "[]"
		}
	}
	s += l.next()
	if l.peek() == "." {
		l.next()
		s += "." + l.next()
		if l.peek() == "." {
			l.next()
			s += "." + l.next()
		}
	}
	return s
}

func (l *lexer) unary() *Node {
	switch l.peek() {
	case "!":
		l.next()
		return &Node{op: "un", s: "!", k: []*Node{l.unary()}}
	case "-":
		l.next()
		return &Node{op: "un", s: "-", k: []*Node{l.unary()}}
	case "forall", "exists", "array":
		q := &Node{op: l.next()}
		for {
			v := qvar{name: l.next()}
			v.typ = l.typ()
			q.vars = append(q.vars, v)
			if l.peek() == "," {
				l.next()
				continue
			}
			break
		}
		l.expect("::")
		for l.peek() == "{" {
			l.next()
			var tg []*Node
			for {
				tg = append(tg, l.expr(0))
				if l.peek() == "," {
					l.next()
					continue
				}
				break
			}
			l.expect("}")
			q.trig = append(q.trig, tg)
		}
		q.k = []*Node{l.expr(0)}
		return q
	}
	return l.postfix()
}

func (l *lexer) postfix() *Node {
	var a *Node
	t := l.next()
	switch {
	case t == "(":
		a = l.expr(0)
		l.expect(")")
	case t == "":
		panic(specErr("unexpected end in " + l.src))
	case t[0] == '"':
		s := unquote(t)
		a = &Node{op: "str", s: s}
	case t[0] == '\'':
		s := unquote(`"` + strings.ReplaceAll(strings.ReplaceAll(t[1:len(t)-1], `\'`, `'`), `"`, `\"`) + `"`)
		a = &Node{op: "num", n: big.NewInt(int64(s[0]))}
	case t[0] >= '0' && t[0] <= '9':
		n, _ := new(big.Int).SetString(t, 0)
		a = &Node{op: "num", n: n}
	default:
		a = &Node{op: "id", s: t}
		if (t == "typeis" || t == "as") && l.peek() == "(" {
			l.next()
			e := l.expr(0)
			l.expect(",")
			ty := l.typ()
			l.expect(")")
			a = &Node{op: t, k: []*Node{e}, typ: ty}
		}
	}
	for {
		switch l.peek() {
		case ".":
			l.next()
			if l.peek() == "(" {
				l.next()
				ty := l.typ()
				l.expect(")")
				a = &Node{op: "as", k: []*Node{a}, typ: ty}
				continue
			}
			a = &Node{op: "sel", s: l.next(), k: []*Node{a}}
		case "(":
			l.next()
			c := &Node{op: "call", k: []*Node{a}}
			for l.peek() != ")" {
				c.k = append(c.k, l.expr(0))
				if l.peek() == "," {
					l.next()
				}
			}
			l.next()
			a = c
		case "[":
			l.next()
			var lo *Node
			if l.peek() != ":" {
				lo = l.expr(0)
			}
			if l.peek() == ":" {
				l.next()
				var hi *Node
				if l.peek() != "]" {
					hi = l.expr(0)
				}
				l.expect("]")
				a = &Node{op: "slice", k: []*Node{a, lo, hi}}
			} else {
				l.expect("]")
				a = &Node{op: "idx", k: []*Node{a, lo}}
			}
		default:
			return a
		}
	}
}

func unquote(t string) string {
	var sb strings.Builder
	for i := 1; i < len(t)-1; i++ {
		c := t[i]
		if c == '\\' {
			i++
			switch t[i] {
			case 'n':
				c = '\n'
			case 'r':
				c = '\r'
			case 't':
				c = '\t'
			default:
				c = t[i]
			}
		}
		sb.WriteByte(c)
	}
	return sb.String()
}

// ---------------------------------------------------------------- contracts

type Clause struct {
	label string
	props []string
	e     *Node
	src   string
	metas []qvar // for inv / loopdec
	es    []*Node
	when  *Node
}

type Contract struct {
	key          string
	params       []string
	results      []string
	requires     []Clause
	ensures      []Clause
	modifies     []*Node
	invs         []Clause
	loopdec      []Clause
	decr         []*Node
	trusted      bool
	iface        bool
	imposed      bool // interface contract that every implementing method is checked against
	imposeMethod *types.Func
	imposeIface  types.Type
	impose       types.Type // the implementing type, in a contract made by imposeAll
	inline       bool
	bare         bool // no contract of its own: only field-invariant stores are checked
	noinv        bool
	exactInt     bool
	paths        bool
	modAny       bool
	props        []string // properties this function is a verification root for
	facts        []string // entry facts assumed (flag)
	safety       []string // properties whose safety obligations (panic freedom) this function carries
	file         string
	line         int
	used         bool
	returns      []*Node
	lemma        bool
	lets         []Clause
	posts        []Clause // abbreviations evaluated in the post state
	watches      []Watch
}

// Watch: a ghost variable set, after every call of the named function, to an expression over that
// function's parameters, results and post-state.
type Watch struct {
	name, sort, key string
	e               *Node
}

type Pred struct {
	name   string
	params []string
	body   *Node
}

type UFn struct {
	name string
	args []string
	ret  string
}

type Ghost struct {
	name string
	sort string
}

type Axiom struct {
	name string
	e    *Node
	src  string
	syms map[string]bool
}

var headRe = regexp.MustCompile(`^(trusted func|func|interface|lemma)\s+([\w.$]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		out = append(out, strings.Fields(p)[0])
	}
	return out
}

func stripComment(s string) string {
	inq := false
	for i := 0; i < len(s); i++ {
		if s[i] == '"' && (i == 0 || s[i-1] != '\\') {
			inq = !inq
		}
		if !inq && strings.HasPrefix(s[i:], "//") {
			return s[:i]
		}
	}
	return s
}

var clauseKW = map[string]bool{"requires": true, "ensures": true, "modifies": true, "inv": true, "loopdec": true, "decreases": true, "props": true, "safety": true, "flag": true, "returns": true, "let": true, "watch": true, "post": true}

func (v *Verifier) loadSpec(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	// join continuation lines
	type ln struct {
		s string
		n int
	}
	var lines []ln
	for i, raw := range strings.Split(string(data), "\n") {
		s := strings.TrimSpace(stripComment(raw))
		if s == "" {
			continue
		}
		f := strings.Fields(s)[0]
		isHead := f == "func" || f == "trusted" || f == "interface" || f == "lemma" || f == "pred" || f == "ufn" || f == "axiom" || f == "ghost" || f == "global" || f == "constfield" || f == "fieldinv" || f == "allocfact" || f == "entryfact" || f == "listof" || clauseKW[f]
		if isHead || len(lines) == 0 {
			lines = append(lines, ln{s, i + 1})
		} else {
			lines[len(lines)-1].s += " " + s
		}
	}
	var cur *Contract
	for _, l := range lines {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if se, ok := r.(specErr); ok {
						err = fmt.Errorf("%s:%d: %s", path, l.n, string(se))
						return
					}
					panic(r)
				}
			}()
			f := strings.Fields(l.s)
			rest := strings.TrimSpace(strings.TrimPrefix(l.s, f[0]))
			switch f[0] {
			case "func", "trusted", "interface", "lemma":
				m := headRe.FindStringSubmatch(l.s)
				if m == nil {
					panic(specErr("bad header: " + l.s))
				}
				cur = &Contract{key: m[2], params: splitNames(m[3]), results: splitNames(m[4]), trusted: m[1] == "trusted func", iface: m[1] == "interface", lemma: m[1] == "lemma", file: path, line: l.n}
				if v.contracts[cur.key] != nil {
					panic(specErr("duplicate contract " + cur.key))
				}
				v.contracts[cur.key] = cur
				v.order = append(v.order, cur.key)
			case "pred":
				i := strings.Index(rest, ":=")
				if i < 0 {
					panic(specErr("pred needs :="))
				}
				hd := strings.TrimSpace(rest[:i])
				j := strings.Index(hd, "(")
				p := &Pred{name: hd[:j], params: splitNames(strings.TrimSuffix(hd[j+1:], ")")), body: parseExpr(rest[i+2:])}
				if v.preds[p.name] != nil {
					panic(specErr("pred " + p.name + " is defined twice"))
				}
				v.preds[p.name] = p
			case "ufn":
				j := strings.Index(rest, "(")
				k := strings.Index(rest, ")")
				u := &UFn{name: strings.TrimSpace(rest[:j]), ret: strings.TrimSpace(rest[k+1:])}
				for _, a := range strings.Split(rest[j+1:k], ",") {
					if a = strings.TrimSpace(a); a != "" {
						u.args = append(u.args, specSort(a))
					}
				}
				u.ret = specSort(u.ret)
				v.ufns[u.name] = u
			case "axiom":
				v.axioms = append(v.axioms, &Axiom{e: parseExpr(rest), src: rest, name: fmt.Sprintf("%s:%d", path, l.n)})
			case "ghost":
				// ghost core.T.name sort
				j := strings.LastIndex(f[1], ".")
				v.ghosts[f[1][:j]] = append(v.ghosts[f[1][:j]], Ghost{f[1][j+1:], strings.TrimSpace(strings.TrimPrefix(rest, f[1]))})
			case "constfield":
				// constfield core.Debug ParserDebug false
				if err := v.addConstField(f[1], f[2], f[3]); err != nil {
					panic(specErr(err.Error()))
				}
			case "allocfact":
				// allocfact list.Element (e) := expr over rigid functions of e
				i := strings.Index(rest, ":=")
				hd := strings.TrimSpace(rest[:i])
				j := strings.Index(hd, "(")
				T := strings.TrimSpace(hd[:j])
				v.allocFacts[T] = append(v.allocFacts[T], &Pred{name: fmt.Sprintf("%s:%d", path, l.n), params: splitNames(strings.TrimSuffix(hd[j+1:], ")")), body: parseExpr(rest[i+2:])})
			case "entryfact":
				// entryfact owners expr: assumed of the entry state of functions with "flag owners"
				v.entryFacts[f[1]] = &Axiom{e: parseExpr(strings.TrimSpace(strings.TrimPrefix(rest, f[1]))), src: rest, name: fmt.Sprintf("%s:%d", path, l.n)}
			case "fieldinv":
				// fieldinv core.NameValue.value (this, v) := expr
				i := strings.Index(rest, ":=")
				hd := strings.TrimSpace(rest[:i])
				j := strings.Index(hd, "(")
				m := strings.TrimSpace(hd[:j])
				k := strings.LastIndex(m, ".")
				v.fieldInvs[m] = &FieldInv{owner: v.resolveType(m[:k]), m: m, params: splitNames(strings.TrimSuffix(hd[j+1:], ")")), body: parseExpr(rest[i+2:]), src: rest}
			case "listof":
				// listof core.NameValueList *core.NameValue
				v.listOf[f[1]] = v.resolveType(f[2])
				if err := v.checkListOf(f[1]); err != nil {
					panic(specErr(err.Error()))
				}
			case "global":
				// global invariant
				v.globalInvs = append(v.globalInvs, parseExpr(rest))
			case "props":
				cur.props = f[1:]
			case "safety":
				cur.safety = f[1:]
			case "flag":
				for _, x := range f[1:] {
					switch x {
					case "inline":
						cur.inline = true
					case "exactint":
						cur.exactInt = true
					case "paths":
						cur.paths = true
					case "imposed":
						cur.imposed = true
					case "modifies-any":
						cur.modAny = true
					default:
						if v.entryFacts[x] == nil {
							panic(specErr("unknown flag " + x))
						}
						cur.facts = append(cur.facts, x)
					}
				}
			case "requires", "ensures":
				c := Clause{src: rest}
				// optional [C01,C02] and label:
				if strings.HasPrefix(rest, "[") {
					j := strings.Index(rest, "]")
					for _, p := range strings.FieldsFunc(rest[1:j], func(r rune) bool { return r == 44 || r == 32 }) {
						c.props = append(c.props, strings.TrimSpace(p))
					}
					rest = strings.TrimSpace(rest[j+1:])
				}
				if m := regexp.MustCompile(`^([a-z][\w-]*):\s`).FindStringSubmatch(rest); m != nil {
					c.label = m[1]
					rest = rest[len(m[0]):]
				}
				c.e = parseExpr(rest)
				c.src = rest
				if f[0] == "requires" {
					cur.requires = append(cur.requires, c)
				} else {
					cur.ensures = append(cur.ensures, c)
				}
			case "modifies":
				for _, p := range splitTop(rest) {
					cur.modifies = append(cur.modifies, parseExpr(p))
				}
			case "inv", "loopdec":
				c := Clause{src: rest}
				if strings.HasPrefix(rest, "<") {
					j := strings.Index(rest, ">")
					for _, p := range strings.Split(rest[1:j], ",") {
						ff := strings.Fields(strings.TrimSpace(p))
						c.metas = append(c.metas, qvar{ff[0], ff[1]})
					}
					rest = rest[j+1:]
				}
				if f[0] == "inv" {
					c.e = parseExpr(rest)
					cur.invs = append(cur.invs, c)
				} else {
					for _, p := range splitTop(rest) {
						c.es = append(c.es, parseExpr(p))
					}
					cur.loopdec = append(cur.loopdec, c)
				}
			case "decreases":
				for _, p := range splitTop(rest) {
					cur.decr = append(cur.decr, parseExpr(p))
				}
			case "let":
				i := strings.Index(rest, ":=")
				cur.lets = append(cur.lets, Clause{label: strings.TrimSpace(rest[:i]), e: parseExpr(rest[i+2:])})
			case "post":
				i := strings.Index(rest, ":=")
				cur.posts = append(cur.posts, Clause{label: strings.TrimSpace(rest[:i]), e: parseExpr(rest[i+2:])})
			case "watch":
				// watch n Int := after pkg.T.M: expr in terms of that contract's names
				i := strings.Index(rest, ":=")
				hd := strings.Fields(rest[:i])
				r := strings.TrimPrefix(strings.TrimSpace(rest[i+2:]), "after ")
				j := strings.Index(r, ":")
				cur.watches = append(cur.watches, Watch{name: hd[0], sort: specSort(hd[1]), key: strings.TrimSpace(r[:j]), e: parseExpr(r[j+1:])})
			case "returns":
				for _, p := range splitTop(rest) {
					cur.returns = append(cur.returns, parseExpr(p))
				}
			default:
				panic(specErr("unknown keyword " + f[0]))
			}
		}()
		if err != nil {
			return err
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	inq := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			inq = !inq
		case '(', '[', '{':
			if !inq {
				d++
			}
		case ')', ']', '}':
			if !inq {
				d--
			}
		case ',':
			if d == 0 && !inq {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

// ---------------------------------------------------------------- evaluation

type SVal struct {
	ts    []*Term
	typ   types.Type // nil for ghost arrays / specials
	addr  *Addr
	isNil bool
}

type Env struct {
	x       *Exec
	vars    map[string]SVal
	st      *State
	old     *State
	ent     *State // loop entry
	reach   *Term
	parent  *Env
	quiet   bool // no facts (under binders)
	entPhis map[string]SVal
}

func (e *Env) with(st *State) *Env { n := *e; n.st = st; return &n }

func (e *Env) lookup(n string) (SVal, bool) {
	v, ok := e.vars[n]
	return v, ok
}

func intVal(t *Term) SVal  { return SVal{ts: []*Term{t}, typ: types.Typ[types.Int]} }
func boolVal(t *Term) SVal { return SVal{ts: []*Term{t}, typ: types.Typ[types.Bool]} }
func strVal(t *Term) SVal  { return SVal{ts: []*Term{t}, typ: types.Typ[types.String]} }
func sortVal(t *Term) SVal {
	switch t.sort {
	case SInt:
		return intVal(t)
	case SBool:
		return boolVal(t)
	case SStr:
		return strVal(t)
	}
	return SVal{ts: []*Term{t}}
}

func bad(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

func (e *Env) Bool(n *Node) *Term {
	v := e.eval(n)
	if len(v.ts) != 1 || v.ts[0].sort != SBool {
		bad("not a boolean: %s", n.src)
	}
	return v.ts[0]
}

func (e *Env) Int(n *Node) *Term {
	v := e.rval(e.eval(n))
	if len(v.ts) != 1 || v.ts[0].sort != SInt {
		bad("not an integer")
	}
	return v.ts[0]
}

func (e *Env) rval(v SVal) SVal {
	if v.addr != nil && v.ts == nil {
		ts := e.x.load(v.addr, e.st)
		e.facts(v.typ, ts)
		return SVal{ts: ts, typ: v.typ, addr: v.addr}
	}
	return v
}

func (e *Env) facts(t types.Type, ts []*Term) {
	for _, a := range ts {
		if a.bound {
			return
		}
	}
	if t != nil {
		r := e.reach
		if r == nil {
			r = True
		}
		e.x.valid(t, ts, e.st, r)
	}
}

func (v *Verifier) resolveType(s string) types.Type {
	if t, ok := v.typeCache[s]; ok {
		return t
	}
	var t types.Type
	switch {
	case strings.HasPrefix(s, "*"):
		t = types.NewPointer(v.resolveType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		t = types.NewSlice(v.resolveType(s[2:]))
	default:
		if o := types.Universe.Lookup(s); o != nil {
			t = o.Type()
			break
		}
		i := strings.LastIndex(s, ".")
		if i < 0 {
			bad("unknown type %s", s)
		}
		for _, p := range v.prog.AllPackages() {
			if shortPath(p.Pkg.Path()) == s[:i] {
				if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						t = tn.Type()
					}
				}
			}
		}
		if t == nil {
			for _, p := range v.extraPkgs {
				if shortPath(p.Path()) == s[:i] {
					if o := p.Scope().Lookup(s[i+1:]); o != nil {
						t = o.Type()
					}
				}
			}
		}
		if t == nil {
			bad("unknown type %s", s)
		}
	}
	v.typeCache[s] = t
	return t
}

// findField: breadth-first through embedded structs by name (or ghost).
func (v *Verifier) findField(T types.Type, name string) (path []int, ghostOwner types.Type, ghost *Ghost) {
	type cand struct {
		t    types.Type
		path []int
	}
	q := []cand{{T, nil}}
	for depth := 0; depth < 6 && len(q) > 0; depth++ {
		var nq []cand
		for _, c := range q {
			for i := range v.ghosts[tstr(c.t)] {
				g := v.ghosts[tstr(c.t)][i]
				if g.name == name {
					return c.path, c.t, &g
				}
			}
			st, ok := c.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				np := append(append([]int{}, c.path...), i)
				if f.Name() == name {
					return np, nil, nil
				}
				if f.Embedded() {
					ft := f.Type()
					if isPtr(ft) {
						continue
					}
					nq = append(nq, cand{ft, np})
				}
			}
		}
		q = nq
	}
	return nil, nil, nil
}

// loc computes the location denoted by a selector (for modifies clauses and loads).
func (e *Env) fieldLoc(v SVal, name string) (*Addr, *Ghost, types.Type) {
	var T types.Type
	var ref *Term
	if v.addr != nil && (v.addr.kind == "obj") {
		T, ref = v.addr.typ, v.addr.ref
	} else if v.typ != nil && isPtr(v.typ) {
		T = deref(v.typ)
		ref = v.ts[0]
	} else {
		return nil, nil, nil
	}
	path, gOwner, g := e.x.V.findField(T, name)
	if path == nil && g == nil {
		bad("no field %s in %s", name, tstr(T))
	}
	a := &Addr{kind: "obj", ref: ref, typ: T}
	for _, i := range path {
		if a.kind != "obj" {
			bad("bad path")
		}
		a = e.x.fieldAddr(a.typ, i, a.ref)
	}
	if g != nil {
		return &Addr{kind: "ghost", m: tstr(gOwner) + "." + g.name, ref: a.ref}, g, gOwner
	}
	return a, nil, nil
}

func (e *Env) eval(n *Node) SVal {
	x := e.x
	switch n.op {
	case "num":
		return intVal(IntB(n.n))
	case "str":
		return strVal(StrConst(n.s))
	case "id":
		switch n.s {
		case "true":
			return boolVal(True)
		case "false":
			return boolVal(False)
		case "nil":
			return SVal{isNil: true, ts: []*Term{Int(0)}}
		}
		if v, ok := e.lookup(n.s); ok {
			return v
		}
		bad("unknown name %s", n.s)
	case "sel":
		// package-qualified global?
		if n.k[0].op == "id" {
			if _, ok := e.lookup(n.k[0].s); !ok {
				return e.globalVal(n.k[0].s, n.s)
			}
		}
		b := e.eval(n.k[0])
		if b.typ != nil && isStruct(b.typ) && b.addr == nil {
			// struct value
			st := b.typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n.s {
					o := structOffset(st, i)
					k := len(leavesOf(st.Field(i).Type()))
					return SVal{ts: b.ts[o : o+k], typ: st.Field(i).Type()}
				}
			}
			bad("no field %s", n.s)
		}
		if b.typ != nil && isIface(b.typ) {
			switch n.s {
			case "tag":
				return intVal(b.ts[0])
			case "val":
				return intVal(b.ts[1])
			}
		}
		a, g, _ := e.fieldLoc(b, n.s)
		if a == nil {
			bad("cannot select %s", n.s)
		}
		if g != nil {
			t := Select(e.st.get(a.m, ArrSort(SInt, g.sort)), a.ref)
			return sortVal(t)
		}
		if a.kind == "obj" || a.kind == "arr" {
			return SVal{typ: a.typ, addr: a}
		}
		ts := x.load(a, e.st)
		e.facts(a.typ, ts)
		return SVal{ts: ts, typ: a.typ}
	case "idx":
		b := e.eval(n.k[0])
		i := e.rval(e.eval(n.k[1]))
		if b.typ == nil {
			return sortVal(Select(b.ts[0], i.ts[0]))
		}
		if isString(b.typ) {
			return intVal(SAt(b.ts[0], i.ts[0]))
		}
		switch u := b.typ.Underlying().(type) {
		case *types.Slice:
			a := x.elemAddr(u.Elem(), b.ts[0], Add(b.ts[1], i.ts[0]))
			if a.kind == "obj" {
				return SVal{typ: u.Elem(), addr: a}
			}
			ts := x.load(a, e.st)
			e.facts(u.Elem(), ts)
			return SVal{ts: ts, typ: u.Elem()}
		case *types.Array:
			if b.addr != nil {
				a := x.elemAddr(u.Elem(), b.addr.ref, i.ts[0])
				if a.kind == "obj" {
					return SVal{typ: u.Elem(), addr: a}
				}
				ts := x.load(a, e.st)
				e.facts(u.Elem(), ts)
				return SVal{ts: ts, typ: u.Elem()}
			}
			var ts []*Term
			for _, t := range b.ts {
				ts = append(ts, Select(t, i.ts[0]))
			}
			return SVal{ts: ts, typ: u.Elem()}
		case *types.Map:
			_, vals := x.mapGet(u, b.ts[0], i.ts[0], e.st)
			e.facts(u.Elem(), vals)
			return SVal{ts: vals, typ: u.Elem()}
		}
		bad("cannot index %s", tstr(b.typ))
	case "slice":
		b := e.eval(n.k[0])
		if !isString(b.typ) {
			lo := Int(0)
			hi := b.ts[2]
			if n.k[1] != nil {
				lo = e.Int(n.k[1])
			}
			if n.k[2] != nil {
				hi = e.Int(n.k[2])
			}
			return SVal{typ: b.typ, ts: []*Term{b.ts[0], Add(b.ts[1], lo), Sub(hi, lo), Sub(b.ts[3], lo)}}
		}
		lo, hi := Int(0), SLen(b.ts[0])
		if n.k[1] != nil {
			lo = e.Int(n.k[1])
		}
		if n.k[2] != nil {
			hi = e.Int(n.k[2])
		}
		return strVal(SSub(b.ts[0], lo, hi))
	case "un":
		if n.s == "!" {
			return boolVal(Not(e.Bool(n.k[0])))
		}
		return intVal(Sub(Int(0), e.Int(n.k[0])))
	case "tern":
		c := e.Bool(n.k[0])
		a, b := e.rval(e.eval(n.k[1])), e.rval(e.eval(n.k[2]))
		r := SVal{typ: a.typ}
		if a.isNil {
			r.typ = b.typ
			a.ts = zeroOf(b.typ)
		}
		if b.isNil {
			b.ts = zeroOf(a.typ)
		}
		for i := range a.ts {
			r.ts = append(r.ts, Ite(c, a.ts[i], b.ts[i]))
		}
		return r
	case "bin":
		return e.bin(n)
	case "array":
		return e.comprehension(n)
	case "forall", "exists":
		ne := *e
		ne.vars = map[string]SVal{}
		for k, v := range e.vars {
			ne.vars[k] = v
		}
		var bvs []*Term
		for _, q := range n.vars {
			var typ types.Type
			if srt, ok := specSorts[q.typ]; ok {
				b := BoundVar(q.name, srt)
				bvs = append(bvs, b)
				ne.vars[q.name] = SVal{ts: []*Term{b}}
				continue
			}
			switch q.typ {
			case "Str":
				typ = types.Typ[types.String]
			default:
				typ = x.V.resolveType(q.typ)
			}
			var ts []*Term
			for _, l := range leavesOf(typ) {
				b := BoundVar(q.name, l.sort)
				ts = append(ts, b)
				bvs = append(bvs, b)
			}
			ne.vars[q.name] = SVal{ts: ts, typ: typ}
		}
		body := ne.Bool(n.k[0])
		var trig [][]*Term
		for _, tg := range n.trig {
			var ts []*Term
			for _, t := range tg {
				v := ne.rval(ne.eval(t))
				ts = append(ts, v.ts[0])
			}
			trig = append(trig, ts)
		}
		bvs, trig, body = normTriggers(bvs, trig, body)
		if n.op == "exists" {
			return boolVal(Not(Forall(bvs, trig, Not(body))))
		}
		return boolVal(Forall(bvs, trig, body))
	case "typeis":
		v := e.eval(n.k[0])
		return boolVal(x.typeCond(x.V.resolveType(n.typ), v.ts[0]))
	case "as":
		v := e.rval(e.eval(n.k[0]))
		t := x.V.resolveType(n.typ)
		if v.typ != nil && isIface(v.typ) {
			return SVal{ts: x.unbox(t, v.ts[1]), typ: t}
		}
		// reinterpretation of a reference (ghost arrays hold plain Ints)
		return SVal{ts: v.ts, typ: t}
	case "call":
		return e.call(n)
	}
	bad("cannot evaluate %s", n.op)
	return SVal{}
}

// floatLit turns an integer literal of a specification into the float constant of that value.
func floatLit(t *Term) *Term {
	if t.isInt() {
		return Sym("f64:"+t.num.String(), SF)
	}
	return t
}

func (e *Env) globalVal(pkg, name string) SVal {
	for _, p := range e.x.V.prog.AllPackages() {
		if shortPath(p.Pkg.Path()) != pkg {
			continue
		}
		if c, ok := p.Members[name].(*ssa.NamedConst); ok {
			return SVal{ts: e.x.constVal(c.Value), typ: c.Type()}
		}
		if g, ok := p.Members[name].(*ssa.Global); ok {
			el := deref(g.Type())
			if isStruct(el) || isArray(el) {
				return SVal{typ: el, addr: e.x.ptrAddr(el, e.x.globRef(g))}
			}
			a := &Addr{kind: "global", m: "G:" + shortPath(g.Pkg.Pkg.Path()) + "." + g.Name(), typ: el}
			ts := e.x.load(a, e.st)
			e.facts(el, ts)
			return SVal{ts: ts, typ: el}
		}
	}
	bad("unknown %s.%s", pkg, name)
	return SVal{}
}

func (e *Env) bin(n *Node) SVal {
	switch n.s {
	case "&&":
		return boolVal(And(e.Bool(n.k[0]), e.Bool(n.k[1])))
	case "||":
		return boolVal(Or(e.Bool(n.k[0]), e.Bool(n.k[1])))
	case "==>":
		return boolVal(Imp(e.Bool(n.k[0]), e.Bool(n.k[1])))
	case "<==>":
		return boolVal(Iff(e.Bool(n.k[0]), e.Bool(n.k[1])))
	}
	a, b := e.rval(e.eval(n.k[0])), e.rval(e.eval(n.k[1]))
	switch n.s {
	case "==", "!=":
		var r *Term
		switch {
		case a.isNil && b.isNil:
			r = True
		case a.isNil:
			r = Eq(b.ts[0], Int(0))
		case b.isNil:
			r = Eq(a.ts[0], Int(0))
		default:
			if a.typ != nil && b.typ != nil {
				if isIface(a.typ) != isIface(b.typ) {
					if isIface(a.typ) {
						b.ts = e.x.makeIface(b.typ, b.ts)
					} else {
						a.ts = e.x.makeIface(a.typ, a.ts)
					}
				}
			}
			if len(a.ts) != len(b.ts) {
				bad("comparing different shapes")
			}
			var cs []*Term
			for i := range a.ts {
				if a.ts[i].sort == SF && b.ts[i].isInt() || b.ts[i].sort == SF && a.ts[i].isInt() {
					cs = append(cs, App("feq", SBool, floatLit(a.ts[i]), floatLit(b.ts[i])))
					continue
				}
				if a.ts[i].sort != b.ts[i].sort {
					bad("comparing different sorts %s %s", a.ts[i].sort, b.ts[i].sort)
				}
				if a.ts[i].sort == SStr {
					e.x.strEqTrig(a.ts[i], b.ts[i])
				}
				cs = append(cs, Eq(a.ts[i], b.ts[i]))
			}
			r = And(cs...)
		}
		if n.s == "!=" {
			r = Not(r)
		}
		return boolVal(r)
	}
	if a.typ != nil && isString(a.typ) && n.s == "+" {
		return strVal(SCat(a.ts[0], b.ts[0]))
	}
	if len(a.ts) == 1 && len(b.ts) == 1 && (a.ts[0].sort == SF || b.ts[0].sort == SF) {
		p, q := floatLit(a.ts[0]), floatLit(b.ts[0])
		switch n.s {
		case "<":
			return boolVal(App("flt", SBool, p, q))
		case "<=":
			return boolVal(App("fle", SBool, p, q))
		case ">":
			return boolVal(App("flt", SBool, q, p))
		case ">=":
			return boolVal(App("fle", SBool, q, p))
		}
	}
	if len(a.ts) != 1 || len(b.ts) != 1 || a.ts[0].sort != SInt || b.ts[0].sort != SInt {
		bad("arithmetic on non-integers in %s", n.s)
	}
	p, q := a.ts[0], b.ts[0]
	switch n.s {
	case "<":
		return boolVal(Lt(p, q))
	case "<=":
		return boolVal(Le(p, q))
	case ">":
		return boolVal(Lt(q, p))
	case ">=":
		return boolVal(Le(q, p))
	case "+":
		return intVal(Add(p, q))
	case "-":
		return intVal(Sub(p, q))
	case "*":
		return intVal(Mul(p, q))
	case "/":
		return intVal(DivE(p, q))
	case "%":
		return intVal(ModE(p, q))
	}
	bad("operator %s", n.s)
	return SVal{}
}

func (e *Env) call(n *Node) SVal {
	x := e.x
	if n.k[0].op != "id" {
		bad("cannot call")
	}
	name := n.k[0].s
	args := n.k[1:]
	switch name {
	case "len":
		v := e.rval(e.eval(args[0]))
		if isString(v.typ) {
			return intVal(SLen(v.ts[0]))
		}
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			return intVal(v.ts[2])
		case *types.Map:
			return intVal(Select(e.st.get("M:"+tstr(u)+"#n", ArrSort(SInt, SInt)), v.ts[0]))
		}
		bad("len")
	case "cap":
		return intVal(e.eval(args[0]).ts[3])
	case "base":
		return intVal(e.eval(args[0]).ts[0])
	case "off":
		return intVal(e.eval(args[0]).ts[1])
	case "old":
		if e.old == nil {
			bad("old() not available")
		}
		return e.with(e.old).rvalIn(args[0])
	case "entry":
		if e.ent == nil {
			bad("entry() outside loop")
		}
		ne := e.with(e.ent)
		if e.entPhis != nil {
			nv := map[string]SVal{}
			for k, v := range e.vars {
				nv[k] = v
			}
			for k, v := range e.entPhis {
				nv[k] = v
			}
			ne.vars = nv
		}
		return ne.rvalIn(args[0])
	case "has":
		m := e.eval(args[0])
		k := e.eval(args[1])
		p, _ := x.mapGet(m.typ.Underlying().(*types.Map), m.ts[0], k.ts[0], e.st)
		return boolVal(p)
	case "fresh":
		v := e.eval(args[0])
		r := v.ts[0]
		if v.typ != nil && isIface(v.typ) {
			r = v.ts[1]
		}
		if v.typ != nil {
			if _, ok := v.typ.Underlying().(*types.Slice); ok {
				r = v.ts[0]
			}
		}
		return boolVal(e.freshT(r))
	case "freshOrNil":
		v := e.eval(args[0])
		r := v.ts[0]
		if v.typ != nil && isIface(v.typ) {
			r = v.ts[1]
		}
		return boolVal(Or(Eq(r, Int(0)), e.freshT(r)))
	case "allocated":
		return boolVal(x.allocated(e.eval(args[0]).ts[0], e.st))
	case "oldalloc":
		return boolVal(x.allocated(e.eval(args[0]).ts[0], e.old))
	case "whole":
		// an object allocated on its own, not part of another one
		return boolVal(Eq(App("kind", SInt, e.eval(args[0]).ts[0]), Int(0)))
	case "unit":
		return strVal(SUnit(e.Int(args[0])))
	case "runestr":
		return strVal(App("runestr", SStr, e.Int(args[0])))
	case "str":
		// bytes of a slice as a string
		v := e.rval(e.eval(args[0]))
		arr := Select(e.st.get("E:uint8", ArrSort(SInt, ArrSort(SInt, SInt))), v.ts[0])
		return strVal(e.x.bstr(arr, v.ts[1], v.ts[2]))
	case "contents":
		// the whole element array behind a slice
		v := e.rval(e.eval(args[0]))
		el := v.typ.Underlying().(*types.Slice).Elem()
		l := leavesOf(el)[0]
		return SVal{ts: []*Term{Select(e.st.get(elemMap(el)+l.path, ArrSort(SInt, ArrSort(SInt, l.sort))), v.ts[0])}}
	case "ref":
		v := e.eval(args[0])
		if v.addr != nil && v.ts == nil {
			return intVal(v.addr.ref)
		}
		if v.typ != nil && isIface(v.typ) {
			return intVal(v.ts[1])
		}
		return intVal(v.ts[0])
	case "rt":
		return intVal(rt(e.eval(args[0]).ts[0]))
	case "addr":
		v := e.eval(args[0])
		if v.addr == nil {
			bad("addr of non-location")
		}
		return SVal{ts: []*Term{v.addr.ref}, typ: types.NewPointer(v.addr.typ)}
	case "imin":
		a, b := e.Int(args[0]), e.Int(args[1])
		return intVal(Ite(Le(a, b), a, b))
	case "store":
		m := e.eval(args[0])
		i := e.rval(e.eval(args[1]))
		v := e.rval(e.eval(args[2]))
		return SVal{ts: []*Term{Store(m.ts[0], i.ts[0], v.ts[0])}}
	}
	if p, ok := x.V.preds[name]; ok {
		if len(p.params) != len(args) {
			bad("pred %s: wrong number of arguments", name)
		}
		ne := *e
		ne.vars = map[string]SVal{}
		for i, q := range p.params {
			ne.vars[q] = e.eval(args[i])
		}
		return ne.eval(p.body)
	}
	if u, ok := x.V.ufns[name]; ok {
		var ts []*Term
		for _, a := range args {
			v := e.rval(e.eval(a))
			ts = append(ts, v.ts...)
		}
		if len(ts) != len(u.args) {
			bad("ufn %s: %d args", name, len(ts))
		}
		for i := range ts {
			if ts[i].sort != u.args[i] {
				bad("ufn %s: arg %d sort %s", name, i, ts[i].sort)
			}
		}
		return sortVal(App(name, u.ret, ts...))
	}
	bad("unknown function %s", name)
	return SVal{}
}

func (e *Env) rvalIn(n *Node) SVal { return e.rval(e.eval(n)) }

func (e *Env) freshT(r *Term) *Term {
	a := e.x.alloc0
	if e.old != nil {
		a = e.old.alloc
	}
	k := App("kind", SInt, r)
	if r.isRefFresh && r.op == "sym" {
		return And(Ge(r, a), Lt(r, e.st.alloc), Eq(k, Int(0)))
	}
	return And(Gt(r, Int(0)), Eq(rt(r), r), Ge(r, a), Lt(r, e.st.alloc), Eq(k, Int(0)))
}

// normTriggers rewrites bound variables so that array indices in triggers are plain
// variables (k+c in a trigger becomes j, with k := j-c elsewhere), and drops triggers
// that cannot be patterns.
func normTriggers(bvs []*Term, trig [][]*Term, body *Term) ([]*Term, [][]*Term, *Term) {
	nb := append([]*Term{}, bvs...)
	for vi, v := range bvs {
		if v.sort != SInt {
			continue
		}
		var off *Term
		var find func(t *Term, d int)
		find = func(t *Term, d int) {
			if off != nil || d > 12 || !t.bound {
				return
			}
			if t.op == "+" {
				if t.args[0] == v && !t.args[1].bound {
					off = t.args[1]
					return
				}
				if t.args[1] == v && !t.args[0].bound {
					off = t.args[0]
					return
				}
				// (a+v)+c
				if in := t.args[0]; in.op == "+" && !t.args[1].bound {
					if in.args[0] == v && !in.args[1].bound {
						off = Add(in.args[1], t.args[1])
						return
					}
					if in.args[1] == v && !in.args[0].bound {
						off = Add(in.args[0], t.args[1])
						return
					}
				}
			}
			for _, a := range t.args {
				find(a, d+1)
			}
		}
		for _, tg := range trig {
			for _, t := range tg {
				find(t, 0)
			}
		}
		if off == nil {
			continue
		}
		j := BoundVar("j", SInt)
		m := map[*Term]*Term{v: Sub(j, off)}
		body = substitute(body, m)
		for gi := range trig {
			for ti := range trig[gi] {
				trig[gi][ti] = substitute(trig[gi][ti], m)
			}
		}
		nb[vi] = j
	}
	var nt [][]*Term
	for _, tg := range trig {
		ok := true
		seen := map[*Term]bool{}
		for _, t := range tg {
			if !t.bound || len(t.args) == 0 || badPattern(t) {
				ok = false
			}
			var mark func(t *Term)
			mark = func(t *Term) {
				if !t.bound {
					return
				}
				seen[t] = true
				for _, a := range t.args {
					mark(a)
				}
			}
			mark(t)
		}
		for _, v := range nb {
			if !seen[v] {
				ok = false
			}
		}
		if ok {
			nt = append(nt, tg)
		}
	}
	return nb, nt, body
}

func badPattern(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "+", "-", "*", "div", "mod", "true", "false":
		return true
	}
	return false
}

// sorts that specifications can name besides Go types
var specSorts = map[string]string{"Strs": ArrSort(SInt, SStr), "Ints": ArrSort(SInt, SInt), "Float": SF}

func specSort(s string) string {
	if r, ok := specSorts[s]; ok {
		return r
	}
	return s
}

// comprehension evaluates (array i int :: e): the array whose i-th entry is e. Equal bodies in
// equal states give the same symbol, defined by a quantified equation.
func (e *Env) comprehension(n *Node) SVal {
	if len(n.vars) != 1 {
		bad("array needs one index")
	}
	ne := *e
	ne.vars = map[string]SVal{}
	for k, v := range e.vars {
		ne.vars[k] = v
	}
	i := B.mk("sym", "arr_i", nil, SInt)
	i.bound = true
	ne.vars[n.vars[0].name] = SVal{ts: []*Term{i}, typ: types.Typ[types.Int]}
	v := ne.rval(ne.eval(n.k[0]))
	if len(v.ts) != 1 {
		bad("array entries must be one value")
	}
	body := v.ts[0]
	a := B.mk("sym", fmt.Sprintf("arr!%d", body.id), nil, ArrSort(SInt, body.sort))
	if a.birth == 0 {
		a.birth = body.birth
	}
	sel := Select(a, i)
	e.x.fact(a.sym, Forall([]*Term{i}, [][]*Term{{sel}}, Eq(sel, body)))
	return SVal{ts: []*Term{a}}
}
