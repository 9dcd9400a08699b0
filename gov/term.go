package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Term is a hash-consed SMT term.
type Term struct {
	op    string // operator, literal or symbol
	kind  byte   // 'c' constant symbol, 'l' literal, 'a' application, 'q' quantifier, 'b' bound variable
	args  []*Term
	sort  string
	id    int
	bound bool // contains a bound variable that is free in it
	iv    *big.Int
	vars  []*Term   // quantifier
	pats  [][]*Term // quantifier patterns
	def   *Term     // definition of a named constant, for see-through simplification
	size  int
	fv    map[int]bool // free bound variables (ids), nil when none
}

type termTable struct {
	mu sync.Mutex
	m  map[string]*Term
	n  int
}

var tt = &termTable{m: map[string]*Term{}}

// funSig is the signature of an uninterpreted (or defined) function symbol.
type funSig struct {
	name string
	args []string
	ret  string
}

var funs = map[string]*funSig{}

func declFun(name string, ret string, args ...string) {
	funs[name] = &funSig{name, args, ret}
}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(t.kind)
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if t.kind == 'q' {
		for _, v := range t.vars {
			fmt.Fprintf(&sb, ";%d", v.id)
		}
		for _, p := range t.pats {
			sb.WriteByte('{')
			for _, x := range p {
				fmt.Fprintf(&sb, ",%d", x.id)
			}
		}
	}
	k := sb.String()
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if o, ok := tt.m[k]; ok {
		return o
	}
	tt.n++
	t.id = tt.n
	t.size = 1
	add := func(x *Term) {
		t.size += x.size
		for v := range x.fv {
			if t.fv == nil {
				t.fv = map[int]bool{}
			}
			t.fv[v] = true
		}
	}
	for _, a := range t.args {
		add(a)
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	if t.kind == 'b' {
		t.fv = map[int]bool{t.id: true}
	}
	if t.kind == 'q' {
		for _, v := range t.vars {
			delete(t.fv, v.id)
		}
	}
	t.bound = len(t.fv) > 0
	tt.m[k] = t
	return t
}

var freshN int

func freshName(base string) string {
	freshN++
	return fmt.Sprintf("%s!%d", base, freshN)
}

func mkConst(name, sort string) *Term { return intern(&Term{op: name, kind: 'c', sort: sort}) }
func freshConst(base, sort string) *Term {
	return mkConst(freshName(base), sort)
}
func mkBoundVar(base, sort string) *Term {
	return intern(&Term{op: freshName(base), kind: 'b', sort: sort})
}

// canonVar is the bound variable of a nesting depth: equal formulas become equal terms.
func canonVar(base, sort string, depth int) *Term {
	return intern(&Term{op: fmt.Sprintf("%s@%d", base, depth), kind: 'b', sort: sort})
}

func mkIntB(v *big.Int) *Term {
	s := v.String()
	if v.Sign() < 0 {
		s = "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return intern(&Term{op: s, kind: 'l', sort: "Int", iv: v})
}
func mkInt(v int64) *Term { return mkIntB(big.NewInt(v)) }

var tTrue = intern(&Term{op: "true", kind: 'l', sort: "Bool"})
var tFalse = intern(&Term{op: "false", kind: 'l', sort: "Bool"})

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func app(op, sort string, args ...*Term) *Term {
	return intern(&Term{op: op, kind: 'a', sort: sort, args: args})
}

// call applies a declared function.
func call(name string, args ...*Term) *Term {
	s := funs[name]
	if s == nil {
		panic("undeclared function " + name)
	}
	if len(s.args) != len(args) {
		panic(fmt.Sprintf("function %s: %d args", name, len(args)))
	}
	for i := range args {
		if args[i].sort != s.args[i] {
			panic(fmt.Sprintf("function %s: arg %d has sort %s, want %s", name, i, args[i].sort, s.args[i]))
		}
	}
	// datatype selectors over constructors
	if len(args) == 1 && args[0].kind == 'a' {
		if sel, ok := selectors[name]; ok && sel.ctor == args[0].op {
			return args[0].args[sel.idx]
		}
	}
	if len(args) == 1 && args[0].kind == 'a' && args[0].op == "ite" {
		if _, ok := selectors[name]; ok {
			return mkIte(args[0].args[0], call(name, args[0].args[1]), call(name, args[0].args[2]))
		}
	}
	return app(name, s.ret, args...)
}

type selInfo struct {
	ctor string
	idx  int
}

var selectors = map[string]selInfo{}
var ctors = map[string]string{} // constructor -> datatype

func mkNot(a *Term) *Term {
	if a == tTrue {
		return tFalse
	}
	if a == tFalse {
		return tTrue
	}
	if a.op == "not" && a.kind == 'a' {
		return a.args[0]
	}
	return app("not", "Bool", a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tFalse {
			return false
		}
		if a == tTrue || seen[a.id] {
			return true
		}
		if a.kind == 'a' && a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	for _, a := range out {
		if seen[mkNotID(a)] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("and", "Bool", out...)
}

func mkNotID(a *Term) int {
	if a.kind == 'a' && a.op == "not" {
		return a.args[0].id
	}
	return -1
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == tTrue {
			return tTrue
		}
		if a == tFalse || seen[a.id] {
			continue
		}
		if a.kind == 'a' && a.op == "or" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if id := mkNotID(a); id >= 0 && seen[id] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("or", "Bool", out...)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	return app("=>", "Bool", a, b)
}

// linear decomposition: base + constant
func splitAdd(t *Term) (*Term, *big.Int) {
	if t.iv != nil {
		return nil, t.iv
	}
	if t.kind == 'a' && t.op == "+" && len(t.args) == 2 && t.args[1].iv != nil {
		return t.args[0], t.args[1].iv
	}
	return t, big.NewInt(0)
}

// diffKnown reports whether a and b are certainly different / equal.
func cmpKnown(a, b *Term) (eq, known bool) {
	if a == b {
		return true, true
	}
	if a.sort == "Int" {
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb {
			return ca.Cmp(cb) == 0, true
		}
		return false, false
	}
	if a.kind == 'l' && b.kind == 'l' {
		return false, true
	}
	if da, ok := ctorOf(a); ok {
		if db, ok := ctorOf(b); ok && da != db {
			return false, true
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return false, true
	}
	return false, false
}

func ctorOf(a *Term) (string, bool) {
	if a.kind == 'a' || a.kind == 'c' {
		if _, ok := ctors[a.op]; ok {
			return a.op, true
		}
	}
	return "", false
}

func mkEq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq: sorts %s vs %s (%s = %s)", a.sort, b.sort, a, b))
	}
	if eq, k := cmpKnown(a, b); k {
		return mkBool(eq)
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	if ca, ok := ctorOf(a); ok {
		if cb, ok := ctorOf(b); ok && ca == cb {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, mkEq(a.args[i], b.args[i]))
			}
			return mkAnd(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("=", "Bool", a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == tTrue && b == tFalse {
		return c
	}
	if a == tFalse && b == tTrue {
		return mkNot(c)
	}
	return app("ite", a.sort, c, a, b)
}

func mkAdd(a, b *Term) *Term {
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	c := new(big.Int).Add(ca, cb)
	var base *Term
	switch {
	case ba == nil && bb == nil:
		return mkIntB(c)
	case ba == nil:
		base = bb
	case bb == nil:
		base = ba
	default:
		// cancel x + (0 - x) forms
		if bb.kind == 'a' && bb.op == "-" && len(bb.args) == 2 && bb.args[1] == ba {
			base = bb.args[0]
			if base.iv != nil {
				return mkAdd(base, mkIntB(c))
			}
			return mkAdd(base, mkIntB(c))
		}
		if ba.kind == 'a' && ba.op == "-" && len(ba.args) == 2 && ba.args[1] == bb {
			return mkAdd(ba.args[0], mkIntB(c))
		}
		base = app("+", "Int", ba, bb)
	}
	if c.Sign() == 0 {
		return base
	}
	return app("+", "Int", base, mkIntB(c))
}

func mkSub(a, b *Term) *Term {
	if a == b {
		return mkInt(0)
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	c := new(big.Int).Sub(ca, cb)
	if bb == nil {
		return mkAdd(a, mkIntB(new(big.Int).Neg(cb)))
	}
	if ba == bb {
		return mkIntB(c)
	}
	if ba == nil {
		return app("-", "Int", mkIntB(c), bb)
	}
	// (x + y) - y
	if ba.kind == 'a' && ba.op == "+" && len(ba.args) == 2 {
		if ba.args[0] == bb {
			return mkAdd(ba.args[1], mkIntB(c))
		}
		if ba.args[1] == bb {
			return mkAdd(ba.args[0], mkIntB(c))
		}
	}
	return mkAdd(app("-", "Int", ba, bb), mkIntB(c))
}

func mkMul(a, b *Term) *Term {
	if a.iv != nil && b.iv != nil {
		return mkIntB(new(big.Int).Mul(a.iv, b.iv))
	}
	if a.iv != nil {
		a, b = b, a
	}
	if b.iv != nil {
		if b.iv.Sign() == 0 {
			return mkInt(0)
		}
		if b.iv.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return app("*", "Int", a, b)
}

func mkLe(a, b *Term) *Term {
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb {
		return mkBool(ca.Cmp(cb) <= 0)
	}
	return app("<=", "Bool", a, b)
}

func mkLt(a, b *Term) *Term { return mkLe(mkAdd(a, mkInt(1)), b) }
func mkGe(a, b *Term) *Term { return mkLe(b, a) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

// arrays
func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }
func arrElem(s string) string {
	k, v := splitArr(s)
	_ = k
	return v
}
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func mkSelect(a, i *Term) *Term {
	k, v := splitArr(a.sort)
	if i.sort != k {
		panic(fmt.Sprintf("select: index sort %s, want %s in %s", i.sort, k, a))
	}
	cur := a
	for n := 0; n < 200; n++ {
		d := cur
		if d.def != nil {
			d = d.def
		}
		if d.kind == 'a' && d.op == "store" {
			eq, known := cmpKnown(d.args[1], i)
			if known && eq {
				return d.args[2]
			}
			if known {
				cur = d.args[0]
				continue
			}
		}
		if d.kind == 'a' && d.op == "constarr" {
			return d.args[0]
		}
		break
	}
	return app("select", v, cur, i)
}

func mkStore(a, i, v *Term) *Term {
	k, e := splitArr(a.sort)
	if i.sort != k || v.sort != e {
		panic(fmt.Sprintf("store: %s [%s:=%s]", a.sort, i.sort, v.sort))
	}
	return app("store", a.sort, a, i, v)
}

// constarr is printed as ((as const S) v)
func mkConstArr(sort string, v *Term) *Term { return app("constarr", sort, v) }

func mkQuant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var used []*Term
	for _, v := range vars {
		if body.fv[v.id] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	vars = used
	// a pattern is made of terms with bound variables, all of which occur in it
	var ok [][]*Term
	for _, pt := range pats {
		var ts []*Term
		for _, x := range pt {
			for _, v := range vars {
				if x.fv[v.id] {
					ts = append(ts, x)
					break
				}
			}
		}
		all := true
		for _, v := range vars {
			in := false
			for _, x := range ts {
				in = in || x.fv[v.id]
			}
			all = all && in
		}
		if all {
			ok = append(ok, ts)
		}
	}
	pats = ok
	return intern(&Term{op: q, kind: 'q', sort: "Bool", args: []*Term{body}, vars: vars, pats: pats})
}

func mkForall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return mkQuant("forall", vars, body, pats)
}

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil)
	return sb.String()
}

func quoteSym(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_!.$-", c) >= 0) {
			return "|" + strings.ReplaceAll(s, "|", "_") + "|"
		}
	}
	return s
}

// printer writes terms as SMT-LIB; in uf mode arrays are an uninterpreted sort with axioms for select and store.
type printer struct {
	sb     *strings.Builder
	names  map[int]string
	consts map[int]string // the names that are constants, not macros
	uf     bool
	sorts  map[string]bool
}

func mangle(s string) string {
	s = strings.ReplaceAll(s, "(Array ", "A<")
	s = strings.ReplaceAll(s, ")", ">")
	return strings.ReplaceAll(s, " ", "_")
}

func (p *printer) sort(s string) string {
	if p.uf && strings.HasPrefix(s, "(Array ") {
		p.addSort(s)
		return "|" + mangle(s) + "|"
	}
	return s
}

func (p *printer) addSort(s string) {
	if !strings.HasPrefix(s, "(Array ") || p.sorts[s] {
		return
	}
	k, v := splitArr(s)
	p.addSort(k)
	p.addSort(v)
	p.sorts[s] = true
}

func printTerm(sb *strings.Builder, t *Term, names map[int]string) {
	(&printer{sb: sb, names: names}).term(t)
}

func (p *printer) term(t *Term) {
	if n, ok := p.names[t.id]; ok {
		p.sb.WriteString(n)
		return
	}
	p.body(t)
}

func (p *printer) body(t *Term) {
	sb := p.sb
	switch t.kind {
	case 'c', 'b':
		sb.WriteString(quoteSym(t.op))
	case 'l':
		sb.WriteString(t.op)
	case 'a':
		if len(t.args) == 0 {
			sb.WriteString(quoteSym(t.op))
			return
		}
		if t.op == "constarr" {
			if p.uf {
				sb.WriteString("(|const:" + mangle(t.sort) + "| ")
				p.addSort(t.sort)
			} else {
				sb.WriteString("((as const " + t.sort + ") ")
			}
			p.term(t.args[0])
			sb.WriteByte(')')
			return
		}
		sb.WriteByte('(')
		if strings.HasPrefix(t.op, "(") {
			sb.WriteString(t.op)
		} else {
			switch t.op {
			case "=", "=>", "<=", "<", ">", ">=", "+", "-", "*":
				sb.WriteString(t.op)
			case "select", "store":
				if p.uf {
					p.addSort(t.args[0].sort)
					sb.WriteString("|" + t.op + ":" + mangle(t.args[0].sort) + "|")
				} else {
					sb.WriteString(t.op)
				}
			default:
				sb.WriteString(quoteSym(t.op))
			}
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			p.term(a)
		}
		sb.WriteByte(')')
	case 'q':
		sb.WriteByte('(')
		sb.WriteString(t.op)
		sb.WriteString(" (")
		for _, v := range t.vars {
			sb.WriteString("(" + quoteSym(v.op) + " " + p.sort(v.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		p.term(t.args[0])
		np := &printer{sb: sb, uf: p.uf, sorts: p.sorts, names: p.consts}
		for _, pt := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					sb.WriteByte(' ')
				}
				np.term(x)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	}
}

// collect walks the terms and returns constants, functions and sorts used.
type collector struct {
	seen   map[int]bool
	consts []*Term
	fns    map[string]bool
	refs   map[int]int
	order  []*Term
}

func newCollector() *collector {
	return &collector{seen: map[int]bool{}, fns: map[string]bool{}, refs: map[int]int{}}
}

func (c *collector) walk(t *Term) {
	c.refs[t.id]++
	if c.seen[t.id] {
		return
	}
	c.seen[t.id] = true
	switch t.kind {
	case 'c':
		if _, ok := ctors[t.op]; !ok {
			c.consts = append(c.consts, t)
		}
	case 'a':
		if _, ok := funs[t.op]; ok {
			c.fns[t.op] = true
		}
	}
	for _, a := range t.args {
		c.walk(a)
	}
	for _, p := range t.pats {
		for _, x := range p {
			c.walk(x)
		}
	}
	c.order = append(c.order, t)
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
