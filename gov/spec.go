package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Contract files: lexer, parser and syntax tree.

type tok struct {
	k    byte // 'i' identifier, 'n' number, 's' string, 'o' operator, 0 end
	s    string
	line int
}

type lexer struct {
	file string
	toks []tok
}

func isIdent(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

var operators = []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":=",
	"<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ";", ":", "?", "=", "&", "|"}

func lex(file, src string) (ts []tok, err error) {
	line := 1
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, e := strconv.Unquote(src[i : j+1])
			if e != nil {
				return nil, fmt.Errorf("%s:%d: bad string", file, line)
			}
			ts = append(ts, tok{'s', s, line})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, e := strconv.UnquoteChar(src[i+1:j], '\'')
			if e != nil {
				return nil, fmt.Errorf("%s:%d: bad char", file, line)
			}
			ts = append(ts, tok{'n', strconv.Itoa(int(r)), line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && isIdent(src[j]) {
				j++
			}
			ts = append(ts, tok{'n', src[i:j], line})
			i = j
		case isIdent(c):
			j := i
			for j < len(src) && isIdent(src[j]) {
				j++
			}
			ts = append(ts, tok{'i', src[i:j], line})
			i = j
		default:
			ok := false
			for _, o := range operators {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{'o', o, line})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("%s:%d: unexpected %q", file, line, c)
			}
		}
	}
	return append(ts, tok{0, "end of file", line}), nil
}

// types in specifications
type typeExpr struct {
	op   string // "name", "*", "[]", "map"
	name string
	a, b *typeExpr
}

func (t *typeExpr) String() string {
	switch t.op {
	case "*":
		return "*" + t.a.String()
	case "[]":
		return "[]" + t.a.String()
	case "map":
		return "map[" + t.a.String() + "]" + t.b.String()
	}
	return t.name
}

type binder struct {
	name string
	typ  *typeExpr
}

// expr is a node of a specification expression.
type expr struct {
	op   string // id num str bin un cond call sel idx forall exists let is as lambda
	s    string
	a    []*expr
	typ  *typeExpr
	vars []binder
	pats [][]*expr
	line int
	file string
}

type gstmt struct { // ghost statement
	op   string // assign, if, bulk, let, assert, assume
	lhs  *expr
	rhs  *expr
	cond *expr
	then []*gstmt
	els  []*gstmt
	name string
	vs   []string
	line int
}

type clause struct {
	label string
	e     *expr
	lemma bool
}

type modItem struct {
	e    *expr    // e.f or e[*]
	all  bool     // e[*]
	comp string   // comp name with bound keys
	vars []string // keys
	cond *expr
	set  string // a named set of items
	args []*expr
}

type loopSpec struct {
	invs   []clause
	unroll int
	back   []*gstmt
	entry  []*gstmt
	mods   []modItem
	hasMod bool
}

type storeEvent struct {
	comp  string
	vars  []string
	body  []*gstmt
	after bool
}

type callEvent struct {
	fn    string
	vars  []string
	body  []*gstmt
	after bool
}

type contract struct {
	key      string
	file     string
	line     int
	pkg      string
	params   []string
	results  []string
	requires []clause
	ensures  []clause
	gens     []clause // known inside the group only
	invs     []clause
	mods     []modItem
	loops    map[int]*loopSpec
	trusted  bool
	inline   bool
	pure     bool
	noret    bool
	noalloc  bool // allocates nothing
	checked  bool // overflow obligations
	group    string
	stores   []storeEvent
	calls    []callEvent
	exit     []*gstmt
	entry    []*gstmt
	others   []clause // preserved for every other object: "others x T :: e"
	funtype  bool
	panics   *expr
	note     string
	recvPtr  bool
	init     bool   // of a package initialiser
	impl     string // key of the function type whose contract this function meets
}

type predDef struct {
	name   string
	params []binder
	ret    *typeExpr
	body   *expr
	pkg    string
	opaque bool
}

type funDef struct {
	name   string
	params []*typeExpr
	ret    *typeExpr
	pkg    string
}

type axiomDef struct {
	name   string
	e      *expr
	pkg    string
	lemma  bool
	manual bool // only used by an explicit use statement
	only   []string // the functions a package invariant is given to, all if empty
	uses   []string
}

type ghostDef struct {
	owner, field string
	typ          *typeExpr
	pkg          string
}

type sealDef struct{ group, pkg, comp string }

type modSet struct {
	name   string
	params []binder
	items  []modItem
	pkg    string
}

type specs struct {
	contracts map[string]*contract
	preds     map[string]*predDef
	funs      map[string]*funDef
	axioms    []*axiomDef
	ghosts    map[string]*ghostDef // T.f or map name
	ghostMaps map[string]*ghostDef
	ghostVars map[string]*ghostDef
	globinvs  []*axiomDef
	immutable []string
	funcSets  map[string][]string
	props     map[string][]string
	bounded   map[string][]string
	sealed    []sealDef
	parts     []sealDef
	ownElems  []string
	readonly  []sealDef // readable by everyone, stored to by the group only
	zeroed    []sealDef
	modsets   map[string]*modSet
	order     []string
}

type parser struct {
	file string
	ts   []tok
	p    int
	sp   *specs
	pkg  string
	grp  string
}

type parseErr string

func (p *parser) fail(f string, a ...any) {
	panic(parseErr(fmt.Sprintf("%s:%d: %s", p.file, p.cur().line, fmt.Sprintf(f, a...))))
}
func (p *parser) cur() tok { return p.ts[p.p] }
func (p *parser) peek(n int) tok {
	if p.p+n < len(p.ts) {
		return p.ts[p.p+n]
	}
	return p.ts[len(p.ts)-1]
}
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	return (p.cur().k == 'o' || p.cur().k == 'i') && p.cur().s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) want(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.cur().s)
	}
}
func (p *parser) ident() string {
	if p.cur().k != 'i' {
		p.fail("expected an identifier, found %q", p.cur().s)
	}
	return p.next().s
}

func loadSpecs(dir string) (sp *specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	sp = &specs{contracts: map[string]*contract{}, preds: map[string]*predDef{}, funs: map[string]*funDef{},
		ghosts: map[string]*ghostDef{}, ghostMaps: map[string]*ghostDef{}, ghostVars: map[string]*ghostDef{}, props: map[string][]string{}, funcSets: map[string][]string{},
		bounded: map[string][]string{}, modsets: map[string]*modSet{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ts, err := lex(filepath.Base(f), string(b))
		if err != nil {
			return nil, err
		}
		p := &parser{file: filepath.Base(f), ts: ts, sp: sp}
		p.parseFile()
	}
	return sp, nil
}

func (p *parser) parseFile() {
	for p.cur().k != 0 {
		switch kw := p.ident(); kw {
		case "package":
			p.pkg = p.ident()
		case "group":
			p.grp = p.ident()
			if p.grp == "none" {
				p.grp = ""
			}
		case "zeroed": // sealed components whose cells of objects not yet allocated are nil
			for {
				p.sp.zeroed = append(p.sp.zeroed, sealDef{p.grp, p.pkg, p.compName()})
				if !p.accept(",") {
					break
				}
			}
		case "partition": // the group has its own copies of a package's structs
			p.sp.parts = append(p.sp.parts, sealDef{p.grp, p.pkg, p.next().s})
		case "ownelems":
			p.sp.ownElems = append(p.sp.ownElems, p.pkg+"."+p.ident())
		case "readonly":
			for {
				p.sp.readonly = append(p.sp.readonly, sealDef{p.grp, p.pkg, p.compName()})
				if !p.accept(",") {
					break
				}
			}
		case "sealed":
			for {
				p.sp.sealed = append(p.sp.sealed, sealDef{p.grp, p.pkg, p.compName()})
				if !p.accept(",") {
					break
				}
			}
		case "modset":
			d := &modSet{name: p.ident(), pkg: p.pkg}
			p.want("(")
			for !p.accept(")") {
				n := p.ident()
				d.params = append(d.params, binder{n, p.typ()})
				p.accept(",")
			}
			p.want("=")
			for {
				d.items = append(d.items, p.modItem())
				if !p.accept(",") {
					break
				}
			}
			p.sp.modsets[d.name] = d
		case "ghost":
			o := p.ident()
			p.want(".")
			f := p.ident()
			g := &ghostDef{o, f, p.typ(), p.pkg}
			p.sp.ghosts[p.pkg+"."+o+"."+f] = g
		case "ghostmap":
			n := p.ident()
			p.sp.ghostMaps[n] = &ghostDef{"", n, p.typ(), p.pkg}
		case "ghostvar":
			n := p.ident()
			p.sp.ghostVars[n] = &ghostDef{"", n, p.typ(), p.pkg}
		case "globinv":
			d := &axiomDef{name: p.ident(), pkg: p.pkg}
			if p.accept("for") {
				for {
					d.only = append(d.only, p.pkg+"."+p.fnName())
					if !p.accept(",") {
						break
					}
				}
			}
			p.want(":")
			d.e = p.expr()
			p.sp.globinvs = append(p.sp.globinvs, d)
		case "immutable": // structs whose fields are stored to when they are built, or by initialisers, only
			for {
				p.sp.immutable = append(p.sp.immutable, p.pkg+"."+p.ident())
				if !p.accept(",") {
					break
				}
			}
		case "fun":
			f := &funDef{name: p.ident(), pkg: p.pkg}
			p.want("(")
			for !p.accept(")") {
				f.params = append(f.params, p.typ())
				p.accept(",")
			}
			f.ret = p.typ()
			p.sp.funs[f.name] = f
		case "pred", "def":
			d := &predDef{name: p.ident(), pkg: p.pkg}
			p.want("(")
			for !p.accept(")") {
				n := p.ident()
				d.params = append(d.params, binder{n, p.typ()})
				p.accept(",")
			}
			if kw == "def" {
				d.ret = p.typ()
			}
			p.want("=")
			d.body = p.expr()
			if _, dup := p.sp.preds[d.name]; dup {
				p.fail("duplicate %s", d.name)
			}
			p.sp.preds[d.name] = d
		case "axiom", "lemma":
			a := &axiomDef{name: p.ident(), pkg: p.pkg, lemma: kw == "lemma"}
			if p.accept("manual") {
				a.manual = true
			}
			if p.accept("by") {
				for {
					a.uses = append(a.uses, p.ident())
					if !p.accept(",") {
						break
					}
				}
			}
			p.want(":")
			a.e = p.expr()
			p.sp.axioms = append(p.sp.axioms, a)
		case "property", "funcset": // the functions a property rests on; funcset names a list of them
			id := p.ident()
			p.want(":")
			for {
				n := p.fnName()
				add := []string{n}
				if l, ok := p.sp.funcSets[n]; ok {
					add = l
				}
				for _, a := range add {
					if kw == "funcset" {
						p.sp.funcSets[id] = append(p.sp.funcSets[id], a)
					} else if !contains(p.sp.props[id], a) {
						p.sp.props[id] = append(p.sp.props[id], a)
					}
				}
				if !p.accept(",") {
					break
				}
			}
		case "bounded":
			id := p.ident()
			p.want(":")
			p.sp.bounded[id] = append(p.sp.bounded[id], p.next().s)
		case "func", "functype":
			p.parseFunc(kw == "functype")
		default:
			p.fail("unexpected %q", kw)
		}
	}
}

func (p *parser) fnName() string {
	s := p.ident()
	for p.accept(".") {
		s += "." + p.ident()
	}
	return s
}

// parseFunc parses "func (r *T) Name(a, b) (x, y)" or "func pkg.Name(a) (x)" and its clauses.
func (p *parser) parseFunc(ft bool) {
	c := &contract{file: p.file, line: p.cur().line, pkg: p.pkg, group: p.grp, loops: map[int]*loopSpec{}, funtype: ft}
	if p.accept("(") {
		recv := p.ident()
		t := p.typ()
		p.want(")")
		if t.op == "*" {
			t = t.a
			c.recvPtr = true
		}
		tn := t.name
		if !strings.Contains(tn, ".") {
			tn = p.pkg + "." + tn
		}
		c.key = tn + "." + p.ident()
		c.params = append(c.params, recv)
	} else {
		n := p.fnName()
		if !strings.Contains(n, ".") {
			n = p.pkg + "." + n
		}
		c.key = n
	}
	p.want("(")
	for !p.accept(")") {
		c.params = append(c.params, p.ident())
		p.accept(",")
	}
	if p.accept("(") {
		for !p.accept(")") {
			c.results = append(c.results, p.ident())
			p.accept(",")
		}
	}
	lbl := func() string {
		if p.cur().k == 's' && p.peek(1).s == ":" {
			s := p.next().s
			p.want(":")
			return s
		}
		return ""
	}
	loop := func(n int) *loopSpec {
		if c.loops[n] == nil {
			c.loops[n] = &loopSpec{}
		}
		return c.loops[n]
	}
	for {
		switch {
		case p.accept("requires"):
			l := lbl()
			c.requires = append(c.requires, clause{label: l, e: p.expr()})
		case p.accept("ensures"):
			l := lbl()
			c.ensures = append(c.ensures, clause{label: l, e: p.expr()})
		case p.accept("gensures"):
			l := lbl()
			c.gens = append(c.gens, clause{label: l, e: p.expr()})
		case p.accept("inv"):
			l := lbl()
			c.invs = append(c.invs, clause{label: l, e: p.expr()})
		case p.accept("others"):
			l := lbl()
			c.others = append(c.others, clause{label: l, e: p.expr()})
		case p.accept("modifies"):
			for {
				c.mods = append(c.mods, p.modItem())
				if !p.accept(",") {
					break
				}
			}
		case p.accept("trusted"):
			c.trusted = true
			if p.cur().k == 's' {
				c.note = p.next().s
			}
		case p.accept("inline"):
			c.inline = true
		case p.accept("checked"):
			c.checked = true
		case p.accept("noreturn"):
			c.noret = true
		case p.accept("noalloc"):
			c.noalloc = true
		case p.accept("implements"):
			c.impl = p.compName()
		case p.accept("loop"):
			n, _ := strconv.Atoi(p.next().s)
			switch {
			case p.accept("invariant"):
				l := lbl()
				loop(n).invs = append(loop(n).invs, clause{label: l, e: p.expr()})
			case p.accept("unroll"):
				k, _ := strconv.Atoi(p.next().s)
				loop(n).unroll = k
			case p.accept("modifies"):
				loop(n).hasMod = true
				for {
					loop(n).mods = append(loop(n).mods, p.modItem())
					if !p.accept(",") {
						break
					}
				}
			default:
				p.fail("loop clause %q", p.cur().s)
			}
		case p.is("on"):
			p.next()
			switch {
			case p.accept("exit"):
				c.exit = append(c.exit, p.gblock()...)
			case p.accept("entry"):
				c.entry = append(c.entry, p.gblock()...)
			case p.accept("backedge"):
				n, _ := strconv.Atoi(p.next().s)
				loop(n).back = append(loop(n).back, p.gblock()...)
			case p.accept("loop"):
				n, _ := strconv.Atoi(p.next().s)
				loop(n).entry = append(loop(n).entry, p.gblock()...)
			case p.is("store") || p.is("prestore"):
				after := p.next().s == "store"
				ev := storeEvent{comp: p.compName(), after: after}
				p.want("(")
				for !p.accept(")") {
					ev.vars = append(ev.vars, p.ident())
					p.accept(",")
				}
				ev.body = p.gblock()
				c.stores = append(c.stores, ev)
			case p.is("call") || p.is("precall"):
				after := p.next().s == "call"
				ev := callEvent{fn: p.compName(), after: after}
				p.want("(")
				for !p.accept(")") {
					ev.vars = append(ev.vars, p.ident())
					p.accept(",")
				}
				ev.body = p.gblock()
				c.calls = append(c.calls, ev)
			default:
				p.fail("event %q", p.cur().s)
			}
		default:
			if old := p.sp.contracts[c.key]; old != nil {
				p.fail("duplicate contract for %s", c.key)
			}
			p.sp.contracts[c.key] = c
			p.sp.order = append(p.sp.order, c.key)
			return
		}
	}
}

func (p *parser) compName() string {
	if p.cur().k == 's' {
		return p.next().s
	}
	s := p.fnName()
	return s
}

func (p *parser) modItem() modItem {
	if p.is("modset") {
		p.next()
		return modItem{set: p.ident(), args: p.args()}
	}
	if p.is("comp") {
		p.next()
		m := modItem{comp: p.compName()}
		if p.accept("(") {
			for !p.accept(")") {
				m.vars = append(m.vars, p.ident())
				p.accept(",")
			}
		}
		if p.accept("if") {
			m.cond = p.expr()
		}
		return m
	}
	e := p.postfix()
	if e.op == "star" {
		return modItem{e: e.a[0], all: true}
	}
	return modItem{e: e}
}

func (p *parser) args() (out []*expr) {
	p.want("(")
	for !p.accept(")") {
		out = append(out, p.expr())
		p.accept(",")
	}
	return
}

func (p *parser) gblock() []*gstmt {
	p.want("{")
	var out []*gstmt
	for !p.accept("}") {
		out = append(out, p.gstmt())
		p.accept(";")
	}
	return out
}

func (p *parser) gstmt() *gstmt {
	line := p.cur().line
	switch {
	case p.accept("if"):
		s := &gstmt{op: "if", cond: p.expr(), line: line}
		s.then = p.gblock()
		if p.accept("else") {
			if p.is("if") {
				s.els = []*gstmt{p.gstmt()}
			} else {
				s.els = p.gblock()
			}
		}
		return s
	case p.accept("bulk"):
		s := &gstmt{op: "bulk", name: p.compName(), line: line}
		p.want("(")
		for !p.accept(")") {
			s.vs = append(s.vs, p.ident())
			p.accept(",")
		}
		p.want("=")
		s.rhs = p.expr()
		return s
	case p.is("let") && p.peek(2).s == "=":
		p.next()
		s := &gstmt{op: "let", name: p.ident(), line: line}
		p.want("=")
		s.rhs = p.expr()
		return s
	case p.accept("use"):
		return &gstmt{op: "use", rhs: p.expr(), line: line}
	case p.is("assert") || p.is("assume"):
		s := &gstmt{op: p.next().s, line: line}
		if p.cur().k == 's' && p.peek(1).s == ":" {
			s.name = p.next().s
			p.want(":")
		}
		s.rhs = p.expr()
		return s
	}
	s := &gstmt{op: "assign", lhs: p.postfix(), line: line}
	p.want("=")
	s.rhs = p.expr()
	return s
}

func (p *parser) typ() *typeExpr {
	switch {
	case p.accept("*"):
		return &typeExpr{op: "*", a: p.typ()}
	case p.accept("["):
		p.want("]")
		return &typeExpr{op: "[]", a: p.typ()}
	case p.accept("map"):
		p.want("[")
		a := p.typ()
		p.want("]")
		return &typeExpr{op: "map", a: a, b: p.typ()}
	}
	n := p.ident()
	if p.is(".") && p.peek(1).k == 'i' {
		p.next()
		n += "." + p.ident()
	}
	return &typeExpr{op: "name", name: n}
}

func (p *parser) node(op, s string, a ...*expr) *expr {
	return &expr{op: op, s: s, a: a, line: p.cur().line, file: p.file}
}

func (p *parser) expr() *expr {
	switch {
	case p.is("forall") || p.is("exists") || p.is("lambda"):
		q := p.node(p.next().s, "")
		for {
			names := []string{p.ident()}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			t := p.typ()
			for _, n := range names {
				q.vars = append(q.vars, binder{n, t})
			}
			if !p.accept(";") {
				break
			}
		}
		for p.accept("{") {
			var pat []*expr
			for {
				pat = append(pat, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.want("}")
			q.pats = append(q.pats, pat)
		}
		p.want("::")
		q.a = []*expr{p.expr()}
		return q
	case p.is("let"):
		n := p.node("let", "")
		p.next()
		n.s = p.ident()
		p.want("=")
		v := p.expr()
		p.want("in")
		n.a = []*expr{v, p.expr()}
		return n
	}
	return p.iff()
}

func (p *parser) iff() *expr {
	a := p.cond()
	for p.is("<==>") {
		p.next()
		a = p.node("bin", "<==>", a, p.cond())
	}
	return a
}

func (p *parser) cond() *expr {
	a := p.imp()
	if p.accept("?") {
		b := p.expr()
		p.want(":")
		return p.node("cond", "", a, b, p.expr())
	}
	return a
}

func (p *parser) imp() *expr {
	a := p.or()
	if p.accept("==>") {
		var b *expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			b = p.expr()
		} else {
			b = p.imp()
		}
		return p.node("bin", "==>", a, b)
	}
	return a
}

func (p *parser) or() *expr {
	a := p.and()
	for p.accept("||") {
		a = p.node("bin", "||", a, p.and())
	}
	return a
}

func (p *parser) and() *expr {
	a := p.cmp()
	for p.accept("&&") {
		var b *expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			b = p.expr()
		} else {
			b = p.cmp()
		}
		a = p.node("bin", "&&", a, b)
	}
	return a
}

func (p *parser) cmp() *expr {
	a := p.add()
	var out *expr
	for {
		o := p.cur().s
		if p.cur().k != 'o' || !(o == "==" || o == "!=" || o == "<" || o == "<=" || o == ">" || o == ">=") {
			break
		}
		p.next()
		b := p.add()
		n := p.node("bin", o, a, b)
		if out == nil {
			out = n
		} else {
			out = p.node("bin", "&&", out, n)
		}
		a = b
	}
	if out != nil {
		return out
	}
	if p.is("is") {
		p.next()
		n := p.node("is", "", a)
		n.typ = p.typ()
		return n
	}
	return a
}

func (p *parser) add() *expr {
	a := p.mul()
	for p.is("+") || p.is("-") {
		o := p.next().s
		a = p.node("bin", o, a, p.mul())
	}
	return a
}

func (p *parser) mul() *expr {
	a := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.next().s
		a = p.node("bin", o, a, p.unary())
	}
	return a
}

func (p *parser) unary() *expr {
	if p.is("!") || p.is("-") {
		o := p.next().s
		return p.node("un", o, p.unary())
	}
	return p.postfix()
}

func (p *parser) postfix() *expr {
	e := p.primary()
	for {
		switch {
		case p.is(".") && p.peek(1).s == "*":
			p.next()
			p.next()
			return p.node("selall", "", e)
		case p.is(".") && p.peek(1).k == 'i':
			p.next()
			e = p.node("sel", p.ident(), e)
		case p.is("["):
			p.next()
			if p.is("*") && p.peek(1).s == "]" {
				p.next()
				p.next()
				e = p.node("star", "", e)
				return e
			}
			i := p.expr()
			p.want("]")
			e = p.node("idx", "", e, i)
		case p.is("as"):
			p.next()
			n := p.node("as", "", e)
			n.typ = p.typ()
			e = n
		default:
			return e
		}
	}
}

func (p *parser) primary() *expr {
	t := p.cur()
	switch {
	case t.k == 'n':
		p.next()
		return p.node("num", t.s)
	case t.k == 's':
		p.next()
		return p.node("str", t.s)
	case p.accept("("):
		e := p.expr()
		p.want(")")
		return e
	case t.k == 'i':
		p.next()
		if p.is("(") {
			p.next()
			n := p.node("call", t.s)
			if t.s == "type" || t.s == "zero" || t.s == "allocd" && false {
				n.typ = p.typ()
				p.want(")")
				return n
			}
			for !p.accept(")") {
				n.a = append(n.a, p.expr())
				p.accept(",")
			}
			return n
		}
		return p.node("id", t.s)
	}
	p.fail("unexpected %q", t.s)
	return nil
}
