package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stype is the type of a specification value: a Go type or a ghost (total) map.
type stype struct {
	t      types.Type
	gk, gv *stype
	srt    string // a bare sort, when neither
}

func (s *stype) sort() string {
	if s == nil {
		return ""
	}
	if s.gk != nil {
		return arrSort(s.gk.sort(), s.gv.sort())
	}
	if s.srt != "" {
		return s.srt
	}
	return sortOf(s.t)
}

var (
	stInt  = &stype{t: types.Typ[types.Int]}
	stBool = &stype{t: types.Typ[types.Bool]}
	stStr  = &stype{t: types.Typ[types.String]}
	stReal = &stype{srt: "Real"}
	stNil  = &stype{t: types.Typ[types.UntypedNil]}
	stAny  = &stype{t: types.NewInterfaceType(nil, nil)}
	stRef  = &stype{t: types.Typ[types.Int]}
)

type sval struct {
	t   *Term
	typ *stype
	val Val
}

type sctx struct {
	v           *verifier
	st          *state
	old         *state
	before      *state
	pkg         string
	names       map[string]sval
	resultNames []string
	frNames     map[string]nameVal
	befNames    map[string]nameVal
	inOld       bool
	depth       int
	qd          int
	where       string
}

func (cx *sctx) bind(n string, x sval) {
	m := make(map[string]sval, len(cx.names)+1)
	for k, y := range cx.names {
		m[k] = y
	}
	m[n] = x
	cx.names = m
}

func (cx *sctx) sub() *sctx { n := *cx; return &n }

type specErr string

func (cx *sctx) fail(e *expr, f string, a ...any) {
	panic(specErr(fmt.Sprintf("%s:%d: %s", e.file, e.line, fmt.Sprintf(f, a...))))
}

func (v *verifier) mkSval(x Val, t types.Type) sval {
	s := sval{typ: &stype{t: t}}
	switch y := x.(type) {
	case *Term:
		s.t = y
	case *closure:
		s.t = v.term(y)
	default:
		s.val = x
	}
	return s
}

func (v *verifier) rootCtx(st *state) *sctx {
	cx := &sctx{v: v, st: st, old: v.entry, pkg: v.root.pkg, names: map[string]sval{}}
	for n, x := range v.params {
		cx.names[n] = x
	}
	return cx
}

func (v *verifier) loopCtx(st *state, fr *frame, al *activeLoop) *sctx {
	cx := &sctx{v: v, st: st, old: v.entry, before: al.before, names: map[string]sval{}, frNames: fr.names, befNames: al.names}
	cx.pkg = v.root.pkg
	if fr.c != nil {
		cx.pkg = fr.c.pkg
	}
	return cx
}

// typ resolves a type expression.
func (w *world) typ(pkg string, t *typeExpr) *stype {
	switch t.op {
	case "map":
		return &stype{gk: w.typ(pkg, t.a), gv: w.typ(pkg, t.b)}
	case "*":
		return &stype{t: types.NewPointer(w.goType(pkg, t.a))}
	case "[]":
		return &stype{t: types.NewSlice(w.goType(pkg, t.a))}
	}
	switch t.name {
	case "any":
		return stAny
	case "real":
		return stReal
	case "ref":
		return stInt
	case "float64":
		return &stype{t: types.Typ[types.Float64]}
	}
	return &stype{t: w.goType(pkg, t)}
}

func (w *world) goType(pkg string, t *typeExpr) types.Type {
	switch t.op {
	case "*":
		return types.NewPointer(w.goType(pkg, t.a))
	case "[]":
		return types.NewSlice(w.goType(pkg, t.a))
	case "map":
		return types.NewMap(w.goType(pkg, t.a), w.goType(pkg, t.b))
	}
	if t.name == "any" {
		return stAny.t
	}
	if o := types.Universe.Lookup(t.name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	p, n := pkg, t.name
	if i := strings.Index(n, "."); i >= 0 {
		p, n = n[:i], n[i+1:]
	}
	tp := w.pkgs[p]
	if tp == nil {
		panic(specErr("unknown package " + p + " of type " + t.name))
	}
	o := tp.Scope().Lookup(n)
	if o == nil {
		panic(specErr("unknown type " + p + "." + n))
	}
	return o.Type()
}

func isPtrLike(t types.Type) bool {
	if t == nil || isOpaque(t) {
		return false
	}
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (v *verifier) evalBool(cx *sctx, e *expr) *Term {
	x := cx.eval(e)
	if x.t == nil || x.t.sort != "Bool" {
		cx.fail(e, "not a boolean expression")
	}
	return x.t
}

func (cx *sctx) term(e *expr) *Term {
	x := cx.eval(e)
	if x.t == nil {
		cx.fail(e, "a struct value is used as a scalar")
	}
	return x.t
}

// unify brings two operands to the same sort.
func (cx *sctx) unify(e *expr, a, b sval) (sval, sval) {
	if a.t == nil || b.t == nil {
		return a, b
	}
	if a.typ == stNil && b.typ != stNil {
		return sval{t: zeroSort(b.t.sort), typ: b.typ}, b
	}
	if b.typ == stNil && a.typ != stNil {
		return a, sval{t: zeroSort(a.t.sort), typ: a.typ}
	}
	if a.t.sort == b.t.sort {
		return a, b
	}
	if a.t.sort == "Any" {
		return a, sval{t: toAny(b.t, b.typ.t), typ: a.typ}
	}
	if b.t.sort == "Any" {
		return sval{t: toAny(a.t, a.typ.t), typ: b.typ}, b
	}
	if a.t.sort == "Real" && b.t.sort == "Int" {
		return a, sval{t: toReal(b.t), typ: stReal}
	}
	if b.t.sort == "Real" && a.t.sort == "Int" {
		return sval{t: toReal(a.t), typ: stReal}, b
	}
	cx.fail(e, "operands of sorts %s and %s", a.t.sort, b.t.sort)
	return a, b
}

func toReal(t *Term) *Term {
	if t.iv != nil {
		s := new(big.Int).Abs(t.iv).String() + ".0"
		if t.iv.Sign() < 0 {
			s = "(- " + s + ")"
		}
		return intern(&Term{op: s, kind: 'l', sort: "Real"})
	}
	return app("to_real", "Real", t)
}

func boolVal(t *Term) sval { return sval{t: t, typ: stBool} }
func intVal(t *Term) sval  { return sval{t: t, typ: stInt} }

func (cx *sctx) eval(e *expr) sval {
	v := cx.v
	switch e.op {
	case "num":
		n, ok := new(big.Int).SetString(strings.ReplaceAll(e.s, "_", ""), 0)
		if !ok {
			cx.fail(e, "bad number %q", e.s)
		}
		return intVal(mkIntB(n))
	case "str":
		return sval{t: mkStr(e.s), typ: stStr}
	case "id":
		return cx.ident(e)
	case "un":
		a := cx.eval(e.a[0])
		if e.s == "!" {
			return boolVal(mkNot(a.t))
		}
		if a.t.sort == "Real" {
			return sval{t: app("-", "Real", a.t), typ: stReal}
		}
		return intVal(mkSub(mkInt(0), a.t))
	case "bin":
		return cx.bin(e)
	case "cond":
		c := v.evalBool(cx, e.a[0])
		if c == tTrue {
			return cx.eval(e.a[1])
		}
		if c == tFalse {
			return cx.eval(e.a[2])
		}
		a, b := cx.unify(e, cx.eval(e.a[1]), cx.eval(e.a[2]))
		return sval{t: mkIte(c, a.t, b.t), typ: a.typ}
	case "let":
		n := cx.sub()
		n.bind(e.s, cx.eval(e.a[0]))
		return n.eval(e.a[1])
	case "forall", "exists":
		alts := e.pats
		if len(alts) == 0 {
			alts = [][]*expr{nil}
		}
		var qs []*Term
		plain := cx.quant(e, e.pats, nil)
		for i := range alts {
			sh := cx.shifts(e, alts[i])
			if sh == nil && len(qs) > 0 && qs[0] == plain {
				continue
			}
			if sh == nil {
				qs = append([]*Term{plain}, qs...)
				continue
			}
			qs = append(qs, cx.quant(e, alts[i:i+1], sh))
		}
		if e.op == "forall" {
			return boolVal(mkAnd(qs...))
		}
		return boolVal(mkOr(qs...))
	case "lambda":
		n := cx.sub()
		vars, _ := n.bindVars(e.vars)
		b := n.eval(e.a[0])
		// only one variable: an array defined by its elements
		if len(vars) != 1 {
			cx.fail(e, "lambda with one variable only")
		}
		typ := &stype{gk: n.names[e.vars[0].name].typ, gv: b.typ}
		if cv, ok := constOver(b.t, vars[0]); ok {
			return sval{t: mkConstArr(typ.sort(), cv), typ: typ}
		}
		if len(b.t.fv) > 1 || len(b.t.fv) == 1 && !b.t.fv[vars[0].id] {
			cx.fail(e, "lambda over an outer bound variable")
		}
		key := fmt.Sprintf("lambda %d %d", vars[0].id, b.t.id)
		_ = key
		m := freshConst("lam", typ.sort())
		x := mkSelect(m, vars[0])
		cx.st.add(mkForall(vars, mkEq(x, b.t), []*Term{x}))
		return sval{t: m, typ: typ}
	case "sel":
		return cx.sel(e)
	case "idx":
		return cx.index(e, cx.eval(e.a[0]), cx.eval(e.a[1]))
	case "is":
		a := cx.eval(e.a[0])
		if a.t == nil || a.t.sort != "Any" {
			cx.fail(e, "is on a value that is no interface")
		}
		if e.typ.op == "name" && e.typ.name == "nil" {
			return boolVal(mkEq(a.t, nilAny))
		}
		return boolVal(anyIs(a.t, v.w.typ(cx.pkg, e.typ).t))
	case "as":
		a := cx.eval(e.a[0])
		t := v.w.typ(cx.pkg, e.typ)
		if a.t != nil && a.t.sort == "Int" {
			return sval{t: a.t, typ: t}
		}
		return sval{t: anyGet(a.t, t.t), typ: t}
	case "call":
		return cx.call(e)
	}
	cx.fail(e, "unexpected %s", e.op)
	return sval{}
}

func constOver(t, x *Term) (*Term, bool) {
	if !t.fv[x.id] {
		return t, true
	}
	return nil, false
}

// quant translates a quantifier; variables with a shift stand for themselves less the shift.
func (cx *sctx) quant(e *expr, alts [][]*expr, sh map[int]*Term) *Term {
	n := cx.sub()
	vars, guard := n.bindVars(e.vars)
	for i, t := range sh {
		b := n.names[e.vars[i].name]
		b.t = mkSub(vars[i], t)
		n.bind(e.vars[i].name, b)
	}
	body := cx.v.evalBool(n, e.a[0])
	var pats [][]*Term
	for _, p := range alts {
		var ts []*Term
		for _, x := range p {
			ts = append(ts, n.term(x))
		}
		pats = append(pats, ts)
	}
	if e.op == "forall" {
		return mkQuant("forall", vars, mkImp(guard, body), pats)
	}
	return mkQuant("exists", vars, mkAnd(guard, body), pats)
}

// shifts finds the offsets at which the triggers index slices with the bound variables: a trigger
// of the form row[off+i] is given to the solvers as row[j] with j = off+i.
func (cx *sctx) shifts(e *expr, alt []*expr) map[int]*Term {
	if len(alt) == 0 {
		return nil
	}
	n := cx.sub()
	vars, _ := n.bindVars(e.vars)
	var sh map[int]*Term
	own := func(t *Term) bool {
		for _, v := range vars {
			if t.fv[v.id] {
				return true
			}
		}
		return false
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.kind != 'a' || !own(t) {
			return
		}
		if t.op == "select" {
			base, _ := splitAdd(t.args[1])
			if base != nil && base.kind == 'a' && base.op == "+" && len(base.args) == 2 {
				for k := 0; k < 2; k++ {
					for i, v := range vars {
						if base.args[k] == v && !own(base.args[1-k]) && sh[i] == nil {
							if sh == nil {
								sh = map[int]*Term{}
							}
							sh[i] = base.args[1-k]
						}
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, x := range alt {
		walk(n.term(x))
	}
	return sh
}

func (cx *sctx) bindVars(bs []binder) (vars []*Term, guard *Term) {
	guard = tTrue
	for _, b := range bs {
		t := cx.v.w.typ(cx.pkg, b.typ)
		x := canonVar("v", t.sort(), cx.qd)
		cx.qd++
		cx.bind(b.name, sval{t: x, typ: t})
		vars = append(vars, x)
		if t.gk == nil && t.srt == "" && isPtrLike(t.t) {
			guard = mkAnd(guard, mkLe(call("birth", x), cx.st.top))
		}
	}
	return
}

func (cx *sctx) fromName(nv nameVal) sval {
	if nv.addr {
		if isStruct(nv.t) || isArray(nv.t) {
			if t, ok := nv.v.(*Term); ok {
				return sval{t: t, typ: &stype{t: types.NewPointer(nv.t)}}
			}
		}
		pt := nv.t
		if p, ok := pt.(*types.Pointer); ok {
			if _, isT := nv.v.(*Term); isT && nv.t == nil {
				pt = p.Elem()
			}
		}
		switch a := nv.v.(type) {
		case *Term:
			return sval{t: cx.v.read(cx.st, boxComp(pt), a), typ: &stype{t: pt}}
		case *addr:
			if a.st == nil {
				return sval{t: cx.v.read(cx.st, a.c, a.keys...), typ: &stype{t: pt}}
			}
		}
	}
	return cx.v.mkSval(nv.v, nv.t)
}

func (cx *sctx) ident(e *expr) sval {
	switch e.s {
	case "true":
		return boolVal(tTrue)
	case "false":
		return boolVal(tFalse)
	case "nil":
		return sval{t: mkInt(0), typ: stNil}
	}
	if x, ok := cx.names[e.s]; ok {
		return x
	}
	if cx.frNames != nil {
		if cx.inOld {
			if x, ok := cx.v.params[e.s]; ok {
				return x
			}
		}
		if x, ok := cx.frNames[e.s]; ok {
			return cx.fromName(x)
		}
	}
	if x, ok := cx.v.params[e.s]; ok && cx.frNames != nil {
		return x
	}
	if c, ok := cx.v.w.ghostMapC[e.s]; ok {
		return sval{t: cx.v.heapOf(cx.st, c), typ: &stype{gk: stInt, gv: c.g}}
	}
	if c, ok := cx.v.w.ghostVars[e.s]; ok {
		return sval{t: cx.v.read(cx.st, c), typ: c.g}
	}
	if x, ok := cx.global(cx.pkg, e.s); ok {
		return x
	}
	cx.fail(e, "unknown name %s", e.s)
	return sval{}
}

func (cx *sctx) global(pkg, name string) (sval, bool) {
	p := cx.v.w.pkgs[pkg]
	if p == nil {
		return sval{}, false
	}
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		return constSval(o.Val(), o.Type()), true
	case *types.Var:
		n := pkg + "." + name
		if isStruct(o.Type()) || isArray(o.Type()) {
			return sval{t: cx.v.globRef(n), typ: &stype{t: types.NewPointer(o.Type())}}, true
		}
		return sval{t: cx.v.read(cx.st, globComp(n, o.Type())), typ: &stype{t: o.Type()}}, true
	case *types.Func:
		if f := cx.v.w.fns[pkg+"."+name]; f != nil {
			return sval{t: cx.v.term(&closure{fn: f}), typ: &stype{t: o.Type()}}, true
		}
	}
	return sval{}, false
}

func constSval(c constant.Value, t types.Type) sval {
	switch c.Kind() {
	case constant.String:
		return sval{t: mkStr(constant.StringVal(c)), typ: stStr}
	case constant.Bool:
		return boolVal(mkBool(constant.BoolVal(c)))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.ExactString(), 10)
		return sval{t: mkIntB(n), typ: &stype{t: types.Default(t)}}
	}
	panic(specErr("constant of an unsupported kind"))
}

func (cx *sctx) bin(e *expr) sval {
	v := cx.v
	switch e.s {
	case "&&":
		a := v.evalBool(cx, e.a[0])
		if a == tFalse {
			return boolVal(a)
		}
		return boolVal(mkAnd(a, v.evalBool(cx, e.a[1])))
	case "||":
		return boolVal(mkOr(v.evalBool(cx, e.a[0]), v.evalBool(cx, e.a[1])))
	case "==>":
		a := v.evalBool(cx, e.a[0])
		if a == tFalse {
			return boolVal(tTrue)
		}
		return boolVal(mkImp(a, v.evalBool(cx, e.a[1])))
	case "<==>":
		return boolVal(mkEq(v.evalBool(cx, e.a[0]), v.evalBool(cx, e.a[1])))
	}
	a, b := cx.eval(e.a[0]), cx.eval(e.a[1])
	if e.s == "==" || e.s == "!=" {
		var r *Term
		if as, ok := a.val.(*structVal); ok {
			bs, ok := b.val.(*structVal)
			if !ok {
				cx.fail(e, "struct compared with a scalar")
			}
			r = v.eqStruct(cx.st, as, bs)
		} else {
			if b.typ == stNil && a.t.sort == "Slice" {
				r = mkEq(call("sarr", a.t), mkInt(0))
			} else {
				a, b = cx.unify(e, a, b)
				r = mkEq(a.t, b.t)
			}
		}
		if e.s == "!=" {
			r = mkNot(r)
		}
		return boolVal(r)
	}
	a, b = cx.unify(e, a, b)
	switch e.s {
	case "<", "<=", ">", ">=":
		x, y := a.t, b.t
		if e.s == ">" || e.s == ">=" {
			x, y = y, x
		}
		strict := e.s == "<" || e.s == ">"
		if x.sort == "Real" {
			if strict {
				return boolVal(app("<", "Bool", x, y))
			}
			return boolVal(app("<=", "Bool", x, y))
		}
		if strict {
			return boolVal(less(x, y))
		}
		return boolVal(lessEq(x, y))
	}
	if a.t.sort == "Str" && e.s == "+" {
		return sval{t: strCat(a.t, b.t), typ: stStr}
	}
	if a.t.sort == "Real" {
		return sval{t: app(e.s, "Real", a.t, b.t), typ: stReal}
	}
	if a.t.sort != "Int" {
		cx.fail(e, "arithmetic on %s", a.t.sort)
	}
	switch e.s {
	case "+":
		return intVal(mkAdd(a.t, b.t))
	case "-":
		return intVal(mkSub(a.t, b.t))
	case "*":
		return intVal(mkMul(a.t, b.t))
	case "/":
		return intVal(app("div", "Int", a.t, b.t))
	case "%":
		if a.t.iv != nil && b.t.iv != nil && b.t.iv.Sign() > 0 {
			return intVal(mkIntB(new(big.Int).Mod(a.t.iv, b.t.iv)))
		}
		return intVal(app("mod", "Int", a.t, b.t))
	}
	cx.fail(e, "operator %s", e.s)
	return sval{}
}

// findField finds a field, also through embedded structs; path lists the field indexes.
func findField(t types.Type, name string) (path []int, ft types.Type) {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}, s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			et := s.Field(i).Type()
			if p, ok := et.(*types.Pointer); ok {
				et = p.Elem()
			}
			if p, ft := findField(et, name); p != nil {
				return append([]int{i}, p...), ft
			}
		}
	}
	return nil, nil
}

func (cx *sctx) sel(e *expr) sval {
	v := cx.v
	if b := e.a[0]; b.op == "id" {
		_, local := cx.names[b.s]
		if !local && cx.frNames != nil {
			_, local = cx.frNames[b.s]
		}
		if !local && cx.frNames != nil {
			_, local = cx.v.params[b.s]
		}
		if !local {
			if _, ok := v.w.pkgs[b.s]; ok {
				if x, ok := cx.global(b.s, e.s); ok {
					return x
				}
			}
		}
	}
	x := cx.eval(e.a[0])
	return cx.selOf(e, x, e.s)
}

func (cx *sctx) selOf(e *expr, x sval, name string) sval {
	v := cx.v
	if sv, ok := x.val.(*structVal); ok {
		s := fieldsOf(sv.t)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return v.mkSval(sv.f[i], s.Field(i).Type())
			}
		}
		cx.fail(e, "no field %s", name)
	}
	if a, ok := x.val.(*addr); ok && a.st != nil {
		s := fieldsOf(a.t)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != name {
				continue
			}
			p := name
			if a.path != "" {
				p = a.path + "." + name
			}
			ft := s.Field(i).Type()
			if isStruct(ft) {
				return sval{val: &addr{st: a.st, keys: a.keys, path: p, t: ft}, typ: &stype{t: types.NewPointer(ft)}}
			}
			return sval{t: v.read(cx.st, elemFieldComp(a.st, p, ft), a.keys...), typ: &stype{t: ft}}
		}
		cx.fail(e, "no field %s", name)
	}
	if x.t == nil || x.typ.t == nil {
		cx.fail(e, "field %s of a ghost value", name)
	}
	p, ok := under(x.typ.t).(*types.Pointer)
	if !ok {
		cx.fail(e, "field %s of a value of type %s", name, x.typ.t)
	}
	st := p.Elem()
	if g := v.w.ghostField(st, name); g != nil {
		return sval{t: v.read(cx.st, g, x.t), typ: g.g}
	}
	path, _ := findField(st, name)
	if path == nil {
		cx.fail(e, "no field %s in %s", name, st)
	}
	cur, r := st, x.t
	for n, i := range path {
		f := fieldsOf(cur).Field(i)
		ft := f.Type()
		if isStruct(ft) || isArray(ft) {
			r = subRef(r, i)
			cur = ft
			if n == len(path)-1 {
				return sval{t: r, typ: &stype{t: types.NewPointer(ft)}}
			}
			continue
		}
		y := v.read(cx.st, fieldComp(cur, f.Name(), ft), r)
		if n == len(path)-1 {
			return sval{t: y, typ: &stype{t: ft}}
		}
		r = y
		cur = ft.(*types.Pointer).Elem()
	}
	panic("unreachable")
}

func (cx *sctx) index(e *expr, x, i sval) sval {
	v := cx.v
	if x.typ.gk != nil {
		if x.typ.gk.sort() == "Any" && i.t.sort != "Any" {
			i = sval{t: toAny(i.t, i.typ.t), typ: stAny}
		}
		return sval{t: mkSelect(x.t, i.t), typ: x.typ.gv}
	}
	switch u := under(x.typ.t).(type) {
	case *types.Slice:
		arr, pos := call("sarr", x.t), mkAdd(call("soff", x.t), i.t)
		et := sliceElem(x.typ.t)
		if isStruct(et) {
			return sval{val: &addr{st: et, keys: []*Term{arr, pos}, t: et}, typ: &stype{t: types.NewPointer(et)}}
		}
		return sval{t: v.read(cx.st, elemComp(et), arr, pos), typ: &stype{t: et}}
	case *types.Basic:
		return intVal(strAt(x.t, i.t))
	case *types.Map:
		if i.t.sort != sortOf(u.Key()) {
			i.t = toAny(i.t, i.typ.t)
		}
		return sval{t: mkSelect(v.read(cx.st, mapValComp(u), x.t), i.t), typ: &stype{t: u.Elem()}}
	case *types.Array:
		return sval{t: mkSelect(x.t, i.t), typ: &stype{t: u.Elem()}}
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			if isStruct(a.Elem()) {
				return sval{val: &addr{st: a.Elem(), keys: []*Term{x.t, i.t}, t: a.Elem()}, typ: &stype{t: types.NewPointer(a.Elem())}}
			}
			return sval{t: v.read(cx.st, elemComp(a.Elem()), x.t, i.t), typ: &stype{t: a.Elem()}}
		}
	}
	cx.fail(e, "index of %s", x.typ.t)
	return sval{}
}

func (cx *sctx) call(e *expr) sval {
	v := cx.v
	arg := func(i int) sval {
		if i >= len(e.a) {
			cx.fail(e, "%s needs more arguments", e.s)
		}
		return cx.eval(e.a[i])
	}
	switch e.s {
	case "old":
		n := cx.sub()
		if cx.old == nil {
			cx.fail(e, "old is not available here")
		}
		n.st = cx.old
		n.inOld = true
		return n.eval(e.a[0])
	case "before":
		n := cx.sub()
		if cx.before == nil {
			cx.fail(e, "before is not available here")
		}
		n.st = cx.before
		n.frNames = cx.befNames
		return n.eval(e.a[0])
	case "now": // inside old: the current value of a name
		return arg(0)
	case "len":
		x := arg(0)
		switch u := under(x.typ.t).(type) {
		case *types.Slice:
			return intVal(call("slen_", x.t))
		case *types.Array:
			return intVal(mkInt(u.Len()))
		case *types.Pointer:
			return intVal(mkInt(under(u.Elem()).(*types.Array).Len()))
		}
		return intVal(strLen(x.t))
	case "cap":
		return intVal(call("scap", arg(0).t))
	case "arr":
		return intVal(call("sarr", arg(0).t))
	case "off":
		return intVal(call("soff", arg(0).t))
	case "has":
		m, k := arg(0), arg(1)
		u, ok := under(m.typ.t).(*types.Map)
		if !ok {
			cx.fail(e, "has needs a map")
		}
		if k.t.sort != sortOf(u.Key()) {
			k.t = toAny(k.t, k.typ.t)
		}
		return boolVal(mkAnd(mkNot(mkEq(m.t, mkInt(0))), mkSelect(v.read(cx.st, mapDomComp(u), m.t), k.t)))
	case "dom":
		m := arg(0)
		u := under(m.typ.t).(*types.Map)
		return sval{t: v.read(cx.st, mapDomComp(u), m.t), typ: &stype{gk: &stype{t: u.Key()}, gv: stBool}}
	case "birth":
		return intVal(call("birth", arg(0).t))
	case "allocated":
		return boolVal(mkLe(call("birth", arg(0).t), cx.st.top))
	case "fresh":
		return boolVal(mkLt(cx.old.top, call("birth", arg(0).t)))
	case "freshSince":
		return boolVal(mkLt(cx.before.top, call("birth", arg(0).t)))
	case "ref":
		x := arg(0)
		if x.t.sort == "Slice" {
			return intVal(call("sarr", x.t))
		}
		return intVal(x.t)
	case "any":
		x := arg(0)
		return sval{t: toAny(x.t, x.typ.t), typ: stAny}
	case "update":
		m, k, x := arg(0), arg(1), arg(2)
		if m.typ.gk.sort() == "Any" && k.t.sort != "Any" {
			k.t = toAny(k.t, k.typ.t)
		}
		if x.typ == stNil {
			x.t = zeroSort(m.typ.gv.sort())
		}
		return sval{t: mkStore(m.t, k.t, x.t), typ: m.typ}
	case "str": // the string held by a byte slice
		x := arg(0)
		et := sliceElem(x.typ.t)
		return sval{t: v.bytesToStr(cx.st, x.t, et), typ: stStr}
	case "bstr": // bstr(slice, lo, hi): bytes lo..hi of the backing array
		x, lo, hi := arg(0), arg(1), arg(2)
		et := sliceElem(x.typ.t)
		a := mkSelect(v.heapOf(cx.st, elemComp(et)), call("sarr", x.t))
		return sval{t: call("mkstr", a, mkAdd(call("soff", x.t), lo.t), mkSub(hi.t, lo.t)), typ: stStr}
	case "bytes": // bytes(m, o, n): the string of m[o], ..., m[o+n-1]
		return sval{t: call("mkstr", arg(0).t, arg(1).t, arg(2).t), typ: stStr}
	case "elems": // the array behind a slice
		x := arg(0)
		et := sliceElem(x.typ.t)
		return sval{t: mkSelect(v.heapOf(cx.st, elemComp(et)), call("sarr", x.t)), typ: &stype{gk: stInt, gv: &stype{t: et}}}
	case "sub":
		return sval{t: strSub(arg(0).t, arg(1).t, arg(2).t), typ: stStr}
	case "nan":
		return boolVal(fltNaN(arg(0).t))
	case "rank":
		return sval{t: call("frank", arg(0).t), typ: stReal}
	case "feq":
		return boolVal(fltEq(arg(0).t, arg(1).t))
	case "type":
		return intVal(tagOf(v.w.typ(cx.pkg, e.typ).t))
	case "tag":
		return intVal(anyTag(arg(0).t))
	case "zero":
		t := v.w.typ(cx.pkg, e.typ)
		return sval{t: zeroSort(t.sort()), typ: t}
	case "abs":
		x := arg(0).t
		return intVal(mkIte(mkLe(mkInt(0), x), x, mkSub(mkInt(0), x)))
	case "min":
		a, b := arg(0).t, arg(1).t
		return intVal(mkIte(mkLe(a, b), a, b))
	case "max":
		a, b := arg(0).t, arg(1).t
		return intVal(mkIte(mkLe(a, b), b, a))
	case "quot":
		return intVal(quo(arg(0).t, arg(1).t))
	case "i2f":
		return sval{t: call("i2f", arg(0).t), typ: &stype{t: types.Typ[types.Float64]}}
	case "itoa":
		return sval{t: call("itoa", arg(0).t), typ: stStr}
	case "fn": // a function of the module as a value: fn("pkg.name")
		f := v.w.fns[e.a[0].s]
		if f == nil {
			cx.fail(e, "no function %s", e.a[0].s)
		}
		return sval{t: v.term(&closure{fn: f}), typ: &stype{t: f.Signature}}
	case "bitand":
		return intVal(specAnd(arg(0).t, arg(1).t))
	case "bit": // n & mask != 0, as the code computes it
		r := specAnd(arg(0).t, arg(1).t)
		return boolVal(mkNot(mkEq(r, mkInt(0))))
	case "sameHeap":
		return boolVal(mkBool(cx.st == cx.old))
	}
	if d, ok := v.w.sp.preds[e.s]; ok {
		if len(e.a) != len(d.params) {
			cx.fail(e, "%s takes %d arguments", e.s, len(d.params))
		}
		if cx.depth > 40 {
			cx.fail(e, "recursive definition %s", e.s)
		}
		n := cx.sub()
		n.depth++
		n.pkg = d.pkg
		n.names = map[string]sval{}
		n.frNames = nil
		for i, p := range d.params {
			x := arg(i)
			t := v.w.typ(d.pkg, p.typ)
			if x.typ == stNil {
				x = sval{t: zeroSort(t.sort()), typ: t}
			}
			if x.t != nil && x.t.sort != t.sort() {
				if t.sort() == "Any" {
					x = sval{t: toAny(x.t, x.typ.t), typ: t}
				} else {
					cx.fail(e, "argument %d of %s has sort %s, want %s", i+1, e.s, x.t.sort, t.sort())
				}
			}
			if x.t != nil {
				x.typ = t
			}
			n.names[p.name] = x
		}
		r := n.eval(d.body)
		if d.ret != nil {
			t := v.w.typ(d.pkg, d.ret)
			if r.typ == stNil {
				r.t = zeroSort(t.sort())
			}
			if r.t.sort != t.sort() {
				if t.sort() == "Any" {
					r.t = toAny(r.t, r.typ.t)
				} else {
					cx.fail(e, "%s returns sort %s, want %s", e.s, r.t.sort, t.sort())
				}
			}
			r.typ = t
		}
		return r
	}
	if f, ok := v.w.sp.funs[e.s]; ok {
		var ts []*Term
		if len(e.a) != len(f.params) {
			cx.fail(e, "%s takes %d arguments", e.s, len(f.params))
		}
		for i, p := range f.params {
			x := arg(i)
			t := v.w.typ(f.pkg, p)
			if x.typ == stNil {
				x.t = zeroSort(t.sort())
			}
			if x.t.sort != t.sort() {
				if t.sort() != "Any" {
					cx.fail(e, "argument %d of %s has sort %s, want %s", i+1, e.s, x.t.sort, t.sort())
				}
				x.t = toAny(x.t, x.typ.t)
			}
			ts = append(ts, x.t)
		}
		rt := v.w.typ(f.pkg, f.ret)
		return sval{t: call("f:"+f.name, ts...), typ: rt}
	}
	// a call of a bound function value is not possible in a specification
	cx.fail(e, "unknown function %s", e.s)
	return sval{}
}

func anyTag(x *Term) *Term {
	r := mkInt(0)
	for _, p := range [][2]string{{"refAny", "anyRefTag"}, {"intAny", "anyIntTag"}, {"sliceAny", "anySliceTag"}, {"otherAny", "anyOtherTag"}} {
		r = mkIte(isCtor(p[0], x), call(p[1], x), r)
	}
	return r
}

// mentions tells whether the expression uses one of the names.
func mentions(e *expr, names []string) bool {
	if e == nil {
		return false
	}
	if e.op == "id" {
		for _, n := range names {
			if n == e.s {
				return true
			}
		}
	}
	for _, a := range e.a {
		if mentions(a, names) {
			return true
		}
	}
	return false
}

func (v *verifier) checkClauses(cx *sctx, cs []clause, kind, prefix, suffix string) {
	if cx.st.lean == nil {
		cx.st.lean = cx.st.facts
		defer func() { cx.st.lean = nil }()
	}
	for i, c := range cs {
		name := c.label
		if name == "" {
			name = fmt.Sprintf("#%d", i+1)
		}
		v.oblige(cx.st, kind, prefix+" "+name+suffix, v.evalBool(cx, c.e))
	}
}

// modifies items

func (v *verifier) evalMods(cx *sctx, items []modItem) map[string][]modFn {
	out := map[string][]modFn{}
	add := func(c *comp, m modFn) { out[c.name] = append(out[c.name], m) }
	for _, it := range items {
		switch {
		case it.set != "":
			d := v.w.sp.modsets[it.set]
			if d == nil {
				panic(specErr("unknown modset " + it.set))
			}
			y := cx.sub()
			y.pkg, y.names, y.frNames = d.pkg, map[string]sval{}, nil
			for i, p := range d.params {
				y.names[p.name] = cx.eval(it.args[i])
			}
			for cn, ms := range v.evalMods(y, d.items) {
				out[cn] = append(out[cn], ms...)
			}
		case it.comp == "*":
			panic(unsupported("modifies everything"))
		case it.comp != "":
			c := v.w.resolveComp(it.comp, cx.pkg)
			if c.keys == 0 {
				add(c, modFn{})
				continue
			}
			it, n := it, cx.sub()
			pre := *cx.st
			preSt := pre.clone()
			m := modFn{two: len(it.vars) > 1}
			m.cond = func(keys []*Term) *Term {
				if it.cond == nil {
					return tTrue
				}
				y := n.sub()
				y.st = preSt
				for i, nm := range it.vars {
					y.bind(nm, sval{t: keys[i], typ: v.keyType(c, i)})
				}
				return v.evalBool(y, it.cond)
			}
			add(c, m)
		case it.all:
			x := cx.eval(it.e)
			v.modElems(cx, it.e, x, add)
		case it.e.op == "selall":
			x := cx.eval(it.e.a[0])
			pt, ok := under(x.typ.t).(*types.Pointer)
			if !ok || !isStruct(pt.Elem()) {
				v.modElems(cx, it.e, x, add)
				continue
			}
			v.modFields(pt.Elem(), x.t, add)
		case it.e.op == "sel":
			x := cx.eval(it.e.a[0])
			if x.t == nil {
				cx.fail(it.e, "modifies of a slice element field")
			}
			t := under(x.typ.t).(*types.Pointer).Elem()
			if g := v.w.ghostField(t, it.e.s); g != nil {
				add(g, modFn{exact: x.t})
				continue
			}
			path, _ := findField(t, it.e.s)
			if path == nil {
				cx.fail(it.e, "no field %s", it.e.s)
			}
			cur, r := t, x.t
			for n, i := range path {
				f := fieldsOf(cur).Field(i)
				if isStruct(f.Type()) {
					r, cur = subRef(r, i), f.Type()
					if n == len(path)-1 {
						v.modFields(cur, r, add)
					}
					continue
				}
				if isArray(f.Type()) {
					et := under(f.Type()).(*types.Array).Elem()
					rr := subRef(r, i)
					v.eachElemComp(et, "", func(c *comp, _ types.Type) { add(c, modFn{exact: rr}) })
					continue
				}
				add(fieldComp(cur, f.Name(), f.Type()), modFn{exact: r})
			}
		case it.e.op == "id":
			if c, ok := v.w.ghostVars[it.e.s]; ok {
				add(c, modFn{})
				continue
			}
			p := v.w.pkgs[cx.pkg]
			if o, ok := p.Scope().Lookup(it.e.s).(*types.Var); ok {
				if isStruct(o.Type()) {
					v.modFields(o.Type(), v.globRef(cx.pkg+"."+it.e.s), add)
				} else {
					add(globComp(cx.pkg+"."+it.e.s, o.Type()), modFn{})
				}
				continue
			}
			cx.fail(it.e, "modifies %s", it.e.s)
		case it.e.op == "idx":
			if id := it.e.a[0]; id.op == "id" {
				if c, ok := v.w.ghostMapC[id.s]; ok {
					add(c, modFn{exact: cx.term(it.e.a[1])})
					continue
				}
			}
			x, i := cx.eval(it.e.a[0]), cx.term(it.e.a[1])
			if _, ok := under(x.typ.t).(*types.Slice); ok {
				v.eachElemComp(sliceElem(x.typ.t), "", func(c *comp, _ types.Type) {
					add(c, modFn{exact: call("sarr", x.t), key1: mkAdd(call("soff", x.t), i)})
				})
				continue
			}
			cx.fail(it.e, "modifies item")
		case it.e.op == "call" && it.e.s == "deref":
			x := cx.eval(it.e.a[0])
			p := under(x.typ.t).(*types.Pointer)
			add(boxComp(p.Elem()), modFn{exact: x.t})
		default:
			cx.fail(it.e, "modifies item")
		}
	}
	return out
}

func (v *verifier) modFields(t types.Type, r *Term, add func(*comp, modFn)) {
	s := fieldsOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch {
		case isStruct(ft):
			v.modFields(ft, subRef(r, i), add)
		case isArray(ft):
			rr := subRef(r, i)
			v.eachElemComp(under(ft).(*types.Array).Elem(), "", func(c *comp, _ types.Type) { add(c, modFn{exact: rr}) })
		default:
			add(fieldComp(t, s.Field(i).Name(), ft), modFn{exact: r})
		}
	}
	for _, g := range v.w.ghostsOf(structName(t)) {
		add(g, modFn{exact: r})
	}
}

func (v *verifier) modElems(cx *sctx, e *expr, x sval, add func(*comp, modFn)) {
	switch u := under(x.typ.t).(type) {
	case *types.Slice:
		v.eachElemComp(sliceElem(x.typ.t), "", func(c *comp, _ types.Type) { add(c, modFn{exact: call("sarr", x.t)}) })
	case *types.Pointer:
		et := under(u.Elem()).(*types.Array).Elem()
		v.eachElemComp(et, "", func(c *comp, _ types.Type) { add(c, modFn{exact: x.t}) })
	case *types.Map:
		add(mapDomComp(u), modFn{exact: x.t})
		add(mapValComp(u), modFn{exact: x.t})
	default:
		cx.fail(e, "elements of %s", x.typ.t)
	}
}

// ghost code

func (v *verifier) execGhost(cx *sctx, ss []*gstmt) {
	for _, s := range ss {
		v.ghostStmt(cx, s)
	}
}

func (v *verifier) ghostStmt(cx *sctx, s *gstmt) {
	switch s.op {
	case "let":
		cx.bind(s.name, cx.eval(s.rhs))
	case "assert":
		n := s.name
		if n == "" {
			n = fmt.Sprintf("line %d", s.line)
		}
		v.oblige(cx.st, "assert", "assertion "+n, v.evalBool(cx, s.rhs))
	case "assume":
		v.note("assumed in a proof of %s: %s", v.root.key, s.name)
		cx.st.add(v.evalBool(cx, s.rhs))
	case "use":
		v.useLemma(cx, s.rhs)
	case "if":
		c := v.evalBool(cx, s.cond)
		if v.known(cx.st, c) {
			v.execGhost(cx, s.then)
			return
		}
		if v.known(cx.st, mkNot(c)) {
			v.execGhost(cx, s.els)
			return
		}
		orig := cx.st
		run := func(g *Term, body []*gstmt) *state {
			b := orig.clone()
			b.add(g)
			y := cx.sub()
			y.st = b
			v.execGhost(y, body)
			return b
		}
		a := run(c, s.then)
		b := run(mkNot(c), s.els)
		merge := map[string]bool{}
		for k := range a.heap {
			merge[k] = true
		}
		for k := range b.heap {
			merge[k] = true
		}
		for _, k := range sortedKeys(merge) {
			ha, hb := v.heapOf(a, comps[k]), v.heapOf(b, comps[k])
			if ha == hb {
				orig.heap[k] = ha
				continue
			}
			orig.heap[k] = mergeHeap(c, ha, hb)
		}
		for _, x := range []struct {
			g *Term
			s *state
		}{{c, a}, {mkNot(c), b}} {
			var fs []*Term
			for l := x.s.facts; l != nil && l != orig.facts; l = l.prev {
				if !l.alias {
					fs = append(fs, l.f)
				}
			}
			for i := len(fs) - 1; i >= 0; i-- {
				orig.facts = &factList{orig.facts, mkImp(x.g, fs[i]), 0, false}
			}
		}
	case "assign":
		rhs := cx.eval(s.rhs)
		v.ghostAssign(cx, s.lhs, rhs)
	case "bulk":
		// bulk T.f(x) = e : every object's ghost field at once
		c := v.w.resolveComp(s.name, cx.pkg)
		if !c.gho {
			panic(specErr(fmt.Sprintf("line %d: bulk assignment of a real field", s.line)))
		}
		h := freshConst("h:"+c.name, c.heapSort())
		x := mkBoundVar(s.vs[0], "Int")
		y := cx.sub()
		y.bind(s.vs[0], sval{t: x, typ: v.keyType(c, 0)})
		val := y.eval(s.rhs)
		if val.typ == stNil {
			val.t = zeroSort(c.sort)
		}
		old := v.heapOf(cx.st, c)
		nx := mkSelect(h, x)
		if f := wfGhost(val.t, c.g, cx.st.top, []*Term{x}, mkLe(call("birth", x), cx.st.top)); f != tTrue && val.typ != stNil {
			v.oblige(cx.st, "ghost", "ghost values of "+c.name+" are allocated", dropPats(f))
		}
		cx.st.add(mkForall([]*Term{x}, mkEq(nx, val.t), []*Term{nx}))
		if v.discover > 0 {
			v.writes = append(v.writes, writeRec{c: c.name, cond: true})
		} else {
			for _, f := range cx.st.frames {
				if f.any {
					continue
				}
				v.oblige(cx.st, "frame", f.name+"modifies "+c.name, mkForall([]*Term{x},
					mkImp(mkNot(mkEq(val.t, mkSelect(old, x))), f.allows(c, []*Term{x}))))
			}
		}
		cx.st.heap[c.name] = h
	}
}

func dropPats(f *Term) *Term {
	if f.kind == 'q' {
		return mkQuant(f.op, f.vars, f.args[0], nil)
	}
	return f
}

// mergeHeap pushes the choice below equal stores.
func mergeHeap(c, a, b *Term) *Term {
	if a.kind == 'a' && a.op == "store" && a.args[0] == b {
		return mkStore(b, a.args[1], mkIte(c, a.args[2], mkSelect(b, a.args[1])))
	}
	if b.kind == 'a' && b.op == "store" && b.args[0] == a {
		return mkStore(a, b.args[1], mkIte(c, mkSelect(a, b.args[1]), b.args[2]))
	}
	if a.kind == 'a' && b.kind == 'a' && a.op == "store" && b.op == "store" && a.args[1] == b.args[1] {
		return mkStore(mergeHeap(c, a.args[0], b.args[0]), a.args[1], mkIte(c, a.args[2], b.args[2]))
	}
	return mkIte(c, a, b)
}

func (v *verifier) ghostAssign(cx *sctx, lhs *expr, rhs sval) {
	var idx []*expr
	e := lhs
	for e.op == "idx" {
		if id := e.a[0]; id.op == "id" {
			if _, ok := v.w.ghostMapC[id.s]; ok {
				break
			}
		}
		idx = append([]*expr{e.a[1]}, idx...)
		e = e.a[0]
	}
	var c *comp
	var keys []*Term
	var typ *stype
	switch e.op {
	case "idx":
		c = v.w.ghostMapC[e.a[0].s]
		keys = []*Term{cx.term(e.a[1])}
		typ = c.g
	case "id":
		c = v.w.ghostVars[e.s]
		if c == nil {
			cx.fail(e, "assignment to %s, which is no ghost variable", e.s)
		}
		typ = c.g
	case "sel":
		x := cx.eval(e.a[0])
		t := under(x.typ.t).(*types.Pointer).Elem()
		c = v.w.ghostField(t, e.s)
		if c == nil {
			cx.fail(e, "assignment to %s, which is no ghost field", e.s)
		}
		keys = []*Term{x.t}
		typ = c.g
	default:
		cx.fail(e, "assignment target")
	}
	cur := v.read(cx.st, c, keys...)
	var build func(cur *Term, typ *stype, idx []*expr) *Term
	build = func(cur *Term, typ *stype, idx []*expr) *Term {
		if len(idx) == 0 {
			r := rhs
			if r.typ == stNil {
				r.t = zeroSort(typ.sort())
			}
			if r.t.sort != typ.sort() && typ.sort() == "Any" {
				r.t = toAny(r.t, r.typ.t)
			}
			if r.t.sort != typ.sort() {
				cx.fail(lhs, "assignment of sort %s to %s", r.t.sort, typ.sort())
			}
			return r.t
		}
		k := cx.eval(idx[0])
		if typ.gk.sort() == "Any" && k.t.sort != "Any" {
			k.t = toAny(k.t, k.typ.t)
		}
		return mkStore(cur, k.t, build(mkSelect(cur, k.t), typ.gv, idx[1:]))
	}
	leaf := typ
	for range idx {
		leaf = leaf.gv
	}
	val := build(cur, typ, idx)
	x := rhs.t
	if rhs.typ != stNil {
		v.oblige(cx.st, "ghost", "ghost value of "+c.name+" is allocated", wfGhost(x, leaf, cx.st.top, nil, tTrue))
	}
	v.write(cx.st, c, val, keys...)
}

func (v *verifier) useLemma(cx *sctx, e *expr) {
	if e.op != "call" {
		cx.fail(e, "use needs a lemma instance")
	}
	if e.s == "ext" { // string extensionality
		a, b := cx.term(e.a[0]), cx.term(e.a[1])
		d := call("sdiff", a, b)
		cx.st.add(mkOr(mkEq(a, b), mkNot(mkEq(strLen(a), strLen(b))),
			mkAnd(mkLe(mkInt(0), d), mkLt(d, strLen(a)), mkNot(mkEq(strAt(a, d), strAt(b, d))))))
		return
	}
	for _, ax := range v.w.sp.axioms {
		if ax.name != e.s {
			continue
		}
		body := ax.e
		var vars []binder
		for body.op == "forall" && len(vars) < len(e.a) {
			vars = append(vars, body.vars...)
			body = body.a[0]
		}
		if len(vars) != len(e.a) {
			cx.fail(e, "lemma %s has %d variables", e.s, len(vars))
		}
		y := cx.sub()
		y.names = map[string]sval{}
		y.frNames = nil
		y.pkg = ax.pkg
		for i, b := range vars {
			x := cx.eval(e.a[i])
			t := v.w.typ(ax.pkg, b.typ)
			if x.t.sort != t.sort() && t.sort() == "Any" {
				x.t = toAny(x.t, x.typ.t)
			}
			y.names[b.name] = sval{t: x.t, typ: t}
		}
		cx.st.add(v.evalBool(y, body))
		return
	}
	cx.fail(e, "unknown lemma %s", e.s)
}

// events

func (v *verifier) event(st *state, key string, args []sval) {
	for _, ev := range v.root.calls {
		if ev.fn != key {
			continue
		}
		cx := v.rootCtx(st)
		for i, n := range ev.vars {
			if i < len(args) {
				cx.bind(n, args[i])
			}
		}
		v.execGhost(cx, ev.body)
	}
}

func (v *verifier) callEvent(st *state, c *contract, cx *sctx, after bool) {
	for _, ev := range v.root.calls {
		if ev.after != after || ev.fn != c.key {
			continue
		}
		y := v.rootCtx(st)
		all := append(append([]string(nil), c.params...), c.results...)
		for i, n := range ev.vars {
			if i < len(all) {
				if x, ok := cx.names[all[i]]; ok {
					y.bind(n, x)
				}
			}
		}
		v.execGhost(y, ev.body)
	}
}

func (v *verifier) callEvents(st *state, c *contract, cx *sctx)    { v.callEvent(st, c, cx, true) }
func (v *verifier) precallEvents(st *state, c *contract, cx *sctx) { v.callEvent(st, c, cx, false) }

func (v *verifier) compIs(name string, c *comp) bool {
	return v.w.qualComp(name, v.root.pkg) == strings.ReplaceAll(c.name, "@"+curPart+".", ".")
}

func (v *verifier) keyType(c *comp, i int) *stype {
	if i == 0 && c.owner != nil {
		return &stype{t: types.NewPointer(c.owner)}
	}
	return stInt
}

func (v *verifier) othersAt(st *state, o othersSk) *Term {
	cx := &sctx{v: v, st: st, old: v.entry, pkg: v.root.pkg, names: map[string]sval{}}
	for n, x := range v.params {
		cx.names[n] = x
	}
	e := o.c.e
	for i, b := range e.vars {
		cx.names[b.name] = o.vs[i]
	}
	return v.evalBool(cx, e.a[0])
}

func (v *verifier) globRef(name string) *Term {
	g := mkConst("globref:"+name, "Int")
	id, ok := v.w.globIDs[name]
	if !ok {
		id = len(v.w.globIDs) + 1
		v.w.globIDs[name] = id
	}
	v.addGlobal(mkAnd(mkLt(g, mkInt(0)), mkEq(call("birth", g), mkInt(0)), mkEq(call("subidx", g), mkInt(int64(-id)))))
	return g
}

var _ = ssa.NaiveForm

// specAnd is the form in which the code's & appears.
func specAnd(a, b *Term) *Term {
	x, c := a, b
	if x.iv != nil {
		x, c = c, x
	}
	if c.iv != nil {
		if c.iv.Sign() == 0 {
			return c
		}
		if k, ok := maskBits(c.iv); ok && k <= 16 {
			return app("mod", "Int", x, mkIntB(pow2(k)))
		}
	}
	return call("bitand", a, b)
}
