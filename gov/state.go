package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is *Term, *structVal, *addr, *closure or tuple.
type Val interface{}

type structVal struct {
	t types.Type
	f []Val
}

type tuple []Val

// addr is the address of a scalar heap cell, or of a struct held in a slice element.
type addr struct {
	c    *comp
	keys []*Term
	t    types.Type // pointee
	// struct element
	st   types.Type // element type of the array, nil for a scalar
	path string
	real string // "" or the struct path prefix
}

type closure struct {
	fn   *ssa.Function
	bind []Val
}

type factList struct {
	prev  *factList
	f     *Term
	n     int
	alias bool // a part of another fact, kept for recognising it only
}

type base struct {
	id  int
	top *Term
}

type state struct {
	heap   map[string]*Term
	base   *base
	top    *Term
	facts  *factList
	lean   *factList    // the facts before a group of conditions that are proved one after another
	fresh  map[int]bool // reference terms allocated since the function was entered
	frames []*modFrame
	stack  []string
}

func (st *state) clone() *state {
	n := *st
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.fresh = make(map[int]bool, len(st.fresh))
	for k := range st.fresh {
		n.fresh[k] = true
	}
	return &n
}

func (st *state) has(t *Term) bool {
	for l := st.facts; l != nil; l = l.prev {
		if l.f == t {
			return true
		}
	}
	return false
}

func (st *state) add(t *Term) {
	if t == tTrue {
		return
	}
	if t.kind == 'a' && t.op == "and" {
		for _, a := range t.args {
			st.add(a)
		}
		return
	}
	if st.has(t) {
		return
	}
	n := 1
	if st.facts != nil {
		n = st.facts.n + 1
	}
	st.facts = &factList{st.facts, t, n, false}
	if t.kind == 'q' && t.op == "forall" || t.kind == 'a' && t.op == "=>" {
		if ps := splitGoal(t); len(ps) > 1 {
			for _, p := range ps {
				st.facts = &factList{st.facts, p, n, true}
			}
		}
	}
}

func (st *state) infeasible() bool {
	for l := st.facts; l != nil; l = l.prev {
		if l.f == tFalse {
			return true
		}
	}
	return false
}

// othersSk stands for an arbitrary other object whose invariant must survive.
type othersSk struct {
	c  clause
	vs []sval
}

type obligation struct {
	name  string
	fn    string
	facts *factList
	lean  *factList
	goal  *Term
	kind  string
	// results
	verdict string
	backend string
	ms      float64
	detail  string
	script  string
}

type modFn struct {
	exact *Term // key 0
	key1  *Term // optional second key
	two   bool  // cond looks at the second key
	cond  func(keys []*Term) *Term
}

type modFrame struct {
	top  *Term
	heap *state
	mods map[string][]modFn
	name string
	any  bool // no restriction
	frid int
	loop *loop
}

type verifier struct {
	w         *world
	root      *contract
	rootFn    *ssa.Function
	entry     *state
	params    map[string]sval
	obs       []*obligation
	assume    map[string]bool
	discover  int // >0 while only looking for the cells a loop changes
	writes    []writeRec
	loopMods  map[string]*loopMod
	paths     int
	global    []*Term // facts about heap constants
	bases     int
	fnTerm    map[*Term]*closure
	fnConst   map[string]*Term
	inlined   map[string]bool
	called    map[string]bool
	loops     map[*ssa.Function]*loopInfo
	usedFn    map[string]bool
	usedGlob  map[*axiomDef]bool
	disc      []discovery
	others    []othersSk
	exitNames map[string]nameVal
	noAxiom   map[string]bool
	base0     *factList
	exits     []*factList
	allocs    bool // something may have been allocated since this was last cleared
}

type writeRec struct {
	c    string
	keys []*Term
	cond bool
}

type loopMod struct {
	any   map[string]bool
	exact map[string][]*Term
}

func (v *verifier) heapOf(st *state, c *comp) *Term {
	if g, ok := v.w.sealedIn[c.name]; ok && g != v.root.group {
		if _, blind := st.heap[c.name]; !blind {
			panic(unsupported("the code touches " + c.name + ", which belongs to the functions of " + g))
		}
	}
	if h, ok := st.heap[c.name]; ok {
		return h
	}
	n := fmt.Sprintf("H%d:%s", st.base.id, c.name)
	h := mkConst(n, c.heapSort())
	v.closed(h, c, st.base.top)
	return h
}

var closedDone = map[*Term]*Term{}

// closed records that references stored in the heap constant h are allocated.
func (v *verifier) closed(h *Term, c *comp, top *Term) {
	for _, n := range v.w.zeroed[v.root.group] {
		if n == c.name {
			k := canonVar("k", "Int", 0)
			x := mkSelect(h, k)
			v.addGlobal(mkForall([]*Term{k}, mkIte(mkLe(call("birth", k), top), mkLe(call("birth", x), top), mkEq(x, mkInt(0))), []*Term{x}))
			return
		}
	}
	if c.g != nil {
		v.closedGhost(h, c, top)
		return
	}
	if c.mval != nil && isPtrLike(c.mval.Elem()) {
		// the value of an absent key is taken to be some allocated object as well
		m, k := canonVar("k", "Int", 0), canonVar("k", sortOf(c.mval.Key()), 1)
		x := mkSelect(mkSelect(h, m), k)
		g := mkLe(call("birth", m), top)
		if isPtrLike(c.mval.Key()) {
			g = mkAnd(g, mkLe(call("birth", k), top))
		}
		v.addGlobal(mkForall([]*Term{m, k}, mkImp(g, mkLe(call("birth", x), top)), []*Term{x}))
		return
	}
	if c.typ == nil {
		return
	}
	ks := make([]*Term, c.keys)
	x := h
	for i := range ks {
		ks[i] = canonVar("k", "Int", i)
		x = mkSelect(x, ks[i])
	}
	var f *Term
	switch c.sort {
	case "Int":
		switch under(c.typ).(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			f = mkLe(call("birth", x), top)
		}
	case "Slice":
		f = v.wf(x, c.typ, top)
	case "Any":
		f = wfAny(x, top)
	}
	if f == nil {
		return
	}
	if c.keys > 0 {
		f = mkForall(ks, mkImp(mkLe(call("birth", ks[0]), top), f), []*Term{x})
	}
	v.addGlobal(f)
}

// closedGhost: a ghost component of references (or of maps to references) holds allocated ones.
func (v *verifier) closedGhost(h *Term, c *comp, top *Term) {
	var ks []*Term
	x := h
	g := tTrue
	for i := 0; i < c.keys; i++ {
		k := canonVar("k", "Int", i)
		ks = append(ks, k)
		x = mkSelect(x, k)
		g = mkAnd(g, mkLe(call("birth", k), top))
	}
	if f := wfGhost(x, c.g, top, ks, g); f != tTrue {
		v.addGlobal(f)
	}
}

// wfGhost: the references inside a ghost value are allocated.
func wfGhost(x *Term, t *stype, top *Term, ks []*Term, g *Term) *Term {
	for t.gk != nil {
		k := canonVar("k", t.gk.sort(), len(ks))
		ks = append(ks[:len(ks):len(ks)], k)
		x = mkSelect(x, k)
		t = t.gv
	}
	if t.srt != "" || t.t == nil {
		return tTrue
	}
	f := tTrue
	if isPtrLike(t.t) {
		f = mkImp(g, mkLe(call("birth", x), top))
	} else if x.sort == "Any" {
		f = mkImp(g, wfAny(x, top))
	}
	if f == tTrue {
		return f
	}
	if len(ks) > 0 {
		f = mkForall(ks, f, []*Term{x})
	}
	return f
}

// wfComp is the well-formedness of one cell of a component.
func (v *verifier) wfComp(x *Term, c *comp, top *Term) *Term {
	if c.g != nil {
		return wfGhost(x, c.g, top, nil, tTrue)
	}
	if c.typ != nil && c.keys < 2 {
		return v.wf(x, c.typ, top)
	}
	return tTrue
}

func (v *verifier) addGlobal(f *Term) {
	if f.kind == 'a' && f.op == "and" {
		for _, a := range f.args {
			v.addGlobal(a)
		}
		return
	}
	for _, g := range v.global {
		if g == f {
			return
		}
	}
	v.global = append(v.global, f)
}

// known: the condition is a fact, literally.
func (v *verifier) known(st *state, c *Term) bool {
	if c == tTrue || st.has(c) {
		return true
	}
	for _, g := range v.global {
		if g == c {
			return true
		}
	}
	return false
}

// wf is the well-formedness of a value of type t when top references are allocated.
func (v *verifier) wf(x *Term, t types.Type, top *Term) *Term {
	if t == nil || isOpaque(t) {
		return tTrue
	}
	switch under(t).(type) {
	case *types.Basic:
		if lo, hi := intRange(t); lo != nil && x.sort == "Int" {
			if x.iv != nil {
				return tTrue
			}
			return mkAnd(mkLe(mkIntB(lo), x), mkLe(x, mkIntB(hi)))
		}
		if x.sort == "Str" {
			return mkAnd(mkLe(mkInt(0), call("slen", x)), mkLe(call("slen", x), maxLen))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if x.iv != nil {
			return tTrue
		}
		return mkLe(call("birth", x), top)
	case *types.Slice:
		if x == nilSlice {
			return tTrue
		}
		a, o, l, c := call("sarr", x), call("soff", x), call("slen_", x), call("scap", x)
		return mkAnd(mkLe(call("birth", a), top), mkLe(mkInt(0), o), mkLe(mkInt(0), l), mkLe(l, c), mkLe(c, maxLen),
			mkImp(mkEq(a, mkInt(0)), mkEq(x, nilSlice)))
	case *types.Interface:
		return wfAny(x, top)
	}
	return tTrue
}

func wfAny(x, top *Term) *Term {
	a := call("sarr", call("anySlice", x))
	return mkAnd(mkImp(isCtor("refAny", x), mkLe(call("birth", call("anyRef", x)), top)),
		mkImp(isCtor("sliceAny", x), mkLe(call("birth", a), top)))
}

var maxLen = mkIntB(new(big.Int).Lsh(big.NewInt(1), 62))

// load reads a heap cell.
func (v *verifier) read(st *state, c *comp, keys ...*Term) *Term {
	x := v.heapOf(st, c)
	for i := 0; i < c.keys; i++ {
		x = mkSelect(x, keys[i])
	}
	return x
}

func (v *verifier) rawStore(st *state, c *comp, val *Term, keys ...*Term) {
	h := v.heapOf(st, c)
	switch c.keys {
	case 0:
		st.heap[c.name] = val
	case 1:
		st.heap[c.name] = mkStore(h, keys[0], val)
	case 2:
		if len(keys) == 1 { // a whole array
			st.heap[c.name] = mkStore(h, keys[0], val)
		} else {
			st.heap[c.name] = mkStore(h, keys[0], mkStore(mkSelect(h, keys[0]), keys[1], val))
		}
	}
}

// write stores with the frame check.
func (v *verifier) write(st *state, c *comp, val *Term, keys ...*Term) {
	v.checkFrame(st, c, keys)
	v.rawStore(st, c, val, keys...)
}

func (v *verifier) checkFrame(st *state, c *comp, keys []*Term) {
	if v.discover > 0 {
		v.writes = append(v.writes, writeRec{c: c.name, keys: keys})
	}
	if len(keys) > 0 && st.fresh[keys[0].id] {
		// allocated since the function was entered; loop frames may be younger
		if len(st.frames) <= 1 {
			return
		}
	}
	for i, fr := range st.frames {
		if fr.any {
			continue
		}
		if i == 0 && len(keys) > 0 && st.fresh[keys[0].id] {
			continue
		}
		v.oblige(st, "frame", fr.name+"modifies "+c.name, fr.allows(c, keys))
	}
}

func (fr *modFrame) allows(c *comp, keys []*Term) *Term {
	var alts []*Term
	if len(keys) > 0 {
		alts = append(alts, mkLt(fr.top, call("birth", keys[0])))
	}
	for _, m := range fr.mods[c.name] {
		switch {
		case c.keys == 0:
			return tTrue
		case m.exact != nil && m.key1 == nil:
			alts = append(alts, mkEq(m.exact, keys[0]))
		case m.exact != nil:
			if len(keys) > 1 {
				alts = append(alts, mkAnd(mkEq(m.exact, keys[0]), mkEq(m.key1, keys[1])))
			}
		case m.cond != nil:
			alts = append(alts, m.cond(keys))
		}
	}
	return mkOr(alts...)
}

func (v *verifier) alloc(st *state, what string) *Term {
	v.allocs = true
	r := mkAdd(st.top, mkInt(1))
	if r.iv == nil && r.kind != 'c' {
		// name it, so that it is recognised as a fresh reference
		st.top = r
	} else {
		st.top = r
	}
	st.fresh[r.id] = true
	st.add(mkEq(call("birth", r), r))
	return r
}

// fieldsOf lists the fields of a struct with their index.
func fieldsOf(t types.Type) *types.Struct { return under(t).(*types.Struct) }

// subRef is the reference of a struct or array embedded in the object r.
func subRef(r *Term, i int) *Term { return call("subref", r, mkInt(int64(i))) }

// zeroObject initialises the object at r.
func (v *verifier) zeroObject(st *state, r *Term, t types.Type) {
	s := fieldsOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch {
		case isStruct(ft):
			v.zeroObject(st, subRef(r, i), ft)
		case isArray(ft):
			v.zeroArray(st, subRef(r, i), under(ft).(*types.Array).Elem())
		default:
			v.rawStore(st, fieldComp(t, s.Field(i).Name(), ft), zeroOf(ft), r)
		}
	}
	for _, g := range v.w.ghostsOf(structName(t)) {
		v.rawStore(st, g, zeroSort(g.sort), r)
	}
}

func (v *verifier) zeroArray(st *state, r *Term, et types.Type) {
	v.eachElemComp(et, "", func(c *comp, ft types.Type) {
		v.rawStore(st, c, mkConstArr(arrSort("Int", c.sort), zeroOf(ft)), r)
	})
	for _, g := range v.ownGhostMaps() {
		v.rawStore(st, g, zeroSort(g.sort), r)
	}
}

// eachElemComp lists the components of an array with elements of type et.
func (v *verifier) eachElemComp(et types.Type, path string, f func(c *comp, ft types.Type)) {
	v.eachElemComp1(et, et, "", f)
}

func (v *verifier) eachElemComp1(root, t types.Type, path string, f func(c *comp, ft types.Type)) {
	if !isStruct(t) {
		if isArray(t) {
			panic(unsupported("array in array"))
		}
		if path == "" {
			f(elemComp(t), t)
		} else {
			f(elemFieldComp(root, path, t), t)
		}
		return
	}
	s := fieldsOf(t)
	for i := 0; i < s.NumFields(); i++ {
		p := s.Field(i).Name()
		if path != "" {
			p = path + "." + p
		}
		if isArray(s.Field(i).Type()) {
			continue
		}
		v.eachElemComp1(root, s.Field(i).Type(), p, f)
	}
}

// loadAt reads a value of type t from the struct object r.
func (v *verifier) loadStruct(st *state, r *Term, t types.Type) *structVal {
	s := fieldsOf(t)
	out := &structVal{t: t}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch {
		case isStruct(ft):
			out.f = append(out.f, v.loadStruct(st, subRef(r, i), ft))
		case isArray(ft):
			out.f = append(out.f, v.loadArray(st, subRef(r, i), ft))
		default:
			x := v.read(st, fieldComp(t, s.Field(i).Name(), ft), r)
			st.add(v.wf(x, ft, st.top))
			out.f = append(out.f, x)
		}
	}
	return out
}

func (v *verifier) loadArray(st *state, r *Term, t types.Type) Val {
	et := under(t).(*types.Array).Elem()
	if isStruct(et) || isArray(et) {
		panic(unsupported("load of an array of structs"))
	}
	return mkSelect(v.heapOf(st, elemComp(et)), r)
}

func (v *verifier) storeStruct(st *state, r *Term, t types.Type, val Val) {
	s := fieldsOf(t)
	sv, ok := val.(*structVal)
	if !ok {
		panic(unsupported(fmt.Sprintf("store of %T as struct %s", val, t)))
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch {
		case isStruct(ft):
			v.storeStruct(st, subRef(r, i), ft, sv.f[i])
		case isArray(ft):
			et := under(ft).(*types.Array).Elem()
			v.write(st, elemComp(et), sv.f[i].(*Term), subRef(r, i))
		default:
			v.write(st, fieldComp(t, s.Field(i).Name(), ft), v.term(sv.f[i]), r)
		}
	}
}

func zeroVal(t types.Type) Val {
	if isStruct(t) {
		s := fieldsOf(t)
		out := &structVal{t: t}
		for i := 0; i < s.NumFields(); i++ {
			out.f = append(out.f, zeroVal(s.Field(i).Type()))
		}
		return out
	}
	return zeroOf(t)
}

// term turns a value into a term.
func (v *verifier) term(x Val) *Term {
	switch x := x.(type) {
	case *Term:
		return x
	case *closure:
		if len(x.bind) == 0 {
			k := x.fn.String()
			if t, ok := v.fnConst[k]; ok {
				return t
			}
			t := mkConst("fn:"+k, "Int")
			v.fnConst[k] = t
			v.fnTerm[t] = x
			v.addGlobal(mkLt(t, mkInt(0)))
			return t
		}
		t := freshConst("closure", "Int")
		v.fnTerm[t] = x
		v.addGlobal(mkNot(mkEq(t, mkInt(0))))
		return t
	case *addr:
		// the address of a cell that escapes: an opaque reference
		t := freshConst("celladdr", "Int")
		v.addGlobal(mkNot(mkEq(t, mkInt(0))))
		return t
	}
	panic(unsupported(fmt.Sprintf("value %T used as a term", x)))
}

// freshVal is an arbitrary value of type t.
func (v *verifier) freshVal(st *state, name string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var out tuple
		for i := 0; i < tp.Len(); i++ {
			out = append(out, v.freshVal(st, fmt.Sprintf("%s.%d", name, i), tp.At(i).Type()))
		}
		return out
	}
	if isStruct(t) {
		s := fieldsOf(t)
		out := &structVal{t: t}
		for i := 0; i < s.NumFields(); i++ {
			out.f = append(out.f, v.freshVal(st, name+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return out
	}
	x := freshConst(name, sortOf(t))
	st.add(v.wf(x, t, st.top))
	return x
}

func (v *verifier) note(f string, a ...any) { v.assume[fmt.Sprintf(f, a...)] = true }

func (v *verifier) oblige(st *state, kind, name string, goal *Term) {
	if v.discover > 0 {
		st.add(goal)
		return
	}
	n := 0
	pre := st.facts
	lean := st.lean
	if lean == nil {
		lean = pre
	}
	defer func() {
		st.facts = pre
		st.add(goal)
	}()
	for _, g := range splitGoal(goal) {
		nm := name
		if n > 0 {
			nm = fmt.Sprintf("%s [%d]", name, n+1)
		}
		n++
		o := &obligation{name: nm, fn: v.root.key, facts: st.facts, lean: lean, goal: g, kind: kind}
		if len(st.stack) > 0 {
			o.name = strings.Join(st.stack, " in ") + ": " + o.name
		}
		if g == tTrue || st.has(g) {
			o.verdict, o.backend = "proved", "simplifier"
		}
		v.obs = append(v.obs, o)
		st.add(g)
	}
}

// splitGoal splits conjunctions, also below implications and universal quantifiers.
func splitGoal(g *Term) []*Term {
	switch {
	case g.kind == 'a' && g.op == "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case g.kind == 'a' && g.op == "=>":
		var out []*Term
		for _, a := range splitGoal(g.args[1]) {
			out = append(out, mkImp(g.args[0], a))
		}
		return out
	case g.kind == 'q' && g.op == "forall":
		var out []*Term
		for _, a := range splitGoal(g.args[0]) {
			if len(g.pats) > 0 {
				out = append(out, mkForall(g.vars, a, g.pats...))
			} else {
				out = append(out, mkForall(g.vars, a))
			}
		}
		return out
	}
	return []*Term{g}
}

// ownGhostMaps lists the ghost maps code of this group may set for a fresh array. What the others
// hold for an array allocated here is left unknown (their groups' "zeroed" facts speak about it).
func (v *verifier) ownGhostMaps() []*comp {
	var r []*comp
	for _, g := range v.w.ghostMapComps() {
		if s := v.w.sealedIn[g.name]; s == "" || s == v.root.group {
			r = append(r, g)
		}
	}
	return r
}
