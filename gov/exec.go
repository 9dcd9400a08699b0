package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	n      int
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	all      []*loop
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.byHeader[s]
			if l == nil {
				l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				li.byHeader[s] = l
				li.all = append(li.all, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	pos := func(l *loop) token.Pos {
		min := token.Pos(1 << 40)
		for b := range l.blocks {
			for _, i := range b.Instrs {
				p := i.Pos()
				if d, ok := i.(*ssa.DebugRef); ok {
					p = d.Expr.Pos()
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				if p.IsValid() && p < min {
					min = p
				}
			}
		}
		return min
	}
	sort.SliceStable(li.all, func(i, j int) bool {
		pi, pj := pos(li.all[i]), pos(li.all[j])
		if pi != pj {
			return pi < pj
		}
		return len(li.all[i].blocks) > len(li.all[j].blocks)
	})
	for i, l := range li.all {
		l.n = i + 1
	}
	return li
}

type nameVal struct {
	v    Val
	t    types.Type
	addr bool
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type activeLoop struct {
	before *state
	names  map[string]nameVal
}

type frame struct {
	id     int
	fn     *ssa.Function
	env    map[ssa.Value]Val
	names  map[string]nameVal
	defers []deferred
	c      *contract
	root   bool
	active map[*ssa.BasicBlock]*activeLoop
	count  map[*ssa.BasicBlock]int
	depth  int
}

var frameIDs int

func (fr *frame) clone() *frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env))
	for k, x := range fr.env {
		n.env[k] = x
	}
	n.names = make(map[string]nameVal, len(fr.names))
	for k, x := range fr.names {
		n.names[k] = x
	}
	n.active = make(map[*ssa.BasicBlock]*activeLoop, len(fr.active))
	for k, x := range fr.active {
		n.active[k] = x
	}
	n.count = make(map[*ssa.BasicBlock]int, len(fr.count))
	for k, x := range fr.count {
		n.count[k] = x
	}
	n.defers = append([]deferred(nil), fr.defers...)
	return &n
}

type cont func(st *state, res Val)

type discovery struct {
	frame int
	loop  *loop
}

func (v *verifier) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := v.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	v.loops[fn] = l
	return l
}

func (v *verifier) newFrame(fn *ssa.Function, args, bind []Val, c *contract, depth int) *frame {
	frameIDs++
	fr := &frame{id: frameIDs, fn: fn, env: map[ssa.Value]Val{}, names: map[string]nameVal{}, c: c, depth: depth,
		active: map[*ssa.BasicBlock]*activeLoop{}, count: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.names[p.Name()] = nameVal{args[i], p.Type(), false}
		if c != nil && i < len(c.params) {
			fr.names[c.params[i]] = nameVal{args[i], p.Type(), false}
		}
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
		fr.names[p.Name()] = nameVal{bind[i], p.Type(), true}
	}
	return fr
}

const maxPaths = 6000

func (v *verifier) endPath() {
	v.paths++
	if v.paths > maxPaths {
		panic(unsupported("too many paths"))
	}
}

func (v *verifier) enterBlock(st *state, fr *frame, pred, b *ssa.BasicBlock, k cont) {
	if n := len(v.disc); n > 0 {
		if d := v.disc[n-1]; d.frame == fr.id && !d.loop.blocks[b] {
			return
		}
	}
	if len(st.frames) > 0 {
		keep := st.frames[:0:0]
		for _, f := range st.frames {
			if f.frid != fr.id || f.loop == nil || f.loop.blocks[b] {
				keep = append(keep, f)
			}
		}
		st.frames = keep
	}
	li := v.loopsOf(fr.fn)
	// phis
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	if len(phis) > 0 {
		idx := -1
		for i, p := range b.Preds {
			if p == pred {
				idx = i
			}
		}
		vals := make([]Val, len(phis))
		for i, p := range phis {
			vals[i] = v.eval(st, fr, p.Edges[idx])
		}
		for i, p := range phis {
			fr.env[p] = vals[i]
			v.setPhiName(fr, p)
		}
	}
	l := li.byHeader[b]
	if l == nil {
		v.execFrom(st, fr, b, len(phis), k)
		return
	}
	ls := &loopSpec{}
	if fr.c != nil && fr.c.loops[l.n] != nil {
		ls = fr.c.loops[l.n]
	}
	back := pred != nil && l.blocks[pred]
	if ls.unroll > 0 {
		if !back {
			fr.count[b] = 0
		}
		fr.count[b]++
		if fr.count[b] > ls.unroll+1 {
			v.oblige(st, "unroll", fmt.Sprintf("loop %d runs at most %d times", l.n, ls.unroll), tFalse)
			v.endPath()
			return
		}
		v.execFrom(st, fr, b, len(phis), k)
		return
	}
	if back {
		al := fr.active[b]
		if al == nil {
			panic(unsupported("irreducible loop"))
		}
		if n := len(v.disc); n > 0 && v.disc[n-1].frame == fr.id && v.disc[n-1].loop == l {
			v.execGhost(v.loopCtx(st, fr, al), ls.back)
			return
		}
		cx := v.loopCtx(st, fr, al)
		v.execGhost(cx, ls.back)
		v.checkClauses(cx, ls.invs, "loop", fmt.Sprintf("loop %d invariant", l.n), " is kept")
		v.endPath()
		return
	}
	// entry
	al := &activeLoop{names: fr.names}
	{
		cx := v.loopCtx(st, fr, al)
		v.execGhost(cx, ls.entry)
		cx.before = st
		v.checkClauses(cx, ls.invs, "loop", fmt.Sprintf("loop %d invariant", l.n), " holds on entry")
	}
	entry := st.clone()
	al.before = entry
	names := map[string]nameVal{}
	for n, x := range fr.names {
		names[n] = x
	}
	al.names = names
	lm := &loopMod{any: map[string]bool{}, exact: map[string][]*Term{}}
	inits := make([]Val, len(phis))
	for i, p := range phis {
		inits[i] = fr.env[p]
	}
	var lframe *modFrame
	if ls.hasMod {
		cx := v.loopCtx(entry, fr, al)
		cx.before = entry
		lframe = &modFrame{top: entry.top, heap: entry, mods: v.evalMods(cx, ls.mods), name: fmt.Sprintf("loop %d ", l.n), frid: fr.id, loop: l}
	}
	loopAllocs := false
	// head builds the state at the head of an arbitrary iteration
	head := func() (*state, *frame) {
		s := entry.clone()
		f := fr.clone()
		if loopAllocs {
			s.top = freshConst("top", "Int")
			s.add(mkLe(entry.top, s.top))
			for _, cn := range v.w.zeroed[v.root.group] {
				if !lm.any[cn] {
					v.havocMods(s, entry, comps[cn], []modFn{{cond: func([]*Term) *Term { return tFalse }}})
				}
			}
		}
		if lframe != nil {
			s.frames = append(append([]*modFrame(nil), s.frames...), lframe)
		}
		if lm.any["*"] {
			v.havocAll(s)
		}
		for _, cn := range sortedKeys(lm.any) {
			if cn == "*" {
				continue
			}
			v.havocAny(s, comps[cn])
		}
		var ecs []string
		for cn := range lm.exact {
			ecs = append(ecs, cn)
		}
		sort.Strings(ecs)
		for _, cn := range ecs {
			if lm.any[cn] {
				continue
			}
			c := comps[cn]
			for _, key := range lm.exact[cn] {
				if c.keys == 0 {
					s.heap[cn] = freshConst("h:"+cn, c.sort)
					s.add(v.wfComp(s.heap[cn], c, s.top))
					continue
				}
				srt := c.sort
				if c.keys == 2 {
					srt = arrSort("Int", c.sort)
				}
				nv := freshConst("h:"+cn, srt)
				s.add(v.wfComp(nv, c, s.top))
				v.rawStore(s, c, nv, key)
			}
		}
		for i, p := range phis {
			if phiConstant(p, l) {
				f.env[p] = inits[i]
				v.setPhiName(f, p)
				continue
			}
			nm := p.Comment
			if nm == "" {
				nm = "phi"
			}
			f.env[p] = v.freshVal(s, nm, p.Type())
			v.setPhiName(f, p)
			if iv, ok := inits[i].(*Term); ok && iv.sort == "Int" {
				if nv := f.env[p].(*Term); nv.sort == "Int" {
					v.autoPhi(s, f, p, l, iv, nv)
				}
			}
		}
		f.active[b] = al
		cx := v.loopCtx(s, f, al)
		for _, c := range ls.invs {
			s.add(v.evalBool(cx, c.e))
		}
		return s, f
	}
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop effects do not converge"))
		}
		s, f := head()
		mark := tt.n
		saved := v.writes
		savedAllocs := v.allocs
		v.writes, v.allocs = nil, false
		v.discover++
		v.disc = append(v.disc, discovery{f.id, l})
		headTop := s.top
		v.execFrom(s, f, b, len(phis), func(*state, Val) {})
		v.disc = v.disc[:len(v.disc)-1]
		v.discover--
		ws := v.writes
		v.writes = saved
		changed := v.allocs && !loopAllocs
		loopAllocs = loopAllocs || v.allocs
		v.allocs = savedAllocs || loopAllocs
		if v.discover > 0 {
			v.writes = append(v.writes, ws...)
		}
		for _, w := range ws {
			if lm.any["*"] || lm.any[w.c] {
				continue
			}
			if w.c == "*" {
				lm.any["*"] = true
				changed = true
				continue
			}
			c := comps[w.c]
			if c.keys == 0 {
				if len(lm.exact[w.c]) == 0 {
					lm.exact[w.c] = []*Term{mkInt(0)}
					changed = true
				}
				continue
			}
			if !w.cond && len(w.keys) > 0 {
				if isFreshSince(w.keys[0], headTop, mark) {
					continue
				}
				if !constsAfter(w.keys[0], mark) {
					found := false
					for _, e := range lm.exact[w.c] {
						if e == w.keys[0] {
							found = true
						}
					}
					if found {
						continue
					}
					if len(lm.exact[w.c]) < 5 {
						lm.exact[w.c] = append(lm.exact[w.c], w.keys[0])
						changed = true
						continue
					}
				}
			}
			lm.any[w.c] = true
			changed = true
		}
		if !changed {
			break
		}
	}
	s, f := head()
	v.execFrom(s, f, b, len(phis), k)
}

// isFreshSince tells whether the reference was allocated after the loop head.
func isFreshSince(t, headTop *Term, mark int) bool {
	for t.kind == 'a' && t.op == "subref" {
		t = t.args[0]
	}
	b, c := splitAdd(t)
	if b == nil || c.Sign() <= 0 {
		return false
	}
	return b.kind == 'c' && strings.HasPrefix(b.op, "top!") && (b == headTop || b.id > mark)
}

func constsAfter(t *Term, mark int) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.kind == 'c' && t.id > mark && !strings.HasPrefix(t.op, "H0:") && !isStrLit(t) {
			if _, ok := ctors[t.op]; !ok {
				return true
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// phiConstant: every back edge carries the phi itself.
func phiConstant(p *ssa.Phi, l *loop) bool {
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] && e != ssa.Value(p) {
			return false
		}
	}
	return true
}

// autoPhi adds the facts about counters that follow from the shape of the loop.
func (v *verifier) autoPhi(st *state, fr *frame, p *ssa.Phi, l *loop, init, nv *Term) {
	dir := 0
	for i, e := range p.Edges {
		if !l.blocks[p.Block().Preds[i]] {
			continue
		}
		d := 0
		if e == ssa.Value(p) {
			continue
		}
		if bo, ok := e.(*ssa.BinOp); ok && bo.X == ssa.Value(p) {
			if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil {
				if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && (n == 1 || n == 2) {
					if bo.Op == token.ADD {
						d = int(n)
					} else if bo.Op == token.SUB {
						d = -int(n)
					}
				}
			}
		}
		if d == 0 || dir != 0 && dir != d {
			return
		}
		dir = d
	}
	if dir > 0 {
		st.add(mkLe(init, nv))
	} else if dir < 0 {
		st.add(mkLe(nv, init))
	}
	if dir != 1 && dir != -1 {
		return
	}
	// the condition in the header
	h := p.Block()
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !l.blocks[h.Succs[0]] || l.blocks[h.Succs[1]] {
		return
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	off := int64(0)
	if cmp.X != ssa.Value(p) {
		bo, ok := cmp.X.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(p) || bo.Op != token.ADD || dir != 1 {
			return
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok {
			return
		}
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); !ok || n != 1 {
			return
		}
		off = -1
	}
	// the bound must not change in the loop
	if in, ok := cmp.Y.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return
	}
	bound, ok := v.eval(st, fr, cmp.Y).(*Term)
	if !ok {
		return
	}
	switch {
	case dir == 1 && cmp.Op == token.LSS:
		st.add(mkOr(mkEq(nv, init), mkLe(nv, mkAdd(bound, mkInt(off)))))
	case dir == 1 && cmp.Op == token.LEQ:
		st.add(mkOr(mkEq(nv, init), mkLe(nv, mkAdd(bound, mkInt(off+1)))))
	case dir == -1 && cmp.Op == token.GEQ:
		st.add(mkOr(mkEq(nv, init), mkLe(mkAdd(bound, mkInt(-1)), nv)))
	case dir == -1 && cmp.Op == token.GTR:
		st.add(mkOr(mkEq(nv, init), mkLe(bound, nv)))
	}
}

func (v *verifier) setPhiName(fr *frame, p *ssa.Phi) {
	if p.Comment == "" {
		return
	}
	fr.names[p.Comment] = nameVal{fr.env[p], p.Type(), false}
	if p.Comment == "rangeindex" {
		l := v.loopsOf(fr.fn).byHeader[p.Block()]
		if l != nil {
			if t, ok := fr.env[p].(*Term); ok {
				nv := nameVal{mkAdd(t, mkInt(1)), p.Type(), false}
				fr.names["$i"] = nv
				fr.names[fmt.Sprintf("$i%d", l.n)] = nv
			}
			if x := rangedSlice(l, p); x != nil {
				if xv, ok := fr.env[x]; ok {
					fr.names["rangeover"] = nameVal{xv, x.Type(), false}
				}
			}
		}
	}
}

// rangedSlice is the slice a range loop with index p goes over.
func rangedSlice(l *loop, p *ssa.Phi) ssa.Value {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			bo, ok := ia.Index.(*ssa.BinOp)
			if !ok || bo.X != ssa.Value(p) || bo.Op != token.ADD {
				continue
			}
			if d, ok := ia.X.(ssa.Instruction); ok && l.blocks[d.Block()] {
				continue
			}
			return ia.X
		}
	}
	return nil
}

func (v *verifier) havocAll(st *state) {
	v.bases++
	st.base = &base{v.bases, st.top}
	st.heap = map[string]*Term{}
}

// havocAny forgets a component, keeping what the active frames protect.
func (v *verifier) havocAny(st *state, c *comp) {
	if c.keys == 0 {
		st.heap[c.name] = freshConst("h:"+c.name, c.sort)
		return
	}
	h := freshConst("h:"+c.name, c.heapSort())
	for _, fr := range st.frames {
		if fr.any {
			continue
		}
		oldH := v.heapOf(fr.heap, c)
		v.frameFact(st, c, h, oldH, fr.top, func(keys []*Term) *Term {
			var alts []*Term
			for _, m := range fr.mods[c.name] {
				alts = append(alts, m.covers(keys))
			}
			return mkOr(alts...)
		}, fr.mods[c.name])
	}
	st.heap[c.name] = h
	v.closedAt(st, h, c)
}

// covers: the item allows a change of the cell.
func (m modFn) covers(keys []*Term) *Term {
	switch {
	case m.exact != nil && m.key1 == nil:
		return mkEq(m.exact, keys[0])
	case m.exact != nil:
		if len(keys) < 2 {
			return mkEq(m.exact, keys[0])
		}
		return mkAnd(mkEq(m.exact, keys[0]), mkEq(m.key1, keys[1]))
	}
	return m.cond(keys)
}

func twoKeys(ms []modFn) bool {
	for _, m := range ms {
		if m.key1 != nil || m.two {
			return true
		}
	}
	return false
}

func (v *verifier) frameFact(st *state, c *comp, h, oldH, top *Term, cov func(keys []*Term) *Term, ms []modFn) {
	kv := mkBoundVar("k", "Int")
	if c.keys == 2 && twoKeys(ms) {
		iv := mkBoundVar("i", "Int")
		nx := mkSelect(mkSelect(h, kv), iv)
		st.add(mkForall([]*Term{kv, iv}, mkImp(mkAnd(mkLe(call("birth", kv), top), mkNot(cov([]*Term{kv, iv}))),
			mkEq(nx, mkSelect(mkSelect(oldH, kv), iv))), []*Term{nx}))
		return
	}
	nx := mkSelect(h, kv)
	st.add(mkForall([]*Term{kv}, mkImp(mkAnd(mkLe(call("birth", kv), top), mkNot(cov([]*Term{kv}))),
		mkEq(nx, mkSelect(oldH, kv))), []*Term{nx}))
}

func (v *verifier) closedAt(st *state, h *Term, c *comp) {
	n := len(v.global)
	v.closed(h, c, st.top)
	// facts about values created on this path belong to the path
	if len(v.global) > n {
		f := v.global[n]
		v.global = v.global[:n]
		st.add(f)
	}
}

func (v *verifier) eval(st *state, fr *frame, x ssa.Value) Val {
	if r, ok := fr.env[x]; ok {
		return r
	}
	switch x := x.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &closure{fn: x}
	case *ssa.Global:
		t := x.Type().(*types.Pointer).Elem()
		name := x.Pkg.Pkg.Name() + "." + x.Name()
		if isStruct(t) || isArray(t) {
			return v.globRef(name)
		}
		return &addr{c: globComp(name, t), t: t}
	case *ssa.Builtin:
		return x
	}
	panic(unsupported(fmt.Sprintf("value %s (%T) in %s", x.Name(), x, fr.fn)))
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	}
	b, _ := under(t).(*types.Basic)
	if b != nil && b.Info()&types.IsFloat != 0 {
		return fltConst(c.Value)
	}
	i := constant.ToInt(c.Value)
	if i.Kind() != constant.Int {
		panic(unsupported("constant " + c.String()))
	}
	n, _ := new(big.Int).SetString(i.ExactString(), 10)
	return mkIntB(n)
}

func fltConst(cv constant.Value) *Term {
	f := constant.ToFloat(cv)
	num, den := constant.Num(f), constant.Denom(f)
	return mkFlt(fmt.Sprintf("(/ %s.0 %s.0)", smtInt(num.ExactString()), den.ExactString()), false)
}

func smtInt(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ".0)"
	}
	return s
}

func (v *verifier) tval(st *state, fr *frame, x ssa.Value) *Term { return v.term(v.eval(st, fr, x)) }

func (v *verifier) nonNil(st *state, r *Term, what string) {
	if len(v.disc) == 0 && st.fresh[r.id] {
		return
	}
	v.oblige(st, "safety", "no nil dereference "+what, mkNot(mkEq(r, mkInt(0))))
}

// loadAddr reads through a pointer value.
func (v *verifier) loadAddr(st *state, p Val, t types.Type, what string) Val {
	switch a := p.(type) {
	case *addr:
		if a.st != nil {
			return v.loadElemStruct(st, a, t)
		}
		x := v.read(st, a.c, a.keys...)
		st.add(v.wf(x, t, st.top))
		return x
	case *Term:
		v.nonNil(st, a, what)
		switch {
		case isStruct(t):
			return v.loadStruct(st, a, t)
		case isArray(t):
			return v.loadArray(st, a, t)
		}
		x := v.read(st, boxComp(t), a)
		st.add(v.wf(x, t, st.top))
		return x
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (v *verifier) loadElemStruct(st *state, a *addr, t types.Type) Val {
	s := fieldsOf(t)
	out := &structVal{t: t}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		p := s.Field(i).Name()
		if a.path != "" {
			p = a.path + "." + p
		}
		if isStruct(ft) {
			out.f = append(out.f, v.loadElemStruct(st, &addr{st: a.st, keys: a.keys, path: p}, ft))
			continue
		}
		if isArray(ft) {
			out.f = append(out.f, freshConst("arr", sortOf(ft)))
			continue
		}
		x := v.read(st, elemFieldComp(a.st, p, ft), a.keys...)
		st.add(v.wf(x, ft, st.top))
		out.f = append(out.f, x)
	}
	return out
}

func (v *verifier) storeAddr(st *state, p Val, t types.Type, val Val, what string) {
	switch a := p.(type) {
	case *addr:
		if a.st != nil {
			v.storeElemStruct(st, a, t, val)
			return
		}
		v.storeCell(st, a.c, v.term(val), a.keys...)
		return
	case *Term:
		v.nonNil(st, a, what)
		switch {
		case isStruct(t):
			v.storeStruct(st, a, t, val)
		case isArray(t):
			v.write(st, elemComp(under(t).(*types.Array).Elem()), val.(*Term), a)
		default:
			v.storeCell(st, boxComp(t), v.term(val), a)
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (v *verifier) storeElemStruct(st *state, a *addr, t types.Type, val Val) {
	s := fieldsOf(t)
	sv := val.(*structVal)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		p := s.Field(i).Name()
		if a.path != "" {
			p = a.path + "." + p
		}
		if isStruct(ft) {
			v.storeElemStruct(st, &addr{st: a.st, keys: a.keys, path: p}, ft, sv.f[i])
			continue
		}
		if isArray(ft) {
			continue
		}
		v.storeCell(st, elemFieldComp(a.st, p, ft), v.term(sv.f[i]), a.keys...)
	}
}

// storeCell stores a scalar and runs the ghost code attached to the component.
func (v *verifier) storeCell(st *state, c *comp, val *Term, keys ...*Term) {
	run := func(after bool) {
		for _, ev := range v.root.stores {
			if ev.after != after || !v.compIs(ev.comp, c) {
				continue
			}
			cx := v.rootCtx(st)
			for i, n := range ev.vars {
				var x sval
				if i < len(keys) {
					x = sval{t: keys[i], typ: v.keyType(c, i)}
				} else {
					x = sval{t: val, typ: &stype{t: c.typ}}
				}
				cx.bind(n, x)
			}
			v.execGhost(cx, ev.body)
		}
	}
	run(false)
	v.write(st, c, val, keys...)
	run(true)
}

func (v *verifier) execFrom(st *state, fr *frame, b *ssa.BasicBlock, i int, k cont) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
			if id, ok := in.Expr.(interface{ String() string }); ok {
				_ = id
			}
			if o := in.Object(); o != nil {
				if vr, ok := o.(*types.Var); ok && !vr.IsField() {
					if vv, ok := fr.env[in.X]; ok {
						fr.names[vr.Name()] = nameVal{vv, vr.Type(), in.IsAddr}
					} else if cst, ok := in.X.(*ssa.Const); ok {
						fr.names[vr.Name()] = nameVal{constVal(cst), vr.Type(), in.IsAddr}
					}
				}
			}
		case *ssa.Alloc:
			t := in.Type().(*types.Pointer).Elem()
			r := v.alloc(st, in.Comment)
			switch {
			case isStruct(t):
				v.zeroObject(st, r, t)
			case isArray(t):
				v.zeroArray(st, r, under(t).(*types.Array).Elem())
			default:
				v.rawStore(st, boxComp(t), zeroOf(t), r)
			}
			fr.env[in] = r
		case *ssa.BinOp:
			fr.env[in] = v.binop(st, fr, in)
		case *ssa.UnOp:
			fr.env[in] = v.unop(st, fr, in)
		case *ssa.Call:
			res, done := v.doCall(st, fr, &in.Call, in, in.Type(), func(s2 *state, r Val) {
				f2 := fr.clone()
				f2.env[in] = r
				v.execFrom(s2, f2, b, i+1, k)
			})
			if !done {
				return
			}
			fr.env[in] = res
		case *ssa.Go:
			v.note("%s starts a goroutine (%s): its effects are not part of the proof", fr.fn, calleeName(&in.Call))
			v.event(st, "go."+v.goKey(&in.Call), v.goArgs(st, fr, &in.Call))
		case *ssa.Defer:
			d := deferred{call: &in.Call, pos: in.Pos()}
			if !in.Call.IsInvoke() {
				d.fn = v.eval(st, fr, in.Call.Value)
			} else {
				d.fn = v.eval(st, fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, v.eval(st, fr, a))
			}
			inLoop := false
			for _, l := range v.loopsOf(fr.fn).all {
				if l.blocks[b] {
					inLoop = true
				}
			}
			if inLoop {
				v.note("%s: the call %s deferred inside a loop is not part of the proof", fr.fn, calleeName(&in.Call))
			} else {
				fr.defers = append(fr.defers, d)
			}
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			v.runDefers(st, fr, ds, func(s2 *state, _ Val) {
				v.execFrom(s2, fr.clone(), b, i+1, k)
			})
			return
		case *ssa.If:
			c := v.tval(st, fr, in.Cond)
			v.branch(st, fr, c, func(s2 *state, f2 *frame, yes bool) {
				if yes {
					v.enterBlock(s2, f2, b, b.Succs[0], k)
				} else {
					v.enterBlock(s2, f2, b, b.Succs[1], k)
				}
			})
			return
		case *ssa.Jump:
			v.enterBlock(st, fr, b, b.Succs[0], k)
			return
		case *ssa.Return:
			if n := len(v.disc); n > 0 && v.disc[n-1].frame == fr.id {
				return
			}
			var res Val
			switch len(in.Results) {
			case 0:
			case 1:
				res = v.eval(st, fr, in.Results[0])
			default:
				var t tuple
				for _, r := range in.Results {
					t = append(t, v.eval(st, fr, r))
				}
				res = t
			}
			if fr.root {
				v.exitNames = fr.names
			}
			k(st, res)
			return
		case *ssa.Panic:
			v.oblige(st, "safety", "no panic", tFalse)
			v.endPath()
			return
		case *ssa.Store:
			p := v.eval(st, fr, in.Addr)
			v.storeAddr(st, p, in.Val.Type(), v.eval(st, fr, in.Val), "in a store")
		case *ssa.FieldAddr:
			fr.env[in] = v.fieldAddr(st, fr, in)
		case *ssa.Field:
			sv, ok := v.eval(st, fr, in.X).(*structVal)
			if !ok {
				panic(unsupported("field of a non struct"))
			}
			fr.env[in] = sv.f[in.Field]
		case *ssa.IndexAddr:
			fr.env[in] = v.indexAddr(st, fr, in)
		case *ssa.Index:
			x := v.eval(st, fr, in.X)
			ix := v.tval(st, fr, in.Index)
			xt := under(in.X.Type())
			if a, ok := xt.(*types.Array); ok {
				v.oblige(st, "safety", "index in range", mkAnd(mkLe(mkInt(0), ix), mkLt(ix, mkInt(a.Len()))))
				fr.env[in] = mkSelect(x.(*Term), ix)
			} else {
				s := x.(*Term)
				v.oblige(st, "safety", "string index in range", mkAnd(mkLe(mkInt(0), ix), mkLt(ix, strLen(s))))
				r := strAt(s, ix)
				st.add(v.wf(r, types.Typ[types.Uint8], st.top))
				fr.env[in] = r
			}
		case *ssa.Lookup:
			fr.env[in] = v.lookup(st, fr, in)
		case *ssa.MapUpdate:
			m := v.tval(st, fr, in.Map)
			mt := under(in.Map.Type()).(*types.Map)
			key, val := v.tval(st, fr, in.Key), v.tval(st, fr, in.Value)
			v.nonNil(st, m, "(write to a map)")
			dc, vc := mapDomComp(mt), mapValComp(mt)
			v.storeCell(st, dc, mkStore(v.read(st, dc, m), key, tTrue), m)
			v.storeCell(st, vc, mkStore(v.read(st, vc, m), key, val), m)
		case *ssa.MakeMap:
			r := v.alloc(st, "map")
			mt := under(in.Type()).(*types.Map)
			dc, vc := mapDomComp(mt), mapValComp(mt)
			v.rawStore(st, dc, zeroSort(dc.sort), r)
			v.rawStore(st, vc, zeroSort(vc.sort), r)
			fr.env[in] = r
		case *ssa.MakeChan:
			fr.env[in] = v.alloc(st, "chan")
		case *ssa.MakeSlice:
			fr.env[in] = v.makeSlice(st, v.tval(st, fr, in.Len), v.tval(st, fr, in.Cap), sliceElem(in.Type()))
		case *ssa.MakeInterface:
			x := v.eval(st, fr, in.X)
			if sv, ok := x.(*structVal); ok {
				fr.env[in] = call("otherAny", tagOf(sv.t), freshConst("boxed", "Int"))
			} else {
				fr.env[in] = toAny(v.term(x), in.X.Type())
			}
		case *ssa.MakeClosure:
			cl := &closure{fn: in.Fn.(*ssa.Function)}
			for _, x := range in.Bindings {
				cl.bind = append(cl.bind, v.eval(st, fr, x))
			}
			fr.env[in] = cl
		case *ssa.ChangeType:
			if ownedSlice(in.Type()) || ownedSlice(in.X.Type()) && !readsOnly(in) {
				panic(unsupported("conversion from " + in.X.Type().String() + " to " + in.Type().String()))
			}
			fr.env[in] = v.eval(st, fr, in.X)
		case *ssa.ChangeInterface:
			fr.env[in] = v.eval(st, fr, in.X)
		case *ssa.Convert:
			fr.env[in] = v.convert(st, fr, in)
		case *ssa.Slice:
			fr.env[in] = v.slice(st, fr, in)
		case *ssa.TypeAssert:
			fr.env[in] = v.typeAssert(st, fr, in)
		case *ssa.Extract:
			t, ok := v.eval(st, fr, in.Tuple).(tuple)
			if !ok {
				panic(unsupported("extract of a non tuple"))
			}
			fr.env[in] = t[in.Index]
		case *ssa.Send:
			v.note("%s sends on a channel: the receiver's side is not part of the proof", fr.fn)
			v.event(st, "chan.send", []sval{{t: v.tval(st, fr, in.Chan), typ: &stype{t: in.Chan.Type()}},
				{t: v.tval(st, fr, in.X), typ: &stype{t: in.X.Type()}}})
		case *ssa.Range:
			fr.env[in] = v.eval(st, fr, in.X)
		case *ssa.Next:
			v.note("%s ranges over a map or a string: the order and the elements are arbitrary", fr.fn)
			tp := in.Type().(*types.Tuple)
			var t tuple
			t = append(t, freshConst("more", "Bool"))
			for j := 1; j < tp.Len(); j++ {
				if b, ok := tp.At(j).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					t = append(t, mkInt(0))
					continue
				}
				t = append(t, v.freshVal(st, "elem", tp.At(j).Type()))
			}
			fr.env[in] = t
		default:
			panic(unsupported(fmt.Sprintf("instruction %T in %s", in, fr.fn)))
		}
	}
}

func (v *verifier) branch(st *state, fr *frame, c *Term, f func(st *state, fr *frame, yes bool)) {
	if c == tTrue || st.has(c) {
		f(st, fr, true)
		return
	}
	if c == tFalse || st.has(mkNot(c)) {
		f(st, fr, false)
		return
	}
	s2, f2 := st.clone(), fr.clone()
	st.add(c)
	if !st.infeasible() {
		f(st, fr, true)
	}
	s2.add(mkNot(c))
	if !s2.infeasible() {
		f(s2, f2, false)
	}
}

func (v *verifier) runDefers(st *state, fr *frame, ds []deferred, k cont) {
	if len(ds) == 0 {
		k(st, nil)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	_, done := v.callWith(st, fr, d.call, d.fn, d.args, d.call.Signature().Results(), func(s2 *state, _ Val) {
		v.runDefers(s2, fr, rest, k)
	})
	if done {
		v.runDefers(st, fr, rest, k)
	}
}

func (v *verifier) fieldAddr(st *state, fr *frame, in *ssa.FieldAddr) Val {
	x := v.eval(st, fr, in.X)
	t := in.X.Type().Underlying().(*types.Pointer).Elem()
	f := fieldsOf(t).Field(in.Field)
	switch a := x.(type) {
	case *Term:
		v.nonNil(st, a, "of ."+f.Name())
		if isStruct(f.Type()) || isArray(f.Type()) {
			return subRef(a, in.Field)
		}
		return &addr{c: fieldComp(t, f.Name(), f.Type()), keys: []*Term{a}, t: f.Type()}
	case *addr:
		if a.st == nil {
			panic(unsupported("field of a cell address"))
		}
		p := f.Name()
		if a.path != "" {
			p = a.path + "." + p
		}
		if isStruct(f.Type()) {
			return &addr{st: a.st, keys: a.keys, path: p, t: f.Type()}
		}
		if isArray(f.Type()) {
			panic(unsupported("array inside a slice element"))
		}
		return &addr{c: elemFieldComp(a.st, p, f.Type()), keys: a.keys, t: f.Type()}
	}
	panic(unsupported("field address"))
}

func (v *verifier) indexAddr(st *state, fr *frame, in *ssa.IndexAddr) Val {
	x := v.tval(st, fr, in.X)
	ix := v.tval(st, fr, in.Index)
	var et types.Type
	var arr, pos *Term
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		et = sliceElem(in.X.Type())
		v.oblige(st, "safety", "index in range", mkAnd(mkLe(mkInt(0), ix), mkLt(ix, call("slen_", x))))
		arr, pos = call("sarr", x), mkAdd(call("soff", x), ix)
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		et = at.Elem()
		v.nonNil(st, x, "of an array")
		v.oblige(st, "safety", "index in range", mkAnd(mkLe(mkInt(0), ix), mkLt(ix, mkInt(at.Len()))))
		arr, pos = x, ix
	}
	if isStruct(et) {
		return &addr{st: et, keys: []*Term{arr, pos}, t: et}
	}
	return &addr{c: elemComp(et), keys: []*Term{arr, pos}, t: et}
}

func (v *verifier) makeSlice(st *state, ln, cp *Term, et types.Type) Val {
	v.oblige(st, "safety", "make with a valid length", mkAnd(mkLe(mkInt(0), ln), mkLe(ln, cp)))
	st.add(mkLe(cp, maxLen))
	r := v.alloc(st, "slice")
	v.zeroArray(st, r, et)
	return mkSlice(r, mkInt(0), ln, cp)
}

func (v *verifier) lookup(st *state, fr *frame, in *ssa.Lookup) Val {
	x := v.tval(st, fr, in.X)
	key := v.tval(st, fr, in.Index)
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok { // string index
		v.oblige(st, "safety", "string index in range", mkAnd(mkLe(mkInt(0), key), mkLt(key, strLen(x))))
		r := strAt(x, key)
		st.add(v.wf(r, types.Typ[types.Uint8], st.top))
		return r
	}
	has := mkSelect(v.read(st, mapDomComp(mt), x), key)
	has = mkAnd(mkNot(mkEq(x, mkInt(0))), has)
	if isStruct(mt.Elem()) {
		panic(unsupported("map of structs"))
	}
	raw := mkSelect(v.read(st, mapValComp(mt), x), key)
	st.add(mkImp(has, v.wf(raw, mt.Elem(), st.top)))
	val := mkIte(has, raw, zeroOf(mt.Elem()))
	if in.CommaOk {
		return tuple{val, has}
	}
	return val
}

func (v *verifier) slice(st *state, fr *frame, in *ssa.Slice) Val {
	x := v.tval(st, fr, in.X)
	var lo, hi *Term = mkInt(0), nil
	if in.Low != nil {
		lo = v.tval(st, fr, in.Low)
	}
	if in.High != nil {
		hi = v.tval(st, fr, in.High)
	}
	if in.Max != nil {
		panic(unsupported("three index slice"))
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Basic:
		if hi == nil {
			hi = strLen(x)
		}
		v.oblige(st, "safety", "slice bounds in range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, strLen(x))))
		return strSub(x, lo, mkSub(hi, lo))
	case *types.Pointer:
		n := mkInt(under(u.Elem()).(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		v.nonNil(st, x, "of an array")
		v.oblige(st, "safety", "slice bounds in range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)))
		if e := sliceElem(in.Type()); e != under(in.Type()).(*types.Slice).Elem() {
			// make with a constant capacity, of a type whose elements are apart from others
			if al, ok := in.X.(*ssa.Alloc); !ok || al.Comment != "makeslice" || len(*al.Referrers()) != 1 {
				panic(unsupported("slice of an array as " + in.Type().String()))
			}
			v.zeroArray(st, x, e)
		}
		return mkSlice(x, lo, mkSub(hi, lo), mkSub(n, lo))
	case *types.Slice:
		if hi == nil {
			hi = call("slen_", x)
		}
		// stricter than Go, which allows up to the capacity
		v.oblige(st, "safety", "slice bounds in range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, call("slen_", x))))
		return mkSlice(call("sarr", x), mkAdd(call("soff", x), lo), mkSub(hi, lo), mkSub(call("scap", x), lo))
	}
	panic(unsupported("slice of " + in.X.Type().String()))
}

func (v *verifier) typeAssert(st *state, fr *frame, in *ssa.TypeAssert) Val {
	x := v.tval(st, fr, in.X)
	t := in.AssertedType
	if _, ok := under(t).(*types.Interface); ok {
		okT := freshConst("implements", "Bool")
		st.add(mkImp(mkEq(x, nilAny), mkNot(okT)))
		if !in.CommaOk {
			v.oblige(st, "safety", "type assertion holds", okT)
			return x
		}
		return tuple{mkIte(okT, x, nilAny), okT}
	}
	is := anyIs(x, t)
	if isStruct(t) {
		if !in.CommaOk {
			v.oblige(st, "safety", "type assertion holds", is)
		}
		fv := v.freshVal(st, "unboxed", t)
		if in.CommaOk {
			return tuple{fv, is}
		}
		return fv
	}
	if !in.CommaOk {
		v.oblige(st, "safety", "type assertion holds", is)
		g := anyGet(x, t)
		st.add(v.wf(g, t, st.top))
		return g
	}
	g := anyGet(x, t)
	st.add(mkImp(is, v.wf(g, t, st.top)))
	return tuple{mkIte(is, g, zeroOf(t)), is}
}

// goKey names the function a goroutine runs.
func (v *verifier) goKey(call *ssa.CallCommon) string {
	if mc, ok := call.Value.(*ssa.MakeClosure); ok {
		return fnKey(mc.Fn.(*ssa.Function))
	}
	if f := call.StaticCallee(); f != nil {
		return fnKey(f)
	}
	return "?"
}

// goArgs are the arguments of the event of a goroutine: those of the call, then the captured variables.
func (v *verifier) goArgs(st *state, fr *frame, call *ssa.CallCommon) []sval {
	var out []sval
	for _, a := range call.Args {
		out = append(out, v.mkSval(v.eval(st, fr, a), a.Type()))
	}
	if mc, ok := call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			pt, ok := b.Type().(*types.Pointer)
			if !ok || isStruct(pt.Elem()) || isArray(pt.Elem()) {
				out = append(out, v.mkSval(v.eval(st, fr, b), b.Type()))
				continue
			}
			out = append(out, sval{t: v.read(st, boxComp(pt.Elem()), v.eval(st, fr, b).(*Term)), typ: &stype{t: pt.Elem()}})
		}
	}
	return out
}
