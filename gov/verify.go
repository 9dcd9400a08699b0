package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type failedOb struct {
	Function string `json:"function"`
	Name     string `json:"name"`
	Verdict  string `json:"verdict"`
	Detail   string `json:"detail,omitempty"`
	Script   string `json:"-"`
}

type verifyReport struct {
	Obligations, Discharged int
	Failed                  []failedOb
	CheckerCmd              string
	Trusted                 []string
	Functions               []string
	ByBackend               map[string]int
	SolverTime              float64
	Reach                   int
	Bounded                 []string
	Slowest                 []string
	Level                   string
	Assumptions             []string
	Elsewhere               []string // contracts used here and verified by the check of another property
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

type world struct {
	sp        *specs
	prog      *ssa.Program
	pkgs      map[string]*types.Package
	mod       map[*types.Package]bool
	fns       map[string]*ssa.Function
	ghostBy   map[string][]*comp
	ghostMapC map[string]*comp
	ghostVars map[string]*comp
	globIDs   map[string]int
	axt       []axTerm
	axDone    bool
	sealedBy  map[string][]string // group -> components
	readonly  map[string][]string
	broken    map[string]string // group: what in its declarations does not fit the code
	sealedIn  map[string]string // component -> group
	zeroed    map[string][]string
}

type axTerm struct {
	name string
	t    *Term
	fns  map[string]bool
	str  bool
}

func loadWorld(repo, contracts string) (*world, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w := &world{prog: prog, pkgs: map[string]*types.Package{}, mod: map[*types.Package]bool{}, fns: map[string]*ssa.Function{},
		ghostBy: map[string][]*comp{}, ghostMapC: map[string]*comp{}, ghostVars: map[string]*comp{}, globIDs: map[string]int{}}
	for _, p := range prog.AllPackages() {
		tp := p.Pkg
		in := tp.Path() == modPath || strings.HasPrefix(tp.Path(), modPath+"/")
		if in {
			w.mod[tp] = true
			p.Build()
			w.pkgs[tp.Name()] = tp
		}
	}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool {
		a, b := all[i].Pkg.Path(), all[j].Pkg.Path()
		return len(a) < len(b) || len(a) == len(b) && a < b
	})
	for _, p := range all {
		if _, ok := w.pkgs[p.Pkg.Name()]; !ok {
			w.pkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil || !w.inModule(f) || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		w.fns[fnKey(f)] = f
	}
	w.sp, err = loadSpecs(contracts)
	if err != nil {
		return nil, err
	}
	if err := w.declare(); err != nil {
		return nil, err
	}
	return w, nil
}

func (w *world) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return w.mod[f.Pkg.Pkg]
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return w.mod[f.Object().Pkg()]
	}
	return false
}

func (w *world) declare() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	for _, d := range w.sp.parts {
		partPkgs[d.comp] = true
		partGroups[d.group] = true
	}
	for _, n := range w.sp.ownElems {
		ownElems[n] = nil
	}
	for _, c := range w.sp.contracts {
		for _, ev := range c.calls {
			if w.sp.contracts[ev.fn] == nil && !strings.HasPrefix(ev.fn, "append.") && !strings.HasPrefix(ev.fn, "go.") && !strings.HasPrefix(ev.fn, "chan.") {
				return fmt.Errorf("%s: event on a call of %s, which has no contract", c.key, ev.fn)
			}
		}
	}
	var ks []string
	for k := range w.sp.ghosts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	w.broken = map[string]string{}
	for _, k := range ks {
		w.try("*", func() { w.declGhost(k) })
	}
	for n, g := range w.sp.ghostMaps {
		w.try("*", func() {
			t := w.typ(g.pkg, g.typ)
			c := getComp("ghost:"+n, 1, t.sort(), nil)
			c.gho, c.g = true, t
			w.ghostMapC[n] = c
		})
	}
	for n, g := range w.sp.ghostVars {
		w.try("*", func() {
			t := w.typ(g.pkg, g.typ)
			c := getComp("ghostvar:"+n, 0, t.sort(), nil)
			c.gho, c.g = true, t
			w.ghostVars[n] = c
		})
	}
	for n, f := range w.sp.funs {
		w.try("*", func() {
			var as []string
			for _, p := range f.params {
				as = append(as, w.typ(f.pkg, p).sort())
			}
			declFun("f:"+n, w.typ(f.pkg, f.ret).sort(), as...)
		})
	}
	w.sealedBy, w.sealedIn = map[string][]string{}, map[string]string{}
	for _, d := range w.sp.sealed {
		w.try(d.group, func() {
			c := w.resolveIn(d)
			w.sealedBy[d.group] = append(w.sealedBy[d.group], c.name)
			w.sealedIn[c.name] = d.group
		})
	}
	w.readonly = map[string][]string{}
	for _, d := range w.sp.readonly {
		w.try(d.group, func() { w.readonly[d.group] = append(w.readonly[d.group], w.resolveIn(d).name) })
	}
	w.zeroed = map[string][]string{}
	for _, d := range w.sp.zeroed {
		w.try(d.group, func() {
			c := w.resolveIn(d)
			if w.sealedIn[c.name] != d.group || c.keys != 1 || c.sort != "Int" {
				panic(specErr(fmt.Sprintf("zeroed %s: not a sealed reference component", d.comp)))
			}
			w.zeroed[d.group] = append(w.zeroed[d.group], c.name)
		})
	}
	return nil
}

// try runs a declaration of a group; one that does not fit the code breaks the contracts of the group
// ("*": only those that use it, which do not find it).
func (w *world) try(group string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				w.broken[group] = string(e)
				return
			}
			panic(r)
		}
	}()
	f()
}

func (w *world) declGhost(k string) {
	g := w.sp.ghosts[k]
	{
		owner := w.goType(g.pkg, &typeExpr{op: "name", name: g.owner})
		t := w.typ(g.pkg, g.typ)
		gs := []string{""}
		if nt, ok := owner.(*types.Named); ok && partPkgs[nt.Obj().Pkg().Path()] {
			for x := range partGroups {
				gs = append(gs, x)
			}
			sort.Strings(gs)
		}
		for _, x := range gs {
			back := setPart(x)
			sn := structName(owner)
			c := getComp(sn+"."+g.field, 1, t.sort(), nil)
			c.gho, c.g, c.owner = true, t, owner
			w.ghostBy[sn] = append(w.ghostBy[sn], c)
			back()
		}
	}
}

func (w *world) resolveIn(d sealDef) *comp {
	defer setPart(d.group)()
	return w.resolveComp(d.comp, d.pkg)
}

func (w *world) ghostsOf(sn string) []*comp { return w.ghostBy[sn] }

func (w *world) ghostMapComps() []*comp {
	var ns []string
	for n := range w.ghostMapC {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var out []*comp
	for _, n := range ns {
		out = append(out, w.ghostMapC[n])
	}
	return out
}

func (w *world) ghostField(t types.Type, name string) *comp {
	sn := structName(t)
	for _, c := range w.ghostBy[sn] {
		if c.name == sn+"."+name {
			return c
		}
	}
	return nil
}

// qualComp turns the name of a component in a contract file into the full one.
func (w *world) qualComp(name, pkg string) string {
	if _, ok := w.ghostMapC[name]; ok {
		return "ghost:" + name
	}
	if _, ok := w.ghostVars[name]; ok {
		return "ghostvar:" + name
	}
	pre := ""
	rest := name
	if i := strings.Index(name, ":"); i >= 0 {
		pre, rest = name[:i+1], name[i+1:]
	}
	star := ""
	for {
		if strings.HasPrefix(rest, "*") {
			star += "*"
			rest = rest[1:]
		} else if strings.HasPrefix(rest, "[]") {
			star += "[]"
			rest = rest[2:]
		} else {
			break
		}
	}
	if strings.HasPrefix(pre, "map") {
		return name
	}
	parts := strings.Split(rest, ".")
	if types.Universe.Lookup(parts[0]) == nil {
		if _, ok := w.pkgs[parts[0]]; !ok || w.pkgs[pkg].Scope().Lookup(parts[0]) != nil && len(parts) <= 2 {
			rest = pkg + "." + rest
		}
	}
	return pre + star + rest
}

// resolveComp finds a component by its name, creating it from the types when needed.
func (w *world) resolveComp(name, pkg string) *comp {
	q := w.qualComp(name, pkg)
	if c, ok := comps[q]; ok {
		if c.owner == nil || strings.Contains(q, ":") {
			return c
		}
		// the group's own copy
		return getComp(structName(c.owner)+q[strings.LastIndex(q, "."):], c.keys, c.sort, c.typ)
	}
	pre, rest := "", q
	if i := strings.Index(q, ":"); i >= 0 {
		pre, rest = q[:i+1], q[i+1:]
	}
	te := func(s string) *typeExpr {
		var rec func(s string) *typeExpr
		rec = func(s string) *typeExpr {
			if strings.HasPrefix(s, "*") {
				return &typeExpr{op: "*", a: rec(s[1:])}
			}
			if strings.HasPrefix(s, "[]") {
				return &typeExpr{op: "[]", a: rec(s[2:])}
			}
			return &typeExpr{op: "name", name: s}
		}
		return rec(s)
	}
	parts := strings.Split(rest, ".")
	switch {
	case pre == "" && len(parts) == 3:
		t := w.goType(pkg, te(parts[0]+"."+parts[1]))
		s := fieldsOf(t)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == parts[2] {
				return fieldComp(t, parts[2], s.Field(i).Type())
			}
		}
	case pre == "elem:" && strings.HasSuffix(rest, ".elem") && len(parts) == 3:
		return elemComp(sliceElem(w.goType(pkg, te(parts[0]+"."+parts[1]))))
	case pre == "elem:" && len(parts) == 3 && !strings.HasPrefix(rest, "*"):
		t := w.goType(pkg, te(parts[0]+"."+parts[1]))
		s := fieldsOf(t)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == parts[2] {
				return elemFieldComp(t, parts[2], s.Field(i).Type())
			}
		}
	case pre == "elem:":
		return elemComp(w.goType(pkg, te(rest)))
	case (pre == "mapdom:" || pre == "mapval:") && strings.Contains(rest, ":"):
		i := strings.Index(rest, ":")
		m := types.NewMap(w.goType(pkg, te(rest[:i])), w.goType(pkg, te(rest[i+1:])))
		if pre == "mapdom:" {
			return mapDomComp(m)
		}
		return mapValComp(m)
	case pre == "box:":
		return boxComp(w.goType(pkg, te(rest)))
	case pre == "glob:" && len(parts) == 2:
		if o, ok := w.pkgs[parts[0]].Scope().Lookup(parts[1]).(*types.Var); ok {
			return globComp(rest, o.Type())
		}
	}
	panic(specErr("unknown component " + name))
}

func (w *world) axiomTerms(v *verifier) []axTerm {
	if w.axDone {
		return w.axt
	}
	w.axDone = true
	for _, a := range w.sp.axioms {
		if a.manual {
			continue
		}
		st := &state{heap: map[string]*Term{}, base: &base{0, mkInt(0)}, top: mkInt(0), fresh: map[int]bool{}}
		cx := &sctx{v: v, st: st, pkg: a.pkg, names: map[string]sval{}}
		var t *Term
		if w.try("axiom "+a.name, func() { t = v.evalBool(cx, a.e) }); t == nil {
			continue // it speaks of something that is not there any more
		}
		c := newCollector()
		c.walk(t)
		fs := map[string]bool{}
		for f := range c.fns {
			if strings.HasPrefix(f, "f:") {
				fs[f] = true
			}
		}
		w.axt = append(w.axt, axTerm{a.name, t, fs, c.fns["scat"]})
	}
	return w.axt
}

func newVerifier(w *world, c *contract, fn *ssa.Function) *verifier {
	setPart(c.group)
	return &verifier{w: w, root: c, rootFn: fn, params: map[string]sval{}, assume: map[string]bool{}, fnTerm: map[*Term]*closure{},
		fnConst: map[string]*Term{}, inlined: map[string]bool{}, called: map[string]bool{}, loops: map[*ssa.Function]*loopInfo{},
		usedFn: map[string]bool{}, usedGlob: map[*axiomDef]bool{}, noAxiom: map[string]bool{}}
}

// verifyFunc generates the obligations of one function.
func (w *world) verifyFunc(key string) (v *verifier, err error) {
	c := w.sp.contracts[key]
	if c == nil {
		return nil, fmt.Errorf("no contract for %s", key)
	}
	if strings.HasPrefix(key, "lemma.") {
		return nil, fmt.Errorf("lemma %s", key)
	}
	fn := w.fns[key]
	if c.init && fn == nil {
		fn = w.fns[strings.TrimSuffix(key, ".init")+".init"]
	}
	if fn == nil {
		return nil, fmt.Errorf("the function %s does not exist any more", key)
	}
	if b := w.broken[c.group]; b != "" && c.group != "" {
		return nil, fmt.Errorf("%s: the contracts of its group do not fit the code: %s", key, b)
	}
	v = newVerifier(w, c, fn)
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				err = fmt.Errorf("%s: outside the verifier's reach: %s", key, string(e))
			case specErr:
				err = fmt.Errorf("%s: the contract does not fit the code: %s", key, string(e))
			default:
				if os.Getenv("GOV_PANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("%s: internal error: %v", key, r)
			}
		}
	}()
	st := &state{heap: map[string]*Term{}, top: freshConst("top", "Int"), fresh: map[int]bool{}}
	st.base = &base{0, st.top}
	st.add(mkLe(mkInt(0), st.top))
	var args, bind []Val
	for i, p := range fn.Params {
		x := v.freshVal(st, p.Name(), p.Type())
		args = append(args, x)
		v.params[p.Name()] = v.mkSval(x, p.Type())
		if i < len(c.params) {
			v.params[c.params[i]] = v.mkSval(x, p.Type())
		}
	}
	if len(c.params) != len(fn.Params) && !(fn.Parent() != nil) {
		return v, fmt.Errorf("%s: the contract does not fit the code: %d parameters, the contract has %d", key, len(fn.Params), len(c.params))
	}
	for _, p := range fn.FreeVars {
		x := v.freshVal(st, p.Name(), p.Type())
		st.add(mkNot(mkEq(v.term(x), mkInt(0))))
		bind = append(bind, x)
		pt := p.Type().(*types.Pointer).Elem()
		if isStruct(pt) || isArray(pt) {
			v.params[p.Name()] = v.mkSval(x, p.Type())
		} else {
			v.params[p.Name()] = sval{t: v.read(st, boxComp(pt), x.(*Term)), typ: &stype{t: pt}}
		}
	}
	if c.recvPtr {
		st.add(mkNot(mkEq(args[0].(*Term), mkInt(0))))
	}
	v.entry = st
	cx := v.rootCtx(st)
	for _, g := range w.sp.globinvs {
		if c.init {
			break
		}
		if len(g.only) > 0 && !contains(g.only, key) {
			continue
		}
		v.usedGlob[g] = true
		gx := &sctx{v: v, st: st, pkg: g.pkg, names: map[string]sval{}}
		w.try("globinv "+g.name, func() { v.addGlobal(v.evalBool(gx, g.e)) })
		v.note("package state %s, established when the package is initialised and never stored to elsewhere", g.name)
	}
	var impl *contract
	implCtx := func(x *sctx) *sctx { return nil }
	if c.impl != "" {
		if impl = w.sp.contracts[c.impl]; impl == nil {
			panic(specErr("no contract for " + c.impl))
		}
		implCtx = func(x *sctx) *sctx {
			y := &sctx{v: v, st: x.st, old: x.old, pkg: impl.pkg, names: map[string]sval{}}
			ps := impl.params
			if len(ps) == len(args)+1 {
				y.names[ps[0]] = sval{t: v.term(&closure{fn: fn}), typ: &stype{t: fn.Signature}}
				ps = ps[1:]
			}
			if len(ps) != len(args) {
				panic(specErr(key + " does not have the parameters of " + c.impl))
			}
			for i, n := range ps {
				y.names[n] = v.mkSval(args[i], fn.Params[i].Type())
			}
			return y
		}
		y := implCtx(cx)
		for _, r := range impl.requires {
			st.add(v.evalBool(y, r.e))
		}
		st.frames = []*modFrame{{any: true}}
		v.checkClauses(cx, c.requires, "pre", "called through "+c.impl+", requires", "")
	}
	for _, r := range c.requires {
		st.add(v.evalBool(cx, r.e))
	}
	for _, iv := range c.invs {
		if !mentions(iv.e, c.results) {
			st.add(v.evalBool(cx, iv.e))
		}
	}
	var othersPre []*Term
	for _, o := range c.others {
		sk := othersSk{c: o}
		for _, b := range o.e.vars {
			t := w.typ(c.pkg, b.typ)
			x := freshConst("other", t.sort())
			if isPtrLike(t.t) {
				st.add(mkLe(call("birth", x), st.top))
			}
			sk.vs = append(sk.vs, sval{t: x, typ: t})
		}
		v.others = append(v.others, sk)
		othersPre = append(othersPre, v.othersAt(st, sk))
	}
	v.entry = st.clone()
	v.base0 = st.facts
	root := &modFrame{top: st.top, heap: v.entry, mods: v.evalMods(v.rootCtx(v.entry), c.mods), name: "", any: c.init}
	st.frames = []*modFrame{root}
	if impl != nil && (impl.group == c.group || len(w.sealedBy[impl.group]) == 0) {
		y := implCtx(v.rootCtx(v.entry))
		st.frames = append(st.frames, &modFrame{top: st.top, heap: v.entry, mods: v.evalMods(y, impl.mods), name: c.impl + " "})
	}
	if c.init {
		st.add(mkNot(v.read(st, globComp(strings.TrimSuffix(fnKey(fn), ".init")+".init$guard", types.Typ[types.Bool]))))
	}
	v.execGhost(v.rootCtx(st), c.entry)
	fr := v.newFrame(fn, args, bind, c, 0)
	fr.root = true
	v.enterBlock(st, fr, nil, fn.Blocks[0], func(s *state, res Val) {
		x := v.rootCtx(s)
		rt := fn.Signature.Results()
		for i, n := range c.results {
			if i >= rt.Len() {
				panic(specErr("the contract of " + key + " names too many results"))
			}
			var y Val = res
			if rt.Len() > 1 {
				y = res.(tuple)[i]
			}
			x.names[n] = v.mkSval(y, rt.At(i).Type())
		}
		gx := x.sub()
		gx.frNames = v.exitNames
		v.execGhost(gx, c.exit)
		x.st = gx.st
		v.exits = append(v.exits, s.facts)
		gx.st.lean = gx.st.facts
		if c.noalloc {
			v.oblige(gx.st, "post", "allocates nothing", mkEq(gx.st.top, root.top))
		}
		v.checkClauses(x, c.ensures, "post", "ensures", "")
		if impl != nil && (impl.group == c.group || len(w.sealedBy[impl.group]) == 0) {
			y := implCtx(x)
			y.old = v.entry
			for i, n := range impl.results {
				if i < len(c.results) {
					y.names[n] = x.names[c.results[i]]
				}
			}
			v.checkClauses(y, impl.ensures, "post", c.impl+" ensures", "")
		}
		v.checkClauses(x, c.invs, "inv", "keeps the invariant", "")
		v.checkClauses(x, c.gens, "post", "ensures (group)", "")
		if vacuity {
			v.oblige(gx.st, "vacuity", "this exit is unreachable", tFalse)
		}
		v.endPath()
	})
	if len(c.others) > 0 {
		// what the contract itself promises must be enough for every other object
		s := v.entry.clone()
		pre := s.clone()
		x := v.rootCtx(s)
		x.old = pre
		mods := v.evalMods(x, c.mods)
		var rt types.Type
		switch rs := fn.Signature.Results(); rs.Len() {
		case 0:
		case 1:
			rt = rs.At(0).Type()
		default:
			rt = rs
		}
		v.applyEffects(s, pre, c, x, mods, rt, true)
		for i, o := range v.others {
			l := o.c.label
			if l == "" {
				l = fmt.Sprintf("#%d", i+1)
			}
			v.oblige(s, "others", "leaves other objects intact "+l, mkImp(othersPre[i], v.othersAt(s, o)))
		}
	}
	return v, nil
}

// verifyLemmas proves the lemmas stated in the contract files.
func (w *world) lemmaObs() (v *verifier, err error) {
	v = newVerifier(w, &contract{key: "lemmas", loops: map[int]*loopSpec{}}, nil)
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	for _, a := range w.sp.axioms {
		if !a.lemma {
			continue
		}
		_ = a
	}
	return v, nil
}

// vacuity: during development, ask for a proof of false at every exit.
var vacuity bool

type genResult struct {
	key string
	v   *verifier
	err error
}

// closure of the functions a property rests on: callees with proved contracts, transitively
func (w *world) closureOf(keys []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, k := range keys {
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

func verifyProperty(repo, verif, id, tier string) *verifyReport {
	r := &verifyReport{ByBackend: map[string]int{}}
	r.CheckerCmd = "bin/gov check " + id + " " + tier + " (go/ssa of /repo, contracts/*.gvc, z3-new then z3 and cvc5)"
	w, err := loadWorld(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		r.Failed = append(r.Failed, failedOb{Name: "loading the code and the contracts", Verdict: "failed", Detail: err.Error()})
		r.Obligations = 1
		return r
	}
	keys := w.sp.props[id]
	if len(keys) == 0 {
		return nil
	}
	limit, total := 12*time.Second, 420*time.Second
	if tier == "thorough" {
		limit, total = 40*time.Second, 1200*time.Second
	}
	w.run(r, keys, limit, total)
	r.Bounded = w.sp.bounded[id]
	return r
}

// run verifies the functions, following the contracts they use.
func (w *world) run(r *verifyReport, keys []string, limit, total time.Duration) {
	seen := map[string]bool{}
	trusted := map[string]bool{}
	assume := map[string]bool{}
	inl := map[string]bool{}
	queue := append([]string(nil), keys...)
	type slow struct {
		n  string
		ms float64
	}
	var slows []slow
	type item struct {
		k   string
		v   *verifier
		err error
	}
	var items []*item
	elsewhere := map[string]string{}
	for p, ks := range w.sp.props {
		for _, k := range ks {
			if elsewhere[k] == "" || p < elsewhere[k] {
				elsewhere[k] = p
			}
		}
	}
	other := map[string]bool{}
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if seen[k] {
			continue
		}
		seen[k] = true
		c := w.sp.contracts[k]
		if c == nil {
			r.Obligations++
			r.Failed = append(r.Failed, failedOb{Function: k, Name: "contract", Verdict: "failed", Detail: "no contract for " + k})
			continue
		}
		if c.trusted || c.funtype || c.inline {
			continue
		}
		it := &item{k: k}
		it.v, it.err = w.verifyFunc(k)
		items = append(items, it)
		if it.v != nil {
			var us []string
			for a := range it.v.usedFn {
				us = append(us, a)
			}
			sort.Strings(us)
			for _, a := range us {
				if uc := w.sp.contracts[a]; uc != nil {
					if uc.trusted || uc.funtype {
						trusted[a] = true
					}
					// a function that the check of another property verifies is used by its contract here
					if p := elsewhere[a]; p != "" && !contains(keys, a) {
						other[a+" ("+p+")"] = true
						continue
					}
					queue = append(queue, a)
				}
			}
		}
	}
	// the whole-program conditions, and the package invariants established by the initialisers
	groups, globs := map[string]bool{}, map[*axiomDef]bool{}
	for _, it := range items {
		groups[w.sp.contracts[it.k].group] = true
		if it.v != nil {
			for a := range it.v.usedFn {
				if c := w.sp.contracts[a]; c != nil {
					groups[c.group] = true
				}
			}
			for g := range it.v.usedGlob {
				globs[g] = true
			}
		}
	}
	whole := func(name string, bad []string) {
		r.Obligations++
		if len(bad) == 0 {
			r.Discharged++
			r.ByBackend["whole program"]++
			return
		}
		r.Failed = append(r.Failed, failedOb{Name: name, Verdict: "failed", Detail: strings.Join(bad, "; ")})
	}
	for _, g := range sortedKeys(groups) {
		if len(w.guarded(g)) > 0 {
			whole("only the functions of the group "+g+" store to its sealed state", w.sealCheck(g))
		}
	}
	for _, g := range w.sp.globinvs {
		if !globs[g] {
			continue
		}
		whole("package invariant "+g.name+" speaks about variables stored to by initialisers only", w.globCheck(g))
		if len(g.only) > 0 {
			for _, m := range w.sp.immutable {
				whole("package invariant "+g.name+" rests on the fields of "+m+" being set once", w.immutCheck(m))
			}
		}
		it := &item{k: g.pkg + ".init"}
		w.sp.contracts[it.k] = &contract{key: it.k, pkg: g.pkg, init: true, loops: map[int]*loopSpec{}}
		w.sp.contracts[it.k].ensures = []clause{{label: "package invariant " + g.name, e: g.e}}
		it.v, it.err = w.verifyFunc(it.k)
		delete(w.sp.contracts, it.k)
		items = append(items, it)
	}
	pl := &pool{limit: limit, deadline: time.Now().Add(total), maxFail: 48}
	for _, it := range items {
		if it.v != nil {
			pl.run(it.v, it.v.obs)
		}
	}
	pl.wait()
	// a solver that was slow because the machine is busy gets a second, longer try
	var again []*obligation
	for _, it := range items {
		if it.v == nil {
			continue
		}
		for _, o := range it.v.obs {
			if o.verdict != "proved" {
				again = append(again, o)
			}
		}
	}
	if len(again) > 0 && len(again) <= 10 {
		pl = &pool{limit: 4 * limit, deadline: time.Now().Add(min(total, 150*time.Second)), maxFail: 100}
		for _, it := range items {
			if it.v == nil {
				continue
			}
			for _, o := range it.v.obs {
				if o.verdict != "proved" {
					o.verdict = ""
					pl.run(it.v, []*obligation{o})
				}
			}
		}
		pl.wait()
	}
	for _, it := range items {
		k, v, err := it.k, it.v, it.err
		if v != nil {
			for _, o := range v.obs {
				r.Obligations++
				r.SolverTime += o.ms / 1000
				if o.verdict == "proved" {
					r.Discharged++
					r.ByBackend[o.backend]++
				} else {
					r.Failed = append(r.Failed, failedOb{k, o.name, o.verdict, o.detail, o.script})
				}
				slows = append(slows, slow{k + ": " + o.name, o.ms})
			}
			for a := range v.assume {
				assume[a] = true
			}
			for a := range v.inlined {
				inl[a] = true
			}
			// some exit must be reachable: the assumptions are not contradictory
			if err == nil && len(v.exits) > 0 {
				n := 0
				for _, e := range v.exits {
					o := &obligation{facts: e, goal: tFalse}
					if runSolver(bg, 0, v.script(o, o.facts, false), 700*time.Millisecond) != "unsat" {
						n++
						break
					}
				}
				r.Obligations++
				if n == 0 {
					r.Failed = append(r.Failed, failedOb{Function: k, Name: "some exit is reachable", Verdict: "failed", Detail: "the assumptions of the proof contradict each other"})
				} else {
					r.Discharged++
					r.Reach++
					r.ByBackend["reachability"]++
				}
			}
		}
		if err != nil {
			r.Obligations++
			r.Failed = append(r.Failed, failedOb{Function: k, Name: "the function is within reach of its contract", Verdict: "failed", Detail: err.Error()})
		}
		r.Functions = append(r.Functions, k)
	}
	r.Elsewhere = sortedKeys(other)
	sort.Slice(slows, func(i, j int) bool { return slows[i].ms > slows[j].ms })
	for i := 0; i < len(slows) && i < 5; i++ {
		r.Slowest = append(r.Slowest, fmt.Sprintf("%s (%.1f s)", slows[i].n, slows[i].ms/1000))
	}
	r.Trusted = sortedKeys(trusted)
	r.Assumptions = sortedKeys(assume)
	if len(inl) > 0 {
		r.Assumptions = append(r.Assumptions, "verified inline at their call sites: "+strings.Join(sortedKeys(inl), ", "))
	}
}
