package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole-program conditions the modular proofs rest on, read off the SSA form of every function of
// the module: only the functions of a group store to the group's sealed state or allocate its
// structs, and package variables a globinv speaks about are stored to by initialisers only.

func (w *world) groupMember(g string) map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range w.allFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var callee *ssa.Function
				if c, ok := i.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
				}
				if callee != nil {
					callers[callee] = append(callers[callee], f)
				}
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok {
						if c, isCall := i.(ssa.CallInstruction); !isCall || c.Common().Value != fn {
							escapes[fn] = true
						}
					}
				}
			}
		}
	}
	for k, f := range w.fns {
		if c := w.sp.contracts[k]; c != nil && c.group == g && !c.trusted {
			in[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.allFns() {
			if in[f] || w.sp.contracts[fnKey(f)] != nil {
				continue
			}
			ok := f.Parent() != nil && in[f.Parent()]
			if !ok && !escapes[f] && len(callers[f]) > 0 && f.Object() != nil && !f.Object().Exported() {
				// a helper without a contract is verified inline in its callers
				ok = true
				for _, c := range callers[f] {
					if !in[c] {
						ok = false
					}
				}
			}
			if ok {
				in[f] = true
				changed = true
			}
		}
	}
	return in
}

func (w *world) allFns() []*ssa.Function {
	var ks []string
	for k := range w.fns {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, k := range ks {
		if f := w.fns[k]; f.Parent() == nil {
			add(f)
		}
	}
	return out
}

// guarded lists the real components of a group that only its functions may change.
func (w *world) guarded(g string) map[string]bool {
	out := map[string]bool{}
	for _, c := range w.sealedBy[g] {
		if !comps[c].gho {
			out[c] = true
		}
	}
	for _, c := range w.readonly[g] {
		out[c] = true
	}
	return out
}

func loadsOnly(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !loadsOnly(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !loadsOnly(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sealCheck returns what breaks the group's seal.
func (w *world) sealCheck(g string) []string {
	defer setPart(g)()
	in := w.groupMember(g)
	gc := w.guarded(g)
	owned := map[string]bool{}
	for c := range gc {
		if !strings.Contains(c, ":") {
			owned[c[:strings.LastIndex(c, ".")]] = true
		}
	}
	bad := w.partCheck(g, in)
	has := func(t types.Type) string {
		if n, ok := t.(*types.Named); ok && isStruct(n) && owned[structName(n)] {
			return structName(n)
		}
		return ""
	}
	// the objects of other groups that have their own copies of components are not this group's
	other := map[*ssa.Function]bool{}
	for x := range partGroups {
		if x != g && partGroups[g] {
			for f := range w.groupMember(x) {
				other[f] = true
			}
		}
	}
	full := gc
	rest := map[string]bool{}
	for c := range gc {
		if !strings.Contains(c, "@"+g+".") {
			rest[c] = true
		}
	}
	for _, f := range w.allFns() {
		if in[f] {
			continue
		}
		gc := full
		if other[f] {
			gc = rest
		}
		say := func(what string) { bad = append(bad, fnKey(f)+" "+what) }
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Alloc:
					if n := has(x.Type().(*types.Pointer).Elem()); n != "" {
						say("allocates a " + n)
					}
				case *ssa.Store:
					if n := has(x.Val.Type()); n != "" {
						say("stores a whole " + n)
					}
				case *ssa.FieldAddr:
					st := x.X.Type().Underlying().(*types.Pointer).Elem()
					if n, ok := st.(*types.Named); ok {
						fl := fieldsOf(n).Field(x.Field)
						c := structName(n) + "." + fl.Name()
						a, isArr := fl.Type().Underlying().(*types.Array)
						if (gc[c] || isArr && gc["elem:"+elemKey(a.Elem())] && owned[structName(n)]) && !loadsOnly(x) {
							say("may store to " + c)
						}
					}
				case *ssa.IndexAddr:
					var et types.Type
					switch t := x.X.Type().Underlying().(type) {
					case *types.Slice:
						et = sliceElem(x.X.Type())
					case *types.Pointer:
						et = t.Elem().Underlying().(*types.Array).Elem()
					}
					if et != nil && gc["elem:"+elemKey(et)] && !loadsOnly(x) {
						say("may store to elem:" + elemKey(et))
					}
				case *ssa.ChangeType:
					for _, t := range []types.Type{x.Type(), x.X.Type()} {
						if ownedSlice(t) && gc["elem:"+elemKey(sliceElem(t))] {
							say("converts " + x.X.Type().String() + " to " + x.Type().String())
						}
					}
				case *ssa.MapUpdate:
					if m := x.Map.Type().Underlying().(*types.Map); gc[mapDomComp(m).name] || gc[mapValComp(m).name] {
						say("updates a " + m.String())
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if m, ok := x.Call.Args[0].Type().Underlying().(*types.Map); ok && gc[mapDomComp(m).name] {
							say("deletes from a " + m.String())
						}
					}
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy" || bi.Name() == "clear") {
						if t := x.Call.Args[0].Type(); isSliceT(t) && gc["elem:"+elemKey(sliceElem(t))] {
							say(bi.Name() + " may store to elem:" + elemKey(sliceElem(t)))
						}
					}
				}
			}
		}
	}
	sort.Strings(bad)
	return bad
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// globalsOf lists the package variables an expression names.
func (w *world) globalsOf(e *expr, pkg string, out map[*types.Var]bool) {
	if e == nil {
		return
	}
	look := func(p, n string) {
		if tp := w.pkgs[p]; tp != nil {
			if v, ok := tp.Scope().Lookup(n).(*types.Var); ok {
				out[v] = true
			}
		}
	}
	if e.op == "id" {
		look(pkg, e.s)
	}
	if e.op == "sel" && len(e.a) == 1 && e.a[0].op == "id" {
		look(e.a[0].s, e.s)
	}
	for _, a := range e.a {
		w.globalsOf(a, pkg, out)
	}
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// globCheck: the variables of the package invariant are stored to in initialisers only.
func (w *world) globCheck(g *axiomDef) []string {
	vs := map[*types.Var]bool{}
	w.globalsOf(g.e, g.pkg, vs)
	var bad []string
	maps := map[string]bool{}
	for v := range vs {
		if m, ok := v.Type().Underlying().(*types.Map); ok {
			maps[m.String()] = true
		}
	}
	for _, f := range w.allFns() {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.MapUpdate); ok && maps[x.Map.Type().Underlying().String()] {
					bad = append(bad, fnKey(f)+" updates a map of the type of one that "+g.name+" speaks about")
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && maps[c.Common().Args[0].Type().Underlying().String()] {
						bad = append(bad, fnKey(f)+" deletes from a map of the type of one that "+g.name+" speaks about")
					}
				}
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					gl, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					tv, ok := gl.Object().(*types.Var)
					if !ok || !vs[tv] {
						continue
					}
					if _, load := i.(*ssa.UnOp); !load {
						bad = append(bad, fmt.Sprintf("%s uses the address of %s", fnKey(f), gl.Name()))
					}
				}
			}
		}
	}
	sort.Strings(bad)
	return bad
}

// immutCheck: outside initialisers the fields of the struct are stored to only where one is built in
// a variable of the same function, and no address of a field gets away.
func (w *world) immutCheck(name string) []string {
	is := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && structName(n) == name
	}
	ptr := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && is(p.Elem())
	}
	var bad []string
	for _, f := range w.allFns() {
		if isInit(f) {
			continue
		}
		say := func(what string) { bad = append(bad, fnKey(f)+" "+what+" a "+name) }
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if _, built := x.Addr.(*ssa.Alloc); ptr(x.Addr.Type()) && !built {
						say("stores to")
					}
				case *ssa.FieldAddr:
					if !ptr(x.X.Type()) {
						continue
					}
					_, built := x.X.(*ssa.Alloc)
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if y.Addr != x || !built {
								say("stores to a field of")
							}
						default:
							say("uses the address of a field of")
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy" || bi.Name() == "clear") {
						if sl, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok && is(sl.Elem()) {
							say("writes to a slice of")
						}
					}
				}
			}
		}
	}
	sort.Strings(bad)
	return bad
}

// partCheck: no object of a struct of which the group has its own copies of the components passes
// between the group's functions and others.
func (w *world) partCheck(g string, in map[*ssa.Function]bool) []string {
	if !partGroups[g] {
		return nil
	}
	is := func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && n.Obj().Pkg() != nil && partPkgs[n.Obj().Pkg().Path()]
	}
	var bad []string
	fin, fout := map[string]bool{}, map[string]bool{}
	for _, f := range w.allFns() {
		say := func(what string) { bad = append(bad, fnKey(f)+" "+what) }
		field := func(n string) {
			if in[f] {
				fin[n] = true
			} else {
				fout[n] = true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					st := x.X.Type().Underlying().(*types.Pointer).Elem()
					fl := fieldsOf(st).Field(x.Field)
					if is(fl.Type()) && !is(x.X.Type()) {
						field(st.String() + "." + fl.Name())
					}
				case *ssa.Field:
					if fl := fieldsOf(x.X.Type()).Field(x.Field); is(fl.Type()) {
						say("reads " + fl.Name() + " of a struct value")
					}
				case *ssa.MakeInterface:
					if is(x.X.Type()) {
						say("makes an interface value of a " + x.X.Type().String())
					}
				case *ssa.MapUpdate:
					if is(x.Value.Type()) || is(x.Key.Type()) {
						say("keeps a " + x.Value.Type().String() + " in a map")
					}
				case *ssa.MakeClosure:
					for _, v := range x.Bindings {
						p, ok := v.Type().(*types.Pointer)
						if is(v.Type()) || ok && is(p.Elem()) {
							say("captures a " + v.Type().String())
						}
					}
				case *ssa.IndexAddr:
					if is(x.Type().(*types.Pointer).Elem()) {
						say("keeps a " + x.Type().(*types.Pointer).Elem().String() + " in an array")
					}
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.Global); ok && is(x.Val.Type()) {
						say("keeps a " + x.Val.Type().String() + " in a variable")
					}
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sig := c.Common().Signature()
				uses := sig.Recv() != nil && is(sig.Recv().Type())
				for _, tp := range []*types.Tuple{sig.Params(), sig.Results()} {
					for k := 0; k < tp.Len(); k++ {
						uses = uses || is(tp.At(k).Type())
					}
				}
				if !uses {
					continue
				}
				callee := c.Common().StaticCallee()
				switch {
				case callee == nil:
					say("passes such an object to an unknown function")
				case w.inModule(callee) && in[callee] != in[f]:
					say("passes such an object to or from " + fnKey(callee))
				}
			}
		}
	}
	for n := range fin {
		if fout[n] {
			bad = append(bad, n+" is used by functions without a contract of the group")
		}
	}
	return bad
}
