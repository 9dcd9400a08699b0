package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// strings

func strLen(s *Term) *Term {
	if l, ok := litOf[s]; ok {
		return mkInt(int64(len(l)))
	}
	if s.kind == 'a' {
		switch s.op {
		case "scat":
			return mkAdd(strLen(s.args[0]), strLen(s.args[1]))
		case "ite":
			return mkIte(s.args[0], strLen(s.args[1]), strLen(s.args[2]))
		case "mkstr":
			return s.args[2]
		}
	}
	return call("slen", s)
}

func strAt(s, i *Term) *Term {
	if l, ok := litOf[s]; ok && i.iv != nil && i.iv.IsInt64() {
		n := i.iv.Int64()
		if n >= 0 && n < int64(len(l)) {
			return mkInt(int64(l[n]))
		}
	}
	return call("sat", s, i)
}

func strCat(a, b *Term) *Term {
	la, oka := litOf[a]
	lb, okb := litOf[b]
	switch {
	case oka && la == "":
		return b
	case okb && lb == "":
		return a
	}
	if a.kind == 'a' && a.op == "scat" {
		return strCat(a.args[0], strCat(a.args[1], b))
	}
	return call("scat", a, b)
}

func strSub(s, lo, n *Term) *Term {
	if lo.iv != nil && lo.iv.Sign() == 0 && n == strLen(s) {
		return s
	}
	if l, ok := litOf[s]; ok && lo.iv != nil && n.iv != nil {
		a, b := lo.iv.Int64(), n.iv.Int64()
		if a >= 0 && b >= 0 && a+b <= int64(len(l)) {
			return mkStr(l[a : a+b])
		}
	}
	return call("ssub", s, lo, n)
}

// integers

func inRange(x *Term, lo, hi *big.Int) *Term {
	return mkAnd(mkLe(mkIntB(lo), x), mkLe(x, mkIntB(hi)))
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func is64(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return true
	}
	return false
}

// arith brings the mathematical result x of an operation on type t back into its range.
func (v *verifier) arith(st *state, x *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	if lo == nil {
		return x
	}
	if x.iv != nil {
		if x.iv.Cmp(lo) >= 0 && x.iv.Cmp(hi) <= 0 {
			return x
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(x.iv, lo)
		r.Mod(r, m)
		return mkIntB(r.Add(r, lo))
	}
	if is64(t) {
		if v.root.checked {
			v.oblige(st, "overflow", "no integer overflow", inRange(x, lo, hi))
		} else {
			v.note("int and int64 arithmetic is treated as mathematical, except where a function is marked checked")
		}
		return x
	}
	if !isUnsigned(t) {
		v.oblige(st, "overflow", "no "+t.String()+" overflow", inRange(x, lo, hi))
		return x
	}
	w := call("wrap", x, mkIntB(lo), mkIntB(hi))
	st.add(inRange(w, lo, hi))
	return mkIte(inRange(x, lo, hi), x, w)
}

func pow2(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// mask returns k when c = 2^k - 1.
func maskBits(c *big.Int) (int64, bool) {
	if c.Sign() <= 0 {
		return 0, false
	}
	n := new(big.Int).Add(c, big.NewInt(1))
	if new(big.Int).And(n, c).Sign() != 0 {
		return 0, false
	}
	return int64(n.BitLen() - 1), true
}

func toUns(x *big.Int, t types.Type) *big.Int {
	lo, hi := intRange(t)
	if x.Sign() < 0 {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		return new(big.Int).Add(x, m)
	}
	return x
}

func fromUns(x *big.Int, t types.Type) *big.Int {
	lo, hi := intRange(t)
	if x.Cmp(hi) > 0 {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		return new(big.Int).Sub(x, m)
	}
	return x
}

func (v *verifier) bits(st *state, op token.Token, a, b *Term, t types.Type) *Term {
	if a.iv != nil && b.iv != nil {
		x, y := toUns(a.iv, t), toUns(b.iv, t)
		z := new(big.Int)
		switch op {
		case token.AND:
			z.And(x, y)
		case token.OR:
			z.Or(x, y)
		case token.XOR:
			z.Xor(x, y)
		case token.AND_NOT:
			z.AndNot(x, y)
		}
		return mkIntB(fromUns(z, t))
	}
	zero := mkInt(0)
	if op == token.OR {
		if a == zero {
			return b
		}
		if b == zero {
			return a
		}
	}
	if op == token.AND && (a == zero || b == zero) {
		return zero
	}
	if op == token.AND {
		x, c := a, b
		if x.iv != nil {
			x, c = c, x
		}
		if c.iv != nil {
			if k, ok := maskBits(c.iv); ok && k <= 16 {
				return app("mod", "Int", x, mkIntB(pow2(k)))
			}
		}
	}
	name := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.AND_NOT: "bitandnot"}[op]
	r := call(name, a, b)
	if lo, hi := intRange(t); lo != nil {
		st.add(inRange(r, lo, hi))
	}
	switch op {
	case token.AND:
		st.add(mkImp(mkLe(zero, b), mkAnd(mkLe(zero, r), mkLe(r, b))))
		st.add(mkImp(mkLe(zero, a), mkAnd(mkLe(zero, r), mkLe(r, a))))
	case token.OR:
		st.add(mkImp(mkAnd(mkLe(zero, a), mkLe(zero, b)), mkAnd(mkLe(a, r), mkLe(b, r), mkLe(r, mkAdd(a, b)))))
		// disjoint bits
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].kind == 'a' && p[0].op == "*" && p[0].args[1].iv != nil {
				st.add(mkImp(mkAnd(mkLe(zero, p[1]), mkLt(p[1], p[0].args[1])), mkEq(r, mkAdd(a, b))))
			}
		}
	}
	return r
}

func (v *verifier) binop(st *state, fr *frame, in *ssa.BinOp) Val {
	xv, yv := v.eval(st, fr, in.X), v.eval(st, fr, in.Y)
	t := in.X.Type()
	if xs, ok := xv.(*structVal); ok {
		ys := yv.(*structVal)
		e := v.eqStruct(st, xs, ys)
		if in.Op == token.NEQ {
			return mkNot(e)
		}
		return e
	}
	a, b := v.term(xv), v.term(yv)
	switch in.Op {
	case token.EQL, token.NEQ:
		var e *Term
		switch a.sort {
		case "F64":
			e = fltEq(a, b)
		case "Slice":
			e = mkEq(call("sarr", a), mkInt(0))
			if a == nilSlice {
				e = mkEq(call("sarr", b), mkInt(0))
			}
		default:
			e = mkEq(a, b)
		}
		if in.Op == token.NEQ {
			return mkNot(e)
		}
		return e
	case token.LSS:
		return less(a, b)
	case token.GTR:
		return less(b, a)
	case token.LEQ:
		return lessEq(a, b)
	case token.GEQ:
		return lessEq(b, a)
	}
	if a.sort == "Str" {
		return strCat(a, b)
	}
	if a.sort == "F64" {
		return call("fop", mkInt(int64(in.Op)), a, b)
	}
	if a.sort != "Int" {
		panic(unsupported("operator on " + a.sort))
	}
	switch in.Op {
	case token.ADD:
		return v.arith(st, mkAdd(a, b), t)
	case token.SUB:
		return v.arith(st, mkSub(a, b), t)
	case token.MUL:
		return v.arith(st, mkMul(a, b), t)
	case token.QUO:
		v.oblige(st, "safety", "no division by zero", mkNot(mkEq(b, mkInt(0))))
		return quo(a, b)
	case token.REM:
		v.oblige(st, "safety", "no division by zero", mkNot(mkEq(b, mkInt(0))))
		return mkSub(a, mkMul(quo(a, b), b))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return v.bits(st, in.Op, a, b, t)
	case token.SHL:
		if b.iv != nil && b.iv.Sign() >= 0 && b.iv.Cmp(big.NewInt(62)) <= 0 {
			return v.arith(st, mkMul(a, mkIntB(pow2(b.iv.Int64()))), t)
		}
		return v.boundedFresh(st, call("shl", a, b), t)
	case token.SHR:
		if b.iv != nil && b.iv.Sign() >= 0 && b.iv.Cmp(big.NewInt(62)) <= 0 {
			return app("div", "Int", a, mkIntB(pow2(b.iv.Int64())))
		}
		r := v.boundedFresh(st, call("shr", a, b), t)
		st.add(mkImp(mkLe(mkInt(0), a), mkAnd(mkLe(mkInt(0), r), mkLe(r, a))))
		return r
	}
	panic(unsupported("operator " + in.Op.String()))
}

func (v *verifier) boundedFresh(st *state, x *Term, t types.Type) *Term {
	if lo, hi := intRange(t); lo != nil {
		st.add(inRange(x, lo, hi))
	}
	return x
}

// quo is the truncated division of Go.
func quo(a, b *Term) *Term {
	if a.iv != nil && b.iv != nil && b.iv.Sign() != 0 {
		return mkIntB(new(big.Int).Quo(a.iv, b.iv))
	}
	d := app("div", "Int", a, b)
	neg := mkSub(mkInt(0), app("div", "Int", mkSub(mkInt(0), a), b))
	return mkIte(mkLe(mkInt(0), a), d, neg)
}

func fltNaN(a *Term) *Term {
	if _, ok := fltVal[a]; ok {
		return tFalse
	}
	return call("fnan", a)
}

func fltEq(a, b *Term) *Term {
	return mkAnd(mkNot(fltNaN(a)), mkNot(fltNaN(b)), mkEq(call("frank", a), call("frank", b)))
}

func less(a, b *Term) *Term {
	switch a.sort {
	case "Int":
		return mkLt(a, b)
	case "Str":
		return call("strlt", a, b)
	case "F64":
		return mkAnd(mkNot(fltNaN(a)), mkNot(fltNaN(b)), app("<", "Bool", call("frank", a), call("frank", b)))
	}
	panic(unsupported("order on " + a.sort))
}

func lessEq(a, b *Term) *Term {
	switch a.sort {
	case "Int":
		return mkLe(a, b)
	case "Str":
		return mkNot(call("strlt", b, a))
	case "F64":
		return mkAnd(mkNot(fltNaN(a)), mkNot(fltNaN(b)), app("<=", "Bool", call("frank", a), call("frank", b)))
	}
	panic(unsupported("order on " + a.sort))
}

func (v *verifier) eqStruct(st *state, a, b *structVal) *Term {
	var cs []*Term
	for i := range a.f {
		if as, ok := a.f[i].(*structVal); ok {
			cs = append(cs, v.eqStruct(st, as, b.f[i].(*structVal)))
			continue
		}
		x, y := v.term(a.f[i]), v.term(b.f[i])
		if x.sort == "F64" {
			cs = append(cs, fltEq(x, y))
		} else {
			cs = append(cs, mkEq(x, y))
		}
	}
	return mkAnd(cs...)
}

func (v *verifier) unop(st *state, fr *frame, in *ssa.UnOp) Val {
	x := v.eval(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		return v.loadAddr(st, x, in.Type(), "in a load")
	case token.NOT:
		return mkNot(v.term(x))
	case token.SUB:
		a := v.term(x)
		if a.sort == "F64" {
			return call("fop", mkInt(-1), a, a)
		}
		return v.arith(st, mkSub(mkInt(0), a), in.Type())
	case token.XOR:
		a := v.term(x)
		if a.iv != nil {
			lo, hi := intRange(in.Type())
			if lo.Sign() == 0 {
				return mkIntB(new(big.Int).Sub(hi, a.iv))
			}
			return mkIntB(new(big.Int).Not(a.iv))
		}
		_, hi := intRange(in.Type())
		if isUnsigned(in.Type()) {
			return mkSub(mkIntB(hi), a)
		}
		return mkSub(mkInt(-1), a)
	case token.ARROW:
		v.note("%s receives from a channel: the value is arbitrary unless a contract says otherwise", fr.fn)
		t := in.X.Type().Underlying().(*types.Chan).Elem()
		val := v.freshVal(st, "received", t)
		v.event(st, "chan.recv", []sval{{t: v.term(x), typ: &stype{t: in.X.Type()}}, {t: v.term(val), typ: &stype{t: t}}})
		if in.CommaOk {
			return tuple{val, freshConst("ok", "Bool")}
		}
		return val
	}
	panic(unsupported("unary " + in.Op.String()))
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (v *verifier) convert(st *state, fr *frame, in *ssa.Convert) Val {
	x := v.eval(st, fr, in.X)
	from, to := in.X.Type(), in.Type()
	switch {
	case isByteSlice(from) && isString(to):
		s := v.term(x)
		et := sliceElem(from)
		return v.bytesToStr(st, s, et)
	case isString(from) && isByteSlice(to):
		s := v.term(x)
		return v.strToBytes(st, s, sliceElem(to))
	}
	fb, ok1 := under(from).(*types.Basic)
	tb, ok2 := under(to).(*types.Basic)
	if ok1 && ok2 {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			a := v.term(x)
			lo, hi := intRange(to)
			flo, fhi := intRange(from)
			if a.iv != nil {
				return v.arith(st, a, to)
			}
			if flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
				return a
			}
			w := call("wrap", a, mkIntB(lo), mkIntB(hi))
			st.add(inRange(w, lo, hi))
			return mkIte(inRange(a, lo, hi), a, w)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return call("i2f", v.term(x))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			r := call("f2i", v.term(x))
			return v.boundedFresh(st, r, to)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return x
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return x
		}
	}
	if sortOf(from) == sortOf(to) {
		return x
	}
	v.note("%s: the conversion from %s to %s gives an arbitrary value", fr.fn, from, to)
	return v.freshVal(st, "conv", to)
}

func (v *verifier) bytesToStr(st *state, s *Term, et types.Type) *Term {
	arr := mkSelect(v.heapOf(st, elemComp(et)), call("sarr", s))
	return call("mkstr", arr, call("soff", s), call("slen_", s))
}

func (v *verifier) strToBytes(st *state, s *Term, et types.Type) *Term {
	r := v.alloc(st, "bytes")
	v.zeroArray(st, r, et)
	v.rawStore(st, elemComp(et), call("sbytes", s), r)
	n := strLen(s)
	st.add(mkLe(mkInt(0), n))
	return mkSlice(r, mkInt(0), n, n)
}

// calls

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return tstr(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnKey(f)
	}
	return c.Value.Name()
}

// fnKey is the name of a function in contract files.
func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		return fnKey(f.Parent()) + f.Name()[strings.LastIndex(f.Name(), "$"):]
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name() + "."
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Name() + "."
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + n.Obj().Name() + "." + f.Name()
		}
	}
	return pkg + f.Name()
}

func (v *verifier) doCall(st *state, fr *frame, c *ssa.CallCommon, in ssa.Instruction, rt types.Type, k cont) (Val, bool) {
	fn := v.eval(st, fr, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, v.eval(st, fr, a))
	}
	return v.callWith(st, fr, c, fn, args, rt, k)
}

func (v *verifier) callWith(st *state, fr *frame, c *ssa.CallCommon, fnv Val, args []Val, rt types.Type, k cont) (Val, bool) {
	if tp, ok := rt.(*types.Tuple); ok && tp.Len() == 1 {
		rt = tp.At(0).Type()
	}
	if c.IsInvoke() {
		recv := v.term(fnv)
		v.oblige(st, "safety", "no nil interface call of "+c.Method.Name(), mkNot(mkEq(recv, nilAny)))
		key := ""
		if n, ok := c.Value.Type().(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				key = n.Obj().Pkg().Name() + "."
			}
			key += n.Obj().Name() + "." + c.Method.Name()
		} else {
			key = tstr(c.Value.Type()) + "." + c.Method.Name()
		}
		ts := []types.Type{c.Value.Type()}
		sg := c.Signature()
		for i := 0; i < sg.Params().Len(); i++ {
			ts = append(ts, sg.Params().At(i).Type())
		}
		if ct := v.w.sp.contracts[key]; ct != nil {
			return v.callContract(st, fr, ct, append([]Val{recv}, args...), ts, rt)
		}
		panic(unsupported("the interface method " + key + " has no contract"))
		return v.freshVal(st, c.Method.Name(), rt), true
	}
	switch f := fnv.(type) {
	case *ssa.Builtin:
		return v.builtin(st, fr, f, c, args, rt), true
	case *closure:
		return v.callFn(st, fr, f, args, rt, k)
	case *Term:
		if cl, ok := v.fnTerm[f]; ok {
			return v.callFn(st, fr, cl, args, rt, k)
		}
		// a variable of a package that holds a function, like log.Error
		if ld, ok := c.Value.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if g, ok := ld.X.(*ssa.Global); ok {
				if ct := v.w.sp.contracts[g.Pkg.Pkg.Name()+"."+g.Name()]; ct != nil {
					v.note("%s.%s is set before it is called", g.Pkg.Pkg.Name(), g.Name())
					var ts []types.Type
					sg := c.Signature()
					for i := 0; i < sg.Params().Len(); i++ {
						ts = append(ts, sg.Params().At(i).Type())
					}
					return v.callContract(st, fr, ct, args, ts, rt)
				}
			}
		}
		v.oblige(st, "safety", "no call of a nil function", mkNot(mkEq(f, mkInt(0))))
		if n, ok := c.Value.Type().(*types.Named); ok {
			key := n.Obj().Pkg().Name() + "." + n.Obj().Name()
			if ct := v.w.sp.contracts[key]; ct != nil {
				var ts []types.Type
				sg := c.Signature()
				for i := 0; i < sg.Params().Len(); i++ {
					ts = append(ts, sg.Params().At(i).Type())
				}
				// the function value itself can be named by an extra leading parameter
				if len(ct.params) == len(ts)+1 {
					return v.callContract(st, fr, ct, append([]Val{f}, args...), append([]types.Type{c.Value.Type()}, ts...), rt)
				}
				return v.callContract(st, fr, ct, args, ts, rt)
			}
		}
		if ct := v.w.sp.contracts["funcvalue."+tstr(c.Value.Type())]; ct != nil {
			_ = ct
		}
		// an unnamed function type: look for "functype pkg.T" by the field it was loaded from
		if key := loadedField(c.Value); key != "" {
			if ct := v.w.sp.contracts[key]; ct != nil {
				var ts []types.Type
				sg := c.Signature()
				for i := 0; i < sg.Params().Len(); i++ {
					ts = append(ts, sg.Params().At(i).Type())
				}
				return v.callContract(st, fr, ct, append([]Val{f}, args...), append([]types.Type{c.Value.Type()}, ts...), rt)
			}
		}
		panic(unsupported("call of an unknown function value of type " + c.Value.Type().String()))
	}
	panic(unsupported(fmt.Sprintf("call of %T", fnv)))
}

// loadedField names the struct field a function value was loaded from.
func loadedField(x ssa.Value) string {
	u, ok := x.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return structName(t) + "." + fieldsOf(t).Field(fa.Field).Name()
}

func (v *verifier) callFn(st *state, fr *frame, cl *closure, args []Val, rt types.Type, k cont) (Val, bool) {
	fn := cl.fn
	key := fnKey(fn)
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	if len(ts) == 0 && len(args) > 0 { // external without a body
		if r := fn.Signature.Recv(); r != nil {
			ts = append(ts, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			ts = append(ts, fn.Signature.Params().At(i).Type())
		}
	}
	if v.root.init && fn.Name() == "init" && fn.Synthetic != "" {
		return nil, true // another package's initialiser
	}
	ct := v.w.sp.contracts[key]
	if ct != nil && !ct.inline {
		v.called[key] = true
		return v.callContract(st, fr, ct, args, ts, rt)
	}
	if strings.HasSuffix(fn.Name(), "$bound") || len(fn.Blocks) > 0 && (v.w.inModule(fn) || ct != nil && ct.inline) {
		if fr.depth > 10 {
			panic(unsupported("inlining too deep (recursion?) at " + key))
		}
		v.inlined[key] = true
		nf := v.newFrame(fn, args, cl.bind, ct, fr.depth+1)
		saved := st.stack
		st.stack = append(append([]string(nil), saved...), key)
		v.enterBlock(st, nf, nil, fn.Blocks[0], func(s2 *state, r Val) {
			s2.stack = saved
			k(s2, r)
		})
		return nil, false
	}
	if key == "fmt.Sprintf" {
		if r := v.sprintf(st, args); r != nil {
			v.note("fmt.Sprintf is modelled: %%s of a string is the string, %%d of an integer its decimal form, the result the concatenation")
			return r, true
		}
	}
	v.note("%s has no contract: its result is arbitrary and it is taken to change nothing the proof looks at", key)
	if rt == nil {
		return nil, true
	}
	return v.freshVal(st, fn.Name(), rt), true
}

func (v *verifier) builtin(st *state, fr *frame, f *ssa.Builtin, c *ssa.CallCommon, args []Val, rt types.Type) Val {
	switch f.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		x := v.term(args[0])
		switch u := under(t).(type) {
		case *types.Slice:
			if f.Name() == "cap" {
				return call("scap", x)
			}
			return call("slen_", x)
		case *types.Basic:
			n := strLen(x)
			st.add(mkLe(mkInt(0), n))
			return n
		case *types.Array:
			return mkInt(u.Len())
		case *types.Pointer:
			return mkInt(under(u.Elem()).(*types.Array).Len())
		case *types.Map:
			r := v.freshVal(st, "maplen", types.Typ[types.Int]).(*Term)
			st.add(mkLe(mkInt(0), r))
			return r
		case *types.Chan:
			if ct := v.w.sp.contracts["chan.len"]; ct != nil {
				r, _ := v.callContract(st, fr, ct, []Val{x}, []types.Type{t}, types.Typ[types.Int])
				return r
			}
			r := v.freshVal(st, "chanlen", types.Typ[types.Int]).(*Term)
			st.add(mkLe(mkInt(0), r))
			return r
		}
	case "append":
		return v.appendOp(st, v.term(args[0]), v.term(args[1]), c.Args[0].Type(), sourceType(c.Args[1]))
	case "copy":
		return v.copyOp(st, v.term(args[0]), v.term(args[1]), c.Args[0].Type(), sourceType(c.Args[1]))
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		m, key := v.term(args[0]), v.term(args[1])
		dc := mapDomComp(mt)
		// delete of a nil map does nothing
		d := v.read(st, dc, m)
		v.storeCell(st, dc, mkStore(d, key, tFalse), m)
		return nil
	case "close":
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		v.nonNil(st, v.term(args[0]), "of a receiver")
		return args[0]
	case "min", "max":
		r := v.term(args[0])
		for _, a := range args[1:] {
			b := v.term(a)
			if f.Name() == "min" {
				r = mkIte(mkLe(r, b), r, b)
			} else {
				r = mkIte(mkLe(r, b), b, r)
			}
		}
		return r
	}
	panic(unsupported("builtin " + f.Name()))
}

// elements of a source for append and copy: (array of the component, offset, length)
func (v *verifier) source(st *state, c *comp, s *Term, t types.Type) (arr, off, n *Term) {
	if isString(t) {
		return call("sbytes", s), mkInt(0), strLen(s)
	}
	if se := sliceElem(t); ownedSlice(t) || c.name != elemComp(se).name && !isStruct(se) {
		c = elemComp(se)
	}
	return mkSelect(v.heapOf(st, c), call("sarr", s)), call("soff", s), call("slen_", s)
}

// sourceType: the type of the slice whose elements an append or copy reads.
func sourceType(a ssa.Value) types.Type {
	if x, ok := a.(*ssa.ChangeType); ok && ownedSlice(x.X.Type()) {
		return x.X.Type()
	}
	return a.Type()
}

// readsOnly: the converted slice is only the source of appends and copies.
func readsOnly(x *ssa.ChangeType) bool {
	for _, r := range *x.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" && b.Name() != "copy" || c.Call.Args[0] == ssa.Value(x) {
			return false
		}
	}
	return true
}

func (v *verifier) appendOp(st *state, s, x *Term, stp, xt types.Type) Val {
	et := sliceElem(stp)
	n := call("slen_", x)
	if isString(xt) {
		n = strLen(x)
	} else if sliceElem(xt) != et && (ownedSlice(xt) || ownedSlice(stp)) && isStruct(under(stp).(*types.Slice).Elem()) {
		panic(unsupported("append of " + xt.String() + " to " + stp.String()))
	}
	if n.iv != nil && n.iv.Sign() == 0 {
		return s
	}
	ln, off, arr, cp := call("slen_", s), call("soff", s), call("sarr", s), call("scap", s)
	fits := mkLe(mkAdd(ln, n), cp)
	fr := v.alloc(st, "append")
	for _, g := range v.ownGhostMaps() {
		v.rawStore(st, g, zeroSort(g.sort), fr)
	}
	newArr := mkIte(fits, arr, fr)
	ncap := freshConst("cap", "Int")
	st.add(mkLe(mkAdd(ln, n), ncap))
	st.add(mkLe(ncap, maxLen))
	st.add(mkImp(fits, mkEq(ncap, cp)))
	// A grown array is modelled with the same offset and the same content before the length.
	type upd struct {
		c *comp
		a *Term
	}
	var us []upd
	v.eachElemComp(et, "", func(c *comp, ft types.Type) {
		old := mkSelect(v.heapOf(st, c), arr)
		sa, so, sn := v.source(st, c, x, xt)
		na := old
		if sn.iv != nil && sn.iv.IsInt64() && sn.iv.Int64() <= 8 {
			for i := int64(0); i < sn.iv.Int64(); i++ {
				na = mkStore(na, mkAdd(mkAdd(off, ln), mkInt(i)), mkSelect(sa, mkAdd(so, mkInt(i))))
			}
		} else {
			na = freshConst("app", arrSort("Int", c.sort))
			st.add(spliceFact(na, old, mkAdd(off, ln), sa, so, sn))
		}
		us = append(us, upd{c, na})
	})
	for _, u := range us {
		// in place only when it fits: the frame is checked on the array written
		if v.discover > 0 {
			v.writes = append(v.writes, writeRec{c: u.c.name, keys: []*Term{arr}})
		} else if !(st.fresh[arr.id]) {
			for i, f := range st.frames {
				if f.any || i == 0 && st.fresh[arr.id] {
					continue
				}
				v.oblige(st, "frame", f.name+"modifies "+u.c.name, mkImp(fits, f.allowsAny(u.c, arr, mkAdd(off, ln), mkAdd(mkAdd(off, ln), n))))
			}
		}
		v.rawStore(st, u.c, u.a, newArr)
	}
	st.add(mkImp(mkEq(arr, mkInt(0)), mkEq(cp, mkInt(0))))
	v.event(st, "append."+elemKey(et), []sval{{t: s, typ: &stype{t: stp}}, {t: x, typ: &stype{t: xt}},
		{t: mkSlice(newArr, off, mkAdd(ln, n), ncap), typ: &stype{t: stp}}})
	return mkSlice(newArr, off, mkAdd(ln, n), ncap)
}

// allowsAny: the cells [lo,hi) of the array may be written.
func (fr *modFrame) allowsAny(c *comp, arr, lo, hi *Term) *Term {
	var alts []*Term
	alts = append(alts, mkLt(fr.top, call("birth", arr)))
	two := false
	for _, m := range fr.mods[c.name] {
		if m.exact != nil && m.key1 == nil {
			alts = append(alts, mkEq(m.exact, arr))
		} else {
			two = true
		}
	}
	if two {
		i := mkBoundVar("i", "Int")
		alts = append(alts, mkForall([]*Term{i}, mkImp(mkAnd(mkLe(lo, i), mkLt(i, hi)), fr.allows(c, []*Term{arr, i}))))
	}
	return mkOr(alts...)
}

// spliceFact: na equals old with n elements of src at pos.
func spliceFact(na, old, pos, src, so, n *Term) *Term {
	k := mkBoundVar("k", "Int")
	in := mkAnd(mkLe(pos, k), mkLt(k, mkAdd(pos, n)))
	x := mkSelect(na, k)
	return mkForall([]*Term{k}, mkEq(x, mkIte(in, mkSelect(src, mkAdd(so, mkSub(k, pos))), mkSelect(old, k))), []*Term{x})
}

func (v *verifier) copyOp(st *state, d, s *Term, dt, xt types.Type) Val {
	et := sliceElem(dt)
	dn := call("slen_", d)
	sn := call("slen_", s)
	if isString(xt) {
		sn = strLen(s)
	}
	n := mkIte(mkLe(dn, sn), dn, sn)
	type upd struct {
		c *comp
		a *Term
	}
	var us []upd
	if sl, ok := under(xt).(*types.Slice); ok && sliceElem(xt) != et && (ownedSlice(xt) || ownedSlice(dt)) && isStruct(sl.Elem()) {
		panic(unsupported("copy between " + sl.String() + " and " + dt.String()))
	}
	v.eachElemComp(et, "", func(c *comp, ft types.Type) {
		old := mkSelect(v.heapOf(st, c), call("sarr", d))
		sa, so, _ := v.source(st, c, s, xt)
		na := freshConst("copied", arrSort("Int", c.sort))
		st.add(spliceFact(na, old, call("soff", d), sa, so, n))
		us = append(us, upd{c, na})
	})
	for _, u := range us {
		if v.discover > 0 {
			v.writes = append(v.writes, writeRec{c: u.c.name, keys: []*Term{call("sarr", d)}})
		} else {
			for i, f := range st.frames {
				if f.any || i == 0 && st.fresh[call("sarr", d).id] {
					continue
				}
				v.oblige(st, "frame", f.name+"modifies "+u.c.name, f.allowsAny(u.c, call("sarr", d), call("soff", d), mkAdd(call("soff", d), n)))
			}
		}
		v.rawStore(st, u.c, u.a, call("sarr", d))
	}
	return n
}

// callContract applies the contract of a callee.
func (v *verifier) callContract(st *state, fr *frame, c *contract, args []Val, ts []types.Type, rt types.Type) (Val, bool) {
	v.usedFn[c.key] = true
	pkg := c.pkg
	cx := &sctx{v: v, st: st, pkg: pkg, names: map[string]sval{}}
	for i, n := range c.params {
		if i >= len(args) {
			panic(unsupported("contract of " + c.key + " names too many parameters"))
		}
		cx.names[n] = v.mkSval(args[i], ts[i])
	}
	v.precallEvents(st, c, cx)
	inGroup := c.group != "" && c.group == v.root.group
	if len(ts) > 0 && len(c.params) > 0 && !c.funtype {
		if t, ok := args[0].(*Term); ok && c.recvPtr {
			v.oblige(st, "pre", "receiver of "+c.key+" is not nil", mkNot(mkEq(t, mkInt(0))))
		}
	}
	v.checkClauses(cx, c.requires, "pre", c.key+" requires", "")
	if inGroup {
		for _, iv := range c.invs {
			if !mentions(iv.e, c.results) {
				v.checkClauses(cx, []clause{iv}, "pre", c.key+" needs the invariant", "")
			}
		}
	}
	if c.noret {
		v.endPath()
		return nil, false
	}
	pre := st.clone()
	var othersPre []*Term
	if inGroup {
		for _, o := range v.others {
			othersPre = append(othersPre, v.othersAt(st, o))
		}
	}
	cx.old = pre
	var mods map[string][]modFn
	if inGroup || len(v.w.sealedBy[c.group]) == 0 {
		mods = v.evalMods(cx, c.mods)
	} else {
		// outside the group the sealed state is out of sight
		blind := st.clone()
		for _, cn := range v.w.sealedBy[c.group] {
			blind.heap[cn] = freshConst("sealed:"+cn, comps[cn].heapSort())
		}
		y := cx.sub()
		y.st = blind
		back := setPart(c.group)
		mods = v.evalMods(y, c.mods)
		back()
		for _, cn := range v.w.sealedBy[c.group] {
			delete(mods, cn)
		}
	}
	// the callee may change only what the caller may
	for cn, ms := range mods {
		cc := comps[cn]
		for _, m := range ms {
			if v.discover > 0 {
				w := writeRec{c: cn, cond: m.exact == nil}
				if m.exact != nil {
					w.keys = []*Term{m.exact}
				}
				v.writes = append(v.writes, w)
				continue
			}
			for i, f := range st.frames {
				if f.any || i == 0 && m.exact != nil && st.fresh[m.exact.id] {
					continue
				}
				nm := f.name + "modifies " + cn + " (in " + c.key + ")"
				switch {
				case cc.keys == 0:
					v.oblige(st, "frame", nm, f.allows(cc, nil))
				case m.exact != nil && (m.key1 != nil || cc.keys == 1):
					v.oblige(st, "frame", nm, f.allows(cc, []*Term{m.exact, m.key1}))
				case m.exact != nil:
					if twoKeys(f.mods[cn]) {
						i := mkBoundVar("i", "Int")
						v.oblige(st, "frame", nm, mkForall([]*Term{i}, f.allows(cc, []*Term{m.exact, i})))
					} else {
						v.oblige(st, "frame", nm, f.allows(cc, []*Term{m.exact}))
					}
				default:
					ks := []*Term{mkBoundVar("k", "Int")}
					if cc.keys == 2 {
						ks = append(ks, mkBoundVar("i", "Int"))
					}
					v.oblige(st, "frame", nm, mkForall(ks, mkImp(mkAnd(mkLe(call("birth", ks[0]), pre.top), m.cond(ks)), f.allows(cc, ks))))
				}
			}
		}
	}
	res := v.applyEffects(st, pre, c, cx, mods, rt, inGroup)
	if inGroup && len(c.others) > 0 {
		for i, o := range v.others {
			st.add(mkImp(othersPre[i], v.othersAt(st, o)))
		}
		for _, o := range c.others {
			for _, t := range v.candidates(st, fr, v.w.typ(c.pkg, o.e.vars[0].typ).t) {
				sk := othersSk{c: o, vs: []sval{{t: t, typ: v.w.typ(c.pkg, o.e.vars[0].typ)}}}
				st.add(mkImp(v.othersIn(cx, pre, pre, sk), v.othersIn(cx, st, pre, sk)))
			}
		}
	}
	if c.trusted {
		v.note("contract of %s is trusted%s", c.key, map[bool]string{true: ": " + c.note, false: ""}[c.note != ""])
	}
	v.callEvents(st, c, cx)
	return res, true
}

// applyEffects forgets what the contract lets change and assumes what it ensures.
func (v *verifier) applyEffects(st, pre *state, c *contract, cx *sctx, mods map[string][]modFn, rt types.Type, inGroup bool) Val {
	if (len(c.mods) > 0 || !refFree(rt)) && !c.noalloc {
		// what the callee allocated may be reachable
		st.top = freshConst("top", "Int")
		st.add(mkLe(pre.top, st.top))
		v.allocs = true
		if p := v.w.pkgs[c.pkg]; inGroup || p != nil && partPkgs[p.Path()] && curPart != "" {
			for _, cn := range v.w.zeroed[v.root.group] {
				if len(mods[cn]) == 0 {
					mods[cn] = []modFn{{cond: func([]*Term) *Term { return tFalse }}}
				} else {
					mods[cn] = append(mods[cn], modFn{cond: func([]*Term) *Term { return tFalse }})
				}
			}
		}
	}
	for _, cn := range sortedModKeys(mods) {
		v.havocMods(st, pre, comps[cn], mods[cn])
	}
	var res Val
	if tp, ok := rt.(*types.Tuple); ok {
		if tp.Len() > 0 {
			res = v.freshVal(st, c.key, tp)
			for i, n := range c.results {
				cx.names[n] = v.mkSval(res.(tuple)[i], tp.At(i).Type())
			}
		}
	} else if rt != nil {
		res = v.freshVal(st, c.key, rt)
		if len(c.results) > 0 {
			cx.names[c.results[0]] = v.mkSval(res, rt)
		}
	}
	cx.resultNames = c.results
	for _, e := range c.ensures {
		st.add(v.evalBool(cx, e.e))
	}
	if inGroup {
		for _, e := range c.gens {
			st.add(v.evalBool(cx, e.e))
		}
		for _, e := range c.invs {
			st.add(v.evalBool(cx, e.e))
		}
	}
	return res
}

// refFree tells whether a result of this type carries no reference.
func refFree(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := under(t).(type) {
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if !refFree(u.At(i).Type()) {
				return false
			}
		}
		return true
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	}
	return false
}

// candidates are the references of type t the function has a name for.
func (v *verifier) candidates(st *state, fr *frame, t types.Type) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(x *Term) {
		if x != nil && x.iv == nil && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, n := range sortedSvals(v.params) {
		if x := v.params[n]; x.typ != nil && x.typ.t != nil && types.Identical(x.typ.t, t) {
			add(x.t)
		}
	}
	if fr != nil {
		ks := map[string]bool{}
		for n := range fr.names {
			ks[n] = true
		}
		for _, n := range sortedKeys(ks) {
			x := fr.names[n]
			if !x.addr && types.Identical(x.t, t) {
				if y, ok := x.v.(*Term); ok {
					add(y)
				}
			}
		}
	}
	return out
}

func sortedSvals(m map[string]sval) []string {
	ks := map[string]bool{}
	for n := range m {
		ks[n] = true
	}
	return sortedKeys(ks)
}

// othersIn evaluates the clause of a callee for one object in a state.
func (v *verifier) othersIn(cx *sctx, st, old *state, o othersSk) *Term {
	y := cx.sub()
	y.st, y.old = st, old
	for i, b := range o.c.e.vars {
		y.bind(b.name, o.vs[i])
	}
	return v.evalBool(y, o.c.e.a[0])
}

func sortedModKeys(m map[string][]modFn) []string {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return sortedKeys(s)
}

// havocMods forgets the cells the items allow to change.
func (v *verifier) havocMods(st, pre *state, c *comp, ms []modFn) {
	if c.keys == 0 {
		n := freshConst("h:"+c.name, c.sort)
		st.add(v.wfComp(n, c, st.top))
		st.heap[c.name] = n
		return
	}
	exact := true
	for _, m := range ms {
		if m.exact == nil {
			exact = false
		}
	}
	if exact && len(ms) <= 6 {
		for _, m := range ms {
			srt := c.sort
			if c.keys == 2 && m.key1 == nil {
				srt = arrSort("Int", c.sort)
			}
			n := freshConst("h:"+c.name, srt)
			if m.key1 != nil {
				v.rawStore(st, c, n, m.exact, m.key1)
			} else {
				v.rawStore(st, c, n, m.exact)
				st.add(v.wfComp(n, c, st.top))
			}
		}
		return
	}
	h := freshConst("h:"+c.name, c.heapSort())
	v.frameFact(st, c, h, v.heapOf(pre, c), pre.top, func(keys []*Term) *Term {
		var alts []*Term
		for _, m := range ms {
			alts = append(alts, m.covers(keys))
		}
		return mkOr(alts...)
	}, ms)
	st.heap[c.name] = h
	v.closedAt(st, h, c)
}

// sprintf is the string a constant format produces.
func (v *verifier) sprintf(st *state, args []Val) *Term {
	f, ok := litOf[v.term(args[0])]
	if !ok {
		return nil
	}
	sl := v.term(args[1])
	et := types.Universe.Lookup("any").Type()
	n, lit := 0, ""
	var parts []*Term
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i == len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		x := v.read(st, elemComp(et), call("sarr", sl), mkAdd(call("soff", sl), mkInt(int64(n))))
		n++
		var y *Term
		switch {
		case f[i] == 's' && x.kind == 'a' && x.op == "strAny":
			y = x.args[0]
		case f[i] == 'd' && x.kind == 'a' && x.op == "intAny":
			y = call("itoa", x.args[1])
		default:
			y = freshConst("fmt", "Str")
		}
		parts = append(parts, mkStr(lit), y)
		lit = ""
	}
	out := mkStr(lit)
	for i := len(parts) - 1; i >= 0; i-- {
		out = strCat(parts[i], out)
	}
	if ln := call("slen_", sl); ln.iv == nil || ln.iv.Int64() != int64(n) {
		return nil
	}
	return out
}
