package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Sorts: Int (integers and references), Bool, Str, F64, Any, Slice and arrays of these.

const modPath = "github.com/IfanTsai/metis"

func init() {
	ctors["mkslice"] = "Slice"
	declFun("mkslice", "Slice", "Int", "Int", "Int", "Int")
	for i, n := range []string{"sarr", "soff", "slen_", "scap"} {
		declFun(n, "Int", "Slice")
		selectors[n] = selInfo{"mkslice", i}
	}
	type c struct {
		name string
		sel  []string
		s    []string
	}
	for _, x := range []c{
		{"nilAny", nil, nil},
		{"strAny", []string{"anyStr"}, []string{"Str"}},
		{"intAny", []string{"anyIntTag", "anyInt"}, []string{"Int", "Int"}},
		{"fltAny", []string{"anyFlt"}, []string{"F64"}},
		{"boolAny", []string{"anyBool"}, []string{"Bool"}},
		{"refAny", []string{"anyRefTag", "anyRef"}, []string{"Int", "Int"}},
		{"sliceAny", []string{"anySliceTag", "anySlice"}, []string{"Int", "Slice"}},
		{"otherAny", []string{"anyOtherTag", "anyOther"}, []string{"Int", "Int"}},
	} {
		ctors[x.name] = "Any"
		declFun(x.name, "Any", x.s...)
		for i, n := range x.sel {
			declFun(n, x.s[i], "Any")
			selectors[n] = selInfo{x.name, i}
		}
		declFun("is-"+x.name, "Bool", "Any")
	}
	nilSlice = mkSlice(mkInt(0), mkInt(0), mkInt(0), mkInt(0))
	declFun("birth", "Int", "Int")
	declFun("subref", "Int", "Int", "Int")
	declFun("subof", "Int", "Int")
	declFun("subidx", "Int", "Int")
	declFun("slen", "Int", "Str")
	declFun("sat", "Int", "Str", "Int")
	declFun("sbytes", "(Array Int Int)", "Str")
	declFun("scat", "Str", "Str", "Str")
	declFun("ssub", "Str", "Str", "Int", "Int")
	declFun("mkstr", "Str", "(Array Int Int)", "Int", "Int")
	declFun("itoa", "Str", "Int")
	declFun("atoiv", "Int", "Str")
	declFun("strlt", "Bool", "Str", "Str")
	declFun("bitand", "Int", "Int", "Int")
	declFun("bitor", "Int", "Int", "Int")
	declFun("bitxor", "Int", "Int", "Int")
	declFun("bitandnot", "Int", "Int", "Int")
	declFun("shl", "Int", "Int", "Int")
	declFun("shr", "Int", "Int", "Int")
	declFun("fnan", "Bool", "F64")
	declFun("frank", "Real", "F64")
	declFun("fop", "F64", "Int", "F64", "F64")
	declFun("i2f", "F64", "Int")
	declFun("f2i", "Int", "F64")
	declFun("sdiff", "Int", "Str", "Str")
	declFun("srank", "Real", "Str")
	declFun("strof", "Str", "Real")
	declFun("litid", "Int", "Str")
	declFun("wrap", "Int", "Int", "Int", "Int") // value, low, high of the machine type
}

func isCtor(name string, a *Term) *Term {
	if c, ok := ctorOf(a); ok {
		return mkBool(c == name)
	}
	if a.kind == 'a' && a.op == "ite" {
		return mkIte(a.args[0], isCtor(name, a.args[1]), isCtor(name, a.args[2]))
	}
	return app("is-"+name, "Bool", a)
}

var nilAny = app("nilAny", "Any")

func mkSlice(arr, off, ln, cp *Term) *Term { return call("mkslice", arr, off, ln, cp) }

var nilSlice *Term

// string literals
var strLits = map[string]*Term{}
var litOf = map[*Term]string{}

func mkStr(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	n := len(strLits)
	name := fmt.Sprintf("lit:str!%d", n)
	if s == "" {
		name = "str!empty"
	}
	t := mkConst(name, "Str")
	strLits[s] = t
	litOf[t] = s
	return t
}

func isStrLit(t *Term) bool { _, ok := litOf[t]; return ok }

// float literals
var fltLits = map[string]*Term{}
var fltVal = map[*Term]string{}

func mkFlt(real string, nan bool) *Term {
	k := real
	if t, ok := fltLits[k]; ok {
		return t
	}
	t := mkConst(fmt.Sprintf("lit:flt!%d", len(fltLits)), "F64")
	fltLits[k] = t
	fltVal[t] = real
	return t
}

func tstr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func under(t types.Type) types.Type { return t.Underlying() }

func isOpaque(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
	}
	return false
}

func isStruct(t types.Type) bool {
	if isOpaque(t) {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}

func isArray(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }

func sortOf(t types.Type) string {
	if isOpaque(t) {
		return "Int"
	}
	switch u := under(t).(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsString != 0:
			return "Str"
		case i&types.IsFloat != 0:
			return "F64"
		}
		return "Int"
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Any"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return arrSort("Int", sortOf(u.Elem()))
	case *types.TypeParam:
		panic(unsupported("type parameter " + t.String()))
	}
	panic(unsupported("no sort for " + t.String()))
}

type unsupportedErr string

func unsupported(s string) unsupportedErr { return unsupportedErr(s) }

// type tags for dynamic types
var tags = map[string]int64{}
var tagNames []string

func tagOf(t types.Type) *Term {
	k := tstr(t)
	if _, ok := tags[k]; !ok {
		tags[k] = int64(len(tags) + 1)
		tagNames = append(tagNames, k)
	}
	return mkInt(tags[k])
}

// toAny wraps a value of static type t into an interface value.
func toAny(v *Term, t types.Type) *Term {
	if isOpaque(t) {
		return call("otherAny", tagOf(t), v)
	}
	switch u := under(t).(type) {
	case *types.Interface:
		return v
	case *types.Basic:
		named := false
		if _, ok := t.(*types.Named); ok {
			named = true
		}
		switch {
		case u.Info()&types.IsString != 0 && !named:
			return call("strAny", v)
		case u.Info()&types.IsFloat != 0 && !named:
			return call("fltAny", v)
		case u.Info()&types.IsBoolean != 0 && !named:
			return call("boolAny", v)
		case u.Info()&types.IsInteger != 0:
			return call("intAny", tagOf(t), v)
		case u.Kind() == types.UntypedNil:
			return nilAny
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return call("refAny", tagOf(t), v)
	case *types.Slice:
		return call("sliceAny", tagOf(t), v)
	}
	return call("otherAny", tagOf(t), freshConst("boxed", "Int"))
}

// anyIs tells whether an interface value holds concrete type t; anyGet extracts it.
func anyIs(a *Term, t types.Type) *Term {
	tagged := func(ctor, sel string) *Term {
		return mkAnd(isCtor(ctor, a), mkEq(call(sel, a), tagOf(t)))
	}
	if isOpaque(t) {
		return tagged("otherAny", "anyOtherTag")
	}
	switch u := under(t).(type) {
	case *types.Basic:
		_, named := t.(*types.Named)
		switch {
		case u.Info()&types.IsString != 0 && !named:
			return isCtor("strAny", a)
		case u.Info()&types.IsFloat != 0 && !named:
			return isCtor("fltAny", a)
		case u.Info()&types.IsBoolean != 0 && !named:
			return isCtor("boolAny", a)
		case u.Info()&types.IsInteger != 0:
			return tagged("intAny", "anyIntTag")
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return tagged("refAny", "anyRefTag")
	case *types.Slice:
		return tagged("sliceAny", "anySliceTag")
	}
	return tagged("otherAny", "anyOtherTag")
}

func anyGet(a *Term, t types.Type) *Term {
	if isOpaque(t) {
		return call("anyOther", a)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		_, named := t.(*types.Named)
		switch {
		case u.Info()&types.IsString != 0 && !named:
			return call("anyStr", a)
		case u.Info()&types.IsFloat != 0 && !named:
			return call("anyFlt", a)
		case u.Info()&types.IsBoolean != 0 && !named:
			return call("anyBool", a)
		case u.Info()&types.IsInteger != 0:
			return call("anyInt", a)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return call("anyRef", a)
	case *types.Slice:
		return call("anySlice", a)
	}
	panic(unsupported("type assertion to " + t.String()))
}

func zeroOf(t types.Type) *Term {
	if isOpaque(t) {
		return mkInt(0)
	}
	switch u := under(t).(type) {
	case *types.Array:
		return mkConstArr(sortOf(t), zeroOf(u.Elem()))
	}
	return zeroSort(sortOf(t))
}

func zeroSort(s string) *Term {
	switch s {
	case "Int":
		return mkInt(0)
	case "Bool":
		return tFalse
	case "Str":
		return mkStr("")
	case "F64":
		return mkFlt("0.0", false)
	case "Any":
		return nilAny
	case "Slice":
		return nilSlice
	}
	_, v := splitArr(s)
	return mkConstArr(s, zeroSort(v))
}

func structName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n := strings.ReplaceAll(tstr(t), " ", "")
	if nt, ok := t.(*types.Named); ok && curPart != "" && nt.Obj().Pkg() != nil && partPkgs[nt.Obj().Pkg().Path()] {
		n += "@" + curPart
	}
	return n
}

// A group may keep its own copies of the components of a package's structs, which its functions see
// instead of the common ones: no object of these structs passes between the group and other code.
var (
	curPart    string
	partPkgs   = map[string]bool{}
	partGroups = map[string]bool{}
)

func setPart(group string) func() {
	old := curPart
	curPart = ""
	if partGroups[group] {
		curPart = group
	}
	return func() { curPart = old }
}

// Slices of a type declared with ownelems hold elements no slice of another type shares.
var ownElems = map[string]*types.Named{}

func ownedSlice(t types.Type) bool {
	_, ok := ownElems[tstr(t)]
	return ok
}

func sliceElem(t types.Type) types.Type {
	et := under(t).(*types.Slice).Elem()
	if len(ownElems) == 0 {
		return et
	}
	n, ok := ownElems[tstr(t)]
	if !ok {
		return et
	}
	if n == nil {
		nt := t.(*types.Named)
		n = types.NewNamed(types.NewTypeName(0, nt.Obj().Pkg(), nt.Obj().Name()+".elem", nil), under(et), nil)
		ownElems[tstr(t)] = n
	}
	return n
}

// components of the heap
type comp struct {
	name  string
	keys  int // 1: by reference, 2: by array reference and index, 0: a global
	sort  string
	typ   types.Type // of the value, nil for ghost maps
	gho   bool
	g     *stype     // ghost type
	owner types.Type // the struct of a field
	mval  *types.Map // the values of maps of this type
}

func (c *comp) heapSort() string {
	s := c.sort
	for i := 0; i < c.keys; i++ {
		s = arrSort("Int", s)
	}
	return s
}

var comps = map[string]*comp{}

func getComp(name string, keys int, sort string, typ types.Type) *comp {
	if c, ok := comps[name]; ok {
		return c
	}
	c := &comp{name: name, keys: keys, sort: sort, typ: typ}
	comps[name] = c
	return c
}

func fieldComp(st types.Type, path string, ft types.Type) *comp {
	c := getComp(structName(st)+"."+path, 1, sortOf(ft), ft)
	if c.owner == nil {
		if p, ok := st.(*types.Pointer); ok {
			st = p.Elem()
		}
		c.owner = st
	}
	return c
}

func elemComp(et types.Type) *comp {
	return getComp("elem:"+elemKey(et), 2, sortOf(et), et)
}

// elemKey: slices of types with the same sort but different names are kept apart.
func elemKey(et types.Type) string { return strings.ReplaceAll(tstr(et), " ", "") }

func elemFieldComp(st types.Type, path string, ft types.Type) *comp {
	return getComp("elem:"+structName(st)+"."+path, 2, sortOf(ft), ft)
}

func boxComp(t types.Type) *comp {
	return getComp("box:"+elemKey(t), 1, sortOf(t), t)
}

func globComp(name string, t types.Type) *comp {
	return getComp("glob:"+name, 0, sortOf(t), t)
}

func mapDomComp(m *types.Map) *comp {
	return getComp("mapdom:"+elemKey(m.Key())+":"+elemKey(m.Elem()), 1, arrSort(sortOf(m.Key()), "Bool"), nil)
}

func mapValComp(m *types.Map) *comp {
	c := getComp("mapval:"+elemKey(m.Key())+":"+elemKey(m.Elem()), 1, arrSort(sortOf(m.Key()), sortOf(m.Elem())), nil)
	c.mval = m
	return c
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := under(t).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil
	}
	one := big.NewInt(1)
	p := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch b.Kind() {
	case types.Int8:
		return new(big.Int).Neg(p(7)), new(big.Int).Sub(p(7), one)
	case types.Int16:
		return new(big.Int).Neg(p(15)), new(big.Int).Sub(p(15), one)
	case types.Int32, types.UntypedRune:
		return new(big.Int).Neg(p(31)), new(big.Int).Sub(p(31), one)
	case types.Uint8:
		return big.NewInt(0), new(big.Int).Sub(p(8), one)
	case types.Uint16:
		return big.NewInt(0), new(big.Int).Sub(p(16), one)
	case types.Uint32:
		return big.NewInt(0), new(big.Int).Sub(p(32), one)
	case types.Uint, types.Uint64, types.Uintptr:
		return big.NewInt(0), new(big.Int).Sub(p(64), one)
	}
	return new(big.Int).Neg(p(63)), new(big.Int).Sub(p(63), one)
}
