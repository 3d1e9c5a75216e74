package absint

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (a *Analyzer) newSym() Sym {
	a.nextSym++
	return a.nextSym
}

func (a *Analyzer) newObjID() int {
	a.nextObj++
	return a.nextObj
}

// gfact creates a symbol whose facts never change.
func (a *Analyzer) gfact(f *Fact) V {
	s := a.newSym()
	a.gfacts[s] = f
	return V{s, 0}
}

func (a *Analyzer) strConst(s string) V {
	if v, ok := a.gstr[s]; ok {
		return v
	}
	v := a.gfact(&Fact{kind: KStr, typ: types.Typ[types.String], con: true, str: s, ln: C(int64(len(s))), parts: []Part{{Kind: 'c', Str: s}}})
	if s == "" {
		a.gfacts[v.S].parts = nil
	}
	a.gstr[s] = v
	return v
}

func kindOf(t types.Type) Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return KBool
		case u.Info()&types.IsInteger != 0:
			return KInt
		case u.Info()&types.IsString != 0:
			return KStr
		case u.Info()&types.IsFloat != 0:
			return KFloat
		case u.Kind() == types.UnsafePointer:
			return KOther
		case u.Kind() == types.UntypedNil:
			return KPtr
		}
	case *types.Pointer:
		return KPtr
	case *types.Interface:
		return KIface
	case *types.Slice:
		return KSlice
	case *types.Map:
		return KMap
	case *types.Signature:
		return KFunc
	case *types.Struct:
		return KStruct
	case *types.Array:
		return KArray
	case *types.Tuple:
		return KTuple
	case *types.TypeParam:
		return KOther
	}
	return KOther
}

func (a *Analyzer) nilV(t types.Type) V {
	k := kindOf(t)
	if v, ok := a.gnil[k]; ok {
		return v
	}
	f := &Fact{kind: k, typ: t, nil3: mayNil}
	if k == KSlice {
		f.ln = C(0)
		f.cap = C(0)
		f.lo = C(0)
	}
	v := a.gfact(f)
	a.gnil[k] = v
	return v
}

// zeroV is the zero value of a type.
func (st *State) zeroV(t types.Type) V {
	switch k := kindOf(t); k {
	case KInt, KBool:
		return C(0)
	case KStr:
		return st.a.strConst("")
	case KFloat:
		return st.a.floatConst(0)
	case KPtr, KIface, KSlice, KMap, KFunc:
		return st.a.nilV(t)
	case KStruct:
		return st.fresh(&Fact{kind: KStruct, typ: t, elems: make([]V, t.Underlying().(*types.Struct).NumFields()), zero: true})
	case KArray:
		n := t.Underlying().(*types.Array).Len()
		return st.fresh(&Fact{kind: KArray, typ: t, defK: defZero, ln: C(n)})
	default:
		return st.fresh(&Fact{kind: k, typ: t, nil3: mayNil})
	}
}

func (a *Analyzer) floatConst(f float64) V {
	if v, ok := a.gfloat[f]; ok {
		return v
	}
	v := a.gfact(&Fact{kind: KFloat, con: true, str: constant.MakeFloat64(f).ExactString()})
	a.gfloat[f] = v
	return v
}

// havocV is an unknown value of a type.
func (st *State) havocV(t types.Type) V {
	if st.a.Havoc != nil {
		if v := st.a.Havoc(st, t); !v.undef() {
			return v
		}
	}
	switch k := kindOf(t); k {
	case KInt:
		return st.freshInt(t, typeRange(t))
	case KBool:
		return st.fresh(&Fact{kind: KBool, typ: t, set: setRange(0, 1)})
	case KStr:
		return st.havocStr()
	case KFloat:
		return st.fresh(&Fact{kind: KFloat, typ: t})
	case KPtr, KMap, KIface, KFunc:
		return st.fresh(&Fact{kind: k, typ: t, nil3: 3, opq: true})
	case KSlice:
		return st.havocSlice(t)
	case KStruct:
		return st.fresh(&Fact{kind: KStruct, typ: t, elems: make([]V, t.Underlying().(*types.Struct).NumFields())})
	case KArray:
		return st.fresh(&Fact{kind: KArray, typ: t, defK: defHavoc, ln: C(t.Underlying().(*types.Array).Len())})
	case KTuple:
		tt := t.(*types.Tuple)
		e := make([]V, tt.Len())
		for i := range e {
			e[i] = st.havocV(tt.At(i).Type())
		}
		return st.fresh(&Fact{kind: KTuple, typ: t, elems: e})
	default:
		return st.fresh(&Fact{kind: k, typ: t, nil3: 3, opq: true})
	}
}

func (st *State) havocStr() V {
	return st.fresh(&Fact{kind: KStr, typ: types.Typ[types.String], ln: st.freshLen(), parts: nil, opq: true})
}

func (st *State) havocSlice(t types.Type) V {
	et := t.Underlying().(*types.Slice).Elem()
	ln := st.freshLen()
	cp := st.freshLen()
	st.addLE(ln, cp, 0)
	root := st.fresh(&Fact{kind: KArray, typ: et, defK: defHavoc, ln: cp})
	o := st.newObj(et, "unknown", root)
	o2 := *o
	o2.lazy = true
	st.setObj(&o2)
	arr := st.ptrTo(o.id, nil)
	return st.fresh(&Fact{kind: KSlice, typ: t, nil3: 3, arr: arr, lo: C(0), ln: ln, cap: cp})
}

// newSlice makes a slice over a fresh array.
func (st *State) newSlice(t types.Type, root *Fact, ln, cp V, site string) V {
	o := st.newObj(root.typ, site, st.fresh(root))
	arr := st.ptrTo(o.id, nil)
	return st.fresh(&Fact{kind: KSlice, typ: t, nil3: mayNon, arr: arr, lo: C(0), ln: ln, cap: cp})
}

func (a *Analyzer) constV(st *State, c *ssa.Const) V {
	if c.Value == nil {
		t := c.Type()
		if k := kindOf(t); k == KStruct || k == KArray || k == KInt || k == KBool || k == KStr || k == KFloat {
			return st.zeroV(t)
		}
		return a.nilV(t)
	}
	switch kindOf(c.Type()) {
	case KInt:
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return C(v)
		}
		return st.freshInt(c.Type(), typeRange(c.Type()))
	case KBool:
		if constant.BoolVal(c.Value) {
			return C(1)
		}
		return C(0)
	case KStr:
		if c.Value.Kind() == constant.String {
			return a.strConst(constant.StringVal(c.Value))
		}
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		return a.floatConst(f)
	}
	return st.havocV(c.Type())
}

// elem returns part i of a struct or tuple, creating it on demand.
func (st *State) elem(v V, i int) V {
	f := st.f(v)
	if i < len(f.elems) && !f.elems[i].undef() {
		return f.elems[i]
	}
	var t types.Type
	switch u := f.typ.Underlying().(type) {
	case *types.Struct:
		t = u.Field(i).Type()
	case *types.Tuple:
		t = u.At(i).Type()
	default:
		panic("elem of " + f.typ.String())
	}
	var e V
	if f.zero {
		e = st.zeroV(t)
	} else if st.a.HavocField != nil {
		e = st.a.HavocField(st, f.typ, i)
	}
	if e.undef() {
		e = st.havocV(t)
	}
	nf := st.f(v).clone()
	nf.elems = append([]V(nil), nf.elems...)
	for len(nf.elems) <= i {
		nf.elems = append(nf.elems, V{})
	}
	nf.elems[i] = e
	if _, glob := st.a.gfacts[v.S]; !glob {
		st.setFact(v.S, nf)
	}
	return e
}

// withElem is a copy of struct value v with part i replaced.
func (st *State) withElem(v V, i int, e V) V {
	nf := st.f(v).clone()
	nf.elems = append([]V(nil), nf.elems...)
	for len(nf.elems) <= i {
		nf.elems = append(nf.elems, V{})
	}
	nf.elems[i] = e
	return st.fresh(nf)
}

// copyV gives a value read from a summary its own identity.
func (st *State) copyV(v V) V {
	if v.undef() || v.S == zeroSym {
		return v
	}
	f := st.f(v)
	if _, ok := st.a.gfacts[v.S]; ok {
		return v
	}
	nf := f.clone()
	switch f.kind {
	case KInt:
		nf.set = st.setOf(v)
		nf.def = nil
	case KStruct, KTuple:
		nf.elems = make([]V, len(f.elems))
		for i, e := range f.elems {
			nf.elems[i] = st.copyV(e)
		}
	case KIface:
		nf.alts = make([]Alt, len(f.alts))
		for i, al := range f.alts {
			nf.alts[i] = Alt{al.T, st.copyV(al.P)}
		}
	case KArray, KMapC:
		return v
	}
	return st.fresh(nf)
}

// mergeV is a value that may be either of two values of the same state.
func (st *State) mergeV(x, y V) V {
	if x == y || y.undef() {
		return x
	}
	if x.undef() {
		return y
	}
	var fx, fy *Fact
	if x.S == zeroSym && y.S == zeroSym || st.f(x).kind == KInt || st.f(x).kind == KBool {
		fx = st.a.gfacts[zeroSym]
		if x.S != zeroSym {
			fx = st.f(x)
		} else if y.S != zeroSym {
			fx = st.f(y)
		}
		k := fx.kind
		n := &Fact{kind: k, typ: fx.typ, set: st.setOf(x).union(st.setOf(y)), z: fx.z}
		if c, ok := n.set.isConst(); ok {
			return C(c)
		}
		return st.fresh(n)
	}
	fx, fy = st.f(x), st.f(y)
	if fx.kind != fy.kind {
		return st.fresh(&Fact{kind: fx.kind, typ: fx.typ, nil3: 3, opq: true})
	}
	n := &Fact{kind: fx.kind, typ: fx.typ, nil3: fx.nil3 | fy.nil3, opq: fx.opq || fy.opq}
	switch fx.kind {
	case KStr:
		if fx.con && fy.con && fx.str == fy.str {
			return x
		}
		n.ln = st.mergeV(st.strLen(x), st.strLen(y))
		n.opq = true
	case KPtr, KMap:
		n.tg = append([]Target(nil), fx.tg...)
		for _, t := range fy.tg {
			if !hasTarget(n.tg, t) {
				n.tg = append(n.tg, t)
			}
		}
	case KIface:
		n.not = meetNot(fx, fy)
		for _, al := range fx.alts {
			n.alts = append(n.alts, al)
		}
	alts:
		for _, al := range fy.alts {
			for i, o := range n.alts {
				if types.Identical(o.T, al.T) {
					n.alts[i].P = st.mergeV(o.P, al.P)
					continue alts
				}
			}
			n.alts = append(n.alts, al)
		}
	case KFunc:
		n.fns = append([]FnAlt(nil), fx.fns...)
	fns:
		for _, g := range fy.fns {
			for i, o := range n.fns {
				if o.Fn == g.Fn {
					nb := make([]V, len(o.Binds))
					for j := range nb {
						nb[j] = st.mergeV(o.Binds[j], g.Binds[j])
					}
					n.fns[i] = FnAlt{o.Fn, nb}
					continue fns
				}
			}
			n.fns = append(n.fns, g)
		}
	case KStruct, KTuple:
		m := len(fx.elems)
		if len(fy.elems) > m {
			m = len(fy.elems)
		}
		n.elems = make([]V, m)
		if fx.typ != nil && fx.typ.Underlying() != nil {
			for i := 0; i < m; i++ {
				n.elems[i] = st.mergeV(st.elem(x, i), st.elem(y, i))
			}
		}
	case KSlice:
		n.lo = st.mergeV(orC(fx.lo), orC(fy.lo))
		n.ln = st.mergeV(orC(fx.ln), orC(fy.ln))
		n.cap = st.mergeV(orC(fx.cap), orC(fy.cap))
		n.arr = st.mergeV(fx.arr, fy.arr)
	case KFloat:
	default:
	}
	return st.fresh(n)
}

func orC(v V) V {
	if v.undef() {
		return C(0)
	}
	return v
}

func meetNot(x, y *Fact) []types.Type {
	var out []types.Type
	for _, t := range x.not {
		for _, u := range y.not {
			if types.Identical(t, u) {
				out = append(out, t)
			}
		}
	}
	return out
}

func hasTarget(l []Target, t Target) bool {
	for _, o := range l {
		if sameTarget(o, t) {
			return true
		}
	}
	return false
}

func sameTarget(o, t Target) bool {
	if o.Obj != t.Obj || len(o.Path) != len(t.Path) {
		return false
	}
	for i := range o.Path {
		if o.Path[i] != t.Path[i] {
			return false
		}
	}
	return true
}

// ---- memory ----

func (st *State) loadPath(v V, path []Step, weak bool) V {
	for _, s := range path {
		if s.Field >= 0 {
			v = st.elem(v, s.Field)
		} else {
			v = st.arrGet(v, s.Idx)
		}
	}
	return v
}

// loadTarget reads memory.
func (st *State) loadTarget(t Target) V {
	o := st.obj(t.Obj)
	v := o.root
	for _, s := range t.Path {
		if s.Field >= 0 {
			v = st.elem(v, s.Field)
		} else {
			nv := st.arrGet(v, s.Idx)
			v = nv
		}
	}
	if o.summary {
		return st.copyV(v)
	}
	return v
}

func (st *State) storePath(root V, path []Step, val V, weak bool) V {
	if len(path) == 0 {
		if weak {
			return st.mergeV(root, val)
		}
		return val
	}
	s := path[0]
	if s.Field >= 0 {
		old := st.elem(root, s.Field)
		return st.withElem(root, s.Field, st.storePath(old, path[1:], val, weak))
	}
	if len(path) == 1 {
		return st.arrSet(root, s.Idx, val, weak)
	}
	old := st.arrGet(root, s.Idx)
	return st.arrSet(root, s.Idx, st.storePath(old, path[1:], val, weak), weak)
}

// storeTarget writes memory.
func (st *State) storeTarget(t Target, val V) {
	o := st.obj(t.Obj)
	nr := st.storePath(o.root, t.Path, val, o.summary)
	st.setRoot(o.id, nr)
	if o.lazy { // other unknown objects of the type may be the same one
		st.heap.each(func(id int, p *Object) {
			if id != o.id && p.typ != nil && o.typ != nil && types.Identical(p.typ, o.typ) && (p.lazy || p.summary) {
				st.setRoot(id, st.storePath(st.obj(id).root, t.Path, val, true))
			}
		})
	}
}

// arrGet reads an element of array contents.
func (st *State) arrGet(arr V, idx V) V {
	f := st.f(arr)
	var may []V
	for _, m := range f.memo {
		switch st.cmpIdx(m.Idx, idx) {
		case 1:
			return m.Val
		case -1:
			may = append(may, m.Val)
		}
	}
	et := elemType(f.typ)
	var d V
	memoize := len(may) == 0
	switch f.defK {
	case defZero:
		d = st.zeroV(et)
		memoize = memoize && kindOf(et) == KStruct
	case defSum:
		d = st.copyV(f.dflt)
	case defNone:
	default:
		if st.a.HavocElem != nil {
			d = st.a.HavocElem(st, et)
		}
		if d.undef() {
			d = st.havocV(et)
		}
	}
	for _, m := range may {
		d = st.mergeV(d, m)
	}
	if d.undef() {
		d = st.havocV(et)
	}
	if (memoize || st.a.MemoMay && f.defK == defHavoc) && len(f.memo) < 64 {
		nf := st.f(arr).clone()
		nf.memo = append(append([]Memo(nil), nf.memo...), Memo{idx, d})
		st.setFact(arr.S, nf)
	}
	return d
}

func elemType(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Array:
		return u.Elem()
	}
	if u, ok := t.Underlying().(*types.Array); ok {
		return u.Elem()
	}
	return t
}

func (st *State) cmpIdx(a, b V) int {
	if a == b {
		return 1
	}
	u, l := st.ub(a, b), st.lb(a, b)
	if u == 0 && l == 0 {
		return 1
	}
	if u < 0 || l > 0 {
		return 0
	}
	if k, ok := st.constOf(a); ok && !st.setOf(b).has(k) {
		return 0
	}
	if k, ok := st.constOf(b); ok && !st.setOf(a).has(k) {
		return 0
	}
	return -1
}

// arrSet is array contents with one element replaced.
func (st *State) arrSet(arr V, idx, val V, weak bool) V {
	nf := st.f(arr).clone()
	old := nf.memo
	nf.memo = nil
	if weak {
		for _, m := range old {
			if st.cmpIdx(m.Idx, idx) != 0 {
				m.Val = st.mergeV(m.Val, val)
			}
			nf.memo = append(nf.memo, m)
		}
		nf = st.weakDefault(nf, val)
		return st.fresh(nf)
	}
	for _, m := range old {
		switch st.cmpIdx(m.Idx, idx) {
		case 1:
			continue
		case -1:
			m.Val = st.mergeV(m.Val, val)
		}
		nf.memo = append(nf.memo, m)
	}
	nf.memo = append(nf.memo, Memo{idx, val})
	if len(nf.memo) > 400 {
		x := nf.memo[0]
		nf.memo = nf.memo[1:]
		nf = st.weakDefault(nf, x.Val)
	}
	return st.fresh(nf)
}

func (st *State) weakDefault(nf *Fact, val V) *Fact {
	switch nf.defK {
	case defZero:
		nf.dflt = st.mergeV(st.zeroV(elemType(nf.typ)), val)
		nf.defK = defSum
	case defSum:
		nf.dflt = st.mergeV(nf.dflt, val)
	case defNone:
		nf.dflt = val
		nf.defK = defSum
	}
	return nf
}

// allElems merges everything an array may hold.
func (st *State) allElems(arr V) V {
	f := st.f(arr)
	var d V
	switch f.defK {
	case defZero:
		d = st.zeroV(elemType(f.typ))
	case defSum:
		d = f.dflt
	case defHavoc:
		return st.havocV(elemType(f.typ))
	}
	for _, m := range f.memo {
		d = st.mergeV(d, m.Val)
	}
	return d
}

// ---- strings ----

func (st *State) strLen(v V) V {
	f := st.f(v)
	if f.con {
		return C(int64(len(f.str)))
	}
	if f.ln.undef() {
		nf := f.clone()
		nf.ln = st.freshLen()
		st.setFact(v.S, nf)
		return nf.ln
	}
	return f.ln
}

func (st *State) strParts(v V) []Part {
	f := st.f(v)
	if f.con {
		if f.str == "" {
			return nil
		}
		return []Part{{Kind: 'c', Str: f.str}}
	}
	if len(f.parts) > 0 {
		return f.parts
	}
	return []Part{{Kind: 'u', U: v}}
}

// rawParts prefers the provenance of a string to its constant value.
func (st *State) rawParts(v V) []Part {
	if f := st.f(v); len(f.parts) > 0 {
		return f.parts
	}
	return st.strParts(v)
}

func (st *State) strFromParts(ps []Part) V {
	var out []Part
	for _, p := range ps {
		if p.Kind == 'r' {
			if k, ok := st.constOf(p.R); ok {
				p = Part{Kind: 'c', Str: string(rune(k))}
			}
		}
		if p.Kind == 'c' && p.Str == "" {
			continue
		}
		if n := len(out); n > 0 && p.Kind == 'c' && out[n-1].Kind == 'c' {
			out[n-1].Str += p.Str
			continue
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return st.a.strConst("")
	}
	if len(out) == 1 && out[0].Kind == 'c' {
		return st.a.strConst(out[0].Str)
	}
	if len(out) == 1 && out[0].Kind == 'u' {
		return out[0].U
	}
	ln := C(0)
	for _, p := range out {
		ln = st.addV(ln, st.partLen(p), intType)
	}
	return st.fresh(&Fact{kind: KStr, typ: types.Typ[types.String], parts: out, ln: ln})
}

func (st *State) partLen(p Part) V {
	switch p.Kind {
	case 'c':
		return C(int64(len(p.Str)))
	case 's':
		return st.subV(p.Hi, p.Lo, intType)
	case 'r':
		s := st.setOf(p.R)
		if !s.empty() && s.min() >= 0 && s.max() < 128 {
			return C(1)
		}
		return st.freshInt(intType, setRange(1, 4))
	case 'u':
		return st.strLen(p.U)
	}
	return st.freshLen()
}

func (st *State) constStr(v V) (string, bool) {
	f := st.fact(v.S)
	if f == nil || f.kind != KStr || !f.con {
		return "", false
	}
	return f.str, true
}

// setStrConst refines a string to a constant.
func (st *State) setStrConst(v V, s string) bool {
	f := st.f(v)
	if f.con {
		if f.str != s {
			st.dead = true
			return false
		}
		return true
	}
	for _, n := range f.strNe {
		if n == s {
			st.dead = true
			return false
		}
	}
	if f.strSet != nil && !hasStr(f.strSet, s) {
		st.dead = true
		return false
	}
	if l := f.ln; !l.undef() && !st.assumeEq(l, C(int64(len(s)))) {
		return false
	}
	for _, m := range f.memo {
		if k, ok := st.constOf(m.Idx); ok && k < int64(len(s)) {
			if !st.assumeEq(m.Val, C(int64(s[k]))) {
				return false
			}
		}
	}
	rest, open, one := int64(len(s)), -1, st.a.GCText
	for i, p := range f.parts {
		if p.Kind == 's' && open < 0 {
			open = i
			continue
		}
		n, ok := st.constOf(st.partLen(p))
		one = one && ok
		rest -= n
	}
	if one && open >= 0 {
		if p := f.parts[open]; rest < 0 || !st.assumeEq(p.Hi, st.addV(p.Lo, C(rest), intType)) {
			st.dead = true
			return false
		}
	}
	nf := st.f(v).clone()
	nf.con = true
	nf.str = s
	nf.opq = false
	nf.strSet = nil
	st.setFact(v.S, nf)
	if !f.strIdx.undef() {
		st.restrictIdx(f.strIdx, f.strTab, func(x string) bool { return x == s })
	}
	return !st.dead
}

// strEq decides x == y: 1, 0 or -1.
func (st *State) strEq(x, y V) int {
	if x == y {
		return 1
	}
	fx, fy := st.f(x), st.f(y)
	if fx.con && fy.con {
		if fx.str == fy.str {
			return 1
		}
		return 0
	}
	if fx.con {
		fx, fy = fy, fx
		x, y = y, x
	}
	if fy.con {
		for _, n := range fx.strNe {
			if n == fy.str {
				return 0
			}
		}
		if !fx.ln.undef() && st.cmpInt(token.EQL, fx.ln, C(int64(len(fy.str)))) == 0 {
			return 0
		}
		if len(fx.parts) > 0 && fx.parts[0].Kind == 'c' && !strings.HasPrefix(fy.str, fx.parts[0].Str) {
			return 0
		}
		if n := len(fx.parts); n > 0 && fx.parts[n-1].Kind == 'c' && !strings.HasSuffix(fy.str, fx.parts[n-1].Str) {
			return 0
		}
		for _, m := range fx.memo {
			if k, ok := st.constOf(m.Idx); ok && k < int64(len(fy.str)) && !st.setOf(m.Val).has(int64(fy.str[k])) {
				return 0
			}
		}
	}
	px, py := st.strParts(x), st.strParts(y)
	if len(px) == len(py) && len(px) > 0 {
		same := true
		for i := range px {
			if px[i] != py[i] {
				same = false
			}
		}
		if same {
			return 1
		}
	}
	if fx.tag != "" && fy.tag != "" && fx.tag != fy.tag {
		return 0
	}
	if ls, rs := strAlts(fx), strAlts(fy); ls != nil && rs != nil {
		over := false
		for _, a := range ls {
			over = over || hasStr(rs, a)
		}
		if !over {
			return 0
		}
	}
	return -1
}

func (st *State) assumeStr(eq bool, x, y V) bool {
	fx, fy := st.f(x), st.f(y)
	if fx.con {
		fx, fy = fy, fx
		x, y = y, x
	}
	if eq {
		if fy.con {
			return st.setStrConst(x, fy.str)
		}
		return true
	}
	if fy.con && !fx.con {
		nf := st.f(x).clone()
		nf.strNe = append(append([]string(nil), nf.strNe...), fy.str)
		if nf.strSet != nil {
			var ns []string
			for _, a := range nf.strSet {
				if a != fy.str {
					ns = append(ns, a)
				}
			}
			if len(ns) == 0 {
				st.dead = true
				return false
			}
			nf.strSet = ns
		}
		st.setFact(x.S, nf)
		if !nf.strIdx.undef() {
			c := fy.str
			st.restrictIdx(nf.strIdx, nf.strTab, func(s string) bool { return s != c })
			if st.dead {
				return false
			}
		}
		if fy.str == "" && !nf.ln.undef() {
			return st.addLE(C(1), nf.ln, 0)
		}
	}
	return true
}

func runeLen(r rune) int64 {
	n := utf8.RuneLen(r)
	if n < 0 {
		n = 3
	}
	return int64(n)
}

// restrictIdx refines the index a string was taken from.
func (st *State) restrictIdx(idx, tab V, keep func(string) bool) {
	if st.fact(tab.S) == nil || st.fact(idx.S) == nil {
		return
	}
	var out IntSet
	set := st.setOf(idx)
	if set.count() < 0 {
		return
	}
	for _, k := range set.elems() {
		s, ok := st.constStr(st.arrGet(tab, C(k)))
		if !ok || keep(s) {
			out = out.union(setConst(k))
		}
	}
	if out.empty() {
		st.dead = true
		return
	}
	st.meetSet(idx, out)
}
