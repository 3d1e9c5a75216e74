package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *activation) call(st *State, t *ssa.Call) []*State {
	c := t.Common()
	args := make([]V, len(c.Args))
	for i, v := range c.Args {
		args[i] = st.get(v)
	}
	x.a.CallSites[t.Pos()] = true
	if bi, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(st, t, bi, args, t)
	}
	var outs []Outcome
	if c.IsInvoke() {
		outs = x.invoke(st, t, st.get(c.Value), c.Method, args)
	} else {
		outs = x.callValue(st, t, st.get(c.Value), args)
	}
	var res []*State
	for _, o := range outs {
		if o.Panic {
			s := o.St.clone()
			s.panicking = true
			if s.panicV.undef() {
				s.panicV = s.somePanic()
			}
			x.unwind(s)
			continue
		}
		s := o.St.clone()
		r := o.Ret
		if r.undef() {
			if tt, ok := t.Type().(*types.Tuple); ok && tt.Len() == 0 {
				r = C(0)
			} else {
				r = s.havocV(t.Type())
			}
		}
		s.setReg(x.fi, t, r)
		res = append(res, s)
	}
	return res
}

// callValue calls a function value.
func (x *activation) callValue(st *State, in ssa.CallInstruction, fv V, args []V) []Outcome {
	f := st.f(fv)
	if f.nil3&mayNil != 0 {
		x.a.oblige("nilfunc", in, false)
		x.mayPanic(st, in, "call of nil function")
		if f.nil3 == mayNil {
			return nil
		}
		st = st.clone()
		st.assumeNil(fv, false)
		f = st.f(fv)
	}
	var outs []Outcome
	for i, alt := range f.fns {
		s := st
		if len(f.fns) > 1 || f.opq {
			s = st.clone()
			if _, g := x.a.gfacts[fv.S]; !g {
				nf := f.clone()
				nf.opq = false
				nf.fns = []FnAlt{f.fns[i]}
				s.setFact(fv.S, nf)
			}
		}
		os := x.callFn(s, in, alt.Fn, args, alt.Binds)
		outs = append(outs, os...)
	}
	if f.opq {
		sig, _ := in.Common().Value.Type().Underlying().(*types.Signature)
		if sig == nil {
			sig = in.Common().Signature()
		}
		c := &Call{A: x.a, St: st.clone(), Args: args, Instr: in, Sig: sig, Pos: in.Pos()}
		if x.a.UnknownFunc != nil {
			if o, ok := x.a.UnknownFunc(c, fv); ok {
				return append(outs, o...)
			}
		}
		outs = append(outs, c.external("unknown function")...)
	}
	return outs
}

// invoke calls an interface method.
func (x *activation) invoke(st *State, in ssa.CallInstruction, recv V, m *types.Func, args []V) []Outcome {
	f := st.f(recv)
	if f.nil3&mayNil != 0 {
		x.a.oblige("nil", in, false)
		x.mayPanic(st, in, "method "+m.Name()+" called on nil interface")
		if f.nil3 == mayNil {
			return nil
		}
		st = st.clone()
		st.assumeNil(recv, false)
		f = st.f(recv)
	} else {
		x.a.oblige("nil", in, true)
	}
	var outs []Outcome
	for _, al := range f.alts {
		fn := x.a.Prog.LookupMethod(al.T, m.Pkg(), m.Name())
		if fn == nil {
			x.a.fail("no method " + m.Name() + " on " + al.T.String())
		}
		s := st
		if len(f.alts) > 1 || f.opq {
			s = st.clone()
			if _, g := x.a.gfacts[recv.S]; !g {
				nf := f.clone()
				nf.alts = []Alt{al}
				nf.opq = false
				s.setFact(recv.S, nf)
			}
		}
		outs = append(outs, x.callFn(s, in, fn, append([]V{al.P}, args...), nil)...)
	}
	if f.opq {
		c := &Call{A: x.a, St: st.clone(), Args: args, Instr: in, Sig: m.Type().(*types.Signature), Pos: in.Pos()}
		if x.a.UnknownInvoke != nil {
			if o, ok := x.a.UnknownInvoke(c, recv, m); ok {
				return append(outs, o...)
			}
		}
		if sig := m.Type().(*types.Signature); sig.Params().Len() == 0 && sig.Results().Len() == 1 && (m.Name() == "Error" || m.Name() == "String") {
			return append(outs, c.one(c.St.freshStr(0))...)
		}
		outs = append(outs, c.external("method "+m.FullName())...)
	}
	return outs
}

// callFn calls a known function.
func (x *activation) callFn(st *State, in ssa.CallInstruction, fn *ssa.Function, args, binds []V) []Outcome {
	a := x.a
	c := &Call{A: a, St: st.clone(), Fn: fn, Args: args, Instr: in, Sig: fn.Signature, Pos: in.Pos()}
	if a.Intercept != nil {
		if o, ok := a.Intercept(c); ok {
			return o
		}
	}
	name := modelName(fn)
	if m, ok := a.Models[name]; ok {
		return m(c)
	}
	if len(fn.Blocks) == 0 {
		if fn.Name() == "init" && fn.Signature.Recv() == nil {
			return c.one(V{}) // initialisation of a library
		}
		return c.external(name)
	}
	if fn.Synthetic != "" && fn.Pkg == nil && !a.Repo(fn) && strings.HasPrefix(fn.Synthetic, "instance") && !strings.HasPrefix(name, HarnessPath) {
		return c.external(name)
	}
	if a.summarize[fn] {
		return a.callSummary(st, fn, args, binds, in)
	}
	if a.onStack(st, fn) >= a.maxRec() {
		panic(needSummary{fn})
	}
	return a.invokeBody(st, fn, args, binds, in)
}

func (a *Analyzer) maxRec() int {
	if a.InlineRec > 0 {
		return a.InlineRec
	}
	return 1
}

type needSummary struct{ fn *ssa.Function }

func modelName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// external is the default for functions without a model: the results are unknown and
// memory reachable from the arguments is forgotten.
func (c *Call) external(name string) []Outcome {
	st := c.St
	c.A.undecided("external "+name, c.Pos)
	st.setGhost("#ext", C(1))
	for _, v := range c.Args {
		st.forget(v, 0)
	}
	res := c.Sig.Results()
	switch res.Len() {
	case 0:
		return c.one(V{})
	case 1:
		return c.one(st.havocV(res.At(0).Type()))
	}
	return c.one(st.havocV(res))
}

// forget havocs memory reachable from v.
func (st *State) forget(v V, d int) {
	if v.undef() || d > 3 {
		return
	}
	f := st.f(v)
	switch f.kind {
	case KPtr:
		for _, t := range f.tg {
			o := st.obj(t.Obj)
			if o.typ != nil && o.site != "global" {
				if k := kindOf(o.typ); k == KStruct || k == KInt || k == KStr || k == KSlice || k == KIface || k == KBool {
					// only plain memory of unknown shape
					if len(t.Path) == 0 {
						st.setRoot(o.id, st.havocV(o.typ))
					}
				}
			}
		}
	case KIface:
		for _, al := range f.alts {
			st.forget(al.P, d+1)
		}
	}
}

func (c *Call) tuple(vs ...V) V {
	return c.St.fresh(&Fact{kind: KTuple, typ: c.Sig.Results(), elems: vs})
}

// ---- builtins ----

func (x *activation) builtin(st *State, in ssa.CallInstruction, bi *ssa.Builtin, args []V, res *ssa.Call) []*State {
	st = st.clone()
	done := func(v V) []*State {
		if res != nil {
			if v.undef() {
				v = C(0)
			}
			st.setReg(x.fi, res, v)
		}
		return []*State{st}
	}
	switch bi.Name() {
	case "len":
		return done(st.lenOf(args[0], in.Common().Args[0].Type()))
	case "cap":
		f := st.f(args[0])
		if f.kind == KSlice {
			return done(orC(f.cap))
		}
		return done(st.freshLen())
	case "append":
		t := in.Common().Args[0].Type()
		if x.a.OnAppendAt != nil {
			x.a.OnAppendAt(st, in, args[0], args[1], t)
		}
		return done(x.appendV(st, in, args[0], args[1], t, in.Common().Args[1].Type()))
	case "copy":
		d := st.f(args[0])
		if !d.arr.undef() {
			for _, tg := range st.f(d.arr).tg {
				o := st.obj(tg.Obj)
				if x.a.OnStore != nil {
					x.a.OnStore(st, o, in.Pos(), in.Parent())
				}
				root := st.loadTarget(tg)
				nf := st.f(root).clone()
				nf.memo = nil
				nf.defK = defHavoc
				st.setRoot(o.id, st.storePath(o.root, tg.Path, st.fresh(nf), false))
			}
		}
		n := st.freshLen()
		st.addLE(n, orC(d.ln), 0)
		return done(n)
	case "delete":
		m := args[0]
		if st.f(m).nil3 == mayNil {
			return done(V{})
		}
		var out []*State
		for _, s := range x.splitMap(st, m, in) {
			s = s.clone()
			f := s.f(m)
			for _, tg := range f.tg {
				o := s.obj(tg.Obj)
				if x.a.OnStore != nil {
					x.a.OnStore(s, o, in.Pos(), in.Parent())
				}
				s.mapDelete(tg, args[1], in.Common().Args[0].Type(), o.summary || len(f.tg) > 1)
			}
			if res != nil {
				s.setReg(x.fi, res, C(0))
			}
			out = append(out, s)
		}
		return out
	case "recover":
		if st.panicking {
			st.panicking = false
			v := st.panicV
			st.panicV = V{}
			return done(v)
		}
		return done(x.a.nilV(types.Universe.Lookup("any").Type()))
	case "print", "println":
		if x.a.OnPrint != nil {
			x.a.OnPrint(st, "builtin "+bi.Name(), in)
		}
		return done(V{})
	case "min", "max":
		v := args[0]
		if st.f(v).kind == KInt {
			for _, w := range args[1:] {
				s := st.setOf(v).union(st.setOf(w))
				n := st.freshInt(in.Common().Args[0].Type(), s)
				if n.S != zeroSym {
					if bi.Name() == "min" {
						st.addLE(n, v, 0)
						st.addLE(n, w, 0)
					} else {
						st.addLE(v, n, 0)
						st.addLE(w, n, 0)
					}
				}
				v = n
			}
			return done(v)
		}
		return done(st.havocV(in.Common().Args[0].Type()))
	case "clear":
		st.forget(args[0], 0)
		if f := st.f(args[0]); f.kind == KMap {
			for _, tg := range f.tg {
				st.setMapRoot(tg.Obj, tg.Path, st.fresh(&Fact{kind: KMapC, typ: f.typ, ln: C(0)}))
			}
		}
		return done(V{})
	case "ssa:wrapnilchk":
		v := args[0]
		f := st.f(v)
		if f.nil3&mayNil != 0 {
			x.a.oblige("nil", in, false)
			x.mayPanic(st, in, "nil receiver")
			if f.nil3 == mayNil {
				return nil
			}
			st.assumeNil(v, false)
		}
		return done(v)
	case "close":
		x.a.undecided("channel close", in.Pos())
		return done(V{})
	}
	x.a.undecided("builtin "+bi.Name(), in.Pos())
	if res != nil && res.Type() != nil {
		if tt, ok := res.Type().(*types.Tuple); ok && tt.Len() == 0 {
			return done(V{})
		}
		return done(st.havocV(res.Type()))
	}
	return done(V{})
}

func (st *State) lenOf(v V, t types.Type) V {
	f := st.f(v)
	switch kindOf(t) {
	case KStr:
		return st.strLen(v)
	case KSlice:
		return orC(f.ln)
	case KArray:
		return C(t.Underlying().(*types.Array).Len())
	case KMap:
		if f.nil3 == mayNil {
			return C(0)
		}
		if len(f.tg) == 1 && !f.opq {
			fr := st.f(st.loadTarget(f.tg[0]))
			if fr.rest == 0 {
				n := int64(0)
				ok := true
				for i, e := range fr.ents {
					c, k := st.constOf(e.Pres)
					if !k {
						ok = false
					}
					n += c
					for _, o := range fr.ents[:i] {
						if st.keyEq(e.Key, o.Key, mapKey(t)) != 0 {
							ok = false
						}
					}
				}
				if ok {
					return C(n)
				}
			}
		}
		return st.freshLen()
	case KPtr:
		if at, ok := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			return C(at.Len())
		}
	}
	return st.freshLen()
}

// contents returns what a slice holds: a copy of its array, indexed from 0.
func (st *State) contents(v V, et types.Type) *Fact {
	f := st.f(v)
	n := &Fact{kind: KArray, typ: et, defK: defNone}
	if f.arr.undef() {
		return n
	}
	for _, tg := range st.f(f.arr).tg {
		o := st.obj(tg.Obj)
		root := st.loadTarget(tg)
		fr := st.f(root)
		if fr.kind != KArray {
			n.defK = defHavoc
			continue
		}
		if len(st.f(f.arr).tg) == 1 {
			n.text = fr.text
			n.defK = fr.defK
			n.dflt = fr.dflt
			n.tag = fr.tag
			for _, m := range fr.memo {
				idx := m.Idx
				if f.lo != C(0) {
					if l, ok := st.constOf(f.lo); ok {
						idx = idx.plus(-l)
					} else {
						idx = st.subV(m.Idx, f.lo, intType)
					}
				}
				val := m.Val
				if o.summary {
					val = st.copyV(val)
				}
				n.memo = append(n.memo, Memo{idx, val})
			}
			if f.lo == C(0) {
				n.pos = fr.pos
				n.wide = fr.wide
			}
			if n.defK == defZero {
				n.typ = et
			}
			continue
		}
		all := st.allElems(root)
		if fr.defK == defHavoc {
			n.defK = defHavoc
		}
		if n.defK != defHavoc && !all.undef() {
			if n.defK == defSum {
				n.dflt = st.mergeV(n.dflt, all)
			} else {
				n.defK, n.dflt = defSum, all
			}
		}
	}
	if st.f(f.arr).opq {
		n.defK = defHavoc
	}
	return n
}

func (x *activation) appendV(st *State, in ssa.CallInstruction, s, e V, t, etyp types.Type) V {
	et := t.Underlying().(*types.Slice).Elem()
	f := st.f(s)
	n := st.contents(s, et)
	ln := orC(f.ln)
	var eln V
	var from *Fact
	if kindOf(etyp) == KStr {
		eln = st.strLen(e)
		from = &Fact{kind: KArray, typ: et, defK: defHavoc}
	} else {
		fe := st.f(e)
		eln = orC(fe.ln)
		from = st.contents(e, et)
		if fe.nil3 == mayNil {
			return s
		}
	}
	if k, ok := st.constOf(eln); ok && k == 0 {
		return s
	}
	// writing into spare capacity
	if !f.arr.undef() && st.cmpInt(token.GTR, orC(f.cap), ln) != 0 {
		for _, tg := range st.f(f.arr).tg {
			o := st.obj(tg.Obj)
			if x.a.OnStore != nil && o.ro {
				x.a.OnStore(st, o, in.Pos(), in.Parent())
			}
		}
	}
	if k, ok := st.constOf(eln); ok && k <= 64 {
		// drop cells at or behind the old length
		var keep []Memo
		for _, m := range n.memo {
			if st.cmpInt(token.LSS, m.Idx, ln) == 1 {
				keep = append(keep, m)
			} else if st.cmpInt(token.GEQ, m.Idx, ln) == 1 {
				continue
			} else {
				nn := &Fact{kind: KArray, typ: et, defK: n.defK, dflt: n.dflt}
				nn = st.weakDefault(nn, m.Val)
				n.defK, n.dflt = nn.defK, nn.dflt
			}
		}
		n.memo = keep
		if n.defK == defZero {
			// cells up to the length are zero
		}
		eroot := st.fresh(from)
		for i := int64(0); i < k; i++ {
			n.memo = append(n.memo, Memo{ln.plus(i), st.arrGet(eroot, C(i))})
		}
		if len(n.memo) > 300 {
			for _, m := range n.memo[:100] {
				nn := st.weakDefault(&Fact{kind: KArray, typ: et, defK: n.defK, dflt: n.dflt}, m.Val)
				n.defK, n.dflt = nn.defK, nn.dflt
			}
			n.memo = n.memo[100:]
		}
	} else {
		eroot := st.fresh(from)
		all := st.allElems(eroot)
		var memo []Memo
		memo, n.memo = n.memo, nil
		for _, m := range memo {
			if st.cmpInt(token.LSS, m.Idx, ln) == 1 {
				n.memo = append(n.memo, m)
			}
		}
		// a slice appended to an empty one keeps its cells
		if z, ok := st.constOf(ln); ok && z == 0 {
			n.memo = from.memo
			n.defK, n.dflt = from.defK, from.dflt
		} else if from.defK == defHavoc {
			n.defK = defHavoc
		} else if !all.undef() {
			nn := st.weakDefault(&Fact{kind: KArray, typ: et, defK: n.defK, dflt: n.dflt}, all)
			n.defK, n.dflt = nn.defK, nn.dflt
		}
	}
	nl := st.addV(ln, eln, intType)
	cp := st.freshLen()
	if cp.S != zeroSym {
		st.addLE(nl, cp, 0)
	}
	n.ln = cp
	v := st.newSlice(t, n, nl, cp, "append "+x.a.pos(in.Pos()))
	if x.a.OnAppend != nil {
		x.a.OnAppend(st, s, e, v, in)
	}
	return v
}

// ---- loop progress ----

type edgeProg struct {
	inc, dec, nondec, nonincr map[string]bool
	bndUp, bndLo              map[string]bool
	seen                      bool
}

type loopRec struct {
	Fn    string
	Pos   token.Pos
	edges map[[2]string]*edgeProg
	auto  bool
	state string
}

func (st *State) dropLoop(b *ssa.BasicBlock) {
	f := *st.top
	var l []LoopCtx
	for _, c := range f.loops {
		if c.head != b {
			l = append(l, c)
		}
	}
	f.loops = l
	st.top = &f
}

func (x *activation) startLoop(st *State, b *ssa.BasicBlock, k string) *State {
	st = st.clone()
	st.dropLoop(b)
	f := *st.top
	c := LoopCtx{head: b, key: k}
	if x.a.LoopCheck {
		c.snap = x.a.measures(st, x.fn)
	}
	f.loops = append(append([]LoopCtx(nil), f.loops...), c)
	st.top = &f
	return st
}

func (a *Analyzer) measures(st *State, fn *ssa.Function) []Snap {
	var out []Snap
	if a.Measures != nil {
		out = append(out, a.Measures(st, fn)...)
	}
	seen := map[string]bool{}
	add := func(n string, v V) {
		if !seen[n] && len(out) < 60 {
			seen[n] = true
			out = append(out, Snap{n, v})
		}
	}
	var walk func(n string, v V, d int)
	walk = func(n string, v V, d int) {
		if v.undef() || d > 3 {
			return
		}
		if v.S == zeroSym {
			add(n, v)
			return
		}
		f := st.fact(v.S)
		switch f.kind {
		case KInt:
			if f.z {
				add(n, v)
			}
		case KSlice:
			add(n+".len", orC(f.ln))
		case KStr:
			if f.con {
				add(n+".len", C(int64(len(f.str))))
			} else if !f.ln.undef() {
				add(n+".len", f.ln)
			}
		case KPtr:
			if len(f.tg) == 1 && d < 2 {
				o := st.obj(f.tg[0].Obj)
				if o.site == "global" || o.summary || len(f.tg[0].Path) > 0 {
					return
				}
				walk(n+".*", o.root, d+1)
			}
		case KStruct:
			for i, e := range f.elems {
				if !e.undef() {
					walk(fmt.Sprintf("%s.%d", n, i), e, d+1)
				}
			}
		}
	}
	st.top.regs.each(func(k int, v V) { walk(fmt.Sprintf("r%d", k), v, 0) })
	return out
}

// measure compares the state at a back edge with the snapshot at the loop head.
func (x *activation) measure(st *State, b *ssa.BasicBlock) {
	if !x.a.LoopCheck {
		return
	}
	key := fmt.Sprintf("%s#%d", x.fn.String(), b.Index)
	rec := x.a.loopRec[key]
	if rec == nil {
		rec = &loopRec{Fn: x.fn.String(), Pos: blockPos(b), edges: map[[2]string]*edgeProg{}}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				rec.auto = true
			}
		}
		x.a.loopRec[key] = rec
	}
	var ctx *LoopCtx
	for i := range st.top.loops {
		if st.top.loops[i].head == b {
			ctx = &st.top.loops[i]
		}
	}
	if ctx == nil {
		return
	}
	to := "+" + x.blockKey(st, b, 0)
	if m := x.invs[b.Index]; m != nil {
		if _, ok := m[to]; !ok && len(m) >= maxKeys {
			to = "+" + x.blockKey(st, b, 1)
		}
	}
	x.a.progress(rec, ctx.key, to, st, ctx.snap, x.a.measures(st, x.fn))
}

func (a *Analyzer) progress(rec *loopRec, from, to string, st *State, snap, now []Snap) {
	e := rec.edges[[2]string{from, to}]
	cur := &edgeProg{inc: map[string]bool{}, dec: map[string]bool{}, nondec: map[string]bool{}, nonincr: map[string]bool{}}
	for _, s := range snap {
		for _, n := range now {
			if s.name != n.name {
				continue
			}
			lo, hi := st.lb(n.v, s.v), st.ub(n.v, s.v)
			if lo >= 0 && lo != negInf {
				cur.nondec[s.name] = true
				// a list that grows has no bound
				if lo >= 1 && st.hiSym2(n.v) < 1<<62 && !strings.HasSuffix(n.name, ".len") {
					cur.inc[s.name] = true
				}
			}
			if hi <= 0 {
				cur.nonincr[s.name] = true
				if hi <= -1 && st.loSym2(n.v) > -(1<<62) {
					cur.dec[s.name] = true
				}
			}
		}
	}
	if e == nil {
		rec.edges[[2]string{from, to}] = cur
		if len(cur.inc)+len(cur.dec) == 0 {
			rec.state = st.traceString()
		}
		return
	}
	and := func(x, y map[string]bool) {
		for k := range x {
			if !y[k] {
				delete(x, k)
			}
		}
	}
	and(e.inc, cur.inc)
	and(e.dec, cur.dec)
	and(e.nondec, cur.nondec)
	and(e.nonincr, cur.nonincr)
	if len(e.inc)+len(e.dec) == 0 {
		rec.state = st.traceString()
	}
}

func (st *State) hiSym2(v V) int64 { return st.setOf(v).max() }
func (st *State) loSym2(v V) int64 { return st.setOf(v).min() }

func (st *State) traceString() string {
	var b []string
	for t, n := st.trace, 0; t != nil && n < 6; t, n = t.prev, n+1 {
		b = append(b, st.a.pos(t.pos)+" "+t.what)
	}
	return strings.Join(b, " <- ")
}

// LoopReport lists loops and recursions without a proof of termination.
func (a *Analyzer) LoopReport() (proved []string, bad []string, badPos []token.Pos) {
	keys := sortedKeys(a.loopRec)
	for _, k := range keys {
		r := a.loopRec[k]
		if r.auto || terminates(r.edges) {
			proved = append(proved, fmt.Sprintf("%s (%s)", r.Fn, a.pos(r.Pos)))
		} else {
			bad = append(bad, r.Fn)
			badPos = append(badPos, r.Pos)
		}
	}
	return
}

func terminates(edges map[[2]string]*edgeProg) bool {
	// strongly connected components of the key graph
	nodes := map[string]bool{}
	for e := range edges {
		nodes[e[0]] = true
		nodes[e[1]] = true
	}
	reach := map[string]map[string]bool{}
	for n := range nodes {
		m := map[string]bool{}
		stack := []string{n}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for e := range edges {
				if e[0] == x && !m[e[1]] {
					m[e[1]] = true
					stack = append(stack, e[1])
				}
			}
		}
		reach[n] = m
	}
	comp := map[string]string{}
	for _, n := range sortedKeys(nodes) {
		if comp[n] != "" || !reach[n][n] {
			continue
		}
		for m := range nodes {
			if reach[n][m] && reach[m][n] {
				comp[m] = n
			}
		}
	}
	groups := map[string]map[[2]string]*edgeProg{}
	for e, p := range edges {
		if c := comp[e[0]]; c != "" && c == comp[e[1]] {
			if groups[c] == nil {
				groups[c] = map[[2]string]*edgeProg{}
			}
			groups[c][e] = p
		}
	}
	for _, g := range groups {
		if !sccTerminates(g) {
			return false
		}
	}
	return true
}

// sccTerminates removes edges on which a measure strictly progresses while no edge of
// the component undoes it, until no cycle is left.
func sccTerminates(g map[[2]string]*edgeProg) bool {
	names := map[string]bool{}
	for _, p := range g {
		for n := range p.inc {
			names[n] = true
		}
		for n := range p.dec {
			names[n] = true
		}
	}
	for _, n := range sortedKeys(names) {
		for up := 0; up < 2; up++ {
			mono := true
			strict := 0
			for _, p := range g {
				if up == 1 {
					mono = mono && p.nondec[n]
					if p.inc[n] {
						strict++
					}
				} else {
					mono = mono && p.nonincr[n]
					if p.dec[n] {
						strict++
					}
				}
			}
			if !mono || strict == 0 {
				continue
			}
			rest := map[[2]string]*edgeProg{}
			for e, p := range g {
				if up == 1 && p.inc[n] || up == 0 && p.dec[n] {
					continue
				}
				rest[e] = p
			}
			if len(rest) == 0 || terminates(rest) {
				return true
			}
		}
	}
	return false
}

func (a *Analyzer) dumpLoop(fn string, p token.Pos) {
	for _, k := range sortedKeys(a.loopRec) {
		rec := a.loopRec[k]
		if rec.Pos != p {
			continue
		}
		for e, g := range rec.edges {
			fmt.Printf("  edge %q -> %q inc %v dec %v nondec %v\n", e[0], e[1], sortedKeys(g.inc), sortedKeys(g.dec), sortedKeys(g.nondec))
		}
		fmt.Println("  ", rec.state)
	}
}
