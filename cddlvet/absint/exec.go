package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// activation is one analysis of a function body.
type activation struct {
	a       *Analyzer
	fn      *ssa.Function
	fi      *fnInfo
	id      int
	pending map[int]map[string]*State
	invs    map[int]map[string]*inv
	outs    []Outcome
	npend   int
	unroll  map[int]int
	kedges  map[int]map[string]map[string]bool // transitions between the keys of a loop head
}

// cyclic tells whether the states of key k of a loop head can come from themselves.
func (x *activation) cyclic(b int, k string) bool {
	seen := map[string]bool{}
	stack := []string{k}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for m := range x.kedges[b][n] {
			if m == k {
				return true
			}
			if !seen[m] {
				seen[m] = true
				stack = append(stack, m)
			}
		}
	}
	return false
}

type inv struct {
	st     *State
	visits int
}

const (
	maxKeys = 40
	maxOuts = 48
)

func (st *State) setReg(fi *fnInfo, v ssa.Value, x V) {
	f := *st.top
	f.regs = f.regs.set(fi.idx[v], x)
	st.top = &f
}

func (a *Analyzer) fnV(fn *ssa.Function) V {
	if v, ok := a.gfn[fn]; ok {
		return v
	}
	v := a.gfact(&Fact{kind: KFunc, typ: fn.Signature, nil3: mayNon, fns: []FnAlt{{Fn: fn}}})
	a.gfn[fn] = v
	return v
}

func (a *Analyzer) globalV(st *State, g *ssa.Global) V {
	if v, ok := a.gglob[g]; ok {
		if _, ok := st.heap.get(a.globals[g]); !ok {
			a.initGlobal(st, g)
		}
		return v
	}
	id := a.newObjID()
	a.globals[g] = id
	a.globalByID[id] = g
	a.globalObjs = append(a.globalObjs, id)
	v := a.gfact(&Fact{kind: KPtr, typ: g.Type(), nil3: mayNon, tg: []Target{{id, nil}}})
	a.gglob[g] = v
	a.initGlobal(st, g)
	return v
}

func (a *Analyzer) initGlobal(st *State, g *ssa.Global) {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	var root V
	if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), RepoPath) {
		root = st.zeroV(t)
	} else {
		root = st.havocV(t)
		if f := st.f(root); f.kind == KIface || f.kind == KPtr {
			nf := f.clone()
			nf.nil3 = mayNon
			st.setFact(root.S, nf)
		}
		if g.String() == "os.Args" { // the name of the program comes first
			root = st.NonNil(root)
			st.addLE(C(1), orC(st.f(root).ln), 0)
		}
	}
	st.setObj(&Object{id: a.globals[g], typ: t, site: "global", root: root, label: g.String()})
}

func (st *State) get(v ssa.Value) V {
	a := st.a
	switch x := v.(type) {
	case *ssa.Const:
		return a.constV(st, x)
	case *ssa.Function:
		return a.fnV(x)
	case *ssa.Global:
		return a.globalV(st, x)
	}
	fi := a.info(st.top.fn)
	k, ok := fi.idx[v]
	if !ok {
		panic(fmt.Sprintf("absint: no register for %s in %s", v, st.top.fn))
	}
	r, ok := st.top.regs.get(k)
	if !ok {
		panic(fmt.Sprintf("absint: undefined register %s = %s in %s", v.Name(), v, st.top.fn))
	}
	return r
}

// Run analyses fn from st with the given arguments; st must have no frames.
func (a *Analyzer) Run(st *State, fn *ssa.Function, args []V) []Outcome {
	return a.invokeBody(st, fn, args, nil, nil)
}

// NewState is an empty state.
func (a *Analyzer) NewState() *State {
	return &State{a: a}
}

func (a *Analyzer) onStack(st *State, fn *ssa.Function) int {
	n := 0
	if st.top != nil && st.top.fn == fn {
		n++
	}
	for s := st.stack; s != nil; s = s.next {
		if s.f != nil && s.f.fn == fn {
			n++
		}
	}
	return n
}

// invokeBody pushes a frame and runs fn.
func (a *Analyzer) invokeBody(st *State, fn *ssa.Function, args, binds []V, site ssa.Instruction) []Outcome {
	fi := a.info(fn)
	a.Fns[fn] = true
	a.Calls++
	a.depth++
	if a.depth > 120 {
		a.fail("call depth at " + fn.String())
	}
	defer func() { a.depth-- }()
	st = st.clone()
	if st.top != nil {
		n := 0
		if st.stack != nil {
			n = st.stack.n
		}
		cf := *st.top
		cf.site = site
		if site != nil {
			// registers that are dead after the call are of no interest
			live := a.info(cf.fn).liveAfter[site]
			if live != nil {
				cf.regs.each(func(k int, v V) {
					if !live[k] {
						cf.regs = cf.regs.del(k)
					}
				})
			}
		}
		st.stack = &frameNode{&cf, st.stack, n + 1}
	}
	a.nextAct++
	fr := &Frame{fn: fn, act: a.nextAct}
	for i, p := range fn.Params {
		fr.regs = fr.regs.set(fi.idx[p], args[i])
	}
	for i, p := range fn.FreeVars {
		fr.regs = fr.regs.set(fi.idx[p], binds[i])
	}
	st.top = fr
	x := &activation{a: a, fn: fn, fi: fi, id: a.nextAct, pending: map[int]map[string]*State{}, invs: map[int]map[string]*inv{}, unroll: map[int]int{}}
	a.active = append(a.active, x)
	x.run(st)
	a.active = a.active[:len(a.active)-1]
	outs := x.merge()
	for i := range outs {
		s := outs[i].St
		if s.stack != nil {
			s.top = s.stack.f
			s.stack = s.stack.next
		} else {
			s.top = nil
		}
	}
	return outs
}

// merge joins outcomes with equal keys.
func (x *activation) merge() []Outcome {
	for level := 0; level < 4; level++ {
		var order []string
		groups := map[string][]Outcome{}
		for _, o := range x.outs {
			k := x.outKey(o, level)
			if _, ok := groups[k]; !ok {
				order = append(order, k)
			}
			groups[k] = append(groups[k], o)
		}
		if len(order) > x.a.MaxOuts && level < 3 {
			continue
		}
		var res []Outcome
		for _, k := range order {
			g := groups[k]
			// the returned value takes part in the join as a register
			cur := g[0].St.clone()
			setRet(cur, g[0].Ret)
			for _, o := range g[1:] {
				n := o.St.clone()
				setRet(n, o.Ret)
				cur, _, _ = x.a.join(cur, n, 0)
			}
			res = append(res, Outcome{St: cur, Ret: getRet(cur), Panic: g[0].Panic})
		}
		return res
	}
	return nil
}

func setRet(st *State, v V) {
	f := *st.top
	f.regs = pmap[V]{}
	f.loops = nil
	f.defers = nil
	if !v.undef() {
		f.regs = f.regs.set(0, v)
	}
	st.top = &f
}

func getRet(st *State) V {
	v, _ := st.top.regs.get(0)
	return v
}

func (st *State) keyOf(v V, level int, ints bool) string {
	if v.undef() {
		return "_"
	}
	if v.S == zeroSym {
		if ints && level < 2 {
			return fmt.Sprint(v.K)
		}
		return "i"
	}
	f := st.fact(v.S)
	switch f.kind {
	case KBool:
		if k, ok := st.constOf(v); ok {
			return fmt.Sprint(k)
		}
		return "b"
	case KInt:
		if ints && level < 1 {
			if k, ok := st.constOf(v); ok {
				return fmt.Sprint(k)
			}
		}
		return "i"
	case KIface:
		s := fmt.Sprint("n", f.nil3)
		if level < 1 && ints {
			if !f.opq && len(f.alts) == 1 {
				s += f.alts[0].T.String()
			}
		}
		return s
	case KFunc:
		return fmt.Sprint("n", f.nil3, st.fnsKey(f))
	case KPtr, KMap:
		return fmt.Sprint("n", f.nil3)
	case KStr:
		if st.a.KeyStrings && level < 1 {
			if f.con {
				return "k"
			}
			s := ""
			for _, p := range f.parts {
				s += string(p.Kind) + p.Str
			}
			return s
		}
		return ""
	case KSlice:
		return ""
	case KTuple:
		var b strings.Builder
		for i := range f.elems {
			b.WriteString(st.keyOf(st.elem(v, i), level, ints))
			b.WriteByte(',')
		}
		return b.String()
	}
	return ""
}

func (x *activation) outKey(o Outcome, level int) string {
	var b strings.Builder
	if level == 0 && x.a.NoJoin {
		x.a.uniq++
		return fmt.Sprintf("%08d", x.a.uniq)
	}
	if o.Panic {
		fmt.Fprintf(&b, "P%d ", o.St.panicPos)
		return b.String() + o.St.stateKey(x.fn)
	}
	if level < 3 {
		b.WriteString(o.St.keyOf(o.Ret, level, true))
	} else if x.a.KeyErrs && !o.Ret.undef() {
		v := o.Ret
		if n := x.fn.Signature.Results().Len(); n > 1 {
			v = o.St.elem(v, n-1)
		}
		fmt.Fprintf(&b, "%v", o.St.f(v).nil3)
	}
	if level == 3 && !o.Ret.undef() && o.Ret.S != zeroSym {
		if f := o.St.f(o.Ret); f.kind == KFunc {
			b.WriteString(o.St.fnsKey(f))
		}
	}
	b.WriteByte('|')
	b.WriteString(o.St.stateKey(x.fn))
	return b.String()
}

// stateKey is the part of the partition key that does not depend on registers.
func (st *State) stateKey(fn *ssa.Function) string {
	var b strings.Builder
	if st.panicking {
		b.WriteString("!")
	}
	for _, g := range st.ghosts {
		if g.name[0] == '#' {
			if k, ok := st.constOf(g.v); ok {
				fmt.Fprintf(&b, "%s=%d ", g.name, k)
			} else {
				fmt.Fprintf(&b, "%s=? ", g.name)
			}
		}
	}
	for e := st.events; e != nil; e = e.prev {
		b.WriteString(e.name)
		b.WriteByte(';')
	}
	if st.top != nil {
		for _, d := range st.top.defers {
			fmt.Fprintf(&b, "d%d", d.instr.Pos())
		}
	}
	for s := st.stack; s != nil; s = s.next {
		if len(s.f.defers) > 0 {
			for _, d := range s.f.defers {
				fmt.Fprintf(&b, "D%d", d.instr.Pos())
			}
		}
	}
	if st.a.KeyExtra != nil {
		b.WriteString(st.a.KeyExtra(st, fn))
	}
	return b.String()
}

func (x *activation) blockKey(st *State, b *ssa.BasicBlock, level int) string {
	if level == 0 {
		var sb strings.Builder
		live := x.fi.livein[b.Index]
		st.top.regs.each(func(k int, v V) {
			if !live[k] && k < len(x.fn.Params) {
				return
			}
			if v.S == zeroSym {
				return
			}
			f := st.fact(v.S)
			switch f.kind {
			case KIface, KPtr, KFunc:
				fmt.Fprintf(&sb, "%d%s ", k, st.keyOf(v, 0, false))
			}
		})
		// boolean constants
		for _, in := range x.boolRegs() {
			if v, ok := st.top.regs.get(in); ok && v.S == zeroSym {
				fmt.Fprintf(&sb, "%d=%d ", in, v.K)
			}
		}
		if len(x.a.KeyTypes) > 0 {
			st.top.regs.each(func(k int, v V) {
				if live[k] || x.isPhi(b, k) {
					sb.WriteString(st.typeKey(k, v))
				}
			})
		}
		return sb.String() + "|" + x.funcKey(st, b) + st.stateKey(x.fn)
	}
	if x.a.KeyErrs {
		var sb strings.Builder
		live := x.fi.livein[b.Index]
		st.top.regs.each(func(k int, v V) {
			if f := st.f(v); f.kind == KIface && f.nil3 != 0 && (live[k] || x.isPhi(b, k)) && types.Identical(f.typ, errorType) {
				fmt.Fprintf(&sb, "%d%v ", k, f.nil3)
			}
		})
		return "~" + sb.String() + x.funcKey(st, b) + st.stateKey(x.fn)
	}
	return "~" + x.funcKey(st, b) + st.stateKey(x.fn)
}

func (st *State) fnsKey(f *Fact) string {
	if !st.a.KeyFuncs {
		return ""
	}
	s := ""
	for _, fn := range f.fns {
		s += "," + fn.Fn.String()
	}
	return s
}

// funcKey keeps the function values of the live registers apart.
func (x *activation) funcKey(st *State, b *ssa.BasicBlock) string {
	if !x.a.KeyFuncs {
		return ""
	}
	var sb strings.Builder
	live := x.fi.livein[b.Index]
	st.top.regs.each(func(k int, v V) {
		if v.S == zeroSym || !live[k] && !x.isPhi(b, k) {
			return
		}
		if f := st.fact(v.S); f.kind == KFunc && len(f.fns) > 0 {
			fmt.Fprintf(&sb, "%d:%d%s ", k, f.nil3, st.fnsKey(f))
		}
	})
	return sb.String()
}

var errorType = types.Universe.Lookup("error").Type()

// isPhi tells whether register k is defined at the head of b.
func (x *activation) isPhi(b *ssa.BasicBlock, k int) bool {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			return false
		}
		if x.fi.idx[p] == k {
			return true
		}
	}
	return false
}

// typeKey partitions by constants of the types in KeyTypes and by the make-up of strings.
func (st *State) typeKey(k int, v V) string {
	f := st.f(v)
	if v.S == zeroSym {
		if fi := st.a.info(st.top.fn); fi.keyRegs(st.a)[k] {
			return fmt.Sprintf("%d:%d ", k, v.K)
		}
		return ""
	}
	if f.kind == KStr && st.a.KeyStrings {
		s := fmt.Sprintf("%d:", k)
		if f.con {
			return s + "k "
		}
		for _, p := range f.parts {
			s += string(p.Kind) + p.Str
		}
		return s + " "
	}
	return ""
}

// keyRegs lists the registers whose type takes part in partition keys.
func (fi *fnInfo) keyRegs(a *Analyzer) map[int]bool {
	if fi.kregs == nil {
		fi.kregs = map[int]bool{}
		for v, k := range fi.idx {
			if a.KeyTypes[v.Type().String()] {
				fi.kregs[k] = true
			}
		}
	}
	return fi.kregs
}

func (x *activation) boolRegs() []int {
	fi := x.fi
	if fi.bools == nil {
		fi.bools = []int{}
		for v, k := range fi.idx {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				fi.bools = append(fi.bools, k)
			}
		}
		sort.Ints(fi.bools)
	}
	return fi.bools
}

func (x *activation) run(st *State) {
	x.arrive(st, nil, x.fn.Blocks[0])
	for {
		best := -1
		for b := range x.pending {
			if len(x.pending[b]) > 0 && (best < 0 || x.fi.prio[b] < x.fi.prio[best]) {
				best = b
			}
		}
		if best < 0 {
			return
		}
		keys := make([]string, 0, len(x.pending[best]))
		for k := range x.pending[best] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := x.pending[best][keys[0]]
		delete(x.pending[best], keys[0])
		x.npend--
		b := x.fn.Blocks[best]
		if x.fi.head[best] {
			s = x.headState(s, b, keys[0])
			if s == nil {
				continue
			}
		}
		x.block(s, b, 0)
	}
}

// arrive brings a state to a block: evaluates phis, prunes registers, queues it.
func (x *activation) arrive(st *State, from, b *ssa.BasicBlock) {
	if x.a.GCText && from != nil && len(from.Succs) > 1 && !st.cellsAgree() {
		return
	}
	st = st.clone()
	if from != nil {
		var vals []V
		var phis []*ssa.Phi
		pi := -1
		for i, p := range b.Preds {
			if p == from {
				pi = i
				break
			}
		}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			vals = append(vals, st.get(phi.Edges[pi]))
		}
		f := *st.top
		for i, phi := range phis {
			f.regs = f.regs.set(x.fi.idx[phi], vals[i])
		}
		live := x.fi.livein[b.Index]
		phiSet := map[int]bool{}
		for _, phi := range phis {
			phiSet[x.fi.idx[phi]] = true
		}
		f.regs.each(func(k int, v V) {
			if !live[k] && !phiSet[k] {
				f.regs = f.regs.del(k)
			}
		})
		st.top = &f
		if x.fi.head[b.Index] {
			if x.fi.back[[2]int{from.Index, b.Index}] {
				x.measure(st, b)
				x.queue(st, b, "+")
				return
			}
			st.dropLoop(b)
		}
	}
	x.queue(st, b, "")
}

// queue adds a state to a block. Later rounds of a loop (pre "+") are kept apart from
// its entry.
func (x *activation) queue(st *State, b *ssa.BasicBlock, pre string) {
	m := x.pending[b.Index]
	if m == nil {
		m = map[string]*State{}
		x.pending[b.Index] = m
	}
	if pre != "" && x.a.OnBackedge != nil {
		x.a.OnBackedge(st, b)
	}
	k := pre + x.blockKey(st, b, 0)
	if x.a.NoJoin {
		x.a.uniq++
		k = fmt.Sprintf("%s%08d", pre, x.a.uniq)
	}
	if _, ok := m[k]; !ok && len(m) >= x.a.MaxKeys {
		k = pre + x.blockKey(st, b, 1)
	}
	if pre != "" {
		k2 := k
		if im := x.invs[b.Index]; im != nil {
			if _, ok := im[k2]; !ok && len(im) >= x.a.MaxKeys {
				k2 = pre + x.blockKey(st, b, 1)
			}
		}
		for i := range st.top.loops {
			if c := &st.top.loops[i]; c.head == b {
				if x.kedges == nil {
					x.kedges = map[int]map[string]map[string]bool{}
				}
				if x.kedges[b.Index] == nil {
					x.kedges[b.Index] = map[string]map[string]bool{}
				}
				if x.kedges[b.Index][c.key] == nil {
					x.kedges[b.Index][c.key] = map[string]bool{}
				}
				x.kedges[b.Index][c.key][k2] = true
			}
		}
	}
	if o, ok := m[k]; ok {
		j, _, _ := x.a.join(o, st, 0)
		if dbgLex {
			x1, g1 := dbgLexer(o)
			x2, g2 := dbgLexer(st)
			x3, g3 := dbgLexer(j)
			if g1 && g2 && !g3 {
				fmt.Println("LEXDBG queue", x.fn.Name(), b.Index, "key", k, "\n  L", x1, "\n  R", x2, "\n  J", x3)
			}
		}
		m[k] = j
		return
	}
	m[k] = st
	x.npend++
}

// headState applies the loop invariant.
func (x *activation) headState(s *State, b *ssa.BasicBlock, k string) *State {
	m := x.invs[b.Index]
	if m == nil {
		m = map[string]*inv{}
		x.invs[b.Index] = m
	}
	if _, ok := m[k]; !ok && len(m) >= x.a.MaxKeys {
		if k[0] == '+' {
			k = "+" + x.blockKey(s, b, 1)
		} else {
			k = x.blockKey(s, b, 1)
		}
	}
	i := m[k]
	if i == nil {
		if dbgLex {
			x1, g1 := dbgLexer(s)
			if !g1 {
				fmt.Println("LEXDBG first", x.fn.Name(), b.Index, "key", k, "\n  ", x1)
			}
		}
		m[k] = &inv{s, 1}
		return x.startLoop(s, b, k)
	}
	if x.npend == 0 && len(x.outs) == 0 && x.unroll[b.Index] < 400 && !x.a.NoDefiniteUnroll && x.definite(b) {
		x.unroll[b.Index]++
		m[k] = &inv{s, 1}
		return x.startLoop(s, b, k)
	}
	w := 0
	if i.visits >= 3 {
		w = 1
	}
	if i.visits >= 8 {
		w = 2
	}
	if i.visits >= 30 {
		w = 3
	}
	if w > 0 && i.visits < 40 && !x.cyclic(b.Index, k) {
		w = 0
	}
	j, changed, jn := x.a.join(i.st, s, w)
	if dbgLex {
		x1, g1 := dbgLexer(i.st)
		x2, g2 := dbgLexer(s)
		x3, g3 := dbgLexer(j)
		if g1 || g2 || g3 || true {
			fmt.Println("LEXDBG", x.fn.Name(), b.Index, "key", k, "w", w, changed, jn.why, "\n  L", x1, "\n  R", x2, "\n  J", x3)
		}
	}
	if !changed {
		return nil
	}
	i.visits++
	if i.visits > 60 {
		x.a.fail(fmt.Sprintf("loop at %s does not stabilise: %s", x.a.pos(blockPos(b)), jn.why))
	}
	if x.a.Debug && i.visits > 10 {
		fmt.Println("join", x.fn, b.Index, i.visits, jn.why)
	}
	i.st = j
	return x.startLoop(j, b, k)
}

// definite reports whether the single state that goes round the loop was never split.
func (x *activation) definite(b *ssa.BasicBlock) bool {
	for h, m := range x.pending {
		if h != b.Index && len(m) > 0 {
			return false
		}
	}
	return true
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, p := range b.Succs {
		for _, in := range p.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// block runs the instructions of a block from index i.
func (x *activation) block(st *State, b *ssa.BasicBlock, i int) {
	if dbgBlk != "" && x.fn.Name() == dbgBlk && i == 0 {
		d, _ := dbgLexer(st)
		fmt.Println("DBG BLK", b.Index, b.Comment, d, st.showTexts(), x.blockKey(st, b, 0))
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.a.Steps++
		if x.a.Steps > x.a.MaxSteps {
			x.a.fail("step budget exhausted in " + x.fn.String())
		}
		switch t := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := st.get(t.Cond)
			k, known := st.constOf(c)
			if !known || k == 1 {
				s := st
				if !known {
					s = st.clone()
					s.meetSet(c, setConst(1))
				}
				x.arrive(s, b, b.Succs[0])
			}
			if !known || k == 0 {
				s := st
				if !known {
					s = st.clone()
					s.meetSet(c, setConst(0))
				}
				x.arrive2(s, b, b.Succs[1], 1)
			}
			return
		case *ssa.Jump:
			x.arrive(st, b, b.Succs[0])
			return
		case *ssa.Return:
			x.ret(st, t)
			return
		case *ssa.Panic:
			st = st.clone()
			v := st.get(t.X)
			st.note(t.Pos(), "panic")
			msg := "panic"
			if f := st.f(v); f.kind == KIface && len(f.alts) == 1 && kindOf(f.alts[0].T) == KStr {
				msg = "panic: " + st.descStr(f.alts[0].P)
			}
			x.panicWith(st, in, msg, v)
			return
		case *ssa.RunDefers:
			sts := x.runDefers([]*State{st})
			for _, s := range sts {
				if s.panicking { // a deferred call panicked
					x.outs = append(x.outs, Outcome{St: s, Panic: true})
					continue
				}
				x.block(s, b, i+1)
			}
			return
		}
		sts := x.step(st, in)
		switch len(sts) {
		case 0:
			return
		case 1:
			st = sts[0]
		default:
			for _, s := range sts {
				x.block(s, b, i+1)
			}
			return
		}
	}
}

// arrive2 handles the second edge when both edges of an If lead to one block.
func (x *activation) arrive2(st *State, from, b *ssa.BasicBlock, edge int) {
	if from.Succs[0] != from.Succs[1] {
		x.arrive(st, from, b)
		return
	}
	x.arrive(st, from, b)
}

func (x *activation) ret(st *State, t *ssa.Return) {
	st = st.clone()
	var v V
	switch len(t.Results) {
	case 0:
	case 1:
		v = st.get(t.Results[0])
	default:
		e := make([]V, len(t.Results))
		for i, r := range t.Results {
			e[i] = st.get(r)
		}
		v = st.fresh(&Fact{kind: KTuple, typ: x.fn.Signature.Results(), elems: e})
	}
	if x.a.GCText {
		// how the last call ended keeps states apart
		n, k := 0, 0
		for _, b := range x.fn.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if b == t.Block() {
					k = n
				}
			}
		}
		if n > 1 {
			st.setGhost("#ret", C(int64(k)))
		}
	}
	x.outs = append(x.outs, Outcome{St: st, Ret: v})
}

// somePanic is the value of a panic of which nothing is known.
func (st *State) somePanic() V {
	return st.fresh(&Fact{kind: KIface, typ: types.Universe.Lookup("any").Type(), nil3: mayNon, opq: true, tag: "panic"})
}

// panicWith starts unwinding.
func (x *activation) panicWith(st *State, in ssa.Instruction, msg string, v V) {
	st.panicking = true
	st.panicMsg = msg
	st.panicPos = in.Pos()
	st.panicFn = in.Parent()
	if v.undef() {
		v = st.somePanic()
	}
	st.panicV = v
	x.unwind(st)
}

// unwind runs the deferred calls of the frame of a panicking state.
func (x *activation) unwind(st *State) {
	sts := x.runDefers([]*State{st})
	for _, s := range sts {
		if s.panicking {
			x.outs = append(x.outs, Outcome{St: s, Panic: true})
			continue
		}
		if x.fn.Recover != nil {
			f := *s.top
			s = s.clone()
			s.top = &f
			x.queue(s, x.fn.Recover, "")
			continue
		}
		// no named results: the zero values are returned
		res := x.fn.Signature.Results()
		var v V
		switch res.Len() {
		case 0:
		case 1:
			v = s.zeroV(res.At(0).Type())
		default:
			e := make([]V, res.Len())
			for i := range e {
				e[i] = s.zeroV(res.At(i).Type())
			}
			v = s.fresh(&Fact{kind: KTuple, typ: res, elems: e})
		}
		x.outs = append(x.outs, Outcome{St: s, Ret: v})
	}
}

func (x *activation) runDefers(sts []*State) []*State {
	var done []*State
	for len(sts) > 0 {
		st := sts[len(sts)-1]
		sts = sts[:len(sts)-1]
		n := len(st.top.defers)
		if n == 0 {
			done = append(done, st)
			continue
		}
		st = st.clone()
		d := st.top.defers[n-1]
		f := *st.top
		f.defers = append([]deferRec(nil), f.defers[:n-1]...)
		st.top = &f
		for _, o := range x.callDeferred(st, d) {
			sts = append(sts, o.St)
		}
	}
	return done
}

func (x *activation) callDeferred(st *State, d deferRec) []Outcome {
	in := d.instr
	if d.bi != nil {
		var res []Outcome
		for _, s := range x.builtin(st, in, d.bi, d.args, nil) {
			res = append(res, Outcome{St: s})
		}
		return res
	}
	c := in.Common()
	var outs []Outcome
	if c.IsInvoke() {
		outs = x.invoke(st, in, d.fn, c.Method, d.args)
	} else {
		outs = x.callValue(st, in, d.fn, d.args)
	}
	for i := range outs {
		if outs[i].Panic {
			outs[i].St.panicking = true
			if outs[i].St.panicV.undef() {
				outs[i].St.panicV = outs[i].St.somePanic()
			}
		}
	}
	return outs
}

// mayPanic forks the failing path of a partial operation.
func (x *activation) mayPanic(st *State, in ssa.Instruction, msg string) {
	s := st.clone()
	s.note(in.Pos(), msg)
	x.panicWith(s, in, msg, V{})
}

// nonNil requires v to be non-nil and continues with that.
func (x *activation) nonNil(st *State, v V, in ssa.Instruction, what string) *State {
	f := st.f(v)
	if f.nil3 == mayNon {
		x.a.oblige("nil", in, true)
		return st
	}
	x.a.oblige("nil", in, false)
	x.mayPanic(st, in, "nil dereference: "+what)
	if f.nil3 == mayNil {
		return nil
	}
	st = st.clone()
	st.assumeNil(v, false)
	return st
}

func (st *State) assumeNil(v V, isNil bool) bool {
	f := st.f(v)
	m := uint8(mayNon)
	if isNil {
		m = mayNil
	}
	if f.nil3&m == 0 {
		st.dead = true
		return false
	}
	if f.nil3 == m {
		return true
	}
	nf := f.clone()
	nf.nil3 = m
	if isNil {
		switch f.kind {
		case KSlice:
			st.assumeEq(orC(f.ln), C(0))
		case KPtr, KIface, KFunc, KMap:
			nf.tg, nf.alts, nf.fns, nf.opq = nil, nil, nil, false
		}
	}
	if f.kind == KSlice && isNil {
		nf = st.f(v).clone()
		nf.nil3 = m
	}
	st.setFact(v.S, nf)
	return !st.dead
}

// splitTargets returns states in which pointer v has exactly one target.
func (x *activation) splitTargets(st *State, v V, in ssa.Instruction) []*State {
	f := st.f(v)
	if f.opq && len(f.tg) == 0 {
		et := types.Type(types.Typ[types.Int])
		if p, ok := f.typ.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		} else {
			x.a.fail("unknown pointer without type at " + x.a.pos(in.Pos()))
		}
		st = st.clone()
		root := st.havocV(et)
		o := *st.newObj(et, "unknown", root)
		o.lazy = true
		st.setObj(&o)
		nf := st.f(v).clone()
		nf.opq = false
		nf.tg = []Target{{o.id, nil}}
		st.setFact(v.S, nf)
		return []*State{st}
	}
	if len(f.tg) == 1 && !f.opq {
		return []*State{st}
	}
	if len(f.tg) == 0 {
		x.a.fail("pointer without target at " + x.a.pos(in.Pos()) + " in " + in.Parent().String())
	}
	if _, g := x.a.gfacts[v.S]; g {
		return []*State{st}
	}
	if len(f.tg) > 10 {
		return []*State{st}
	}
	var out []*State
	for _, t := range f.tg {
		s := st.clone()
		nf := f.clone()
		nf.tg = []Target{t}
		nf.opq = false
		s.setFact(v.S, nf)
		out = append(out, s)
	}
	if f.opq {
		s := st.clone()
		nf := f.clone()
		nf.tg = nil
		s.setFact(v.S, nf)
		out = append(out, x.splitTargets(s, v, in)...)
	}
	return out
}

func (st *State) load(p V) V {
	f := st.f(p)
	var r V
	for _, t := range f.tg {
		v := st.loadTarget(t)
		if r.undef() {
			r = v
		} else {
			r = st.mergeV(r, v)
		}
	}
	return r
}

func (x *activation) store(st *State, p, val V, in ssa.Instruction) {
	f := st.f(p)
	for _, t := range f.tg {
		o := st.obj(t.Obj)
		if x.a.OnStore != nil {
			x.a.OnStore(st, o, in.Pos(), in.Parent())
		}
		if x.a.OnStoreV != nil {
			x.a.OnStoreV(st, t, val, in)
		}
		if len(f.tg) == 1 {
			st.storeTarget(t, val)
		} else {
			st.setRoot(o.id, st.storePath(o.root, t.Path, val, true))
		}
	}
}

func (x *activation) set(st *State, in ssa.Value, v V) *State {
	st.setReg(x.fi, in, v)
	return st
}

// bools splits on a condition whose value is not known.
func (x *activation) split(st *State, in ssa.Value, res int, yes, no func(*State) bool) []*State {
	if res >= 0 {
		st = st.clone()
		st.setReg(x.fi, in, C(int64(res)))
		return []*State{st}
	}
	var out []*State
	s := st.clone()
	if yes(s) && !s.dead {
		s.setReg(x.fi, in, C(1))
		out = append(out, s)
	}
	s = st.clone()
	if no(s) && !s.dead {
		s.setReg(x.fi, in, C(0))
		out = append(out, s)
	}
	return out
}

// step executes one non-terminating instruction.
func (x *activation) step(st *State, in ssa.Instruction) []*State {
	a := x.a
	switch t := in.(type) {
	case *ssa.Alloc:
		st = st.clone()
		et := t.Type().Underlying().(*types.Pointer).Elem()
		o := st.newObj(et, allocSite(t), st.zeroV(et))
		v := st.ptrTo(o.id, t.Type())
		return []*State{x.set(st, t, v)}
	case *ssa.BinOp:
		return x.binop(st, t)
	case *ssa.UnOp:
		return x.unop(st, t)
	case *ssa.Call:
		return x.call(st, t)
	case *ssa.ChangeInterface:
		st = st.clone()
		v := st.get(t.X)
		if f := st.f(v); f.kind == KIface && f.opq {
			// remember the static type of unknown values
		}
		return []*State{x.set(st, t, v)}
	case *ssa.ChangeType:
		st = st.clone()
		v := st.get(t.X)
		if f := st.f(v); f.kind == KStruct || f.kind == KMap && f.opq || f.kind == KPtr && f.opq {
			nf := f.clone()
			nf.typ = t.Type()
			v = st.fresh(nf)
		}
		return []*State{x.set(st, t, v)}
	case *ssa.Convert:
		out := x.convert(st, t)
		if x.a.OnConvert != nil {
			for _, s := range out {
				x.a.OnConvert(s, s.get(t.X), s.get(t))
			}
		}
		return out
	case *ssa.MultiConvert:
		st = st.clone()
		return []*State{x.set(st, t, st.havocV(t.Type()))}
	case *ssa.Extract:
		st = st.clone()
		return []*State{x.set(st, t, st.elem(st.get(t.Tuple), t.Index))}
	case *ssa.Field:
		st = st.clone()
		return []*State{x.set(st, t, st.elem(st.get(t.X), t.Field))}
	case *ssa.FieldAddr:
		p := st.get(t.X)
		st = x.nonNil(st, p, in, fieldDesc(t))
		if st == nil {
			return nil
		}
		var out []*State
		for _, s := range x.splitTargets(st, p, in) {
			s = s.clone()
			f := s.f(p)
			nf := &Fact{kind: KPtr, typ: t.Type(), nil3: mayNon}
			for _, tg := range f.tg {
				nf.tg = append(nf.tg, Target{tg.Obj, append(append([]Step(nil), tg.Path...), Step{Field: t.Field})})
			}
			out = append(out, x.set(s, t, s.fresh(nf)))
		}
		return out
	case *ssa.Index:
		return x.index(st, t, t.X, t.Index, nil)
	case *ssa.IndexAddr:
		return x.indexAddr(st, t)
	case *ssa.Lookup:
		return x.lookup(st, t)
	case *ssa.MakeClosure:
		st = st.clone()
		b := make([]V, len(t.Bindings))
		for i, v := range t.Bindings {
			b[i] = st.get(v)
		}
		return []*State{x.set(st, t, st.fresh(&Fact{kind: KFunc, typ: t.Type(), nil3: mayNon, fns: []FnAlt{{t.Fn.(*ssa.Function), b}}}))}
	case *ssa.MakeInterface:
		st = st.clone()
		v := st.get(t.X)
		if a.OnMakeIface != nil {
			a.OnMakeIface(st, v, t.X.Type(), t.Type(), t)
		}
		return []*State{x.set(st, t, st.mkIface(t.X.Type(), v, t.Type()))}
	case *ssa.MakeMap:
		st = st.clone()
		return []*State{x.set(st, t, st.newMap(t.Type(), a.pos(t.Pos())))}
	case *ssa.MakeSlice:
		st = st.clone()
		ln, cp := st.get(t.Len), st.get(t.Cap)
		bad := st.cmpInt(token.GEQ, ln, C(0)) != 1 || st.cmpInt(token.LEQ, ln, cp) != 1
		a.oblige("makeslice", in, !bad)
		if bad {
			x.mayPanic(st, in, "makeslice: length out of range")
			if !st.addLE(C(0), ln, 0) || !st.addLE(ln, cp, 0) {
				return nil
			}
		}
		et := t.Type().Underlying().(*types.Slice).Elem()
		v := st.newSlice(t.Type(), &Fact{kind: KArray, typ: et, defK: defZero, ln: cp}, ln, cp, "make "+a.pos(t.Pos()))
		return []*State{x.set(st, t, v)}
	case *ssa.MapUpdate:
		return x.mapUpdate(st, t)
	case *ssa.Next:
		return x.next(st, t)
	case *ssa.Range:
		st = st.clone()
		m := st.get(t.X)
		if kindOf(t.X.Type()) != KStr {
			// the iteration: the map and how far it has got
			c := st.newObj(intType, "iterator "+a.pos(t.Pos()), C(0))
			m = st.fresh(&Fact{kind: KTuple, typ: iterType, elems: []V{m, st.ptrTo(c.id, types.NewPointer(intType))}})
		}
		return []*State{x.set(st, t, m)}
	case *ssa.Slice:
		return x.slice(st, t)
	case *ssa.SliceToArrayPointer:
		st = st.clone()
		return []*State{x.set(st, t, st.havocV(t.Type()))}
	case *ssa.Store:
		p := st.get(t.Addr)
		st = x.nonNil(st, p, in, "store")
		if st == nil {
			return nil
		}
		var out []*State
		for _, s := range x.splitTargets(st, p, in) {
			s = s.clone()
			x.store(s, p, s.get(t.Val), in)
			out = append(out, s)
		}
		return out
	case *ssa.TypeAssert:
		return x.typeAssert(st, t)
	case *ssa.Defer:
		st = st.clone()
		c := t.Common()
		d := deferRec{instr: t}
		if bi, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
			d.bi = bi
		} else {
			d.fn = st.get(c.Value)
			if c.IsInvoke() || st.f(d.fn).kind == KFunc {
				// a nil function or receiver fails when the call runs or, for methods, here
			}
		}
		for _, v := range c.Args {
			d.args = append(d.args, st.get(v))
		}
		f := *st.top
		f.defers = append(append([]deferRec(nil), f.defers...), d)
		st.top = &f
		return []*State{st}
	case *ssa.Go:
		a.undecided("goroutine started in "+in.Parent().String(), in.Pos())
		return []*State{st}
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		a.undecided("channel operation in "+in.Parent().String(), in.Pos())
		if v, ok := in.(ssa.Value); ok {
			st = st.clone()
			st.setReg(x.fi, v, st.havocV(v.Type()))
		}
		return []*State{st}
	}
	a.fail(fmt.Sprintf("instruction %T in %s", in, in.Parent()))
	return nil
}

func allocSite(t *ssa.Alloc) string {
	return fmt.Sprintf("%s#%d#%s", t.Parent().String(), t.Pos(), t.Name())
}

func fieldDesc(t *ssa.FieldAddr) string {
	st, ok := t.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return "field"
	}
	return "field " + st.Field(t.Field).Name()
}

func (st *State) mkIface(dt types.Type, v V, it types.Type) V {
	if types.IsInterface(dt) {
		return v
	}
	return st.fresh(&Fact{kind: KIface, typ: it, nil3: mayNon, alts: []Alt{{dt, v}}})
}

func (st *State) newMap(t types.Type, site string) V {
	root := st.fresh(&Fact{kind: KMapC, typ: t, ln: C(0)})
	o := st.newObj(t, "map "+site, root)
	return st.fresh(&Fact{kind: KMap, typ: t, nil3: mayNon, tg: []Target{{o.id, nil}}})
}

func (x *activation) unop(st *State, t *ssa.UnOp) []*State {
	switch t.Op {
	case token.MUL:
		p := st.get(t.X)
		st = x.nonNil(st, p, t, "load")
		if st == nil {
			return nil
		}
		var out []*State
		for _, s := range x.splitTargets(st, p, t) {
			s = s.clone()
			if x.a.OnLoad != nil {
				x.a.OnLoad(s, p, t)
			}
			if f := s.f(p); len(f.tg) == 1 {
				if n := len(f.tg[0].Path); n > 0 && f.tg[0].Path[n-1].Field < 0 && n == 1 {
					for _, q := range s.splitCells(Target{Obj: f.tg[0].Obj}, f.tg[0].Path[0].Idx) {
						q = q.clone()
						out = append(out, x.set(q, t, q.load(p)))
					}
					continue
				}
			}
			out = append(out, x.set(s, t, s.load(p)))
		}
		return out
	case token.NOT:
		st = st.clone()
		v := st.get(t.X)
		if k, ok := st.constOf(v); ok {
			return []*State{x.set(st, t, C(1-k))}
		}
		return x.split(st, t, -1, func(s *State) bool { return s.meetSet(v, setConst(0)) }, func(s *State) bool { return s.meetSet(v, setConst(1)) })
	case token.SUB:
		st = st.clone()
		v := st.get(t.X)
		if st.f(v).kind != KInt {
			return []*State{x.set(st, t, st.havocV(t.Type()))}
		}
		return []*State{x.set(st, t, st.subV(C(0), v, t.Type()))}
	case token.XOR:
		st = st.clone()
		return []*State{x.set(st, t, st.havocV(t.Type()))}
	case token.ARROW:
		x.a.undecided("channel receive in "+t.Parent().String(), t.Pos())
		st = st.clone()
		return []*State{x.set(st, t, st.havocV(t.Type()))}
	}
	x.a.fail("unop " + t.String())
	return nil
}

func (x *activation) binop(st *State, t *ssa.BinOp) []*State {
	a, b := st.get(t.X), st.get(t.Y)
	fa := st.f(a)
	k := fa.kind
	if a.S == zeroSym {
		k = kindOf(t.X.Type())
	}
	switch t.Op {
	case token.EQL, token.NEQ:
		return x.equal(st, t, a, b, t.X.Type(), t.Y.Type(), t.Op == token.NEQ)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		switch k {
		case KInt:
			r := st.cmpInt(t.Op, a, b)
			return x.split(st, t, r, func(s *State) bool { return s.assumeInt(t.Op, a, b) }, func(s *State) bool { return s.assumeInt(negOp(t.Op), a, b) })
		case KFloat, KOther:
			if x.a.FloatCmp != nil {
				if out, ok := x.a.FloatCmp(x, st, t, a, b); ok {
					return out
				}
			}
			return x.split(st, t, -1, func(*State) bool { return true }, func(*State) bool { return true })
		default:
			if ca, ok := st.constStr(a); ok {
				if cb, ok := st.constStr(b); ok {
					r := map[token.Token]bool{token.LSS: ca < cb, token.LEQ: ca <= cb, token.GTR: ca > cb, token.GEQ: ca >= cb}[t.Op]
					n := 0
					if r {
						n = 1
					}
					return x.split(st, t, n, nil, nil)
				}
			}
			return x.split(st, t, -1, func(*State) bool { return true }, func(*State) bool { return true })
		}
	}
	st = st.clone()
	switch k {
	case KStr:
		if t.Op == token.ADD {
			return []*State{x.set(st, t, st.concat(a, b))}
		}
	case KInt:
		ty := t.Type()
		switch t.Op {
		case token.ADD:
			return []*State{x.set(st, t, st.addV(a, b, ty))}
		case token.SUB:
			return []*State{x.set(st, t, st.subV(a, b, ty))}
		case token.QUO, token.REM:
			bad := st.cmpInt(token.NEQ, b, C(0)) != 1
			x.a.oblige("division", t, !bad)
			if bad {
				x.mayPanic(st, t, "division by zero")
				if !st.assumeNe(b, C(0)) {
					return nil
				}
			}
			fallthrough
		default:
			if p, ok := st.constOf(a); ok {
				if q, ok := st.constOf(b); ok {
					if r, ok := foldInt(t.Op, p, q); ok && typeRange(ty).has(r) {
						return []*State{x.set(st, t, C(r))}
					}
				}
			}
			s := typeRange(ty)
			sa, sb := st.setOf(a), st.setOf(b)
			switch t.Op {
			case token.REM:
				if q, ok := st.constOf(b); ok && q > 0 {
					lo := -(q - 1)
					if sa.min() >= 0 {
						lo = 0
					}
					s = setRange(lo, q-1)
				}
			case token.QUO:
				if q, ok := st.constOf(b); ok && q > 0 && sa.min() >= 0 {
					hi := sa.max()
					if hi != posInf {
						hi /= q
					}
					s = setRange(sa.min()/q, hi)
				}
			case token.AND:
				if sb.min() >= 0 && sb.max() != posInf {
					s = setRange(0, sb.max())
				} else if sa.min() >= 0 {
					s = setRange(0, sa.max())
				}
			case token.MUL:
				if sa.min() >= 0 && sb.min() >= 0 && sa.max() < 1<<30 && sb.max() < 1<<30 {
					s = setRange(sa.min()*sb.min(), sa.max()*sb.max())
				}
			}
			return []*State{x.set(st, t, st.freshInt(ty, s.inter(typeRange(ty))))}
		}
	}
	return []*State{x.set(st, t, st.havocV(t.Type()))}
}

func foldInt(op token.Token, p, q int64) (int64, bool) {
	switch op {
	case token.MUL:
		if p > -1<<31 && p < 1<<31 && q > -1<<31 && q < 1<<31 {
			return p * q, true
		}
	case token.QUO:
		if q != 0 {
			return p / q, true
		}
	case token.REM:
		if q != 0 {
			return p % q, true
		}
	case token.AND:
		return p & q, true
	case token.OR:
		return p | q, true
	case token.XOR:
		return p ^ q, true
	case token.SHL:
		if q >= 0 && q < 32 && p >= 0 && p < 1<<30 {
			return p << q, true
		}
	case token.SHR:
		if q >= 0 && q < 63 {
			return p >> q, true
		}
	case token.AND_NOT:
		return p &^ q, true
	}
	return 0, false
}

func (x *activation) equal(st *State, t ssa.Value, a, b V, ta, tb types.Type, neg bool) []*State {
	st = st.clone()
	yes := func(s *State) bool { return s.assumeEqual(a, b, true) }
	no := func(s *State) bool { return s.assumeEqual(a, b, false) }
	// interface compared with a concrete value
	r := st.equalV(a, b, ta, tb)
	if ia, ib := types.IsInterface(ta), types.IsInterface(tb); ia && ib && r < 0 {
		yes, no = func(s *State) bool { return s.assumeIfaceEq(a, b, true) }, func(s *State) bool { return s.assumeIfaceEq(a, b, false) }
	}
	if neg {
		if r >= 0 {
			r = 1 - r
		}
		yes, no = no, yes
	}
	return x.split(st, t, r, yes, no)
}

// equalV decides a == b: 1, 0, -1 unknown.
func (st *State) equalV(a, b V, ta, tb types.Type) int {
	if a == b && kindOf(ta) != KFloat && kindOf(ta) != KOther && kindOf(ta) != KStruct {
		return 1
	}
	k := kindOf(ta)
	switch k {
	case KInt, KBool:
		return st.cmpInt(token.EQL, a, b)
	case KStr:
		return st.strEq(a, b)
	}
	fa, fb := st.f(a), st.f(b)
	switch k {
	case KPtr, KMap, KSlice, KFunc:
		if fa.nil3&fb.nil3 == 0 {
			return 0
		}
		if fa.nil3 == mayNil && fb.nil3 == mayNil {
			return 1
		}
		if k == KPtr && fa.nil3 == mayNon && fb.nil3 == mayNon && !fa.opq && !fb.opq {
			if len(fa.tg) == 1 && len(fb.tg) == 1 && sameTarget(fa.tg[0], fb.tg[0]) {
				if o := st.obj(fa.tg[0].Obj); !o.summary {
					return 1
				}
				return -1
			}
			over := false
			for _, x := range fa.tg {
				for _, y := range fb.tg {
					if x.Obj == y.Obj {
						over = true
					} else if st.obj(x.Obj).lazy && st.obj(y.Obj).lazy {
						over = true
					}
				}
			}
			if !over {
				return 0
			}
		}
		return -1
	case KIface:
		if !types.IsInterface(tb) {
			// b concrete
			if len(fa.alts) == 0 && !fa.opq {
				return 0
			}
			return -1
		}
		if fa.nil3&fb.nil3 == 0 {
			return 0
		}
		if fa.nil3 == mayNil && fb.nil3 == mayNil {
			return 1
		}
		if fa.nil3 == mayNon && fb.nil3 == mayNon && !fa.opq && !fb.opq {
			if len(fa.alts) == 1 && len(fb.alts) == 1 {
				if !types.Identical(fa.alts[0].T, fb.alts[0].T) {
					return 0
				}
				return st.equalV(fa.alts[0].P, fb.alts[0].P, fa.alts[0].T, fb.alts[0].T)
			}
			for _, p := range fa.alts {
				for _, q := range fb.alts {
					if types.Identical(p.T, q.T) && st.equalV(p.P, q.P, p.T, q.T) != 0 {
						return -1
					}
				}
			}
			return 0
		}
		if fa.tag != "" && fb.tag != "" && fa.tag != fb.tag && fa.nil3 == mayNon && fb.nil3 == mayNon {
			return 0
		}
		return -1
	case KStruct:
		s := fa.typ.Underlying().(*types.Struct)
		all := 1
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			r := st.equalV(st.elem(a, i), st.elem(b, i), ft, ft)
			if r == 0 {
				return 0
			}
			if r < 0 {
				all = -1
			}
		}
		return all
	}
	return -1
}

func (st *State) assumeEqual(a, b V, eq bool) bool {
	fa, fb := st.f(a), st.f(b)
	switch {
	case fa.kind == KInt || fa.kind == KBool || fb.kind == KInt || fb.kind == KBool:
		if eq {
			return st.assumeEq(a, b)
		}
		return st.assumeNe(a, b)
	case fa.kind == KStr:
		return st.assumeStr(eq, a, b)
	case fa.kind == KPtr || fa.kind == KMap || fa.kind == KSlice || fa.kind == KFunc || fa.kind == KIface:
		if fb.nil3 == mayNil {
			return st.assumeNil(a, eq)
		}
		if fa.nil3 == mayNil {
			return st.assumeNil(b, eq)
		}
		if eq && fa.kind == KPtr {
			if fb.nil3 == mayNon {
				return st.assumeNil(a, false)
			}
			if fa.nil3 == mayNon {
				return st.assumeNil(b, false)
			}
		}
	}
	return true
}

func (st *State) assumeIfaceEq(a, b V, eq bool) bool {
	fa, fb := st.f(a), st.f(b)
	if fa.nil3 == mayNil || fb.nil3 == mayNil {
		return st.assumeEqual(a, b, eq)
	}
	if eq {
		if fb.nil3 == mayNon && fa.nil3 != mayNon {
			if !st.assumeNil(a, false) {
				return false
			}
		}
		if fa.nil3 == mayNon && fb.nil3 != mayNon {
			if !st.assumeNil(b, false) {
				return false
			}
		}
		fa, fb = st.f(a), st.f(b)
		// equal values have equal dynamic types
		if !fb.opq && fa.nil3 == mayNon {
			st.restrictAlts(a, func(t types.Type) bool {
				for _, x := range fb.alts {
					if types.Identical(x.T, t) {
						return true
					}
				}
				return false
			})
		}
		if fa.tag != fb.tag && fb.tag != "" && fa.opq && fa.tag == "" {
			nf := st.f(a).clone()
			nf.tag = fb.tag
			st.setFact(a.S, nf)
		}
	}
	return !st.dead
}

func (st *State) restrictAlts(v V, keep func(types.Type) bool) {
	f := st.f(v)
	nf := f.clone()
	nf.alts = nil
	for _, al := range f.alts {
		if keep(al.T) {
			nf.alts = append(nf.alts, al)
		}
	}
	if len(nf.alts) == 0 && !nf.opq {
		st.dead = true
		return
	}
	st.setFact(v.S, nf)
}

func (x *activation) convert(st *State, t *ssa.Convert) []*State {
	st = st.clone()
	v := st.get(t.X)
	from, to := t.X.Type(), t.Type()
	kf, kt := kindOf(from), kindOf(to)
	switch {
	case kf == KInt && kt == KInt:
		s := st.setOf(v)
		r := typeRange(to)
		if s.subset(r) {
			if k, ok := s.isConst(); ok {
				return []*State{x.set(st, t, C(k))}
			}
			return []*State{x.set(st, t, v)}
		}
		return []*State{x.set(st, t, st.freshInt(to, r))}
	case kf == KInt && kt == KStr:
		return []*State{x.set(st, t, st.strFromParts([]Part{{Kind: 'r', R: v}}))}
	case kf == KStr && kt == KStr:
		return []*State{x.set(st, t, v)}
	case (kf == KSlice && kt == KStr || kf == KStr && kt == KSlice) && strings.HasPrefix(st.f(v).tag, "data:"):
		n := st.havocV(to)
		f := st.f(n).clone()
		f.tag = st.f(v).tag
		if kt == KSlice {
			f.nil3 = mayNon
		}
		return []*State{x.set(st, t, st.fresh(f))}
	case kf == KSlice && kt == KStr:
		return []*State{x.set(st, t, st.bytesToString(v, from))}
	case kf == KStr && kt == KSlice:
		ln := st.strLen(v)
		et := to.Underlying().(*types.Slice).Elem()
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			root := &Fact{kind: KArray, typ: et, defK: defHavoc, ln: ln}
			if s, ok := st.constStr(v); ok && len(s) <= 64 {
				for i := 0; i < len(s); i++ {
					root.memo = append(root.memo, Memo{C(int64(i)), C(int64(s[i]))})
				}
			}
			n := st.newSlice(to, root, ln, ln, "bytes "+x.a.pos(t.Pos()))
			return []*State{x.set(st, t, n)}
		}
		return []*State{x.set(st, t, st.havocV(to))}
	case kf == KInt && kt == KFloat:
		if k, ok := st.constOf(v); ok {
			return []*State{x.set(st, t, x.a.floatConst(float64(k)))}
		}
		return []*State{x.set(st, t, st.fresh(&Fact{kind: KFloat, typ: to}))}
	case kf == KFloat && kt == KFloat:
		if f, ok := from.Underlying().(*types.Basic); ok && f.Kind() != types.Float32 {
			if g, ok := to.Underlying().(*types.Basic); ok && g.Kind() == types.Float32 { // rounds
				return []*State{x.set(st, t, st.fresh(&Fact{kind: KFloat, typ: to}))}
			}
		}
		return []*State{x.set(st, t, v)}
	}
	return []*State{x.set(st, t, st.havocV(to))}
}

func (st *State) bytesToString(v V, t types.Type) V {
	f := st.f(v)
	et := t.Underlying().(*types.Slice).Elem()
	if b, ok := et.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 || f.arr.undef() {
		if !f.ln.undef() {
			if k, ok := st.constOf(f.ln); ok && k == 0 {
				return st.a.strConst("")
			}
		}
		return st.havocStr()
	}
	// empty
	if k, ok := st.constOf(f.ln); ok && k == 0 {
		return st.a.strConst("")
	}
	if w, ok := st.a.bytesOf(st, v); ok {
		return w
	}
	return st.fresh(&Fact{kind: KStr, typ: types.Typ[types.String], ln: f.ln, parts: []Part{{Kind: 's', Arr: f.arr, Lo: f.lo, Hi: st.addV(f.lo, f.ln, intType)}}})
}

// bytesOf: a byte slice whose elements are all known.
func (a *Analyzer) bytesOf(st *State, v V) (V, bool) {
	f := st.f(v)
	n, ok := st.constOf(f.ln)
	if !ok || n > 64 {
		return V{}, false
	}
	fp := st.f(f.arr)
	if len(fp.tg) != 1 {
		return V{}, false
	}
	root := st.loadTarget(fp.tg[0])
	fr := st.f(root)
	if fr.text {
		return V{}, false
	}
	var b []byte
	for i := int64(0); i < n; i++ {
		c, ok := st.constOf(st.arrGet(root, f.lo.plus(i)))
		if !ok {
			return V{}, false
		}
		b = append(b, byte(c))
	}
	return a.strConst(string(b)), true
}

func (st *State) concat(a, b V) V {
	return st.strFromParts(append(append([]Part(nil), st.strParts(a)...), st.strParts(b)...))
}

func (st *State) descStr(v V) string {
	var b strings.Builder
	for _, p := range st.strParts(v) {
		if p.Kind == 'c' {
			b.WriteString(p.Str)
		} else {
			b.WriteString("…")
		}
	}
	return b.String()
}

// inRange requires 0 <= i < n (or <= n when incl).
func (x *activation) inRange(st *State, in ssa.Instruction, i, lo, hi V, incl bool, what string) *State {
	op := token.LSS
	if incl {
		op = token.LEQ
	}
	ok := st.cmpInt(token.GEQ, i, lo) == 1 && st.cmpInt(op, i, hi) == 1
	x.a.oblige("index", in, ok)
	if ok {
		return st
	}
	x.mayPanic(st, in, what+" "+st.show(i)+" with bound "+st.show(hi))
	st = st.clone()
	if !st.assumeInt(token.GEQ, i, lo) || !st.assumeInt(op, i, hi) {
		return nil
	}
	return st
}

func (x *activation) index(st *State, t ssa.Value, xs, is ssa.Value, _ interface{}) []*State {
	in := t.(ssa.Instruction)
	v, i := st.get(xs), st.get(is)
	switch kindOf(xs.Type()) {
	case KStr:
		st = st.clone()
		st = x.inRange(st, in, i, C(0), st.strLen(v), false, "index out of range")
		if st == nil {
			return nil
		}
		st = st.clone()
		return []*State{x.set(st, t, st.strByte(v, i))}
	case KArray:
		n := xs.Type().Underlying().(*types.Array).Len()
		st = x.inRange(st, in, i, C(0), C(n), false, "index out of range")
		if st == nil {
			return nil
		}
		return x.arrElem(st, t, v, i)
	}
	st = st.clone()
	return []*State{x.set(st, t, st.havocV(t.Type()))}
}

// arrElem reads an array element; a small index set is split.
func (x *activation) arrElem(st *State, t ssa.Value, arr, i V) []*State {
	st = st.clone()
	return []*State{x.set(st, t, st.arrGetSplit(arr, i))}
}

func (st *State) arrGetSplit(arr, i V) V {
	f := st.f(arr)
	if _, ok := st.constOf(i); !ok && len(f.memo) > 3 && f.defK != defHavoc {
		// strings: remember the possible ones
		if kindOf(elemType(f.typ)) == KStr {
			set := st.setOf(i)
			if n := set.count(); n > 0 && n <= 100 {
				var alts []string
				ok := true
				for _, k := range set.elems() {
					s, c := st.constStr(st.arrGet(arr, C(k)))
					if !c {
						ok = false
						break
					}
					if !hasStr(alts, s) {
						alts = append(alts, s)
					}
				}
				if ok {
					sort.Strings(alts)
					v := st.havocStr()
					nf := st.f(v).clone()
					nf.strSet = alts
					if nf.strIdx.undef() {
						nf.strIdx = i
						nf.strTab = arr
					}
					st.setFact(v.S, nf)
					return v
				}
			}
		}
	}
	return st.arrGet(arr, i)
}

func (st *State) strByte(v, i V) V {
	f := st.f(v)
	if f.con {
		if k, ok := st.constOf(i); ok && k >= 0 && k < int64(len(f.str)) {
			return C(int64(f.str[k]))
		}
	}
	for _, m := range f.memo {
		if m.Idx == i {
			return m.Val
		}
	}
	ps := st.strParts(v)
	if len(ps) > 0 {
		if k, ok := st.constOf(i); ok {
			if ps[0].Kind == 'c' && k < int64(len(ps[0].Str)) {
				return C(int64(ps[0].Str[k]))
			}
			if k == 0 && ps[0].Kind == 'r' {
				if s := st.setOf(ps[0].R); s.min() >= 0 && s.max() < 128 {
					return ps[0].R
				}
			}
			if ps[0].Kind == 's' {
				if fp := st.f(ps[0].Arr); len(fp.tg) == 1 {
					if k == 0 || len(ps) == 1 {
						root := st.loadTarget(fp.tg[0])
						return st.arrGet(root, ps[0].Lo.plus(k))
					}
				}
			}
		}
	}
	b := st.freshInt(types.Typ[types.Uint8], setRange(0, 255))
	if _, g := st.a.gfacts[v.S]; !g {
		nf := f.clone()
		nf.memo = append(append([]Memo(nil), nf.memo...), Memo{i, b})
		st.setFact(v.S, nf)
	}
	return b
}

func (x *activation) indexAddr(st *State, t *ssa.IndexAddr) []*State {
	v, i := st.get(t.X), st.get(t.Index)
	var out []*State
	if kindOf(t.X.Type()) == KSlice {
		f := st.f(v)
		st = x.inRange(st, t, i, C(0), orC(f.ln), false, "index out of range")
		if st == nil {
			return nil
		}
		f = st.f(v)
		if f.arr.undef() {
			return nil
		}
		for _, s := range x.splitIndex(x.splitTargets(st, f.arr, t), f.arr, f.lo, i) {
			s = s.clone()
			g := s.f(v)
			idx := s.addV(g.lo, i, intType)
			nf := &Fact{kind: KPtr, typ: t.Type(), nil3: mayNon}
			for _, tg := range s.f(g.arr).tg {
				nf.tg = append(nf.tg, Target{tg.Obj, append(append([]Step(nil), tg.Path...), Step{-1, idx})})
			}
			out = append(out, x.set(s, t, s.fresh(nf)))
		}
		return out
	}
	// pointer to array
	at := t.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	st = x.nonNil(st, v, t, "array")
	if st == nil {
		return nil
	}
	st = x.inRange(st, t, i, C(0), C(at.Len()), false, "index out of range")
	if st == nil {
		return nil
	}
	for _, s := range x.splitIndex(x.splitTargets(st, v, t), v, C(0), i) {
		s = s.clone()
		nf := &Fact{kind: KPtr, typ: t.Type(), nil3: mayNon}
		for _, tg := range s.f(v).tg {
			nf.tg = append(nf.tg, Target{tg.Obj, append(append([]Step(nil), tg.Path...), Step{-1, i})})
		}
		out = append(out, x.set(s, t, s.fresh(nf)))
	}
	return out
}

// splitIndex splits states by which element of a package's table an unknown index selects: one
// state for each element that is set, elements of the same number together, and one for the rest.
func (x *activation) splitIndex(in []*State, arr, lo, i V) []*State {
	var out []*State
	for _, st := range in {
		f := st.f(arr)
		if _, ok := st.constOf(i); ok || lo != C(0) || len(f.tg) != 1 {
			out = append(out, st)
			continue
		}
		o := st.obj(f.tg[0].Obj)
		root := st.loadTarget(f.tg[0])
		rf := st.f(root)
		if o.summary || rf.kind != KArray || rf.defK != defZero || len(rf.memo) == 0 || kindOf(elemType(rf.typ)) == KStr {
			out = append(out, st)
			continue
		}
		set := st.setOf(i)
		rest := set
		type grp struct {
			v   V
			set IntSet
		}
		var gs []*grp
		bad := false
		for _, m := range rf.memo {
			k, ok := st.constOf(m.Idx)
			if !ok {
				bad = true
				break
			}
			if !rest.has(k) {
				continue
			}
			rest = rest.minus(setConst(k))
			_, num := st.constOf(m.Val)
			found := false
			for _, g := range gs {
				if num && g.v == m.Val {
					g.set = g.set.union(setConst(k))
					found = true
				}
			}
			if !found {
				gs = append(gs, &grp{m.Val, setConst(k)})
			}
		}
		if bad || len(gs) == 0 || len(gs) > 64 {
			out = append(out, st)
			continue
		}
		if !rest.empty() {
			gs = append(gs, &grp{V{}, rest})
		}
		for _, g := range gs {
			s := st.clone()
			if s.meetSet(i, g.set) && !s.dead {
				out = append(out, s)
			}
		}
	}
	return out
}

func (x *activation) slice(st *State, t *ssa.Slice) []*State {
	v := st.get(t.X)
	st = st.clone()
	lo := C(0)
	if t.Low != nil {
		lo = st.get(t.Low)
	}
	if kindOf(t.X.Type()) == KStr {
		n := st.strLen(v)
		hi := n
		if t.High != nil {
			hi = st.get(t.High)
		}
		if st = x.inRange(st, t, hi, C(0), n, true, "slice bounds out of range"); st == nil {
			return nil
		}
		if st = x.inRange(st, t, lo, C(0), hi, true, "slice bounds out of range"); st == nil {
			return nil
		}
		st = st.clone()
		return []*State{x.set(st, t, st.substr(v, lo, hi))}
	}
	var base, cp, n, off V
	if kindOf(t.X.Type()) == KSlice {
		f := st.f(v)
		base, off, n, cp = f.arr, orC(f.lo), orC(f.ln), orC(f.cap)
	} else { // *array
		if st = x.nonNil(st, v, t, "array"); st == nil {
			return nil
		}
		at := t.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		base, off, n, cp = v, C(0), C(at.Len()), C(at.Len())
	}
	hi := n
	if t.High != nil {
		hi = st.get(t.High)
	}
	max := cp
	if t.Max != nil {
		max = st.get(t.Max)
		if st = x.inRange(st, t, max, C(0), cp, true, "slice bounds out of range"); st == nil {
			return nil
		}
	}
	if st = x.inRange(st, t, hi, C(0), max, true, "slice bounds out of range"); st == nil {
		return nil
	}
	if st = x.inRange(st, t, lo, C(0), hi, true, "slice bounds out of range"); st == nil {
		return nil
	}
	st = st.clone()
	nf := &Fact{kind: KSlice, typ: t.Type(), nil3: mayNon, arr: base, lo: st.addV(off, lo, intType), ln: st.subV(hi, lo, intType), cap: st.subV(max, lo, intType)}
	if kindOf(t.X.Type()) == KSlice {
		nf.nil3 = st.f(v).nil3
	}
	return []*State{x.set(st, t, st.fresh(nf))}
}

func (st *State) substr(v, lo, hi V) V {
	n := st.strLen(v)
	if lo == C(0) && (hi == n || st.cmpInt(token.EQL, hi, n) == 1) {
		return v
	}
	if s, ok := st.constStr(v); ok {
		if l, ok := st.constOf(lo); ok {
			if h, ok := st.constOf(hi); ok && l >= 0 && h <= int64(len(s)) && l <= h {
				return st.a.strConst(s[l:h])
			}
		}
	}
	ps := st.strParts(v)
	if len(ps) == 1 && ps[0].Kind == 's' {
		p := ps[0]
		np := Part{Kind: 's', Arr: p.Arr, Lo: st.addV(p.Lo, lo, intType), Hi: st.addV(p.Lo, hi, intType)}
		ln := st.subV(hi, lo, intType)
		return st.fresh(&Fact{kind: KStr, typ: types.Typ[types.String], ln: ln, parts: []Part{np}})
	}
	// drop a constant prefix
	if len(ps) > 1 && ps[0].Kind == 'c' && st.cmpInt(token.EQL, hi, n) == 1 {
		if l, ok := st.constOf(lo); ok && l <= int64(len(ps[0].Str)) {
			q := append([]Part{{Kind: 'c', Str: ps[0].Str[l:]}}, ps[1:]...)
			return st.strFromParts(q)
		}
	}
	nf := &Fact{kind: KStr, typ: types.Typ[types.String], ln: st.subV(hi, lo, intType), opq: true}
	if l, ok := st.constOf(lo); ok {
		if h, ok := st.constOf(hi); ok {
			for _, m := range st.f(v).memo {
				if k, ok := st.constOf(m.Idx); ok && k >= l && k < h {
					nf.memo = append(nf.memo, Memo{C(k - l), m.Val})
				}
			}
		}
	}
	return st.fresh(nf)
}

// ---- maps ----

func (x *activation) lookup(st *State, t *ssa.Lookup) []*State {
	m, k := st.get(t.X), st.get(t.Index)
	if kindOf(t.X.Type()) == KStr {
		return x.index(st, t, t.X, t.Index, nil)
	}
	var out []*State
	et := mapElem(t.X.Type())
	emit := func(s *State, v V, ok int64) {
		if t.CommaOk {
			s.setReg(x.fi, t, s.fresh(&Fact{kind: KTuple, typ: t.Type(), elems: []V{v, C(ok)}}))
		} else {
			s.setReg(x.fi, t, v)
		}
		out = append(out, s)
	}
	f := st.f(m)
	if f.nil3&mayNil != 0 {
		s := st.clone()
		if s.assumeNil(m, true) {
			emit(s, s.zeroV(et), 0)
		}
		if f.nil3 == mayNil {
			return out
		}
		st = st.clone()
		st.assumeNil(m, false)
	}
	for _, s := range x.splitMap(st, m, t) {
		for _, r := range s.mapGet(m, k, t.X.Type()) {
			emit(r.st, r.v, r.ok)
		}
	}
	return out
}

func (x *activation) splitMap(st *State, m V, in ssa.Instruction) []*State {
	f := st.f(m)
	if f.opq && len(f.tg) == 0 {
		st = st.clone()
		root := st.fresh(&Fact{kind: KMapC, typ: f.typ, rest: mayNon, ln: st.freshLen()})
		o := *st.newObj(f.typ, "unknown", root)
		o.lazy = true
		st.setObj(&o)
		nf := f.clone()
		nf.opq = false
		nf.tg = []Target{{o.id, nil}}
		st.setFact(m.S, nf)
		return []*State{st}
	}
	return x.splitTargets(st, m, in)
}

type getRes struct {
	st *State
	v  V
	ok int64
}

func (st *State) keyEq(a, b V, kt types.Type) int {
	return st.equalV(a, b, kt, kt)
}

// mapGet looks a key up; the state is split over the entries it may be.
func (st *State) mapGet(m, k V, mt types.Type) []getRes {
	kt, et := mapKey(mt), mapElem(mt)
	f := st.f(m)
	if len(f.tg) != 1 {
		s := st.clone()
		a := s.clone()
		return []getRes{{s, s.havocV(et), 1}, {a, a.zeroV(et), 0}}
	}
	o := st.obj(f.tg[0].Obj)
	root := st.loadTarget(f.tg[0])
	fr := st.f(root)
	var out []getRes
	cur := st.clone()
	fromEnt := func(s *State, e MapEnt) {
		v := e.Val
		if o.summary {
			v = s.copyV(v)
		}
		if c, ok := s.constOf(e.Pres); ok {
			if c == 1 {
				out = append(out, getRes{s, v, 1})
			} else {
				out = append(out, getRes{s, s.zeroV(et), 0})
			}
			return
		}
		y := s.clone()
		if y.meetSet(e.Pres, setConst(1)) {
			out = append(out, getRes{y, v, 1})
		}
		n := s.clone()
		if n.meetSet(e.Pres, setConst(0)) {
			out = append(out, getRes{n, n.zeroV(et), 0})
		}
	}
	// a definite hit
	for _, e := range fr.ents {
		if cur.keyEq(e.Key, k, kt) == 1 {
			fromEnt(cur, e)
			return out
		}
	}
	// group possible entries with the same value
	type grp struct {
		v    V
		keys []V
		ents []MapEnt
	}
	var gs []grp
	for _, e := range fr.ents {
		if cur.keyEq(e.Key, k, kt) == 0 {
			continue
		}
		found := false
		if kindOf(kt) == KInt && e.Pres == C(1) && cur.setOf(e.Key).count() == 1 {
			for i := range gs {
				if gs[i].ents[0].Pres == C(1) && sameValue(cur, gs[i].v, e.Val) && cur.setOf(gs[i].keys[0]).count() == 1 {
					gs[i].keys = append(gs[i].keys, e.Key)
					gs[i].ents = append(gs[i].ents, e)
					found = true
					break
				}
			}
		}
		if !found {
			gs = append(gs, grp{e.Val, []V{e.Key}, []MapEnt{e}})
		}
	}
	if len(gs) > st.a.maxSplit() {
		// too many: one merged hit
		s := cur.clone()
		var v V
		for _, g := range gs {
			v = s.mergeV(v, s.copyV(g.v))
		}
		if fr.rest != 0 {
			v = s.havocV(et)
		}
		out = append(out, getRes{s, v, 1})
	} else {
		for _, g := range gs {
			s := cur.clone()
			ok := true
			if kindOf(kt) == KInt {
				var set IntSet
				for _, q := range g.keys {
					set = set.union(s.setOf(q))
				}
				ok = s.meetSet(k, set)
				if ok && len(g.keys) == 1 {
					ok = s.assumeEq(k, g.keys[0])
				}
			} else {
				ok = s.assumeEqual(k, g.keys[0], true)
			}
			if ok && !s.dead {
				fromEnt(s, g.ents[0])
			}
		}
	}
	// none of the known entries
	miss := cur.clone()
	okm := true
	for _, e := range fr.ents {
		switch miss.keyEq(e.Key, k, kt) {
		case 0:
			continue
		}
		if !miss.assumeEqual(k, e.Key, false) || miss.dead {
			okm = false
			break
		}
	}
	if okm {
		if fr.rest != 0 {
			for pres := int64(0); pres < 2; pres++ {
				s := miss.clone()
				v := s.zeroV(et)
				if pres == 1 {
					if !fr.restV.undef() {
						v = s.copyV(fr.restV)
					} else {
						v = s.havocMapElem(et)
					}
				}
				// remember the answer
				if ft := s.f(m); len(ft.tg) == 1 && !o.summary && len(fr.ents) < 40 {
					nf := s.f(s.obj(o.id).root).clone()
					nf.ents = append(append([]MapEnt(nil), nf.ents...), MapEnt{k, C(pres), v})
					s.setMapRoot(o.id, f.tg[0].Path, s.fresh(nf))
				}
				out = append(out, getRes{s, v, pres})
			}
		} else {
			out = append(out, getRes{miss, miss.zeroV(et), 0})
		}
	}
	return out
}

func (st *State) setMapRoot(id int, path []Step, root V) {
	o := st.obj(id)
	if len(path) == 0 {
		st.setRoot(id, root)
		return
	}
	st.setRoot(id, st.storePath(o.root, path, root, false))
}

func (st *State) havocMapElem(t types.Type) V {
	if st.a.HavocElem != nil {
		if v := st.a.HavocElem(st, t); !v.undef() {
			return v
		}
	}
	return st.havocV(t)
}

func (a *Analyzer) maxSplit() int {
	if a.MaxSplit > 0 {
		return a.MaxSplit
	}
	return 64
}

// sameValue: two values that cannot be told apart.
func sameValue(st *State, a, b V) bool {
	if a == b {
		return true
	}
	fa, fb := st.fact(a.S), st.fact(b.S)
	if fa == nil || fb == nil || fa.kind != fb.kind {
		return false
	}
	if fa.kind == KFunc && len(fa.fns) == 1 && len(fb.fns) == 1 && fa.fns[0].Fn == fb.fns[0].Fn && len(fa.fns[0].Binds) == len(fb.fns[0].Binds) && !fa.opq && !fb.opq {
		for i := range fa.fns[0].Binds {
			if !sameValue(st, fa.fns[0].Binds[i], fb.fns[0].Binds[i]) {
				return false
			}
		}
		return true
	}
	if fa.kind == KPtr && len(fa.tg) == 1 && len(fb.tg) == 1 && sameTarget(fa.tg[0], fb.tg[0]) && fa.nil3 == fb.nil3 {
		return true
	}
	return false
}

func (x *activation) mapUpdate(st *State, t *ssa.MapUpdate) []*State {
	m, k, v := st.get(t.Map), st.get(t.Key), st.get(t.Value)
	f := st.f(m)
	if f.nil3&mayNil != 0 {
		x.a.oblige("nilmap", t, false)
		x.mayPanic(st, t, "assignment to entry in nil map")
		if f.nil3 == mayNil {
			return nil
		}
		st = st.clone()
		st.assumeNil(m, false)
	} else {
		x.a.oblige("nilmap", t, true)
	}
	var out []*State
	for _, s := range x.splitMap(st, m, t) {
		s = s.clone()
		f := s.f(m)
		for _, tg := range f.tg {
			o := s.obj(tg.Obj)
			if x.a.OnStore != nil {
				x.a.OnStore(s, o, t.Pos(), t.Parent())
			}
			s.mapSet(tg, k, v, t.Map.Type(), o.summary || len(f.tg) > 1)
		}
		out = append(out, s)
	}
	return out
}

func (st *State) mapSet(tg Target, k, v V, mt types.Type, weak bool) {
	kt := mapKey(mt)
	root := st.loadPath(st.obj(tg.Obj).root, tg.Path, false)
	fr := st.f(root)
	nf := fr.clone()
	nf.ents = nil
	hit := false
	for _, e := range fr.ents {
		switch st.keyEq(e.Key, k, kt) {
		case 1:
			hit = true
			if weak {
				e.Val = st.mergeV(e.Val, v)
				e.Pres = st.mergeV(e.Pres, C(1))
			} else {
				e.Val, e.Pres = v, C(1)
			}
		case -1:
			e.Val = st.mergeV(e.Val, v)
			e.Pres = st.mergeV(e.Pres, C(1))
		}
		nf.ents = append(nf.ents, e)
	}
	if !hit {
		if weak {
			nf.rest = mayNon
			if fr.rest == 0 && fr.restV.undef() {
				nf.restV = v
			} else if !fr.restV.undef() {
				nf.restV = st.mergeV(fr.restV, v)
			}
		} else {
			nf.ents = append(nf.ents, MapEnt{k, C(1), v})
			if len(nf.ents) > 200 {
				nf.ents = nf.ents[100:]
				nf.rest = mayNon
				nf.restV = V{}
			}
		}
	}
	if !nf.ln.undef() {
		nf.ln = st.freshLen()
	}
	st.setMapRoot(tg.Obj, tg.Path, st.fresh(nf))
}

func (st *State) mapDelete(tg Target, k V, mt types.Type, weak bool) {
	kt := mapKey(mt)
	root := st.loadPath(st.obj(tg.Obj).root, tg.Path, false)
	fr := st.f(root)
	nf := fr.clone()
	nf.ents = nil
	hit := false
	for _, e := range fr.ents {
		switch st.keyEq(e.Key, k, kt) {
		case 1:
			hit = true
			if weak {
				e.Pres = st.mergeV(e.Pres, C(0))
			} else {
				e.Pres = C(0)
			}
		case -1:
			e.Pres = st.mergeV(e.Pres, C(0))
		}
		nf.ents = append(nf.ents, e)
	}
	if !hit && !weak && fr.rest != 0 {
		nf.ents = append(nf.ents, MapEnt{k, C(0), st.zeroV(mapElem(mt))})
	}
	st.setMapRoot(tg.Obj, tg.Path, st.fresh(nf))
}

// next is one step of a range over a map or string.
var iterType = types.NewTuple()

// iterNext gives the next entry of an iteration over a map all of whose entries are
// known. The order of the entries is one of those the language allows; that the order
// makes no difference is a property of its own (C21).
func (x *activation) iterNext(st *State, t *ssa.Next, m, cur V) (*State, bool) {
	fm, fc := st.f(m), st.f(cur)
	if len(fm.tg) != 1 || len(fc.tg) != 1 || fm.opq || fm.nil3 != mayNon {
		return nil, false
	}
	o := st.obj(fc.tg[0].Obj)
	n, ok := st.constOf(st.loadTarget(fc.tg[0]))
	if !ok || o.summary || st.obj(fm.tg[0].Obj).summary {
		return nil, false
	}
	fr := st.f(st.loadTarget(fm.tg[0]))
	if fr.rest != 0 || len(fr.ents) > 300 {
		return nil, false
	}
	for _, e := range fr.ents {
		if _, ok := st.constOf(e.Pres); !ok {
			return nil, false
		}
	}
	for int(n) < len(fr.ents) && fr.ents[n].Pres == C(0) {
		n++
	}
	st = st.clone()
	tt := t.Type().(*types.Tuple)
	st.setRoot(o.id, C(n+1))
	elems := make([]V, 3)
	elems[0] = C(1)
	for i, ty := range []types.Type{tt.At(1).Type(), tt.At(2).Type()} {
		if b, ok := ty.(*types.Basic); ok && b.Kind() == types.Invalid {
			elems[i+1] = C(0)
		} else if int(n) >= len(fr.ents) {
			elems[i+1] = st.zeroV(ty)
		} else if i == 0 {
			elems[1] = fr.ents[n].Key
		} else {
			elems[2] = fr.ents[n].Val
		}
	}
	if int(n) >= len(fr.ents) {
		elems[0] = C(0)
	}
	st.setReg(x.fi, t, st.fresh(&Fact{kind: KTuple, typ: tt, elems: elems}))
	return st, true
}

func (x *activation) next(st *State, t *ssa.Next) []*State {
	it := st.get(t.Iter)
	if f := st.f(it); f.kind == KTuple && len(f.elems) == 2 {
		if s, ok := x.iterNext(st, t, f.elems[0], f.elems[1]); ok {
			return []*State{s}
		}
		it = f.elems[0]
	}
	var out []*State
	tt := t.Type().(*types.Tuple)
	zero := func(ty types.Type) V {
		if b, ok := ty.(*types.Basic); ok && b.Kind() == types.Invalid {
			return C(0)
		}
		return st.zeroV(ty)
	}
	s := st.clone()
	s.setReg(x.fi, t, s.fresh(&Fact{kind: KTuple, typ: tt, elems: []V{C(0), zero(tt.At(1).Type()), zero(tt.At(2).Type())}}))
	if t.IsString {
		str := it
		n := st.strLen(str)
		if st.cmpInt(token.EQL, n, C(0)) != 1 {
			y := st.clone()
			i := y.freshInt(intType, setRange(0, maxLen))
			if y.addLE(i, n, -1) {
				r := y.freshInt(types.Typ[types.Int32], setRange(0, 0x10FFFF))
				y.setReg(x.fi, t, y.fresh(&Fact{kind: KTuple, typ: tt, elems: []V{C(1), i, r}}))
				out = append(out, y)
			}
		}
		out = append(out, s)
		return out
	}
	f := st.f(it)
	if f.nil3 == mayNil {
		return []*State{s}
	}
	out = append(out, s)
	mt := t.Iter.(*ssa.Range).X.Type()
	for _, y := range x.splitMap(st, it, t) {
		y = y.clone()
		fm := y.f(it)
		var k, v V
		unknown := false
		n := 0
		for _, tg := range fm.tg {
			fr := y.f(y.loadTarget(tg))
			if fr.rest != 0 {
				unknown = true
				if !fr.restV.undef() {
					v = y.mergeV(v, y.copyV(fr.restV))
				}
			}
			for _, e := range fr.ents {
				if c, ok := y.constOf(e.Pres); ok && c == 0 {
					continue
				}
				n++
				k = y.mergeV(k, y.copyV(e.Key))
				v = y.mergeV(v, y.copyV(e.Val))
			}
		}
		if n == 0 && !unknown {
			continue
		}
		if unknown {
			k = y.havocV(mapKey(mt))
			v = y.havocMapElem(mapElem(mt))
		}
		if b, ok := tt.At(1).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			k = C(0)
		}
		if b, ok := tt.At(2).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			v = C(0)
		}
		y.setReg(x.fi, t, y.fresh(&Fact{kind: KTuple, typ: tt, elems: []V{C(1), k, v}}))
		out = append(out, y)
	}
	return out
}

// ---- interfaces ----

// expand lists the possible dynamic types of an unknown value of a closed interface.
func (x *activation) expand(st *State, v V) bool {
	f := st.f(v)
	if !f.opq || f.typ == nil {
		return false
	}
	it, ok := f.typ.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return false
	}
	n, ok := f.typ.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), RepoPath) || !strings.HasSuffix(n.Obj().Pkg().Path(), "/ast") {
		return false
	}
	nf := f.clone()
	nf.opq = false
	nf.not = nil
impl:
	for _, t := range x.a.implementers(it) {
		if _, isPtr := t.(*types.Pointer); !isPtr {
			continue
		}
		for _, u := range f.not {
			if types.Identical(t, u) {
				continue impl
			}
		}
		for _, al := range f.alts {
			if types.Identical(t, al.T) {
				continue impl
			}
		}
		nf.alts = append(nf.alts, Alt{t, st.unknownOf(t)})
	}
	st.setFact(v.S, nf)
	return true
}

// unknownOf is an unknown value inside an interface: pointers are not nil.
func (st *State) unknownOf(t types.Type) V {
	p := st.havocV(t)
	if f := st.f(p); f.kind == KPtr && f.nil3 == 3 {
		nf := f.clone()
		nf.nil3 = mayNon
		st.setFact(p.S, nf)
	}
	return p
}

func (x *activation) typeAssert(st *State, t *ssa.TypeAssert) []*State {
	v := st.get(t.X)
	to := t.AssertedType
	var out []*State
	okRes := func(s *State, r V) {
		if t.CommaOk {
			s.setReg(x.fi, t, s.fresh(&Fact{kind: KTuple, typ: t.Type(), elems: []V{r, C(1)}}))
		} else {
			s.setReg(x.fi, t, r)
		}
		out = append(out, s)
	}
	var failSt *State
	failRes := func(s *State) {
		if t.CommaOk {
			s.setReg(x.fi, t, s.fresh(&Fact{kind: KTuple, typ: t.Type(), elems: []V{s.zeroV(to), C(0)}}))
			out = append(out, s)
			return
		}
		failSt = s
	}
	st = st.clone()
	f := st.f(v)
	if f.kind != KIface {
		x.a.fail("type assertion on a non-interface in " + t.Parent().String())
	}
	if ti, isI := to.Underlying().(*types.Interface); isI {
		x.expand(st, v)
		f = st.f(v)
		var yes, no []Alt
		for _, al := range f.alts {
			if types.Implements(al.T, ti) {
				yes = append(yes, al)
			} else {
				no = append(no, al)
			}
		}
		opqNo := f.opq
		if f.opq && f.typ != nil && types.AssignableTo(f.typ, to) {
			opqNo = false
		}
		if len(yes) > 0 || f.opq {
			s := st.clone()
			nf := f.clone()
			nf.nil3 = mayNon
			nf.alts = yes
			if f.nil3&mayNon != 0 {
				s.setFact(v.S, nf)
				r := v
				if nf.opq {
					g := nf.clone()
					g.typ = to
					r = s.fresh(g)
					if x.a.OnAssert != nil {
						x.a.OnAssert(s, v, r)
					}
				}
				okRes(s, r)
			}
		}
		if f.nil3&mayNil != 0 || len(no) > 0 || opqNo {
			s := st.clone()
			nf := f.clone()
			nf.alts = no
			nf.opq = opqNo
			if len(no) == 0 && !opqNo {
				nf.nil3 = mayNil
			}
			s.setFact(v.S, nf)
			failRes(s)
		}
	} else {
		var hit *Alt
		var rest []Alt
		for i, al := range f.alts {
			if types.Identical(al.T, to) {
				hit = &f.alts[i]
			} else {
				rest = append(rest, al)
			}
		}
		excluded := false
		for _, u := range f.not {
			excluded = excluded || types.Identical(u, to)
		}
		canOpq := f.opq && !excluded
		if f.nil3&mayNon != 0 && (hit != nil || canOpq) {
			s := st.clone()
			var p V
			switch {
			case hit != nil && canOpq:
				p = s.mergeV(hit.P, s.unknownOf(to))
			case hit != nil:
				p = hit.P
			default:
				p = s.unknownOf(to)
			}
			nf := f.clone()
			nf.nil3 = mayNon
			nf.opq = false
			nf.not = nil
			nf.alts = []Alt{{to, p}}
			s.setFact(v.S, nf)
			okRes(s, p)
		}
		if f.nil3&mayNil != 0 || len(rest) > 0 || f.opq {
			s := st.clone()
			nf := f.clone()
			nf.alts = rest
			if f.opq && !excluded {
				nf.not = append(append([]types.Type(nil), nf.not...), to)
			}
			if len(rest) == 0 && !f.opq {
				nf.nil3 = mayNil
			}
			s.setFact(v.S, nf)
			// every implementation of a closed interface excluded?
			if nf.nil3 == mayNon && nf.opq && len(rest) == 0 && x.exhausted(nf) {
				s = nil
			}
			if s != nil {
				failRes(s)
			}
		}
	}
	if !t.CommaOk {
		x.a.oblige("assert", t, failSt == nil)
		if failSt != nil {
			x.mayPanic(failSt, t, "interface conversion to "+to.String()+" fails for "+failSt.show(v))
		}
	}
	return out
}

func (x *activation) exhausted(f *Fact) bool {
	it, ok := f.typ.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return false
	}
	n, ok := f.typ.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), RepoPath) || !strings.HasSuffix(n.Obj().Pkg().Path(), "/ast") {
		return false
	}
	for _, t := range x.a.implementers(it) {
		if _, isPtr := t.(*types.Pointer); !isPtr {
			continue
		}
		found := false
		for _, u := range f.not {
			found = found || types.Identical(t, u)
		}
		if !found {
			return false
		}
	}
	return true
}
