package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sym names an unknown value. Sym 1 is the constant zero.
type Sym int32

// V is an abstract value: symbol plus offset (offset only for integers).
type V struct {
	S Sym
	K int64
}

const zeroSym Sym = 1

func C(k int64) V          { return V{zeroSym, k} }
func (v V) undef() bool    { return v.S == 0 }
func (v V) plus(k int64) V { return V{v.S, v.K + k} }

// Kind of a fact.
type Kind uint8

const (
	KInt Kind = iota + 1
	KBool
	KStr
	KFloat
	KPtr
	KIface
	KSlice
	KMap // map value: behaves as a pointer to a KMapC object
	KFunc
	KStruct
	KArray // array contents
	KTuple
	KMapC
	KOther
)

const (
	mayNil = 1
	mayNon = 2
)

// Def remembers how an integer was computed.
type Def struct {
	Op   token.Token
	X, Y V
}

type Step struct {
	Field int // -1 for an element
	Idx   V
}

type Target struct {
	Obj  int
	Path []Step
}

type Alt struct {
	T types.Type
	P V
}

type FnAlt struct {
	Fn    *ssa.Function
	Binds []V
}

// Part of a string value.
type Part struct {
	Kind   uint8 // 'c' const, 's' substring of a byte array, 'r' one rune, 'u' unknown string
	Str    string
	Arr    V // pointer to the array
	Lo, Hi V
	R      V
	U      V
}

type Memo struct {
	Idx, Val V
}

// Wide is a character outside ASCII in a source text.
type Wide struct {
	Idx, R, W V
}

// PosFact: before index Idx of a source there are NL newlines, the last at LN (-1: none), and no
// character other than a blank at or behind NW.
type PosFact struct {
	Idx, NL, LN, NW V
}

type MapEnt struct {
	Key  V
	Pres V // bool
	Val  V
}

const (
	defHavoc = iota // unknown elements, created on demand
	defZero
	defSum  // Def holds a summary
	defNone // no element exists
)

// Fact is what is known about a symbol. Facts are immutable.
type Fact struct {
	kind Kind
	typ  types.Type
	set  IntSet
	z    bool // takes part in difference constraints
	def  *Def

	nil3 uint8
	tg   []Target
	opq  bool // ptr: may point to unknown memory; iface: other dynamic types possible; func: unknown function
	alts []Alt
	not  []types.Type
	fns  []FnAlt

	elems []V  // struct fields, tuple
	zero  bool // lazily created parts are zero values, not unknown ones

	str            string
	con            bool
	strSet         []string // possible values, when few
	strNe          []string
	strIdx, strTab V // the string is element strIdx of a table
	parts          []Part
	ln             V // string length
	memo           []Memo

	arr, lo, cap V // slices; length in ln

	defK int
	dflt V
	wide []Wide // multi-byte characters of a text array
	pos  []PosFact
	text bool // array of source text cells

	ents  []MapEnt
	rest  uint8 // mayNon if keys other than ents may be present
	restV V
	tag   string // ghost label
}

func (f *Fact) clone() *Fact { c := *f; return &c }

// Object is a piece of abstract memory.
type Object struct {
	id      int
	typ     types.Type
	site    string
	root    V
	summary bool // stands for several concrete objects
	lazy    bool // came from unknown memory: may alias other lazy objects
	ro      bool // writing to it violates a property
	label   string
}

type zedge struct {
	o Sym
	c int64
}

type zrow struct {
	out []zedge // this - o <= c
	in  []zedge // o - this <= c
}

type deferRec struct {
	instr ssa.CallInstruction
	typ   types.Type
	fn    V
	args  []V
	bi    *ssa.Builtin
	inv   *types.Func
}

// LoopCtx records the loop head visit a state descends from.
type LoopCtx struct {
	head *ssa.BasicBlock
	key  string // partition key of the head
	snap []Snap
}

// Snap is a measured location at a loop head.
type Snap struct {
	name string
	v    V
}

type Frame struct {
	fn     *ssa.Function
	act    int // activation id
	regs   pmap[V]
	defers []deferRec
	loops  []LoopCtx
	site   ssa.Instruction // call that is pending in this frame
}

type frameNode struct {
	f    *Frame
	next *frameNode
	n    int
}

// Ghost is a named analysis variable that lives in the state.
type Ghost struct {
	name string
	v    V
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	what string
	n    int
}

// Event is an entry of the per-path event log (only kept where a rule asks for it).
type Event struct {
	prev *Event
	name string
	args []V
	pos  token.Pos
	n    int
}

// State is an abstract state. Copying the struct copies the state.
type State struct {
	a         *Analyzer
	facts     pmap[*Fact]
	heap      pmap[*Object]
	zone      pmap[*zrow]
	top       *Frame
	stack     *frameNode
	ghosts    []Ghost
	trace     *Trace
	events    *Event
	panicking bool
	panicV    V
	panicMsg  string
	panicPos  token.Pos
	panicFn   *ssa.Function
	dead      bool
}

func (st *State) clone() *State { c := *st; return &c }

func (st *State) fact(s Sym) *Fact {
	if f, ok := st.facts.get(int(s)); ok {
		return f
	}
	if f := st.a.gfacts[s]; f != nil {
		return f
	}
	return nil
}

func (st *State) f(v V) *Fact {
	f := st.fact(v.S)
	if f == nil {
		panic(fmt.Sprintf("absint: no fact for symbol %d", v.S))
	}
	return f
}

func (st *State) setFact(s Sym, f *Fact) {
	if _, ok := st.a.gfacts[s]; ok {
		return
	}
	st.facts = st.facts.set(int(s), f)
}

func (st *State) fresh(f *Fact) V {
	s := st.a.newSym()
	st.facts = st.facts.set(int(s), f)
	return V{s, 0}
}

func (st *State) obj(id int) *Object {
	o, ok := st.heap.get(id)
	if !ok {
		if g := st.a.gobjs[id]; g != nil {
			return g
		}
		panic(fmt.Sprintf("absint: no object %d", id))
	}
	return o
}

func (st *State) setObj(o *Object) {
	st.heap = st.heap.set(o.id, o)
}

func (st *State) newObj(typ types.Type, site string, root V) *Object {
	o := &Object{id: st.a.newObjID(), typ: typ, site: site, root: root}
	st.setObj(o)
	return o
}

func (st *State) setRoot(id int, root V) {
	o := *st.obj(id)
	o.root = root
	st.setObj(&o)
}

func (st *State) ptrTo(id int, typ types.Type, path ...Step) V {
	return st.fresh(&Fact{kind: KPtr, typ: typ, nil3: mayNon, tg: []Target{{id, path}}})
}

// Ghost access.
func (st *State) ghost(name string) (V, bool) {
	for _, g := range st.ghosts {
		if g.name == name {
			return g.v, true
		}
	}
	return V{}, false
}

func (st *State) setGhost(name string, v V) {
	ng := make([]Ghost, 0, len(st.ghosts)+1)
	done := false
	for _, g := range st.ghosts {
		if g.name == name {
			g.v = v
			done = true
		}
		ng = append(ng, g)
	}
	if !done {
		ng = append(ng, Ghost{name, v})
		sort.Slice(ng, func(i, j int) bool { return ng[i].name < ng[j].name })
	}
	st.ghosts = ng
}

func (st *State) ghostConst(name string) int64 {
	if v, ok := st.ghost(name); ok {
		if k, ok := st.constOf(v); ok {
			return k
		}
		return -1
	}
	return 0
}

func (st *State) note(pos token.Pos, what string) {
	n := 0
	if st.trace != nil {
		n = st.trace.n
	}
	st.trace = &Trace{st.trace, pos, what, n + 1}
}

func (st *State) event(name string, pos token.Pos, args ...V) {
	n := 0
	if st.events != nil {
		n = st.events.n
	}
	st.events = &Event{st.events, name, args, pos, n + 1}
}

func (st *State) eventList() []*Event {
	var out []*Event
	for e := st.events; e != nil; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- integers ----

func (st *State) row(s Sym) *zrow {
	r, _ := st.zone.get(int(s))
	return r
}

type dmap map[Sym]int64

func (st *State) spfa(s Sym, fwd bool) dmap {
	r := st.row(s)
	if r == nil {
		return nil
	}
	d := dmap{s: 0}
	q := []Sym{s}
	for it := 0; len(q) > 0 && it < 4000; it++ {
		x := q[0]
		q = q[1:]
		r := st.row(x)
		if r == nil {
			continue
		}
		es := r.out
		if !fwd {
			es = r.in
		}
		for _, e := range es {
			nd := d[x] + e.c
			if o, ok := d[e.o]; !ok || nd < o {
				d[e.o] = nd
				q = append(q, e.o)
			}
		}
	}
	return d
}

func (st *State) hiSym(s Sym) int64 {
	if s == zeroSym {
		return 0
	}
	f := st.fact(s)
	if f == nil || f.kind != KInt && f.kind != KBool {
		return posInf
	}
	hi := int64(posInf)
	if len(f.set) > 0 {
		hi = f.set.max()
	}
	if f.z {
		for x, d := range st.spfa(s, true) {
			if x == s {
				continue
			}
			if fx := st.fact(x); fx != nil && len(fx.set) > 0 {
				if h := satAdd(fx.set.max(), d); h < hi {
					hi = h
				}
			}
		}
	}
	return hi
}

func (st *State) loSym(s Sym) int64 {
	if s == zeroSym {
		return 0
	}
	f := st.fact(s)
	if f == nil || f.kind != KInt && f.kind != KBool {
		return negInf
	}
	lo := int64(negInf)
	if len(f.set) > 0 {
		lo = f.set.min()
	}
	if f.z {
		for x, d := range st.spfa(s, false) { // x - s <= d  =>  s >= x - d
			if x == s {
				continue
			}
			if fx := st.fact(x); fx != nil && len(fx.set) > 0 {
				if l := satAdd(fx.set.min(), -d); l > lo {
					lo = l
				}
			}
		}
	}
	return lo
}

// ub is an upper bound of a-b (posInf: unknown).
func (st *State) ub(a, b V) int64 {
	if a.S == b.S {
		return a.K - b.K
	}
	k := a.K - b.K
	if b.S == zeroSym {
		return satAdd(st.hiSym(a.S), k)
	}
	if a.S == zeroSym {
		return satAdd(satNeg(st.loSym(b.S)), k)
	}
	best := int64(posInf)
	if d, ok := st.spfa(a.S, true)[b.S]; ok {
		best = d
	}
	if x := satAdd(st.hiSym(a.S), satNeg(st.loSym(b.S))); x < best {
		best = x
	}
	return satAdd(best, k)
}

func (st *State) lb(a, b V) int64 { return satNeg(st.ub(b, a)) }

// setOf is the set of values of an integer.
func (st *State) setOf(v V) IntSet {
	if v.S == zeroSym {
		return setConst(v.K)
	}
	f := st.f(v)
	s := f.set
	if f.z && st.row(v.S) != nil {
		s = s.inter(setRange(st.loSym(v.S), st.hiSym(v.S)))
	}
	return s.shift(v.K)
}

func (st *State) constOf(v V) (int64, bool) {
	if v.S == zeroSym {
		return v.K, true
	}
	f := st.fact(v.S)
	if f == nil || (f.kind != KInt && f.kind != KBool) {
		return 0, false
	}
	return st.setOf(v).isConst()
}

// addLE records a-b <= c. It returns false when that is impossible.
func (st *State) addLE(a, b V, c int64) bool {
	c = c - a.K + b.K // symbols only
	if c >= 1<<60 {
		return true
	}
	if a.S == b.S {
		if c < 0 {
			st.dead = true
			return false
		}
		return true
	}
	if u := st.ub(V{b.S, 0}, V{a.S, 0}); u != posInf && u+c < 0 {
		st.dead = true
		return false
	}
	if st.ub(V{a.S, 0}, V{b.S, 0}) <= c {
		return true
	}
	if b.S == zeroSym {
		return st.meetSet(V{a.S, 0}, setRange(negInf, c))
	}
	if a.S == zeroSym {
		return st.meetSet(V{b.S, 0}, setRange(-c, posInf))
	}
	fa, fb := st.f(a), st.f(b)
	if !fa.z || !fb.z {
		// only intervals
		if h := st.hiSym(b.S); h != posInf {
			if !st.meetSet(V{a.S, 0}, setRange(negInf, satAdd(h, c))) {
				return false
			}
		}
		if l := st.loSym(a.S); l != negInf {
			return st.meetSet(V{b.S, 0}, setRange(satAdd(l, -c), posInf))
		}
		return true
	}
	st.addEdge(a.S, b.S, c)
	return true
}

func (st *State) addEdge(a, b Sym, c int64) {
	ra := &zrow{}
	if r := st.row(a); r != nil {
		*ra = *r
	}
	ra.out = putEdge(ra.out, b, c)
	st.zone = st.zone.set(int(a), ra)
	rb := &zrow{}
	if r := st.row(b); r != nil {
		*rb = *r
	}
	rb.in = putEdge(rb.in, a, c)
	st.zone = st.zone.set(int(b), rb)
}

// edge tells whether a bound on a-b is written down.
func (st *State) edge(a, b Sym) bool {
	if r := st.row(a); r != nil {
		for _, e := range r.out {
			if e.o == b {
				return true
			}
		}
	}
	return false
}

func putEdge(es []zedge, o Sym, c int64) []zedge {
	out := make([]zedge, 0, len(es)+1)
	done := false
	for _, e := range es {
		if e.o == o {
			if c < e.c {
				e.c = c
			}
			done = true
		}
		out = append(out, e)
	}
	if !done {
		out = append(out, zedge{o, c})
	}
	return out
}

// meetSet restricts an integer to a set.
func (st *State) meetSet(v V, s IntSet) bool {
	if v.S == zeroSym {
		if !s.has(v.K) {
			st.dead = true
			return false
		}
		return true
	}
	s = s.shift(-v.K)
	f := st.f(v)
	ns := f.set.inter(s)
	if ns.empty() {
		st.dead = true
		return false
	}
	if !ns.eq(f.set) {
		nf := f.clone()
		nf.set = ns
		st.setFact(v.S, nf)
		if f.z && st.row(v.S) != nil && st.loSym(v.S) > st.hiSym(v.S) {
			st.dead = true
			return false
		}
	}
	return true
}

func (st *State) assumeEq(a, b V) bool {
	if a == b {
		return true
	}
	if !st.meetSet(a, st.setOf(b)) || !st.meetSet(b, st.setOf(a)) {
		return false
	}
	return st.addLE(a, b, 0) && st.addLE(b, a, 0)
}

func (st *State) assumeNe(a, b V) bool {
	if k, ok := st.constOf(b); ok {
		if !st.meetSet(a, setAll().without(k)) {
			return false
		}
	} else if k, ok := st.constOf(a); ok {
		if !st.meetSet(b, setAll().without(k)) {
			return false
		}
	}
	u, l := st.ub(a, b), st.lb(a, b)
	if u == 0 && l == 0 {
		st.dead = true
		return false
	}
	if u == 0 {
		return st.addLE(a, b, -1)
	}
	if l == 0 {
		return st.addLE(b, a, -1)
	}
	return true
}

// cmp decides a op b: 1 true, 0 false, -1 unknown.
func (st *State) cmpInt(op token.Token, a, b V) int {
	switch op {
	case token.EQL, token.NEQ:
		eq := -1
		if a == b {
			eq = 1
		} else if st.setOf(a).inter(st.setOf(b)).empty() {
			eq = 0
		} else {
			u, l := st.ub(a, b), st.lb(a, b)
			if u == 0 && l == 0 {
				eq = 1
			} else if u < 0 || l > 0 {
				eq = 0
			}
		}
		if eq >= 0 && op == token.NEQ {
			eq = 1 - eq
		}
		return eq
	case token.LSS:
		if st.ub(a, b) < 0 {
			return 1
		}
		if st.lb(a, b) >= 0 {
			return 0
		}
	case token.LEQ:
		if st.ub(a, b) <= 0 {
			return 1
		}
		if st.lb(a, b) > 0 {
			return 0
		}
	case token.GTR:
		return st.cmpInt(token.LSS, b, a)
	case token.GEQ:
		return st.cmpInt(token.LEQ, b, a)
	}
	return -1
}

func (st *State) assumeInt(op token.Token, a, b V) bool {
	switch op {
	case token.EQL:
		return st.assumeEq(a, b)
	case token.NEQ:
		return st.assumeNe(a, b)
	case token.LSS:
		return st.addLE(a, b, -1)
	case token.LEQ:
		return st.addLE(a, b, 0)
	case token.GTR:
		return st.addLE(b, a, -1)
	case token.GEQ:
		return st.addLE(b, a, 0)
	}
	return true
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	}
	return op
}

// typeRange is the value range of an integer type.
func typeRange(t types.Type) IntSet {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return setAll()
	}
	switch b.Kind() {
	case types.Int8:
		return setRange(-128, 127)
	case types.Int16:
		return setRange(-1<<15, 1<<15-1)
	case types.Int32, types.UntypedRune:
		return setRange(-1<<31, 1<<31-1)
	case types.Uint8:
		return setRange(0, 255)
	case types.Uint16:
		return setRange(0, 1<<16-1)
	case types.Uint32:
		return setRange(0, 1<<32-1)
	case types.Uint, types.Uint64, types.Uintptr:
		return setRange(0, posInf)
	}
	return setAll()
}

func isZType(t types.Type) bool {
	// plain int only: tokens, runes and bytes are enumerations
	b, ok := t.(*types.Basic)
	if !ok {
		if al, isA := t.(*types.Alias); isA {
			return isZType(types.Unalias(al))
		}
		return false
	}
	switch b.Kind() {
	case types.Int, types.UntypedInt, types.Int64, types.Uint:
		return true
	}
	return false
}

const maxLen = 1 << 40

func (st *State) freshInt(t types.Type, s IntSet) V {
	if k, ok := s.isConst(); ok {
		return C(k)
	}
	return st.fresh(&Fact{kind: KInt, typ: t, set: s, z: isZType(t)})
}

var intType types.Type = types.Typ[types.Int]

func (st *State) freshLen() V { return st.freshInt(intType, setRange(0, maxLen)) }

// fit makes an arithmetic result of type t: v when it provably fits, else unknown.
func (st *State) fit(v V, t types.Type) V {
	r := typeRange(t)
	s := st.setOf(v)
	if s.subset(r) {
		if (s.min() == negInf || s.max() == posInf) && v.K != 0 && !(st.a.NoWrap && isZType(t)) {
			// may wrap around
			return st.freshInt(t, r)
		}
		return v
	}
	return st.freshInt(t, r)
}

func (st *State) addV(a, b V, t types.Type) V {
	if k, ok := st.constOf(b); ok {
		return st.fit(V{a.S, a.K + k}, t)
	}
	if k, ok := st.constOf(a); ok {
		return st.fit(V{b.S, b.K + k}, t)
	}
	sa, sb := st.setOf(a), st.setOf(b)
	s := setRange(satAdd(sa.min(), sb.min()), satAdd(sa.max(), sb.max()))
	r := typeRange(t)
	if s.min() == negInf || s.max() == posInf || !s.subset(r) {
		return st.freshInt(t, r)
	}
	// a + (X - a) is X
	for _, p := range [2][2]V{{a, b}, {b, a}} {
		if f := st.fact(p[1].S); f != nil && f.def != nil && f.def.Op == token.SUB && f.def.Y.S == p[0].S {
			return st.fit(V{f.def.X.S, f.def.X.K + p[0].K - f.def.Y.K + p[1].K}, t)
		}
	}
	if v, ok := st.sameDef(token.ADD, a, b); ok {
		return st.fit(v, t)
	}
	if v, ok := st.sameDef(token.ADD, b, a); ok {
		return st.fit(v, t)
	}
	n := st.freshInt(t, s)
	if n.S == zeroSym {
		return n
	}
	nf := st.f(n).clone()
	nf.def = &Def{token.ADD, a, b}
	st.setFact(n.S, nf)
	st.addLE(n, a, sb.max())
	st.addLE(a, n, -sb.min())
	st.addLE(n, b, sa.max())
	st.addLE(b, n, -sa.min())
	// b <= X - a + d gives a + b <= X + d
	bound := func(a, b V) {
		for y, d := range st.spfa(b.S, true) {
			fy := st.fact(y)
			if fy == nil || fy.def == nil || fy.def.Op != token.SUB || fy.def.Y.S != a.S {
				continue
			}
			// b - b.K - y <= d; y = X - Y
			x := fy.def.X
			st.addLE(n, V{x.S, 0}, x.K+a.K-fy.def.Y.K+d+b.K)
		}
	}
	bound(a, b)
	bound(b, a)
	return n
}

// sameDef finds a symbol that is defined as the same operation.
func (st *State) sameDef(op token.Token, a, b V) (V, bool) {
	r := st.row(b.S)
	if r == nil {
		return V{}, false
	}
	for _, es := range [][]zedge{r.out, r.in} {
		for _, e := range es {
			f := st.fact(e.o)
			if f != nil && f.def != nil && f.def.Op == op && f.def.X.S == a.S && f.def.Y.S == b.S {
				k := a.K - f.def.X.K
				if op == token.ADD {
					k += b.K - f.def.Y.K
				} else {
					k -= b.K - f.def.Y.K
				}
				return V{e.o, k}, true
			}
		}
	}
	return V{}, false
}

func (st *State) subV(a, b V, t types.Type) V {
	if k, ok := st.constOf(b); ok {
		return st.fit(V{a.S, a.K - k}, t)
	}
	if a.S == b.S {
		return C(a.K - b.K)
	}
	u, l := st.ub(a, b), st.lb(a, b)
	if u == l && u != posInf && u != negInf {
		return st.fit(C(u), t)
	}
	s := setRange(l, u)
	r := typeRange(t)
	if l == negInf || u == posInf || !s.subset(r) {
		s = s.inter(r)
		full := st.setOf(a)
		fb := st.setOf(b)
		if full.min() == negInf || full.max() == posInf || fb.min() == negInf || fb.max() == posInf || s.empty() || !setRange(l, u).subset(r) {
			n := st.freshInt(t, r)
			return n
		}
	}
	n := st.freshInt(t, s)
	if n.S == zeroSym {
		return n
	}
	nf := st.f(n).clone()
	nf.def = &Def{token.SUB, a, b}
	st.setFact(n.S, nf)
	// n = a - b
	sb := st.setOf(b)
	st.addLE(n, a, satNeg(sb.min()))
	st.addLE(a, n, sb.max())
	return n
}

// ---- printing (diagnostics only) ----

func (st *State) show(v V) string { return st.showD(v, 0) }

func (st *State) showD(v V, d int) string {
	if v.undef() {
		return "_"
	}
	if v.S == zeroSym {
		return fmt.Sprint(v.K)
	}
	f := st.fact(v.S)
	if f == nil {
		return fmt.Sprintf("s%d?", v.S)
	}
	p := fmt.Sprintf("s%d", v.S)
	if v.K != 0 {
		p += fmt.Sprintf("%+d", v.K)
	}
	if d > 4 {
		return p
	}
	nl := ""
	if f.nil3 == mayNil {
		nl = "nil"
	} else if f.nil3 == 3 {
		nl = "nil?"
	}
	switch f.kind {
	case KInt, KBool:
		return p + st.setOf(v).String()
	case KStr:
		if f.con {
			return fmt.Sprintf("%q", f.str)
		}
		var b []string
		for _, x := range f.parts {
			switch x.Kind {
			case 'c':
				b = append(b, fmt.Sprintf("%q", x.Str))
			case 's':
				b = append(b, "src["+st.showD(x.Lo, d+1)+":"+st.showD(x.Hi, d+1)+"]")
			case 'r':
				b = append(b, "rune("+st.showD(x.R, d+1)+")")
			case 'u':
				b = append(b, "str "+fmt.Sprint(x.U.S))
			}
		}
		return p + "str(" + strings.Join(b, "+") + ")"
	case KPtr, KMap:
		var b []string
		for _, t := range f.tg {
			b = append(b, fmt.Sprintf("o%d%v", t.Obj, t.Path))
		}
		if f.opq {
			b = append(b, "?")
		}
		return p + nl + "->" + strings.Join(b, "|")
	case KIface:
		var b []string
		for _, t := range f.alts {
			b = append(b, types.TypeString(t.T, func(p *types.Package) string { return p.Name() })+"="+st.showD(t.P, d+1))
		}
		if f.opq {
			b = append(b, "?")
		}
		return p + nl + "<" + strings.Join(b, "|") + ">"
	case KSlice:
		return p + nl + "[" + st.showD(f.arr, d+1) + " lo=" + st.showD(f.lo, d+1) + " len=" + st.showD(f.ln, d+1) + "]"
	case KStruct, KTuple:
		var b []string
		for _, e := range f.elems {
			b = append(b, st.showD(e, d+1))
		}
		return p + "{" + strings.Join(b, ",") + "}"
	case KFunc:
		var b []string
		for _, e := range f.fns {
			b = append(b, e.Fn.Name())
		}
		return p + nl + "fn(" + strings.Join(b, "|") + ")"
	case KArray:
		var b []string
		for _, m := range f.memo {
			b = append(b, st.showD(m.Idx, d+1)+":"+st.showD(m.Val, d+1))
		}
		return p + "arr{" + strings.Join(b, ", ") + "}"
	}
	return p
}
