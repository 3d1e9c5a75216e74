package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
)

// pk identifies a pair of values (l+k, r+k+d). A zero symbol marks an absent side.
type pk struct {
	l, r Sym
	d    int64
}

type sideObj struct {
	right bool
	id    int
}

type joiner struct {
	a         *Analyzer
	L, R, out *State
	syms      map[pk]Sym
	claimed   map[Sym]pk
	parent    map[sideObj]sideObj
	lm, rm    map[sideObj][]int // members by root
	done      map[sideObj]bool
	queue     []sideObj
	restart   bool
	changed   bool
	widen     int
	why       string
	deferArr  []func()
}

func (j *joiner) change(why string) {
	if !j.changed {
		j.changed = true
		j.why = why
	}
}

// join computes an upper bound of two states of the same program point. changed tells
// whether it is weaker than l.
func (a *Analyzer) join(l, r *State, widen int) (*State, bool, *joiner) {
	a.Joins++
	j := &joiner{a: a, widen: widen, parent: map[sideObj]sideObj{}, lm: map[sideObj][]int{}, rm: map[sideObj][]int{}}
	if a.GCText {
		l, r = l.clone(), r.clone()
		l.gcText()
		r.gcText()
	}
	for _, g := range a.globalObjs {
		// a variable one side has not touched yet has its first value there
		_, inL := l.heap.get(g)
		_, inR := r.heap.get(g)
		if inL != inR {
			l, r = l.clone(), r.clone()
			if inL {
				a.initGlobal(r, a.globalByID[g])
			} else {
				a.initGlobal(l, a.globalByID[g])
			}
		}
	}
	for n := 0; ; n++ {
		j.L, j.R = l.clone(), r.clone()
		j.out = &State{a: a, top: l.top, stack: l.stack, trace: l.trace, panicking: l.panicking, panicMsg: l.panicMsg, panicPos: l.panicPos, panicFn: l.panicFn}
		j.syms = map[pk]Sym{}
		j.claimed = map[Sym]pk{}
		j.done = map[sideObj]bool{}
		j.queue = nil
		j.restart = false
		j.deferArr = nil
		j.run()
		if !j.restart || n > 200 {
			break
		}
		// what was made known on the way stays so: the classes refer to it
		l, r = j.L, j.R
	}
	return j.out, j.changed, j
}

func (j *joiner) find(x sideObj) sideObj {
	p, ok := j.parent[x]
	if !ok {
		j.parent[x] = x
		if x.right {
			j.rm[x] = []int{x.id}
		} else {
			j.lm[x] = []int{x.id}
		}
		// the same allocation on the other side belongs to the same class
		o := sideObj{!x.right, x.id}
		var other *State
		if x.right {
			other = j.L
		} else {
			other = j.R
		}
		if _, ok := other.heap.get(x.id); ok {
			if _, seen := j.parent[o]; !seen {
				j.parent[o] = x
				if o.right {
					j.rm[x] = append(j.rm[x], o.id)
				} else {
					j.lm[x] = append(j.lm[x], o.id)
				}
			} else {
				j.union(x, o)
			}
		}
		return j.find(x)
	}
	if p == x {
		return x
	}
	r := j.find(p)
	j.parent[x] = r
	return r
}

func (j *joiner) union(x, y sideObj) {
	a, b := j.find(x), j.find(y)
	if a == b {
		return
	}
	if j.done[a] || j.done[b] {
		j.restart = true
	}
	j.parent[b] = a
	j.lm[a] = append(j.lm[a], j.lm[b]...)
	j.rm[a] = append(j.rm[a], j.rm[b]...)
	delete(j.lm, b)
	delete(j.rm, b)
}

// class returns the object id of a class in the result and schedules its contents.
func (j *joiner) class(x sideObj) int {
	if j.a.gobjs[x.id] != nil {
		return x.id
	}
	c := j.find(x)
	id := 0
	for _, m := range j.lm[c] {
		if id == 0 || m < id {
			id = m
		}
	}
	if id == 0 {
		for _, m := range j.rm[c] {
			if id == 0 || m < id {
				id = m
			}
		}
	}
	if !j.done[c] {
		j.done[c] = true
		j.queue = append(j.queue, c)
	}
	return id
}

func (j *joiner) run() {
	l, r := j.L, j.R
	j.out.dead = false
	j.out.top = j.frame(l.top, r.top)
	j.out.stack = j.frames(l.stack, r.stack)
	if l.panicking {
		j.out.panicV = j.pair(l.panicV, r.panicV)
	}
	j.out.ghosts = nil
	for _, g := range l.ghosts {
		rv, ok := r.ghost(g.name)
		if !ok {
			if g.name != "" && g.name[0] == '?' {
				j.change("ghost " + g.name)
				continue // fact known on one side only
			}
			rv = C(0)
		}
		j.out.ghosts = append(j.out.ghosts, Ghost{g.name, j.pair(g.v, rv)})
	}
	for _, g := range r.ghosts {
		if _, ok := l.ghost(g.name); !ok && g.name[0] != '?' {
			j.out.ghosts = append(j.out.ghosts, Ghost{g.name, j.pair(C(0), g.v)})
		}
	}
	sort.Slice(j.out.ghosts, func(a, b int) bool { return j.out.ghosts[a].name < j.out.ghosts[b].name })
	j.out.events = j.joinEvents(l.events, r.events)
	for _, g := range j.a.globalObjs {
		if _, ok := l.heap.get(g); !ok {
			continue // neither side has it
		}
		j.class(sideObj{false, g})
	}
	if j.widen > 0 {
		j.widenSites()
	}
	for {
		if j.restart {
			return
		}
		if len(j.queue) > 0 {
			c := j.queue[0]
			j.queue = j.queue[1:]
			j.object(c)
			continue
		}
		if len(j.deferArr) > 0 {
			d := j.deferArr
			j.deferArr = nil
			for _, f := range d {
				f()
			}
			continue
		}
		break
	}
	if j.restart {
		return
	}
	j.zone()
}

// widenSites stops allocation sites in loops from producing ever more objects.
func (j *joiner) widenSites() {
	bySite := map[string][]int{}
	j.L.heap.each(func(id int, o *Object) {
		if o.site != "" && o.site != "global" {
			bySite[o.site] = append(bySite[o.site], id)
		}
	})
	j.R.heap.each(func(id int, o *Object) {
		if o.site == "" || o.site == "global" {
			return
		}
		if _, ok := j.L.heap.get(id); ok {
			return
		}
		ids := bySite[o.site]
		if len(ids) > 6 {
			j.union(sideObj{false, ids[len(ids)-1]}, sideObj{true, id})
		}
	})
}

func (j *joiner) joinEvents(l, r *Event) *Event {
	if l == r && l == nil {
		return nil
	}
	if l == nil || r == nil || l.name != r.name || l.n != r.n || len(l.args) != len(r.args) {
		j.a.fail("event lists differ at a join")
		return l
	}
	e := *l
	e.prev = j.joinEvents(l.prev, r.prev)
	e.args = make([]V, len(l.args))
	for i := range e.args {
		e.args[i] = j.pair(l.args[i], r.args[i])
	}
	return &e
}

func (j *joiner) frames(l, r *frameNode) *frameNode {
	if l == nil || r == nil {
		return nil
	}
	return &frameNode{f: j.frame(l.f, r.f), next: j.frames(l.next, r.next), n: l.n}
}

func (j *joiner) frame(l, r *Frame) *Frame {
	if l == nil || r == nil {
		return l
	}
	f := *l
	f.regs = pmap[V]{}
	l.regs.each(func(k int, v V) {
		w, ok := r.regs.get(k)
		if !ok {
			j.change("reg dropped")
			return
		}
		f.regs = f.regs.set(k, j.pair(v, w))
	})
	f.defers = nil
	for i, d := range l.defers {
		if i >= len(r.defers) {
			break
		}
		e := r.defers[i]
		n := d
		n.fn = j.pair(d.fn, e.fn)
		n.args = make([]V, len(d.args))
		for k := range d.args {
			n.args[k] = j.pair(d.args[k], e.args[k])
		}
		f.defers = append(f.defers, n)
	}
	f.loops = nil
	for i, lc := range l.loops {
		if i >= len(r.loops) {
			break
		}
		rc := r.loops[i]
		n := lc
		n.snap = nil
		for _, s := range lc.snap {
			for _, t := range rc.snap {
				if s.name == t.name {
					n.snap = append(n.snap, Snap{s.name, j.pair(s.v, t.v)})
				}
			}
		}
		f.loops = append(f.loops, n)
	}
	return &f
}

func (j *joiner) object(c sideObj) {
	lms, rms := j.lm[c], j.rm[c]
	side := func(st *State, ids []int) (V, *Object, bool) {
		var v V
		var o *Object
		sum := len(ids) > 1
		for _, id := range ids {
			p := st.obj(id)
			if o == nil {
				q := *p
				o = &q
			} else {
				o.lazy = o.lazy || p.lazy
				o.ro = o.ro || p.ro
				if o.site != p.site {
					o.site = "merged"
				}
			}
			sum = sum || p.summary
			if v.undef() {
				v = p.root
			} else {
				v = st.mergeRoot(v, p.root)
			}
		}
		return v, o, sum
	}
	lv, lo, ls := side(j.L, lms)
	rv, ro, rs := side(j.R, rms)
	var o Object
	switch {
	case lo == nil:
		o = *ro
		j.change("new object " + ro.site)
	case ro == nil:
		o = *lo
	default:
		o = *lo
		o.lazy = lo.lazy || ro.lazy
		o.ro = lo.ro || ro.ro
		if len(lms) == 1 && len(rms) == 1 && lo.site != ro.site {
			o.site = lo.site
		}
	}
	o.summary = ls || rs
	if lo != nil && o.summary && (!ls || len(lms) > 1) {
		j.change("object summarised " + o.site)
	}
	o.id = j.class(c)
	o.root = j.pair(lv, rv)
	j.out.heap = j.out.heap.set(o.id, &o)
}

// mergeRoot merges the contents of two objects of one state.
func (st *State) mergeRoot(x, y V) V {
	if x == y {
		return x
	}
	fx, fy := st.fact(x.S), st.fact(y.S)
	if fx != nil && fy != nil && fx.kind == KArray && fy.kind == KArray {
		n := &Fact{kind: KArray, typ: fx.typ, text: fx.text}
		ax, ay := st.allElems(x), st.allElems(y)
		n.defK = defSum
		switch {
		case fx.defK == defHavoc || fy.defK == defHavoc:
			n.defK = defHavoc
		case ax.undef() && ay.undef():
			n.defK = defNone
		case ax.undef():
			n.dflt = ay
		case ay.undef():
			n.dflt = ax
		default:
			n.dflt = st.mergeV(ax, ay)
		}
		if !fx.ln.undef() && !fy.ln.undef() {
			n.ln = st.mergeV(fx.ln, fy.ln)
		}
		return st.fresh(n)
	}
	if fx != nil && fy != nil && fx.kind == KMapC && fy.kind == KMapC {
		n := &Fact{kind: KMapC, typ: fx.typ}
		for _, f := range []*Fact{fx, fy} {
			for _, e := range f.ents {
				n.restV = st.mergeV(n.restV, e.Val)
				n.rest = mayNon
			}
			n.rest |= f.rest
			if !f.restV.undef() {
				n.restV = st.mergeV(n.restV, f.restV)
			} else if f.rest != 0 {
				n.restV = V{}
			}
		}
		n.opq = true
		return st.fresh(n)
	}
	return st.mergeV(x, y)
}

func (j *joiner) name(p pk) (Sym, bool) {
	if s, ok := j.syms[p]; ok {
		return s, true
	}
	var s Sym
	if p.l != 0 {
		_, glob := j.a.gfacts[p.l]
		if _, used := j.claimed[p.l]; !used && !glob {
			s = p.l
			j.claimed[p.l] = p
		} else {
			s = j.a.newSym()
			if p.r != 0 {
				if used {
					j.change(fmt.Sprintf("equality lost %d,%d%+d vs %v: %s / %s", p.l, p.r, p.d, j.claimed[p.l], j.L.show(V{p.l, 0}), j.R.show(V{p.r, 0})))
				}
			}
		}
	} else {
		s = j.a.newSym()
	}
	j.syms[p] = s
	return s, false
}

// pair is the value that stands for l on the left and r on the right.
func (j *joiner) pair(l, r V) V {
	if l.undef() && r.undef() {
		return V{}
	}
	if l == r && !l.undef() {
		if _, glob := j.a.gfacts[l.S]; glob {
			return l
		}
	}
	var fl, fr *Fact
	if !l.undef() {
		fl = j.L.f(l)
	}
	if !r.undef() {
		fr = j.R.f(r)
	}
	one := fl
	if one == nil || (l.S == zeroSym && fr != nil) {
		one = fr
	}
	p := pk{l.S, r.S, 0}
	if fl != nil && fr != nil {
		p.d = r.K - l.K
	}
	k := l.K
	if fl == nil {
		k = r.K
	}
	if fl == nil || fr == nil {
		if _, glob := j.a.gfacts[p.l|p.r]; glob && (fl == nil) != (fr == nil) {
			// one-sided constants keep their name
			if fl != nil {
				return l
			}
			return r
		}
	}
	if one.kind == KInt || one.kind == KBool {
		s, known := j.name(p)
		if !known {
			j.out.facts = j.out.facts.set(int(s), j.intFact(p, fl, fr, one))
		}
		return V{s, k}
	}
	if fl != nil && fr != nil && fl.kind != fr.kind {
		s, known := j.name(p)
		if !known {
			j.change("kinds differ")
			j.out.facts = j.out.facts.set(int(s), &Fact{kind: fl.kind, typ: fl.typ, nil3: 3, opq: true})
		}
		return V{s, 0}
	}
	// constants
	if fl != nil && fr != nil {
		if (fl.kind == KStr || fl.kind == KFloat) && fl.con && fr.con && fl.str == fr.str {
			if fl.kind == KStr {
				return j.a.strConst(fl.str)
			}
			return l
		}
	}
	s, known := j.name(p)
	if known {
		return V{s, 0}
	}
	if fl != nil && fr != nil && l.S != r.S {
		if _, g := j.a.gfacts[l.S]; g && fl.kind != KPtr {
			// a constant became unknown; facts tell
		}
	}
	nf := j.fact(l, r, fl, fr)
	j.out.facts = j.out.facts.set(int(s), nf)
	return V{s, 0}
}

var thresholds = []int64{-1, 0, 1, 2, 4, 8, 16, 64, 255, 1 << 16, 0x10FFFF, 1 << 31, maxLen}

var zThresholds = []int64{-1, 0, 1, 2, maxLen, maxLen + 1<<20, 1 << 41}

func (j *joiner) intFact(p pk, fl, fr, one *Fact) *Fact {
	n := &Fact{kind: one.kind, typ: one.typ, z: one.z}
	if fl != nil && fr != nil {
		n.z = (fl.z || p.l == zeroSym) && (fr.z || p.r == zeroSym)
	}
	var sl, sr IntSet
	if fl != nil {
		sl = j.L.setOf(V{p.l, 0})
	}
	if fr != nil {
		sr = j.R.setOf(V{p.r, 0}).shift(p.d)
	}
	n.set = sl.union(sr)
	if fl != nil && fr != nil {
		if j.widen > 2 && len(fl.set) > 0 && p.l != zeroSym {
			// what follows from other values is not written down, or two of them keep each
			// other growing
			sl = fl.set
			n.set = sl.union(sr)
		}
		if p.l == p.r && p.d == 0 && fl.def != nil && fl.def == fr.def {
			n.def = &Def{fl.def.Op, j.pair(fl.def.X, fr.def.X), j.pair(fl.def.Y, fr.def.Y)}
		}
		if !sr.subset(sl) {
			j.change("set " + sl.String() + " grows by " + sr.String())
			if j.widen > 0 && n.z || j.widen > 1 {
				r := setAll()
				if n.typ != nil {
					r = typeRange(n.typ)
				}
				thresholds := thresholds
				if n.z {
					thresholds = zThresholds
				}
				lo, hi := sl.min(), sl.max()
				if n.set.max() > hi {
					hi = posInf
					for _, t := range thresholds {
						if t >= n.set.max() {
							hi = t
							break
						}
					}
				}
				if n.set.min() < lo {
					lo = negInf
					for i := len(thresholds) - 1; i >= 0; i-- {
						if thresholds[i] <= n.set.min() {
							lo = thresholds[i]
							break
						}
					}
				}
				if j.widen > 2 {
					lo, hi = negInf, posInf
					if n.set.min() >= 0 {
						lo = 0
					}
				}
				n.set = setRange(lo, hi).inter(r)
				if n.set.empty() {
					n.set = r
				}
			}
		}
	}
	return n
}

func (j *joiner) fact(l, r V, fl, fr *Fact) *Fact {
	if fl == nil || fr == nil {
		return j.oneSided(l, r, fl, fr)
	}
	n := &Fact{kind: fl.kind, typ: fl.typ, nil3: fl.nil3 | fr.nil3, opq: fl.opq || fr.opq, tag: fl.tag}
	if n.typ == nil {
		n.typ = fr.typ
	}
	if n.nil3 != fl.nil3 {
		j.change("nilness")
	}
	if n.opq && !fl.opq {
		j.change("unknown target")
	}
	if fl.tag != fr.tag {
		n.tag = ""
		if fl.tag != "" {
			j.change("tag")
		}
	}
	switch fl.kind {
	case KStr:
		j.strFact(n, l, r, fl, fr)
	case KFloat:
		if fl.con && !(fr.con && fl.str == fr.str) {
			j.change("float")
		}
	case KPtr, KMap:
		j.targets(n, fl.tg, fr.tg)
	case KIface:
		j.ifaceFact(n, fl, fr)
	case KFunc:
		for _, x := range fl.fns {
			m := FnAlt{x.Fn, make([]V, len(x.Binds))}
			found := false
			for _, y := range fr.fns {
				if y.Fn == x.Fn {
					found = true
					for i := range m.Binds {
						m.Binds[i] = j.pair(x.Binds[i], y.Binds[i])
					}
				}
			}
			if !found {
				for i := range m.Binds {
					m.Binds[i] = j.pair(x.Binds[i], V{})
				}
			}
			n.fns = append(n.fns, m)
		}
		for _, y := range fr.fns {
			found := false
			for _, x := range fl.fns {
				found = found || x.Fn == y.Fn
			}
			if !found {
				j.change("function target")
				m := FnAlt{y.Fn, make([]V, len(y.Binds))}
				for i := range m.Binds {
					m.Binds[i] = j.pair(V{}, y.Binds[i])
				}
				n.fns = append(n.fns, m)
			}
		}
	case KSlice:
		n.arr = j.pair(fl.arr, fr.arr)
		if fl.arr.undef() && !fr.arr.undef() {
			j.change("slice array")
		}
		n.lo = j.pair(orC(fl.lo), orC(fr.lo))
		n.ln = j.pair(orC(fl.ln), orC(fr.ln))
		n.cap = j.pair(orC(fl.cap), orC(fr.cap))
	case KStruct, KTuple:
		j.structFact(n, l, r, fl, fr)
	case KArray:
		j.arrayFact(n, l, r, fl, fr)
	case KMapC:
		j.mapFact(n, l, r, fl, fr)
	}
	return n
}

func (j *joiner) oneSided(l, r V, fl, fr *Fact) *Fact {
	f := fl
	st := j.L
	imp := func(v V) V { return j.pair(v, V{}) }
	right := false
	if f == nil {
		f = fr
		st = j.R
		imp = func(v V) V { return j.pair(V{}, v) }
		right = true
	}
	_ = st
	n := f.clone()
	n.memo, n.pos, n.wide, n.def = nil, nil, nil, nil
	n.strIdx, n.strTab = V{}, V{}
	switch f.kind {
	case KStr:
		n.parts = nil
		for _, p := range f.parts {
			n.parts = append(n.parts, impPart(p, imp))
		}
		n.ln = imp(f.ln)
	case KPtr, KMap:
		n.tg = nil
		for _, t := range f.tg {
			n.tg = append(n.tg, Target{j.class(sideObj{right, t.Obj}), impPath(t.Path, imp)})
		}
	case KIface:
		n.alts = nil
		for _, al := range f.alts {
			n.alts = append(n.alts, Alt{al.T, imp(al.P)})
		}
	case KFunc:
		n.fns = nil
		for _, g := range f.fns {
			m := FnAlt{g.Fn, make([]V, len(g.Binds))}
			for i := range m.Binds {
				m.Binds[i] = imp(g.Binds[i])
			}
			n.fns = append(n.fns, m)
		}
	case KSlice:
		n.arr, n.lo, n.ln, n.cap = imp(f.arr), imp(f.lo), imp(f.ln), imp(f.cap)
	case KStruct, KTuple:
		n.elems = make([]V, len(f.elems))
		for i, e := range f.elems {
			n.elems[i] = imp(e)
		}
	case KArray:
		n.ln = imp(f.ln)
		n.dflt = imp(f.dflt)
		for _, m := range f.memo {
			n.memo = append(n.memo, Memo{imp(m.Idx), imp(m.Val)})
		}
		for _, p := range f.pos {
			n.pos = append(n.pos, PosFact{imp(p.Idx), imp(p.NL), imp(p.LN), imp(p.NW)})
		}
		for _, w := range f.wide {
			n.wide = append(n.wide, Wide{imp(w.Idx), imp(w.R), imp(w.W)})
		}
	case KMapC:
		n.ents = nil
		for _, e := range f.ents {
			n.ents = append(n.ents, MapEnt{imp(e.Key), imp(e.Pres), imp(e.Val)})
		}
		n.restV = imp(f.restV)
		n.ln = imp(f.ln)
	}
	return n
}

func impPart(p Part, imp func(V) V) Part {
	p.Arr, p.Lo, p.Hi, p.R, p.U = imp(p.Arr), imp(p.Lo), imp(p.Hi), imp(p.R), imp(p.U)
	return p
}

func impPath(path []Step, imp func(V) V) []Step {
	out := make([]Step, len(path))
	for i, s := range path {
		s.Idx = imp(s.Idx)
		out[i] = s
	}
	return out
}

func (j *joiner) strFact(n *Fact, l, r V, fl, fr *Fact) {
	n.ln = j.pair(j.L.strLen(l), j.R.strLen(r))
	if fl.con && !fr.con || fl.con && fr.str != fl.str {
		j.change("string constant")
	}
	// a string of another length is a different one, too
	longer := func(s *State, f *Fact, v V, x string) bool {
		return !f.con && s.cmpInt(token.EQL, s.strLen(v), C(int64(len(x)))) == 0
	}
	for _, y := range fr.strNe {
		if !hasStr(fl.strNe, y) && longer(j.L, fl, l, y) {
			n.strNe = append(n.strNe, y)
		}
	}
	for _, x := range fl.strNe {
		keep := fr.con && fr.str != x || longer(j.R, fr, r, x)
		for _, y := range fr.strNe {
			keep = keep || x == y
		}
		if keep {
			n.strNe = append(n.strNe, x)
		} else {
			j.change("string inequality")
		}
	}
	if fl.con && len(fr.strNe) > 0 {
		for _, y := range fr.strNe {
			if y != fl.str {
				n.strNe = append(n.strNe, y)
			}
		}
	}
	// string sets
	if ls, rs := strAlts(fl), strAlts(fr); ls != nil && rs != nil {
		u := append([]string(nil), ls...)
		for _, s := range rs {
			if !hasStr(u, s) {
				u = append(u, s)
				j.change("string set")
			}
		}
		if len(u) <= 64 {
			sort.Strings(u)
			n.strSet = u
		}
	} else if fl.strSet != nil {
		j.change("string set lost")
	}
	if !fl.strIdx.undef() && !fr.strIdx.undef() && fl.strTab == fr.strTab {
		n.strIdx, n.strTab = j.pair(fl.strIdx, fr.strIdx), j.pair(fl.strTab, fr.strTab)
	}
	pl, pr := j.L.rawParts(l), j.R.rawParts(r)
	same := len(pl) == len(pr) && !(len(pl) == 1 && pl[0].Kind == 'u')
	if same {
		for i := range pl {
			if pl[i].Kind != pr[i].Kind || pl[i].Str != pr[i].Str {
				same = false
			}
			if pl[i].Kind == 's' && !j.sameArr(pl[i].Arr, pr[i].Arr) {
				same = false
			}
		}
	}
	if same {
		for i := range pl {
			x, y := pl[i], pr[i]
			n.parts = append(n.parts, Part{Kind: x.Kind, Str: x.Str, Arr: j.pair(x.Arr, y.Arr), Lo: j.pair(x.Lo, y.Lo), Hi: j.pair(x.Hi, y.Hi), R: j.pair(x.R, y.R), U: j.pair(x.U, y.U)})
		}
	} else {
		if len(fl.parts) > 0 && !fl.con {
			j.change("string parts")
		}
		n.opq = true
	}
	for _, m := range fl.memo {
		for _, o := range fr.memo {
			if m.Idx == o.Idx && m.Idx.S == zeroSym {
				n.memo = append(n.memo, Memo{m.Idx, j.pair(m.Val, o.Val)})
			}
		}
	}
}

func strAlts(f *Fact) []string {
	if f.con {
		return []string{f.str}
	}
	return f.strSet
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (j *joiner) sameArr(l, r V) bool {
	if l.undef() || r.undef() {
		return l == r
	}
	fl, fr := j.L.f(l), j.R.f(r)
	if len(fl.tg) != 1 || len(fr.tg) != 1 {
		return false
	}
	if fl.tg[0].Obj == fr.tg[0].Obj {
		return true
	}
	return j.find(sideObj{false, fl.tg[0].Obj}) == j.find(sideObj{true, fr.tg[0].Obj})
}

func samePathShape(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Field != b[i].Field {
			return false
		}
	}
	return true
}

func (j *joiner) targets(n *Fact, lt, rt []Target) {
	usedR := make([]bool, len(rt))
	both := func(x, y Target) {
		if x.Obj != y.Obj || j.a.gobjs[x.Obj] == nil {
			j.union(sideObj{false, x.Obj}, sideObj{true, y.Obj})
		}
		t := Target{j.class(sideObj{false, x.Obj}), make([]Step, len(x.Path))}
		for i := range x.Path {
			t.Path[i] = Step{x.Path[i].Field, V{}}
			if x.Path[i].Field < 0 {
				t.Path[i].Idx = j.pair(x.Path[i].Idx, y.Path[i].Idx)
			}
		}
		if !hasTarget(n.tg, t) {
			n.tg = append(n.tg, t)
		}
	}
	matched := make([]bool, len(lt))
	for pass := 0; pass < 2; pass++ {
		for i, x := range lt {
			if matched[i] {
				continue
			}
			for k, y := range rt {
				if usedR[k] || !samePathShape(x.Path, y.Path) {
					continue
				}
				ok := x.Obj == y.Obj
				if !ok && pass == 1 && j.a.gobjs[x.Obj] == nil && j.a.gobjs[y.Obj] == nil {
					lo, ro := j.L.obj(x.Obj), j.R.obj(y.Obj)
					ok = lo.site == ro.site && lo.site != "global" && lo.site != ""
				}
				if ok {
					usedR[k] = true
					matched[i] = true
					both(x, y)
					break
				}
			}
		}
	}
	for i, x := range lt {
		if matched[i] {
			continue
		}
		// the object may be matched with several right ones through another pointer
		t := Target{j.class(sideObj{false, x.Obj}), impPath(x.Path, func(v V) V { return j.pair(v, V{}) })}
		if !hasTarget(n.tg, t) {
			n.tg = append(n.tg, t)
		}
	}
	for k, y := range rt {
		if usedR[k] {
			continue
		}
		if j.widen >= 2 && j.a.gobjs[y.Obj] == nil {
			// a loop that goes on making objects: the new ones are like the old ones
			site := j.R.obj(y.Obj).site
			old := -1
			for i, x := range lt {
				if site != "" && site != "global" && j.a.gobjs[x.Obj] == nil && j.L.obj(x.Obj).site == site && samePathShape(x.Path, y.Path) {
					old = i
				}
			}
			if old >= 0 {
				both(lt[old], y)
				continue
			}
		}
		t := Target{j.class(sideObj{true, y.Obj}), impPath(y.Path, func(v V) V { return j.pair(V{}, v) })}
		if !hasTarget(n.tg, t) {
			j.change("pointer target")
			n.tg = append(n.tg, t)
		}
	}
	if len(n.tg) > 8 {
		// fold objects of the same site together
		for i := range n.tg {
			for k := i + 1; k < len(n.tg); k++ {
				a, b := j.outClass(n.tg[i].Obj), j.outClass(n.tg[k].Obj)
				if a != b && samePathShape(n.tg[i].Path, n.tg[k].Path) && j.siteOf(a) == j.siteOf(b) {
					j.union(a, b)
				}
			}
		}
	}
}

func (j *joiner) outClass(id int) sideObj {
	if _, ok := j.L.heap.get(id); ok {
		return j.find(sideObj{false, id})
	}
	return j.find(sideObj{true, id})
}

func (j *joiner) siteOf(c sideObj) string {
	for _, m := range j.lm[c] {
		return j.L.obj(m).site
	}
	for _, m := range j.rm[c] {
		return j.R.obj(m).site
	}
	return ""
}

func (j *joiner) ifaceFact(n *Fact, fl, fr *Fact) {
	for _, t := range fl.not {
		keep := false
		for _, u := range fr.not {
			keep = keep || types.Identical(t, u)
		}
		if !fr.opq {
			keep = true
			for _, al := range fr.alts {
				if types.Identical(al.T, t) {
					keep = false
				}
			}
		}
		if keep {
			n.not = append(n.not, t)
		} else {
			j.change("dynamic type exclusion")
		}
	}
	if !fl.opq && fr.opq {
		for _, t := range fr.not {
			keep := true
			for _, al := range fl.alts {
				keep = keep && !types.Identical(al.T, t)
			}
			if keep {
				n.not = append(n.not, t)
			}
		}
	}
	for _, x := range fl.alts {
		found := false
		for _, y := range fr.alts {
			if types.Identical(x.T, y.T) {
				n.alts = append(n.alts, Alt{x.T, j.pair(x.P, y.P)})
				found = true
			}
		}
		if !found {
			n.alts = append(n.alts, Alt{x.T, j.pair(x.P, V{})})
		}
	}
	for _, y := range fr.alts {
		found := false
		for _, x := range fl.alts {
			found = found || types.Identical(x.T, y.T)
		}
		if !found {
			j.change("dynamic type " + y.T.String())
			n.alts = append(n.alts, Alt{y.T, j.pair(V{}, y.P)})
		}
	}
}

func (j *joiner) structFact(n *Fact, l, r V, fl, fr *Fact) {
	m := len(fl.elems)
	if len(fr.elems) > m {
		m = len(fr.elems)
	}
	n.zero = fl.zero && fr.zero
	n.elems = make([]V, m)
	for i := 0; i < m; i++ {
		var x, y V
		if i < len(fl.elems) {
			x = fl.elems[i]
		}
		if i < len(fr.elems) {
			y = fr.elems[i]
		}
		if x.undef() && y.undef() && fl.zero == fr.zero {
			continue
		}
		if x.undef() && !fl.zero {
			continue // unknown already
		}
		if y.undef() && !fr.zero {
			j.change("field forgotten")
			continue
		}
		if x.undef() {
			x = j.L.elem(l, i)
		}
		if y.undef() {
			y = j.R.elem(r, i)
		}
		n.elems[i] = j.pair(x, y)
	}
}

func (j *joiner) arrayFact(n *Fact, l, r V, fl, fr *Fact) {
	n.text = fl.text
	n.ln = j.pair(fl.ln, fr.ln)
	n.defK = fl.defK
	if len(fl.memo) == 0 && len(fr.memo) == 0 && len(fl.pos) == 0 && len(fl.wide) == 0 {
		j.arrayDefault(n, fl, fr)
		return
	}
	j.deferArr = append(j.deferArr, func() { j.arrayMemo(n, l, r, fl, fr) })
}

// arrayDefault joins what is known about cells that are not listed.
func (j *joiner) arrayDefault(n *Fact, fl, fr *Fact) {
	et := elemType(fl.typ)
	switch {
	case fl.defK == fr.defK:
		if fl.defK == defSum {
			n.dflt = j.pair(fl.dflt, fr.dflt)
		}
	case fl.defK == defHavoc:
	case fr.defK == defHavoc:
		n.defK = defHavoc
		j.change("array default")
	case fr.defK == defNone:
		if fl.defK == defSum {
			n.dflt = j.pair(fl.dflt, V{})
		}
	case fl.defK == defNone:
		n.defK = fr.defK
		if fr.defK == defSum {
			n.dflt = j.pair(V{}, fr.dflt)
			n.defK = defSum
		}
		j.change("array default")
	default:
		n.defK = defSum
		x, y := fl.dflt, fr.dflt
		if fl.defK == defZero {
			x = j.L.zeroV(et)
			j.change("array default")
		}
		if fr.defK == defZero {
			y = j.R.zeroV(et)
		}
		n.dflt = j.pair(x, y)
	}
}

// mapped finds the right counterpart of a left integer (and vice versa).
func (j *joiner) mappedR(x V) (V, bool) {
	if x.S == zeroSym {
		return x, true
	}
	if p, ok := j.claimed[x.S]; ok && p.r != 0 {
		return V{p.r, x.K + p.d}, true
	}
	return V{}, false
}

func (j *joiner) arrayMemo(n *Fact, l, r V, fl, fr *Fact) {
	fl, fr = j.L.f(l), j.R.f(r)
	usedR := make([]bool, len(fr.memo))
	type todo struct{ i, x, y V }
	var pairs []todo
	var foldL, foldR []V
	if fl.text && j.a.GCText {
		// a name that is in use for the index is worth more than its value, and a value
		// that is in use more than one that is not
		usedL := make([]bool, len(fl.memo))
		for pass := 0; pass < 3; pass++ {
			for i, m := range fl.memo {
				for k, o := range fr.memo {
					if usedL[i] || usedR[k] {
						continue
					}
					_, known := j.syms[pk{m.Idx.S, o.Idx.S, o.Idx.K - m.Idx.K}]
					_, val := j.syms[pk{m.Val.S, o.Val.S, o.Val.K - m.Val.K}]
					same := m.Idx == o.Idx && m.Idx.S == zeroSym
					if pass == 0 && known && val || pass == 1 && known && !same || pass == 2 && same {
						usedL[i], usedR[k] = true, true
						pairs = append(pairs, todo{j.pair(m.Idx, o.Idx), m.Val, o.Val})
					}
				}
			}
		}
		// a cell one side knows by another name
		for i, m := range fl.memo {
			if usedL[i] {
				continue
			}
			if w, k := j.mappedR(m.Idx); k && m.Idx.S != zeroSym && j.knownPair(m.Idx, w) {
				for _, o := range fr.memo {
					if !usedL[i] && j.R.cmpIdx(o.Idx, w) == 1 {
						usedL[i] = true
						pairs = append(pairs, todo{j.pair(m.Idx, w), m.Val, o.Val})
					}
				}
			}
		}
		for k, o := range fr.memo {
			if usedR[k] || o.Idx.S == zeroSym {
				continue
			}
			var names []V
			for p := range j.syms {
				if p.r == o.Idx.S && p.l != zeroSym {
					names = append(names, V{p.l, o.Idx.K - p.d})
				}
			}
			sort.Slice(names, func(a, b int) bool {
				return names[a].S < names[b].S || names[a].S == names[b].S && names[a].K < names[b].K
			})
			for _, w := range names {
				for _, m := range fl.memo {
					if !usedR[k] && j.L.cmpIdx(m.Idx, w) == 1 {
						usedR[k] = true
						pairs = append(pairs, todo{j.pair(w, o.Idx), m.Val, o.Val})
					}
				}
			}
		}
		for i := range fl.memo {
			if !usedL[i] {
				j.change("text cell dropped")
			}
		}
	}
	for _, m := range fl.memo {
		var y V
		ok := false
		if fl.text && j.a.GCText {
			continue
		}
		// a cell that moved is worth more than one that stayed
		for pass := 0; pass < 2 && !ok; pass++ {
			for k, o := range fr.memo {
				if usedR[k] {
					continue
				}
				_, known := j.syms[pk{m.Idx.S, o.Idx.S, o.Idx.K - m.Idx.K}]
				if (m.Idx == o.Idx && m.Idx.S == zeroSym || known) && (pass == 1 || m.Idx != o.Idx && m.Idx.S != zeroSym && fl.defK == defHavoc && j.a.GCText) {
					usedR[k] = true
					pairs = append(pairs, todo{j.pair(m.Idx, o.Idx), m.Val, o.Val})
					ok = true
					break
				}
			}
		}
		if ok {
			continue
		}
		if fl.text {
			j.change("text cell dropped")
			continue
		}
		if w, k := j.mappedR(m.Idx); k && (m.Idx.S == zeroSym || len(fr.memo) > 0 || fr.defK != defHavoc) {
			if fr.defK == defHavoc && m.Idx.S == zeroSym {
				y = j.R.arrGet(r, w)
			} else {
				y = j.R.arrGet(r, w)
			}
			if !y.undef() {
				if _, known := j.syms[pk{m.Idx.S, w.S, w.K - m.Idx.K}]; known || m.Idx.S == zeroSym {
					pairs = append(pairs, todo{j.pair(m.Idx, w), m.Val, y})
					continue
				}
			}
		}
		j.change("array cell dropped")
		foldL = append(foldL, m.Val)
	}
	for k, o := range fr.memo {
		if usedR[k] || fl.text {
			continue
		}
		if o.Idx.S == zeroSym {
			if fl.defK == defHavoc {
				continue // unknown on the left already
			}
			x := j.L.arrGet(l, o.Idx)
			pairs = append(pairs, todo{o.Idx, x, o.Val})
			continue
		}
		foldR = append(foldR, o.Val)
	}
	nn := n
	for _, t := range pairs {
		nn.memo = append(nn.memo, Memo{t.i, j.pair(t.x, t.y)})
	}
	if len(foldL)+len(foldR) == 0 || fl.text || fl.defK == defHavoc || fr.defK == defHavoc {
		j.arrayDefault(n, fl, fr)
	} else {
		var x, y V
		for _, v := range foldL {
			x = j.L.mergeV(v, x)
		}
		for _, v := range foldR {
			y = j.R.mergeV(v, y)
		}
		et := elemType(fl.typ)
		base := func(st *State, f *Fact, v V) V {
			switch f.defK {
			case defZero:
				return st.mergeV(st.zeroV(et), v)
			case defSum:
				return st.mergeV(f.dflt, v)
			}
			return v
		}
		// values that were only in the default stay there
		bx, by := base(j.L, fl, x), base(j.R, fr, y)
		n.dflt = j.pair(bx, by)
		n.defK = defSum
		if len(foldR) > 0 {
			if len(foldL) == 0 && fl.defK != defSum {
				j.change("array default widened")
			}
		}
	}
	for _, p := range fl.pos {
		ok := false
		for _, q := range fr.pos {
			if j.knownPair(p.Idx, q.Idx) {
				i := j.pair(p.Idx, q.Idx)
				dup := j.a.GCText && len(n.pos) > 11
				for _, m := range n.pos {
					if !j.a.GCText {
						break
					}
					dup = dup || m.Idx == i
				}
				if !dup {
					n.pos = append(n.pos, PosFact{i, j.pair(p.NL, q.NL), j.pair(p.LN, q.LN), j.pair(p.NW, q.NW)})
				}
				ok = true
				if !j.a.GCText {
					break
				}
			}
		}
		if !ok {
			j.change("position fact dropped")
		}
	}
	for _, p := range fl.wide {
		ok := false
		for _, q := range fr.wide {
			if j.knownPair(p.Idx, q.Idx) {
				n.wide = append(n.wide, Wide{j.pair(p.Idx, q.Idx), j.pair(p.R, q.R), j.pair(p.W, q.W)})
				ok = true
				break
			}
		}
		if !ok {
			j.change("wide cell dropped")
		}
	}
}

func (j *joiner) knownPair(l, r V) bool {
	_, known := j.syms[pk{l.S, r.S, r.K - l.K}]
	return known || l == r && l.S == zeroSym
}

func (j *joiner) mapFact(n *Fact, l, r V, fl, fr *Fact) {
	n.rest = fl.rest | fr.rest
	if n.rest != fl.rest {
		j.change("map rest")
	}
	n.ln = j.pair(fl.ln, fr.ln)
	n.restV = j.pair(fl.restV, fr.restV)
	if !fl.restV.undef() && fr.restV.undef() && fr.rest != 0 {
		n.restV = V{}
		j.change("map rest value")
	}
	if fl.restV.undef() && fl.rest != 0 {
		n.restV = V{}
	}
	usedR := make([]bool, len(fr.ents))
	et := mapElem(fl.typ)
	for _, e := range fl.ents {
		found := false
		for k, o := range fr.ents {
			if !usedR[k] && j.sameKey(e.Key, o.Key) {
				usedR[k] = true
				n.ents = append(n.ents, MapEnt{j.pair(e.Key, o.Key), j.pair(e.Pres, o.Pres), j.pair(e.Val, o.Val)})
				found = true
				break
			}
		}
		if found {
			continue
		}
		if fr.rest == 0 {
			if w, ok := j.constKey(e.Key); ok {
				n.ents = append(n.ents, MapEnt{w, j.pair(e.Pres, C(0)), j.pair(e.Val, j.R.zeroV(et))})
				continue
			}
		}
		j.change("map entry dropped")
		n.rest |= mayNon
		n.restV = j.joinRest(n.restV, j.pair(e.Val, V{}))
		n.opq = true
	}
	for k, o := range fr.ents {
		if usedR[k] {
			continue
		}
		if fl.rest == 0 {
			if w, ok := j.constKey(o.Key); ok {
				j.change("map entry")
				n.ents = append(n.ents, MapEnt{w, j.pair(C(0), o.Pres), j.pair(j.L.zeroV(et), o.Val)})
				continue
			}
		}
		if fl.rest == 0 {
			j.change("map rest")
		}
		n.rest |= mayNon
		n.restV = V{} // unknown
	}
}

func (j *joiner) joinRest(a, b V) V { return V{} }

func (j *joiner) constKey(k V) (V, bool) {
	if k.S == zeroSym {
		return k, true
	}
	if f, ok := j.a.gfacts[k.S]; ok && f.con {
		return k, true
	}
	return V{}, false
}

func (j *joiner) sameKey(a, b V) bool {
	if a == b && (a.S == zeroSym || j.a.gfacts[a.S] != nil) {
		return true
	}
	if _, ok := j.syms[pk{a.S, b.S, b.K - a.K}]; ok {
		return true
	}
	if a == b {
		return true
	}
	fa, fb := j.L.f(a), j.R.f(b)
	return fa.kind == KStr && fb.kind == KStr && fa.con && fb.con && fa.str == fb.str
}

func mapElem(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return t
}

func mapKey(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Key()
	}
	return t
}

// zone joins the difference constraints.
func (j *joiner) zone() {
	type zp struct {
		s    Sym
		l, r V
	}
	var all []zp
	byL := map[Sym][]int{}
	byR := map[Sym][]int{}
	keys := make([]pk, 0, len(j.syms))
	for p := range j.syms {
		if p.l != 0 && p.r != 0 {
			keys = append(keys, p)
		}
	}
	sort.Slice(keys, func(a, b int) bool {
		x, y := keys[a], keys[b]
		if x.l != y.l {
			return x.l < y.l
		}
		if x.r != y.r {
			return x.r < y.r
		}
		return x.d < y.d
	})
	for _, p := range keys {
		s := j.syms[p]
		f, ok := j.out.facts.get(int(s))
		if !ok || f.kind != KInt || !f.z {
			continue
		}
		i := len(all)
		all = append(all, zp{s, V{p.l, 0}, V{p.r, p.d}})
		byL[p.l] = append(byL[p.l], i)
		byR[p.r] = append(byR[p.r], i)
	}
	var consts []int
	isConst := make([]bool, len(all))
	for i, x := range all {
		isConst[i] = x.l.S == zeroSym || x.r.S == zeroSym
		if j.widen == 0 && !isConst[i] {
			_, l := j.L.setOf(x.l).isConst()
			_, r := j.R.setOf(x.r).isConst()
			isConst[i] = l && r
		}
		if isConst[i] {
			consts = append(consts, i)
		}
	}
	for i, x := range all {
		cand := map[int]bool{}
		fromL := map[int]bool{}
		if x.l.S != zeroSym {
			for o := range j.L.spfa(x.l.S, true) {
				for _, k := range byL[o] {
					cand[k] = true
					fromL[k] = true
				}
			}
		}
		if x.r.S != zeroSym {
			for o := range j.R.spfa(x.r.S, true) {
				for _, k := range byR[o] {
					cand[k] = true
				}
			}
		}
		for k := range byL[x.l.S] {
			cand[byL[x.l.S][k]] = true
		}
		for k := range byR[x.r.S] {
			cand[byR[x.r.S][k]] = true
		}
		// a constant relates to everything by its bounds
		if isConst[i] {
			for k := range all {
				cand[k] = true
			}
		} else {
			for _, k := range consts {
				cand[k] = true
			}
		}
		ks := make([]int, 0, len(cand))
		for k := range cand {
			if k != i {
				ks = append(ks, k)
			}
		}
		sort.Ints(ks)
		for _, k := range ks {
			y := all[k]
			ul := j.L.ub(x.l, y.l)
			if ul == posInf {
				continue
			}
			ur := j.R.ub(x.r, y.r)
			c := ul
			if ur > c {
				if fromL[k] {
					fx, fy := j.out.fact(x.s), j.out.fact(y.s)
					if satAdd(fx.set.max(), satNeg(fy.set.min())) > ul {
						j.change("difference bound")
					}
				}
				if j.a.Debug && j.widen > 0 && ul <= 1 && false {
					fmt.Println("ZDROP", j.out.top.fn.Name(), j.widen, ul, ur, j.L.show(x.l), j.L.show(y.l), "|", j.R.show(x.r), j.R.show(y.r))
				}
				if j.widen > 0 {
					if ur == posInf {
						continue
					}
					// keep small integers, drop growing bounds
					if j.widen == 1 && ur >= -16 && ur <= 16 {
						c = ur
					} else {
						c = posInf
						for _, t := range [...]int64{-1, 0, 1, 16} {
							if j.widen < 3 && ur <= t && j.a.GCText {
								c = t
								break
							}
						}
					}
				} else {
					c = ur
				}
			}
			if c == posInf || c > 1<<50 || c < -(1<<50) {
				continue
			}
			if j.widen >= 3 && (ur > ul || x.l.S != y.l.S && !j.L.edge(x.l.S, y.l.S)) {
				// keep only what was written down before and still holds
				continue
			}
			fx, fy := j.out.fact(x.s), j.out.fact(y.s)
			if satAdd(fx.set.max(), satNeg(fy.set.min())) <= c {
				continue
			}
			j.out.addEdge(x.s, y.s, c)
		}
	}
}
