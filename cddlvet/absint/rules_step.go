package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The token checks reason about one call of Scan on a lexer that stands anywhere in a source. What
// holds between calls is the lexer's invariant, built here and checked again after the call:
// the current character is the one at offset, rdOffset is behind it, the table of lines holds the
// newlines before offset, the last of them last, and the source ends in the trailing blank.
type stepRun struct {
	w      *World
	a      *Analyzer
	lt     *types.Named
	fields map[string]int
	entry  []*State
	first  []*State // as NewLexer leaves it
	odd    []*State // between calls, and not as it should be
	outs   []Outcome
	err    error
}

const (
	ghostStart = "?stepStart" // offset at which Scan was called
	ghostLexer = "?stepLexer" // the lexer
	ghostAgain = "#stepAgain" // this is the second call
	ghostEnd   = "#stepEnd"   // the end of the input had been reached before
)

// lexerFields finds the lexer's parts.
func (w *World) lexerFields() (*types.Named, map[string]int, string) {
	p := w.Pkg("lexer")
	if p == nil {
		return nil, nil, "no package lexer"
	}
	o, ok := p.Pkg.Scope().Lookup("Lexer").(*types.TypeName)
	if !ok {
		return nil, nil, "no type lexer.Lexer"
	}
	n, _ := o.Type().(*types.Named)
	s, ok := o.Type().Underlying().(*types.Struct)
	if n == nil || !ok {
		return nil, nil, "lexer.Lexer is not a struct"
	}
	out := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		out[s.Field(i).Name()] = i
	}
	for f, t := range map[string]string{"src": "[]byte", "chr": "int32", "offset": "int", "rdOffset": "int", "lineOffsets": "[]int"} {
		i, ok := out[f]
		ty := ""
		if ok {
			ty = s.Field(i).Type().Underlying().String()
			ty = strings.ReplaceAll(strings.ReplaceAll(ty, "uint8", "byte"), "rune", "int32")
		}
		if ty != t {
			return nil, nil, "the lexer has no field " + f + " of type " + t
		}
	}
	return n, out, ""
}

// nextFn is the method that moves a lexer by one character.
func (w *World) nextFn(lt *types.Named) *ssa.Function {
	var found *ssa.Function
	for i := 0; i < lt.NumMethods(); i++ {
		m := lt.Method(i)
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 0 {
			continue
		}
		fn := w.Prog.FuncValue(m)
		if fn == nil || !callsFn(fn, "unicode/utf8.DecodeRune", map[*ssa.Function]bool{}) || hasLoop(fn) {
			continue
		}
		if found != nil {
			return nil
		}
		found = fn
	}
	return found
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func callsFn(fn *ssa.Function, name string, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := c.Common().StaticCallee()
			if callee == nil {
				continue
			}
			if callee.String() == name {
				return true
			}
			if callee.Pkg == fn.Pkg && callsFn(callee, name, seen) {
				return true
			}
		}
	}
	return false
}

// step analyses one call of Scan.
func (w *World) step(setup func(a *Analyzer), onStep func(c *Call, s *stepRun)) *stepRun {
	a := w.newAnalyzer()
	s := &stepRun{w: w, a: a}
	byToken(a)
	a.GCText = true
	a.Models[HarnessPath+".Step"] = func(c *Call) []Outcome {
		if onStep != nil {
			onStep(c, s)
		}
		return c.one(V{})
	}
	if setup != nil {
		setup(a)
	}
	var why string
	s.lt, s.fields, why = w.lexerFields()
	if why != "" {
		s.err = fmt.Errorf("%s", why)
		return s
	}
	// keep apart whether a character follows the current one
	prev := a.KeyExtra
	a.KeyExtra = func(st *State, fn *ssa.Function) string {
		k := prev(st, fn)
		lv, ok := st.ghost(ghostLexer)
		if !ok || lv.undef() || st.fact(lv.S) == nil || len(st.f(lv).tg) != 1 {
			return k
		}
		n := st.f(s.field(st, lv, "src")).ln
		switch st.cmpInt(token.LSS, s.field(st, lv, "rdOffset"), n) {
		case 1:
			return k + "<"
		case -1:
			return k + ">"
		}
		return k
	}
	next := w.nextFn(s.lt)
	if next == nil {
		s.err = fmt.Errorf("the lexer has no method that moves it by one character")
		return s
	}
	s.err = a.Try(func() {
		base := w.initState(a, "token", "lexer")
		// the lexer before it reads the character at o
		st := base.clone()
		n := st.freshInt(intType, setRange(1, maxLen))
		o := st.freshInt(intType, setRange(0, maxLen))
		if !st.addLE(o, n, -1) {
			a.fail("empty source")
		}
		nl := st.freshInt(intType, setRange(0, maxLen))
		ln := st.freshInt(intType, setRange(-1, maxLen))
		nw := st.freshInt(intType, setRange(0, maxLen))
		st.addLE(ln, o, -1)
		st.addLE(nw, o, 0)
		bt := types.Typ[types.Byte]
		root := &Fact{kind: KArray, typ: bt, defK: defHavoc, ln: n, text: true,
			memo: []Memo{{n.plus(-1), C(32)}}, pos: []PosFact{{o, nl, ln, nw}}}
		src := st.newSlice(types.NewSlice(bt), root, n, n, "step source")
		lo := nl.plus(1)
		cp := lo // full: growing the table moves it, which is no matter here
		lines := st.newSlice(types.NewSlice(intType), &Fact{kind: KArray, typ: intType, defK: defHavoc, ln: cp, memo: []Memo{{nl, ln}}}, lo, cp, "step lines")
		v := st.havocV(s.lt)
		v = st.withElem(v, s.fields["src"], src)
		v = st.withElem(v, s.fields["lineOffsets"], lines)
		v = st.withElem(v, s.fields["rdOffset"], o)
		v = st.withElem(v, s.fields["offset"], st.freshInt(intType, setRange(0, maxLen)))
		v = st.withElem(v, s.fields["chr"], st.freshInt(types.Typ[types.Int32], setRange(-1, 0x10FFFF)))
		obj := st.newObj(s.lt, "step lexer", v)
		st.setGhost(ghostLexer, st.ptrTo(obj.id, nil))
		st.setGhost(ghostStart, o)
		st.setGhost(ghostEnd, C(0))
		if i, ok := s.fields["Errors"]; ok {
			if ev := st.elem(st.load(s.lexer(st)), i); !ev.undef() && st.f(ev).kind == KSlice {
				st.hold("stepErrors", orC(st.f(ev).ln))
			}
		}
		for _, out := range a.Run(st, next, []V{s.lexer(st)}) {
			if out.Panic {
				continue
			}
			s.entry = append(s.entry, s.oneBlank(out.St, o, n)...)
			// the end of the input is reached from the trailing blank
			e := out.St.clone()
			if e.assumeEq(o, n.plus(-1)) {
				for _, o2 := range a.Run(e, next, []V{s.lexer(e)}) {
					if !o2.Panic {
						o2.St.setGhost(ghostEnd, C(1))
						s.entry = append(s.entry, o2.St)
					}
				}
			}
		}
		if len(s.entry) == 0 {
			a.fail("the lexer cannot advance")
		}
		s.entry = append(s.entry, s.begin(base)...)
		for _, st := range s.entry {
			s.outs = append(s.outs, a.Run(st, w.Harness("LexStep"), []V{s.lexer(st)})...)
		}
		// where the next token is found from a state that is not as it should be
		for i := 0; i < len(s.odd) && i < 40; i++ {
			st := s.odd[i].clone()
			st.setGhost(ghostAgain, C(1))
			lv := s.lexer(st)
			st.setGhost(ghostStart, s.field(st, lv, "offset"))
			for _, b := range s.oneBlank(st, s.field(st, lv, "offset"), orC(st.f(s.field(st, lv, "src")).ln)) {
				a.Run(b, w.Harness("LexStep"), []V{lv})
			}
		}
	})
	return s
}

// begin is the lexer as NewLexer makes it for any source. Where that is a lexer in the middle of a
// source, as analysed, there is nothing to add.
func (s *stepRun) begin(base *State) []*State {
	st := base.clone()
	src := st.TextSource(types.NewSlice(types.Typ[types.Byte]))
	var out []*State
	for _, o := range s.a.Run(st, s.w.Harness("LexNew"), []V{src}) {
		if o.Panic {
			continue
		}
		st := o.St
		if len(st.f(o.Ret).tg) != 1 {
			s.a.fail("NewLexer's result is not known")
		}
		st.setGhost(ghostLexer, o.Ret)
		st.setGhost(ghostStart, C(0))
		st.setGhost(ghostEnd, C(0))
		f := st.f(s.field(st, o.Ret, "src"))
		if f.arr.undef() || len(st.f(f.arr).tg) != 1 {
			s.a.fail("the lexer's source is not known")
		}
		own := st.loadTarget(st.f(f.arr).tg[0])
		if !st.f(own).text {
			s.a.fail("the lexer's source is not the caller's")
		}
		for _, root := range st.sourceTexts() {
			nf := st.f(root).clone()
			if root != own { // the caller's, of which it is a copy
				nf.text = false
			} else {
				nf.ln = orC(f.ln) // no room behind the source
			}
			st.setFact(root.S, nf)
		}
		if i, ok := s.fields["Errors"]; ok {
			if ev := st.elem(st.load(s.lexer(st)), i); !ev.undef() && st.f(ev).kind == KSlice {
				st.hold("stepErrors", orC(st.f(ev).ln))
			}
		}
		s.first = append(s.first, st)
		if s.invariant(st, o.Ret) != "" {
			out = append(out, s.oneBlank(st, s.field(st, o.Ret, "offset"), orC(f.ln))...)
		}
	}
	if len(s.first) == 0 {
		s.a.fail("NewLexer has no normal outcome")
	}
	return out
}

func (s *stepRun) lexer(st *State) V {
	lv, _ := st.ghost(ghostLexer)
	if lv.undef() || len(st.f(lv).tg) != 1 {
		st.a.fail("the lexer is lost")
	}
	return lv
}

// oneBlank splits the states by what the lexer stands on: no white space, or white space with
// something else behind it. After each blank the lexer is in a state of the same shape, so a run
// of blanks needs no case of its own.
func (s *stepRun) oneBlank(st *State, o, n V) []*State {
	ws := newline.union(blanks)
	var out []*State
	chr := s.field(st, s.lexer(st), "chr")
	b := st.clone()
	if b.meetSet(chr, setRange(-1, 0x10FFFF).minus(ws)) {
		out = append(out, b)
	}
	b = st.clone()
	if !b.meetSet(chr, ws) {
		return out
	}
	last := b.clone()
	if last.assumeEq(o, n.plus(-1)) {
		out = append(out, last)
	}
	if b.addLE(o, n, -3) {
		for _, root := range b.sourceTexts() {
			v := b.freshInt(types.Typ[types.Byte], setRange(0, 255).minus(ws))
			nf := b.f(root).clone()
			nf.memo = append(append([]Memo(nil), nf.memo...), Memo{o.plus(1), v})
			b.setFact(root.S, nf)
		}
		out = append(out, b)
	}
	return out
}

func (s *stepRun) report(r *Report) bool {
	r.addAnalyzer(s.w, s.a)
	if s.err != nil {
		r.undecided("analysis of Scan gave up: " + s.err.Error())
		return false
	}
	live := false
	for _, o := range s.outs {
		live = live || !o.Panic
	}
	if !live {
		r.undecided("Scan has no normal outcome")
	}
	return true
}

// field reads a field of the lexer.
func (s *stepRun) field(st *State, lv V, name string) V {
	l := st.load(lv)
	return st.elem(l, s.fields[name])
}

// invariant checks what must hold between two calls; it names what it cannot show.
func (s *stepRun) invariant(st *State, lv V) string {
	f := st.f(lv)
	if len(f.tg) != 1 {
		return "the lexer is not known"
	}
	off, rd, chr := s.field(st, lv, "offset"), s.field(st, lv, "rdOffset"), s.field(st, lv, "chr")
	for _, root := range st.sourceTexts() {
		tf := st.f(root)
		p, ok := st.posAt(root, off)
		if !ok {
			return "offset is not the start of a character: " + st.show(off)
		}
		good := false
		set := st.setOf(chr)
		switch {
		case set.max() < 0:
			good = st.cmpInt(token.EQL, off, tf.ln.plus(-1)) == 1 && st.cmpInt(token.GEQ, rd, tf.ln) == 1
		case set.max() < 128:
			good = st.cmpInt(token.EQL, rd, off.plus(1)) == 1
			cell := false
			for _, m := range tf.memo {
				if st.cmpIdx(m.Idx, off) == 1 {
					cell = cell || st.cmpInt(token.EQL, m.Val, chr) == 1
				}
			}
			good = good && cell
		default:
			for _, w := range tf.wide {
				// how wide the character is may be forgotten, but not that one ends at rdOffset
				if st.cmpIdx(w.Idx, off) == 1 && w.R == chr {
					_, ends := st.posAt(root, rd)
					good = good || ends && st.ub(rd, off) <= 4 && st.ub(off, rd) <= -1
				}
			}
		}
		if !good {
			return fmt.Sprintf("the current character %s is not the one at offset %s, followed by %s", st.show(chr), st.show(off), st.show(rd))
		}
		lines := s.field(st, lv, "lineOffsets")
		lf := st.f(lines)
		if st.cmpInt(token.EQL, lf.ln, p.NL.plus(1)) != 1 {
			return fmt.Sprintf("the table of lines has %s entries where %s newlines come before", st.show(lf.ln), st.show(p.NL))
		}
		af := st.f(lf.arr)
		if len(af.tg) == 1 {
			last := st.arrGet(st.loadTarget(af.tg[0]), st.addV(lf.lo, lf.ln.plus(-1), intType))
			if st.cmpInt(token.EQL, last, p.LN) != 1 {
				return fmt.Sprintf("the last line starts behind %s where the last newline is at %s", st.show(last), st.show(p.LN))
			}
		} else {
			return "the table of lines is not known"
		}
	}
	return ""
}

// gcText forgets what is known about places of a text that no variable refers to: they only
// confuse the matching of places at joins.
func (st *State) gcText() {
	live := map[Sym][]int64{}
	add := func(v V) {
		if !v.undef() && v.S != zeroSym {
			live[v.S] = append(live[v.S], v.K)
		}
	}
	value := func(v V) {
		if v.undef() {
			return
		}
		f := st.f(v)
		switch f.kind {
		case KInt:
			add(v)
		case KSlice:
			if !f.lo.undef() && !f.ln.undef() {
				add(f.lo)
				add(f.ln)
			}
		case KStr:
			for _, p := range f.parts {
				if p.Kind == 's' {
					add(p.Lo)
					add(p.Hi)
				}
			}
		}
	}
	frame := func(f *Frame) {
		f.regs.each(func(k int, v V) { value(v) })
	}
	if st.top != nil {
		frame(st.top)
	}
	for s := st.stack; s != nil; s = s.next {
		if s.f != nil {
			frame(s.f)
		}
	}
	var arrays []V
	st.heap.each(func(id int, o *Object) {
		if o.typ == nil || o.site == "global" || o.root.undef() {
			return
		}
		f := st.f(o.root)
		switch f.kind {
		case KStruct:
			for _, e := range f.elems {
				value(e)
			}
		case KArray:
			if f.text || f.defK == defHavoc {
				arrays = append(arrays, o.root)
			}
		default:
			value(o.root)
		}
	})
	for _, g := range st.ghosts {
		value(g.v)
	}
	near := func(v V, lo, hi int64) bool {
		if v.S == zeroSym {
			return true
		}
		for _, k := range live[v.S] {
			if v.K-k >= lo && v.K-k <= hi {
				return true
			}
		}
		return false
	}
	for _, root := range arrays {
		f := st.f(root)
		nf := f.clone()
		nf.pos, nf.wide, nf.memo = nil, nil, nil
		for _, p := range f.pos {
			if near(p.Idx, 0, 0) {
				nf.pos = append(nf.pos, p)
			}
		}
		for _, w := range f.wide {
			if near(w.Idx, 0, 0) {
				nf.wide = append(nf.wide, w)
			}
		}
		for _, m := range f.memo {
			if near(m.Idx, -1, 0) {
				nf.memo = append(nf.memo, m)
			}
		}
		if _, glob := st.a.gfacts[root.S]; !glob {
			st.setFact(root.S, nf)
		}
	}
}

// cellsAgree tells a state apart in which one place of a text would hold two characters.
func (st *State) cellsAgree() bool {
	for _, root := range st.sourceTexts() {
		f := st.f(root)
		for i, m := range f.memo {
			for _, o := range f.memo[i+1:] {
				if st.cmpIdx(m.Idx, o.Idx) == 1 && st.setOf(m.Val).inter(st.setOf(o.Val)).empty() {
					return false
				}
			}
		}
	}
	return true
}
