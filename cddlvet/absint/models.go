package absint

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"
)

// stdModels describes the library functions the analysed code calls.
var stdModels = map[string]Model{}

func reg(m Model, names ...string) {
	for _, n := range names {
		stdModels[n] = m
	}
}

// pure returns unknown results of the declared types; errors may be nil or not.
func pure(c *Call) []Outcome {
	res := c.Sig.Results()
	switch res.Len() {
	case 0:
		return c.one(V{})
	case 1:
		return c.one(c.St.havocV(res.At(0).Type()))
	}
	return c.one(c.St.havocV(res))
}

// pureRet is pure in another state.
func pureRet(c *Call, st *State) []Outcome {
	return []Outcome{{St: st, Ret: st.havocV(c.Sig.Results().At(0).Type())}}
}

// nonNilResult is a single unknown result that is not nil.
func nonNilResult(c *Call) []Outcome {
	return c.one(c.St.NonNil(c.St.havocV(c.Sig.Results().At(0).Type())))
}

// NonNil gives v as a value that is not nil.
func (st *State) NonNil(v V) V {
	if _, g := st.a.gfacts[v.S]; g {
		return v
	}
	nf := st.f(v).clone()
	nf.nil3 = mayNon
	return st.fresh(nf)
}

func pkgOf(name string) string {
	if i := strings.LastIndex(name, "."); i > 0 {
		return name[:i]
	}
	return name
}

func init() {
	reg(decodeRune, "unicode/utf8.DecodeRune")
	reg(decodeRuneInString, "unicode/utf8.DecodeRuneInString")
	reg(pure, "unicode/utf8.ValidString", "unicode/utf8.RuneLen", "unicode/utf8.ValidRune", "unicode/utf8.FullRune")
	reg(func(c *Call) []Outcome {
		n := c.St.freshLen()
		c.St.addLE(n, c.St.lenOf(c.Args[0], c.Sig.Params().At(0).Type()), 0)
		return c.one(n)
	}, "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString")
	runeClass := func(is func(rune) bool) Model {
		return func(c *Call) []Outcome { return classify(c, c.Args[0], is) }
	}
	reg(runeClass(unicode.IsLetter), "unicode.IsLetter")
	reg(runeClass(unicode.IsDigit), "unicode.IsDigit")
	reg(runeClass(unicode.IsNumber), "unicode.IsNumber")
	reg(runeClass(unicode.IsSpace), "unicode.IsSpace")
	reg(runeClass(unicode.IsUpper), "unicode.IsUpper")
	reg(runeClass(unicode.IsLower), "unicode.IsLower")
	reg(runeClass(unicode.IsPunct), "unicode.IsPunct")
	reg(runeClass(unicode.IsControl), "unicode.IsControl")
	reg(runeClass(unicode.IsPrint), "unicode.IsPrint")
	runeMap := func(f func(rune) rune) Model {
		return func(c *Call) []Outcome { return mapRune(c, c.Args[0], f) }
	}
	reg(runeMap(unicode.ToLower), "unicode.ToLower")
	reg(runeMap(unicode.ToUpper), "unicode.ToUpper")
	reg(runeMap(unicode.ToTitle), "unicode.ToTitle")
}

// classify splits a rune by a predicate; ASCII is decided exactly.
func classify(c *Call, r V, is func(rune) bool) []Outcome {
	st := c.St
	set := st.setOf(r)
	var yes, no IntSet
	for k := int64(0); k < 256; k++ {
		if set.has(k) {
			if is(rune(k)) {
				yes = yes.union(setConst(k))
			} else {
				no = no.union(setConst(k))
			}
		}
	}
	neg := set.inter(setRange(negInf, -1))
	no = no.union(neg)
	big := set.inter(setRange(256, posInf))
	var out []Outcome
	add := func(s IntSet, b int64) {
		if s.empty() {
			return
		}
		n := st.clone()
		if n.meetSet(r, s) {
			out = append(out, Outcome{St: n, Ret: C(b)})
		}
	}
	add(yes.union(big), 1)
	add(no.union(big), 0)
	return out
}

func mapRune(c *Call, r V, f func(rune) rune) []Outcome {
	st := c.St
	set := st.setOf(r)
	if n := set.count(); n > 0 && n <= 64 {
		var out []Outcome
		for _, k := range set.elems() {
			s := st.clone()
			if s.meetSet(r, setConst(k)) {
				out = append(out, Outcome{St: s, Ret: C(int64(f(rune(k))))})
			}
		}
		return out
	}
	same := IntSet{}
	var out []Outcome
	var img IntSet
	var moved IntSet
	for k := int64(0); k < 128; k++ {
		if set.has(k) {
			if m := int64(f(rune(k))); m == k {
				same = same.union(setConst(k))
			} else {
				img = img.union(setConst(m))
				moved = moved.union(setConst(k))
			}
		}
	}
	if !same.empty() {
		s := st.clone()
		if s.meetSet(r, same) {
			out = append(out, Outcome{St: s, Ret: r})
		}
	}
	if !moved.empty() {
		s := st.clone()
		if s.meetSet(r, moved) {
			out = append(out, Outcome{St: s, Ret: s.freshInt(types.Typ[types.Int32], img)})
		}
	}
	if rest := set.inter(setRange(128, posInf)); !rest.empty() {
		s := st.clone()
		if s.meetSet(r, rest) {
			out = append(out, Outcome{St: s, Ret: s.freshInt(types.Typ[types.Int32], setRange(0, 0x10FFFF))})
		}
	}
	if rest := set.inter(setRange(negInf, -1)); !rest.empty() {
		s := st.clone()
		if s.meetSet(r, rest) {
			out = append(out, Outcome{St: s, Ret: r})
		}
	}
	return out
}

func decodeRune(c *Call) []Outcome {
	st := c.St
	f := st.f(c.Args[0])
	if f.arr.undef() || f.nil3 == mayNil {
		return c.one(c.tuple(C(0xFFFD), C(0)))
	}
	return decodeAt(c, f.arr, orC(f.lo), orC(f.ln))
}

func decodeRuneInString(c *Call) []Outcome {
	st := c.St
	v := c.Args[0]
	ln := st.strLen(v)
	ps := st.strParts(v)
	if len(ps) > 0 && ps[0].Kind == 's' {
		return decodeAt(c, ps[0].Arr, ps[0].Lo, ln)
	}
	var out []Outcome
	s := st.clone()
	if s.assumeEq(ln, C(0)) {
		cc := *c
		cc.St = s
		out = append(out, cc.one(cc.tuple(C(0xFFFD), C(0)))...)
	}
	s = st.clone()
	if s.addLE(C(1), ln, 0) {
		cc := *c
		cc.St = s
		r := s.freshInt(types.Typ[types.Int32], setRange(0, 0x10FFFF))
		w := s.freshInt(intType, setRange(1, 4))
		s.addLE(w, ln, 0)
		out = append(out, cc.one(cc.tuple(r, w))...)
	}
	return out
}

var (
	asciiSet = setRange(0, 127)
	newline  = setConst('\n')
	blanks   = setConst(' ').union(setConst('\t')).union(setConst('\r'))
)

// decodeAt decodes the character at index idx of a byte array.
func decodeAt(c *Call, arr, idx, ln V) []Outcome {
	var out []Outcome
	st := c.St
	emit := func(s *State, r, w V) {
		cc := *c
		cc.St = s
		out = append(out, Outcome{St: s, Ret: cc.tuple(r, w)})
	}
	if st.cmpInt(token.GTR, ln, C(0)) != 1 {
		s := st.clone()
		if s.assumeEq(ln, C(0)) {
			emit(s, C(0xFFFD), C(0))
		}
		st = st.clone()
		if !st.addLE(C(1), ln, 0) {
			return out
		}
	}
	fp := st.f(arr)
	if len(fp.tg) != 1 || fp.opq {
		s := st.clone()
		emit(s, s.freshInt(types.Typ[types.Int32], asciiSet), C(1))
		s = st.clone()
		w := s.freshInt(intType, setRange(1, 4))
		s.addLE(w, ln, 0)
		emit(s, s.freshInt(types.Typ[types.Int32], setRange(128, 0x10FFFF)), w)
		return out
	}
	root := st.loadTarget(fp.tg[0])
	for _, w := range st.f(root).wide {
		if st.cmpIdx(w.Idx, idx) == 1 {
			s := st.clone()
			emit(s, w.R, w.W)
			return out
		}
	}
	if sp := st.splitCells(fp.tg[0], idx); len(sp) > 1 {
		for _, s := range sp {
			cc := *c
			cc.St = s
			out = append(out, decodeAt(&cc, arr, idx, ln)...)
		}
		return out
	}
	b := st.arrGet(root, idx)
	text := st.f(root).text
	p, hasPos := st.posAt(root, idx)
	class := func(set IntSet, ghost int64, upd func(s *State) (PosFact, bool)) {
		s := st.clone()
		if !s.meetSet(b, set) {
			return
		}
		if text {
			s.setGhost("#cls", C(ghost))
			if hasPos {
				if np, ok := upd(s); ok {
					s.addPos(root, np)
				}
			}
		}
		emit(s, b, C(1))
	}
	if text {
		class(newline, 1, func(s *State) (PosFact, bool) {
			return PosFact{idx.plus(1), p.NL.plus(1), idx, p.NW}, true
		})
		class(blanks, 2, func(s *State) (PosFact, bool) {
			return PosFact{idx.plus(1), p.NL, p.LN, p.NW}, true
		})
		class(asciiSet.minus(newline).minus(blanks), 3, func(s *State) (PosFact, bool) {
			return PosFact{idx.plus(1), p.NL, p.LN, idx.plus(1)}, true
		})
	} else {
		class(asciiSet, 0, nil)
	}
	s := st.clone()
	if s.meetSet(b, setRange(128, 255)) {
		r := s.freshInt(types.Typ[types.Int32], setRange(128, 0x10FFFF))
		w := s.freshInt(intType, setRange(1, 4))
		ok := s.addLE(w, ln, 0)
		// the bytes that follow the first are no ASCII
		for _, m := range s.f(root).memo {
			if s.setOf(m.Val).inter(setRange(128, 255)).empty() && (s.a.GCText && s.cmpInt(token.GEQ, m.Idx, idx) == 1 || s.cmpInt(token.GTR, m.Idx, idx) == 1) {
				ok = ok && s.addLE(idx, m.Idx, -1)
				d := s.subV(m.Idx, idx, intType)
				ok = ok && s.addLE(w, d, 0)
				if e := s.addV(idx, w, intType); ok {
					ok = s.addLE(e, m.Idx, 0)
				}
			}
		}
		if ok {
			if text {
				e := s.addV(idx, w, intType)
				nf := s.f(root).clone()
				nf.wide = append(append([]Wide(nil), nf.wide...), Wide{idx, r, w})
				s.setFact(root.S, nf)
				s.setGhost("#cls", C(4))
				if hasPos {
					s.addPos(root, PosFact{e, p.NL, p.LN, e})
				}
			}
			emit(s, r, w)
		}
	}
	return out
}

// splitCells tells the known cells of a text from the others.
func (st *State) splitCells(tg Target, idx V) []*State {
	root := st.loadTarget(tg)
	f := st.f(root)
	if !f.text {
		return []*State{st}
	}
	for _, m := range f.memo {
		if st.cmpIdx(m.Idx, idx) == 1 {
			return []*State{st}
		}
	}
	for _, m := range f.memo {
		if st.cmpIdx(m.Idx, idx) != -1 {
			continue
		}
		var out []*State
		s := st.clone()
		if s.assumeEq(idx, m.Idx) {
			out = append(out, s)
		}
		s = st.clone()
		if s.assumeNe(idx, m.Idx) && s.cmpIdx(idx, m.Idx) != -1 {
			out = append(out, s.splitCells(tg, idx)...)
			return out
		}
	}
	return []*State{st}
}

// posAt finds the position facts for an index of a text, deriving them from facts
// about characters just before it if needed.
func (st *State) posAt(root, idx V) (PosFact, bool) {
	f := st.f(root)
	for _, p := range f.pos {
		if st.cmpIdx(p.Idx, idx) == 1 {
			return p, true
		}
	}
	return PosFact{}, false
}

func (st *State) addPos(root V, p PosFact) {
	if _, ok := st.posAt(root, p.Idx); ok {
		return
	}
	// a newline lies before the index it counts for
	st.addLE(p.LN, p.Idx, -1)
	st.addLE(p.NW, p.Idx, 0)
	nf := st.f(root).clone()
	pos := nf.pos
	if len(pos) > 12 {
		pos = pos[len(pos)-12:]
	}
	nf.pos = append(append([]PosFact(nil), pos...), p)
	st.setFact(root.S, nf)
}

// TextSource makes a byte slice that stands for any source text. Its backing array
// may extend beyond its length and must not be written to.
func (st *State) TextSource(t types.Type) V {
	ln := st.freshInt(intType, setRange(0, maxLen))
	cp := st.freshInt(intType, setRange(0, maxLen))
	st.addLE(ln, cp, 0)
	et := t.Underlying().(*types.Slice).Elem()
	root := st.fresh(&Fact{kind: KArray, typ: et, defK: defHavoc, ln: cp, text: true, pos: []PosFact{{C(0), C(0), C(-1), C(0)}}})
	o := st.newObj(et, "source", root)
	o2 := *o
	o2.ro = true
	o2.label = "source"
	st.setObj(&o2)
	arr := st.ptrTo(o.id, nil)
	return st.fresh(&Fact{kind: KSlice, typ: t, nil3: 3, arr: arr, lo: C(0), ln: ln, cap: cp})
}

func quote(s string) string { return strconv.Quote(s) }
