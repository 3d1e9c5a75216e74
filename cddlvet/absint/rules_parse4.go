package absint

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C16 ----

func init() {
	register(&Check{ID: "C16", Rule: "Precedence is evaluated for every operator token and its order compared with RFC 8610's; then abstract interpretation of every handler over any token sequence, with the precedence of the recursive call and the operator token known: an operator is handed its left operand only where it binds more tightly than what surrounds it, an operand does not end before an operator that does, and the right operand of a choice, range, control operator or key separator is parsed with a precedence between that of the looser and that of the tighter operators.", Run: checkC16})
	register(&Check{ID: "C17", Rule: "Abstract interpretation of the recursive parse function with the current (or the next) token fixed to each construct of the README's list: a type name is accepted before the end of the source whatever comes, every other construct is dispatched to a handler that returns without a diagnostic on some path.", Run: checkC17})
}

// The tiers of RFC 8610's operators, loosest first.
var opTiers = []struct {
	name string
	toks []string
}{
	{"assignment", []string{"ASSIGN", "TYPE_CHOICE_ASSIGN", "GROUP_CHOICE_ASSIGN"}},
	{"the group choice //", []string{"GROUP_CHOICE"}},
	{"the comma", []string{"COMMA"}},
	{"the key separators : and =>", []string{"COLON", "ARROW_MAP"}},
	{"the type choice /", []string{"TYPE_CHOICE"}},
	{"range and control operators", []string{"INCLUSIVE_BOUND", "EXCLUSIVE_BOUND"}},
}

// precedences evaluates Token.Precedence for all tokens.
func (w *World) precedences(r *Report) (map[string]int64, map[string]int64) {
	a := w.newAnalyzer()
	a.MaxSplit = 400
	tn := w.Pkg("token").Pkg.Scope().Lookup("Token")
	if tn == nil {
		r.undecided("no token.Token")
		return nil, nil
	}
	fn := w.Prog.LookupMethod(tn.Type(), w.Pkg("token").Pkg, "Precedence")
	if fn == nil || fn.Signature.Results().Len() != 1 {
		r.undecided("no Token.Precedence")
		return nil, nil
	}
	prec, vals := map[string]int64{}, map[string]int64{}
	err := a.Try(func() {
		st := w.initState(a, "token")
		for k, n := range w.tokenNames() {
			vals[n] = k
			got := map[int64]bool{}
			for _, o := range a.Run(st.clone(), fn, []V{C(k)}) {
				if c, ok := o.St.constOf(o.Ret); ok && !o.Panic {
					got[c] = true
				} else {
					got[-1<<40], got[-1<<41] = true, true
				}
			}
			if len(got) == 1 {
				for c := range got {
					prec[n] = c
				}
			}
		}
	})
	r.addAnalyzer(w, a)
	if err != nil {
		r.undecided("Token.Precedence: " + err.Error())
		return nil, nil
	}
	r.count("tokens", len(prec))
	return prec, vals
}

// precParam is the parameter of the recursive parse function that holds the precedence.
func precParam(fn *ssa.Function) int {
	k := -1
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			if k >= 0 {
				return -1
			}
			k = i
		}
	}
	return k
}

// dispatched tells whether a call hands the operand to the handler of the current token.
func (m *parseRun) dispatched(c *Call) bool {
	if m.base == nil || c.Instr == nil {
		return false
	}
	fn := c.Fn
	if fn.Signature.Recv() == nil || len(fn.Params) == 0 {
		return false
	}
	pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), m.T) || fn == m.knot {
		return false
	}
	left := false
	for _, p := range fn.Params[1:] {
		left = left || isNodeT(p.Type(), m.node)
	}
	rs := fn.Signature.Results()
	return left && rs.Len() == 2
}

type precRun struct {
	*parseRun
	prec map[string]int64 // by name
	tier map[int64]int    // of tokens
	p    int              // parameter
}

func (w *World) precRun(r *Report) *precRun {
	prec, vals := w.precedences(r)
	if prec == nil {
		return nil
	}
	x := &precRun{parseRun: w.parse(r, ""), prec: prec, tier: map[int64]int{}}
	for i, t := range opTiers {
		for _, n := range t.toks {
			if k, ok := vals[n]; ok {
				x.tier[k] = i
			}
		}
	}
	for _, n := range cddlControls {
		if k, ok := vals[n]; ok {
			x.tier[k] = len(opTiers) - 1
		}
	}
	return x
}

func (x *precRun) precOf(t int64) (int64, bool) {
	v, ok := x.prec[x.w.tokenNames()[t]]
	return v, ok
}

// ops tells whether all tokens of a set are operators.
func (x *precRun) ops(s IntSet) bool {
	if s.count() > 60 || s.empty() {
		return false
	}
	ok := true
	for _, k := range s.elems() {
		if _, is := x.tier[k]; !is {
			ok = false
		}
	}
	return ok
}

func (x *precRun) cur(st *State) IntSet {
	return st.setOf(st.getPath(x.obj, x.path["c.tok"]))
}

func (x *precRun) next(st *State) IntSet {
	return st.setOf(st.getPath(x.obj, x.path["p.tok"]))
}

func (x *precRun) nameOf(t int64) string {
	return x.w.tokenNames()[t]
}

// follow sets the analysis up to know precedences and operators.
func (x *precRun) follow() {
	m := x.parseRun
	a := m.a
	m.literals = true
	a.KeyFuncs, a.KeyErrs = true, true
	m.setup = m.tasks
	isPrec := func(sf *sumFn, i int) bool { return sf.knot && i == x.p && i > 0 }
	m.keepArg = func(sf *sumFn, c *Call, i int) bool { return isPrec(sf, i) }
	m.argKey = func(sf *sumFn, c *Call) string {
		if sf.knot && x.p > 0 {
			if k, ok := c.St.constOf(c.Args[x.p]); ok {
				return fmt.Sprintf("|p%d", k)
			}
		}
		return ""
	}
	m.entry = func(st *State, sf *sumFn, args []V) {
		if !sf.knot && x.ops(x.cur(st)) {
			st.setGhost("?op", st.getPath(m.obj, m.path["c.tok"]))
		}
	}
}

func checkC16(w *World, r *Report) {
	x := w.precRun(r)
	if x == nil {
		return
	}
	m := x.parseRun
	viol := func(st *State, f Finding) {
		if st == nil {
			r.violation(f)
		} else {
			r.violationAt(st, f)
		}
	}
	x.follow()
	// the operator whose right operand this call of the recursive function parses
	opOf := func(st *State) IntSet {
		v, ok := st.ghost("?op")
		if !ok {
			return nil
		}
		s := st.setOf(v)
		if !x.ops(s) {
			return nil
		}
		return s
	}
	m.jobCtx = func(sf *sumFn, c *Call) IntSet {
		if !sf.knot {
			return nil
		}
		return opOf(c.St)
	}
	key := m.argKey
	m.argKey = func(sf *sumFn, c *Call) string {
		k := key(sf, c)
		if sf.knot {
			k += "|" + opOf(c.St).String()
		}
		return k
	}
	ctx := func(st *State) (int, bool) {
		v, ok := st.ghost("?ctx")
		if !ok {
			return 0, false
		}
		t := -1
		for _, k := range st.setOf(v).elems() {
			i, ok := x.tier[k]
			if !ok || t >= 0 && t != i {
				return 0, false
			}
			t = i
		}
		return t, t >= 0
	}
	parts := map[int64]bool{} // operators that are dispatched
	m.call = func(c *Call) ([]Outcome, bool) {
		if !m.dispatched(c) {
			return nil, false
		}
		st := c.St
		cur := x.cur(st)
		if !x.ops(cur) {
			return nil, false
		}
		for _, t := range cur.elems() {
			parts[t] = true
			i, ok := ctx(st)
			if !ok || !m.final || x.nameOf(t) == "COMMA" {
				continue // a comma ends an entry, whoever sees it
			}
			r.count("operators inside of right operands", 1)
			if !r.ob(x.tier[t] >= i) {
				viol(st, Finding{Rule: "operators bind in order", Func: short(c.Instr.Parent().String()), Pos: m.a.pos(c.Pos), Construct: x.nameOf(t) + " behind " + opTiers[i].name, Msg: fmt.Sprintf("the right operand of %s absorbs %s, which binds more loosely", opTiers[i].name, x.nameOf(t))})
			}
		}
		return nil, false
	}
	comma := int64(-1)
	for k := range x.tier {
		if x.nameOf(k) == "COMMA" {
			comma = k
		}
	}
	tighter := func(st *State) []int64 {
		i, ok := ctx(st)
		if !ok {
			return nil
		}
		var out []int64
		for _, t := range x.next(st).elems() {
			if j, ok := x.tier[t]; ok && parts[t] && j > i {
				out = append(out, t)
			}
		}
		return out
	}
	m.a.KeyExtra = func(st *State, fn *ssa.Function) string {
		if _, ok := st.ghost("?ctx"); !ok || m.base == nil {
			return ""
		}
		k := ""
		if c, ok := x.cur(st).isConst(); ok && c == comma {
			k = ","
		}
		if len(tighter(st)) > 0 {
			k += "t"
		}
		return k
	}
	m.end = func(sf *sumFn, o Outcome) {
		if sf == nil || !sf.knot || o.Panic {
			return
		}
		st := o.St
		e := st.elem(o.Ret, sf.err)
		if st.f(e).nil3&mayNil == 0 {
			return
		}
		i, ok := ctx(st)
		if !ok {
			return
		}
		if c, ok := x.cur(st).isConst(); ok && c == comma {
			r.ob(true)
			return
		}
		r.count("ends of right operands", 1)
		bad := tighter(st)
		if !r.ob(len(bad) == 0) {
			viol(st, Finding{Rule: "operands are complete", Func: short(sf.fn.String()), Pos: m.a.pos(sf.fn.Pos()), Construct: "operand of " + opTiers[i].name + " before " + x.nameOf(bad[0]), Msg: fmt.Sprintf("the right operand of %s ends before %s, which binds more tightly", opTiers[i].name, x.nameOf(bad[0]))})
		}
	}
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	if x.p = precParam(m.knot); x.p < 0 {
		r.undecided(short(m.knot.String()) + " takes no precedence")
		return
	}
	if !m.solve() {
		return
	}
	r.count("operators dispatched", len(parts))
}

// ---- C17 ----

// What the README lists for the parser. A name is accepted whatever follows.
var prefixToks = []string{
	"BOOL", "FALSE", "TRUE", "TSTR", "TEXT", "FLOAT", "FLOAT16", "FLOAT32", "FLOAT64", "UINT", "INT", "NINT", "BSTR", "BYTES", "NULL", "NIL",
	"IDENT", "TEXT_LITERAL", "LPAREN", "LBRACK", "LBRACE", "ZERO_OR_MORE", "ONE_OR_MORE", "OPTIONAL", "UNWRAP",
}

var infixToks = []string{
	"TYPE_CHOICE", "GROUP_CHOICE", "LT", "LE", "GT", "GE", "EQ", "NE", "SIZE", "REGEXP", "INCLUSIVE_BOUND", "EXCLUSIVE_BOUND", "COLON", "ARROW_MAP",
}

func checkC17(w *World, r *Report) {
	x := w.precRun(r)
	if x == nil {
		return
	}
	m := x.parseRun
	m.literals = true
	m.a.KeyFuncs, m.a.KeyErrs = true, true
	m.setup = m.tasks
	vals := map[string]int64{}
	for k, n := range w.tokenNames() {
		vals[n] = k
	}
	accepted := map[int64]bool{}
	handler := map[int64]string{}
	// each operator on its own
	m.call = func(c *Call) ([]Outcome, bool) {
		if !m.final || !m.dispatched(c) {
			return nil, false
		}
		cur := x.cur(c.St)
		if cur.count() > 60 {
			return nil, false
		}
		var outs []Outcome
		for _, t := range cur.elems() {
			cc := *c
			cc.St = c.St.clone()
			if !cc.St.meetSet(cc.St.getPath(m.obj, m.path["c.tok"]), setConst(t)) {
				continue
			}
			handler[t] = short(c.Fn.String())
			os, ok := m.apply(&cc)
			if !ok {
				os = m.a.Run(cc.St, c.Fn, c.Args)
			}
			if sf := m.shape(c.Fn); sf != nil {
				for _, o := range os {
					if !o.Panic && o.St.f(o.St.elem(o.Ret, sf.err)).nil3&mayNil != 0 {
						accepted[t] = true
					}
				}
			}
			outs = append(outs, os...)
		}
		return outs, true
	}
	// a keyword's text is its spelling (C18)
	spelled := func(st *State) {
		if k, ok := x.cur(st).isConst(); ok && (k == vals["TRUE"] || k == vals["FALSE"]) {
			st.setPath(m.obj, m.path["c.lit"], m.a.strConst(strings.ToLower(x.nameOf(k))))
		}
	}
	m.entry = func(st *State, sf *sumFn, args []V) { spelled(st) }
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	if x.p = precParam(m.knot); x.p < 0 {
		r.undecided(short(m.knot.String()) + " takes no precedence")
		return
	}
	lowest := C(0)
	if k, ok := w.constOfPkg("token", "LOWEST"); ok {
		lowest = C(k)
	}
	sf := m.summarised(m.knot)
	ret := func(o Outcome) uint8 {
		if o.Panic {
			return 0
		}
		return o.St.f(o.St.elem(o.Ret, sf.err)).nil3
	}
	run := func(cl, pl, lit int64, c string) []Outcome {
		st := m.general(cl, pl)
		if c != "" {
			if !st.meetSet(st.getPath(m.obj, m.path["c.tok"]), setConst(vals[c])) {
				return nil
			}
			spelled(st)
		}
		st.setGhost("#lc", C(lit))
		args := make([]V, len(m.knot.Params))
		for i, q := range m.knot.Params {
			switch {
			case i == 0:
				args[i] = st.held("parser")
			case i == x.p:
				args[i] = lowest
			default:
				args[i] = st.havocV(q.Type())
			}
		}
		st.hold("rem0", st.mustGhost("rem"))
		return m.a.Run(st, m.knot, args)
	}
	knot := short(m.knot.String())
	bad := func(n, msg string) {
		r.violation(Finding{Rule: "supported constructs", Func: knot, Pos: m.a.pos(m.knot.Pos()), Construct: n, Msg: msg})
	}
	m.probe = func() {
		if !m.final {
			return
		}
		for _, n := range prefixToks {
			if _, ok := vals[n]; !ok {
				if m.final && !r.ob(false) {
					bad(n, "there is no token "+n)
				}
				continue
			}
			some := false
			for _, pl := range m.classes() {
				for _, lit := range []int64{1, 2} {
					for _, o := range run(clOther, pl, lit, n) {
						some = some || ret(o)&mayNil != 0
					}
				}
			}
			if m.final {
				r.count("tokens that begin a type", 1)
				if !r.ob(some) {
					bad(n, "no path accepts "+n+" where a type begins")
					continue
				}
			}
			if !typeNames[n] {
				continue
			}
			// a name stands for itself; the source may end behind it
			for _, o := range run(clOther, clEOF, 2, n) {
				if m.final && !r.ob(ret(o) == mayNil) {
					if ret(o)&mayNil == 0 || o.Panic {
						bad("type name "+n, "the type name "+n+" may be refused")
					}
				}
			}
		}
	}
	if !m.solve() {
		return
	}
	for _, n := range infixToks {
		k, ok := vals[n]
		r.count("tokens behind an operand", 1)
		switch {
		case r.ob(ok && accepted[k]):
		case !ok:
			bad(n, "there is no token "+n)
		case handler[k] == "":
			bad(n, "no handler takes "+n+" behind an operand")
		default:
			bad(n, n+" behind an operand goes to "+handler[k]+", which always fails")
		}
	}
}

var typeNames = func() map[string]bool {
	out := map[string]bool{"IDENT": true}
	for _, n := range strings.Fields("BOOL FALSE TRUE TSTR TEXT FLOAT FLOAT16 FLOAT32 FLOAT64 UINT INT NINT BSTR BYTES NULL NIL") {
		out[n] = true
	}
	return out
}()
