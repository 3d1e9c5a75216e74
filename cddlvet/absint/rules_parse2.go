package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values that must end up somewhere ----

// debts are values a path owes: a diagnostic to the list of errors, a node to the tree. Each
// is kept under a name; paths that owe different ones are kept apart.
type debts struct {
	m     *parseRun
	sites []debtSite
}

type debtSite struct {
	pos  token.Pos
	fn   string
	what string
}

func (d *debts) site(pos token.Pos, fn, what string) int64 {
	for i, s := range d.sites {
		if s == (debtSite{pos, fn, what}) {
			return int64(i + 1)
		}
	}
	d.sites = append(d.sites, debtSite{pos, fn, what})
	return int64(len(d.sites))
}

// owe notes a debt; it tells whether one of that name was still open.
func (d *debts) owe(st *State, slot string, v V, site int64) bool {
	open := st.ghostConst("#d:"+slot) != 0
	st.setGhost("#d:"+slot, C(site))
	st.setGhost("?d:"+slot, v)
	return open
}

// open lists the debts of a state.
func (d *debts) open(st *State) []string {
	var out []string
	for _, g := range st.ghosts {
		if strings.HasPrefix(g.name, "#d:") && g.v.K != 0 {
			out = append(out, g.name[3:])
		}
	}
	return out
}

func (d *debts) clear(st *State, slot string) {
	st.setGhost("#d:"+slot, C(0))
	st.dropGhost("?d:" + slot)
}

func (d *debts) clearAll(st *State) {
	for _, s := range d.open(st) {
		d.clear(st, s)
	}
}

func (d *debts) value(st *State, slot string) V {
	v, _ := st.ghost("?d:" + slot)
	return v
}

// pay clears the debts v is the value of.
func (d *debts) pay(st *State, v V) bool {
	paid := false
	for _, s := range d.open(st) {
		if st.same(v, d.value(st, s)) {
			d.clear(st, s)
			paid = true
		}
	}
	return paid
}

func (d *debts) at(st *State, slot string) debtSite {
	return d.sites[st.ghostConst("#d:"+slot)-1]
}

func (st *State) dropGhost(n string) {
	var out []Ghost
	for _, g := range st.ghosts {
		if g.name != n {
			out = append(out, g)
		}
	}
	st.ghosts = out
}

// same tells whether v is the value o, whatever interface it is seen through.
func (st *State) same(v, o V) bool {
	if v.undef() || o.undef() {
		return false
	}
	if v == o {
		return true
	}
	vs, os := st.inside(v), st.inside(o)
	if len(vs) == 0 || len(os) == 0 {
		return false
	}
	for _, x := range vs {
		ok := false
		for _, y := range os {
			ok = ok || x == y
		}
		if !ok {
			return false
		}
	}
	return true
}

func (st *State) inside(v V) []V {
	f := st.f(v)
	switch {
	case f.kind == KPtr:
		return []V{v}
	case f.kind == KIface && !f.opq:
		var out []V
		for _, al := range f.alts {
			out = append(out, al.P)
		}
		return out
	}
	return nil
}

// ---- C10 ----

func init() {
	register(&Check{ID: "C10", Rule: "Abstract interpretation of ParseFile, every handler and every deferred check over any token sequence, with diagnostics as debts: each diagnostic that is made, returned by a handler or returned by a deferred check is appended to the parser's list or returned to the caller; a failed conversion of a literal is followed by a diagnostic; the list never shrinks, all of it is returned, and every deferred check is run.", Run: checkC10})
}

const (
	ghostWant  = "want"  // the list of errors is at least this long
	ghostTasks = "wantT" // the list of deferred checks is at least this long
	ghostRan   = "ran"   // deferred checks that have run
	ghostSyn   = "#syn"  // a failure no diagnostic was made for yet
)

func (m *parseRun) lenAt(st *State, k string) V {
	return orC(st.f(st.getPath(m.obj, m.path[k])).ln)
}

func checkC10(w *World, r *Report) {
	m := w.parse(r, "")
	d := &debts{m: m}
	a := m.a
	m.setup = m.tasks
	isDiag := func(t types.Type) bool {
		return kindOf(t) == KIface && types.Identical(t, m.diagType())
	}
	viol := func(st *State, con, fn string, pos token.Pos, msg string) {
		if !m.final {
			return
		}
		r.ob(false)
		r.violationAt(st, Finding{Rule: "diagnostics are kept", Func: fn, Pos: a.pos(pos), Construct: con, Msg: msg})
	}
	slot := func(st *State, v V, pos token.Pos, fn, what string) {
		for i := 0; ; i++ {
			n := fmt.Sprint(i)
			if st.ghostConst("#d:"+n) == 0 {
				d.owe(st, n, v, d.site(pos, fn, what))
				return
			}
			if i > 3 {
				s := d.at(st, "0")
				viol(st, s.what+" is dropped", s.fn, s.pos, "a diagnostic may be neither reported nor returned")
				d.owe(st, "0", v, d.site(pos, fn, what))
				return
			}
		}
	}
	a.OnMakeIface = func(st *State, v V, from, to types.Type, in ssa.Instruction) {
		p := pkgTypes(in.Parent())
		if m.base == nil || p == nil || p.Path() != RepoPath+"/parser" || !isDiag(to) {
			return
		}
		for _, s := range d.open(st) {
			if st.same(v, d.value(st, s)) {
				return
			}
		}
		// the handler a diagnostic is made for
		pos, fn := in.Pos(), in.Parent()
		slot(st, v, pos, short(fn.String()), "diagnostic")
		st.setGhost(ghostSyn, C(0))
		if m.final {
			r.count("diagnostics made", 1)
		}
	}
	m.appended = func(st *State, in ssa.CallInstruction, s, e V, t types.Type) {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok || !isDiag(sl.Elem()) && !m.isTasks(t) {
			return
		}
		k, g := "errors", ghostWant
		if m.isTasks(t) {
			k, g = "tasks", ghostTasks
		}
		if m.path[k] == nil {
			return
		}
		vs, ok := st.variadic(e)
		if !ok {
			vs = nil
		}
		if wv, ok := st.ghost(g); ok {
			st.setGhost(g, wv.plus(int64(len(vs))))
		}
		for _, v := range vs {
			d.pay(st, v)
		}
	}
	start := func(st *State) {
		st.setGhost(ghostWant, m.lenAt(st, "errors"))
		if m.path["tasks"] != nil {
			st.setGhost(ghostTasks, m.lenAt(st, "tasks"))
		}
		st.setGhost(ghostSyn, C(0))
	}
	m.entry = func(st *State, sf *sumFn, args []V) { d.clearAll(st); start(st) }
	m.fileEntry = func(st *State) { d.clearAll(st); start(st); st.setGhost(ghostRan, C(0)) }
	m.taskEntry = func(st *State) { d.clearAll(st); start(st) }
	m.result = func(c *Call, st *State, sf *sumFn, o *sumOut, n, e V) {
		if !o.ok {
			slot(st, e, c.Pos, short(c.Instr.Parent().String()), "what "+short(c.Fn.String())+" reports")
		}
	}
	m.task = func(c *Call, fv V) []Outcome {
		t := c.Sig.Results().At(0).Type()
		if rv, ok := c.St.ghost(ghostRan); ok {
			c.St.setGhost(ghostRan, rv.plus(1))
		}
		s := c.St.clone()
		e := s.fresh(&Fact{kind: KIface, typ: t, nil3: mayNon, opq: true, tag: "diagnostic"})
		slot(s, e, c.Pos, short(c.Instr.Parent().String()), "what a deferred check reports")
		return []Outcome{{St: c.St, Ret: a.nilV(t)}, {St: s, Ret: e}}
	}
	// failing conversions
	failing := func(name string, f Model) Model {
		return func(c *Call) []Outcome {
			outs := f(c)
			if m.base == nil {
				return outs
			}
			var res []Outcome
			for _, o := range outs {
				e := o.St.elem(o.Ret, c.Sig.Results().Len()-1)
				switch o.St.f(e).nil3 {
				case mayNon:
					o.St.setGhost(ghostSyn, C(d.site(c.Pos, short(c.Instr.Parent().String()), "failure of "+name)))
				case 3:
					s := o.St.clone()
					s.assumeNil(e, true)
					res = append(res, Outcome{St: s, Ret: o.Ret})
					o.St = o.St.clone()
					o.St.assumeNil(e, false)
					o.St.setGhost(ghostSyn, C(d.site(c.Pos, short(c.Instr.Parent().String()), "failure of "+name)))
				}
				res = append(res, o)
			}
			return res
		}
	}
	for _, n := range []string{"strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.Atoi"} {
		if f := a.Models[n]; f != nil {
			a.Models[n] = failing(n, f)
		}
	}
	m.call = func(c *Call) ([]Outcome, bool) {
		p := pkgTypes(c.Fn)
		rs := c.Fn.Signature.Results()
		if m.base == nil || c.Instr == nil || p == nil || p.Path() != RepoPath+"/environment" || c.Fn.Blocks == nil || rs.Len() != 1 || !types.Identical(rs.At(0).Type(), types.Universe.Lookup("error").Type()) {
			return nil, false
		}
		if q := pkgTypes(c.Instr.Parent()); q == p {
			return nil, false
		}
		outs := a.invokeBody(c.St, c.Fn, c.Args, nil, c.Instr)
		for _, o := range outs {
			if !o.Panic && o.St.f(o.Ret).nil3 == mayNon {
				o.St.setGhost(ghostSyn, C(d.site(c.Pos, short(c.Instr.Parent().String()), "failure of "+short(c.Fn.String()))))
			}
		}
		return outs, true
	}
	lists := func(st *State, fn *ssa.Function) {
		for _, k := range []string{"errors", "tasks"} {
			g, what := ghostWant, "list of diagnostics"
			if k == "tasks" {
				g, what = ghostTasks, "list of deferred checks"
			}
			wv, ok := st.ghost(g)
			if !ok || m.path[k] == nil {
				continue
			}
			ln := m.lenAt(st, k)
			good := st.ub(wv, ln) <= 0
			if m.final {
				r.ob(good)
			}
			if !good {
				viol(st, "the "+what+" shrinks", short(fn.String()), fn.Pos(), "what was added to the "+what+" may not be in it afterwards")
			}
		}
	}
	open := func(st *State, fn *ssa.Function, ret V) {
		for _, s := range d.open(st) {
			good := st.same(ret, d.value(st, s))
			if m.final {
				r.ob(good)
			}
			if !good {
				x := d.at(st, s)
				viol(st, x.what+" is dropped", x.fn, x.pos, "a diagnostic may be neither added to the list nor returned by "+short(fn.String()))
			}
		}
	}
	// a summarised function may fail when it returns nil although something went wrong
	m.end = func(sf *sumFn, o Outcome) {
		if o.Panic {
			return
		}
		st := o.St
		if sf != nil {
			e := st.elem(o.Ret, sf.err)
			open(st, sf.fn, e)
			lists(st, sf.fn)
			if k := st.ghostConst(ghostSyn); k != 0 && st.f(e).nil3&mayNil != 0 {
				x := d.sites[k-1]
				viol(st, x.what+" is not reported", x.fn, x.pos, "no diagnostic is made for it")
			}
			return
		}
		open(st, m.fileFn, V{})
		lists(st, m.fileFn)
		if k := st.ghostConst(ghostSyn); k != 0 {
			x := d.sites[k-1]
			viol(st, x.what+" is not reported", x.fn, x.pos, "no diagnostic is made for it")
		}
		// all of the list is returned
		rs := m.fileFn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if sl, ok := rs.At(i).Type().Underlying().(*types.Slice); ok && isDiag(sl.Elem()) {
				v := o.Ret
				if rs.Len() > 1 {
					v = st.elem(v, i)
				}
				f := st.f(v)
				ln := orC(f.ln)
				if f.nil3 == mayNil {
					ln = C(0)
				}
				wv := m.lenAt(st, "errors")
				good := st.ub(wv, ln) <= 0
				r.ob(good)
				if !good {
					viol(st, "not all diagnostics are returned", short(m.fileFn.String()), m.fileFn.Pos(), fmt.Sprintf("ParseFile may return %s of %s diagnostics", st.show(ln), st.show(wv)))
				}
			}
		}
		if m.path["tasks"] != nil {
			ran, n := st.mustGhost(ghostRan), m.lenAt(st, "tasks")
			good := st.ub(n, ran) <= 0
			r.ob(good)
			if !good {
				viol(st, "a deferred check is not run", short(m.fileFn.String()), m.fileFn.Pos(), fmt.Sprintf("ParseFile may run %s of %s deferred checks", st.show(ran), st.show(n)))
			}
		}
	}
	m.onTask = func(st *State, in ssa.CallInstruction, outs []Outcome, fn *ssa.Function) {
		if !m.final {
			return
		}
		for _, o := range outs {
			if o.Panic {
				continue
			}
			open(o.St, fn, o.Ret)
			lists(o.St, fn)
			if k := o.St.ghostConst(ghostSyn); k != 0 && o.St.f(o.Ret).nil3&mayNil != 0 {
				x := d.sites[k-1]
				viol(o.St, x.what+" is not reported", x.fn, x.pos, "no diagnostic is made for it")
			}
		}
	}
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	m.solve()
}

// ---- C07 ----

func init() {
	register(&Check{ID: "C07", Rule: "Abstract interpretation of ParseFile over any token sequence with the passing of an ILLEGAL token as an event: whenever one was passed while the list of errors may be empty, or lexical errors were recorded, the returned list is not empty; parsing without errors ends at EOF; the tree is never nil. Abstract interpretation of one Scan: a text literal without its closing quote is recorded as a lexical error.", Run: checkC07})
}

const ghostLost = "#lost" // an ILLEGAL token was passed while the list of errors may have been empty

func checkC07(w *World, r *Report) {
	m := w.parse(r, "bad")
	a := m.a
	m.setup = m.tasks
	m.entry = func(st *State, sf *sumFn, args []V) { st.setGhost(ghostLost, C(0)) }
	m.fileEntry = func(st *State) { st.setGhost(ghostLost, C(0)) }
	m.scanned = func(st *State, c *Call) {
		if m.base == nil {
			return
		}
		if g, ok := st.ghost("#c"); ok && g.K == clBad && st.setOf(m.lenAt(st, "errors")).min() < 1 {
			st.setGhost(ghostLost, C(1))
		}
	}
	m.extra = func(st *State, sf *sumFn, o Outcome, n, e V, ok bool) string {
		x := ""
		if st.ghostConst(ghostLost) != 0 {
			x = "lost"
		}
		if st.setOf(m.lenAt(st, "errors")).min() >= 1 {
			x += "reported"
		}
		return x
	}
	m.result = func(c *Call, st *State, sf *sumFn, o *sumOut, n, e V) {
		if strings.Contains(o.extra, "reported") {
			st.meetSet(m.lenAt(st, "errors"), setRange(1, maxLen))
		}
		if strings.Contains(o.extra, "lost") && st.setOf(m.lenAt(st, "errors")).min() < 1 {
			st.setGhost(ghostLost, C(1))
		}
	}
	viol := func(st *State, con, msg string) {
		r.violationAt(st, Finding{Rule: "lexical errors surface", Func: short(m.fileFn.String()), Pos: a.pos(m.fileFn.Pos()), Construct: con, Msg: msg})
	}
	m.end = func(sf *sumFn, o Outcome) {
		if sf != nil || o.Panic {
			return
		}
		rs := m.fileFn.Signature.Results()
		var list V
		st := o.St
		for i := 0; i < rs.Len(); i++ {
			v := o.Ret
			if rs.Len() > 1 {
				v = st.elem(v, i)
			}
			if sl, ok := rs.At(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), m.diagType()) {
				list = v
			} else if isNodeT(rs.At(i).Type(), m.node) {
				if !r.ob(st.f(v).nil3 == mayNon) {
					viol(st, "nil tree", "ParseFile may return a nil tree")
				}
			}
		}
		if list.undef() {
			r.undecided("ParseFile does not return a list of diagnostics")
			return
		}
		// the case that nothing is reported
		s := st.clone()
		f := s.f(list)
		if f.nil3 == mayNon && s.setOf(orC(f.ln)).min() >= 1 {
			r.ob(true)
			return
		}
		if f.nil3 != mayNil && !s.assumeEq(orC(f.ln), C(0)) || s.dead {
			r.ob(true)
			return
		}
		if !r.ob(s.ghostConst(ghostLost) == 0) {
			viol(s, "an ILLEGAL token goes unreported", "ParseFile may pass an ILLEGAL token without adding a diagnostic and return none")
		}
		c, _ := s.ghost("#c")
		if !r.ob(c.K == clEOF) {
			viol(s, "the end of the source is not reached", "ParseFile may return no diagnostic without having looked at the whole source")
		}
		// lexical errors
		lx := s.getPath(m.obj, m.path["lexer"])
		lf := s.f(lx)
		lt, fields, why := w.lexerFields()
		if why != "" || len(lf.tg) != 1 {
			r.undecided("the lexer of the parser is not known")
			return
		}
		_ = lt
		i, ok := fields["Errors"]
		if !ok {
			r.undecided("the lexer has no list of errors")
			return
		}
		ev := s.getPath(lf.tg[0].Obj, []int{i})
		if ev.undef() {
			viol(s, "lexical errors are not read", "ParseFile may return no diagnostic without having looked at the lexer's errors")
			return
		}
		ef := s.f(ev)
		good := ef.nil3 == mayNil || !s.addLE(C(1), orC(ef.ln), 0) || s.dead
		if !r.ob(good) {
			viol(s, "lexical errors go unreported", "ParseFile may return no diagnostic although the lexer recorded errors")
		}
	}
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	if !m.solve() {
		return
	}
	// unterminated text literals
	names := w.tokenNames()
	seen := 0
	l := w.step(nil, func(c *Call, l *stepRun) {
		st := c.St
		t, ok := w.tokArgs(c)
		if !ok || len(t.toks) == 0 {
			r.undecided("the token Scan returns is not known")
			return
		}
		text := false
		for _, k := range t.toks {
			text = text || names[k] == "TEXT_LITERAL"
		}
		if !text {
			return
		}
		seen++
		if closed, known := st.closingQuote(t); known && closed {
			r.ob(true)
			return
		}
		i, ok := l.fields["Errors"]
		e0, ok2 := st.ghost("?stepErrors")
		if !ok || !ok2 {
			r.undecided("the lexer has no list of errors")
			return
		}
		ev := st.elem(st.load(l.lexer(st)), i)
		if !r.ob(st.ub(e0, orC(st.f(ev).ln)) <= -1) {
			r.violationAt(st, Finding{Rule: "lexical errors surface", Func: "(*lexer.Lexer).Scan", Construct: "unterminated text literal", Msg: "a text literal that does not end in a quote may be returned without a lexical error: " + st.show(t.lit), Trace: st.traceList()})
		}
	})
	if l.report(r) && seen == 0 {
		r.undecided("Scan never returns TEXT_LITERAL")
	}
}

// closingQuote tells whether a literal taken from the source is followed by a quote.
func (st *State) closingQuote(t *tokArgs) (closed, known bool) {
	f := st.f(t.lit)
	if f.kind != KStr || len(f.parts) != 1 || f.parts[0].Kind != 's' {
		return false, false
	}
	set, ok := st.byteAt(f.parts[0].Hi)
	b, one := set.isConst()
	return ok && one && b == '"', true
}
