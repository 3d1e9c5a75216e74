package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lexRun is one analysis of the lexer over an arbitrary source.
type lexRun struct {
	w    *World
	a    *Analyzer
	outs []Outcome
	err  error
}

// constOfPkg is the value of an integer constant of a package of the repository.
func (w *World) constOfPkg(rel, name string) (int64, bool) {
	p := w.Pkg(rel)
	if p == nil {
		return 0, false
	}
	c, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

// runeEnd adds to the partition key whether a stored rune is the end-of-input mark.
func runeEnd(st *State, fn *ssa.Function) string {
	var b strings.Builder
	st.heap.each(func(id int, o *Object) {
		if o.typ == nil || o.site == "global" || o.root.undef() {
			return
		}
		s, ok := o.typ.Underlying().(*types.Struct)
		if !ok {
			return
		}
		f := st.f(o.root)
		for i, e := range f.elems {
			if e.undef() || i >= s.NumFields() {
				continue
			}
			bt, ok := s.Field(i).Type().(*types.Basic)
			if !ok || bt.Kind() != types.Int32 {
				continue
			}
			set := st.setOf(e)
			switch {
			case set.max() < 0:
				fmt.Fprintf(&b, "e%d", i)
			case set.min() >= 0:
			default:
				fmt.Fprintf(&b, "?%d", i)
			}
		}
	})
	return b.String()
}

// lex analyses the lexing harness; hook sees every token.
func (w *World) lex(setup func(a *Analyzer), onToken func(c *Call, st *State)) *lexRun {
	a := w.newAnalyzer()
	l := &lexRun{w: w, a: a}
	a.KeyExtra = runeEnd
	a.Models[HarnessPath+".Token"] = func(c *Call) []Outcome {
		if onToken != nil {
			onToken(c, c.St)
		}
		return c.one(V{})
	}
	a.Models[HarnessPath+".AtEOF"] = func(c *Call) []Outcome { return c.one(V{}) }
	a.Models[HarnessPath+".Maybe"] = pure
	if setup != nil {
		setup(a)
	}
	l.err = a.Try(func() {
		st := w.initState(a, "token", "lexer")
		src := st.TextSource(types.NewSlice(types.Typ[types.Byte]))
		l.outs = a.Run(st, w.Harness("LexAll"), []V{src})
	})
	return l
}

func (l *lexRun) report(r *Report) bool {
	r.addAnalyzer(l.w, l.a)
	if l.err != nil {
		r.undecided("lexer analysis gave up: " + l.err.Error())
		return false
	}
	return true
}

func init() {
	register(&Check{ID: "C01", Rule: "Abstract interpretation of NewLexer followed by Scan until EOF and any number of Scans afterwards, on a source of unknown length and contents: every loop on every feasible path has a strictly progressing bounded measure, and every Scan after EOF returns EOF.", Run: checkC01})
	register(&Check{ID: "C02", Rule: "Abstract interpretation of NewLexer and any sequence of Scan calls on an unknown source: every index, slice, dereference, conversion and call on every feasible path is in bounds or non-nil.", Run: checkC02})
	register(&Check{ID: "C03", Rule: "Ownership: the source slice's backing array is marked read-only; no store, copy or in-place append on any feasible path of lexing may write to it.", Run: checkC03})
}

func checkC01(w *World, r *Report) {
	eof, _ := w.constOfPkg("token", "EOF")
	l := w.lex(func(a *Analyzer) {
		a.LoopCheck = true
		a.Models[HarnessPath+".AtEOF"] = func(c *Call) []Outcome {
			k, ok := c.St.constOf(c.Args[0])
			if !r.ob(ok && k == eof) {
				r.violation(Finding{Rule: "sticky EOF", Func: "(*lexer.Lexer).Scan", Pos: l_pos(c), Construct: "Scan after EOF", Msg: "Scan after EOF may return token " + c.St.show(c.Args[0]), Trace: c.St.traceList()})
			}
			return c.one(V{})
		}
	}, nil)
	if !l.report(r) {
		return
	}
	proved, bad, pos := l.a.LoopReport()
	for _, p := range proved {
		if strings.Contains(p, "zzverif") {
			p = "calling Scan until EOF"
		}
		r.ob(true)
		r.sample("loop terminates: " + short(p))
	}
	for i, b := range bad {
		if strings.Contains(b, "zzverif") {
			b = "calling Scan until EOF"
			if strings.Contains(w.Fset.Position(pos[i]).String(), "zzverif") && isMaybe(l.a, pos[i]) {
				continue
			}
		}
		if debugFlag {
			l.a.dumpLoop(b, pos[i])
		}
		r.ob(false)
		r.violation(Finding{Rule: "termination", Func: short(b), Pos: l.a.pos(pos[i]), Construct: "loop", Msg: "no progress measure for this loop: some path goes round it without consuming input"})
	}
	if len(proved) < 3 {
		r.undecided("fewer loops analysed than the lexer has")
	}
	live := false
	for _, o := range l.outs {
		live = live || !o.Panic
	}
	if !live {
		r.undecided("the lexing harness has no normal outcome")
	}
}

// isMaybe tells the harness's open-ended loop from the others.
func isMaybe(a *Analyzer, p token.Pos) bool {
	for _, k := range sortedKeys(a.loopRec) {
		rec := a.loopRec[k]
		if rec.Pos == p && strings.Contains(rec.Fn, "zzverif") {
			return strings.Contains(a.srcLine(p), "Maybe")
		}
	}
	return false
}

// srcLine is the harness line at p.
func (a *Analyzer) srcLine(p token.Pos) string {
	q := a.Fset.Position(p)
	ents, _ := harnessFS.ReadDir("harness")
	for _, e := range ents {
		if strings.HasSuffix(q.Filename, strings.TrimSuffix(e.Name(), ".txt")) {
			b, _ := harnessFS.ReadFile("harness/" + e.Name())
			l := strings.Split(string(b), "\n")
			if q.Line-1 < len(l) {
				return l[q.Line-1]
			}
		}
	}
	return ""
}

func l_pos(c *Call) string { return c.A.pos(c.Pos) }

func (st *State) traceList() []string {
	var out []string
	for t, n := st.trace, 0; t != nil && n < 8; t, n = t.prev, n+1 {
		out = append(out, st.a.pos(t.pos)+" "+t.what)
	}
	return out
}

// panics reports obligations and panicking outcomes.
func (r *Report) panics(a *Analyzer, outs []Outcome, rule string) {
	for _, k := range sortedKeys(a.Obls) {
		o := a.Obls[k]
		if strings.Contains(o.Fn, "zzverif") {
			continue
		}
		r.Obligations++
		if o.Bad == 0 {
			r.Discharged++
		}
		r.sample(fmt.Sprintf("%s in %s at %s: %d abstract states, %d bad", o.Kind, short(o.Fn), a.pos(o.Pos), o.N, o.Bad))
	}
	for _, o := range outs {
		if !o.Panic {
			continue
		}
		fn := "?"
		if o.St.panicFn != nil {
			fn = short(o.St.panicFn.String())
		}
		r.violation(Finding{Rule: rule, Func: fn, Pos: a.pos(o.St.panicPos), Construct: stripVals(o.St.panicMsg), Msg: "may panic: " + o.St.panicMsg, Trace: o.St.traceList(), Key: rule + "|" + fn + "|" + stripVals(o.St.panicMsg)})
	}
}

// stripVals removes the abstract values from a panic message so that keys are stable.
func stripVals(s string) string {
	for _, w := range []string{"slice bounds out of range", "index out of range"} {
		if strings.HasPrefix(s, w) {
			return w
		}
	}
	return s
}

func checkC02(w *World, r *Report) {
	l := w.lex(nil, nil)
	if !l.report(r) {
		return
	}
	r.panics(l.a, l.outs, "no panic")
}

func checkC03(w *World, r *Report) {
	n := 0
	l := w.lex(func(a *Analyzer) {
		a.OnStore = func(st *State, o *Object, pos token.Pos, fn *ssa.Function) {
			n++
			if !r.ob(!o.ro) {
				r.violation(Finding{Rule: "source is read-only", Func: short(fn.String()), Pos: a.pos(pos), Construct: "write to the source array", Msg: "this write may reach the caller's source buffer", Trace: st.traceList()})
			}
		}
	}, nil)
	if !l.report(r) {
		return
	}
	r.count("writes_checked", n)
}
