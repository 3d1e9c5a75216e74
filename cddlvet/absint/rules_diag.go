package absint

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C29", Rule: "Abstract interpretation of every function that turns a source and a parser.ErrorList into strings, for an unknown source and an unknown list of errors with unknown positions: no path panics, the result has as many entries as the list, and the entry appended at place i is built after the i-th error, and no later one, was asked for its text.", Run: checkC29})
}

// stringers lists the functions that turn a source and an error list into strings.
func (w *World) stringers() []*ssa.Function {
	p := w.Pkg("parser")
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup("ErrorList")
	if o == nil {
		return nil
	}
	var out []*ssa.Function
	for _, fn := range w.repoFuncs() {
		s := fn.Signature
		if s.Params().Len() != 2 || s.Results().Len() != 1 || fn.Blocks == nil || fn.Parent() != nil {
			continue
		}
		sl, ok := s.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok || kindOf(sl.Elem()) != KStr {
			continue
		}
		for i := 0; i < 2; i++ {
			if types.Identical(s.Params().At(i).Type(), o.Type()) {
				out = append(out, fn)
				break
			}
		}
	}
	return out
}

// elemIndex finds the index at which v was read from a list.
func (st *State) elemIndex(list, v V) (V, bool) {
	fs := st.f(list)
	if fs.kind != KSlice || fs.arr.undef() {
		return V{}, false
	}
	for _, tg := range st.f(fs.arr).tg {
		for _, m := range st.f(st.loadTarget(tg)).memo {
			if m.Val == v {
				return m.Idx, true
			}
		}
	}
	return V{}, false
}

func checkC29(w *World, r *Report) {
	fns := w.stringers()
	if len(fns) == 0 {
		r.undecided("no function turns a source and an error list into strings")
	}
	for _, fn := range fns {
		fn := fn
		name := short(fn.String())
		a := w.newAnalyzer()
		a.MemoMay = true
		a.HavocElem = func(st *State, t types.Type) V {
			if k := kindOf(t); k == KIface {
				return st.fresh(&Fact{kind: k, typ: t, nil3: mayNon, opq: true})
			}
			return V{}
		}
		viol := func(st *State, con, msg, pos string) {
			r.ob(false)
			r.violationAt(st, Finding{Rule: "diagnostics", Func: name, Pos: pos, Construct: con, Msg: msg})
		}
		mention := func(st *State, v V) {
			list, ok := st.ghost("?errs")
			if !ok || v.undef() {
				return
			}
			if idx, ok := st.elemIndex(list, v); ok {
				st.setGhost("mention", idx)
				st.setGhost("#mentioned", C(1))
			}
		}
		var mentionAll func(st *State, v V, d int)
		mentionAll = func(st *State, v V, d int) {
			if v.undef() || d > 2 {
				return
			}
			mention(st, v)
			if f := st.f(v); f.kind == KSlice {
				if vs, ok := st.variadic(v); ok {
					for _, x := range vs {
						mentionAll(st, x, d+1)
					}
				}
			}
		}
		a.Intercept = func(c *Call) ([]Outcome, bool) {
			if !w.Repo(c.Fn) {
				for _, v := range c.Args {
					mentionAll(c.St, v, 0)
				}
			}
			return nil, false
		}
		a.UnknownInvoke = func(c *Call, recv V, m *types.Func) ([]Outcome, bool) {
			switch m.Name() {
			case "Error", "String", "Diagnostic":
				mention(c.St, recv)
			}
			res := c.Sig.Results()
			if c.Sig.Params().Len() == 0 && res.Len() == 1 {
				return c.one(c.St.havocV(res.At(0).Type())), true
			}
			return nil, false
		}
		a.OnAppendAt = func(st *State, in ssa.CallInstruction, s, e V, t types.Type) {
			if kindOf(t.Underlying().(*types.Slice).Elem()) != KStr {
				return
			}
			if k, ok := st.constOf(orC(st.f(e).ln)); !ok || k != 1 {
				return
			}
			r.count("appends", 1)
			m, ok := st.ghost("mention")
			if !ok || st.ghostConst("#mentioned") != 1 {
				viol(st, "entry without its error", "an entry may be added that does not mention an error", a.pos(in.Pos()))
				return
			}
			if !r.ob(st.cmpIdx(m, orC(st.f(s).ln)) == 1) {
				viol(st, "entry of another error", "the entry for one error may mention another one", a.pos(in.Pos()))
			}
		}
		n := 0
		err := a.Try(func() {
			st := w.initState(a, "token", "ast", "lexer", "parser")
			args := make([]V, len(fn.Params))
			var errs V
			for i, p := range fn.Params {
				args[i] = st.havocV(p.Type())
				if strings.HasSuffix(p.Type().String(), "ErrorList") {
					errs = args[i]
				}
			}
			st.hold("errs", errs)
			st.setGhost("#mentioned", C(0))
			for _, o := range a.Run(st, fn, args) {
				n++
				s := o.St
				if !r.ob(!o.Panic) {
					viol(s, "panic", name+" may panic: "+s.panicMsg, a.pos(s.panicPos))
					continue
				}
				le, lo := orC(s.f(s.held("errs")).ln), orC(s.f(o.Ret).ln)
				if s.f(s.held("errs")).nil3 == mayNil {
					le = C(0)
				}
				if s.f(o.Ret).nil3 == mayNil {
					lo = C(0)
				}
				if !r.ob(s.cmpIdx(le, lo) == 1) {
					viol(s, "number of entries", "the result may have fewer or more entries than there are errors", a.pos(fn.Pos()))
				}
			}
		})
		r.addAnalyzer(w, a)
		if err != nil {
			r.undecided(fmt.Sprintf("analysis of %s gave up: %v", name, err))
		} else if n == 0 {
			r.undecided(name + " has no outcome")
		}
		r.sample(fmt.Sprintf("%s: %d outcomes", name, n))
	}
	r.count("functions", len(fns))
}
