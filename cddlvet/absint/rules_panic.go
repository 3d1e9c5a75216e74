package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C36", Rule: "Abstract interpretation of the actions of the commands with every library and system call answered in every documented way and configurations with unknown contents (lists of any length, entries that may be null), and of the functions that print or judge tokens, positions, diagnostics, trees and configurations on unknown arguments: no path ends in a panic.", Run: checkC36})
}

func checkC36(w *World, r *Report) {
	acts := w.actions()
	names := []string{"init", "generate", "lex", "parse"}
	for n := range acts {
		if n == "doctor" {
			names = append(names, n)
		}
	}
	eachCommand(w, r, names, func(name string, fn *ssa.Function) {
		m := &cmdRun{w: w, r: r}
		m.setup()
		m.a.HavocElem = m.w.nullable(m.a.HavocElem)
		m.run(fn, nil, func(o Outcome) {
			if !r.ob(!o.Panic) {
				reportPanic(w, r, m.a, o, "the command "+name)
			}
		})
	})
	for _, fn := range w.printers() {
		fn := fn
		r.count("functions", 1)
		if pkgTypes(fn).Path() == RepoPath+"/config" {
			m := &cmdRun{w: w, r: r}
			m.setup()
			m.a.HavocElem = m.w.nullable(m.a.HavocElem)
			m.run(fn, nil, func(o Outcome) {
				if !r.ob(!o.Panic) {
					reportPanic(w, r, m.a, o, short(fn.String()))
				}
			})
			continue
		}
		a := w.newAnalyzer()
		a.MemoMay = true
		a.NoWrap = true
		node := w.nodeIface("ast", "Node")
		var elems func(*State, types.Type) V
		if node != nil {
			elems = noNilElems(node)
		}
		a.HavocElem = func(st *State, t types.Type) V {
			if pt, ok := t.(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && w.isConfig(n) {
					return V{}
				}
			}
			if elems != nil {
				if v := elems(st, t); !v.undef() {
					return v
				}
			}
			if k := kindOf(t); k == KIface || k == KPtr {
				return st.fresh(&Fact{kind: k, typ: t, nil3: mayNon, opq: true})
			}
			return V{}
		}
		a.Intercept = func(c *Call) ([]Outcome, bool) {
			p := pkgTypes(c.Fn)
			if p == nil || !strings.HasPrefix(p.Path(), RepoPath) || len(c.Fn.Blocks) == 0 || a.onStack(c.St, c.Fn) < 1 {
				return nil, false
			}
			// a part of the tree: decided by the call under way
			res := c.Sig.Results()
			switch res.Len() {
			case 0:
				return c.one(V{}), true
			case 1:
				return c.one(c.St.havocV(res.At(0).Type())), true
			}
			return c.one(c.St.havocV(res)), true
		}
		a.UnknownInvoke = func(c *Call, recv V, mt *types.Func) ([]Outcome, bool) {
			res := mt.Type().(*types.Signature).Results()
			if res.Len() == 1 {
				return c.one(c.St.havocV(res.At(0).Type())), true
			}
			return nil, false
		}
		n := 0
		err := a.Try(func() {
			st := w.initState(a, "token")
			args := make([]V, len(fn.Params))
			for i, p := range fn.Params {
				args[i] = st.havocV(p.Type())
				if k := kindOf(p.Type()); (k == KPtr || k == KIface) && !(k == KIface && node != nil && types.Identical(p.Type().Underlying(), node)) {
					args[i] = st.NonNil(args[i])
				}
			}
			for _, o := range a.Run(st, fn, args) {
				n++
				if !r.ob(!o.Panic) {
					reportPanic(w, r, a, o, short(fn.String()))
				}
			}
		})
		r.addAnalyzer(w, a)
		if err != nil {
			r.undecided(fmt.Sprintf("analysis of %s gave up: %v", short(fn.String()), err))
		} else if n == 0 {
			r.undecided(short(fn.String()) + " has no outcome")
		}
		r.sample(fmt.Sprintf("%s: %d outcomes", short(fn.String()), n))
	}
}

func reportPanic(w *World, r *Report, a *Analyzer, o Outcome, what string) {
	fn := "?"
	if o.St.panicFn != nil {
		fn = short(o.St.panicFn.String())
	}
	r.violationAt(o.St, Finding{Rule: "no panic", Func: fn, Pos: a.pos(o.St.panicPos), Construct: "panic", Msg: what + " may panic: " + o.St.panicMsg})
}

// isConfig tells a type of the configuration package.
func (w *World) isConfig(n *types.Named) bool {
	p := n.Obj().Pkg()
	return p != nil && p.Path() == RepoPath+"/config"
}

// nullable leaves open whether the pointers in a configuration are nil.
func (w *World) nullable(f func(*State, types.Type) V) func(*State, types.Type) V {
	return func(st *State, t types.Type) V {
		if pt, ok := t.(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok && w.isConfig(n) {
				return V{}
			}
		}
		if f == nil {
			return V{}
		}
		return f(st, t)
	}
}

// printers lists the functions that print or judge values of the library.
func (w *World) printers() []*ssa.Function {
	var out []*ssa.Function
	node := w.nodeIface("ast", "Node")
	for _, fn := range w.repoFuncs() {
		p := pkgTypes(fn)
		if p == nil || fn.Synthetic != "" || fn.Parent() != nil || len(fn.Blocks) == 0 || fn.TypeParams().Len() > 0 || len(fn.TypeArgs()) > 0 || fn.Name() == "init" {
			continue
		}
		o, _ := fn.Object().(*types.Func)
		if o == nil || !o.Exported() {
			continue
		}
		rel := strings.TrimPrefix(p.Path(), RepoPath+"/")
		rv := fn.Signature.Recv()
		switch rel {
		case "token":
		case "config":
			if fn.Name() != "Valid" {
				continue
			}
		case "ast":
			if rv == nil || node != nil && types.Implements(rv.Type(), node) && (fn.Name() == "Start" || fn.Name() == "End") {
				continue
			}
		case "ast/astutils":
			if fn.Name() == "Walk" || rv != nil {
				continue
			}
			str := false
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				if node != nil && types.Identical(fn.Signature.Params().At(i).Type().Underlying(), node) {
					str = true
				}
			}
			if !str || fn.Signature.Params().Len() != 1 {
				continue
			}
		case "parser":
			if rv == nil {
				continue
			}
			t := rv.Type().String()
			if !strings.HasSuffix(t, ".Error") && !strings.HasSuffix(t, ".ErrorList") {
				continue
			}
		default:
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
