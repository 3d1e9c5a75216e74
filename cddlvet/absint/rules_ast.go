package absint

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C14", Rule: "Abstract interpretation of Walk once per AST node type, on a node with unknown fields and lists of unknown length, with the recursive calls and the visitor as events: on every feasible path the visitor is asked first, then every child that is not nil is walked exactly once with the visitor the first visit returned (the elements of a list one after the other up to its end), no nil is walked, and last the visitor is told the end; nothing more happens when the first visit returns nil; no panic.", Run: checkC14})
	register(&Check{ID: "C15", Rule: "Abstract interpretation of Start and End of every AST node type on a node with unknown fields: children may be absent and lists empty. No path panics; methods of present children are assumed to return by induction on the height of the tree, each being shown for every node of its own type.", Run: checkC15})
}

// nodeType is a concrete type of the AST.
type nodeType struct {
	name string
	recv types.Type // *T or T
	st   *types.Struct
	T    types.Type
}

func (w *World) nodeIface(rel, name string) *types.Interface {
	p := w.Pkg(rel)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	i, _ := o.Type().Underlying().(*types.Interface)
	return i
}

// nodeTypes lists the concrete types that implement ast.Node.
func (w *World) nodeTypes() []nodeType {
	node := w.nodeIface("ast", "Node")
	if node == nil {
		return nil
	}
	var out []nodeType
	sc := w.Pkg("ast").Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		T := tn.Type()
		switch {
		case types.Implements(T, node):
			out = append(out, nodeType{n, T, st, T})
		case types.Implements(types.NewPointer(T), node):
			out = append(out, nodeType{n, types.NewPointer(T), st, T})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// isNodeT tells whether values of t are nodes.
func isNodeT(t types.Type, node *types.Interface) bool {
	if types.IsInterface(t) {
		return types.Implements(t, node)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return types.Implements(t, node)
	}
	return false
}

type childField struct {
	i    int
	name string
	list bool
}

func childFields(s *types.Struct, node *types.Interface) []childField {
	var out []childField
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if isNodeT(t, node) {
			out = append(out, childField{i, s.Field(i).Name(), false})
		} else if sl, ok := t.Underlying().(*types.Slice); ok && isNodeT(sl.Elem(), node) {
			out = append(out, childField{i, s.Field(i).Name(), true})
		}
	}
	return out
}

// newNode makes a node of type nt with unknown fields; lists hold no nil.
func (nt nodeType) newNode(a *Analyzer, st *State) (V, int, []V) {
	elems := make([]V, nt.st.NumFields())
	for i := range elems {
		elems[i] = st.havocV(nt.st.Field(i).Type())
	}
	root := st.fresh(&Fact{kind: KStruct, typ: nt.T, elems: elems})
	if _, ok := nt.recv.(*types.Pointer); !ok {
		return root, -1, elems
	}
	o := st.newObj(nt.T, "the node", root)
	return st.ptrTo(o.id, nt.recv), o.id, elems
}

func noNilElems(node *types.Interface) func(st *State, t types.Type) V {
	return func(st *State, t types.Type) V {
		if isNodeT(t, node) {
			v := st.fresh(&Fact{kind: kindOf(t), typ: t, nil3: mayNon, opq: true})
			return v
		}
		return V{}
	}
}

// payload is the node in an interface value, or the value itself.
func (st *State) payload(v V) V {
	if f := st.f(v); f.kind == KIface && !f.opq && len(f.alts) == 1 {
		return f.alts[0].P
	}
	return v
}

// ---- C15 ----

func checkC15(w *World, r *Report) {
	node := w.nodeIface("ast", "Node")
	nts := w.nodeTypes()
	if node == nil || len(nts) == 0 {
		r.undecided("no interface ast.Node")
		return
	}
	for _, nt := range nts {
		for i := 0; i < node.NumMethods(); i++ {
			m := node.Method(i)
			fn := w.Prog.LookupMethod(nt.recv, m.Pkg(), m.Name())
			if fn == nil {
				continue
			}
			if _, ok := nt.recv.(*types.Pointer); ok && fn.Signature.Recv() != nil {
				if _, ok := fn.Signature.Recv().Type().(*types.Pointer); !ok {
					// declared on the value; the wrapper only dereferences
				}
			}
			nt, m := nt, m
			a := w.newAnalyzer()
			a.HavocElem = noNilElems(node)
			a.Intercept = func(c *Call) ([]Outcome, bool) {
				if c.Fn.Signature.Recv() == nil || len(c.Args) == 0 || c.Fn == fn && c.Instr == nil {
					return nil, false
				}
				rt := c.Fn.Signature.Recv().Type()
				if !types.Implements(rt, node) || (c.Fn.Name() != "Start" && c.Fn.Name() != "End") {
					return nil, false
				}
				f := c.St.f(c.Args[0])
				if f.kind != KPtr {
					return nil, false
				}
				r.count("children_calls", 1)
				if f.nil3 == mayNil || f.nil3 == 0 {
					return nil, false
				}
				if f.nil3 == mayNon {
					// the receiver itself under another accessor is interpreted; a child is not
					if self, ok := c.St.ghost("?self"); ok && c.St.samePtr(self, c.Args[0]) && c.Fn != fn {
						return nil, false
					}
					return c.one(c.St.havocV(c.Sig.Results().At(0).Type())), true
				}
				// nil or not
				s2 := c.St.clone()
				s2.assumeNil(c.Args[0], false)
				out := []Outcome{{St: s2, Ret: s2.havocV(c.Sig.Results().At(0).Type())}}
				s3 := c.St.clone()
				s3.assumeNil(c.Args[0], true)
				c3 := *c
				c3.St = s3
				if c.Fn.Blocks != nil && a.onStack(s3, c.Fn) < 3 {
					out = append(out, a.invokeBody(s3, c.Fn, c.Args, nil, c.Instr)...)
				}
				return out, true
			}
			a.UnknownInvoke = func(c *Call, recv V, m *types.Func) ([]Outcome, bool) {
				if m.Name() == "Start" || m.Name() == "End" {
					r.count("children_calls", 1)
					return c.one(c.St.havocV(c.Sig.Results().At(0).Type())), true
				}
				return nil, false
			}
			n := 0
			err := a.Try(func() {
				st := w.initState(a)
				v, _, _ := nt.newNode(a, st)
				st.hold("self", v)
				for _, o := range a.Run(st, fn, []V{v}) {
					n++
					if !r.ob(!o.Panic) {
						f := Finding{Rule: "positions", Func: "(*ast." + nt.name + ")." + m.Name(), Pos: a.pos(o.St.panicPos), Construct: "panic", Msg: fmt.Sprintf("%s of a %s may panic: %s", m.Name(), nt.name, o.St.panicMsg)}
						r.violationAt(o.St, f)
					}
				}
			})
			r.addAnalyzer(w, a)
			if err != nil {
				r.undecided(fmt.Sprintf("analysis of %s.%s gave up: %v", nt.name, m.Name(), err))
			} else if n == 0 {
				r.undecided(fmt.Sprintf("%s.%s has no outcome", nt.name, m.Name()))
			}
			r.sample(fmt.Sprintf("%s.%s: %d outcomes", nt.name, m.Name(), n))
			r.count("methods", 1)
		}
	}
	r.count("node_types", len(nts))
}

func (st *State) samePtr(x, y V) bool {
	if x == y {
		return true
	}
	fx, fy := st.f(x), st.f(y)
	return fx.kind == KPtr && fy.kind == KPtr && len(fx.tg) == 1 && len(fy.tg) == 1 && !fx.opq && !fy.opq && sameTarget(fx.tg[0], fy.tg[0])
}

// ---- C14 ----

func checkC14(w *World, r *Report) {
	node := w.nodeIface("ast", "Node")
	nts := w.nodeTypes()
	p := w.Pkg("ast/astutils")
	if node == nil || len(nts) == 0 || p == nil || p.Func("Walk") == nil {
		r.undecided("no ast.Node or astutils.Walk")
		return
	}
	walk := p.Func("Walk")
	if len(walk.Params) != 2 {
		r.undecided("Walk has not two parameters")
		return
	}
	nodeOf := func(fn *ssa.Function) (int, int) { // indices of the visitor and the node parameter
		vi, ni := -1, -1
		for i, q := range fn.Params {
			if types.Identical(q.Type(), walk.Params[0].Type()) {
				vi = i
			} else if types.Identical(q.Type(), walk.Params[1].Type()) {
				ni = i
			}
		}
		return vi, ni
	}
	// does walking nil do nothing?
	nilOK := false
	{
		a := w.newAnalyzer()
		visited := false
		a.UnknownInvoke = func(c *Call, recv V, m *types.Func) ([]Outcome, bool) {
			visited = true
			return c.one(c.St.havocV(c.Sig.Results().At(0).Type())), true
		}
		err := a.Try(func() {
			st := w.initState(a)
			v := st.NonNil(st.havocV(walk.Params[0].Type()))
			nilOK = true
			for _, o := range a.Run(st, walk, []V{v, a.nilV(walk.Params[1].Type())}) {
				if o.Panic {
					nilOK = false
				}
			}
		})
		if err != nil || visited {
			nilOK = false
		}
	}
	for _, nt := range nts {
		nt := nt
		cs := childFields(nt.st, node)
		a := w.newAnalyzer()
		a.MemoMay = true
		a.HavocElem = noNilElems(node)
		bad := func(st *State, con, msg string) {
			r.ob(false)
			r.violationAt(st, Finding{Rule: "walk", Func: "astutils.Walk", Pos: "", Construct: con, Msg: msg})
		}
		lost := false
		// what is missing at the end counts only if every walked value is known
		var lateFindings []func()
		late := func(st *State, con, msg string) {
			lateFindings = append(lateFindings, func() { bad(st, con, msg) })
		}
		walked := func(c *Call, vi, ni int) []Outcome {
			st := c.St
			r.count("recursive_calls", 1)
			if st.ghostConst("#phase") != 1 {
				bad(st, "order of visits of "+nt.name, "a child of a "+nt.name+" may be walked before the visitor is asked about the node or after it was told the end")
			}
			nv := c.Args[ni]
			if vi >= 0 {
				if want, ok := st.ghost("?visitor"); ok && !r.ob(c.Args[vi] == want) {
					bad(st, "visitor for children of "+nt.name, "a child of a "+nt.name+" may be walked with another visitor than the one the visit returned")
				}
			}
			f := st.f(nv)
			pl := st.payload(nv)
			mayBeNil := f.nil3&mayNil != 0 || pl != nv && st.f(pl).kind == KPtr && st.f(pl).nil3&mayNil != 0
			typedNil := pl != nv && st.f(pl).kind == KPtr && st.f(pl).nil3&mayNil != 0
			for i, cf := range cs {
				k := st.held(fmt.Sprintf("kid%d", i))
				if !cf.list {
					if pl != k && nv != k {
						continue
					}
					if mayBeNil && (typedNil || !nilOK) {
						bad(st, "nil "+cf.name+" of "+nt.name, "the absent "+cf.name+" of a "+nt.name+" may be walked")
						st.assumeNil(k, false)
					} else if mayBeNil {
						// Walk ignores nil: only the other case counts
						s2 := st.clone()
						s2.assumeNil(nv, true)
						st.assumeNil(nv, false)
						st.setGhost(fmt.Sprintf("#w%d", i), C(st.ghostConst(fmt.Sprintf("#w%d", i))+1))
						return append(c.one(V{}), Outcome{St: s2})
					}
					g := fmt.Sprintf("#w%d", i)
					n := st.ghostConst(g)
					if n > 2 {
						n = 2
					}
					st.setGhost(g, C(n+1))
					return c.one(V{})
				}
				// an element of a list
				fs := st.f(k)
				if fs.kind != KSlice || fs.arr.undef() {
					continue
				}
				for _, tg := range st.f(fs.arr).tg {
					root := st.f(st.loadTarget(tg))
					for _, m := range root.memo {
						if m.Val != nv && m.Val != pl {
							continue
						}
						g := fmt.Sprintf("list%d", i)
						cnt, _ := st.ghost(g)
						if cnt.undef() {
							cnt = C(0)
						}
						switch st.cmpIdx(m.Idx, cnt) {
						case 1:
							nx := st.addV(m.Idx, C(1), intType)
							st.setGhost(g, nx)
						case 0:
							bad(st, "elements of "+cf.name+" of "+nt.name, "the elements of "+cf.name+" of a "+nt.name+" may not be walked one after the other")
							return nil
						default:
							late(st, "elements of "+cf.name+" of "+nt.name, "the elements of "+cf.name+" of a "+nt.name+" may not be walked one after the other")
							st.setGhost(g, st.addV(m.Idx, C(1), intType))
						}
						return c.one(V{})
					}
				}
			}
			if st.payload(nv) == st.held("self") {
				bad(st, "the node itself", "a "+nt.name+" may be walked again while it is walked")
				return nil
			}
			if debugFlag {
				fmt.Println("LOST value", nt.name, st.show(nv), st.show(pl))
			}
			lost = true
			return nil
		}
		a.Intercept = func(c *Call) ([]Outcome, bool) {
			if c.Instr == nil {
				return nil, false
			}
			vi, ni := nodeOf(c.Fn)
			if ni < 0 || c.Fn != walk && (vi < 0 || a.onStack(c.St, c.Fn) == 0) {
				return nil, false
			}
			// the first call of a helper that does all the work is interpreted
			if c.Fn == walk || a.onStack(c.St, c.Fn) > 0 {
				return walked(c, vi, ni), true
			}
			return nil, false
		}
		a.UnknownInvoke = func(c *Call, recv V, m *types.Func) ([]Outcome, bool) {
			if m.Name() != "Visit" {
				return nil, false
			}
			st := c.St
			ph := st.ghostConst("#phase")
			f := st.f(c.Args[0])
			isSelf := st.payload(c.Args[0]) == st.held("self")
			switch {
			case ph == 0 && isSelf:
				if want := st.held("outer"); !r.ob(recv == want) {
					bad(st, "visitor of "+nt.name, "another visitor is asked")
				}
				rt := c.Sig.Results().At(0).Type()
				s2 := st.clone()
				s2.setGhost("#phase", C(9))
				st.setGhost("#phase", C(1))
				v := st.NonNil(st.havocV(rt))
				st.hold("visitor", v)
				return []Outcome{{St: st, Ret: v}, {St: s2, Ret: a.nilV(rt)}}, true
			case ph == 1 && f.nil3 == mayNil:
				if want := st.held("visitor"); !r.ob(recv == want) {
					bad(st, "end of visit of "+nt.name, "another visitor than the one the visit returned is told the end")
				}
				st.setGhost("#phase", C(2))
				return c.one(st.havocV(c.Sig.Results().At(0).Type())), true
			}
			bad(st, "order of visits of "+nt.name, "the visitor may be called out of order for a "+nt.name)
			return nil, true
		}
		n := 0
		err := a.Try(func() {
			st := w.initState(a)
			v, _, elems := nt.newNode(a, st)
			st.hold("self", v)
			outer := st.NonNil(st.havocV(walk.Params[0].Type()))
			st.hold("outer", outer)
			for i, c := range cs {
				st.hold(fmt.Sprintf("kid%d", i), elems[c.i])
				st.setGhost(fmt.Sprintf("list%d", i), C(0))
				if !c.list {
					st.setGhost(fmt.Sprintf("#w%d", i), C(0))
				}
			}
			st.setGhost("#phase", C(0))
			for _, o := range a.Run(st, walk, []V{outer, st.mkIface(nt.recv, v, walk.Params[1].Type())}) {
				n++
				if !r.ob(!o.Panic) {
					r.violationAt(o.St, Finding{Rule: "walk", Func: "astutils.Walk", Pos: a.pos(o.St.panicPos), Construct: "panic for " + nt.name, Msg: "walking a " + nt.name + " may panic: " + o.St.panicMsg})
					continue
				}
				s := o.St
				ph := s.ghostConst("#phase")
				if ph == 9 {
					r.ob(true)
					continue
				}
				if !r.ob(ph == 2) {
					bad(s, "end of visit of "+nt.name, "the visit of a "+nt.name+" may not be ended")
					continue
				}
				for i, c := range cs {
					k := s.held(fmt.Sprintf("kid%d", i))
					if c.list {
						cnt, _ := s.ghost(fmt.Sprintf("list%d", i))
						ln := orC(s.f(k).ln)
						switch s.cmpIdx(cnt, ln) {
						case 1:
							r.ob(true)
						default:
							if s.ub(ln, cnt) <= 0 {
								r.ob(true)
								break
							}
							late(s, "elements of "+c.name+" of "+nt.name, "not all elements of "+c.name+" of a "+nt.name+" may be walked")
						}
						continue
					}
					got := s.ghostConst(fmt.Sprintf("#w%d", i))
					switch nl := s.f(k).nil3; {
					case got < 0:
						lost = true
					case nl == mayNil:
						r.ob(got == 0)
					case got != 1:
						late(s, c.name+" of "+nt.name, fmt.Sprintf("%s of a %s may be walked %d times", c.name, nt.name, got))
					default:
						r.ob(true)
					}
				}
			}
		})
		r.addAnalyzer(w, a)
		if err != nil {
			r.undecided(fmt.Sprintf("analysis of Walk for %s gave up: %v", nt.name, err))
		} else if lost {
			r.undecided(fmt.Sprintf("Walk of %s: a walked value could not be related to a child", nt.name))
		} else if n == 0 {
			r.undecided("Walk of " + nt.name + " has no outcome")
		} else {
			if len(lateFindings) > 0 && w.reslices(a, node) {
				// how much of a list is left is not a difference of two numbers
				r.undecided("Walk of " + nt.name + ": lists are cut up while they are walked")
				lateFindings = nil
			}
			for _, f := range lateFindings {
				f()
			}
		}
		r.sample(fmt.Sprintf("%s: %d children, %d outcomes", nt.name, len(cs), n))
	}
	r.count("node_types", len(nts))
}

// reslices tells whether an interpreted function cuts lists of nodes up.
func (w *World) reslices(a *Analyzer, node *types.Interface) bool {
	for fn := range a.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Slice); ok && w.Repo(fn) {
					if sl, ok := s.X.Type().Underlying().(*types.Slice); ok && isNodeT(sl.Elem(), node) {
						return true
					}
				}
			}
		}
	}
	return false
}
