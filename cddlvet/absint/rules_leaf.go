package absint

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C19", Rule: "Abstract interpretation of the recursive parse function on one token that stands for itself, with its text and position unknown: on every path without a diagnostic the node is of the token's kind, carries the token, its text or the number strconv reads in all of the text, and starts where the token starts.", Run: checkC19})
}

// leaves are the nodes of the tokens that stand for themselves.
var leaves = []struct{ tok, node, lit string }{
	{"BOOL", "BooleanType", ""}, {"FALSE", "BooleanLiteral", ""}, {"TRUE", "BooleanLiteral", ""},
	{"TSTR", "TstrType", ""}, {"TEXT", "TstrType", ""},
	{"FLOAT", "FloatType", "FloatLiteral"}, {"FLOAT16", "FloatType", ""}, {"FLOAT32", "FloatType", ""}, {"FLOAT64", "FloatType", ""},
	{"UINT", "UintType", ""}, {"INT", "IntegerType", "IntegerLiteral"}, {"NINT", "NegativeIntegerType", ""},
	{"BSTR", "BstrType", ""}, {"BYTES", "BytesType", ""}, {"NULL", "NullType", ""}, {"NIL", "NullType", ""},
	{"IDENT", "Identifier", ""}, {"TEXT_LITERAL", "", "TextLiteral"},
}

func checkC19(w *World, r *Report) {
	x := w.precRun(r)
	if x == nil {
		return
	}
	m := x.parseRun
	a := m.a
	m.literals = true
	a.KeyFuncs, a.KeyErrs = true, true
	vals := map[string]int64{}
	for k, n := range w.tokenNames() {
		vals[n] = k
	}
	m.setup = m.literalTests
	probing := false
	m.call = func(c *Call) ([]Outcome, bool) {
		if !probing || c.Instr == nil || c.Fn == m.knot || len(c.Fn.Blocks) == 0 {
			return nil, false
		}
		if m.summarised(c.Fn) == nil || a.onStack(c.St, c.Fn) > 0 {
			return nil, false
		}
		return a.invokeBody(c.St, c.Fn, c.Args, nil, c.Instr), true
	}
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	if x.p = precParam(m.knot); x.p < 0 {
		r.undecided(short(m.knot.String()) + " takes no precedence")
		return
	}
	number := func(n string, base bool) {
		a.Models[n] = func(c *Call) []Outcome {
			bad := c.St.clone()
			cb := *c
			cb.St = bad
			errT := types.Universe.Lookup("error").Type()
			e := bad.fresh(&Fact{kind: KIface, typ: errT, nil3: mayNon, opq: true, tag: "failure of " + n})
			v0 := bad.havocV(c.Sig.Results().At(0).Type())
			outs := []Outcome{{St: bad, Ret: cb.tuple(v0, e)}}
			v := c.St.havocV(c.Sig.Results().At(0).Type())
			if c.St.f(v).kind == KInt && v.S == zeroSym {
				return outs
			}
			how := ""
			if base {
				if k, ok := c.St.constOf(c.Args[1]); !ok || k != 0 {
					how = "in another base than that of its prefix"
				}
			} else if n == "strconv.Atoi" {
				how = "in another base than that of its prefix"
			}
			if n != "strconv.Atoi" {
				if k, ok := c.St.constOf(c.Args[len(c.Args)-1]); !ok || k != 64 && !(base && k == 0) {
					how = "in less than 64 bits"
				}
			}
			if !c.St.same(c.Args[0], c.St.held("lit0")) {
				how = "from something else than its text"
			}
			c.St.hold("number "+how, v)
			return append(outs, Outcome{St: c.St, Ret: c.tuple(v, a.nilV(errT))})
		}
	}
	number("strconv.ParseInt", true)
	number("strconv.ParseUint", true)
	number("strconv.ParseFloat", false)
	number("strconv.Atoi", false)
	sf := m.summarised(m.knot)
	ni := 1 - sf.err
	lowest := C(0)
	if k, ok := w.constOfPkg("token", "LOWEST"); ok {
		lowest = C(k)
	}
	posT := w.Pkg("token").Pkg.Scope().Lookup("Position")
	if posT == nil {
		r.undecided("no token.Position")
		return
	}
	samePos := func(st *State, p, q V) (bool, bool) {
		ps := posT.Type().Underlying().(*types.Struct)
		known := true
		for i := 0; i < ps.NumFields(); i++ {
			if kindOf(ps.Field(i).Type()) != KInt {
				continue
			}
			u, v := st.elem(p, i), st.elem(q, i)
			if sameInt(st, u, v) {
				continue
			}
			if u.S == v.S && u.K != v.K {
				return false, true
			}
			known = false
		}
		return known, known
	}
	one := func(tok, want string, lit int64) {
		what := tok
		if lit == 1 && tok != "TEXT_LITERAL" {
			what += " literal"
		}
		bad := func(st *State, con, msg string) {
			fn, pos := m.knot, m.knot.Pos()
			for _, sm := range []string{want} {
				if f := m.makerOf(sm); f != nil {
					fn, pos = f, f.Pos()
				}
			}
			r.ob(false)
			r.violationAt(st, Finding{Rule: "leaves", Func: short(fn.String()), Pos: a.pos(pos), Construct: what + ": " + con, Msg: msg})
		}
		k, ok := vals[tok]
		if !ok {
			r.undecided("there is no token " + tok)
			return
		}
		st := m.general(clOther, clEOF)
		if !st.meetSet(st.getPath(m.obj, m.path["c.tok"]), setConst(k)) {
			r.undecided("no token " + tok)
			return
		}
		switch {
		case tok == "TRUE" || tok == "FALSE":
			st.setPath(m.obj, m.path["c.lit"], a.strConst(strings.ToLower(tok)))
		case tok == "IDENT" || lit == 1 && tok != "TEXT_LITERAL":
			st.setPath(m.obj, m.path["c.lit"], st.freshStr(1))
		}
		st.setGhost("#lc", C(lit))
		l, p := st.getPath(m.obj, m.path["c.lit"]), st.getPath(m.obj, m.path["c.pos"])
		st.hold("lit0", l)
		st.hold("pos0", p)
		args := make([]V, len(m.knot.Params))
		for i, q := range m.knot.Params {
			switch {
			case i == 0:
				args[i] = st.held("parser")
			case i == x.p:
				args[i] = lowest
			default:
				args[i] = st.havocV(q.Type())
			}
		}
		st.hold("rem0", st.mustGhost("rem"))
		r.count("leaves", 1)
		n := 0
		for _, o := range a.Run(st, m.knot, args) {
			s := o.St
			if o.Panic || s.f(s.elem(o.Ret, sf.err)).nil3 == mayNon {
				continue
			}
			node := s.payload(s.elem(o.Ret, ni))
			f := s.f(node)
			if f.kind == KIface && f.nil3 == mayNil {
				continue // C17
			}
			if f.kind != KPtr || f.opq || len(f.tg) != 1 || f.nil3 != mayNon {
				r.undecided(what + ": the node is not known")
				continue
			}
			n++
			pt, _ := f.typ.Underlying().(*types.Pointer)
			nt, _ := pt.Elem().(*types.Named)
			if nt == nil || nt.Obj().Name() != want {
				got := pt.Elem().String()
				bad(s, "kind", what+" is parsed as "+got[strings.LastIndex(got, "/")+1:]+", not "+want)
				continue
			}
			r.ob(true)
			root := s.load(node)
			str, _ := nt.Underlying().(*types.Struct)
			valued := false
			for i := 0; str != nil && i < str.NumFields(); i++ {
				fl := str.Field(i)
				v := s.elem(root, i)
				switch {
				case types.Identical(fl.Type(), m.tokenType()):
					if c, ok := s.constOf(v); ok && !r.ob(c == k) {
						bad(s, "token", "the node of "+what+" carries the token "+x.nameOf(c))
					}
				case kindOf(fl.Type()) == KStr:
					valued = true
					switch {
					case r.ob(s.same(v, s.held("lit0"))):
					default:
						bad(s, fl.Name(), fl.Name()+" of "+want+" is not the text of the token")
					}
				case lit == 1 && (kindOf(fl.Type()) == KInt || isFloat(fl.Type())):
					valued = true
					good := false
					why := ""
					for _, g := range s.ghosts {
						if !strings.HasPrefix(g.name, "?number ") || g.v != v {
							continue
						}
						if g.name == "?number " {
							good = true
						} else {
							why = g.name[len("?number "):]
						}
					}
					if !r.ob(good) {
						if why == "" {
							why = "not as it is written"
						}
						bad(s, fl.Name(), fl.Name()+" of "+want+" is read "+why)
					}
				case kindOf(fl.Type()) == KBool && want == "BooleanLiteral":
					valued = true
					b, ok := s.constOf(v)
					if !ok {
						r.undecided(fl.Name() + " of " + want + " is not known")
					} else if !r.ob((b == 1) == (tok == "TRUE")) {
						bad(s, fl.Name(), "the node of "+tok+" has the other value")
					}
				}
			}
			if !valued && (lit == 1 || tok == "IDENT" || want == "BooleanLiteral") {
				r.undecided("no field of " + want + " holds the value")
			}
			start := w.Prog.LookupMethod(f.typ, nil, "Start")
			if start == nil {
				continue
			}
			for _, q := range a.Run(s.clone(), start, []V{node}) {
				if q.Panic {
					continue
				}
				same, known := samePos(q.St, q.Ret, q.St.held("pos0"))
				switch {
				case same:
					r.ob(true)
				case known:
					bad(q.St, "start", "the node of "+what+" starts somewhere else than the token")
				default:
					bad(q.St, "start", "the node of "+what+" does not start at the token's position")
				}
			}
		}
		if n == 0 {
			r.undecided(what + ": no outcome without a diagnostic")
		}
		r.sample(fmt.Sprintf("%s: %d outcomes", what, n))
	}
	err := a.Try(func() {
		probing = true
		m.final = true
		for _, l := range leaves {
			if l.node != "" {
				one(l.tok, l.node, 2)
			}
			if l.lit != "" {
				one(l.tok, l.lit, 1)
			}
		}
	})
	r.addAnalyzer(w, a)
	if err != nil {
		r.undecided("analysis of the parser gave up: " + err.Error())
	}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// makerOf is the only function of the parser that makes nodes of a type.
func (m *parseRun) makerOf(node string) *ssa.Function {
	var found *ssa.Function
	for _, fn := range m.w.parserFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n, ok := al.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
				if !ok || n.Obj().Name() != node {
					continue
				}
				if found != nil && found != fn {
					return nil
				}
				found = fn
			}
		}
	}
	return found
}
