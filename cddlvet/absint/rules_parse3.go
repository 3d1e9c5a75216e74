package absint

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C11 ----

func init() {
	register(&Check{ID: "C11", Rule: "Abstract interpretation of ParseFile and every handler over any token sequence with parsed nodes and converted numbers as debts: every node a summarised call returns without a diagnostic, every operand a handler is given and every number a literal is converted to is part of the node that is returned without a diagnostic (stored in it, in a node or list it holds, or handed on as an operand); lists of nodes only grow, a field that holds a node is not overwritten, and no name or text literal is passed over unread.", Run: checkC11})
}

// nodeDebts are the parts of the tree a path has to attach.
type nodeDebts struct {
	debts
	unsure bool
}

// part tells whether o is v or a part of what v holds.
func (st *State) part(v, o V) bool {
	seen := map[int]bool{}
	var walk func(v V, d int) bool
	walk = func(v V, d int) bool {
		if v.undef() || d > 40 {
			return false
		}
		if st.same(v, o) || st.sameObj(v, o) {
			return true
		}
		if v.S == zeroSym {
			return false
		}
		f := st.f(v)
		switch f.kind {
		case KPtr:
			if f.opq || f.nil3 != mayNon || len(f.tg) == 0 {
				return false
			}
			for _, t := range f.tg {
				r, ok := seen[t.Obj]
				if !ok {
					seen[t.Obj] = false
					r = walk(st.obj(t.Obj).root, d+1)
					seen[t.Obj] = r
				}
				if !r {
					return false
				}
			}
			return true
		case KIface:
			if f.opq || f.nil3 != mayNon || len(f.alts) == 0 {
				return false
			}
			for _, al := range f.alts {
				if !walk(al.P, d+1) {
					return false
				}
			}
			return true
		case KStruct, KTuple:
			for _, e := range f.elems {
				if walk(e, d+1) {
					return true
				}
			}
		case KArray:
			for _, m := range f.memo {
				if walk(m.Val, d+1) {
					return true
				}
			}
			if f.defK == defSum {
				return walk(f.dflt, d+1)
			}
		case KSlice:
			if !f.arr.undef() {
				return walk(f.arr, d+1)
			}
		}
		return false
	}
	return walk(v, 0)
}

// sameObj tells whether two pointers point to the same object.
func (st *State) sameObj(v, o V) bool {
	if v.S == zeroSym || o.undef() || o.S == zeroSym {
		return false
	}
	a, b := st.f(v), st.f(o)
	return a.kind == KPtr && b.kind == KPtr && len(a.tg) == 1 && len(b.tg) == 1 && !a.opq && !b.opq && a.tg[0].Obj == b.tg[0].Obj && len(a.tg[0].Path) == 0 && len(b.tg[0].Path) == 0
}

func (st *State) gv(n string) V {
	v, ok := st.ghost(n)
	if !ok {
		return V{}
	}
	return v
}

// owns tells whether slot's debt is v or in v.
func (d *nodeDebts) owns(st *State, slot string, v V) bool {
	for _, p := range []string{"?d:", "?c:", "?n:"} {
		if o, ok := st.ghost(p + slot); ok && st.part(v, o) {
			return true
		}
	}
	return false
}

func (d *nodeDebts) drop(st *State, slot string) {
	st.dropGhost("#d:" + slot)
	st.dropGhost("?d:" + slot)
	st.dropGhost("?c:" + slot)
	st.dropGhost("?n:" + slot)
	st.dropGhost("#n:" + slot)
}

// owes notes that v has to be attached.
func (d *nodeDebts) owes(st *State, v V, pos token.Pos, fn, what string) {
	k := d.rotate(st, pos, fn, what)
	s := "s" + itoa(k)
	st.setGhost("#d:"+s, C(k))
	st.setGhost("?d:"+s, v)
}

// rotate makes the debt of an earlier round of a call an older one.
func (d *nodeDebts) rotate(st *State, pos token.Pos, fn, what string) int64 {
	k := d.site(pos, fn, what)
	s, o := "s"+itoa(k), "o"+itoa(k)
	if st.ghostConst("#d:"+s) != 0 {
		// one of an earlier round
		sc, oc := d.holder(st, s), d.holder(st, o)
		switch {
		case st.ghostConst("#d:"+o) == 0, st.part(sc, oc):
			st.setGhost("#d:"+o, C(k))
			for _, p := range []string{"?d:", "?c:", "?n:", "#n:"} {
				st.dropGhost(p + o)
				if x, ok := st.ghost(p + s); ok {
					st.setGhost(p+o, x)
				}
			}
		case st.part(oc, sc):
		default:
			st.setGhost("#unsure", C(1))
		}
		d.drop(st, s)
	}
	return k
}

func (d *nodeDebts) holder(st *State, slot string) V {
	if c, ok := st.ghost("?c:" + slot); ok {
		return c
	}
	return st.gv("?d:" + slot)
}

func itoa(k int64) string {
	if k == 0 {
		return "0"
	}
	s := ""
	for ; k > 0; k /= 10 {
		s = string(rune('0'+k%10)) + s
	}
	return s
}

// attach clears the debts that are part of v.
func (d *nodeDebts) attach(st *State, v V) {
	for _, s := range d.open(st) {
		if d.owns(st, s, v) {
			d.drop(st, s)
		}
	}
}

// at tells whether p is the way to a field of the parser, or to what it is a field of.
func (m *parseRun) at(p []Step, field []int) bool {
	if len(p) > len(field) {
		return false
	}
	for i := range p {
		if p[i].Field != field[i] {
			return false
		}
	}
	return true
}

// isAST tells whether t is a struct of package ast.
func isAST(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != RepoPath+"/ast" {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

// onlyComments tells whether a node can only be a comment.
func (st *State) onlyComments(v V) bool {
	isC := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && strings.HasPrefix(n.Obj().Name(), "Comment")
	}
	f := st.f(v)
	if f.kind == KPtr {
		return isC(f.typ)
	}
	if f.opq || len(f.alts) == 0 {
		return false
	}
	for _, al := range f.alts {
		if !isC(al.T) {
			return false
		}
	}
	return true
}

func checkC11(w *World, r *Report) {
	m := w.parse(r, "")
	m.literals = true
	d := &nodeDebts{debts: debts{m: m}}
	a := m.a
	a.KeyFuncs, a.KeyErrs = true, true
	m.setup = m.tasks
	// tokens whose text matters
	var named []int64
	for _, n := range []string{"IDENT", "TEXT_LITERAL"} {
		if k, ok := w.constOfPkg("token", n); ok {
			named = append(named, k)
		}
	}
	type lost struct {
		pos      token.Pos
		fn, what string
	}
	viol := func(st *State, con, fn string, pos token.Pos, msg string) {
		if !m.final {
			return
		}
		r.ob(false)
		r.violationAt(st, Finding{Rule: "nothing parsed is dropped", Func: fn, Pos: a.pos(pos), Construct: con, Msg: msg})
	}
	// what is wrong only if the path ends without a diagnostic
	var wrongs []lost
	wrong := func(st *State, pos token.Pos, fn, what string) {
		x := lost{pos, fn, what}
		for i, y := range wrongs {
			if x == y {
				st.setGhost("#wrong", C(int64(i+1)))
				return
			}
		}
		wrongs = append(wrongs, x)
		st.setGhost("#wrong", C(int64(len(wrongs))))
	}
	inParser := func(in ssa.Instruction) bool {
		p := pkgTypes(in.Parent())
		return m.base != nil && p != nil && p.Path() == RepoPath+"/parser"
	}
	a.OnStoreV = func(st *State, t Target, val V, in ssa.Instruction) {
		if !inParser(in) {
			return
		}
		o := st.obj(t.Obj)
		if t.Obj == m.obj && m.at(t.Path, m.path["c.tok"]) {
			// the parser moves on
			if st.ghostConst("#read") == 0 {
				good := true
				for _, k := range named {
					good = good && !st.setOf(st.getPath(m.obj, m.path["c.tok"])).has(k)
				}
				if m.final {
					r.count("token moves", 1)
				}
				if !good {
					wrong(st, in.Pos(), short(in.Parent().String()), "a name or text literal is passed over")
				}
			}
			st.setGhost("#read", C(0))
			return
		}
		if !isAST(o.typ) {
			return
		}
		fn := short(in.Parent().String())
		var vs []V
		if f := st.f(val); f.kind == KStruct {
			vs = append(vs, f.elems...)
		} else {
			vs = append(vs, val)
			// lists grow
			old := st.loadTarget(t)
			if of := st.f(old); of.kind == KSlice && f.kind == KSlice {
				nl, ol := orC(f.ln), orC(of.ln)
				if f.nil3 == mayNil {
					nl = C(0)
				}
				if of.nil3 == mayNil {
					ol = C(0)
				}
				good := st.ub(ol, nl) <= 0
				if m.final {
					r.ob(good)
				}
				if !good {
					wrong(st, in.Pos(), fn, "a list of nodes shrinks")
				}
			} else if of.kind == KIface && of.nil3 == mayNon && !st.same(old, val) && len(t.Path) == 1 && !o.summary && !st.part(val, old) && !st.onlyComments(old) {
				wrong(st, in.Pos(), fn, "a node is overwritten")
			}
		}
		to := st.fresh(&Fact{kind: KPtr, typ: types.NewPointer(o.typ), nil3: mayNon, tg: []Target{{t.Obj, nil}}})
		for _, v := range vs {
			if v.undef() {
				continue
			}
			for _, s := range d.open(st) {
				if d.owns(st, s, v) {
					st.setGhost("?c:"+s, to)
				}
			}
		}
	}
	a.OnLoad = func(st *State, p V, in *ssa.UnOp) {
		if !inParser(in) {
			return
		}
		f := st.f(p)
		if len(f.tg) == 1 && f.tg[0].Obj == m.obj && m.at(f.tg[0].Path, m.path["c.lit"]) {
			st.setGhost("#read", C(1))
			return
		}
		if len(f.tg) != 1 || len(f.tg[0].Path) == 0 {
			return
		}
		b, ok := in.Type().Underlying().(*types.Basic)
		if !ok || types.Identical(in.Type(), m.tokenType()) || b.Info()&(types.IsNumeric|types.IsString) == 0 || !isAST(st.obj(f.tg[0].Obj).typ) {
			return
		}
		for _, s := range d.open(st) {
			for _, x := range st.inside(st.gv("?d:" + s)) {
				xf := st.f(x)
				if len(xf.tg) == 1 && xf.tg[0].Obj == f.tg[0].Obj {
					st.setGhost("?n:"+s, st.load(p))
					st.setGhost("#n:"+s, C(1))
				}
			}
		}
	}
	a.OnMakeIface = func(st *State, v V, from, to types.Type, in ssa.Instruction) {
		b, ok := from.Underlying().(*types.Basic)
		if !inParser(in) || !ok || b.Info()&types.IsNumeric == 0 || v.S == zeroSym {
			return
		}
		// a number that becomes part of a name
		for _, s := range d.open(st) {
			if n, ok := st.ghost("?n:" + s); ok && n == v {
				d.drop(st, s)
			}
		}
	}
	a.OnAppend = func(st *State, s, e, res V, in ssa.CallInstruction) {
		if !inParser(in) {
			return
		}
		vs, ok := st.variadic(e)
		for _, k := range d.open(st) {
			own := st.same(s, d.holder(st, k)) || s == d.holder(st, k)
			if ok {
				for _, v := range vs {
					own = own || d.owns(st, k, v)
				}
			} else {
				own = own || d.owns(st, k, e)
			}
			if own {
				st.setGhost("?c:"+k, res)
			}
		}
	}
	a.OnAssert = func(st *State, v, res V) {
		for _, k := range d.open(st) {
			if x, ok := st.ghost("?d:" + k); ok && st.same(x, v) {
				st.setGhost("?d:"+k, res)
			}
		}
	}
	a.OnConvert = func(st *State, v, res V) {
		if v.S == zeroSym {
			return
		}
		for _, k := range d.open(st) {
			for _, p := range []string{"?n:", "?d:"} {
				if x, ok := st.ghost(p + k); ok && x == v {
					st.setGhost(p+k, res)
				}
			}
		}
	}
	start := func(st *State) {
		for _, s := range d.open(st) {
			d.drop(st, s)
		}
		for _, g := range []string{"#wrong", "#unsure", "#err"} {
			st.setGhost(g, C(0))
		}
	}
	// there is a diagnostic (see C10)
	failed := func(st *State) {
		st.setGhost("#err", C(1))
		for _, s := range d.open(st) {
			d.drop(st, s)
		}
		st.setGhost("#wrong", C(0))
		st.setGhost("#read", C(1))
	}
	m.appended = func(st *State, in ssa.CallInstruction, s, e V, t types.Type) {
		if sl, ok := t.Underlying().(*types.Slice); ok && kindOf(sl.Elem()) == KIface && types.Identical(sl.Elem(), m.diagType()) {
			failed(st)
		}
	}
	m.fileEntry = func(st *State) { start(st); st.setGhost("#read", C(0)) }
	m.taskEntry = start
	m.entry = func(st *State, sf *sumFn, args []V) {
		start(st)
		st.setGhost("#read", C(0))
		if sf.left >= 0 && st.f(args[sf.left]).nil3&mayNon != 0 {
			d.owes(st, args[sf.left], sf.fn.Pos(), short(sf.fn.String()), "operand")
		}
	}
	m.recur = func(c *Call, st *State) {
		if st.ghostConst("#read") == 1 && st.ghostConst("#err") == 0 {
			wrong(st, c.Pos, short(c.Instr.Parent().String()), "a literal that was read is parsed again")
		} else if m.final {
			r.ob(true)
		}
	}
	m.result = func(c *Call, st *State, sf *sumFn, o *sumOut, n, e V) {
		if sf.left >= 0 {
			d.attach(st, c.Args[sf.left])
		}
		if strings.Contains(o.extra, "read") {
			st.setGhost("#read", C(1))
		} else {
			st.setGhost("#read", C(0))
		}
		fn, what := short(c.Instr.Parent().String()), "what "+short(c.Fn.String())+" returns"
		d.rotate(st, c.Pos, fn, what)
		if !o.ok || strings.Contains(o.extra, "diag") {
			failed(st)
		}
		if o.ok && st.f(n).nil3&mayNon != 0 && !st.onlyComments(n) {
			d.owes(st, n, c.Pos, fn, what)
			if m.final {
				r.count("nodes to attach", 1)
			}
		}
	}
	m.extra = func(st *State, sf *sumFn, o Outcome, n, e V, ok bool) string {
		if st.ghostConst("#err") != 0 {
			return "diag"
		}
		if st.ghostConst("#read") != 0 {
			return "read"
		}
		tok := st.setOf(st.getPath(m.obj, m.path["c.tok"]))
		for _, k := range named {
			if tok.has(k) {
				return ""
			}
		}
		return "read"
	}
	number := func(name string, f Model) Model {
		return func(c *Call) []Outcome {
			outs := f(c)
			if m.base == nil || c.Instr == nil || !inParser(c.Instr) {
				return outs
			}
			// is the number asked for?
			used := false
			if v, ok := c.Instr.(ssa.Value); ok && v.Referrers() != nil {
				for _, ref := range *v.Referrers() {
					if x, ok := ref.(*ssa.Extract); ok && x.Index == 0 && x.Referrers() != nil && len(*x.Referrers()) > 0 {
						used = true
					}
				}
			}
			if !used {
				return outs
			}
			var res []Outcome
			for _, o := range outs {
				e := o.St.elem(o.Ret, c.Sig.Results().Len()-1)
				if o.St.f(e).nil3 == 3 {
					s := o.St.clone()
					s.assumeNil(e, false)
					res = append(res, Outcome{St: s, Ret: o.Ret})
					o.St = o.St.clone()
					o.St.assumeNil(e, true)
				}
				if n := o.St.elem(o.Ret, 0); o.St.f(e).nil3 == mayNil && n.S != zeroSym {
					d.owes(o.St, n, c.Pos, short(c.Instr.Parent().String()), "the number of a literal")
				}
				res = append(res, o)
			}
			return res
		}
	}
	for _, n := range []string{"strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.Atoi"} {
		if f := a.Models[n]; f != nil {
			a.Models[n] = number(n, f)
		}
	}
	check := func(st *State, fn *ssa.Function, ret V) {
		if st.ghostConst("#err") != 0 {
			return
		}
		for _, s := range d.open(st) {
			x := d.at(st, s)
			v := st.gv("?d:" + s)
			f := st.f(v)
			if f.nil3 == mayNil && (f.kind == KIface || f.kind == KPtr) || (f.kind == KIface || f.kind == KPtr) && st.onlyComments(v) {
				continue
			}
			good := d.owns(st, s, ret)
			if m.final {
				r.ob(good)
			}
			if !good {
				if debugFlag && m.final {
					println("DBG drop", short(fn.String()), s, x.what, st.show(v), st.show(d.holder(st, s)), st.show(st.gv("?n:"+s)), "ret", st.show(ret))
				}
				viol(st, x.what+" is dropped", x.fn, x.pos, "it may not be part of what "+short(fn.String())+" returns without a diagnostic")
			}
		}
		if k := st.ghostConst("#wrong"); k != 0 {
			x := wrongs[k-1]
			viol(st, x.what, x.fn, x.pos, "on a path that "+short(fn.String())+" ends without a diagnostic")
		} else if m.final {
			r.ob(true)
		}
		if st.ghostConst("#unsure") != 0 && !d.unsure {
			d.unsure = true
			r.undecided("nodes that are made in a loop in " + short(fn.String()) + " are not followed")
		}
	}
	m.end = func(sf *sumFn, o Outcome) {
		if o.Panic {
			return
		}
		st := o.St
		if sf != nil {
			e := st.elem(o.Ret, sf.err)
			if st.f(e).nil3&mayNil == 0 {
				return
			}
			st = st.clone()
			st.assumeNil(e, true)
			check(st, sf.fn, st.elem(o.Ret, sf.node))
			return
		}
		rs := m.fileFn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			v := o.Ret
			if rs.Len() > 1 {
				v = st.elem(v, i)
			}
			if isNodeT(rs.At(i).Type(), m.node) {
				check(st, m.fileFn, v)
			}
		}
	}
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	m.solve()
}
