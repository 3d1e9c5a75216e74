package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C12 ----

func init() {
	register(&Check{ID: "C12", Rule: "Abstract interpretation of the parser over any token sequence and any environment, with the name that is read held on to: every path that accepts a name where a type begins registers a deferred check that looks this name up and fails exactly when it is missing (names that begin with $ and keys before a colon excepted); every path that accepts a rule defines its name; nothing fails because a name is not known yet; all deferred checks run, after the last rule.", Run: checkC12})
}

const (
	ghostRef   = "#ref"   // the name at the entry is not checked yet
	ghostAt    = "#at0"   // no token was consumed since
	ghostKnown = "#known" // 1: the name that was looked up exists, 2: it does not
	ghostEarly = "#early" // a name was found missing while rules were read
	ghostDef   = "#def"   // the rule's name is in the environment
	ghostHand  = "#k"     // the current token was handed to the recursive function
	ghostAfter = "#after" // deferred checks have run
)

func checkC12(w *World, r *Report) {
	m := w.parse(r, "")
	a := m.a
	m.setup = m.tasks
	vals := map[string]int64{}
	for k, n := range w.tokenNames() {
		vals[n] = k
	}
	ident, ok1 := vals["IDENT"]
	colon, ok2 := vals["COLON"]
	if !ok1 || !ok2 {
		r.undecided("no tokens IDENT and COLON")
		return
	}
	cur := func(st *State) IntSet { return st.setOf(st.getPath(m.obj, m.path["c.tok"])) }
	is := func(s IntSet, t int64) bool { k, ok := s.isConst(); return ok && k == t }
	lit := func(st *State) V { return st.getPath(m.obj, m.path["c.lit"]) }
	seen := map[string]bool{}
	viol := func(st *State, rule, construct, fn, pos, msg string) {
		k := rule + "|" + fn + "|" + construct
		if seen[k] {
			return
		}
		seen[k] = true
		f := Finding{Rule: rule, Func: fn, Pos: pos, Construct: construct, Msg: msg}
		if st == nil {
			r.violation(f)
		} else {
			r.violationAt(st, f)
		}
	}
	rules := map[*ssa.Function]bool{} // what ParseFile calls to parse a rule
	elsewhere := false
	// dollar tells whether a name begins with $ for certain, or perhaps.
	dollar := func(st *State, name V) (bool, bool) {
		s := st.setOf(st.strByte(name, C(0)))
		return is(s, '$'), s.has('$')
	}
	begin := func(st *State) {
		st.setGhost(ghostRef, C(1))
		st.setGhost(ghostAt, C(1))
		st.hold("name", lit(st))
		st.hold("nx", st.getPath(m.obj, m.path["p.tok"]))
	}
	m.entry = func(st *State, sf *sumFn, args []V) {
		st.setGhost(ghostHand, C(1))
		if m.path["tasks"] != nil {
			st.setGhost(ghostTasks, m.lenAt(st, "tasks"))
		}
		if !sf.knot && sf.left < 0 && is(cur(st), ident) {
			begin(st)
		}
	}
	m.fileEntry = func(st *State) {
		st.setGhost(ghostHand, C(1))
		st.setGhost(ghostRan, C(0))
		st.setGhost(ghostAfter, C(0))
	}
	isEnv := func(c *Call) bool {
		p := pkgTypes(c.Fn)
		if m.base == nil || c.Instr == nil || p == nil || p.Path() != RepoPath+"/environment" || c.Fn.Signature.Recv() == nil || pkgTypes(c.Instr.Parent()) == p {
			return false
		}
		ps := c.Fn.Signature.Params()
		b, ok := types.Type(nil), ps.Len() > 0
		if ok {
			b = ps.At(0).Type().Underlying()
		}
		return ok && types.Identical(b, types.Typ[types.String])
	}
	// known tells whether a name may be there and may be missing.
	known := func(st *State, name V) (bool, bool) {
		if v, ok := st.ghost("?asked"); ok && v == name {
			switch st.ghostConst(ghostKnown) {
			case 1:
				return true, false
			case 2:
				return false, true
			}
		}
		return true, true
	}
	// lookup splits into the cases that a name is there and that it is not
	lookup := func(st *State, name V) (*State, *State) {
		switch y, n := known(st, name); {
		case !n:
			return st, nil
		case !y:
			return nil, st
		}
		yes, no := st.clone(), st
		for _, s := range []*State{yes, no} {
			s.hold("asked", name)
			own := false
			if v, ok := s.ghost("?name"); ok && v == name {
				own = true
			}
			rule := false
			if v, ok := s.ghost("?rname"); ok && v == name {
				rule = true
			}
			if s == yes {
				s.setGhost(ghostKnown, C(1))
				if own {
					s.setGhost(ghostRef, C(0))
				}
				if rule {
					s.setGhost(ghostDef, C(1))
				}
			} else {
				s.setGhost(ghostKnown, C(2))
				if own || rule {
					s.setGhost(ghostEarly, C(1))
				}
			}
		}
		return yes, no
	}
	m.call = func(c *Call) ([]Outcome, bool) {
		if m.base == nil {
			return nil, false
		}
		st := c.St
		if isEnv(c) {
			rs := c.Fn.Signature.Results()
			recv := st.f(c.Args[0])
			env := st.f(st.getPath(m.obj, m.path["env"]))
			if !(len(recv.tg) > 0 && fmt.Sprint(recv.tg) == fmt.Sprint(env.tg)) && c.Args[0] != st.getPath(m.obj, m.path["env"]) {
				return nil, false // another environment
			}
			if rs.Len() != 1 {
				return nil, false
			}
			t := rs.At(0).Type()
			name := c.Args[1]
			switch {
			case c.Fn.Signature.Params().Len() == 1 && types.Identical(t.Underlying(), types.Typ[types.Bool]):
				var out []Outcome
				yes, no := lookup(st, name)
				if yes != nil {
					out = append(out, Outcome{St: yes, Ret: C(1)})
				}
				if no != nil {
					out = append(out, Outcome{St: no, Ret: C(0)})
				}
				return out, true
			case c.Fn.Signature.Params().Len() == 1 && isNodeT(t, m.node):
				var out []Outcome
				yes, no := lookup(st, name)
				if yes != nil {
					out = append(out, Outcome{St: yes, Ret: yes.NonNil(yes.havocV(t))})
				}
				if no != nil {
					out = append(out, Outcome{St: no, Ret: a.nilV(t)})
				}
				return out, true
			case c.Fn.Signature.Params().Len() == 2 && types.Identical(t, types.Universe.Lookup("error").Type()):
				if n := len(m.cur); n > 0 {
					in := false
					for f := range rules {
						in = in || strings.HasPrefix(m.cur[n-1], f.String()+"|")
					}
					elsewhere = elsewhere || !in
				}
				yes, no := known(st, name)
				var out []Outcome
				add := func(s *State, ret V) {
					s.hold("asked", name)
					s.setGhost(ghostKnown, C(1))
					if v, ok := s.ghost("?rname"); ok && v == name {
						s.setGhost(ghostDef, C(1))
					}
					out = append(out, Outcome{St: s, Ret: ret})
				}
				if no {
					add(st.clone(), a.nilV(t))
				}
				if yes {
					s := st.clone()
					add(s, s.fresh(&Fact{kind: KIface, typ: t, nil3: mayNon, opq: true, tag: "error"}))
				}
				return out, true
			}
			return nil, false
		}
		sf := m.summarised(c.Fn)
		if sf == nil || c.Instr == nil {
			return nil, false
		}
		if len(m.cur) == 0 && !sf.knot && sf.left < 0 && c.Instr.Parent() != m.knot {
			if _, ok := st.ghost(ghostAfter); ok {
				rules[c.Fn] = true
			}
		}
		if g, ok := st.ghost(ghostAfter); ok && m.final {
			if !r.ob(g == C(0)) {
				viol(st, "checks come last", "call of "+short(c.Fn.String()), short(c.Instr.Parent().String()), a.pos(c.Pos), "a rule may be read after deferred checks have run: they do not know its name")
			}
		}
		// names on their own
		if s := cur(st); !sf.knot && sf.left < 0 && s.has(ident) && s.count() > 1 {
			var outs []Outcome
			for _, part := range []IntSet{setConst(ident), s.without(ident)} {
				cc := *c
				cc.St = st.clone()
				if !cc.St.meetSet(cc.St.getPath(m.obj, m.path["c.tok"]), part) {
					continue
				}
				os, ok := m.apply(&cc)
				if !ok {
					return nil, false
				}
				outs = append(outs, os...)
			}
			return outs, true
		}
		return nil, false
	}
	m.extra = func(st *State, sf *sumFn, o Outcome, n, e V, ok bool) string {
		ref, has := st.ghost(ghostRef)
		name, has2 := st.ghost("?name")
		if sf.knot || !has || !has2 || sf.left >= 0 {
			return ""
		}
		if ref == C(0) {
			return "checked"
		}
		nx, _ := st.ghost("?nx")
		switch sure, _ := dollar(st, name); {
		case sure:
			return "socket"
		case is(st.setOf(nx), colon):
			return "key"
		}
		return "unchecked"
	}
	m.recur = func(c *Call, st *State) { st.setGhost(ghostHand, C(1)) }
	m.result = func(c *Call, st *State, sf *sumFn, o *sumOut, n, e V) {
		st.setGhost(ghostHand, C(1))
		if !o.ok {
			st.setGhost(ghostEarly, C(0))
		}
		if sf.knot || sf.left >= 0 || st.ghostConst(ghostAt) != 1 {
			return
		}
		st.setGhost(ghostAt, C(0))
		switch o.extra {
		case "checked":
			st.setGhost(ghostRef, C(0))
		case "socket":
			if name, ok := st.ghost("?name"); ok && !st.meetSet(st.strByte(name, C(0)), setConst('$')) {
				st.dead = true
			}
		case "key":
			if nx, ok := st.ghost("?nx"); ok {
				if !st.meetSet(nx, setConst(colon)) {
					st.dead = true
				} else {
					st.setGhost(ghostRef, C(0))
				}
			}
		}
	}
	bare := func(st *State, fn *ssa.Function, pos string) {
		if k, ok := st.ghost(ghostHand); !ok || k != C(0) || !is(cur(st), ident) || !m.final {
			return
		}
		nx := st.setOf(st.getPath(m.obj, m.path["p.tok"]))
		if !r.ob(is(nx, colon)) {
			viol(st, "names are checked", "name read", short(fn.String()), pos, "a name is read here and no deferred check looks it up")
		}
	}
	m.scanned = func(st *State, c *Call) {
		if m.base == nil {
			return
		}
		if c.Instr != nil {
			bare(st, c.Instr.Parent(), a.pos(c.Pos))
		}
		st.setGhost(ghostAt, C(0))
		st.setGhost(ghostHand, C(0))
	}
	m.task = func(c *Call, fv V) []Outcome {
		t := c.Sig.Results().At(0).Type()
		if rv, ok := c.St.ghost(ghostRan); ok {
			c.St.setGhost(ghostRan, rv.plus(1))
			c.St.setGhost(ghostAfter, C(1))
		}
		s := c.St.clone()
		return []Outcome{{St: c.St, Ret: a.nilV(t)}, {St: s, Ret: s.fresh(&Fact{kind: KIface, typ: t, nil3: mayNon, opq: true, tag: "diagnostic"})}}
	}
	m.taskEntry = func(st *State) {
		st.setGhost(ghostKnown, C(0))
		st.setGhost(ghostEarly, C(0))
	}
	m.onTask = func(st *State, in ssa.CallInstruction, outs []Outcome, fn *ssa.Function) {
		name, ok := st.ghost("?name")
		own := ok
		if !own || st.ghostConst(ghostRef) != 1 {
			name, own = lit(st), false
		}
		asks := false
		for _, o := range outs {
			if v, ok := o.St.ghost("?asked"); ok && v == name && !o.Panic {
				asks = true
			}
		}
		if !asks {
			return
		}
		if own {
			st.setGhost(ghostRef, C(0))
		}
		if lit(st) == name {
			st.setGhost(ghostHand, C(1))
		}
		if !m.final {
			return
		}
		r.count("deferred checks of names", 1)
		pos := a.pos(in.Pos())
		for _, o := range outs {
			if o.Panic {
				continue
			}
			n3 := o.St.f(o.Ret).nil3
			sure, may := dollar(o.St, name)
			yes, no := known(o.St, name)
			if yes {
				if !r.ob(n3&mayNon == 0) {
					viol(o.St, "defined names", "deferred check", short(fn.String()), pos, "a name that is defined may be reported as missing")
				}
			}
			if no {
				if !r.ob(n3&mayNil == 0 || sure) {
					viol(o.St, "undefined names", "deferred check", short(fn.String()), pos, "a name that is not defined may go unreported")
				}
				if !r.ob(n3&mayNon == 0 || !may) {
					viol(o.St, "sockets and plugs", "deferred check", short(fn.String()), pos, "a name that begins with $ may be reported as missing")
				}
			}
		}
	}
	m.end = func(sf *sumFn, o Outcome) {
		if o.Panic {
			return
		}
		st := o.St
		if sf == nil {
			if m.path["tasks"] != nil {
				ran, n := st.mustGhost(ghostRan), m.lenAt(st, "tasks")
				if !r.ob(st.ub(n, ran) <= 0) {
					viol(st, "checks are run", "deferred checks", short(m.fileFn.String()), a.pos(m.fileFn.Pos()), fmt.Sprintf("ParseFile may run %s of %s deferred checks", st.show(ran), st.show(n)))
				}
			}
			return
		}
		e := st.f(st.elem(o.Ret, sf.err)).nil3
		if st.ghostConst(ghostEarly) == 1 && e&mayNon != 0 && e&mayNil == 0 {
			r.ob(false)
			viol(st, "names are looked up last", "early look-up", short(sf.fn.String()), a.pos(sf.fn.Pos()), "a name is refused because no rule before it defines it")
		}
		if e&mayNil != 0 && !sf.knot {
			bare(st, sf.fn, a.pos(sf.fn.Pos()))
		}
		if want, ok := st.ghost(ghostTasks); ok && m.path["tasks"] != nil {
			if !r.ob(st.ub(want, m.lenAt(st, "tasks")) <= 0) {
				viol(st, "checks are kept", "list of deferred checks", short(sf.fn.String()), a.pos(sf.fn.Pos()), "what was added to the list of deferred checks may not be in it afterwards")
			}
		}
	}
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	if m.path["tasks"] == nil {
		r.undecided("the parser has no list of deferred checks")
		return
	}
	start := func(pl int64) *State {
		st := m.general(clOther, pl)
		if !st.meetSet(st.getPath(m.obj, m.path["c.tok"]), setConst(ident)) {
			return nil
		}
		st.hold("rem0", st.mustGhost("rem"))
		st.setGhost(ghostHand, C(1))
		return st
	}
	m.probe = func() {
		if !m.final {
			return
		}
		end := m.end
		m.end = nil
		defer func() { m.end = end }()
		sf := m.summarised(m.knot)
		for _, pl := range m.classes() {
			// a name where a type begins
			if st := start(pl); st != nil {
				p := st.getPath(m.obj, m.path["p.tok"])
				if st.meetSet(p, st.setOf(p).without(colon)) {
					begin(st)
					args := make([]V, len(m.knot.Params))
					for i, q := range m.knot.Params {
						args[i] = st.held("parser")
						if i > 0 {
							args[i] = st.havocV(q.Type())
						}
					}
					m.cur = append(m.cur, "probe")
					for _, o := range a.Run(st, m.knot, args) {
						if o.Panic || o.St.f(o.St.elem(o.Ret, sf.err)).nil3&mayNil == 0 {
							continue
						}
						sure := false
						if name, ok := o.St.ghost("?name"); ok {
							sure, _ = dollar(o.St, name)
						}
						r.count("ways to accept a name", 1)
						if !r.ob(sure || o.St.ghostConst(ghostRef) == 0) {
							viol(o.St, "names are checked", "name where a type begins", short(m.knot.String()), a.pos(m.knot.Pos()), "a name may be accepted without a deferred check that looks it up")
						}
					}
					m.cur = m.cur[:len(m.cur)-1]
				}
			}
			// a rule
			var fs []*ssa.Function
			for f := range rules {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
			for _, f := range fs {
				st := start(pl)
				if st == nil || len(f.Params) != 1 {
					continue
				}
				sf := m.summarised(f)
				st.hold("rname", lit(st))
				st.setGhost(ghostDef, C(0))
				m.cur = append(m.cur, f.String()+"|probe")
				for _, o := range a.Run(st, f, []V{st.held("parser")}) {
					if o.Panic {
						continue
					}
					e := o.St.f(o.St.elem(o.Ret, sf.err)).nil3
					n := o.St.f(o.St.elem(o.Ret, sf.node)).nil3
					if e&mayNil != 0 && n&mayNon != 0 {
						r.count("ways to accept a rule", 1)
						good := o.St.ghostConst(ghostDef) == 1
						if !good && elsewhere {
							r.undecided("where " + short(f.String()) + " defines its name")
							continue
						}
						if !r.ob(good) {
							viol(o.St, "rules define names", "rule", short(f.String()), a.pos(f.Pos()), "a rule may be accepted without its name being defined")
						}
					}
					if e&mayNil == 0 && o.St.ghostConst(ghostEarly) == 1 {
						r.ob(false)
						viol(o.St, "rules define names", "rule of a new name", short(f.String()), a.pos(f.Pos()), "a rule may be refused because its name is not defined yet")
					}
				}
				m.cur = m.cur[:len(m.cur)-1]
			}
		}
	}
	if !m.solve() {
		return
	}
	if len(rules) == 0 {
		r.undecided("which function of the parser parses a rule")
	}
}
