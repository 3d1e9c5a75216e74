package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Classes of tokens. The two tokens the parser looks at partition the states.
const (
	clEOF = iota
	clBad
	clText
	clOther
	clNone
)

const maxTokens = 1 << 30

// parseRun interprets the parser for every source: the lexer is a model that delivers any
// finite sequence of tokens, and the function all recursion goes through is a summary that
// is computed by iteration from below.
type parseRun struct {
	w    *World
	r    *Report
	a    *Analyzer
	T    *types.Named
	node *types.Interface

	newFn, fileFn, knot  *ssa.Function
	base                 *State
	obj                  int // the parser
	path                 map[string][]int
	mutable              map[int]bool
	starts               []*State
	toks                 map[int64]string
	eof, illegal         int64
	sum                  map[string]map[string]*sumOut
	fns                  map[*ssa.Function]*sumFn
	hot                  map[*ssa.Function]bool
	want                 map[string]*sumJob
	done, lazy           map[string]bool
	cur                  []string // summaries being computed
	changed, news, final bool
	mode                 string // classes that are told apart: "bad", "text"
	realPos              bool   // Start and End are interpreted
	literals             bool   // which of the two tokens is a literal is told apart
	err                  error
	fails                []string

	// hooks
	setup     func()
	recur     func(c *Call, st *State)                                      // a call of the knot
	result    func(c *Call, st *State, sf *sumFn, o *sumOut, n, e V)        // what a summarised call returned
	extra     func(st *State, sf *sumFn, o Outcome, n, e V, ok bool) string // adds to what is known of an outcome
	entry     func(st *State, sf *sumFn, args []V)                          // before a summary is computed
	fileEntry func(st *State)                                               // before ParseFile is
	end       func(sf *sumFn, o Outcome)                                    // an outcome in the last run; sf is nil for ParseFile
	jobCtx    func(sf *sumFn, c *Call) IntSet
	probe     func() // more runs at the end of each round
	argKey    func(sf *sumFn, c *Call) string
	keepArg   func(sf *sumFn, c *Call, i int) bool
	taskEntry func(st *State)                                               // before a deferred check is run
	appended  func(st *State, in ssa.CallInstruction, s, e V, t types.Type) // any append
	task      func(c *Call, fv V) []Outcome
	onTask    func(st *State, in ssa.CallInstruction, outs []Outcome, fn *ssa.Function)
	scanned   func(st *State, c *Call)
	call      func(c *Call) ([]Outcome, bool)
}

func (m *parseRun) giveUp(msg string) { m.a.fail(msg) }

// parserFuncs lists the functions of the parser package, wrappers included.
func (w *World) parserFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.repoFuncs() {
		p := pkgTypes(fn)
		if p != nil && p.Path() == RepoPath+"/parser" && fn.Blocks != nil {
			out = append(out, fn)
		}
	}
	return out
}

// parseGraph is the call graph of the parser package.
func (w *World) parseGraph() map[*ssa.Function][]*ssa.Function {
	fns := w.parserFuncs()
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	taken := map[*ssa.Function]bool{}
	var work []*ssa.Function
	work = append(work, fns...)
	seen := map[*ssa.Function]bool{}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if p := pkgTypes(f); f.Blocks != nil && (in[f] || p != nil && p.Path() == RepoPath+"/parser" || strings.Contains(f.Synthetic, "bound")) {
						work = append(work, f)
						in[f] = true
						if *op != callee {
							taken[f] = true
						} else if _, ok := ins.(*ssa.MakeClosure); ok {
							taken[f] = true
						}
					}
				}
			}
		}
	}
	g := map[*ssa.Function][]*ssa.Function{}
	for fn := range seen {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok || c.Common().IsInvoke() {
					continue
				}
				if s := c.Common().StaticCallee(); s != nil {
					if in[s] {
						g[fn] = append(g[fn], s)
					}
					continue
				}
				if _, ok := c.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				k := sigKey(c.Common().Signature())
				for t := range taken {
					if sigKey(freeSig(t)) == k {
						g[fn] = append(g[fn], t)
					}
				}
			}
		}
	}
	return g
}

// freeSig is the signature of a function value.
func freeSig(fn *ssa.Function) *types.Signature {
	s := fn.Signature
	if s.Recv() == nil {
		return s
	}
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// findKnot finds the function all recursion of the parser goes through.
func (w *World) findKnot(g map[*ssa.Function][]*ssa.Function, root *ssa.Function) *ssa.Function {
	acyclic := func(skip *ssa.Function) bool {
		state := map[*ssa.Function]int{}
		var dfs func(f *ssa.Function) bool
		dfs = func(f *ssa.Function) bool {
			if f == skip {
				return true
			}
			switch state[f] {
			case 1:
				return false
			case 2:
				return true
			}
			state[f] = 1
			for _, c := range g[f] {
				if !dfs(c) {
					return false
				}
			}
			state[f] = 2
			return true
		}
		ok := dfs(root)
		if ok && skip != nil {
			for _, c := range g[skip] {
				ok = ok && dfs(c)
			}
		}
		return ok
	}
	callers := map[*ssa.Function]int{}
	for _, cs := range g {
		for _, c := range cs {
			callers[c]++
		}
	}
	var best *ssa.Function
	var fns []*ssa.Function
	for f := range g {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, k int) bool { return fns[i].String() < fns[k].String() })
	for _, f := range fns {
		if strings.Contains(f.Synthetic, "bound") || f == root || callers[f] == 0 {
			continue
		}
		if acyclic(f) && (best == nil || callers[f] > callers[best]) {
			best = f
		}
	}
	return best
}

// setPath stores v in a field of object id.
func (st *State) setPath(id int, path []int, v V) {
	var rec func(root V, p []int) V
	rec = func(root V, p []int) V {
		if len(p) == 0 {
			return v
		}
		return st.withElem(root, p[0], rec(st.elem(root, p[0]), p[1:]))
	}
	st.setRoot(id, rec(st.obj(id).root, path))
}

func (st *State) getPath(id int, path []int) V {
	v := st.obj(id).root
	for _, i := range path {
		v = st.elem(v, i)
		// the parts of a structure are created on demand: keep them
	}
	return v
}

func (w *World) parse(r *Report, mode string) *parseRun {
	m := &parseRun{w: w, r: r, mode: mode, path: map[string][]int{}, mutable: map[int]bool{}, sum: map[string]map[string]*sumOut{}, fns: map[*ssa.Function]*sumFn{}, want: map[string]*sumJob{}, done: map[string]bool{}, lazy: map[string]bool{}}
	m.a = w.newAnalyzer()
	a := m.a
	a.MaxSplit = 400
	a.MaxSteps = 200000000
	a.KeyErrs = true
	m.node = w.nodeIface("ast", "Node")
	a.HavocElem = func(st *State, t types.Type) V {
		switch k := kindOf(t); {
		case k == KFunc || k == KIface && types.IsInterface(t) && t.Underlying().(*types.Interface).NumMethods() > 0, isNodeT(t, m.node):
			return st.fresh(&Fact{kind: k, typ: t, nil3: mayNon, opq: true})
		}
		return V{}
	}
	a.Measures = func(st *State, fn *ssa.Function) []Snap {
		v, ok := st.ghost("rem")
		if !ok {
			return nil
		}
		return []Snap{{"rem", v}}
	}
	return m
}

// try runs f; what it gives up on is undecided.
func (m *parseRun) prepare() bool {
	m.err = m.a.Try(m.prepare1)
	return m.err == nil
}

func (m *parseRun) prepare1() {
	w, a := m.w, m.a
	p := w.Pkg("parser")
	lp := w.Pkg("lexer")
	if p == nil || lp == nil || m.node == nil {
		a.fail("no packages parser, lexer and ast")
	}
	m.newFn = p.Func("NewParser")
	tn, _ := p.Pkg.Scope().Lookup("Parser").(*types.TypeName)
	if m.newFn == nil || tn == nil {
		a.fail("no parser.NewParser")
	}
	m.T, _ = tn.Type().(*types.Named)
	if m.T == nil {
		a.fail("Parser is not a named type")
	}
	m.fileFn = w.Prog.LookupMethod(types.NewPointer(m.T), p.Pkg, "ParseFile")
	if m.fileFn == nil {
		a.fail("no ParseFile")
	}
	ltn, _ := lp.Pkg.Scope().Lookup("Lexer").(*types.TypeName)
	if ltn == nil {
		a.fail("no Lexer")
	}
	lpt := types.NewPointer(ltn.Type())
	scan := w.Prog.LookupMethod(lpt, lp.Pkg, "Scan")
	if scan == nil || scan.Signature.Results().Len() != 3 {
		a.fail("no Lexer.Scan with three results")
	}
	m.toks = map[int64]string{}
	for k, n := range w.tokenNames() {
		if strings.Contains(n, "_begin") || strings.Contains(n, "_end") || n == "LiteralBegin" || n == "LiteralEnd" {
			continue
		}
		m.toks[k] = n
	}
	var ok1, ok2 bool
	m.eof, ok1 = w.constOfPkg("token", "EOF")
	m.illegal, ok2 = w.constOfPkg("token", "ILLEGAL")
	if !ok1 || !ok2 {
		a.fail("no tokens EOF and ILLEGAL")
	}
	a.Models[modelName(scan)] = m.scan
	if m.literals {
		m.literalTests()
	}
	for i := 0; i < lpt.Elem().(*types.Named).NumMethods(); i++ {
		// any other method of the lexer is interpreted on an unknown lexer
		_ = i
	}
	if f := w.Prog.LookupMethod(m.tokenType(), w.Pkg("token").Pkg, "String"); f != nil {
		a.Models[modelName(f)] = func(c *Call) []Outcome { return c.one(c.St.freshStr(1)) }
	}
	g := w.parseGraph()
	m.knot = w.findKnot(g, m.fileFn)
	if m.knot == nil {
		a.fail("the recursion of the parser does not go through one function")
	}
	m.findHot(g)
	if m.shape(m.knot) == nil {
		a.fail(short(m.knot.String()) + " does not return a node and an error")
	}
	a.Intercept = func(c *Call) ([]Outcome, bool) {
		if o, ok := m.position(c); ok {
			return o, true
		}
		if m.call != nil {
			if o, ok := m.call(c); ok {
				return o, true
			}
		}
		return m.apply(c)
	}
	if m.setup != nil {
		m.setup()
	}

	// the parser as NewParser makes it
	st := w.initState(a, "token", "ast", "lexer", "environment", "parser")
	args := make([]V, len(m.newFn.Params))
	for i, q := range m.newFn.Params {
		if types.Identical(q.Type(), lpt) {
			args[i] = st.NonNil(st.havocV(q.Type()))
		} else {
			args[i] = st.zeroV(q.Type())
		}
	}
	m.window(st, clNone, clNone)
	st.setGhost("rem", st.freshInt(intType, setRange(2, maxTokens)))
	outs := a.Run(st, m.newFn, args)
	for _, o := range outs {
		if o.Panic {
			m.r.panics(a, []Outcome{o}, "no panic")
			continue
		}
		f := o.St.f(o.Ret)
		if f.kind != KPtr || len(f.tg) != 1 || f.opq || len(f.tg[0].Path) > 0 {
			a.fail("NewParser does not return one new parser")
		}
		o.St.hold("parser", o.Ret)
		m.starts = append(m.starts, o.St)
	}
	if len(m.starts) == 0 {
		a.fail("NewParser does not return")
	}
	m.base = m.starts[0]
	m.obj = m.base.f(m.base.held("parser")).tg[0].Obj
	for _, s := range m.starts {
		if o := s.f(s.held("parser")).tg[0].Obj; o != m.obj {
			a.fail("NewParser makes parsers in several ways")
		}
	}
	m.locate()
	m.findMutable(g)
}

// position: Start and End of a node that is there return some position (that they never
// panic, whatever the node holds, is C15).
func (m *parseRun) position(c *Call) ([]Outcome, bool) {
	if n := c.Fn.Name(); m.realPos || n != "Start" && n != "End" || c.Fn.Signature.Recv() == nil || len(c.Args) != 1 {
		return nil, false
	}
	if !types.Implements(c.Fn.Signature.Recv().Type(), m.node) {
		return nil, false
	}
	f := c.St.f(c.Args[0])
	if f.kind != KPtr || f.nil3 == mayNil {
		return nil, false
	}
	t := c.Sig.Results().At(0).Type()
	if f.nil3 == mayNon {
		return c.one(c.St.havocV(t)), true
	}
	s := c.St.clone()
	s.assumeNil(c.Args[0], false)
	n := c.St.clone()
	n.assumeNil(c.Args[0], true)
	out := []Outcome{{St: s, Ret: s.havocV(t)}}
	if c.Fn.Blocks != nil {
		out = append(out, m.a.invokeBody(n, c.Fn, c.Args, nil, c.Instr)...)
	}
	return out, true
}

func (m *parseRun) tokenType() types.Type {
	return m.w.Pkg("token").Pkg.Scope().Lookup("Token").Type()
}

func hasMethodNamed(it *types.Interface, n string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == n {
			return true
		}
	}
	return false
}

// locate finds where the parser keeps the tokens it looks at: each is a result of Scan.
func (m *parseRun) locate() {
	st := m.base
	var walk func(v V, t types.Type, path []int)
	walk = func(v V, t types.Type, path []int) {
		if v.undef() || len(path) > 3 {
			return
		}
		if f := st.fact(v.S); f != nil && strings.HasPrefix(f.tag, "scan ") {
			m.path[f.tag[5:]] = append([]int(nil), path...)
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok || kindOf(t) != KStruct || v.S == zeroSym {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			if f := st.f(v); f.kind == KStruct && i < len(f.elems) && !f.elems[i].undef() {
				ft := s.Field(i).Type()
				switch {
				case len(path) == 0 && types.Identical(ft.Underlying(), types.NewSlice(m.diagType())):
					m.path["errors"] = []int{i}
				case len(path) == 0 && m.isTasks(ft):
					m.path["tasks"] = []int{i}
				case len(path) == 0 && strings.HasSuffix(ft.String(), "environment.Environment"):
					m.path["env"] = []int{i}
				case len(path) == 0 && strings.HasSuffix(ft.String(), "lexer.Lexer"):
					m.path["lexer"] = []int{i}
				}
				walk(f.elems[i], ft, append(append([]int(nil), path...), i))
			}
		}
	}
	walk(st.obj(m.obj).root, m.T, nil)
	for i := 0; i < m.T.Underlying().(*types.Struct).NumFields(); i++ {
		ft := m.T.Underlying().(*types.Struct).Field(i).Type()
		if types.Identical(ft.Underlying(), types.NewSlice(m.diagType())) {
			m.path["errors"] = []int{i}
		} else if m.isTasks(ft) {
			m.path["tasks"] = []int{i}
		}
	}
	for _, k := range []string{"c.tok", "c.pos", "c.lit", "p.tok", "p.pos", "p.lit", "errors", "env", "lexer"} {
		if m.path[k] == nil {
			m.giveUp("where the parser keeps " + k + " is not known")
		}
	}
}

func (m *parseRun) diagType() types.Type {
	o := m.w.Pkg("errors").Pkg.Scope().Lookup("Diagnostic")
	if o == nil {
		m.giveUp("no errors.Diagnostic")
	}
	return o.Type()
}

func (m *parseRun) isTasks(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	sg, ok := sl.Elem().Underlying().(*types.Signature)
	return ok && sg.Params().Len() == 0 && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), m.diagType())
}

// findMutable finds the fields of the parser that change while it parses.
func (m *parseRun) findMutable(g map[*ssa.Function][]*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, c := range g[f] {
			walk(c)
		}
		for _, an := range f.AnonFuncs {
			walk(an)
		}
	}
	walk(m.fileFn)
	// the closures NewParser installs run while parsing
	for _, an := range m.newFn.AnonFuncs {
		if !onlyCalled(an) {
			walk(an)
		}
	}
	s := m.T.Underlying().(*types.Struct)
	for f := range seen {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.FieldAddr:
					if pt, ok := t.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), m.T) {
						if written(t, 0) {
							m.mutable[t.Field] = true
						}
					}
				case *ssa.MapUpdate:
					if u, ok := t.Map.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), m.T) && m.path["env"][0] != fa.Field {
								if k := kindOf(mapElem(t.Map.Type())); k == KFunc {
									m.giveUp("the table " + s.Field(fa.Field).Name() + " changes while parsing")
								}
							}
						}
					}
				}
			}
		}
	}
	for _, k := range []string{"c.tok", "c.pos", "c.lit", "p.tok", "p.pos", "p.lit", "errors"} {
		m.mutable[m.path[k][0]] = true
	}
	if t := m.path["tasks"]; t != nil {
		m.mutable[t[0]] = true
	}
	for i := range m.mutable {
		if t := s.Field(i).Type(); kindOf(t) == KFunc {
			m.giveUp("the function " + s.Field(i).Name() + " of the parser changes while parsing")
		}
	}
}

// onlyCalled tells whether the function that makes a closure does nothing but call it.
func onlyCalled(an *ssa.Function) bool {
	made := false
	for _, b := range an.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == an {
				made = true
				for _, ref := range *mc.Referrers() {
					switch t := ref.(type) {
					case *ssa.Call:
						if t.Call.Value != mc {
							return false
						}
						for _, a := range t.Call.Args {
							if a == mc {
								return false
							}
						}
					case *ssa.DebugRef:
					default:
						return false
					}
				}
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == an {
					c, ok := in.(*ssa.Call)
					if !ok || c.Call.Value != an {
						return false
					}
					made = true
				}
			}
		}
	}
	return made
}

// written tells whether a field is assigned to through an address.
func written(v ssa.Value, d int) bool {
	if v.Referrers() == nil || d > 4 {
		return true
	}
	for _, in := range *v.Referrers() {
		switch t := in.(type) {
		case *ssa.Store:
			if t.Addr == v {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if written(t, d+1) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// ---- the tokens ----

func (m *parseRun) window(st *State, c, p int64) {
	st.setGhost("#c", C(c))
	st.setGhost("#p", C(p))
}

func win(st *State) string {
	c, _ := st.ghost("#c")
	p, _ := st.ghost("#p")
	return fmt.Sprintf("%d,%d", c.K, p.K)
}

func (m *parseRun) classes() []int64 {
	out := []int64{clEOF}
	if strings.Contains(m.mode, "bad") {
		out = append(out, clBad)
	}
	if strings.Contains(m.mode, "text") {
		out = append(out, clText)
	}
	return append(out, clOther)
}

func (m *parseRun) textToks() map[string]bool {
	return map[string]bool{"TEXT_LITERAL": true, "COMMENT": true}
}

// tokV is a token of a class.
func (m *parseRun) tokV(st *State, cl int64) V {
	if cl == clEOF {
		return C(m.eof)
	}
	bad, text := strings.Contains(m.mode, "bad"), strings.Contains(m.mode, "text")
	if cl == clBad {
		return C(m.illegal)
	}
	var set IntSet
	for k, n := range m.toks {
		switch {
		case k == m.eof, bad && k == m.illegal, n == "UNEXPECTED" || n == "EOL":
			continue
		case text && m.textToks()[n] != (cl == clText):
			continue
		}
		set = set.union(setConst(k))
	}
	return st.freshInt(m.tokenType(), set)
}

func (m *parseRun) litV(st *State, cl int64) V {
	if cl == clOther && strings.Contains(m.mode, "text") || cl == clBad {
		return st.freshStr(1)
	}
	return st.freshStr(0)
}

// remRange are the values of "tokens left" that fit what the parser looks at.
func remRange(c, p int64) IntSet {
	switch {
	case p == clEOF && c == clEOF:
		return setConst(0)
	case p == clEOF:
		return setConst(1)
	}
	return setRange(2, maxTokens)
}

// scan is the model of the lexer.
func (m *parseRun) scan(c *Call) []Outcome {
	st := c.St
	gc, ok := st.ghost("#p")
	if !ok {
		m.giveUp("Scan is called outside the parser")
	}
	if m.scanned != nil {
		m.scanned(st, c)
	}
	m.forgetLexer(st)
	old := gc.K
	cls := m.classes()
	if old == clEOF {
		cls = []int64{clEOF}
	}
	rem, _ := st.ghost("rem")
	var outs []Outcome
	for _, cl := range cls {
		s := st.clone()
		// tokens left after this call
		switch {
		case old == clEOF:
			s.setGhost("rem", C(0))
		case cl == clEOF:
			if !s.assumeEq(rem, C(2)) {
				continue
			}
			s.setGhost("rem", C(1))
		default:
			if !s.addLE(C(3), rem, 0) {
				continue
			}
			s.setGhost("rem", rem.plus(-1))
		}
		m.window(s, old, cl)
		if m.literals {
			s.setGhost("#lc", orC(s.gv("#lp")))
			s.setGhost("#lp", C(0))
		}
		which := "p"
		if m.base == nil {
			n := s.ghostConst("scans")
			s.setGhost("scans", C(n+1))
			if n == 0 {
				which = "c"
			} else if n > 1 {
				which = "x"
			}
		}
		t, l := m.tokV(s, cl), m.litV(s, cl)
		tt := c.Sig.Results()
		pos := s.havocV(tt.At(1).Type())
		if m.base == nil {
			// tagged values tell where the parser keeps them
			if t.S == zeroSym {
				t = s.fresh(&Fact{kind: KInt, typ: tt.At(0).Type(), set: setConst(t.K)})
			}
			for i, v := range []V{t, pos, l} {
				nf := s.f(v).clone()
				nf.tag = "scan " + which + []string{".tok", ".pos", ".lit"}[i]
				s.setFact(v.S, nf)
			}
		}
		cc := *c
		cc.St = s
		outs = append(outs, Outcome{St: s, Ret: cc.tuple(t, pos, l)})
	}
	return outs
}

// forgetLexer: a scan may change the lexer, its errors grow.
func (m *parseRun) forgetLexer(st *State) {
	if m.base == nil {
		return
	}
	lv := st.getPath(m.obj, m.path["lexer"])
	f := st.f(lv)
	if f.kind != KPtr || len(f.tg) != 1 {
		return
	}
	st.setRoot(f.tg[0].Obj, st.havocV(f.typ.Underlying().(*types.Pointer).Elem()))
}

// ---- states ----

// forgetParser makes what changes while parsing unknown; the lists only grow.
func (m *parseRun) forgetParser(st *State, c, p int64, rem V) {
	s := m.T.Underlying().(*types.Struct)
	lists := map[string]V{}
	for _, k := range []string{"errors", "tasks"} {
		if pa := m.path[k]; pa != nil {
			lists[k] = orC(st.f(st.getPath(m.obj, pa)).ln)
		}
	}
	for i := range m.mutable {
		st.setPath(m.obj, []int{i}, st.havocV(s.Field(i).Type()))
	}
	for _, k := range sortedKeys(lists) {
		v := st.getPath(m.obj, m.path[k])
		st.addLE(lists[k], orC(st.f(v).ln), 0)
	}
	m.window(st, c, p)
	if m.literals {
		st.setGhost("#lc", C(0))
		st.setGhost("#lp", C(0))
	}
	st.setPath(m.obj, m.path["c.tok"], m.tokV(st, c))
	st.setPath(m.obj, m.path["p.tok"], m.tokV(st, p))
	st.setPath(m.obj, m.path["c.lit"], m.litV(st, c))
	st.setPath(m.obj, m.path["p.lit"], m.litV(st, p))
	nr := st.freshInt(intType, remRange(c, p))
	st.setGhost("rem", nr)
	if !rem.undef() {
		st.addLE(nr, rem, 0)
	}
	m.forgetLexer(st)
	m.forgetEnv(st)
}

// forgetEnv: the environment may hold any names.
func (m *parseRun) forgetEnv(st *State) {
	ev := st.getPath(m.obj, m.path["env"])
	f := st.f(ev)
	if f.kind != KPtr || len(f.tg) != 1 {
		return
	}
	o := st.obj(f.tg[0].Obj)
	s, ok := o.typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if kindOf(t) != KMap {
			st.setPath(o.id, []int{i}, st.havocV(t))
			continue
		}
		mv := st.getPath(o.id, []int{i})
		mf := st.f(mv)
		if len(mf.tg) == 1 {
			st.setMapRoot(mf.tg[0].Obj, mf.tg[0].Path, st.fresh(&Fact{kind: KMapC, typ: t, rest: mayNon, ln: st.freshLen()}))
		}
	}
}

// general is any state of the parser between tokens.
func (m *parseRun) general(c, p int64) *State {
	st := m.base.clone()
	// the names of what NewParser read are no longer of interest
	m.forgetParser(st, c, p, V{})
	return st
}

func (m *parseRun) windows() [][2]int64 {
	var out [][2]int64
	for _, c := range m.classes() {
		for _, p := range m.classes() {
			if c == clEOF && p != clEOF {
				continue
			}
			out = append(out, [2]int64{c, p})
		}
	}
	return out
}

// ---- summaries ----

// summarised tells whether calls of fn are replaced by what was found when it was
// interpreted on its own: functions that return a node and an error and take at most nodes.
func (m *parseRun) summarised(fn *ssa.Function) *sumFn {
	if sf, ok := m.fns[fn]; ok {
		return sf
	}
	sf := m.shape(fn)
	m.fns[fn] = sf
	return sf
}

func (m *parseRun) shape(fn *ssa.Function) *sumFn {
	if fn.Blocks == nil || fn.Signature.Recv() == nil || len(fn.Params) == 0 || len(fn.FreeVars) > 0 || fn == m.fileFn {
		return nil
	}
	pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), m.T) {
		return nil
	}
	if fn != m.knot && !m.hot[fn] {
		return nil
	}
	sf := &sumFn{fn: fn, node: -1, err: -1, left: -1, knot: fn == m.knot}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if it, ok := t.Underlying().(*types.Interface); ok && hasMethodNamed(it, "Error") {
			sf.err = i
		} else if isNodeT(t, m.node) {
			if sf.node >= 0 {
				return nil
			}
			sf.node = i
		} else if !sf.knot {
			return nil
		}
	}
	if sf.node < 0 || sf.err < 0 {
		return nil
	}
	for i, p := range fn.Params[1:] {
		if isNodeT(p.Type(), m.node) {
			if sf.left >= 0 {
				return nil
			}
			sf.left = i + 1
		} else if !sf.knot {
			return nil
		}
	}
	return sf
}

type sumFn struct {
	fn              *ssa.Function
	node, err, left int
	knot            bool
}

// findHot marks the functions that lead to the knot and those that are used as values.
func (m *parseRun) findHot(g map[*ssa.Function][]*ssa.Function) {
	m.hot = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for f, cs := range g {
			if m.hot[f] {
				continue
			}
			for _, c := range cs {
				if c == m.knot || m.hot[c] {
					m.hot[f] = true
					ch = true
					break
				}
			}
		}
	}
	for f, cs := range g {
		if strings.Contains(f.Synthetic, "bound") {
			for _, c := range cs {
				m.hot[c] = true
			}
		}
	}
}

// apply replaces a call of a summarised function.
func (m *parseRun) apply(c *Call) ([]Outcome, bool) {
	if m.base == nil || c.Instr == nil {
		return nil, false
	}
	sf := m.summarised(c.Fn)
	if sf == nil {
		return nil, false
	}
	st := c.St
	// the receiver must be the parser
	if f := st.f(c.Args[0]); len(f.tg) != 1 || f.opq || f.tg[0].Obj != m.obj {
		return nil, false
	}
	m.r.count("summarised calls", 1)
	in := win(st)
	k := sf.fn.String() + "|" + in
	tok, leftNil := IntSet(nil), uint8(mayNon)
	if !sf.knot {
		tok = st.setOf(st.getPath(m.obj, m.path["c.tok"]))
		k += fmt.Sprintf("|%v", tok)
		if sf.left >= 0 {
			leftNil = st.f(c.Args[sf.left]).nil3
			k += fmt.Sprintf("|%d", leftNil)
		}
		if m.literals {
			k += fmt.Sprintf("|l%d", st.ghostConst("#lc"))
		}
	}
	if m.argKey != nil {
		k += m.argKey(sf, c)
	}
	if sf.knot {
		if m.recur != nil {
			m.recur(c, st)
		}
		if _, ok := m.sum[k]; !ok {
			// to be computed in the next round
			m.sum[k] = map[string]*sumOut{}
			m.want[k] = m.job(sf, c, in, tok, leftNil)
			m.news = true
		}
	} else if !m.done[k] {
		m.done[k] = true
		m.sum[k] = map[string]*sumOut{}
		m.runSum(k, m.job(sf, c, in, tok, leftNil))
	}
	return m.replay(c, sf, m.sum[k]), true
}

// sumJob is a summary to be computed.
type sumJob struct {
	sf      *sumFn
	w       [2]int64
	tok     IntSet
	leftNil uint8
	args    map[int]V // constants
	lit     int64     // whether the current token is a literal
	ctx     IntSet    // what the call is an operand of
}

func (m *parseRun) job(sf *sumFn, c *Call, in string, tok IntSet, leftNil uint8) *sumJob {
	j := &sumJob{sf: sf, tok: tok, leftNil: leftNil, args: map[int]V{}}
	if m.literals && !sf.knot {
		j.lit = c.St.ghostConst("#lc")
	}
	fmt.Sscanf(in, "%d,%d", &j.w[0], &j.w[1])
	if m.jobCtx != nil {
		j.ctx = m.jobCtx(sf, c)
	}
	if m.keepArg != nil {
		for i := 1; i < len(c.Args); i++ {
			if m.keepArg(sf, c, i) {
				if k, ok := c.St.constOf(c.Args[i]); ok {
					j.args[i] = C(k)
				}
			}
		}
	}
	return j
}

// runSum interprets a summarised function from any state that fits and learns its outcomes.
func (m *parseRun) runSum(k string, j *sumJob) {
	st := m.general(j.w[0], j.w[1])
	if j.tok != nil {
		t := st.getPath(m.obj, m.path["c.tok"])
		if !st.meetSet(t, j.tok) {
			return
		}
	}
	if m.literals {
		st.setGhost("#lc", C(j.lit))
	}
	fn := j.sf.fn
	args := make([]V, len(fn.Params))
	for i, p := range fn.Params {
		switch {
		case i == 0:
			args[i] = st.held("parser")
		case i == j.sf.left:
			if j.leftNil == mayNil {
				args[i] = m.a.nilV(p.Type())
			} else {
				args[i] = st.fresh(&Fact{kind: kindOf(p.Type()), typ: p.Type(), nil3: j.leftNil, opq: true})
			}
			st.hold("left", args[i])
		default:
			if v, ok := j.args[i]; ok {
				args[i] = v
			} else {
				args[i] = st.havocV(p.Type())
			}
		}
	}
	st.hold("rem0", st.mustGhost("rem"))
	if j.ctx != nil {
		st.setGhost("?ctx", st.freshInt(intType, j.ctx))
	}
	if m.entry != nil {
		m.entry(st, j.sf, args)
	}
	m.cur = append(m.cur, k)
	outs := m.a.Run(st, fn, args)
	m.cur = m.cur[:len(m.cur)-1]
	for _, o := range outs {
		if !o.Panic {
			m.learn(k, j.sf, o)
		}
		if m.end != nil {
			m.end(j.sf, o)
		}
	}
}

// replay gives the outcomes of a summary in the caller's state.
func (m *parseRun) replay(c *Call, sf *sumFn, sum map[string]*sumOut) []Outcome {
	st := c.St
	rem := st.mustGhost("rem")
	rs := c.Sig.Results()
	var outs []Outcome
	for _, k := range sortedKeys(sum) {
		o := sum[k]
		s := st.clone()
		m.forgetParser(s, o.w[0], o.w[1], rem)
		if s.dead {
			continue
		}
		if o.tok != nil {
			if t := s.getPath(m.obj, m.path["c.tok"]); !s.meetSet(t, o.tok) {
				continue
			}
		}
		n := V{}
		if o.isLeft && sf.left >= 0 {
			n = c.Args[sf.left]
		} else {
			n = m.resultNode(s, rs.At(sf.node).Type(), o)
		}
		vs := make([]V, rs.Len())
		for i := range vs {
			switch {
			case i == sf.node:
				vs[i] = n
			case i == sf.err && o.ok:
				vs[i] = m.a.nilV(rs.At(i).Type())
			case i == sf.err:
				vs[i] = s.fresh(&Fact{kind: KIface, typ: rs.At(i).Type(), nil3: mayNon, opq: true, tag: "diagnostic"})
			default:
				vs[i] = s.havocV(rs.At(i).Type())
			}
		}
		cc := *c
		cc.St = s
		if o.lazy && m.recur != nil {
			// it may go on to the knot before it consumes a token
			m.recur(&cc, st)
		}
		if m.result != nil {
			m.result(&cc, s, sf, o, n, vs[sf.err])
		}
		if s.dead {
			continue
		}
		outs = append(outs, Outcome{St: s, Ret: cc.tuple(vs...)})
	}
	return outs
}

// resultNode is the node of a summarised outcome.
func (m *parseRun) resultNode(st *State, t types.Type, o *sumOut) V {
	if o.nil3 == mayNil {
		return m.a.nilV(t)
	}
	f := &Fact{kind: kindOf(t), typ: t, nil3: o.nil3, opq: o.opq}
	if f.kind == KPtr {
		f.opq = true
		return st.fresh(f)
	}
	for _, k := range sortedKeys(o.types) {
		p := st.unknownOf(o.types[k])
		if o.typedNil[k] != nil {
			nf := st.f(p).clone()
			nf.nil3 = 3
			st.setFact(p.S, nf)
		}
		f.alts = append(f.alts, Alt{o.types[k], p})
	}
	return st.fresh(f)
}

// sumOut is one way a call of a summarised function can end.
type sumOut struct {
	w        [2]int64
	tok      IntSet // the current token
	ok       bool
	extra    string
	isLeft   bool // the result is the operand it was given
	lazy     bool
	nil3     uint8
	types    map[string]types.Type
	opq      bool
	typedNil map[string]types.Type
}

// learn adds an outcome to a summary.
func (m *parseRun) learn(key string, sf *sumFn, o Outcome) {
	st := o.St
	n, e := st.elem(o.Ret, sf.node), st.elem(o.Ret, sf.err)
	left, hasLeft := st.ghost("?left")
	isLeft := hasLeft && sf.left >= 0 && n == left
	tok := st.setOf(st.getPath(m.obj, m.path["c.tok"]))
	for _, ok := range []bool{true, false} {
		ef := st.f(e)
		want := uint8(mayNon)
		if ok {
			want = mayNil
		}
		if ef.nil3&want == 0 {
			continue
		}
		extra := ""
		if m.extra != nil {
			extra = m.extra(st, sf, o, n, e, ok)
		}
		k := fmt.Sprintf("%s %v %v %s", win(st), ok, isLeft, extra)
		s := m.sum[key][k]
		if s == nil {
			s = &sumOut{ok: ok, extra: extra, isLeft: isLeft, tok: tok, lazy: m.lazy[key], types: map[string]types.Type{}, typedNil: map[string]types.Type{}}
			fmt.Sscanf(win(st), "%d,%d", &s.w[0], &s.w[1])
			m.sum[key][k] = s
			m.tell(key)
		}
		if u := s.tok.union(tok); !u.eq(s.tok) {
			s.tok = u
			m.tell(key)
		}
		if m.lazy[key] {
			s.lazy = true
		}
		f := st.f(n)
		if s.nil3|f.nil3 != s.nil3 {
			s.nil3 |= f.nil3
			m.tell(key)
		}
		if f.opq && !s.opq && !isLeft {
			s.opq = true
			m.tell(key)
		}
		for _, al := range f.alts {
			ts := al.T.String()
			if s.types[ts] == nil {
				s.types[ts] = al.T
				m.tell(key)
			}
			if pf := st.f(al.P); pf.kind == KPtr && pf.nil3&mayNil != 0 && s.typedNil[ts] == nil {
				s.typedNil[ts] = al.T
				m.tell(key)
			}
		}
	}
}

// tell notes that a summary that others may have used has changed.
func (m *parseRun) tell(key string) {
	if m.want[key] != nil {
		m.news = true
	}
}

// solve computes the summaries and then runs everything once more with them complete.
// end is told about every outcome of that last run.
func (m *parseRun) solve() bool {
	a := m.a
	end, entry := m.end, m.fileEntry
	m.end = nil
	m.err = a.Try(func() {
		for n := 0; ; n++ {
			if n > 25 {
				m.giveUp("the summary of " + short(m.knot.String()) + " does not settle")
			}
			m.round(nil, entry)
			if debugFlag {
				k := 0
				for _, s := range m.sum {
					k += len(s)
				}
				fmt.Println("DBG round", n, len(m.sum), k, a.Steps)
			}
			if !m.changed {
				break
			}
		}
		a.Obls = map[string]*Obl{}
		a.loopRec = map[string]*loopRec{}
		m.final = true
		m.end = end
		m.round(func(o Outcome) {
			if end != nil {
				end(nil, o)
			}
		}, entry)
	})
	m.r.addAnalyzer(m.w, a)
	if m.err != nil {
		m.r.undecided("analysis of the parser gave up: " + m.err.Error())
		return false
	}
	for _, f := range m.fails {
		m.r.undecided(f)
	}
	k := 0
	for _, s := range m.sum {
		k += len(s)
	}
	m.r.count("summaries", len(m.sum))
	m.r.count("outcomes of summaries", k)
	return true
}

func (st *State) mustGhost(n string) V {
	v, _ := st.ghost(n)
	return v
}

// round runs the summaries asked for so far and ParseFile.
func (m *parseRun) round(end func(o Outcome), entry func(st *State)) {
	m.changed = false
	m.done = map[string]bool{}
	for k := range m.sum {
		if m.want[k] == nil {
			delete(m.sum, k)
		}
	}
	ch := m.changed
	for _, k := range sortedKeys(m.want) {
		m.changed = false
		m.runSum(k, m.want[k])
		// what other summaries learn on the way is no news
		ch = ch || m.news
		m.news = false
	}
	_ = ch
	for _, w := range m.windows() {
		st := m.general(w[0], w[1])
		st.hold("rem0", st.mustGhost("rem"))
		if entry != nil {
			entry(st)
		}
		for _, o := range m.a.Run(st, m.fileFn, []V{st.held("parser")}) {
			if end != nil {
				end(o)
			}
		}
	}
	if m.probe != nil {
		m.probe()
	}
	m.changed = ch || m.news
	m.news = false
}

// ---- deferred checks ----

// tasks runs each deferred check where it is registered, with the parser unknown, and
// makes calls of registered checks unknown ones.
func (m *parseRun) tasks() {
	a := m.a
	a.OnAppendAt = func(st *State, in ssa.CallInstruction, s, e V, t types.Type) {
		if m.base == nil {
			return
		}
		if m.appended != nil {
			m.appended(st, in, s, e, t)
		}
		if !m.isTasks(t) {
			return
		}
		vs, ok := st.variadic(e)
		if !ok {
			m.fails = append(m.fails, "the deferred checks added at "+a.pos(in.Pos())+" are not known")
			return
		}
		for _, v := range vs {
			f := st.f(v)
			if f.opq || len(f.fns) == 0 {
				m.fails = append(m.fails, "the deferred check added at "+a.pos(in.Pos())+" is not known")
				continue
			}
			for _, fa := range f.fns {
				m.r.count("deferred checks", 1)
				s2 := st.clone()
				m.forgetParser(s2, clEOF, clEOF, V{})
				m.settle(s2, fa)
				if m.taskEntry != nil {
					m.taskEntry(s2)
				}
				outs := a.invokeBody(s2, fa.Fn, nil, fa.Binds, nil)
				if m.onTask != nil {
					m.onTask(st, in, outs, fa.Fn)
				}
			}
		}
	}
	a.UnknownInvoke = func(c *Call, recv V, mt *types.Func) ([]Outcome, bool) {
		if n := mt.Name(); (n == "Start" || n == "End") && c.Sig.Params().Len() == 0 && c.Sig.Results().Len() == 1 {
			return c.one(c.St.havocV(c.Sig.Results().At(0).Type())), true
		}
		return nil, false
	}
	a.UnknownFunc = func(c *Call, fv V) ([]Outcome, bool) {
		rs := c.Sig.Results()
		if c.Sig.Params().Len() != 0 || rs.Len() != 1 || !types.Identical(rs.At(0).Type(), m.diagType()) {
			return nil, false
		}
		if m.task != nil {
			return m.task(c, fv), true
		}
		t := rs.At(0).Type()
		s := c.St.clone()
		return []Outcome{{St: c.St, Ret: m.a.nilV(t)}, {St: s, Ret: s.fresh(&Fact{kind: KIface, typ: t, nil3: mayNon, opq: true, tag: "diagnostic"})}}, true
	}
}

// settle: captured variables that are assigned more than once are unknown when the
// closure runs.
func (m *parseRun) settle(st *State, fa FnAlt) {
	for i, b := range fa.Binds {
		f := st.f(b)
		if f.kind != KPtr || len(f.tg) != 1 {
			continue
		}
		if i < len(fa.Fn.FreeVars) && !m.assignedOnce(fa.Fn, i) {
			if tg := f.tg[0]; len(tg.Path) == 0 && tg.Obj != m.obj {
				st.setRoot(tg.Obj, st.havocV(st.obj(tg.Obj).typ))
			}
		}
	}
}

// assignedOnce tells whether captured variable i of a closure has one assignment.
func (m *parseRun) assignedOnce(fn *ssa.Function, i int) bool {
	p := fn.Parent()
	if p == nil {
		return true // a bound receiver
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn || i >= len(mc.Bindings) {
				continue
			}
			al, ok := mc.Bindings[i].(*ssa.Alloc)
			if !ok {
				continue
			}
			n := 0
			for _, ref := range *al.Referrers() {
				switch t := ref.(type) {
				case *ssa.Store:
					if t.Addr == al {
						n++
					}
				}
			}
			if n > 1 {
				return false
			}
		}
	}
	return true
}

// ---- C08, C09 ----

func init() {
	register(&Check{ID: "C08", Rule: "Abstract interpretation of NewParser and ParseFile over a model of the lexer that delivers any finite token sequence and then EOF for ever, with the function all recursion goes through summarised by a least fixed point: the number of tokens left strictly decreases on every cycle of every loop and from each activation of that function to the recursive calls it makes.", Run: checkC08})
	register(&Check{ID: "C09", Rule: "Abstract interpretation of NewParser, ParseFile, every handler and every deferred check over a model of the lexer that delivers any token sequence (literals other than those of text and comments are not empty, which is shown for the lexer), any environment, any operand nodes: no nil dereference, index, conversion or explicit panic is reachable.", Run: checkC09})
}

func checkC08(w *World, r *Report) {
	m := w.parse(r, "")
	m.a.LoopCheck = true
	m.setup = m.tasks
	m.recur = func(c *Call, st *State) {
		if len(m.cur) == 0 {
			return // from ParseFile
		}
		key := m.cur[len(m.cur)-1]
		if st.ub(st.mustGhost("rem"), st.held("rem0")) <= -1 {
			if m.final {
				r.ob(true)
			}
			return
		}
		if m.want[key] == nil {
			// a handler may rely on its caller to have consumed one
			m.lazy[key] = true
			return
		}
		if m.final {
			r.ob(false)
			r.violationAt(st, Finding{Rule: "recursion consumes", Func: short(c.Instr.Parent().String()), Pos: m.a.pos(c.Pos), Construct: "recursion through " + short(c.Fn.String()), Msg: "the parser may enter " + m.knot.Name() + " again without having consumed a token: parsing need not end"})
		}
	}
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	if !m.solve() {
		return
	}
	good, bad, pos := m.a.LoopReport()
	for _, g := range good {
		r.ob(true)
		r.sample("terminates: " + g)
	}
	for i, b := range bad {
		r.ob(false)
		if m.a.Debug {
			m.a.dumpLoop(b, pos[i])
		}
		r.violation(Finding{Rule: "loops consume", Func: short(b), Pos: m.a.pos(pos[i]), Construct: "loop", Msg: "no cycle of this loop may go on without consuming a token, but one may"})
	}
}

func checkC09(w *World, r *Report) {
	m := w.parse(r, "text")
	m.setup = m.tasks
	var outs []Outcome
	m.onTask = func(st *State, in ssa.CallInstruction, os []Outcome, fn *ssa.Function) {
		for _, o := range os {
			if o.Panic && m.final {
				outs = append(outs, o)
			}
		}
	}
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	m.end = func(sf *sumFn, o Outcome) { outs = append(outs, o) }
	m.call = func(c *Call) ([]Outcome, bool) {
		p := pkgTypes(c.Fn)
		if !m.final || c.Instr == nil || p == nil || p.Path() != RepoPath+"/environment" || pkgTypes(c.Instr.Parent()) == p {
			return nil, false
		}
		// the entries of the environment are nodes
		for i, q := range c.Fn.Params {
			if i < len(c.Args) && isNodeT(q.Type(), m.node) {
				if !r.ob(c.St.f(c.Args[i]).nil3&mayNil == 0) {
					r.violationAt(c.St, Finding{Rule: "environment entries", Func: short(c.Instr.Parent().String()), Pos: m.a.pos(c.Pos), Construct: "nil passed to " + short(c.Fn.String()), Msg: "the environment may get a name without a node: who looks the name up dereferences it", Trace: c.St.traceList()})
				}
			}
		}
		return nil, false
	}
	if !m.solve() {
		return
	}
	r.panics(m.a, outs, "no panic")
	// what was taken for granted of the lexer
	names := w.tokenNames()
	l := w.step(nil, func(c *Call, l *stepRun) {
		st := c.St
		t, ok := w.tokArgs(c)
		if !ok || len(t.toks) == 0 {
			r.undecided("the token Scan returns is not known")
			return
		}
		for _, k := range t.toks {
			n := names[k]
			if n == "EOF" || m.textToks()[n] {
				continue
			}
			f := st.f(t.lit)
			ln := f.ln
			if f.con {
				ln = C(int64(len(f.str)))
			}
			set := IntSet(nil)
			if !ln.undef() {
				set = st.setOf(ln)
			}
			switch {
			case set != nil && set.min() >= 1:
				r.ob(true)
			case set != nil && set.max() <= 0:
				r.ob(false)
				r.violationAt(st, Finding{Rule: "tokens have text", Func: "(*lexer.Lexer).Scan", Construct: "literal of " + n, Msg: "the literal of " + n + " may be empty; the parser looks at its first character", Trace: st.traceList()})
			default:
				r.undecided("whether the literal of " + n + " may be empty: " + st.show(t.lit))
			}
		}
	})
	l.report(r)
}

var _ = token.ADD

// literalTests keeps what is known of the predicates over a token and its text, such as
// whether the text is a literal: they answer the same when asked twice.
func (m *parseRun) literalTests() {
	tt, ok := m.tokenType().(*types.Named)
	if !ok {
		return
	}
	seen := 0
	for i := 0; i < tt.NumMethods(); i++ {
		fn := m.w.Prog.FuncValue(tt.Method(i))
		if fn == nil || fn.Blocks == nil {
			continue
		}
		sg := fn.Signature
		if sg.Params().Len() != 1 || sg.Results().Len() != 1 || kindOf(sg.Params().At(0).Type()) != KStr || !types.Identical(sg.Results().At(0).Type().Underlying(), types.Typ[types.Bool]) {
			continue
		}
		if seen++; seen > 1 {
			return // one is followed
		}
		m.a.Models[modelName(fn)] = func(c *Call) []Outcome {
			st := c.St
			g := ""
			if m.base != nil {
				for _, k := range []string{"c", "p"} {
					if st.getPath(m.obj, m.path[k+".lit"]) == c.Args[1] && sameInt(st, st.getPath(m.obj, m.path[k+".tok"]), c.Args[0]) {
						g = "#l" + k
						break
					}
				}
			}
			if g == "" {
				n := st.clone()
				return []Outcome{{St: st, Ret: C(0)}, {St: n, Ret: C(1)}}
			}
			switch st.ghostConst(g) {
			case 1:
				return c.one(C(1))
			case 2:
				return c.one(C(0))
			}
			n := st.clone()
			st = st.clone()
			st.setGhost(g, C(2))
			n.setGhost(g, C(1))
			return []Outcome{{St: st, Ret: C(0)}, {St: n, Ret: C(1)}}
		}
	}
}

func sameInt(st *State, x, y V) bool {
	if x == y {
		return true
	}
	a, ok1 := st.constOf(x)
	b, ok2 := st.constOf(y)
	return ok1 && ok2 && a == b
}
