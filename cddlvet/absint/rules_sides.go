package absint

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C37", Rule: "Abstract interpretation of each handler of an operator, bracket or indicator, entered through the recursive parse function with the operator's token fixed, the operand before it parsed by its own handler and the operand behind it any node: on every path without a diagnostic the node is of the operator's kind and carries its token, the operands stand on their own sides, and the node starts where its first token starts. Bounds of occurrences, tag numbers and names of rules are the numbers and texts of their own tokens.", Run: checkC37})
}

// sides are the fields that hold the operands of the nodes of infix operators.
var sides = map[string]struct {
	nodes       []string
	left, right string
}{
	"TYPE_CHOICE":     {[]string{"TypeChoice"}, "First", "Second"},
	"GROUP_CHOICE":    {[]string{"TypeChoice", "GroupChoice"}, "First", "Second"},
	"INCLUSIVE_BOUND": {[]string{"Range"}, "From", "To"},
	"EXCLUSIVE_BOUND": {[]string{"Range"}, "From", "To"},
	"COLON":           {[]string{"Entry"}, "Name", "Value"},
	"ARROW_MAP":       {[]string{"Entry"}, "Name", "Value"},
	"SIZE":            {[]string{"SizeOperatorControl"}, "Type", "Size"},
	"REGEXP":          {[]string{"Regexp"}, "Base", "Regex"},
	"BITS":            {[]string{"Bits"}, "Base", "Contstraint"},
	"LT":              {[]string{"ComparatorOpControl"}, "Left", "Right"},
	"LE":              {[]string{"ComparatorOpControl"}, "Left", "Right"},
	"GT":              {[]string{"ComparatorOpControl"}, "Left", "Right"},
	"GE":              {[]string{"ComparatorOpControl"}, "Left", "Right"},
	"EQ":              {[]string{"ComparatorOpControl"}, "Left", "Right"},
	"NE":              {[]string{"ComparatorOpControl"}, "Left", "Right"},
	"ZERO_OR_MORE":    {[]string{"NMOccurrence"}, "", "Item"},
	"ONE_OR_MORE":     {[]string{"NMOccurrence"}, "", "Item"},
}

// prefixes are the nodes of what stands before its operand.
var prefixes = map[string]struct{ node, item string }{
	"OPTIONAL": {"Optional", "Item"}, "UNWRAP": {"Unwrap", "Item"}, "AMPERSAND": {"Enumeration", "Value"}, "HASH": {"Tag", ""},
	"ZERO_OR_MORE": {"NMOccurrence", "Item"}, "ONE_OR_MORE": {"NMOccurrence", "Item"},
	"LPAREN": {"Group", ""}, "LBRACE": {"Map", ""}, "LBRACK": {"Array", ""},
}

// sideRun is the analysis of one operator behind (or before) one kind of operand.
type sideRun struct {
	*parseRun
	r      *Report
	x      *precRun
	op     string
	opk    int64
	left   string // the token before it, if any
	near   int64  // 1 a number follows directly, 2 at a distance, 5 on the next line, 4 a float follows, 3 no number follows
	n      int
	seen   bool
	probe  bool
	on     bool
	handle *ssa.Function
}

func checkC37(w *World, r *Report) {
	x := w.precRun(r)
	if x == nil {
		return
	}
	m := x.parseRun
	a := m.a
	m.literals = true
	a.KeyFuncs, a.KeyErrs = true, true
	vals := map[string]int64{}
	for k, n := range w.tokenNames() {
		vals[n] = k
	}
	m.setup = m.literalTests
	s := &sideRun{parseRun: m, r: r, x: x}
	m.call = s.intercept
	if !m.prepare() {
		r.undecided("analysis of the parser gave up: " + m.err.Error())
		return
	}
	if x.p = precParam(m.knot); x.p < 0 {
		r.undecided(short(m.knot.String()) + " takes no precedence")
		return
	}
	for _, n := range []string{"strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.Atoi"} {
		a.Models[n] = s.number
	}
	a.Models["strings.Split"] = s.split
	a.OnConvert = func(st *State, v, res V) {
		for _, k := range []string{"left", "right", "sec0", "sec1", "other"} {
			if x, ok := st.ghost("?num " + k); ok && x == v && v.S != zeroSym {
				st.hold("numc "+k, res)
			}
		}
	}
	m.final = true
	err := a.Try(func() {
		s.probe = true
		for _, op := range sortedKeys(prefixes) {
			s.left = ""
			s.fixed(vals, op, "", 0)
		}
		for _, op := range sortedKeys(sides) {
			for _, l := range leaves {
				if l.node != "" {
					s.fixed(vals, op, l.tok, 2)
				}
				if l.lit != "" {
					s.fixed(vals, op, l.tok, 1)
				}
			}
		}
		s.rules(vals)
	})
	r.addAnalyzer(w, a)
	if err != nil {
		r.undecided("analysis of the parser gave up: " + err.Error())
	} else if s.n == 0 {
		r.undecided("no operator's handler was found")
	}
}

// fixed runs the recursive function on one operator.
func (s *sideRun) fixed(vals map[string]int64, op, left string, lit int64) {
	k, ok := vals[op]
	if !ok {
		return
	}
	s.op, s.opk, s.left, s.seen = op, k, left, false
	nears := []int64{0}
	switch op {
	case "ZERO_OR_MORE", "ONE_OR_MORE":
		nears = []int64{1, 2, 3, 5}
	case "HASH":
		nears = []int64{1, 4, 3}
	}
	pls := []int64{clOther}
	if left == "" {
		pls = []int64{clOther, clEOF}
	}
	for _, near := range nears {
		s.near = near
		for _, pl := range pls {
			st := s.general(clOther, pl)
			tok := k
			if left != "" {
				tok = vals[left]
				if !st.meetSet(st.getPath(s.obj, s.path["p.tok"]), setConst(k)) {
					continue
				}
			}
			if !st.meetSet(st.getPath(s.obj, s.path["c.tok"]), setConst(tok)) {
				continue
			}
			switch {
			case left == "TRUE" || left == "FALSE":
				st.setPath(s.obj, s.path["c.lit"], s.a.strConst(strings.ToLower(left)))
			case left == "IDENT" || lit == 1 && left != "TEXT_LITERAL":
				st.setPath(s.obj, s.path["c.lit"], st.freshStr(1))
			}
			st.setGhost("#lc", C(lit))
			st.setGhost("#in", C(0))
			st.hold("lit0", st.getPath(s.obj, s.path["c.lit"]))
			st.hold("pos0", st.getPath(s.obj, s.path["c.pos"]))
			args := make([]V, len(s.knot.Params))
			for i, q := range s.knot.Params {
				switch {
				case i == 0:
					args[i] = st.held("parser")
				case i == s.x.p:
					c, _ := s.w.constOfPkg("token", "LOWEST")
					args[i] = C(c)
				default:
					args[i] = st.havocV(q.Type())
				}
			}
			st.hold("rem0", st.mustGhost("rem"))
			s.on = true
			s.a.Run(st, s.knot, args)
			s.on = false
		}
	}
	if s.seen {
		s.r.count("operators and operands", 1)
	}
}

// anyNode is a parsed operand of any kind.
func (s *sideRun) anyNode(st *State, t types.Type) V {
	if kindOf(t) != KIface {
		return st.NonNil(st.havocV(t))
	}
	f := &Fact{kind: KIface, typ: t, nil3: mayNon}
	for _, nt := range s.w.nodeTypes() {
		if types.Implements(nt.recv, t.Underlying().(*types.Interface)) {
			f.alts = append(f.alts, Alt{nt.recv, st.NonNil(st.unknownOf(nt.recv))})
		}
	}
	return st.fresh(f)
}

func (s *sideRun) intercept(c *Call) ([]Outcome, bool) {
	if !s.probe || c.Instr == nil || len(c.Fn.Blocks) == 0 {
		return nil, false
	}
	st := c.St
	in := st.ghostConst("#in")
	if c.Fn == s.knot {
		if in == 0 {
			return nil, false
		}
		sf := s.summarised(s.knot)
		var outs []Outcome
		rs := c.Sig.Results()
		for _, w := range s.windows() {
			q := st.clone()
			s.forgetParser(q, w[0], w[1], st.mustGhost("rem"))
			if q.dead {
				continue
			}
			for i := 0; i < 2; i++ {
				z := q.clone()
				vs := make([]V, rs.Len())
				for k := range vs {
					vs[k] = z.havocV(rs.At(k).Type())
				}
				vs[sf.node] = s.anyNode(z, rs.At(sf.node).Type())
				if i == 0 {
					vs[sf.err] = s.a.nilV(rs.At(sf.err).Type())
					z.hold("right", vs[sf.node])
				} else {
					vs[sf.err] = z.fresh(&Fact{kind: KIface, typ: rs.At(sf.err).Type(), nil3: mayNon, opq: true, tag: "diagnostic"})
				}
				cc := *c
				cc.St = z
				outs = append(outs, Outcome{St: z, Ret: cc.tuple(vs...)})
			}
		}
		return outs, true
	}
	sf := s.summarised(c.Fn)
	if sf == nil {
		return nil, false
	}
	if in != 0 || !s.on {
		if s.a.onStack(st, c.Fn) > 0 {
			return nil, false
		}
		return s.a.invokeBody(st, c.Fn, c.Args, nil, c.Instr), true
	}
	if k, ok := s.x.cur(st).isConst(); !ok || k != s.opk || (sf.left >= 0) != (s.left != "") {
		if sf.left >= 0 {
			return []Outcome{}, true
		}
		return s.a.invokeBody(st, c.Fn, c.Args, nil, c.Instr), true
	}
	// the handler of the operator
	s.seen = true
	s.handle = c.Fn
	st = st.clone()
	st.setGhost("#in", C(1))
	if sf.left >= 0 {
		st.hold("left", c.Args[sf.left])
	}
	st.hold("opl", st.getPath(s.obj, s.path["c.lit"]))
	if !s.ahead(st) {
		return []Outcome{}, true
	}
	st.hold("plit", st.getPath(s.obj, s.path["p.lit"]))
	for _, o := range s.a.invokeBody(st, c.Fn, c.Args, nil, c.Instr) {
		if o.Panic {
			continue
		}
		e := o.St.f(o.St.elem(o.Ret, sf.err)).nil3
		if e == mayNon {
			continue
		}
		q := o.St.clone()
		if !q.assumeNil(q.elem(o.Ret, sf.err), true) {
			continue
		}
		s.n++
		for _, node := range q.nodesOf(q.elem(o.Ret, sf.node)) {
			s.check(q, node)
		}
	}
	return []Outcome{}, true
}

// nodesOf are the pointers a node may be.
func (st *State) nodesOf(v V) []V {
	f := st.f(v)
	if f.kind == KIface && !f.opq {
		var out []V
		for _, al := range f.alts {
			out = append(out, al.P)
		}
		return out
	}
	return []V{v}
}

// ahead fixes what follows an occurrence or a tag.
func (s *sideRun) ahead(st *State) bool {
	if s.near == 0 {
		return true
	}
	k, ok := s.w.constOfPkg("token", "INT")
	f, ok2 := s.w.constOfPkg("token", "FLOAT")
	if !ok || !ok2 {
		return false
	}
	pt := st.getPath(s.obj, s.path["p.tok"])
	eof := st.ghostConst("#p") == clEOF
	if s.near == 3 {
		return eof || st.meetSet(pt, st.setOf(pt).minus(setConst(k)).minus(setConst(f)))
	}
	if s.near == 4 {
		k = f
	}
	if eof || !st.meetSet(pt, setConst(k)) {
		return false
	}
	st.setGhost("#lp", C(1))
	st.setPath(s.obj, s.path["p.lit"], st.freshStr(1))
	pos := st.getPath(s.obj, s.path["c.pos"])
	to := s.w.Prog.LookupMethod(s.posType(), nil, "To")
	if to == nil {
		return false
	}
	d := int64(1)
	if s.near == 2 {
		d = 2
	}
	str := s.posType().Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		v := st.elem(pos, i)
		if kindOf(str.Field(i).Type()) == KInt {
			st.meetSet(v, setRange(0, maxLen))
		}
	}
	outs := s.a.Run(st.clone(), to, []V{pos, C(d)})
	if len(outs) != 1 || outs[0].Panic {
		return false
	}
	np := outs[0].Ret
	elems := make([]V, str.NumFields())
	for i := range elems {
		v := outs[0].St.elem(np, i)
		if kindOf(str.Field(i).Type()) == KInt {
			old := st.elem(pos, i)
			switch {
			case s.near == 5 && str.Field(i).Name() == "Line":
				elems[i] = old.plus(1)
			case s.near == 5 && str.Field(i).Name() == "Offset":
				elems[i] = old.plus(5)
			case v == old:
				elems[i] = old
			case v.S == old.S:
				elems[i] = v
			default:
				s.r.undecided("where a token ends is not known")
				return false
			}
			continue
		}
		elems[i] = st.elem(pos, i)
	}
	st.setPath(s.obj, s.path["p.pos"], st.fresh(&Fact{kind: KStruct, typ: s.posType(), elems: elems}))
	return true
}

func (s *sideRun) posType() types.Type {
	return s.w.Pkg("token").Pkg.Scope().Lookup("Position").Type()
}

// number is the model of the functions that read a number.
func (s *sideRun) number(c *Call) []Outcome {
	bad := c.St.clone()
	cb := *c
	cb.St = bad
	errT := types.Universe.Lookup("error").Type()
	e := bad.fresh(&Fact{kind: KIface, typ: errT, nil3: mayNon, opq: true, tag: "failure"})
	outs := []Outcome{{St: bad, Ret: cb.tuple(bad.havocV(c.Sig.Results().At(0).Type()), e)}}
	st := c.St
	v := st.havocV(c.Sig.Results().At(0).Type())
	k := "other"
	for _, h := range [][2]string{{"lit0", "left"}, {"plit", "right"}, {"sec0", "sec0"}, {"sec1", "sec1"}} {
		if g, ok := st.ghost("?" + h[0]); ok && st.same(c.Args[0], g) {
			k = h[1]
			break
		}
	}
	st.hold("num "+k, v)
	return append(outs, Outcome{St: st, Ret: c.tuple(v, s.a.nilV(errT))})
}

// split is the model of strings.Split: the number of a tag has two sections.
func (s *sideRun) split(c *Call) []Outcome {
	st := c.St
	sep, ok := st.constStr(c.Args[1])
	if !ok || sep != "." || !st.same(c.Args[0], st.gv("?plit")) {
		v := st.NonNil(st.havocV(c.Sig.Results().At(0).Type()))
		if ok && sep != "" {
			st.addLE(C(1), orC(st.f(v).ln), 0)
		}
		return c.one(v)
	}
	one := st.clone()
	cc := *c
	cc.St = one
	t := c.Sig.Results().At(0).Type()
	mk := func(q *State, vs ...V) V {
		arr := q.fresh(&Fact{kind: KArray, typ: t.Underlying().(*types.Slice).Elem(), defK: defZero, ln: C(int64(len(vs)))})
		for k, v := range vs {
			arr = q.arrSet(arr, C(int64(k)), v, false)
		}
		return q.newSlice(t, q.f(arr), C(int64(len(vs))), C(int64(len(vs))), "sections")
	}
	a, b := st.freshStr(0), st.freshStr(0)
	st.hold("sec0", a)
	st.hold("sec1", b)
	return []Outcome{{St: one, Ret: mk(one, c.Args[0])}, {St: st, Ret: mk(st, a, b)}}
}

func (s *sideRun) bad(st *State, con, msg string) {
	s.r.ob(false)
	what := s.op
	if s.left == "" {
		what += " as a prefix"
	}
	s.r.violationAt(st, Finding{Rule: "operators keep their operands", Func: short(s.handle.String()), Pos: s.a.pos(s.handle.Pos()), Construct: what + ": " + con, Msg: msg})
}

func (s *sideRun) check(st *State, node V) {
	f := st.f(node)
	if f.kind != KPtr || f.opq || len(f.tg) != 1 || f.nil3 != mayNon {
		return // C11, C17
	}
	pt, _ := f.typ.Underlying().(*types.Pointer)
	nt, _ := pt.Elem().(*types.Named)
	if nt == nil {
		return
	}
	str, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return
	}
	name := nt.Obj().Name()
	var nodes []string
	leftF, rightF := "", ""
	if s.left == "" {
		nodes, rightF = []string{prefixes[s.op].node}, prefixes[s.op].item
	} else {
		nodes, leftF, rightF = sides[s.op].nodes, sides[s.op].left, sides[s.op].right
	}
	good := false
	for _, n := range nodes {
		good = good || n == name
	}
	if !s.r.ob(good) {
		s.bad(st, "kind", s.op+" is parsed as "+name+", not "+nodes[0])
		return
	}
	root := st.load(node)
	field := func(n string) V {
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Name() == n {
				return st.elem(root, i)
			}
		}
		return V{}
	}
	isNil := func(v V) bool {
		f := st.f(v)
		return (f.kind == KIface || f.kind == KPtr) && f.nil3 == mayNil
	}
	same := func(v, o V) bool {
		return !v.undef() && !o.undef() && !isNil(v) && !isNil(o) && (st.same(v, o) || st.sameObj(v, o))
	}
	left, right := st.gv("?left"), st.gv("?right")
	// the same object may stand on both sides only where one operand is handed on
	side := func(n string, own, other V, what, others string) {
		v := field(n)
		if n == "" || v.undef() {
			return
		}
		switch {
		case isNil(v):
			s.bad(st, n, n+" of "+name+" is missing on a path without a diagnostic")
		case !same(v, own) && same(v, other):
			s.bad(st, n, n+" of "+name+" holds the operand "+others+" the operator")
		default:
			s.r.ob(true)
		}
	}
	side(leftF, left, right, "before", "behind")
	side(rightF, right, left, "behind", "before")
	tokT := s.tokenType()
	for i := 0; i < str.NumFields(); i++ {
		fl := str.Field(i)
		v := st.elem(root, i)
		switch {
		case types.Identical(fl.Type(), tokT):
			if c, ok := st.constOf(v); ok && !s.r.ob(c == s.opk) {
				s.bad(st, "token", "the node carries the token "+s.x.nameOf(c))
			} else if !ok {
				if !s.r.ob(st.setOf(v).has(s.opk)) {
					s.bad(st, "token", "the node does not carry the operator's token")
				}
			}
		case kindOf(fl.Type()) == KStr && name == "ComparatorOpControl":
			c, ok := st.constStr(v)
			switch {
			case st.same(v, st.held("opl")):
				s.r.ob(true)
			case ok && strings.TrimPrefix(c, ".") == strings.ToLower(s.op):
				s.r.ob(true)
			case ok, st.same(v, st.gv("?lit0")), st.same(v, st.gv("?plit")):
				s.bad(st, fl.Name(), fl.Name()+" of "+name+" is not the operator's text")
			}
		}
	}
	switch name {
	case "NMOccurrence":
		s.bounds(st, field("N"), field("M"))
	case "Tag":
		s.tag(st, field("Major"), field("TagNumber"))
	}
	if name == "Entry" && !same(field("Name"), left) {
		return // a name that is made from a number
	}
	s.starts(st, node, f.typ, "the node of "+s.op)
}

// starts decides that a node starts where the first token starts.
func (s *sideRun) starts(st *State, node V, t types.Type, what string) {
	start := s.w.Prog.LookupMethod(t, nil, "Start")
	if start == nil {
		return
	}
	ps := s.posType().Underlying().(*types.Struct)
	probe := s.probe
	s.probe, s.realPos = false, true
	outs := s.a.Run(st.clone(), start, []V{node})
	s.probe, s.realPos = probe, false
	for _, q := range outs {
		if q.Panic {
			continue
		}
		good := true
		for i := 0; i < ps.NumFields(); i++ {
			if kindOf(ps.Field(i).Type()) == KInt && !sameInt(q.St, q.St.elem(q.Ret, i), q.St.elem(q.St.held("pos0"), i)) {
				good = false
			}
		}
		if !s.r.ob(good) {
			s.bad(q.St, "start", what+" does not start where its first token starts")
		}
	}
}

// numbersOf are the numbers of the nodes that hold one.
func (s *sideRun) numbersOf(st *State, v V) []V {
	if v.undef() {
		return nil
	}
	f := st.f(v)
	if f.kind != KPtr || f.opq || f.nil3&mayNon == 0 {
		return nil
	}
	pt, _ := f.typ.Underlying().(*types.Pointer)
	str, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []V
	for _, t := range f.tg {
		root := st.loadTarget(t)
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Name() == "Literal" {
				out = append(out, st.elem(root, i))
			}
		}
	}
	return out
}

// numbered tells what token a number comes from.
func (s *sideRun) numbered(st *State, v V) string {
	for _, k := range []string{"left", "right", "sec0", "sec1", "other"} {
		for _, p := range []string{"?num ", "?numc "} {
			if g, ok := st.ghost(p + k); ok && g == v {
				return k
			}
		}
	}
	return ""
}

func (s *sideRun) bounds(st *State, n, m V) {
	if n.undef() || m.undef() {
		return
	}
	if !s.r.ob(st.f(n).nil3&mayNil == 0) {
		s.bad(st, "N", "there may be no lower bound")
	}
	nvs := s.numbersOf(st, n)
	for _, nv := range nvs {
		k, known := st.constOf(nv)
		from := s.numbered(st, nv)
		if s.left != "" {
			if !s.r.ob(from == "left") {
				s.bad(st, "N", "the lower bound is not the number before the operator")
			}
			continue
		}
		want := int64(0)
		if s.op == "ONE_OR_MORE" {
			want = 1
		}
		if !s.r.ob(known && k == want || !known && from == "") {
			s.bad(st, "N", fmt.Sprintf("the lower bound is not %d", want))
		}
	}
	mn := st.f(m).nil3
	switch {
	case s.near == 1 && mn&mayNil != 0:
		s.bad(st, "M", "a number that follows the operator directly may be no upper bound")
	case s.near != 1 && mn&mayNon != 0:
		s.bad(st, "M", "there may be an upper bound though no number follows the operator directly")
	case s.near == 1:
		for _, mv := range s.numbersOf(st, m) {
			if !s.r.ob(s.numbered(st, mv) == "right") {
				s.bad(st, "M", "the upper bound is not the number behind the operator")
			}
		}
	default:
		s.r.ob(true)
	}
}

func (s *sideRun) tag(st *State, major, num V) {
	if major.undef() || num.undef() {
		return
	}
	want := [2]string{}
	switch s.near {
	case 1:
		want[0] = "right"
	case 4:
		want[0], want[1] = "sec0", "sec1"
	}
	for i, v := range []V{major, num} {
		n := []string{"Major", "TagNumber"}[i]
		nil3 := st.f(v).nil3
		switch {
		case want[i] == "" && nil3&mayNon != 0:
			s.bad(st, n, "there may be a "+n+" that is not written")
		case want[i] != "" && nil3&mayNil != 0:
			s.bad(st, n, n+" may be missing")
		case want[i] != "":
			for _, lv := range s.numbersOf(st, v) {
				from := s.numbered(st, lv)
				_, known := st.constOf(lv)
				if !s.r.ob(!known && (from == want[i] || from == "other")) {
					s.bad(st, n, n+" is not the number that is written")
				}
			}
		default:
			s.r.ob(true)
		}
	}
}

// rules decides the names of rules.
func (s *sideRun) rules(vals map[string]int64) {
	for _, fn := range s.w.parserFuncs() {
		rs := fn.Signature.Results()
		if rs.Len() != 2 || fn.Signature.Recv() == nil || len(fn.Params) != 1 {
			continue
		}
		ni := -1
		for i := 0; i < 2; i++ {
			if n, ok := rs.At(i).Type().(*types.Named); ok && n.Obj().Name() == "CDDLEntry" {
				ni = i
			}
		}
		if ni < 0 {
			continue
		}
		s.handle, s.op, s.left, s.near = fn, "rule", "", 0
		for _, as := range []string{"ASSIGN", "TYPE_CHOICE_ASSIGN", "GROUP_CHOICE_ASSIGN"} {
			st := s.general(clOther, clOther)
			if !st.meetSet(st.getPath(s.obj, s.path["c.tok"]), setConst(vals["IDENT"])) || !st.meetSet(st.getPath(s.obj, s.path["p.tok"]), setConst(vals[as])) {
				continue
			}
			st.setPath(s.obj, s.path["c.lit"], st.freshStr(1))
			st.hold("lit0", st.getPath(s.obj, s.path["c.lit"]))
			st.hold("pos0", st.getPath(s.obj, s.path["c.pos"]))
			st.hold("rem0", st.mustGhost("rem"))
			st.setGhost("#in", C(1))
			for _, o := range s.a.Run(st, fn, []V{st.held("parser")}) {
				if o.Panic || o.St.f(o.St.elem(o.Ret, 1-ni)).nil3 == mayNon {
					continue
				}
				q := o.St.clone()
				if !q.assumeNil(q.elem(o.Ret, 1-ni), true) {
					continue
				}
				for _, node := range q.nodesOf(q.elem(o.Ret, ni)) {
					s.rule(q, node)
				}
			}
		}
	}
}

func (s *sideRun) rule(st *State, node V) {
	f := st.f(node)
	if f.kind != KPtr || f.opq || len(f.tg) != 1 || f.nil3 != mayNon {
		return
	}
	pt, _ := f.typ.Underlying().(*types.Pointer)
	nt, _ := pt.Elem().(*types.Named)
	if nt == nil {
		return
	}
	str, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return
	}
	if !s.r.ob(nt.Obj().Name() == "Rule") {
		s.bad(st, "kind", "a rule is parsed as "+nt.Obj().Name())
		return
	}
	root := st.load(node)
	for i := 0; i < str.NumFields(); i++ {
		v := st.elem(root, i)
		switch str.Field(i).Name() {
		case "Name":
			vf := st.f(v)
			if vf.kind != KPtr || vf.opq || len(vf.tg) != 1 {
				continue
			}
			if vf.nil3 == mayNil {
				s.bad(st, "Name", "the rule has no name")
				continue
			}
			is, _ := vf.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			ir := st.load(v)
			for k := 0; is != nil && k < is.NumFields(); k++ {
				if kindOf(is.Field(k).Type()) == KStr && !s.r.ob(st.same(st.elem(ir, k), st.held("lit0"))) {
					s.bad(st, "Name", "the name of the rule is not the text before the assignment")
				}
			}
		case "Value":
			if !s.r.ob(st.f(v).nil3 != mayNil) {
				s.bad(st, "Value", "the rule has no value on a path without a diagnostic")
			}
		}
	}
	s.r.count("rules", 1)
	s.starts(st, node, f.typ, "the rule")
}
