package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C04", Rule: "Abstract interpretation of Scan over an unknown source: for every token returned on every feasible path that is spelled the same every time (operators), the literal is the spelling of the token table, the source bytes at the token's offset are that spelling, and the byte behind it cannot extend it to a longer operator.", Run: checkC04})
	register(&Check{ID: "C05", Rule: "Abstract interpretation of Scan over an unknown source with ghost counters for newlines: for every token on every feasible path Line = newlines before Offset + 1 and Column = Offset - offset of the last newline before it.", Run: checkC05})
	register(&Check{ID: "C06", Rule: "Abstract interpretation of Scan over an unknown source: the literal of every token on every feasible path is the source text at its offset, and no character other than white space lies between the end of a token and the start of the next one.", Run: checkC06})
}

// tokenSpellings is the table of operator and keyword texts after initialisation.
func (w *World) tokenNames() map[int64]string {
	out := map[int64]string{}
	p := w.Pkg("token")
	if p == nil {
		return out
	}
	for _, n := range p.Pkg.Scope().Names() {
		if c, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok && c.Type().String() == RepoPath+"/token.Token" {
			if k, ok := w.constOfPkg("token", n); ok {
				out[k] = n
			}
		}
	}
	return out
}

// opSpelling is what RFC 8610 calls the fixed tokens.
var opSpelling = map[string]string{
	"ASSIGN": "=", "TYPE_CHOICE_ASSIGN": "/=", "GROUP_CHOICE_ASSIGN": "//=", "ARROW_MAP": "=>",
	"INCLUSIVE_BOUND": "..", "EXCLUSIVE_BOUND": "...", "COLON": ":", "COMMA": ",", "PERIOD": ".",
	"LPAREN": "(", "RPAREN": ")", "LBRACE": "{", "RBRACE": "}", "LBRACK": "[", "RBRACK": "]",
	"LEFT_ANGLE_BRACKET": "<", "RIGHT_ANGLE_BRACKET": ">", "TYPE_CHOICE": "/", "GROUP_CHOICE": "//",
	"OPTIONAL": "?", "ONE_OR_MORE": "+", "ZERO_OR_MORE": "*", "MINUS": "-", "HASH": "#", "AMPERSAND": "&", "UNWRAP": "~",
}

// source is the text being scanned as the tokens see it: the array of text cells.
func (st *State) sourceTexts() []V {
	var out []V
	st.heap.each(func(id int, o *Object) {
		if o.root.undef() {
			return
		}
		if f := st.f(o.root); f.kind == KArray && f.text {
			out = append(out, o.root)
		}
	})
	return out
}

// byteAt gives the possible bytes of the scanned text at an index.
func (st *State) byteAt(idx V) (IntSet, bool) {
	best := setRange(0, 255)
	found := false
	for _, root := range st.sourceTexts() {
		for _, m := range st.f(root).memo {
			if st.cmpIdx(m.Idx, idx) == 1 {
				best = best.inter(st.setOf(m.Val))
				found = true
			}
		}
		for _, w := range st.f(root).wide {
			if st.cmpIdx(w.Idx, idx) == 1 {
				best = best.inter(setRange(128, 255))
				found = true
			}
		}
	}
	return best, found
}

// tokArgs takes apart a Token(tok, pos, lit) call.
type tokArgs struct {
	st             *State
	tok            V
	off, line, col V
	lit            V
	toks           []int64
}

func (w *World) tokArgs(c *Call) (*tokArgs, bool) {
	st := c.St
	t := &tokArgs{st: st, tok: c.Args[1], lit: c.Args[3]}
	pt, ok := c.Sig.Params().At(2).Type().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < pt.NumFields(); i++ {
		v := st.elem(c.Args[2], i)
		switch pt.Field(i).Name() {
		case "Offset":
			t.off = v
		case "Line":
			t.line = v
		case "Column":
			t.col = v
		}
	}
	if t.off.undef() || t.line.undef() || t.col.undef() {
		return nil, false
	}
	set := st.setOf(t.tok)
	if debugFlag {
		fmt.Println("DBG tok", st.show(t.tok), st.show(t.off), st.show(t.lit))
	}
	if n := set.count(); n > 0 && n < 200 {
		t.toks = set.elems()
	}
	return t, true
}

func (w *World) tokenName(names map[int64]string, t *tokArgs) string {
	if len(t.toks) == 1 {
		return names[t.toks[0]]
	}
	if len(t.toks) > 1 {
		return fmt.Sprintf("%s or %d other tokens", names[t.toks[0]], len(t.toks)-1)
	}
	return "token"
}

func checkC05(w *World, r *Report) {
	names := w.tokenNames()
	seen := map[string]int{}
	l := w.step(nil, func(c *Call, l *stepRun) {
		st := c.St
		t, ok := w.tokArgs(c)
		if !ok {
			r.undecided("token.Position has no Offset, Line and Column")
			return
		}
		n := w.tokenName(names, t)
		viol := func(con, msg string) {
			r.violation(Finding{Rule: "position", Func: "(*lexer.Lexer).Scan", Pos: l_pos(c), Construct: con, Msg: msg, Trace: st.traceList()})
		}
		_, again := st.ghost(ghostAgain)
		for _, root := range st.sourceTexts() {
			if len(st.f(root).pos) == 0 {
				continue
			}
			p, ok := st.posAt(root, t.off)
			if again {
				// not as precise: what is certainly wrong
				if ok && !r.ob(st.cmpInt(token.EQL, t.line, p.NL.plus(1)) != 0) {
					viol("Line of "+n+" behind another token", fmt.Sprintf("Line is %s where the newlines before the token are %s", st.show(t.line), st.show(p.NL)))
				}
				continue
			}
			if !r.ob(ok) {
				if debugFlag {
					fmt.Println("DBG nopos", n, st.show(t.off), st.showTexts(), st.traceString())
				}
				viol(n+" at an offset where no character starts", "the offset "+st.show(t.off)+" of "+n+" is not where a scanned character starts")
				continue
			}
			if !r.ob(st.cmpInt(token.EQL, t.line, p.NL.plus(1)) == 1) {
				if debugFlag {
					lf := st.f(l.field(st, c.Args[0], "lineOffsets"))
					fmt.Println("DBG line", n, st.show(t.off), st.showTexts(), "len", st.show(lf.ln))
					for _, m := range st.f(st.loadTarget(st.f(lf.arr).tg[0])).memo {
						fmt.Println("   cell", st.show(m.Idx), st.show(m.Val))
					}
					fmt.Println("  pos", st.show(p.NL), st.show(p.LN), st.traceString())
				}
				viol("Line of "+n, fmt.Sprintf("Line is %s where the newlines before the token are %s", st.show(t.line), st.show(p.NL)))
			}
			want := st.subV(t.off, p.LN, intType)
			if !r.ob(st.cmpInt(token.EQL, t.col, want) == 1 || st.sumEq(t.col, p.LN, t.off)) {
				viol("Column of "+n, fmt.Sprintf("Column is %s where offset is %s and the last newline before it is at %s", st.show(t.col), st.show(t.off), st.show(p.LN)))
			}
			seen[n]++
		}
		if again {
			return
		}
		if msg := l.invariant(st, c.Args[0]); !r.ob(msg == "") {
			l.odd = append(l.odd, st)
			r.undecided("after " + n + " the lexer may not be where it should: " + msg)
		}
	})
	for _, st := range l.first {
		if msg := l.invariant(st, l.lexer(st)); !r.ob(msg == "") {
			r.undecided("NewLexer may not stand where it should: " + msg)
		}
	}
	l.report(r)
	tokSamples(r, seen)
}

func tokSamples(r *Report, seen map[string]int) {
	ks := sortedKeys(seen)
	for _, k := range ks {
		r.sample(fmt.Sprintf("%s: %d abstract tokens", k, seen[k]))
	}
	r.count("abstract_tokens_kinds", len(seen))
}

// sumEq decides x + y == z by the definitions of x.
func (st *State) sumEq(x, y, z V) bool {
	f := st.fact(x.S)
	if f == nil || f.def == nil {
		return false
	}
	// x = X - Y + k
	if f.def.Op == token.SUB {
		a, b := f.def.X, f.def.Y
		// X - Y + x.K + y == z
		if st.cmpInt(token.EQL, b, y) == 1 && st.cmpInt(token.EQL, a.plus(x.K), z) == 1 {
			return true
		}
		if b.S == y.S {
			return st.cmpInt(token.EQL, a.plus(x.K+y.K-b.K), z) == 1
		}
	}
	return false
}

func checkC06(w *World, r *Report) {
	names := w.tokenNames()
	seen := map[string]int{}
	l := w.step(nil, func(c *Call, l *stepRun) {
		st := c.St
		t, ok := w.tokArgs(c)
		if !ok {
			r.undecided("token.Position has no Offset, Line and Column")
			return
		}
		n := w.tokenName(names, t)
		seen[n]++
		viol := func(con, msg string) {
			r.violation(Finding{Rule: "literal", Func: "(*lexer.Lexer).Scan", Pos: l_pos(c), Construct: con, Msg: msg, Trace: st.traceList()})
		}
		start, _ := st.ghost(ghostStart)
		for _, root := range st.sourceTexts() {
			if p, ok := st.posAt(root, t.off); ok {
				if !r.ob(st.ub(p.NW, start) <= 0) {
					viol("text skipped before "+n, fmt.Sprintf("between the end %s of a token and the next one at %s there may be characters other than white space (up to %s)", st.show(start), st.show(t.off), st.show(p.NW)))
				}
			}
		}
		end, known, msg := st.tokenEnd(names, t)
		if !r.ob(msg == "") {
			viol("literal of "+n, msg)
			return
		}
		if n == "EOF" || !known {
			return
		}
		off := l.field(st, c.Args[0], "offset")
		ok = st.cmpInt(token.EQL, off, end) == 1
		if n == "TEXT_LITERAL" && !ok && st.cmpInt(token.EQL, off, end.plus(1)) == 1 {
			// the closing quote
			set, have := st.byteAt(end)
			k, one := set.isConst()
			ok = have && one && k == '"'
		}
		if !r.ob(ok) {
			viol("text after "+n, fmt.Sprintf("the token ends at %s but scanning goes on at %s", st.show(end), st.show(off)))
			if debugFlag {
				fmt.Println("DBG after", n, st.ub(off, end), st.ub(end, off), st.show(end), st.show(off), st.show(t.lit), st.showTexts())
			}
		}
	})
	for _, st := range l.first {
		off := l.field(st, l.lexer(st), "offset")
		for _, root := range st.sourceTexts() {
			if p, ok := st.posAt(root, off); !ok {
				r.undecided("what NewLexer skips is not known")
			} else if !r.ob(st.ub(p.NW, C(0)) <= 0) {
				r.violation(Finding{Rule: "literal", Func: "lexer.NewLexer", Construct: "text skipped at the start", Msg: "scanning starts at " + st.show(off) + " and there may be characters other than white space before that (up to " + st.show(p.NW) + ")", Trace: st.traceList()})
			}
		}
	}
	l.report(r)
	tokSamples(r, seen)
}

// verbatim lists the tokens whose literal is their text, and how far from the token's offset it
// starts. Other tokens are spelled by the token table or have a normalised literal.
var verbatim = map[string]int64{"IDENT": 0, "INT": 0, "FLOAT": 0, "COMMENT": 1, "TEXT_LITERAL": 1}

// tokenEnd checks that the literal is the text of the token and finds where the token ends.
// known tells whether the end could be found.
func (st *State) tokenEnd(names map[int64]string, t *tokArgs) (end V, known bool, msg string) {
	name := ""
	if len(t.toks) == 1 {
		name = names[t.toks[0]]
	}
	ps := st.rawParts(t.lit)
	if name == "EOF" {
		if len(ps) != 0 {
			return V{}, false, "the literal of EOF is not empty"
		}
		return t.off, true, ""
	}
	if name == "ILLEGAL" {
		return V{}, false, ""
	}
	shift, exact := verbatim[name]
	at := t.off.plus(shift)
	for _, p := range ps {
		switch p.Kind {
		case 's':
			if st.cmpInt(token.EQL, p.Lo, at) != 1 {
				return V{}, false, fmt.Sprintf("the literal starts at %s, not at %s", st.show(p.Lo), st.show(at))
			}
			at = p.Hi
		case 'c':
			for i := 0; i < len(p.Str); i++ {
				set, ok := st.byteAt(at.plus(int64(i)))
				want := setConst(int64(p.Str[i]))
				if c := p.Str[i]; (name == "INT" || name == "FLOAT") && c >= 'a' && c <= 'z' {
					// the prefix of hexadecimal numbers is written either way
					want = want.union(setConst(int64(c - 32)))
				}
				if ok && p.Str[i] < 128 && set.inter(want).empty() {
					return V{}, false, fmt.Sprintf("the literal has %q where the source has %s", p.Str, set)
				}
			}
			at = at.plus(int64(len(p.Str)))
		case 'r':
			found := false
			for _, root := range st.sourceTexts() {
				for _, w := range st.f(root).wide {
					if !found && st.cmpIdx(w.Idx, at) == 1 && w.R == p.R {
						at = st.addV(at, w.W, intType)
						found = true
					}
				}
				for _, m := range st.f(root).memo {
					if !found && st.cmpIdx(m.Idx, at) == 1 && st.cmpInt(token.EQL, m.Val, p.R) == 1 {
						at = at.plus(1)
						found = true
					}
				}
			}
			if !found {
				return V{}, false, ""
			}
		default:
			if exact && name != "INT" && name != "FLOAT" {
				return V{}, false, "the literal is not taken from the source: " + st.show(t.lit)
			}
			return V{}, false, ""
		}
	}
	return at, true, ""
}

func checkC04(w *World, r *Report) {
	names := w.tokenNames()
	seen := map[string]int{}
	l := w.step(nil, func(c *Call, l *stepRun) {
		st := c.St
		t, ok := w.tokArgs(c)
		if !ok {
			r.undecided("token.Position has no Offset, Line and Column")
			return
		}
		for _, k := range t.toks {
			name := names[k]
			want, ok := opSpelling[name]
			if !ok {
				continue
			}
			seen[name]++
			viol := func(con, msg string) {
				r.violation(Finding{Rule: "operators", Func: "(*lexer.Lexer).Scan", Construct: con, Msg: msg, Trace: st.traceList()})
			}
			lit, ok := st.litConst(t.lit)
			if !r.ob(ok && lit == want) {
				viol("literal of "+name, "the literal of "+name+" may be "+st.show(t.lit))
				continue
			}
			for i := 0; i < len(want); i++ {
				set, ok := st.byteAt(t.off.plus(int64(i)))
				b, one := set.isConst()
				if !r.ob(ok && one && b == int64(want[i])) {
					if debugFlag {
						fmt.Println("DBG cells at", st.show(t.off), st.showTexts(), st.traceString())
					}
					viol("text of "+name, fmt.Sprintf("byte %d of the text %s is found at may be %s", i, name, set))
				}
			}
			// longest match
			for _, o := range opSpelling {
				if len(o) == len(want)+1 && o[:len(want)] == want {
					set, ok := st.byteAt(t.off.plus(int64(len(want))))
					if !r.ob(ok && !set.has(int64(o[len(want)]))) {
						if st.atEnd(t.off.plus(int64(len(want)))) {
							continue
						}
						if debugFlag {
							fmt.Println("DBG cells at", st.show(t.off), ok, set, st.showTexts())
						}
						viol("longest match of "+name, fmt.Sprintf("%q may be returned as %s although %q follows", o, name, o[len(want)]))
					}
				}
			}
		}
	})
	if !l.report(r) {
		return
	}
	var missing []string
	for n := range opSpelling {
		if _, ok := w.constOfPkg("token", n); ok && seen[n] == 0 {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	for _, n := range missing {
		r.ob(false)
		r.violation(Finding{Rule: "operators", Func: "(*lexer.Lexer).Scan", Construct: "no path returns " + n, Msg: fmt.Sprintf("%q is never returned as %s", opSpelling[n], n)})
	}
	tokSamples(r, seen)
}

// atEnd tells whether idx is known to be behind the text.
func (st *State) atEnd(idx V) bool {
	for _, root := range st.sourceTexts() {
		f := st.f(root)
		if !f.ln.undef() && st.ub(f.ln, idx) > 0 {
			return false
		}
	}
	return true
}

// byToken keeps different tokens apart.
func byToken(a *Analyzer) {
	a.KeyTypes = map[string]bool{RepoPath + "/token.Token": true}
	a.KeyStrings = true
	a.MaxKeys, a.MaxOuts = 600, 600
	a.KeyExtra = runeClasses
}

// runeClasses keeps apart whether runes at hand are ASCII, wider, or the end mark.
func runeClasses(st *State, fn *ssa.Function) string {
	var b strings.Builder
	b.WriteString(runeEnd(st, fn))
	class := func(i int, v V) {
		set := st.setOf(v)
		switch {
		case set.empty() || v.S == zeroSym:
		case set.max() < 0:
			fmt.Fprintf(&b, "E%d", i)
		case set.min() >= 0 && set.max() < 128:
			fmt.Fprintf(&b, "A%d", i)
		case set.min() >= 128:
			fmt.Fprintf(&b, "W%d", i)
		}
	}
	frame := func(f *Frame) {
		fi := st.a.info(f.fn)
		for _, k := range fi.runeRegs() {
			if v, ok := f.regs.get(k); ok {
				class(k, v)
			}
		}
	}
	if st.top != nil {
		frame(st.top)
	}
	for s := st.stack; s != nil; s = s.next {
		if s.f != nil {
			frame(s.f)
		}
	}
	st.heap.each(func(id int, o *Object) {
		if o.typ == nil || o.site == "global" || o.root.undef() {
			return
		}
		s, ok := o.typ.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i, e := range st.f(o.root).elems {
			if !e.undef() && i < s.NumFields() {
				if bt, ok := s.Field(i).Type().(*types.Basic); ok && bt.Kind() == types.Int32 {
					b.WriteByte('.')
					class(i, e)
					if k, ok := st.constOf(e); ok {
						fmt.Fprintf(&b, "=%d", k)
					}
				}
			}
		}
	})
	return b.String()
}

// runeRegs lists the registers that hold runes.
func (fi *fnInfo) runeRegs() []int {
	if fi.rregs == nil {
		fi.rregs = []int{}
		for v, k := range fi.idx {
			if bt, ok := v.Type().(*types.Basic); ok && bt.Kind() == types.Int32 {
				fi.rregs = append(fi.rregs, k)
			}
		}
		sort.Ints(fi.rregs)
	}
	return fi.rregs
}

// litConst is the text of a string that is the same on every path.
func (st *State) litConst(v V) (string, bool) {
	if s, ok := st.constStr(v); ok {
		return s, true
	}
	out := ""
	for _, p := range st.strParts(v) {
		switch p.Kind {
		case 'c':
			out += p.Str
		case 'r':
			k, ok := st.constOf(p.R)
			if !ok {
				return "", false
			}
			out += string(rune(k))
		default:
			return "", false
		}
	}
	return out, true
}

func (st *State) showTexts() string {
	s := ""
	for _, root := range st.sourceTexts() {
		s += "["
		for _, m := range st.f(root).pos {
			s += "pos " + st.show(m.Idx) + " "
		}
		for _, m := range st.f(root).memo {
			s += st.show(m.Idx) + "=" + st.show(m.Val) + " "
		}
		for _, m := range st.f(root).wide {
			s += st.show(m.Idx) + "~" + st.show(m.R) + " "
		}
		s += "]"
	}
	return s
}
