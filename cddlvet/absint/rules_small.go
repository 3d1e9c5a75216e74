package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C13", Rule: "Abstract interpretation of Exists, Get and Add for two different unknown names on an environment with unknown contents: on every feasible path Add succeeds iff the name was absent, then Get yields the value added; a refused Add returns ErrSymbolExists; nothing else changes. A new environment is empty and shares nothing with another one.", Run: checkC13})
	register(&Check{ID: "C18", Rule: "Abstract interpretation of package token's initialiser, then of Lookup on an unknown string and of String and IsControlOp on every token constant: the strings that Lookup answers with a token other than IDENT are exactly CDDL's words and the control operators, each with its own token; every token has a spelling of its own. On every path of Scan that starts an identifier the token is the one Lookup has for its text.", Run: checkC18})
	register(&Check{ID: "C34", Rule: "Abstract interpretation of the generator package's initialiser, then of Options.Valid with an unknown case conversion: the paths that return nil are exactly those on which the conversion is one of the registered ones.", Run: checkC34})
	register(&Check{ID: "C35", Rule: "Case analysis by abstract interpretation of every instantiation of the validators: for each order type of value and bounds (13 weak orders, 12 more with NaN for floats) the comparison results are given symbolically and the returned value must be the documented one on every path.", Run: checkC35})
}

// ---- C13 ----

func checkC13(w *World, r *Report) {
	a := w.newAnalyzer()
	var want V
	viol := func(con, msg string, st *State) {
		r.violationAt(st, Finding{Rule: "environment", Func: "(*environment.Environment).Add", Construct: con, Msg: msg})
	}
	seen := map[string]int{}
	before := map[int]bool{}
	a.Models[HarnessPath+".EnvBefore"] = func(c *Call) []Outcome {
		st := c.St
		// any earlier additions: the contents are unknown
		n := 0
		st.heap.each(func(id int, o *Object) {
			if o.site == "global" || o.root.undef() || before[id] {
				return
			}
			if f := st.f(o.root); f.kind == KMapC {
				nf := &Fact{kind: KMapC, typ: f.typ, rest: mayNon, ln: st.freshLen()}
				st.setRoot(id, st.fresh(nf))
				n++
			}
		})
		if n != 1 {
			a.fail("the environment is not one map")
		}
		return c.one(V{})
	}
	names := []string{"had", "has", "ohad", "ohas", "old", "now", "oold", "onow", "v", "err"}
	a.Models[HarnessPath+".EnvAfter"] = func(c *Call) []Outcome {
		st := c.St
		g := map[string]V{}
		for i, n := range names {
			g[n] = c.Args[i]
		}
		k := func(n string) int64 {
			if x, ok := st.constOf(g[n]); ok {
				return x
			}
			return -1
		}
		same := func(x, y string) bool {
			return g[x] == g[y] || st.equalV(g[x], g[y], c.Sig.Params().At(4).Type(), c.Sig.Params().At(4).Type()) == 1
		}
		isNil := func(n string) bool { return st.f(g[n]).nil3 == mayNil }
		seen[fmt.Sprintf("name present before: %d, other name present: %d", k("had"), k("ohad"))]++
		if !r.ob(k("had") >= 0 && k("ohad") >= 0) {
			r.undecided("whether the name was present is not known")
			return nil
		}
		if k("had") == 0 {
			if !r.ob(isNil("err")) {
				viol("adding an absent name", "Add of an absent name may return an error", st)
			}
			if !r.ob(k("has") == 1) {
				viol("adding an absent name", "after Add the name may not exist", st)
			}
			if !r.ob(same("now", "v")) {
				viol("looking up an added name", "after Add, Get may return something other than the value added", st)
			}
			if !r.ob(isNil("old")) {
				viol("looking up an absent name", "Get of an absent name may return something", st)
			}
		} else {
			if !r.ob(st.f(g["err"]).nil3 == mayNon && st.sameErr(g["err"], want)) {
				viol("adding a present name", "Add of a present name may return something other than ErrSymbolExists", st)
			}
			if !r.ob(k("has") == 1 && same("now", "old")) {
				viol("adding a present name", "a refused Add may change what the name stands for", st)
			}
		}
		if !r.ob(k("ohas") == k("ohad") && same("onow", "oold")) {
			viol("another name", "Add may change another name", st)
		}
		return c.one(V{})
	}
	err := a.Try(func() {
		st := w.initState(a, "environment")
		outs := a.Run(st, w.Harness("EnvErr"), nil)
		if len(outs) != 1 || outs[0].Panic {
			a.fail("ErrSymbolExists is not known")
		}
		st, want = outs[0].St, outs[0].Ret
		st.heap.each(func(id int, o *Object) { before[id] = true })
		run := func(n string, s *State) []Outcome {
			fn := w.Harness(n)
			args := make([]V, len(fn.Params))
			for i, p := range fn.Params {
				args[i] = s.havocV(p.Type())
				if kindOf(p.Type()) == KStr {
					// different names
					nf := s.f(args[i]).clone()
					nf.tag = p.Name()
					s.setFact(args[i].S, nf)
				}
			}
			return a.Run(s, fn, args)
		}
		for _, o := range run("EnvDrive", st.clone()) {
			if !r.ob(!o.Panic) {
				viol("panic", "an operation on an environment may panic: "+o.St.panicMsg, o.St)
			}
		}
		for _, h := range []string{"EnvFresh", "EnvTwo"} {
			for _, o := range run(h, st.clone()) {
				ok := !o.Panic
				if ok {
					k, one := o.St.constOf(o.Ret)
					ok = one && k == 0
				}
				if !r.ob(ok) {
					viol("a new environment", "a new environment may hold a name nothing was added for", o.St)
				}
			}
		}
	})
	r.addAnalyzer(w, a)
	if err != nil {
		r.undecided("analysis of the environment gave up: " + err.Error())
		return
	}
	tokSamples(r, seen)
}

// sameErr tells whether two error values are the same one.
func (st *State) sameErr(x, y V) bool {
	if x == y {
		return true
	}
	fx, fy := st.f(x), st.f(y)
	if fx.kind == KIface && fy.kind == KIface && len(fx.alts) == 1 && len(fy.alts) == 1 && !fx.opq && !fy.opq {
		return fx.alts[0].P == fy.alts[0].P
	}
	return fx.tag != "" && fx.tag == fy.tag
}

// ---- C18 ----

var cddlWords = map[string]string{
	"any": "ANY", "bool": "BOOL", "bstr": "BSTR", "bytes": "BYTES", "false": "FALSE", "float": "FLOAT",
	"float16": "FLOAT16", "float32": "FLOAT32", "float64": "FLOAT64", "int": "INT", "nil": "NIL", "nint": "NINT",
	"null": "NULL", "text": "TEXT", "true": "TRUE", "tstr": "TSTR", "uint": "UINT",
}

var cddlControls = map[string]string{
	".size": "SIZE", ".bits": "BITS", ".regexp": "REGEXP", ".cbor": "CBOR", ".cborseq": "CBORSEQ", ".within": "WITHIN",
	".and": "AND", ".lt": "LT", ".le": "LE", ".gt": "GT", ".ge": "GE", ".eq": "EQ", ".ne": "NE", ".default": "DEFAULT",
	".plus": "PLUS", ".cat": "CAT", ".det": "DET", ".abnf": "ABNF", ".abnfb": "ABNFB", ".feature": "FEATURE",
}

func checkC18(w *World, r *Report) {
	a := w.newAnalyzer()
	a.MaxSplit = 400
	viol := func(fn, con, msg string) {
		r.violation(Finding{Rule: "keywords", Func: fn, Construct: con, Msg: msg})
	}
	names := w.tokenNames()
	vals := map[string]int64{}
	for k, n := range names {
		vals[n] = k
	}
	ident, ok := vals["IDENT"]
	if !ok {
		r.undecided("no token IDENT")
		return
	}
	words := map[string]int64{}
	err := a.Try(func() {
		st := w.initState(a, "token")
		// the spelling of every token
		spell := map[string]string{}
		var ks []int64
		for k := range names {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		control := map[string]bool{}
		for _, k := range ks {
			if !token.IsExported(names[k]) {
				continue // a marker, not a token
			}
			for _, o := range a.Run(st.clone(), w.Harness("TokString"), []V{C(k)}) {
				s, ok := "", false
				if !o.Panic {
					s, ok = o.St.litConst(o.Ret)
				}
				if !o.Panic && !ok {
					if ps := o.St.rawParts(o.Ret); len(ps) > 0 {
						// a number instead of a name
						s, ok = "", true
					}
				}
				if !r.ob(ok && strings.Trim(s, "0123456789") != "") {
					viol("(token.Token).String", "spelling of "+names[k], names[k]+" has no spelling")
					continue
				}
				if other, dup := spell[s]; !r.ob(!dup || other == names[k]) {
					viol("(token.Token).String", "spelling of "+names[k], fmt.Sprintf("%s and %s are both spelled %q", other, names[k], s))
				}
				spell[s] = names[k]
			}
			for _, o := range a.Run(st.clone(), w.Harness("TokControl"), []V{C(k)}) {
				if c, ok := o.St.constOf(o.Ret); !o.Panic && ok && c == 1 {
					control[names[k]] = true
				}
			}
		}
		want := map[string]string{}
		for s, n := range cddlWords {
			want[s] = n
		}
		for s, n := range cddlControls {
			want[s] = n
		}
		for s, n := range want {
			if _, ok := vals[n]; !r.ob(ok) {
				viol("token", "token "+n, "no token "+n+" for "+s)
			}
		}
		for _, s := range sortedKeys(want) {
			n := want[s]
			if got := spell[s]; !r.ob(got == n) {
				viol("(token.Token).String", "spelling of "+n, fmt.Sprintf("%q is the spelling of %q, not of %s", s, got, n))
			}
			if isC := strings.HasPrefix(s, "."); !r.ob(isC == control[n]) {
				viol("(token.Token).IsControlOp", "class of "+n, fmt.Sprintf("IsControlOp(%s) is %v", n, control[n]))
			}
		}
		for n := range control {
			if _, ok := cddlControls[spellOf(spell, n)]; !r.ob(ok) {
				viol("(token.Token).IsControlOp", "class of "+n, n+" is no control operator")
			}
		}
		// what Lookup answers: for the words of the language, for everything that is a
		// string in this package and for near misses one by one, for all others at once
		got := map[string]int64{}
		known := map[string]bool{}
		for s := range want {
			known[s] = true
		}
		for s := range spell {
			known[s] = true
		}
		for _, fn := range w.pkgFuncs("token") {
			for _, s := range stringConsts(fn) {
				known[s] = true
			}
		}
		st.heap.each(func(id int, o *Object) {
			if o.root.undef() {
				return
			}
			if f := st.f(o.root); f.kind == KMapC {
				for _, e := range f.ents {
					if k, ok := st.constStr(e.Key); ok {
						known[k] = true
					}
				}
			}
		})
		for _, s := range sortedKeys(known) {
			for _, v := range []string{strings.ToUpper(s), strings.ToLower(s), strings.Title(s), s + " ", " " + s, s + "x", "." + s, strings.TrimPrefix(s, "."), s + "s", "$" + s, s + "-", s + "1"} {
				known[v] = true
			}
		}
		answer := func(arg V, s *State) int64 {
			ans := int64(-1)
			for _, o := range a.Run(s, w.Harness("TokLookup"), []V{arg}) {
				if !r.ob(!o.Panic) {
					viol("token.Lookup", "panic", "Lookup may panic: "+o.St.panicMsg)
					continue
				}
				k, one := o.St.constOf(o.Ret)
				if !one || ans >= 0 && ans != k {
					return -2
				}
				ans = k
			}
			return ans
		}
		var ks2 []string
		for _, s := range sortedKeys(known) {
			got[s] = answer(a.strConst(s), st.clone())
			if got[s] < 0 {
				r.undecided("what Lookup answers for " + s + " is not known")
				got[s] = ident
				if n, ok := want[s]; ok {
					got[s] = vals[n]
				}
			}
			ks2 = append(ks2, s)
		}
		s := st.clone()
		arg := s.havocStr()
		nf := s.f(arg).clone()
		nf.strNe = ks2
		s.setFact(arg.S, nf)
		rest := answer(arg, s) == ident
		if !rest {
			r.undecided("Lookup is not shown to answer IDENT for all other strings")
		}
		for _, s := range sortedKeys(got) {
			n, ok := want[s]
			if r.ob(got[s] == ident) && !ok {
				continue
			}
			if !r.ob(ok) {
				viol("token.Lookup", "word "+s, fmt.Sprintf("%q is not a word of the language but lexes as %s", s, names[got[s]]))
				continue
			}
			if !r.ob(names[got[s]] == n) {
				viol("token.Lookup", "word "+s, fmt.Sprintf("%q lexes as %s, not as %s", s, names[got[s]], n))
			}
			words[s] = got[s]
		}
		for _, s := range sortedKeys(want) {
			if _, ok := got[s]; !r.ob(ok) {
				viol("token.Lookup", "word "+s, fmt.Sprintf("%q lexes as an identifier, not as %s", s, want[s]))
			}
		}
		r.sample(fmt.Sprintf("%d tokens spelled, %d words looked up", len(ks), len(got)))
	})
	r.addAnalyzer(w, a)
	if err != nil {
		r.undecided("analysis of the token tables gave up: " + err.Error())
		return
	}
	// Scan uses the table for every identifier
	seen := map[string]int{}
	l := w.step(nil, func(c *Call, l *stepRun) {
		st := c.St
		t, ok := w.tokArgs(c)
		if !ok || len(t.toks) != 1 {
			return
		}
		n := names[t.toks[0]]
		if n == "IDENT" {
			f := st.f(t.lit)
			for _, s := range sortedKeys(cddlWords) {
				if !r.ob(!identMayBe(st, t.lit, f, s)) {
					viol("(*lexer.Lexer).Scan", "IDENT for "+s, fmt.Sprintf("the word %q may be returned as an identifier", s))
				}
			}
			seen[n]++
			return
		}
		s := spellOf(cddlWords, n)
		if s == "" {
			s = spellOf(cddlControls, n)
		}
		if s == "" || n == "INT" || n == "FLOAT" {
			return
		}
		seen[n]++
		lit, ok := st.litConst(t.lit)
		if !r.ob(ok && lit == s) {
			viol("(*lexer.Lexer).Scan", "literal of "+n, fmt.Sprintf("%s may be returned for %s instead of %q", n, st.show(t.lit), s))
		}
	})
	if l.report(r) {
		for s, n := range cddlWords {
			if _, ok := vals[n]; ok && !r.ob(seen[n] > 0 || n == "INT" || n == "FLOAT") {
				viol("(*lexer.Lexer).Scan", "word "+s, fmt.Sprintf("%q is never returned as %s", s, n))
			}
		}
		for s, n := range cddlControls {
			if _, ok := vals[n]; ok && !r.ob(seen[n] > 0) {
				viol("(*lexer.Lexer).Scan", "word "+s, fmt.Sprintf("%q is never returned as %s", s, n))
			}
		}
	}
	tokSamples(r, seen)
}

func identMayBe(st *State, lit V, f *Fact, s string) bool {
	if c, ok := st.constStr(lit); ok {
		return c == s
	}
	for _, n := range f.strNe {
		if n == s {
			return false
		}
	}
	return st.strEq(lit, st.a.strConst(s)) != 0
}

func spellOf(m map[string]string, name string) string {
	for s, n := range m {
		if n == name {
			return s
		}
	}
	return ""
}

// ---- C34 ----

func checkC34(w *World, r *Report) {
	a := w.newAnalyzer()
	want := map[string]bool{"camelcase": true, "snakecase": true}
	viol := func(st *State, con, msg string) {
		r.violationAt(st, Finding{Rule: "options", Func: "(golang.Options).Valid", Construct: con, Msg: msg})
	}
	err := a.Try(func() {
		st := w.initState(a, "token", "ast", "transforms/codegen/golang")
		fn := w.Harness("OptValid")
		ot := fn.Params[0].Type()
		s, ok := ot.Underlying().(*types.Struct)
		if !ok {
			a.fail("Options is not a struct")
		}
		fi := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "CaseConversion" {
				fi = i
			}
		}
		if fi < 0 {
			a.fail("Options has no CaseConversion")
		}
		// every word one by one, then all other strings at once
		known := map[string]bool{}
		for x := range want {
			known[x] = true
		}
		for _, f := range w.pkgFuncs("transforms/codegen/golang") {
			for _, x := range stringConsts(f) {
				known[x] = true
			}
		}
		for _, x := range sortedKeys(known) {
			for _, v := range []string{strings.ToUpper(x), strings.ToLower(x), strings.Title(x), x + " ", " " + x, x + "x", ""} {
				known[v] = true
			}
		}
		words := sortedKeys(known)
		run := func(s0 *State, val V, what string, good bool) {
			opt := s0.withElem(s0.havocV(ot), fi, val)
			for _, o := range a.Run(s0, fn, []V{opt}) {
				if !r.ob(!o.Panic) {
					viol(o.St, "panic", "Valid may panic: "+o.St.panicMsg)
					continue
				}
				n := o.St.f(o.Ret).nil3
				if good && !r.ob(n == mayNil) {
					viol(o.St, "refused "+what, "Valid may refuse the registered case conversion "+what)
				}
				if !good && !r.ob(n == mayNon) {
					viol(o.St, "accepted "+what, "Valid may accept "+what+", for which there is no converter")
				}
			}
		}
		for _, x := range words {
			run(st.clone(), a.strConst(x), fmt.Sprintf("%q", x), want[x])
		}
		s1 := st.clone()
		v := s1.havocStr()
		nf := s1.f(v).clone()
		nf.strNe = words
		s1.setFact(v.S, nf)
		run(s1, v, "another word", false)
	})
	r.addAnalyzer(w, a)
	if err != nil {
		r.undecided("analysis of the generator options gave up: " + err.Error())
	}
}

// ---- C35 ----

const rankNaN = -1

func checkC35(w *World, r *Report) {
	p := w.Pkg("runtime/validators")
	if p == nil {
		r.undecided("no package runtime/validators")
		return
	}
	fnames := []string{"InExclusiveRange", "InInclusiveRange", "IsLessThan", "IsGreaterThan"}
	expect := []func(v, l, u int) bool{
		func(v, l, u int) bool { return v != rankNaN && l != rankNaN && u != rankNaN && l < v && v < u },
		func(v, l, u int) bool { return v != rankNaN && l != rankNaN && u != rankNaN && l <= v && v <= u },
		func(v, l, u int) bool { return v != rankNaN && u != rankNaN && v < u },
		func(v, l, u int) bool { return v != rankNaN && l != rankNaN && v > l },
	}
	var orders [][3]int
	for v := 0; v < 3; v++ {
		for l := 0; l < 3; l++ {
			for u := 0; u < 3; u++ {
				// ranks without gaps
				used := map[int]bool{v: true, l: true, u: true}
				gap := false
				for i := 0; i < 3; i++ {
					if used[i] && i > 0 && !used[i-1] {
						gap = true
					}
				}
				if !gap {
					orders = append(orders, [3]int{v, l, u})
				}
			}
		}
	}
	nInt := len(orders)
	for v := rankNaN; v < 2; v++ {
		for l := rankNaN; l < 2; l++ {
			for u := rankNaN; u < 2; u++ {
				if v == rankNaN || l == rankNaN || u == rankNaN {
					orders = append(orders, [3]int{v, l, u})
				}
			}
		}
	}
	show := func(o [3]int) string {
		n := func(i int) string {
			if o[i] == rankNaN {
				return "NaN"
			}
			return fmt.Sprint(o[i])
		}
		return fmt.Sprintf("value, lower and upper ranked %s, %s, %s", n(0), n(1), n(2))
	}
	cases := 0
	for _, hn := range []string{"ValInt", "ValInt8", "ValInt16", "ValInt32", "ValInt64", "ValUint", "ValUint8", "ValUint16", "ValUint32", "ValUint64", "ValUintptr", "ValFloat32", "ValFloat64", "ValNamedInt", "ValNamedFlt"} {
		fn := w.Harness(hn)
		ty := fn.Params[0].Type()
		isFloat := kindOf(ty) == KFloat
		os := orders
		if !isFloat {
			os = orders[:nInt]
		}
		for _, o := range os {
			o := o
			a := w.newAnalyzer()
			rank := map[Sym]int{}
			a.FloatCmp = func(x *activation, st *State, t *ssa.BinOp, p, q V) ([]*State, bool) {
				rp, ok := rank[p.S]
				rq, ok2 := rank[q.S]
				if !ok || !ok2 || p.K != 0 || q.K != 0 {
					return nil, false
				}
				res := int64(0)
				nan := rp == rankNaN || rq == rankNaN
				var b bool
				switch t.Op {
				case token.LSS:
					b = !nan && rp < rq
				case token.LEQ:
					b = !nan && rp <= rq
				case token.GTR:
					b = !nan && rp > rq
				case token.GEQ:
					b = !nan && rp >= rq
				case token.EQL:
					b = !nan && rp == rq
				case token.NEQ:
					b = nan || rp != rq
				default:
					return nil, false
				}
				if b {
					res = 1
				}
				st = st.clone()
				return []*State{x.set(st, t, C(res))}, true
			}
			done := map[int64]int{}
			a.Models[HarnessPath+".Ord"] = func(c *Call) []Outcome {
				what, _ := c.St.constOf(c.Args[0])
				done[what]++
				cases++
				want := expect[what](o[0], o[1], o[2])
				k, ok := c.St.constOf(c.Args[1])
				if !r.ob(ok && (k == 1) == want) {
					got := "true or false"
					if ok {
						got = fmt.Sprint(k == 1)
					}
					r.violationAt(c.St, Finding{Rule: "validators", Func: "validators." + fnames[what], Construct: "result for " + map[bool]string{true: "floats", false: "integers"}[isFloat], Msg: fmt.Sprintf("%s of type %s returns %s, not %v, with %s", fnames[what], ty, got, want, show(o))})
				}
				return c.one(V{})
			}
			err := a.Try(func() {
				st := w.initState(a)
				args := make([]V, 3)
				for i := range args {
					if isFloat {
						args[i] = st.fresh(&Fact{kind: KFloat, typ: ty})
						rank[args[i].S] = o[i]
					} else {
						args[i] = st.fresh(&Fact{kind: KInt, typ: ty, set: typeRange(ty), z: true})
					}
				}
				if !isFloat {
					for i := range args {
						for j := range args {
							switch {
							case o[i] < o[j]:
								st.addLE(args[i], args[j], -1)
							case o[i] == o[j]:
								st.assumeEq(args[i], args[j])
							}
						}
					}
				}
				for _, out := range a.Run(st, fn, args) {
					if !r.ob(!out.Panic) {
						r.violation(Finding{Rule: "validators", Func: "validators", Construct: "panic", Msg: "a validator may panic: " + out.St.panicMsg})
					}
				}
			})
			r.addAnalyzer(w, a)
			if err != nil {
				r.undecided("analysis of the validators gave up: " + err.Error())
				return
			}
			for i := range fnames {
				if done[int64(i)] == 0 {
					r.undecided(fnames[i] + " was not reached")
				}
			}
		}
	}
	r.count("cases", cases)
	r.sample(fmt.Sprintf("%d order types for integers, %d for floats, 15 types, 4 functions", nInt, len(orders)))
	// MustBool and MustNotErr
	for _, h := range []string{"ValMustBool", "ValMustNotErr"} {
		a := w.newAnalyzer()
		err := a.Try(func() {
			fn := w.Harness(h)
			for good := 0; good < 2; good++ {
				st := w.initState(a)
				arg := st.havocV(fn.Params[0].Type())
				if h == "ValMustBool" {
					arg = C(int64(good))
				} else {
					st.assumeNil(arg, good == 1)
				}
				n := 0
				for _, o := range a.Run(st, fn, []V{arg}) {
					n++
					if !r.ob(o.Panic == (good == 0)) {
						what := map[bool]string{true: "panics although it should return", false: "returns although it should panic"}[o.Panic]
						r.violation(Finding{Rule: "validators", Func: "validators." + h[3:], Construct: "result", Msg: h[3:] + " " + what})
					}
				}
				if !r.ob(n > 0) {
					r.undecided(h + " has no outcome")
				}
			}
		})
		r.addAnalyzer(w, a)
		if err != nil {
			r.undecided("analysis of " + h + " gave up: " + err.Error())
		}
	}
}
