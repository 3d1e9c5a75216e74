package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// variadic lists the values of a slice of known length.
func (st *State) variadic(v V) ([]V, bool) {
	f := st.f(v)
	if f.arr.undef() || f.nil3 == mayNil {
		return nil, true
	}
	n, ok := st.constOf(orC(f.ln))
	if !ok || n > 64 {
		return nil, false
	}
	af := st.f(f.arr)
	if len(af.tg) != 1 || af.opq {
		return nil, false
	}
	out := make([]V, n)
	for i := range out {
		root := st.loadTarget(st.f(f.arr).tg[0])
		out[i] = st.arrGet(root, orC(f.lo).plus(int64(i)))
		if out[i].undef() {
			return nil, false
		}
	}
	return out, true
}

// freshStr is a string of which only a lower bound of the length is known.
func (st *State) freshStr(min int64) V {
	ln := st.freshInt(intType, setRange(min, maxLen))
	return st.fresh(&Fact{kind: KStr, typ: types.Typ[types.String], ln: ln})
}

// provStr is the text op makes of vs: the same symbol each time, when Prov is set.
func (st *State) provStr(op string, min int64, vs ...V) V {
	a := st.a
	if !a.Prov {
		return st.freshStr(min)
	}
	if op == "quote" && len(vs) == 1 {
		if s, ok := st.constStr(vs[0]); ok {
			return a.strConst(strconv.Quote(s))
		}
	}
	k := fmt.Sprint(op, vs)
	if v, ok := a.prov[k]; ok {
		return v
	}
	ln := a.gfact(&Fact{kind: KInt, typ: intType, set: setRange(min, maxLen)})
	v := a.gfact(&Fact{kind: KStr, typ: types.Typ[types.String], ln: ln})
	if a.prov == nil {
		a.prov, a.provOf = map[string]V{}, map[Sym]provRec{}
	}
	a.prov[k] = v
	a.provOf[v.S] = provRec{op, vs}
	return v
}

// provRec tells how a text was made.
type provRec struct {
	op   string
	args []V
}

// printed is the text of an operand of a formatting function.
func (st *State) printed(v V, verb byte) []Part {
	f := st.f(v)
	if f.kind == KIface {
		if f.opq || len(f.alts) != 1 || f.nil3 != mayNon {
			return []Part{{Kind: 'u', U: st.freshStr(0)}}
		}
		if hasStringMethod(f.alts[0].T) {
			return []Part{{Kind: 'u', U: st.freshStr(0)}}
		}
		return st.printed(f.alts[0].P, verb)
	}
	switch f.kind {
	case KStr:
		if verb == 's' || verb == 'v' {
			if len(st.strParts(v)) == 0 {
				return nil
			}
			return st.rawParts(v)
		}
		if verb == 'q' {
			return []Part{{Kind: 'u', U: st.provStr("quote", 2, v)}}
		}
	case KFloat:
		switch verb {
		case 'v', 'g':
			return []Part{{Kind: 'u', U: st.provStr("float", 1, v, C('g'), C(-1), C(64))}}
		case 'f', 'e':
			return []Part{{Kind: 'u', U: st.provStr("float", 1, v, C(int64(verb)), C(6), C(64))}}
		}
	case KBool:
		if verb == 'v' || verb == 't' {
			return []Part{{Kind: 'u', U: st.provStr("bool", 4, v)}}
		}
	case KInt:
		if verb == 'd' || verb == 'v' {
			return []Part{{Kind: 'u', U: st.provStr("int", 1, v, C(10))}}
		}
		if verb == 'c' {
			return []Part{{Kind: 'r', R: v}}
		}
	}
	return []Part{{Kind: 'u', U: st.freshStr(0)}}
}

func hasStringMethod(t types.Type) bool {
	for _, n := range []string{"Error", "String"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func (c *Call) sprintf(format V, args V) V {
	st := c.St
	s, ok := st.constStr(format)
	vals, ok2 := st.variadic(args)
	if !ok {
		return st.freshStr(0)
	}
	var ps []Part
	lit := func(x string) { ps = append(ps, Part{Kind: 'c', Str: x}) }
	n := 0
	for i := 0; i < len(s); i++ {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			lit(s[i:])
			break
		}
		lit(s[i : i+j])
		i += j + 1
		if i >= len(s) {
			lit("%!(NOVERB)")
			break
		}
		if s[i] == '%' {
			lit("%")
			continue
		}
		k := i
		for k < len(s) && strings.IndexByte("+-# 0123456789.", s[k]) >= 0 {
			k++
		}
		if k >= len(s) || s[k] == '*' || s[k] == '[' {
			return st.freshStr(0)
		}
		if !ok2 || n >= len(vals) {
			ps = append(ps, Part{Kind: 'u', U: st.freshStr(0)})
		} else if k != i {
			ps = append(ps, Part{Kind: 'u', U: st.freshStr(0)})
		} else {
			ps = append(ps, st.printed(vals[n], s[k])...)
		}
		n++
		i = k
	}
	return st.strFromParts(ps)
}

func (c *Call) print(text V) {
	if c.A.OnText != nil {
		c.A.OnText(c, text)
	}
}

func (c *Call) newError(msg V) V {
	return c.St.NonNil(c.St.havocV(c.Sig.Results().At(0).Type()))
}

func init() {
	reg(func(c *Call) []Outcome { return c.one(c.sprintf(c.Args[0], c.Args[1])) }, "fmt.Sprintf")
	reg(func(c *Call) []Outcome {
		st := c.St
		vals, ok := st.variadic(c.Args[0])
		if !ok {
			return c.one(st.freshStr(0))
		}
		var ps []Part
		for i, v := range vals {
			f := st.f(v)
			if f.kind == KIface && (f.opq || len(f.alts) != 1 || f.nil3 != mayNon) {
				return c.one(st.freshStr(0))
			}
			if i > 0 && kindOf(f.alts[0].T) != KStr {
				if p := st.f(vals[i-1]); kindOf(p.alts[0].T) != KStr {
					ps = append(ps, Part{Kind: 'c', Str: " "})
				}
			}
			ps = append(ps, st.printed(v, 'v')...)
		}
		return c.one(st.strFromParts(ps))
	}, "fmt.Sprint")
	reg(func(c *Call) []Outcome { return c.one(c.St.freshStr(1)) }, "fmt.Sprintln")
	reg(func(c *Call) []Outcome { return c.one(c.newError(V{})) }, "fmt.Errorf", "errors.New")
	reg(func(c *Call) []Outcome {
		c.print(c.sprintf(c.Args[0], c.Args[1]))
		return pure(c)
	}, "fmt.Printf")
	reg(func(c *Call) []Outcome { c.print(V{}); return pure(c) }, "fmt.Println", "fmt.Print")
	reg(pure, "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "fmt.Fscan", "fmt.Fscanln")
	reg(pure, "log.Println", "log.Printf", "log.Print", "(*log.Logger).Println", "(*log.Logger).Printf")
	reg(func(c *Call) []Outcome { return nil }, "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit")

	boolOf := func(f func(x, y string) bool) Model {
		return func(c *Call) []Outcome {
			x, ok := c.St.constStr(c.Args[0])
			y, ok2 := c.St.constStr(c.Args[1])
			if ok && ok2 {
				b := int64(0)
				if f(x, y) {
					b = 1
				}
				return c.one(C(b))
			}
			return pure(c)
		}
	}
	reg(boolOf(strings.Contains), "strings.Contains")
	reg(boolOf(strings.ContainsAny), "strings.ContainsAny")
	reg(boolOf(strings.EqualFold), "strings.EqualFold")
	affix := func(f func(x, y string) bool, front bool) Model {
		return func(c *Call) []Outcome {
			st := c.St
			y, ok := st.constStr(c.Args[1])
			if !ok {
				return pure(c)
			}
			if x, ok := st.constStr(c.Args[0]); ok {
				b := int64(0)
				if f(x, y) {
					b = 1
				}
				return c.one(C(b))
			}
			ps := st.rawParts(c.Args[0])
			if n := len(ps); n > 0 {
				p := ps[0]
				if !front {
					p = ps[n-1]
				}
				if p.Kind == 'c' {
					if f(p.Str, y) {
						return c.one(C(1))
					}
					if len(p.Str) >= len(y) {
						return c.one(C(0))
					}
				}
			}
			var out []Outcome
			s := st.clone()
			if s.addLE(C(int64(len(y))), s.strLen(c.Args[0]), 0) {
				good := true
				for i := 0; front && i < len(y) && good; i++ {
					good = s.meetSet(s.strByte(c.Args[0], C(int64(i))), setConst(int64(y[i])))
				}
				if good {
					out = append(out, Outcome{St: s, Ret: C(1)})
				}
			}
			n := st.clone()
			if front && len(y) == 1 { // there is no such byte, or it is another
				b := n.strByte(c.Args[0], C(0))
				if !n.meetSet(b, n.setOf(b).without(int64(y[0]))) {
					return out
				}
			}
			return append(out, Outcome{St: n, Ret: C(0)})
		}
	}
	reg(affix(strings.HasPrefix, true), "strings.HasPrefix")
	reg(affix(strings.HasSuffix, false), "strings.HasSuffix")
	index := func(c *Call) []Outcome {
		st := c.St
		n := st.freshInt(intType, setRange(-1, maxLen))
		ln := st.lenOf(c.Args[0], c.Sig.Params().At(0).Type())
		st.addLE(n, ln, -1+0)
		if n.S != zeroSym {
			// an empty needle may be found at the end
			if k, ok := st.constStr(c.Args[1]); !ok || k == "" {
				n = st.freshInt(intType, setRange(-1, maxLen))
				st.addLE(n, ln, 0)
			}
		}
		return c.one(n)
	}
	reg(index, "strings.Index", "strings.LastIndex")
	reg(func(c *Call) []Outcome {
		st := c.St
		n := st.freshInt(intType, setRange(-1, maxLen))
		st.addLE(n, st.lenOf(c.Args[0], c.Sig.Params().At(0).Type()), -1)
		return c.one(n)
	}, "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte", "bytes.IndexByte", "strings.IndexAny")
	shrink := func(c *Call) []Outcome {
		st := c.St
		if c.A.Prov {
			return c.one(st.provStr(c.Fn.Name(), 0, c.Args...))
		}
		s := st.freshStr(0)
		st.addLE(st.strLen(s), st.strLen(c.Args[0]), 0)
		return c.one(s)
	}
	constMap := func(f func(string) string, def Model) Model {
		return func(c *Call) []Outcome {
			if s, ok := c.St.constStr(c.Args[0]); ok {
				return c.one(c.A.strConst(f(s)))
			}
			return def(c)
		}
	}
	constMap2 := func(f func(x, y string) string, def Model) Model {
		return func(c *Call) []Outcome {
			x, ok := c.St.constStr(c.Args[0])
			y, ok2 := c.St.constStr(c.Args[1])
			if ok && ok2 {
				return c.one(c.A.strConst(f(x, y)))
			}
			return def(c)
		}
	}
	reg(constMap(strings.TrimSpace, shrink), "strings.TrimSpace")
	reg(constMap2(strings.Trim, shrink), "strings.Trim")
	reg(constMap2(strings.TrimLeft, shrink), "strings.TrimLeft")
	reg(constMap2(strings.TrimRight, shrink), "strings.TrimRight")
	reg(constMap2(strings.TrimPrefix, shrink), "strings.TrimPrefix")
	reg(constMap2(strings.TrimSuffix, shrink), "strings.TrimSuffix")
	anyStr := func(c *Call) []Outcome { return c.one(c.St.freshStr(0)) }
	reg(constMap(strings.ToLower, anyStr), "strings.ToLower")
	reg(constMap(strings.ToUpper, anyStr), "strings.ToUpper")
	reg(constMap(strings.Title, anyStr), "strings.Title")
	reg(func(c *Call) []Outcome {
		st := c.St
		if st.cmpInt(token.GEQ, c.Args[1], C(0)) != 1 {
			if in, ok := c.Instr.(ssa.CallInstruction); ok {
				c.A.oblige("repeat", in, false)
			}
			p := st.clone()
			p.addLE(c.Args[1], C(-1), 0)
			p.panicMsg = "negative count for strings.Repeat"
			p.panicPos = c.Pos
			if !st.addLE(C(0), c.Args[1], 0) {
				return []Outcome{{St: p, Panic: true}}
			}
			return []Outcome{{St: p, Panic: true}, {St: st, Ret: st.freshStr(0)}}
		}
		if kindOf(c.Sig.Results().At(0).Type()) != KStr {
			return pureRet(c, st)
		}
		return c.one(st.freshStr(0))
	}, "strings.Repeat", "bytes.Repeat")
	// a part of the argument: the same array
	part := func(st *State, v V, front, back bool) V {
		f := st.f(v)
		if f.kind != KSlice || f.arr.undef() {
			return st.havocV(types.NewSlice(types.Typ[types.Byte]))
		}
		nf := f.clone()
		lo, n := orC(f.lo), orC(f.ln)
		cut := C(0)
		if front {
			cut = st.freshInt(intType, setRange(0, maxLen))
			st.addLE(cut, n, 0)
		}
		left := st.subV(n, cut, intType)
		if back {
			l := st.freshInt(intType, setRange(0, maxLen))
			st.addLE(l, left, 0)
			left = l
		}
		nf.lo, nf.ln, nf.cap = st.addV(lo, cut, intType), left, st.subV(orC(f.cap), cut, intType)
		nf.nil3 |= mayNil
		return st.fresh(nf)
	}
	sub := func(front, back bool) Model {
		return func(c *Call) []Outcome { return c.one(part(c.St, c.Args[0], front, back)) }
	}
	reg(sub(true, true), "bytes.TrimSpace", "bytes.Trim", "bytes.TrimFunc")
	reg(sub(true, false), "bytes.TrimLeft", "bytes.TrimPrefix", "bytes.TrimLeftFunc")
	reg(sub(false, true), "bytes.TrimRight", "bytes.TrimSuffix", "bytes.TrimRightFunc")
	subs := func(c *Call) []Outcome {
		st := c.St
		res := c.Sig.Results()
		var vs []V
		for i := 0; i < res.Len(); i++ {
			if kindOf(res.At(i).Type()) == KSlice {
				vs = append(vs, part(st, c.Args[0], true, true))
			} else {
				vs = append(vs, st.havocV(res.At(i).Type()))
			}
		}
		return c.one(st.fresh(&Fact{kind: KTuple, typ: res, elems: vs}))
	}
	reg(subs, "bytes.Cut", "bytes.CutPrefix", "bytes.CutSuffix")
	reg(pure, "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).Write", "(*strings.Builder).String", "(*strings.Builder).Len", "(*strings.Builder).Grow", "(*strings.Builder).Reset",
		"(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).Write", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*bytes.Buffer).Reset",
		"strings.Count", "bytes.Count", "bytes.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Equal",
		"unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock")
	reg(anyStr, "strings.Join", "strings.Replace", "strings.ReplaceAll", "strings.Map")
	nonEmptySlice := func(c *Call) []Outcome {
		st := c.St
		v := st.NonNil(st.havocV(c.Sig.Results().At(0).Type()))
		st.addLE(C(1), orC(st.f(v).ln), 0)
		return c.one(v)
	}
	reg(func(c *Call) []Outcome {
		if k, ok := c.St.constStr(c.Args[1]); ok && k != "" {
			return nonEmptySlice(c)
		}
		return pure(c)
	}, "strings.Split")
	reg(pure, "strings.Fields", "strings.SplitN")
	reg(func(c *Call) []Outcome {
		st := c.St
		if f := st.f(c.Args[1]); f.kind == KSlice && st.cmpInt(token.GTR, orC(f.ln), C(0)) == 1 {
			return nonEmptySlice(c)
		}
		return pure(c)
	}, "bytes.Split")

	// errors for failed conversions come with zero or limit values
	reg(pure, "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.ParseBool", "strconv.Atoi", "strconv.Unquote")
	from := func(op string, min int64, more ...V) Model {
		return func(c *Call) []Outcome {
			return c.one(c.St.provStr(op, min, append(append([]V(nil), c.Args...), more...)...))
		}
	}
	reg(from("quote", 2), "strconv.Quote", "strconv.QuoteToASCII", "strconv.QuoteToGraphic")
	reg(from("int", 1, C(10)), "strconv.Itoa")
	reg(from("int", 1), "strconv.FormatInt", "strconv.FormatUint")
	reg(from("float", 1), "strconv.FormatFloat")
	reg(from("bool", 4), "strconv.FormatBool")
	reg(nonNilResult, "reflect.TypeOf")
	reg(pure, "reflect.DeepEqual", "errors.Is", "errors.As")
}
