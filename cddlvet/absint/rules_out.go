package absint

import (
	"fmt"
	"go/types"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C33", Rule: "Abstract interpretation of the action of generate where every operation succeeds, on configurations of two builds (and of none) with unknown packages and directories that hold several sources and other files: texts are followed by provenance from the configuration into paths, and contents from the source read through lexer, parser and generator into the file written. Every source of every build has exactly one output, named after it in its build's output directory (made if it is missing), generated from it with its build's package; nothing else is written.", Run: checkC33,
		Assume: []string{"Directories are different, hold the listed names and no others; all operations of the system succeed."}})
}

// outRun follows what generate writes.
type outRun struct {
	*cmdRun
	missing bool // the output directories
	conf    bool // there is a configuration
	label   string
	n       int
}

// A text is known by its norm: constants, and unknown texts between angle brackets.
func (g *outRun) norm(st *State, v V) string {
	if s, ok := st.constStr(v); ok {
		return s
	}
	if t := st.f(v).tag; strings.HasPrefix(t, "text:") {
		return t[5:]
	}
	var b strings.Builder
	for _, p := range st.rawParts(v) {
		switch p.Kind {
		case 'c':
			b.WriteString(p.Str)
		case 'u':
			if p.U == v {
				return "?"
			}
			b.WriteString(g.norm(st, p.U))
		default:
			return "?"
		}
	}
	if b.Len() == 0 {
		return "?"
	}
	return b.String()
}

func (g *outRun) text(st *State, n string) V {
	if strings.Contains(n, "?") {
		return st.freshStr(0)
	}
	if !strings.Contains(n, "<") {
		return g.a.strConst(n)
	}
	return st.fresh(&Fact{kind: KStr, typ: types.Typ[types.String], ln: st.freshInt(intType, setRange(1, maxLen)), tag: "text:" + n})
}

func cleanNorm(n string) string {
	if n == "" {
		return n
	}
	return path.Clean(n)
}

// content is what a value holds, by its tag.
func content(st *State, v V) string {
	f := st.f(v)
	if strings.HasPrefix(f.tag, "data:") {
		return f.tag[5:]
	}
	if f.kind == KIface && len(f.alts) == 1 {
		return content(st, f.alts[0].P)
	}
	if f.kind == KStr {
		var l []string
		for _, p := range st.rawParts(v) {
			if p.Kind == 'u' && p.U != v {
				if x := content(st, p.U); x != "?" && x != "" {
					l = append(l, x)
				}
			}
		}
		if len(l) > 0 {
			return strings.Join(l, ";")
		}
	}
	return "?"
}

func (g *outRun) data(st *State, t types.Type, what string) V {
	f := st.f(st.havocV(t)).clone()
	f.tag = "data:" + what
	if f.kind == KSlice || f.kind == KPtr || f.kind == KIface {
		f.nil3 = mayNon
	}
	return st.fresh(f)
}

// wid names the place a writer writes to.
func (g *outRun) wid(st *State, v V) string {
	f := st.f(v)
	if f.kind == KIface {
		if f.tag != "" {
			return f.tag
		}
		if f.opq || len(f.alts) != 1 {
			return "?"
		}
		return g.wid(st, f.alts[0].P)
	}
	if f.tag != "" {
		return f.tag
	}
	if f.kind == KPtr && !f.opq && len(f.tg) == 1 {
		return fmt.Sprint("object ", f.tg[0].Obj, f.tg[0].Path)
	}
	return "?"
}

func (g *outRun) bump(st *State, k string) {
	n := st.ghostConst(k)
	if n < 3 {
		n++
	}
	st.setGhost(k, C(n))
}

func ghostsWith(st *State, pre string) []string {
	var out []string
	for _, h := range st.ghosts {
		if strings.HasPrefix(h.name, pre) && st.ghostConst(h.name) != 0 {
			out = append(out, h.name[len(pre):])
		}
	}
	sort.Strings(out)
	return out
}

// put records that what is written to a place.
func (g *outRun) put(st *State, wid, what string) {
	if what == "" {
		return
	}
	for _, x := range strings.Split(what, ";") {
		g.bump(st, "#in "+wid+"|"+x)
	}
}

func (g *outRun) held(st *State, wid string) string {
	return strings.Join(ghostsWith(st, "#in "+wid+"|"), ";")
}

func (g *outRun) setup() {
	g.cmdRun.succeed = true
	g.cmdRun.setup()
	a, m := g.a, g.cmdRun
	a.NoJoin = true
	a.MaxKeys, a.MaxOuts = 1500, 3000
	R := RepoPath + "/"
	set := func(f Model, names ...string) {
		for _, n := range names {
			a.Models[n] = f
		}
	}
	nilErr := func(c *Call) V {
		r := c.Sig.Results()
		return g.a.nilV(r.At(r.Len() - 1).Type())
	}
	two := func(c *Call, v V) []Outcome { return c.one(c.tuple(v, nilErr(c))) }
	// texts
	op := func(f func(st *State, c *Call, x string) string) Model {
		return func(c *Call) []Outcome {
			x := g.norm(c.St, c.Args[0])
			if strings.Contains(x, "?") {
				return c.one(c.St.freshStr(0))
			}
			return c.one(g.text(c.St, f(c.St, c, x)))
		}
	}
	set(op(func(st *State, c *Call, x string) string {
		b := path.Base(x)
		if strings.Contains(b, "<") && !(strings.HasPrefix(b, "<") && strings.Contains(x, "/")) {
			return "?"
		}
		if strings.Contains(b, "<") {
			return "?"
		}
		return b
	}), "path/filepath.Base", "path.Base")
	set(op(func(st *State, c *Call, x string) string {
		b := x[strings.LastIndexAny(x, "/>")+1:]
		if !strings.Contains(b, ".") && strings.Contains(x, "<") && !strings.Contains(x[strings.LastIndex(x, ">")+1:], "/") {
			return "?"
		}
		return path.Ext(b)
	}), "path/filepath.Ext", "path.Ext")
	set(op(func(st *State, c *Call, x string) string {
		i := strings.LastIndex(x, "/")
		if i < 0 || strings.Contains(x[i:], "<") {
			return "?"
		}
		return x[:i]
	}), "path/filepath.Dir", "path.Dir")
	set(op(func(st *State, c *Call, x string) string { return cleanNorm(x) }), "path/filepath.Clean", "path.Clean", "path/filepath.ToSlash", "path/filepath.FromSlash")
	set(func(c *Call) []Outcome { return two(c, g.text(c.St, g.norm(c.St, c.Args[0]))) }, "path/filepath.Abs")
	set(func(c *Call) []Outcome {
		vs, ok := c.St.variadic(c.Args[0])
		if !ok {
			return c.one(c.St.freshStr(0))
		}
		var ps []string
		for _, v := range vs {
			if n := g.norm(c.St, v); n != "" {
				ps = append(ps, n)
			}
		}
		return c.one(g.text(c.St, cleanNorm(strings.Join(ps, "/"))))
	}, "path/filepath.Join", "path.Join")
	cut := func(f func(x, y string) string, safe func(x, y, z string) bool) Model {
		return func(c *Call) []Outcome {
			x, y := g.norm(c.St, c.Args[0]), g.norm(c.St, c.Args[1])
			if strings.Contains(x+y, "?") || strings.Contains(y, "<") {
				return c.one(c.St.freshStr(0))
			}
			z := f(x, y)
			if strings.Contains(x, "<") && !safe(x, y, z) {
				return c.one(c.St.freshStr(0))
			}
			return c.one(g.text(c.St, z))
		}
	}
	tail := func(x, y, z string) bool { return !strings.HasSuffix(z, ">") || z+y == x && y != "" }
	set(cut(strings.TrimSuffix, tail), "strings.TrimSuffix")
	set(cut(strings.TrimRight, func(x, y, z string) bool { return !strings.HasSuffix(z, ">") }), "strings.TrimRight")
	set(cut(strings.TrimPrefix, func(x, y, z string) bool { return !strings.HasPrefix(x, "<") }), "strings.TrimPrefix")
	consts := func(name string, f func(c *Call, s []string, k []int64) (V, bool)) {
		old := a.Models[name]
		set(func(c *Call) []Outcome {
			var s []string
			var k []int64
			ok := true
			for _, v := range c.Args {
				switch kindOf(c.St.f(v).typ) {
				case KStr:
					x, o := c.St.constStr(v)
					s, ok = append(s, x), ok && o
				default:
					x, o := c.St.constOf(v)
					k, ok = append(k, x), ok && o
				}
			}
			if ok {
				if v, o := f(c, s, k); o {
					return c.one(v)
				}
			}
			if old == nil {
				return c.external(name)
			}
			return old(c)
		}, name)
	}
	num := func(f func(s []string, k []int64) int) func(c *Call, s []string, k []int64) (V, bool) {
		return func(c *Call, s []string, k []int64) (V, bool) { return C(int64(f(s, k))), true }
	}
	consts("strings.Index", num(func(s []string, k []int64) int { return strings.Index(s[0], s[1]) }))
	consts("strings.LastIndex", num(func(s []string, k []int64) int { return strings.LastIndex(s[0], s[1]) }))
	consts("strings.IndexByte", num(func(s []string, k []int64) int { return strings.IndexByte(s[0], byte(k[0])) }))
	consts("strings.IndexRune", num(func(s []string, k []int64) int { return strings.IndexRune(s[0], rune(k[0])) }))
	consts("strings.LastIndexByte", num(func(s []string, k []int64) int { return strings.LastIndexByte(s[0], byte(k[0])) }))
	consts("strings.Count", num(func(s []string, k []int64) int { return strings.Count(s[0], s[1]) }))
	str := func(f func(s []string, k []int64) string) func(c *Call, s []string, k []int64) (V, bool) {
		return func(c *Call, s []string, k []int64) (V, bool) { return g.a.strConst(f(s, k)), true }
	}
	consts("strings.Replace", str(func(s []string, k []int64) string { return strings.Replace(s[0], s[1], s[2], int(k[0])) }))
	consts("strings.ReplaceAll", str(func(s []string, k []int64) string { return strings.ReplaceAll(s[0], s[1], s[2]) }))
	list := func(c *Call, l []string) (V, bool) { return g.texts(c.St, c.Sig.Results().At(0).Type(), l), true }
	consts("strings.Split", func(c *Call, s []string, k []int64) (V, bool) { return list(c, strings.Split(s[0], s[1])) })
	consts("strings.SplitN", func(c *Call, s []string, k []int64) (V, bool) {
		return list(c, strings.SplitN(s[0], s[1], int(k[0])))
	})
	consts("strings.Cut", func(c *Call, s []string, k []int64) (V, bool) {
		x, y, ok := strings.Cut(s[0], s[1])
		b := int64(0)
		if ok {
			b = 1
		}
		return c.tuple(g.a.strConst(x), g.a.strConst(y), C(b)), true
	})
	// the times of files are in any order
	set(pure, "(time.Time).After", "(time.Time).Before", "(time.Time).Equal", "(time.Time).Compare", "(time.Time).Sub")
	// the system
	set(func(c *Call) []Outcome { return two(c, g.text(c.St, "<wd>")) }, "os.Getwd")
	gone := func(c *Call) []Outcome {
		r := c.Sig.Results()
		e := c.St.fresh(&Fact{kind: KIface, typ: r.At(r.Len() - 1).Type(), nil3: mayNon, opq: true, tag: "missing"})
		if r.Len() == 1 {
			return c.one(e)
		}
		return c.one(c.tuple(c.St.zeroV(r.At(0).Type()), e))
	}
	isMissing := func(c *Call) []Outcome {
		b := int64(0)
		if c.St.f(c.Args[0]).tag == "missing" {
			b = 1
		}
		return c.one(C(b))
	}
	set(isMissing, "os.IsNotExist")
	is := a.Models["errors.Is"]
	set(func(c *Call) []Outcome {
		t := c.St.f(c.Args[0]).tag
		if gl := globalOf(c, 1); gl != nil && !strings.HasPrefix(gl.Pkg.Pkg.Path(), RepoPath) {
			if gl.Name() == "ErrNotExist" {
				return isMissing(c)
			}
			if t != "" {
				return c.one(C(0))
			}
		}
		return is(c)
	}, "errors.Is")
	info := func(st *State, t types.Type, name string, dir bool) V {
		tag := "file:" + name
		if dir {
			tag = "dir:" + name
		}
		return st.fresh(&Fact{kind: KIface, typ: t, nil3: mayNon, opq: true, tag: tag})
	}
	set(func(c *Call) []Outcome {
		p := cleanNorm(g.norm(c.St, c.Args[0]))
		t := c.Sig.Results().At(0).Type()
		switch {
		case strings.HasPrefix(p, "<wd>/cddlc.") || strings.HasPrefix(p, "cddlc."):
			if !g.conf || path.Base(p) != "cddlc.json" {
				return gone(c)
			}
			return two(c, info(c.St, t, path.Base(p), false))
		case p == "<src1>" || p == "<src2>":
			return two(c, info(c.St, t, "d", true))
		case p == "<out1>" || p == "<out2>" || p == "<out3>":
			if g.missing && c.St.ghostConst("#dir "+p) == 0 {
				return gone(c)
			}
			return two(c, info(c.St, t, "d", true))
		case strings.HasPrefix(p, "<out"):
			if g.missing && c.St.ghostConst("#made "+p) == 0 {
				return gone(c)
			}
			return two(c, info(c.St, t, "f", false))
		case strings.HasPrefix(p, "<src"):
			return two(c, info(c.St, t, path.Base(p), strings.HasSuffix(p, "/sub")))
		}
		return two(c, c.St.NonNil(c.St.havocV(t)))
	}, "os.Stat", "os.Lstat")
	set(func(c *Call) []Outcome {
		c.St.setGhost("#dir "+cleanNorm(g.norm(c.St, c.Args[0])), C(1))
		return c.one(nilErr(c))
	}, "os.MkdirAll", "os.Mkdir")
	set(func(c *Call) []Outcome {
		p := cleanNorm(g.norm(c.St, c.Args[0]))
		t := c.Sig.Results().At(0).Type()
		sl, ok := t.Underlying().(*types.Slice)
		names := g.names(p)
		if !ok || names == nil {
			g.r.undecided(g.label + ": another directory is listed")
			return two(c, c.St.havocV(t))
		}
		var vs []V
		for _, n := range names {
			vs = append(vs, info(c.St, sl.Elem(), n, n == "sub"))
		}
		return two(c, g.list(c.St, t, vs))
	}, "os.ReadDir", "io/ioutil.ReadDir")
	set(func(c *Call) []Outcome {
		p := cleanNorm(g.norm(c.St, c.Args[0]))
		t := c.Sig.Results().At(0).Type()
		dir, pat := path.Split(p)
		dir = cleanNorm(dir)
		var l []string
		switch {
		case dir == "<wd>" && !strings.Contains(pat, "<"):
			if ok, _ := filepath.Match(pat, "cddlc.json"); ok && g.conf {
				l = append(l, "<wd>/cddlc.json")
			}
		case g.names(dir) != nil && !strings.Contains(pat, "<"):
			for _, n := range g.names(dir) {
				if ok, _ := filepath.Match(pat, n); ok {
					l = append(l, dir+"/"+n)
				}
			}
		default:
			g.r.undecided(g.label + ": another directory is listed")
			return two(c, c.St.havocV(t))
		}
		return two(c, g.texts(c.St, t, l))
	}, "path/filepath.Glob")
	set(func(c *Call) []Outcome {
		g.r.undecided(g.label + ": a directory is walked")
		return c.one(nilErr(c))
	}, "path/filepath.Walk", "path/filepath.WalkDir")
	read := func(c *Call, p string) V {
		return g.data(c.St, c.Sig.Results().At(0).Type(), "read "+p)
	}
	set(func(c *Call) []Outcome { return two(c, read(c, cleanNorm(g.norm(c.St, c.Args[0])))) }, "os.ReadFile", "io/ioutil.ReadFile")
	set(func(c *Call) []Outcome {
		w := g.wid(c.St, c.Args[0])
		if i := strings.Index(w, "handle "); i >= 0 {
			return two(c, read(c, w[i+7:]))
		}
		return two(c, c.St.havocV(c.Sig.Results().At(0).Type()))
	}, "io.ReadAll", "io/ioutil.ReadAll")
	handle := func(c *Call, p string) []Outcome {
		return two(c, c.St.fresh(&Fact{kind: KPtr, typ: c.Sig.Results().At(0).Type(), nil3: mayNon, opq: true, tag: "handle " + p}))
	}
	made := func(c *Call, p string) {
		g.bump(c.St, "#made "+p)
		dir := path.Dir(p)
		if g.missing && strings.HasPrefix(dir, "<out") && c.St.ghostConst("#dir "+dir) == 0 && !strings.Contains(p, "?") {
			g.viol(c.St, "no directory", "a file is written to the output directory before it is made")
		}
	}
	set(func(c *Call) []Outcome { return handle(c, cleanNorm(g.norm(c.St, c.Args[0]))) }, "os.Open")
	set(func(c *Call) []Outcome {
		p := cleanNorm(g.norm(c.St, c.Args[0]))
		made(c, p)
		return handle(c, p)
	}, "os.Create")
	set(func(c *Call) []Outcome {
		p := cleanNorm(g.norm(c.St, c.Args[0]))
		if fl, ok := c.St.constOf(c.Args[1]); !ok {
			g.r.undecided(g.label + ": the flags of os.OpenFile are not known")
		} else if fl&(oWRONLY|oRDWR) != 0 {
			made(c, p)
			if fl&oCREATE == 0 && g.missing {
				g.viol(c.St, "no creation", "an output that does not exist is opened without creating it")
			}
			if fl&(oTRUNC|oEXCL) == 0 && !g.missing {
				g.put(c.St, "handle "+p, "what the file held before")
			}
			if fl&oEXCL != 0 && !g.missing {
				g.viol(c.St, "exclusive", "an output that exists already is refused")
			}
		}
		return handle(c, p)
	}, "os.OpenFile")
	set(func(c *Call) []Outcome {
		g.n++
		return handle(c, fmt.Sprintf("<temporary%d>", g.n))
	}, "os.CreateTemp", "io/ioutil.TempFile")
	set(func(c *Call) []Outcome {
		w := g.wid(c.St, c.Args[0])
		if i := strings.Index(w, "handle "); i >= 0 {
			return c.one(g.text(c.St, w[i+7:]))
		}
		return c.one(c.St.freshStr(0))
	}, "(*os.File).Name")
	set(func(c *Call) []Outcome {
		p, q := cleanNorm(g.norm(c.St, c.Args[0])), cleanNorm(g.norm(c.St, c.Args[1]))
		made(c, q)
		c.St.setGhost("#made "+p, C(0))
		g.put(c.St, "handle "+q, g.held(c.St, "handle "+p))
		for _, x := range ghostsWith(c.St, "#in handle "+p+"|") {
			c.St.setGhost("#in handle "+p+"|"+x, C(0))
		}
		return c.one(nilErr(c))
	}, "os.Rename")
	set(func(c *Call) []Outcome {
		p := cleanNorm(g.norm(c.St, c.Args[0]))
		if strings.HasPrefix(p, "<out") || p == "?" {
			for _, x := range ghostsWith(c.St, "#made ") {
				if x == p || strings.HasPrefix(x, p+"/") || p == "?" {
					c.St.setGhost("#removed "+x, C(1))
				}
			}
		}
		return c.one(nilErr(c))
	}, "os.Remove", "os.RemoveAll")
	set(func(c *Call) []Outcome {
		p := cleanNorm(g.norm(c.St, c.Args[0]))
		made(c, p)
		g.put(c.St, "handle "+p, content(c.St, c.Args[1]))
		return c.one(nilErr(c))
	}, "os.WriteFile", "io/ioutil.WriteFile")
	write := func(c *Call) []Outcome {
		if x := content(c.St, c.Args[1]); x != "?" {
			g.put(c.St, g.wid(c.St, c.Args[0]), x)
		}
		return two(c, c.St.freshLen())
	}
	set(write, "(*os.File).Write", "(*os.File).WriteString", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "io.WriteString")
	set(func(c *Call) []Outcome { return c.one(nilErr(c)) }, "(*os.File).Sync", "(*os.File).Close", "(*bufio.Writer).Flush")
	set(func(c *Call) []Outcome {
		w := g.wid(c.St, c.Args[0])
		return c.one(g.data(c.St, c.Sig.Results().At(0).Type(), g.held(c.St, w)))
	}, "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String")
	set(func(c *Call) []Outcome {
		w := g.wid(c.St, c.Args[0])
		for _, x := range ghostsWith(c.St, "#in "+w+"|") {
			c.St.setGhost("#in "+w+"|"+x, C(0))
		}
		return c.one(V{})
	}, "(*bytes.Buffer).Reset", "(*strings.Builder).Reset")
	set(func(c *Call) []Outcome {
		g.put(c.St, g.wid(c.St, c.Args[1]), g.held(c.St, g.wid(c.St, c.Args[0])))
		return two(c, c.St.freshLen())
	}, "(*bytes.Buffer).WriteTo")
	set(func(c *Call) []Outcome {
		g.put(c.St, g.wid(c.St, c.Args[0]), g.held(c.St, g.wid(c.St, c.Args[1])))
		return two(c, c.St.freshLen())
	}, "io.Copy")
	wrap := func(c *Call) []Outcome {
		w := g.wid(c.St, c.Args[0])
		if x := content(c.St, c.Args[0]); x != "?" {
			g.n++
			w = fmt.Sprint("buffer ", g.n)
			g.put(c.St, w, x)
		} else if c.St.f(c.Args[0]).kind == KSlice {
			g.n++
			w = fmt.Sprint("buffer ", g.n)
		}
		return c.one(c.St.fresh(&Fact{kind: KPtr, typ: c.Sig.Results().At(0).Type(), nil3: mayNon, opq: true, tag: w}))
	}
	set(wrap, "bufio.NewWriter", "bufio.NewReader", "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString")
	// the tool's own parts
	chain := func(c *Call) []Outcome {
		x := content(c.St, c.Args[0])
		return c.one(g.data(c.St, c.Sig.Results().At(0).Type(), x))
	}
	set(chain, R+"lexer.NewLexer", R+"parser.NewParser")
	set(func(c *Call) []Outcome {
		r := c.Sig.Results()
		if r.Len() != 2 {
			return pure(c)
		}
		return c.one(c.tuple(g.data(c.St, r.At(0).Type(), content(c.St, c.Args[0])), g.a.nilV(r.At(1).Type())))
	}, "(*"+R+"parser.Parser).ParseFile")
	gp := R + "transforms/codegen/golang."
	set(func(c *Call) []Outcome {
		g.n++
		return c.one(c.St.fresh(&Fact{kind: KPtr, typ: c.Sig.Results().At(0).Type(), nil3: mayNon, opq: true, tag: fmt.Sprintf("gen %d %s", g.n, g.norm(c.St, c.Args[0]))}))
	}, gp+"NewGenerator")
	set(func(c *Call) []Outcome {
		g.bump(c.St, "#visited "+c.St.f(c.Args[0]).tag+"|"+content(c.St, c.Args[1]))
		var ret V
		if c.Sig.Results().Len() == 1 {
			ret = c.Args[0]
		}
		return c.one(ret)
	}, "(*"+gp+"Generator).Visit")
	set(func(c *Call) []Outcome {
		t := c.St.f(c.Args[0]).tag
		w := g.wid(c.St, c.Args[1])
		f := strings.SplitN(t, " ", 3)
		pkg := "?"
		if len(f) == 3 {
			pkg = f[2]
		}
		var l []string
		for _, x := range ghostsWith(c.St, "#visited "+t+"|") {
			k := ""
			if c.St.ghostConst("#visited "+t+"|"+x) > 1 {
				k = " twice"
			}
			l = append(l, x+k)
		}
		g.put(c.St, w, "package "+pkg+" of "+strings.Join(l, " and "))
		return c.one(nilErr(c))
	}, "(*"+gp+"Generator).String")
	set(func(c *Call) []Outcome {
		g.bump(c.St, "#loaded "+cleanNorm(g.norm(c.St, c.Args[0])))
		return two(c, g.config(c.St, c.Sig.Results().At(0).Type(), 3))
	}, R+"config.LoadConfig")
	set(func(c *Call) []Outcome {
		c.St.setGhost("#default", C(1))
		return c.one(g.config(c.St, c.Sig.Results().At(0).Type(), 1))
	}, R+"config.NewDefaultConfig")
	inv := a.UnknownInvoke
	a.UnknownInvoke = func(c *Call, recv V, mt *types.Func) ([]Outcome, bool) {
		t := c.St.f(recv).tag
		dir := strings.HasPrefix(t, "dir:")
		if dir || strings.HasPrefix(t, "file:") {
			switch mt.Name() {
			case "Name":
				return c.one(g.a.strConst(t[strings.Index(t, ":")+1:])), true
			case "IsDir":
				if dir {
					return c.one(C(1)), true
				}
				return c.one(C(0)), true
			case "Mode", "Type":
				if dir {
					return c.one(C(1<<31 | 0o755)), true
				}
				if mt.Name() == "Type" {
					return c.one(C(0)), true
				}
				return c.one(C(0o644)), true
			case "Info":
				return c.one(c.tuple(info(c.St, mt.Type().(*types.Signature).Results().At(0).Type(), t[strings.Index(t, ":")+1:], dir), g.a.nilV(types.Universe.Lookup("error").Type()))), true
			}
		}
		if (mt.Name() == "Write" || mt.Name() == "WriteString") && len(c.Args) == 1 {
			if x := content(c.St, c.Args[0]); x != "?" {
				g.put(c.St, g.wid(c.St, recv), x)
			}
			return c.one(c.St.fresh(&Fact{kind: KTuple, typ: mt.Type().(*types.Signature).Results(), elems: []V{c.St.freshLen(), g.a.nilV(types.Universe.Lookup("error").Type())}})), true
		}
		if mt.Name() == "Close" && mt.Type().(*types.Signature).Results().Len() == 1 {
			return c.one(g.a.nilV(mt.Type().(*types.Signature).Results().At(0).Type())), true
		}
		return inv(c, recv, mt)
	}
	_ = m
}

// names lists a directory of sources.
func (g *outRun) names(dir string) []string {
	switch dir {
	case "<src1>":
		return []string{"README", "Upper.cddl", "_under.cddl", "alpha.cddl", "cddl.cddl", "notes.txt", "sub", "two.parts.cddl"}
	case "<src2>":
		return []string{"a.cddl.bak", "alpha.cddl", "beta.cddl", "xcddl"}
	}
	return nil
}

// srcOf is the source directory of a build; the third build takes up that of the first.
func srcOf(k int) string {
	return fmt.Sprintf("<src%d>", (k+1)%2+1)
}

func (g *outRun) list(st *State, t types.Type, vs []V) V {
	sl := t.Underlying().(*types.Slice)
	arr := st.fresh(&Fact{kind: KArray, typ: sl.Elem(), defK: defZero, ln: C(int64(len(vs)))})
	for k, v := range vs {
		arr = st.arrSet(arr, C(int64(k)), v, false)
	}
	return st.newSlice(t, st.f(arr), C(int64(len(vs))), C(int64(len(vs))), "a list")
}

func (g *outRun) texts(st *State, t types.Type, l []string) V {
	var vs []V
	for _, x := range l {
		vs = append(vs, g.text(st, x))
	}
	return g.list(st, t, vs)
}

// object makes a struct; fields that are not given are zero.
func (g *outRun) object(st *State, pt types.Type, fields map[string]V) V {
	T := pt.Underlying().(*types.Pointer).Elem()
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		g.a.fail(T.String() + " is no struct")
	}
	elems := make([]V, s.NumFields())
	used := 0
	for i := range elems {
		if v, ok := fields[s.Field(i).Name()]; ok {
			used++
			elems[i] = v
			continue
		}
		elems[i] = st.zeroV(s.Field(i).Type())
	}
	if used != len(fields) {
		g.a.fail(T.String() + " has other fields")
	}
	o := st.newObj(T, "a "+T.String(), st.fresh(&Fact{kind: KStruct, typ: T, elems: elems}))
	return st.ptrTo(o.id, pt)
}

// config makes a configuration of n builds.
func (g *outRun) config(st *State, pt types.Type, n int) V {
	p, ok := pt.Underlying().(*types.Pointer)
	if !ok {
		g.a.fail("a configuration is no pointer")
	}
	s := p.Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != "Builds" {
			continue
		}
		lt := s.Field(i).Type()
		sl, ok := lt.Underlying().(*types.Slice)
		if !ok {
			break
		}
		bt := sl.Elem()
		if _, ok := bt.Underlying().(*types.Pointer); !ok {
			g.a.fail("the builds of a configuration are no pointers")
		}
		var vs []V
		for k := 1; k <= n; k++ {
			vs = append(vs, g.object(st, bt, map[string]V{
				"Package":   g.text(st, fmt.Sprintf("<pkg%d>", k)),
				"SourceDir": g.text(st, srcOf(k)),
				"OutDir":    g.text(st, fmt.Sprintf("<out%d>", k)),
			}))
		}
		return g.object(st, pt, map[string]V{"Version": g.a.strConst("1"), "Builds": g.list(st, lt, vs)})
	}
	g.a.fail("a configuration has no builds")
	return V{}
}

func (g *outRun) viol(st *State, con, msg string) {
	g.r.ob(false)
	g.r.violationAt(st, Finding{Rule: "every source is generated to its output", Func: g.fn, Construct: g.label + ": " + con, Pos: g.pos, Msg: g.label + ": " + msg})
}

func checkC33(w *World, r *Report) {
	if w.loadConfig() == nil {
		r.undecided("no config.LoadConfig from a path")
		return
	}
	for _, cs := range []struct {
		label         string
		conf, missing bool
	}{
		{"two builds, outputs exist", true, false},
		{"two builds, no output directories", true, true},
		{"no configuration, output exists", false, false},
		{"no configuration, no output directory", false, true},
	} {
		cs := cs
		eachCommand(w, r, []string{"generate"}, func(name string, fn *ssa.Function) {
			g := &outRun{cmdRun: &cmdRun{w: w, r: r}, conf: cs.conf, missing: cs.missing, label: cs.label}
			g.setup()
			g.fn, g.pos = short(fn.String()), g.a.pos(fn.Pos())
			good := 0
			g.run(fn, nil, func(o Outcome) {
				if o.Panic || o.St.f(o.Ret).nil3 == mayNon {
					return
				}
				if o.St.f(o.Ret).nil3 != mayNil {
					r.undecided(cs.label + ": cannot tell whether an error is returned")
					return
				}
				good++
				g.outputs(o.St)
			})
			r.count("worlds", 1)
			if good == 0 {
				r.undecided(cs.label + ": generate never succeeds")
			}
		})
	}
}

func (g *outRun) outputs(st *State) {
	n := 3
	if !g.conf {
		n = 1
	}
	unknown := false
	seen := map[string]bool{}
	for _, p := range ghostsWith(st, "#made ") {
		if strings.Contains(p, "?") || strings.HasPrefix(p, "<temporary") {
			unknown = true
		}
		seen[p] = true
	}
	if g.conf {
		if l := ghostsWith(st, "#loaded "); len(l) == 0 {
			g.viol(st, "configuration", "the configuration of the working directory is not loaded")
			return
		}
	}
	for k := 1; k <= n; k++ {
		src := srcOf(k)
		for _, f := range g.names(src) {
			if !strings.HasSuffix(f, ".cddl") {
				continue
			}
			p := fmt.Sprintf("<out%d>/%s.go", k, strings.TrimSuffix(f, ".cddl"))
			want := fmt.Sprintf("package <pkg%d> of read %s/%s", k, src, f)
			got := g.held(st, "handle "+p)
			g.r.count("outputs", 1)
			switch {
			case !seen[p] && unknown:
				g.r.ob(false)
				g.r.undecided(g.label + ": the name of an output is not known")
			case !seen[p]:
				g.viol(st, src+"/"+f+" not generated", "no output is written for "+src+"/"+f)
			case st.ghostConst("#removed "+p) == 1:
				g.viol(st, p+" removed", "the output "+p+" is removed")
			case st.ghostConst("#made "+p) > 1:
				g.viol(st, p+" written again", "the output "+p+" is written more than once")
			case got == want && st.ghostConst("#in handle "+p+"|"+want) == 1:
				g.r.ob(true)
			case got == "" || strings.Contains(got, "?"):
				g.r.ob(false)
				g.r.undecided(g.label + ": what is written to " + p + " is not known")
			default:
				g.viol(st, p+" holds other code", "the output "+p+" holds "+strings.ReplaceAll(got, ";", " and ")+", not "+want)
			}
			delete(seen, p)
		}
	}
	for p := range seen {
		if !strings.HasPrefix(p, "<out") || strings.Contains(p, "?") {
			if !strings.Contains(p, "?") && !strings.HasPrefix(p, "<temporary") {
				g.viol(st, p, "the file "+p+" is written, which is no output of a source")
			}
			continue
		}
		g.viol(st, p, "the file "+p+" is written, which is no output of a source")
	}
}
