package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C24", Rule: "Abstract interpretation of config.LoadConfig for each supported file name and for other names, with every library operation that can fail split into success and failure: a nil error is returned only after the file was opened and decoded without error by the decoder of its name's format, together with the value decoded into; every failure returns an error and no configuration.", Run: checkC24})
	register(&Check{ID: "C25", Rule: "Abstract interpretation of the actions of the commands init, generate, lex and parse, with every library operation that can fail and the outcomes of scanning, parsing and generating split into success and failure: on every path with a failure the action returns an error that is not nil, and errors of the parser are printed first; main ends the process with a failure when an action does.", Run: checkC25})
	register(&Check{ID: "C26", Rule: "Abstract interpretation of the action of generate with ghost state per source: no path creates, truncates, replaces or removes a file while reading, parsing or generating that source has failed or can still fail.", Run: checkC26})
	register(&Check{ID: "C27", Rule: "Abstract interpretation of the action of init: every path opens its configuration file for writing only with O_CREATE and O_EXCL, and replaces, truncates or removes no file it did not create.", Run: checkC27})
	register(&Check{ID: "C28", Rule: "Typestate of file handles under abstract interpretation of the command actions and of config.LoadConfig: each handle an operation yields is closed on every path before the action returns.", Run: checkC28})
}

// cmdRun interprets command code with a model of the operating system.
type cmdRun struct {
	w       *World
	r       *Report
	a       *Analyzer
	fn, pos string // what is being analysed
	succeed bool   // nothing fails
	// hooks
	destroy func(st *State, c *Call, what string)
	write   func(st *State, c *Call, what string)
	fail    func(st *State, c *Call, kind string)
	open    func(st *State, c *Call, what string, flags int64, known bool)
}

const (
	oWRONLY = 0x1
	oRDWR   = 0x2
	oAPPEND = 0x400
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
)

// actions finds the action of each command of the program.
func (w *World) actions() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, fn := range w.repoFuncs() {
		p := pkgTypes(fn)
		if p == nil || p.Name() != "main" && !strings.HasPrefix(p.Path(), RepoPath+"/cmd") {
			continue
		}
		names, acts := map[ssa.Value]string{}, map[ssa.Value]*ssa.Function{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !strings.HasSuffix(pt.Elem().String(), "cli/v2.Command") {
					continue
				}
				st := pt.Elem().Underlying().(*types.Struct)
				switch st.Field(fa.Field).Name() {
				case "Name":
					if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
						names[fa.X] = constant.StringVal(k.Value)
					}
				case "Action":
					v := s.Val
					for {
						if ct, ok := v.(*ssa.ChangeType); ok {
							v = ct.X
							continue
						}
						break
					}
					switch f := v.(type) {
					case *ssa.Function:
						acts[fa.X] = f
					case *ssa.MakeClosure:
						if len(f.Bindings) == 0 {
							acts[fa.X] = f.Fn.(*ssa.Function)
						}
					}
				}
			}
		}
		for k, n := range names {
			if acts[k] != nil {
				out[n] = acts[k]
			}
		}
	}
	return out
}

func (m *cmdRun) failure(st *State, c *Call, kind string) {
	st.setGhost("#failed", C(1))
	st.note(c.Pos, kind+" fails")
	if m.fail != nil {
		m.fail(st, c, kind)
	}
}

func (m *cmdRun) errV(st *State, tag string) V {
	return st.fresh(&Fact{kind: KIface, typ: types.Universe.Lookup("error").Type(), nil3: mayNon, opq: true, tag: tag})
}

// fallible makes a model for an operation that yields results and an error. The values
// of success and failure come from ok and bad; a missing one is unknown or zero.
func (m *cmdRun) fallible(kind string, ok func(st *State, c *Call) V) Model {
	return func(c *Call) []Outcome {
		return m.fork(c, kind, ok)
	}
}

func (m *cmdRun) fork(c *Call, kind string, ok func(st *State, c *Call) V) (outs []Outcome) {
	m.r.count("failing operations", 1)
	res := c.Sig.Results()
	n := res.Len()
	good := c.St.clone()
	cg := *c
	cg.St = good
	var v V
	if ok != nil {
		v = ok(good, &cg)
	}
	nilErr := m.a.nilV(res.At(n - 1).Type())
	if m.succeed {
		defer func() { outs = outs[:1] }()
	}
	if n == 1 {
		outs = append(outs, Outcome{St: good, Ret: nilErr})
	} else {
		if v.undef() {
			v = good.havocV(res.At(0).Type())
			if k := kindOf(res.At(0).Type()); k == KPtr || k == KIface {
				v = good.NonNil(v)
			}
		}
		outs = append(outs, Outcome{St: good, Ret: cg.tuple(v, nilErr)})
	}
	bad := c.St.clone()
	m.failure(bad, c, kind)
	cb := *c
	cb.St = bad
	e := m.errV(bad, "failure")
	if n == 1 {
		outs = append(outs, Outcome{St: bad, Ret: e})
	} else {
		outs = append(outs, Outcome{St: bad, Ret: cb.tuple(bad.zeroV(res.At(0).Type()), e)})
	}
	return outs
}

// handle makes a file handle.
func (m *cmdRun) handle(st *State, c *Call, what string, writable bool) V {
	pos := m.a.pos(c.Pos)
	tag := "file " + what + " at " + pos
	if writable {
		tag = "w" + tag
	}
	k := "#open " + tag
	n := st.ghostConst(k)
	if n < 2 {
		n++
	}
	st.setGhost(k, C(n))
	m.r.count("handles", 1)
	return st.fresh(&Fact{kind: KPtr, typ: c.Sig.Results().At(0).Type(), nil3: mayNon, opq: true, tag: tag})
}

// isNewFile tells whether a handle is of a file that did not exist before.
func isNewFile(st *State, v V) bool {
	t := st.f(v).tag
	return strings.HasPrefix(t, "wfile temporary") || strings.HasPrefix(t, "wfile made")
}

func (m *cmdRun) printedArgs(st *State, args []V) bool {
	for _, v := range args {
		f := st.f(v)
		if f.kind == KSlice {
			vs, ok := st.variadic(v)
			if !ok {
				return true
			}
			if m.printedArgs(st, vs) {
				return true
			}
			continue
		}
		p := st.payload(v)
		if st.f(p).kind == KStr {
			if _, ok := st.constStr(p); ok {
				continue
			}
		}
		return true
	}
	return false
}

// softClear: what was missing has been made or was found otherwise.
func softClear(st *State) {
	if st.ghostConst("#failed") == 2 {
		st.setGhost("#failed", C(0))
	}
}

func (m *cmdRun) setup() {
	w, a := m.w, newAnalyzerFor(m.w)
	m.a = a
	a.MemoMay = true
	a.KeyErrs = true
	a.NoWrap = true // counters stay below 2^63
	R := RepoPath + "/"
	set := func(f Model, names ...string) {
		for _, n := range names {
			a.Models[n] = f
		}
	}
	clear := func(ok func(st *State, c *Call) V) func(st *State, c *Call) V {
		return func(st *State, c *Call) V {
			softClear(st)
			if ok != nil {
				return ok(st, c)
			}
			return V{}
		}
	}
	opened := func(st *State, c *Call, what string, flags int64, known bool) {
		m.r.count("open operations", 1)
		if m.open != nil {
			m.open(st, c, what, flags, known)
		}
	}
	set(m.fallible("opening a file", clear(func(st *State, c *Call) V { return m.handle(st, c, "opened", false) })), "os.Open")
	set(func(c *Call) []Outcome {
		opened(c.St, c, "os.Create", oCREATE|oTRUNC|oRDWR, true)
		return m.fork(c, "creating a file", clear(func(st *State, c *Call) V { return m.handle(st, c, "created", true) }))
	}, "os.Create")
	set(func(c *Call) []Outcome {
		fl, known := c.St.constOf(c.Args[1])
		opened(c.St, c, "os.OpenFile", fl, known)
		wr := !known || fl&(oWRONLY|oRDWR) != 0
		return m.fork(c, "opening a file", clear(func(st *State, c *Call) V {
			if known && fl&(oCREATE|oEXCL) == oCREATE|oEXCL {
				st.setGhost("#created", C(1))
				st.setGhost("?created", c.Args[0])
				return m.handle(st, c, "made", wr)
			}
			return m.handle(st, c, "opened", wr)
		}))
	}, "os.OpenFile")
	set(m.fallible("creating a temporary file", clear(func(st *State, c *Call) V { return m.handle(st, c, "temporary", true) })), "os.CreateTemp", "io/ioutil.TempFile")
	set(m.fallible("reading", clear(nil)), "io/ioutil.ReadAll", "io.ReadAll", "os.ReadFile", "io/ioutil.ReadFile", "(*bytes.Buffer).ReadFrom", "io.ReadFull")
	set(m.fallible("reading", clear(nil)), "(*os.File).Read", "(*os.File).ReadAt", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes")
	set(m.fallible("listing a directory", clear(nil)), "io/ioutil.ReadDir", "os.ReadDir", "(*os.File).ReadDir", "(*os.File).Readdir", "(*os.File).Readdirnames", "path/filepath.WalkDir", "path/filepath.Walk")
	set(m.fallible("making a directory", clear(nil)), "os.MkdirAll", "os.Mkdir")
	set(m.fallible("finding the working directory", nil), "os.Getwd")
	set(m.fallible("copying", nil), "io.Copy", "io.CopyN")
	set(func(c *Call) []Outcome {
		outs := m.fork(c, "stat", nil)
		for _, o := range outs {
			if o.St.ghostConst("#failed") == 1 && c.St.ghostConst("#failed") != 1 {
				o.St.setGhost("#failed", C(2)) // asking whether something is there
			}
		}
		return outs
	}, "os.Stat", "os.Lstat", "(*os.File).Stat")
	set(func(c *Call) []Outcome {
		opened(c.St, c, c.Fn.Name(), oCREATE|oTRUNC|oWRONLY, true)
		return m.fork(c, "writing a file", nil)
	}, "os.WriteFile", "io/ioutil.WriteFile")
	for _, n := range []string{"os.Rename", "os.Remove", "os.RemoveAll", "os.Truncate", "os.Link", "os.Symlink"} {
		n := n
		set(func(c *Call) []Outcome {
			if m.destroy != nil && n != "os.Link" && n != "os.Symlink" {
				m.destroy(c.St, c, n)
			}
			if n == "os.Remove" || n == "os.RemoveAll" {
				return pure(c) // cleaning up
			}
			return m.fork(c, n, nil)
		}, n)
	}
	set(func(c *Call) []Outcome {
		if m.destroy != nil {
			m.destroy(c.St, c, "(*os.File).Truncate")
		}
		return m.fork(c, "truncating", nil)
	}, "(*os.File).Truncate")
	writing := func(c *Call) []Outcome {
		if m.write != nil {
			m.write(c.St, c, "writing")
		}
		return m.fork(c, "writing", nil)
	}
	set(writing, "(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt", "(*os.File).Sync", "(*bufio.Writer).Flush")
	set(func(c *Call) []Outcome {
		return c.one(c.tuple(c.St.freshLen(), c.A.nilV(c.Sig.Results().At(1).Type())))
	},
		"(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune")
	set(func(c *Call) []Outcome {
		f := c.St.f(c.Args[0])
		outs := []Outcome{}
		closed := func(st *State) {
			if f.nil3 == mayNil {
				return
			}
			if f.tag == "" {
				for _, g := range st.ghosts {
					if strings.HasPrefix(g.name, "#open ") {
						st.setGhost(g.name, C(0))
					}
				}
				return
			}
			if k := "#open " + f.tag; st.ghostConst(k) == 1 {
				st.setGhost(k, C(0))
			}
		}
		if strings.HasPrefix(f.tag, "w") {
			outs = m.fork(c, "closing the written file", nil)
		} else {
			outs = c.one(c.A.nilV(c.Sig.Results().At(0).Type()))
		}
		for _, o := range outs {
			closed(o.St)
		}
		return outs
	}, "(*os.File).Close")
	set(pure, "(*os.File).Name", "(*os.File).Fd", "(*os.File).Seek", "(*os.File).Chmod")
	// what becomes of errors
	set(func(c *Call) []Outcome {
		return c.one(m.errV(c.St, "new "+m.a.pos(c.Pos)))
	}, "errors.New")
	set(func(c *Call) []Outcome {
		tag := ""
		if fs, ok := c.St.constStr(c.Args[0]); ok && strings.Contains(fs, "%w") {
			if vs, ok := c.St.variadic(c.Args[1]); ok {
				for _, v := range vs {
					if t := c.St.f(v).tag; t != "" {
						tag = t
					}
				}
			}
		}
		if m.printedArgs(c.St, c.Args[1:]) {
			c.St.setGhost("#printed", C(1))
		}
		return c.one(m.errV(c.St, tag))
	}, "fmt.Errorf")
	set(func(c *Call) []Outcome { // errors.Join
		vs, ok := c.St.variadic(c.Args[0])
		if ok {
			for _, v := range vs {
				if c.St.f(v).nil3 == mayNon {
					return c.one(m.errV(c.St, ""))
				}
			}
		}
		return pure(c)
	}, "errors.Join")
	missing := func(c *Call, st *State) {
		if st.ghostConst("#failed") == 2 {
			st.setGhost("#failed", C(0))
			st.setGhost("#missing", C(1))
			st.note(c.Pos, "found missing")
		} else if st.ghostConst("#failed") == 1 {
			st.setGhost("#probe", C(1))
		}
	}
	split := func(c *Call, yes func(*State)) []Outcome {
		if c.St.f(c.Args[0]).nil3 == mayNil {
			return c.one(C(0))
		}
		y := c.St.clone()
		yes(y)
		return []Outcome{{St: y, Ret: C(1)}, {St: c.St.clone(), Ret: C(0)}}
	}
	set(func(c *Call) []Outcome { return split(c, func(st *State) { missing(c, st) }) }, "os.IsNotExist")
	set(pure, "os.IsExist", "os.IsPermission")
	set(func(c *Call) []Outcome {
		x, t := c.Args[0], c.Args[1]
		if g := globalOf(c, 1); g != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), RepoPath) {
			return split(c, func(st *State) {
				if g.Name() == "ErrNotExist" {
					missing(c, st)
				}
			})
		}
		fx, ft := c.St.f(x), c.St.f(t)
		switch {
		case fx.nil3 == mayNil:
			return c.one(C(0))
		case fx.tag != "" && ft.tag != "":
			b := int64(0)
			if fx.tag == ft.tag {
				b = 1
			}
			return c.one(C(b))
		}
		return pure(c)
	}, "errors.Is")
	// the program's own parts
	lib := func(names ...string) []string {
		var out []string
		for _, n := range names {
			n = strings.ReplaceAll(n, "~", R)
			out = append(out, n)
		}
		return out
	}
	set(nonNilResult, lib("~lexer.NewLexer", "~parser.NewParser", "~transforms/codegen/golang.NewGenerator")...)
	set(func(c *Call) []Outcome {
		res := c.Sig.Results()
		if res.Len() != 2 {
			return pure(c)
		}
		good := c.St.clone()
		cg := *c
		cg.St = good
		bad := c.St.clone()
		m.failure(bad, c, "parsing")
		bad.setGhost("#parsefail", C(1))
		bad.setGhost("#printed", C(0))
		errs := bad.NonNil(bad.havocV(res.At(1).Type()))
		bad.addLE(C(1), orC(bad.f(errs).ln), 0)
		cb := *c
		cb.St = bad
		return []Outcome{
			{St: good, Ret: cg.tuple(good.NonNil(good.havocV(res.At(0).Type())), m.a.nilV(res.At(1).Type()))},
			{St: bad, Ret: cb.tuple(bad.NonNil(bad.havocV(res.At(0).Type())), errs)},
		}
	}, lib("(*~parser.Parser).ParseFile")...)
	set(func(c *Call) []Outcome {
		st := c.St
		names := w.tokenNames()
		var ill, eof int64 = -1, -1
		for k, n := range names {
			switch n {
			case "ILLEGAL":
				ill = k
			case "EOF":
				eof = k
			}
		}
		var outs []Outcome
		mk := func(f func(s *State) V) {
			s := st.clone()
			cc := *c
			cc.St = s
			tk := f(s)
			outs = append(outs, Outcome{St: s, Ret: cc.tuple(tk, s.havocV(c.Sig.Results().At(1).Type()), s.freshStr(0))})
		}
		mk(func(s *State) V { return C(eof) })
		mk(func(s *State) V { m.failure(s, c, "scanning (an illegal token)"); return C(ill) })
		mk(func(s *State) V {
			return s.freshInt(c.Sig.Results().At(0).Type(), setRange(0, 1<<20).minus(setConst(ill)).minus(setConst(eof)))
		})
		return outs
	}, lib("(*~lexer.Lexer).Scan")...)
	set(func(c *Call) []Outcome {
		bad := c.St.clone()
		m.failure(bad, c, "generating")
		bad.panicMsg, bad.panicPos = "the generator panics", c.Pos
		var ret V
		if c.Sig.Results().Len() == 1 {
			ret = c.St.NonNil(c.St.havocV(c.Sig.Results().At(0).Type()))
		}
		return []Outcome{{St: c.St, Ret: ret}, {St: bad, Panic: true}}
	}, lib("(*~transforms/codegen/golang.Generator).Visit")...)
	set(m.fallible("printing the generated code", nil), lib("(*~transforms/codegen/golang.Generator).String")...)
	set(m.fallible("formatting", nil), "go/format.Node", "go/format.Source", "encoding/json.MarshalIndent", "encoding/json.Marshal", "gopkg.in/yaml.v2.Marshal")
	for _, fn := range w.stringers() {
		li := 0
		for i, p := range fn.Params {
			if strings.HasSuffix(p.Type().String(), "ErrorList") {
				li = i
			}
		}
		set(func(c *Call) []Outcome {
			v := c.St.NonNil(c.St.havocV(c.Sig.Results().At(0).Type()))
			l := orC(c.St.f(c.Args[li]).ln)
			if c.St.f(c.Args[li]).nil3 == mayNil {
				l = C(0)
			}
			c.St.assumeEq(orC(c.St.f(v).ln), l)
			return c.one(v)
		}, fn.String())
	}
	// encoders and decoders
	for _, d := range []struct{ pkg, tag string }{{"encoding/json", "json"}, {"gopkg.in/yaml.v2", "yaml"}} {
		d := d
		codec := func(what string) Model {
			return func(c *Call) []Outcome {
				t := d.tag + " " + what + " of " + c.St.f(c.St.payload(c.Args[0])).tag
				return c.one(c.St.fresh(&Fact{kind: KPtr, typ: c.Sig.Results().At(0).Type(), nil3: mayNon, opq: true, tag: t}))
			}
		}
		set(codec("decoder"), d.pkg+".NewDecoder")
		set(codec("encoder"), d.pkg+".NewEncoder")
		set(pure, "(*"+d.pkg+".Encoder).SetIndent", "(*"+d.pkg+".Encoder).SetEscapeHTML", "(*"+d.pkg+".Decoder).DisallowUnknownFields", "(*"+d.pkg+".Decoder).UseNumber", "(*"+d.pkg+".Decoder).More", "(*"+d.pkg+".Decoder).InputOffset", "(*"+d.pkg+".Decoder).SetStrict")
		decoded := func(st *State, v V, from string) {
			st.setGhost("#decoded "+d.tag, C(1))
			st.hold("target", st.payload(v))
			st.forget(v, 0)
		}
		set(m.fallible("decoding", func(st *State, c *Call) V {
			decoded(st, c.Args[1], c.St.f(c.Args[0]).tag)
			return V{}
		}), "(*"+d.pkg+".Decoder).Decode")
		set(m.fallible("decoding", func(st *State, c *Call) V { decoded(st, c.Args[1], ""); return V{} }), d.pkg+".Unmarshal", d.pkg+".UnmarshalStrict")
		set(m.fallible("encoding", nil), "(*"+d.pkg+".Encoder).Encode", "(*"+d.pkg+".Encoder).Close")
	}
	// printing
	pr := func(from int) Model {
		return func(c *Call) []Outcome {
			if m.printedArgs(c.St, c.Args[from:]) {
				c.St.setGhost("#printed", C(1))
			}
			return pure(c)
		}
	}
	set(pr(1), "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln")
	set(pr(0), "fmt.Print", "fmt.Printf", "fmt.Println", "log.Print", "log.Printf", "log.Println")
	set(func(c *Call) []Outcome {
		if k, ok := c.St.constOf(c.Args[0]); ok && k == 0 && c.St.ghostConst("#failed") == 1 {
			m.report(c.St, Finding{Rule: "failures are reported", Func: short(c.Instr.Parent().String()), Pos: m.a.pos(c.Pos), Construct: "os.Exit(0) after a failure", Msg: "the process ends with success after a failure"})
		}
		return nil
	}, "os.Exit")
	// names
	str1 := func(f func(string) string) Model {
		return func(c *Call) []Outcome {
			if s, ok := c.St.constStr(c.Args[0]); ok {
				return c.one(m.a.strConst(f(s)))
			}
			if t := c.St.f(c.Args[0]).tag; t == "some path" {
				v := c.St.freshStr(0)
				f := c.St.f(v).clone()
				f.strNe = []string{"cddlc.json", "cddlc.yaml"}
				return c.one(c.St.fresh(f))
			}
			return c.one(c.St.freshStr(0))
		}
	}
	set(str1(filepath.Base), "path/filepath.Base", "path.Base")
	set(func(c *Call) []Outcome {
		if s, ok := c.St.constStr(c.Args[0]); ok {
			return c.one(m.a.strConst(filepath.Ext(s)))
		}
		return c.one(c.St.freshStr(0))
	}, "path/filepath.Ext", "path.Ext")
	set(func(c *Call) []Outcome {
		// the last element names the file
		v := c.St.freshStr(0)
		if vs, ok := c.St.variadic(c.Args[0]); ok && len(vs) > 0 {
			if b := baseOf(c.St, vs[len(vs)-1]); b != "" {
				f := c.St.f(v).clone()
				f.tag = "base " + b
				v = c.St.fresh(f)
			}
		}
		return c.one(v)
	}, "path/filepath.Join", "path.Join")
	set(func(c *Call) []Outcome { return c.one(c.St.freshStr(0)) }, "path/filepath.Clean", "path/filepath.Dir", "path.Dir")
	set(m.fallible("listing", nil), "path/filepath.Glob")
	set(pure, "path/filepath.Abs", "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bufio.NewReader", "bufio.NewWriter")
	for _, n := range []string{"bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader", "bufio.NewReader", "bufio.NewWriter"} {
		set(nonNilResult, n)
	}
	a.UnknownInvoke = func(c *Call, recv V, mt *types.Func) ([]Outcome, bool) {
		res := mt.Type().(*types.Signature).Results()
		switch mt.Name() {
		case "Write", "WriteString":
			if res.Len() == 2 {
				return m.fork(c, "writing", nil), true
			}
		}
		switch res.Len() {
		case 0:
			return c.one(V{}), true
		case 1:
			v := c.St.havocV(res.At(0).Type())
			if k := kindOf(res.At(0).Type()); k == KIface && res.At(0).Type().String() != "error" {
				v = c.St.NonNil(v)
			}
			return c.one(v), true
		}
		return c.one(c.St.havocV(res)), true
	}
	a.Intercept = func(c *Call) ([]Outcome, bool) {
		if p := pkgTypes(c.Fn); p != nil && strings.HasPrefix(p.Path(), "github.com/urfave/cli") {
			if c.Fn.Name() == "Run" || c.Fn.Name() == "RunContext" {
				return m.fork(c, "running the command", nil), true
			}
			res := c.Sig.Results()
			if res.Len() == 0 {
				return c.one(V{}), true
			}
			if res.Len() == 1 {
				v := c.St.havocV(res.At(0).Type())
				if k := kindOf(res.At(0).Type()); k == KIface || k == KPtr {
					v = c.St.NonNil(v)
				}
				return c.one(v), true
			}
			return c.one(c.St.havocV(res)), true
		}
		return nil, false
	}
	a.HavocElem = func(st *State, t types.Type) V {
		if k := kindOf(t); k == KIface || k == KPtr {
			return st.fresh(&Fact{kind: k, typ: t, nil3: mayNon, opq: true})
		}
		return V{}
	}
}

// baseOf is the last element of a path, where it is known.
func baseOf(st *State, v V) string {
	if s, ok := st.constStr(v); ok {
		if b := path.Base(s); s != "" && b != "." && b != ".." && b != "/" {
			return b
		}
		return ""
	}
	if t := st.f(v).tag; strings.HasPrefix(t, "base ") {
		return t[len("base "):]
	}
	return ""
}

// globalOf finds the package-level variable argument i of a call is read from.
func globalOf(c *Call, i int) *ssa.Global {
	ci, ok := c.Instr.(ssa.CallInstruction)
	if !ok || i >= len(ci.Common().Args) {
		return nil
	}
	u, ok := ci.Common().Args[i].(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, _ := u.X.(*ssa.Global)
	return g
}

func newAnalyzerFor(w *World) *Analyzer { return w.newAnalyzer() }

func (m *cmdRun) report(st *State, f Finding) {
	m.r.ob(false)
	if st.ghostConst("#probe") == 1 {
		m.r.undecided(f.Func + ": " + f.Construct + ": a missing file may be no failure here")
		return
	}
	m.r.violationAt(st, f)
}

// run interprets fn and hands each way it returns to end.
func (m *cmdRun) run(fn *ssa.Function, prep func(st *State, args []V), end func(o Outcome)) {
	n := 0
	err := m.a.Try(func() {
		rels := []string{"token"}
		for _, p := range m.w.Pkgs {
			if rel := strings.TrimPrefix(p.PkgPath, RepoPath+"/"); strings.HasPrefix(rel, "cmd/") || rel == "config" {
				rels = append(rels, rel)
			}
		}
		sort.Strings(rels[1:])
		st := m.w.initState(m.a, rels...)
		args := make([]V, len(fn.Params))
		for i, p := range fn.Params {
			args[i] = st.havocV(p.Type())
			if k := kindOf(p.Type()); k == KPtr || k == KIface {
				args[i] = st.NonNil(args[i])
			}
		}
		if prep != nil {
			prep(st, args)
		}
		for _, o := range m.a.Run(st, fn, args) {
			n++
			end(o)
		}
	})
	m.r.addAnalyzer(m.w, m.a)
	if err != nil {
		m.r.undecided(fmt.Sprintf("analysis of %s gave up: %v", short(fn.String()), err))
	} else if n == 0 {
		m.r.undecided(short(fn.String()) + " has no outcome")
	}
	m.r.sample(fmt.Sprintf("%s: %d outcomes", short(fn.String()), n))
}

// commands runs f for each of the named commands.
func eachCommand(w *World, r *Report, names []string, f func(name string, fn *ssa.Function)) {
	acts := w.actions()
	for _, n := range names {
		if acts[n] == nil {
			r.undecided("the action of the command " + n + " was not found")
			continue
		}
		r.count("commands", 1)
		f(n, acts[n])
	}
}

func checkC25(w *World, r *Report) {
	eachCommand(w, r, []string{"init", "generate", "lex", "parse"}, func(name string, fn *ssa.Function) {
		m := &cmdRun{w: w, r: r}
		m.setup()
		m.run(fn, nil, func(o Outcome) {
			if o.Panic {
				return // a panic ends the process with a failure
			}
			s := o.St
			if s.ghostConst("#failed") == 0 {
				return
			}
			e := s.f(o.Ret).nil3
			what := ""
			for _, t := range s.traceList() {
				if strings.Contains(t, " fails") {
					what = t
				}
			}
			if what != "" {
				what = " (" + what + ")"
			}
			switch {
			case e == mayNil:
				m.report(s, Finding{Rule: "failures are reported", Func: short(fn.String()), Pos: m.a.pos(fn.Pos()), Construct: name + " succeeds after a failure", Msg: "the command " + name + " may return no error although something failed" + what})
				return
			case e != mayNon:
				r.undecided(name + ": cannot tell whether an error is returned" + what)
				return
			}
			r.ob(true)
			if s.ghostConst("#parsefail") == 1 && s.ghostConst("#printed") == 0 {
				m.report(s, Finding{Rule: "failures are reported", Func: short(fn.String()), Pos: m.a.pos(fn.Pos()), Construct: name + " hides parse errors", Msg: "the command " + name + " fails without printing the errors of the parser"})
			}
		})
	})
	// main
	for _, p := range w.Pkgs {
		if p.Name != "main" || !strings.HasPrefix(p.PkgPath, RepoPath+"/cmd") {
			continue
		}
		mn := w.byPath[p.PkgPath].Func("main")
		if mn == nil {
			continue
		}
		m := &cmdRun{w: w, r: r}
		m.setup()
		err := m.a.Try(func() {
			st := m.a.NewState()
			for _, o := range m.a.Run(st, mn, nil) {
				if !o.Panic && o.St.ghostConst("#failed") == 1 {
					m.report(o.St, Finding{Rule: "failures are reported", Func: short(mn.String()), Pos: m.a.pos(mn.Pos()), Construct: "main succeeds after a failure", Msg: "the process may end with success although the command failed"})
				} else {
					r.ob(true)
				}
			}
		})
		r.addAnalyzer(w, m.a)
		if err != nil {
			r.undecided("analysis of main gave up: " + err.Error())
		}
	}
}

func checkC26(w *World, r *Report) {
	eachCommand(w, r, []string{"generate"}, func(name string, fn *ssa.Function) {
		m := &cmdRun{w: w, r: r}
		m.setup()
		source := map[string]bool{"opening a file": true, "reading": true, "parsing": true, "generating": true, "printing the generated code": true, "formatting": true}
		m.fail = func(st *State, c *Call, kind string) {
			if !source[kind] {
				return
			}
			if at := st.ghostConst("#destroyed"); at == 1 {
				m.report(st, Finding{Rule: "output is replaced last", Func: short(c.Instr.Parent().String()), Pos: m.a.pos(c.Pos), Construct: kind + " after the output file is opened",
					Msg: kind + " can fail after the output file has been created, truncated or removed"})
				return
			}
			r.ob(true)
			st.setGhost("#genfail", C(1))
		}
		hit := func(st *State, c *Call, what string) {
			r.count("output operations", 1)
			if st.ghostConst("#missing") == 1 {
				return // something was not there: the file may be the first of its name
			}
			if st.ghostConst("#genfail") == 1 {
				m.report(st, Finding{Rule: "output is replaced last", Func: short(c.Instr.Parent().String()), Pos: m.a.pos(c.Pos), Construct: what + " after a failure",
					Msg: what + " touches the output file although reading, parsing or generating the source failed"})
				return
			}
			r.ob(true)
			st.setGhost("#destroyed", C(1))
			st.note(c.Pos, what)
		}
		m.destroy = func(st *State, c *Call, what string) {
			if what == "os.Remove" && st.ghostConst("#temp") == 1 {
				return
			}
			if what == "(*os.File).Truncate" && isNewFile(st, c.Args[0]) {
				return
			}
			hit(st, c, what)
		}
		m.write = func(st *State, c *Call, what string) {
			if !isNewFile(st, c.Args[0]) && strings.HasPrefix(st.f(c.Args[0]).tag, "w") {
				hit(st, c, what)
			}
		}
		m.open = func(st *State, c *Call, what string, flags int64, known bool) {
			if known && (flags&oTRUNC == 0 || flags&oEXCL != 0) {
				return
			}
			if !known {
				r.undecided("flags of os.OpenFile are not known")
				return
			}
			hit(st, c, what)
		}
		tmp := m.a.Models["os.CreateTemp"]
		for _, n := range []string{"os.CreateTemp", "io/ioutil.TempFile"} {
			m.a.Models[n] = func(c *Call) []Outcome {
				c.St.setGhost("#temp", C(1))
				return tmp(c)
			}
		}
		loops := w.sourceLoops(fn)
		r.count("loops over sources", len(loops))
		m.a.OnBackedge = func(st *State, head *ssa.BasicBlock) {
			if loops[head] { // on to the next source
				for _, g := range []string{"#destroyed", "#genfail", "#missing"} {
					st.setGhost(g, C(0))
				}
			}
		}
		m.run(fn, nil, func(o Outcome) { r.count("outcomes", 1) })
		if r.Counts["output operations"] == 0 {
			r.undecided("generate writes no file by its name")
		}
	})
}

// sourceLoops finds the heads of the loops, in functions reached from fn, that parse.
func (w *World) sourceLoops(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	state := map[*ssa.Function]int{}
	has := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	inst := func(in ssa.Instruction) bool {
		hit := false
		if c, ok := in.(ssa.CallInstruction); ok {
			if g := c.Common().StaticCallee(); g != nil && visit(g) {
				hit = true
			}
		}
		for _, op := range in.Operands(nil) {
			switch g := (*op).(type) {
			case *ssa.Function:
				hit = visit(g) || hit
			case *ssa.MakeClosure:
				hit = visit(g.Fn.(*ssa.Function)) || hit
			}
		}
		return hit
	}
	visit = func(f *ssa.Function) bool {
		if state[f] != 0 {
			return has[f]
		}
		state[f] = 1
		if f.Name() == "ParseFile" && f.Signature.Recv() != nil {
			has[f] = true
			return true
		}
		if p := pkgTypes(f); p == nil || !strings.HasPrefix(p.Path(), RepoPath) {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if inst(in) {
					has[f] = true
				}
			}
		}
		return has[f]
	}
	visit(fn)
	out := map[*ssa.BasicBlock]bool{}
	for f := range state {
		for _, head := range f.Blocks {
			body := map[*ssa.BasicBlock]bool{}
			var add func(b *ssa.BasicBlock)
			add = func(b *ssa.BasicBlock) {
				if body[b] {
					return
				}
				body[b] = true
				if b != head {
					for _, p := range b.Preds {
						add(p)
					}
				}
			}
			for _, p := range head.Preds {
				if head.Dominates(p) {
					add(p)
				}
			}
			for b := range body {
				for _, in := range b.Instrs {
					if inst(in) {
						out[head] = true
					}
				}
			}
		}
	}
	return out
}

func checkC27(w *World, r *Report) {
	eachCommand(w, r, []string{"init"}, func(name string, fn *ssa.Function) {
		m := &cmdRun{w: w, r: r}
		m.setup()
		viol := func(st *State, c *Call, what, msg string) {
			m.report(st, Finding{Rule: "init creates exclusively", Func: short(c.Instr.Parent().String()), Pos: m.a.pos(c.Pos), Construct: what, Msg: msg})
		}
		m.open = func(st *State, c *Call, what string, flags int64, known bool) {
			switch {
			case !known:
				r.undecided("flags of os.OpenFile are not known")
			case flags&(oWRONLY|oRDWR) == 0 && flags&(oCREATE|oTRUNC) == 0:
			case flags&(oCREATE|oEXCL) == oCREATE|oEXCL:
				r.ob(true)
			default:
				viol(st, c, what+" without O_EXCL", what+" may write to a configuration that exists already")
			}
		}
		m.destroy = func(st *State, c *Call, what string) {
			if strings.HasPrefix(what, "os.Remove") && st.ghostConst("#created") == 1 {
				made, ok := st.ghost("?created")
				if ok && st.same(made, c.Args[0]) {
					r.ob(true)
					return
				}
				if ok {
					switch b, g := baseOf(st, made), baseOf(st, c.Args[0]); {
					case b != "" && b == g:
						r.ob(true)
						return
					case b == "" || g == "":
						r.undecided("cannot tell which file " + what + " of init removes")
						return
					}
				}
			}
			if what == "(*os.File).Truncate" && strings.HasPrefix(c.St.f(c.Args[0]).tag, "w") {
				return
			}
			viol(st, c, what, what+" may damage a configuration that exists already")
		}
		m.run(fn, nil, func(o Outcome) {
			if !o.Panic && o.St.ghostConst("#failed") == 1 && o.St.ghostConst("#created") == 0 {
				switch o.St.f(o.Ret).nil3 {
				case mayNil:
					m.report(o.St, Finding{Rule: "init creates exclusively", Func: short(fn.String()), Pos: m.a.pos(fn.Pos()), Construct: "success without a new file", Msg: "init may succeed although the configuration could not be created"})
				case mayNon:
					r.ob(true)
				}
			}
		})
		if r.Counts["open operations"] == 0 {
			r.undecided("init opens no file for writing")
		}
	})
}

func checkC28(w *World, r *Report) {
	one := func(fn *ssa.Function) {
		m := &cmdRun{w: w, r: r}
		m.setup()
		m.run(fn, nil, func(o Outcome) {
			if o.Panic {
				return
			}
			r.count("outcomes", 1)
			for _, g := range o.St.ghosts {
				if !strings.HasPrefix(g.name, "#open ") {
					continue
				}
				k := o.St.ghostConst(g.name)
				name := strings.TrimPrefix(strings.TrimPrefix(g.name, "#open "), "w")
				switch k {
				case 1:
					con := name
					if i := strings.LastIndex(con, ":"); i > 0 {
						con = con[:i]
					}
					m.report(o.St, Finding{Rule: "files are closed", Func: short(fn.String()), Pos: strings.TrimPrefix(name[strings.Index(name, " at ")+1:], "at "), Construct: con, Msg: "the " + name + " is not closed on some path of " + short(fn.String())})
				case 0:
					r.ob(true)
				default:
					r.Notes = append(r.Notes, name+": several handles")
				}
			}
		})
	}
	eachCommand(w, r, []string{"init", "generate", "lex", "parse"}, func(name string, fn *ssa.Function) { one(fn) })
	if fn := w.loadConfig(); fn != nil {
		one(fn)
	} else {
		r.undecided("no config.LoadConfig")
	}
	if r.Counts["handles"] == 0 {
		r.undecided("no file is opened")
	}
}

func (w *World) loadConfig() *ssa.Function {
	p := w.Pkg("config")
	if p == nil {
		return nil
	}
	fn := p.Func("LoadConfig")
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		return nil
	}
	return fn
}

func checkC24(w *World, r *Report) {
	fn := w.loadConfig()
	if fn == nil {
		r.undecided("no config.LoadConfig from a path")
		return
	}
	cases := []struct{ path, format string }{
		{"/p/cddlc.json", "json"}, {"cddlc.json", "json"}, {"/p/cddlc.yaml", "yaml"}, {"./cddlc.yaml", "yaml"},
		{"/p/cddlc.toml", ""}, {"/p/cddlc.yml", ""}, {"/p/other.json", ""}, {"/p/cddlc.jsonx", ""}, {"/p/xcddlc.json", ""}, {"/p/cddlc.json/", "json"}, {"/p/cddlc.yaml.bak", ""}, {"/p/CDDLC.JSON", ""}, {"/p/cddlc", ""}, {"", ""}, {"?", ""},
	}
	for _, cs := range cases {
		cs := cs
		m := &cmdRun{w: w, r: r}
		m.setup()
		viol := func(s *State, con, msg string) {
			m.r.ob(false) // a file that is missing is a failure here
			m.r.violationAt(s, Finding{Rule: "configurations are loaded or refused", Func: short(fn.String()), Pos: m.a.pos(fn.Pos()), Construct: con, Msg: msg})
		}
		label := cs.path
		if label == "?" {
			label = "any other name"
		}
		r.count("file names", 1)
		m.run(fn, func(st *State, args []V) {
			if cs.path == "?" {
				v := st.freshStr(0)
				f := st.f(v).clone()
				f.tag = "some path"
				args[0] = st.fresh(f)
				return
			}
			args[0] = m.a.strConst(cs.path)
		}, func(o Outcome) {
			s := o.St
			if o.Panic {
				viol(s, "panic", "loading "+label+" may panic: "+s.panicMsg)
				return
			}
			conf, e := s.elem(o.Ret, 0), s.elem(o.Ret, 1)
			cn, en := s.f(conf).nil3, s.f(e).nil3
			failed := s.ghostConst("#failed") != 0
			what := ""
			for _, t := range s.traceList() {
				if strings.Contains(t, " fails") {
					what = t
				}
			}
			switch en {
			case mayNon:
				if !r.ob(cn == mayNil) && cn == mayNon {
					viol(s, "configuration with an error", "loading "+label+" returns a configuration together with an error")
				}
				return
			case mayNil:
			default:
				r.undecided("cannot tell whether loading " + label + " returns an error")
				return
			}
			if failed {
				viol(s, "success after a failure", "loading "+label+" returns no error although something failed ("+what+")")
				return
			}
			if cs.format == "" {
				viol(s, "unknown name accepted", "loading "+label+" returns no error")
				return
			}
			if cn == mayNil {
				viol(s, "no configuration", "loading "+label+" returns neither a configuration nor an error")
				return
			}
			js, ys := s.ghostConst("#decoded json"), s.ghostConst("#decoded yaml")
			if cs.format == "json" && (js != 1 || ys == 1) || cs.format == "yaml" && (ys != 1 || js == 1) {
				viol(s, "decoder of another format", "loading "+label+" returns a configuration that was not decoded as "+cs.format)
				return
			}
			tg, ok := s.ghost("?target")
			if ok && s.samePtr(tg, conf) {
				r.ob(true)
			} else if ok && len(s.f(conf).tg) == 1 && len(s.f(tg).tg) == 1 && !s.f(conf).opq && !s.f(tg).opq {
				viol(s, "another configuration", "loading "+label+" returns another configuration than the one decoded")
			} else {
				r.undecided("cannot tell whether the configuration returned is the one decoded")
			}
		})
	}
}

var _ = token.NoPos
