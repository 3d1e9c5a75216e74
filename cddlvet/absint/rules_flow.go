package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C20", Rule: "Whole-program alias and effect analysis of the library packages: a value that may point to memory reachable from a package-level variable is followed through loads, fields, parameters, results, closures and dynamic calls; outside package initialisers and sync.Once no store, map update, append in place, copy, delete or mutating library call may have such a value as its target.", Run: checkC20})
	register(&Check{ID: "C21", Rule: "Effect analysis of the library packages: no call of a random source, clock, environment or scheduler, no order-sensitive use of a map iteration, no formatting of an address, no results gathered from goroutines in the order they finish.", Run: checkC21})
	register(&Check{ID: "C22", Rule: "Call-site enumeration of the library packages: no call of, and no reference to, a function or variable of the standard library that touches files, processes, the network or the standard streams or ends the process; fmt.Print and its kin only in functions reached from functions named Print.", Run: checkC22})
	register(&Check{ID: "C23", Rule: "Comparison, for every struct type reachable from config.Config, of the key, the type mapping and the options of each field under encoding/json and yaml.v2, and of the strictness of the decoders.", Run: checkC23})
}

// libFuncs lists the functions of the library: all packages that are no command, example
// or configuration.
func (w *World) libFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.repoFuncs() {
		if p := pkgTypes(fn); p != nil && w.libPkg(p) {
			out = append(out, fn)
		}
	}
	return out
}

func (w *World) libPkg(p *types.Package) bool {
	rel := strings.TrimPrefix(p.Path(), RepoPath+"/")
	if p.Name() == "main" {
		return false
	}
	for _, pre := range []string{"cmd", "config", "examples", "internal/cmd"} {
		if rel == pre || strings.HasPrefix(rel, pre+"/") {
			return false
		}
	}
	return true
}

func pkgTypes(fn *ssa.Function) *types.Package {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (w *World) position(p token.Pos) string {
	q := w.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, w.Dir+"/"), q.Line)
}

// flow is a program-wide alias analysis: which values may point to memory that is
// reachable from a package-level variable.
type flow struct {
	w        *World
	funcs    []*ssa.Function
	initOnly map[*ssa.Function]bool
	shared   map[ssa.Value]string // value points to shared memory: the variable
	holds    map[ssa.Value]string // memory behind the value holds shared pointers
	fields   map[string]string    // struct fields that hold shared pointers
	results  map[*ssa.Function]map[int]string
	bySig    map[string][]*ssa.Function
	methods  map[string][]*ssa.Function
	changed  bool
}

func pointerish(t types.Type) bool { return pointerish2(t, 0) }

func pointerish2(t types.Type, d int) bool {
	if d > 4 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerish2(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return pointerish2(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerish2(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func isInit(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// references lists, for each function, the functions that call it directly and whether it
// is used as a value.
func references(funcs []*ssa.Function) (callers map[*ssa.Function][]*ssa.Function, value, once map[*ssa.Function]bool) {
	callers, value, once = map[*ssa.Function][]*ssa.Function{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	target := func(v ssa.Value) *ssa.Function {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		}
		return nil
	}
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, _ := in.(ssa.CallInstruction)
				var direct ssa.Value
				if call != nil {
					c := call.Common()
					if f := c.StaticCallee(); f != nil {
						if o := f.Origin(); o != nil {
							f = o
						}
						if _, isGo := in.(*ssa.Go); !isGo {
							callers[f] = append(callers[f], fn)
							direct = c.Value
						}
						if n := f.String(); n == "(*sync.Once).Do" || n == "sync.OnceFunc" || n == "sync.OnceValue" || n == "sync.OnceValues" {
							if g := target(c.Args[len(c.Args)-1]); g != nil {
								once[g] = true
								continue
							}
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					// the closure is a value unless it is only called
					used := false
					for _, r := range *mc.Referrers() {
						if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == mc {
							continue
						}
						if c, ok := r.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && strings.HasPrefix(c.Common().StaticCallee().String(), "(*sync.Once).Do") {
							continue
						}
						used = true
					}
					if used {
						value[mc.Fn.(*ssa.Function)] = true
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == direct && direct != nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						value[f] = true
					}
				}
			}
		}
	}
	return
}

func (w *World) newFlow() *flow {
	f := &flow{w: w, funcs: w.repoFuncs(), initOnly: map[*ssa.Function]bool{}, shared: map[ssa.Value]string{}, holds: map[ssa.Value]string{},
		fields: map[string]string{}, results: map[*ssa.Function]map[int]string{}, bySig: map[string][]*ssa.Function{}, methods: map[string][]*ssa.Function{}}
	callers, value, once := references(f.funcs)
	for _, fn := range f.funcs {
		if isInit(fn) || once[fn] {
			f.initOnly[fn] = true
		}
		if fn.Signature.Recv() != nil {
			f.methods[fn.Name()] = append(f.methods[fn.Name()], fn)
		} else if value[fn] || fn.Parent() != nil {
			k := sigKey(fn.Signature)
			f.bySig[k] = append(f.bySig[k], fn)
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range f.funcs {
			if f.initOnly[fn] || value[fn] || fn.Signature.Recv() != nil || len(callers[fn]) == 0 {
				continue
			}
			if fn.Object() != nil && fn.Object().Exported() {
				continue
			}
			ok := true
			for _, c := range callers[fn] {
				if !f.initOnly[c] {
					ok = false
				}
			}
			if ok {
				f.initOnly[fn] = true
				again = true
			}
		}
	}
	for n := 0; n < 50; n++ {
		f.changed = false
		for _, fn := range f.funcs {
			f.function(fn)
		}
		if !f.changed {
			break
		}
	}
	return f
}

func (f *flow) markShared(v ssa.Value, g string) {
	if _, ok := v.(*ssa.Const); ok || g == "" {
		return
	}
	if f.shared[v] == "" && pointerish(v.Type()) {
		f.shared[v] = g
		f.changed = true
	}
}

func (f *flow) markHolds(v ssa.Value, g string) {
	if g == "" {
		return
	}
	if f.holds[v] == "" {
		f.holds[v] = g
		f.changed = true
	}
}

// of tells the variable whose memory v may point to.
func (f *flow) of(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), RepoPath) && !strings.HasPrefix(g.Name(), "init$") {
			return g.Pkg.Pkg.Name() + "." + g.Name()
		}
		return ""
	}
	return f.shared[v]
}

func fieldKey(v ssa.Value, i int) string {
	t := v.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s#%d", t, i)
}

// root finds the value whose memory an address lies in.
func root(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// fieldOf finds the outermost field an address lies in.
func fieldOf(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return fieldKey(x.X, x.Field)
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return ""
			}
			v = x.X
		default:
			return ""
		}
	}
}

// sigKey names a signature without the names of parameters and results.
func sigKey(s *types.Signature) string {
	var b strings.Builder
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		b.WriteString("(")
		for i := 0; i < t.Len(); i++ {
			b.WriteString(types.TypeString(t.At(i).Type(), nil) + ";")
		}
		b.WriteString(")")
	}
	if s.Variadic() {
		b.WriteString("...")
	}
	return b.String()
}

func (f *flow) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		var out []*ssa.Function
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, m := range f.methods[c.Method.Name()] {
			if it != nil && types.Implements(m.Signature.Recv().Type(), it) {
				out = append(out, m)
			}
		}
		return out
	}
	if s := c.StaticCallee(); s != nil {
		if s.Blocks == nil && s.Origin() != nil {
			s = s.Origin()
		}
		return []*ssa.Function{s}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return f.bySig[sigKey(c.Signature())]
}

func (f *flow) function(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				f.markShared(x, f.of(x.X))
				f.markHolds2(x, f.holds[x.X])
			case *ssa.IndexAddr:
				f.markShared(x, f.of(x.X))
				f.markHolds2(x, f.holds[x.X])
			case *ssa.Field:
				f.markShared(x, f.of(x.X))
				f.markShared(x, f.fields[fieldKey(x.X, x.Field)])
			case *ssa.Index:
				f.markShared(x, f.of(x.X))
			case *ssa.Lookup:
				f.markShared(x, f.of(x.X))
				f.markShared(x, f.holds[x.X])
			case *ssa.UnOp:
				if x.Op == token.MUL {
					f.markShared(x, f.of(x.X))
					f.markShared(x, f.holds[x.X])
					f.markShared(x, f.holds[root(x.X)])
					if k := fieldOf(x.X); k != "" {
						f.markShared(x, f.fields[k])
					}
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					f.markShared(x, f.of(e))
					f.markHolds2(x, f.holds[e])
				}
			case *ssa.ChangeType:
				f.markShared(x, f.of(x.X))
				f.markHolds2(x, f.holds[x.X])
			case *ssa.ChangeInterface:
				f.markShared(x, f.of(x.X))
				f.markHolds2(x, f.holds[x.X])
			case *ssa.MakeInterface:
				f.markShared(x, f.of(x.X))
				f.markHolds2(x, f.holds[x.X])
			case *ssa.TypeAssert:
				f.markShared(x, f.of(x.X))
				f.markHolds2(x, f.holds[x.X])
			case *ssa.Slice:
				f.markShared(x, f.of(x.X))
				f.markHolds2(x, f.holds[x.X])
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					for _, g := range f.callees(c.Common()) {
						f.markShared(x, f.results[g][x.Index])
					}
				} else {
					f.markShared(x, f.shared[x.Tuple])
				}
			case *ssa.Range:
				f.markShared(x, f.of(x.X))
			case *ssa.Next:
				if f.shared[x.Iter] != "" && f.shared[x] == "" {
					f.shared[x] = f.shared[x.Iter]
					f.changed = true
				}
			case *ssa.Store:
				if g := f.of(x.Val); g != "" && pointerish(x.Val.Type()) {
					if k := fieldOf(x.Addr); k != "" {
						if f.fields[k] == "" && !f.initOnly[fn] {
							f.fields[k] = g
							f.changed = true
						}
					} else {
						f.markHolds(root(x.Addr), g)
					}
				}
			case *ssa.MapUpdate:
				if g := f.of(x.Value); g != "" {
					f.markHolds(x.Map, g)
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, v := range x.Bindings {
					if i < len(g.FreeVars) {
						f.markShared(g.FreeVars[i], f.of(v))
						f.markHolds2(g.FreeVars[i], f.holds[v])
						f.markHolds2(v, f.holds[g.FreeVars[i]])
					}
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if g := f.of(v); g != "" && pointerish(v.Type()) {
						if f.results[fn] == nil {
							f.results[fn] = map[int]string{}
						}
						if f.results[fn][i] == "" {
							f.results[fn][i] = g
							f.changed = true
						}
					}
				}
			}
			if call, ok := in.(ssa.CallInstruction); ok {
				f.call(fn, call)
			}
		}
	}
}

func (f *flow) markHolds2(v ssa.Value, g string) {
	if g != "" {
		f.markHolds(v, g)
	}
}

func (f *flow) call(fn *ssa.Function, call ssa.CallInstruction) {
	c := call.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" && call.Value() != nil {
			if !wholeLiteral(c.Args[0]) {
				f.markShared(call.Value(), f.of(c.Args[0]))
			}
			f.markHolds2(call.Value(), f.holds[c.Args[0]])
			for _, x := range c.Args[1:] {
				f.markHolds2(call.Value(), f.holds[x])
				if g := f.of(x); g != "" {
					// elements of a shared slice
					if s, ok := x.Type().Underlying().(*types.Slice); ok && pointerish(s.Elem()) {
						f.markHolds(call.Value(), g)
					}
				}
			}
		}
		return
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for _, g := range f.callees(c) {
		if g.Blocks == nil {
			if externAlias(g) && call.Value() != nil {
				for _, x := range args {
					f.markShared(call.Value(), f.of(x))
				}
			}
			continue
		}
		for i, p := range g.Params {
			if i < len(args) && !f.initOnly[fn] {
				f.markShared(p, f.of(args[i]))
				f.markHolds2(p, f.holds[args[i]])
			}
		}
		if v := call.Value(); v != nil && g.Signature.Results().Len() == 1 {
			f.markShared(v, f.results[g][0])
		}
	}
}

// externAlias tells whether the result of a library function shares memory with its arguments.
func externAlias(fn *ssa.Function) bool {
	switch n := fn.String(); n {
	case "bytes.NewBuffer", "bytes.NewReader", "bufio.NewWriter", "bufio.NewReader", "reflect.ValueOf", "reflect.Indirect", "(reflect.Value).Elem", "(reflect.Value).Field", "(reflect.Value).Index",
		"bytes.TrimSpace", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimPrefix", "bytes.TrimSuffix", "bytes.TrimFunc", "bytes.TrimLeftFunc", "bytes.TrimRightFunc",
		"bytes.Cut", "bytes.CutPrefix", "bytes.CutSuffix", "bytes.Fields", "bytes.Split":
		return true
	default:
		return strings.HasPrefix(n, "slices.") && (strings.Contains(n, "Insert") || strings.Contains(n, "Grow") || strings.Contains(n, "Clip"))
	}
}

// wholeLiteral tells whether v is the value of a variable that only ever holds a slice
// literal: appending to it copies it.
func wholeLiteral(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return false
	}
	init := g.Pkg.Func("init")
	n := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				n++
				sl, ok := s.Val.(*ssa.Slice)
				if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
					return false
				}
			}
		}
	}
	return n == 1
}

// externMutates tells which argument of a library call is written through, or -1.
func externMutates(fn *ssa.Function) int {
	n := fn.String()
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "maps.Copy", "maps.DeleteFunc", "copy",
		"sync/atomic.AddInt32", "sync/atomic.AddInt64", "sync/atomic.AddUint32", "sync/atomic.AddUint64", "sync/atomic.StoreInt32", "sync/atomic.StoreInt64", "sync/atomic.StoreUint32", "sync/atomic.StoreUint64", "sync/atomic.StorePointer",
		"sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapInt64", "sync/atomic.SwapInt32", "sync/atomic.SwapInt64",
		"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		return 0
	case "encoding/json.Unmarshal":
		return 1
	}
	if strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") || strings.HasPrefix(n, "slices.Delete") || strings.HasPrefix(n, "slices.Compact") {
		return 0
	}
	if r := fn.Signature.Recv(); r != nil {
		if _, ok := r.Type().(*types.Pointer); !ok {
			return -1
		}
		if p := pkgTypes(fn); p != nil && p.Path() == "sync" && !strings.HasPrefix(n, "(*sync.Map)") {
			return -1
		}
		if p := pkgTypes(fn); p != nil && (p.Path() == "log" || p.Path() == "os" || p.Path() == "regexp") && !strings.HasPrefix(fn.Name(), "Set") {
			return -1
		}
		for _, pre := range []string{"Write", "Set", "Add", "Append", "Push", "Pop", "Reset", "Grow", "Truncate", "Read", "Scan", "Next", "Store", "Delete", "Insert", "Remove", "Swap", "Put", "LoadOrStore", "LoadAndDelete", "CompareAndSwap", "Seek", "Unread", "Init"} {
			if strings.HasPrefix(fn.Name(), pre) {
				return 0
			}
		}
	}
	return -1
}

// processState lists library functions that change the state of the whole process.
var processState = map[string]bool{
	"log.SetOutput": true, "log.SetFlags": true, "log.SetPrefix": true, "math/rand.Seed": true, "os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true, "os.Chdir": true,
	"github.com/iancoleman/strcase.ConfigureAcronym": true, "runtime.GOMAXPROCS": true, "runtime/debug.SetGCPercent": true, "runtime/debug.SetMaxStack": true, "flag.Parse": true, "flag.Set": true,
	"os/signal.Notify": true, "syscall.Setenv": true,
}

func checkC20(w *World, r *Report) {
	f := w.newFlow()
	report := func(fn *ssa.Function, in ssa.Instruction, g, what string) {
		r.violation(Finding{Rule: "no package state is modified", Func: short(fn.String()), Pos: w.position(in.Pos()),
			Construct: what + " " + g, Msg: fmt.Sprintf("%s of memory reachable from the package-level variable %s after initialisation", what, g)})
	}
	inits := 0
	for _, fn := range w.libFuncs() {
		if f.initOnly[fn] {
			inits++
			continue
		}
		r.fn(short(fn.String()))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					r.count("stores", 1)
					g := f.of(x.Addr)
					if !r.ob(g == "") {
						report(fn, in, g, "store")
					}
				case *ssa.MapUpdate:
					r.count("map updates", 1)
					g := f.of(x.Map)
					if !r.ob(g == "") {
						report(fn, in, g, "map update")
					}
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							r.count("appends", 1)
							g := f.of(c.Args[0])
							if !r.ob(g == "" || wholeLiteral(c.Args[0])) {
								report(fn, in, g, "append in place")
							}
						case "copy", "delete", "clear":
							g := f.of(c.Args[0])
							if !r.ob(g == "") {
								report(fn, in, g, bi.Name())
							}
						}
						continue
					}
					if s := c.StaticCallee(); s != nil && s.Blocks == nil {
						r.count("library calls", 1)
						if i := externMutates(s); i >= 0 && i < len(c.Args) {
							g := f.of(c.Args[i])
							if !r.ob(g == "") {
								report(fn, in, g, "call of "+short(s.String()))
							}
						}
						if !r.ob(!processState[s.String()]) {
							r.violation(Finding{Rule: "no package state is modified", Func: short(fn.String()), Pos: w.position(in.Pos()),
								Construct: s.String(), Msg: "library code calls " + s.String() + ", which changes state of the whole process"})
						}
					}
				}
			}
		}
	}
	var vars []string
	for _, p := range w.Pkgs {
		if sp := w.byPath[p.PkgPath]; sp != nil && strings.HasPrefix(p.PkgPath, RepoPath) && w.libPkg(p.Types) {
			for n, m := range sp.Members {
				if _, ok := m.(*ssa.Global); ok && !strings.HasPrefix(n, "init$") {
					vars = append(vars, p.Types.Name()+"."+n)
				}
			}
		}
	}
	sort.Strings(vars)
	r.sample("package-level variables: " + strings.Join(vars, ", "))
	r.count("initialisation functions", inits)
	r.count("values that may point to shared memory", len(f.shared))
}

// ---- C21 ----

var nondet = []string{"math/rand.", "math/rand/v2.", "crypto/rand.", "time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewT", "time.Sleep", "(*math/rand", "(*time.T",
	"os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv", "os.Getpid", "os.Getppid", "os.Hostname", "os.Getwd", "os.Executable", "os.Getuid", "os.UserHomeDir",
	"runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.Caller", "runtime.Stack", "runtime.ReadMemStats", "runtime.SetFinalizer", "hash/maphash.", "(*hash/maphash",
	"(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "context.WithTimeout", "context.WithDeadline", "net.", "runtime/debug."}

func hasPrefixOf(s string, ps []string) string {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return p
		}
	}
	return ""
}

// sorts tells whether fn calls a sorting function, itself or through a helper.
func sorts(fn *ssa.Function, d int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if s := c.Common().StaticCallee(); s != nil {
					n := s.String()
					if s.Origin() != nil {
						n = s.Origin().String()
					}
					if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Sorted") {
						return true
					}
					if d > 0 && s.Blocks != nil && sorts(s, d-1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ordered tells whether calling fn leaves a trace that depends on the order of the calls:
// it appends to or concatenates in memory that outlives it, or writes to a stream.
func ordered(fn *ssa.Function, d int, seen map[*ssa.Function]bool) string {
	if seen[fn] || fn.Blocks == nil {
		return ""
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := root(x.Addr).(*ssa.Alloc); ok {
					continue
				}
				if s := orderedValue(x.Val, nil); s != "" {
					return s + " in " + short(fn.String())
				}
			case ssa.CallInstruction:
				c := x.Common()
				if s := streamWrite(c); s != "" {
					return s + " in " + short(fn.String())
				}
				if s := c.StaticCallee(); s != nil && d > 0 {
					if t := ordered(s, d-1, seen); t != "" {
						return t
					}
				}
			}
		}
	}
	return ""
}

func orderedValue(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return "append"
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				return "concatenation"
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := orderedValue(e, seen); s != "" {
				return s
			}
		}
	}
	return ""
}

func streamWrite(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		if strings.HasPrefix(c.Method.Name(), "Write") {
			return "write to a stream"
		}
		return ""
	}
	s := c.StaticCallee()
	if s == nil || s.Blocks != nil {
		return ""
	}
	n := s.String()
	if strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Print") || n == "io.WriteString" {
		return "write to a stream"
	}
	if s.Signature.Recv() != nil && strings.HasPrefix(s.Name(), "Write") && (strings.HasPrefix(n, "(*strings.Builder)") || strings.HasPrefix(n, "(*bytes.Buffer)") || strings.HasPrefix(n, "(*bufio.Writer)")) {
		return "write to a buffer"
	}
	return ""
}

// natural finds the blocks of the loop with header h.
func natural(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !loop[p] {
			loop[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !loop[p] && h.Dominates(p) {
				loop[p] = true
				work = append(work, p)
			}
		}
	}
	return loop
}

// derived collects the values computed from v within the loop.
func derived(v ssa.Value, loop map[*ssa.BasicBlock]bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{v: true}
	work := []ssa.Value{v}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x.Referrers() == nil {
			continue
		}
		for _, in := range *x.Referrers() {
			if !loop[in.Block()] {
				continue
			}
			switch y := in.(type) {
			case *ssa.Phi:
				continue
			case ssa.Value:
				if !out[y] {
					out[y] = true
					work = append(work, y)
				}
			case *ssa.Store:
				r := root(y.Addr)
				if _, ok := r.(*ssa.Alloc); ok && !out[r] && loop[r.(ssa.Instruction).Block()] {
					out[r] = true
					work = append(work, r)
				}
			}
		}
	}
	return out
}

// mapLoop looks for a use of a map iteration that depends on its order.
func mapLoop(w *World, next *ssa.Next) (string, ssa.Instruction, string) {
	h := next.Block()
	loop := natural(h)
	if len(loop) == 1 && func() bool {
		for _, s := range h.Succs {
			if s == h {
				return false
			}
		}
		return true
	}() {
		return "first element of a map", next, ""
	}
	elems := derived(next, loop)
	fn := h.Parent()
	sorted := sorts(fn, 1)
	unsure := ""
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call, *ssa.Defer, *ssa.Go:
				c := x.(ssa.CallInstruction).Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && !sorted {
						grows := false
						if v, ok := x.(ssa.Value); ok {
							for _, ref := range *v.Referrers() {
								if p, ok := ref.(*ssa.Phi); ok && p.Block() == h {
									grows = true
								}
								if s, ok := ref.(*ssa.Store); ok && s.Val == v {
									if r, ok := root(s.Addr).(*ssa.Alloc); !ok || !loop[r.Block()] {
										grows = true
									}
								}
								if p, ok := ref.(*ssa.Phi); ok && p.Block() != h && loop[p.Block()] {
									grows = true
								}
							}
						}
						uses := false
						for _, a := range c.Args[1:] {
							uses = uses || elems[a]
						}
						if grows && uses {
							return "append to a list", in, ""
						}
					}
					continue
				}
				uses := false
				for _, a := range c.Args {
					uses = uses || elems[a]
				}
				if c.IsInvoke() || c.StaticCallee() == nil {
					uses = uses || elems[c.Value]
				}
				if !uses {
					continue
				}
				if s := streamWrite(c); s != "" {
					return s, in, ""
				}
				if s := c.StaticCallee(); s != nil && w.Repo(s) {
					if t := ordered(s, 3, map[*ssa.Function]bool{}); t != "" {
						return t, in, ""
					}
				} else if s == nil && !c.IsInvoke() {
					cands, ord := w.bySignature(c.Signature()), ""
					n := 0
					for _, g := range cands {
						if t := ordered(g, 3, map[*ssa.Function]bool{}); t != "" {
							ord = t
							n++
						}
					}
					if n > 0 && n == len(cands) {
						return ord, in, ""
					}
					if n > 0 {
						unsure = "a function value is called for each element of a map, which may keep them in order"
					}
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && (elems[x.X] || elems[x.Y]) {
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && !sorted {
						for _, ref := range *x.Referrers() {
							if p, ok := ref.(*ssa.Phi); ok && loop[p.Block()] {
								return "concatenation", in, ""
							}
							if s, ok := ref.(*ssa.Store); ok && s.Val == x {
								if r, ok := root(s.Addr).(*ssa.Alloc); !ok || !loop[r.Block()] {
									return "concatenation", in, ""
								}
							}
						}
					}
				}
			case *ssa.Store:
				if elems[x.Val] {
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !elems[ia.Index] && !sorted {
						if _, ok := root(x.Addr).(*ssa.Alloc); !ok {
							return "store into a list", in, ""
						}
					}
				}
			}
		}
	}
	return "", nil, unsure
}

// bySignature lists the function values of the repository with a signature.
func (w *World) bySignature(s *types.Signature) []*ssa.Function {
	k := sigKey(s)
	funcs := w.repoFuncs()
	_, value, _ := references(funcs)
	var out []*ssa.Function
	for _, fn := range funcs {
		if (value[fn] || strings.HasSuffix(fn.Name(), "$bound")) && sigKey(fn.Signature) == k {
			out = append(out, fn)
		}
	}
	return out
}

func checkC21(w *World, r *Report) {
	report := func(fn *ssa.Function, in ssa.Instruction, con, msg string) {
		r.violation(Finding{Rule: "results are a function of the input", Func: short(fn.String()), Pos: w.position(in.Pos()), Construct: con, Msg: msg})
	}
	ranges := 0
	for _, fn := range w.libFuncs() {
		r.fn(short(fn.String()))
		goInLoop := func(b *ssa.BasicBlock) bool { return reaches(b, b) }
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Next:
					if x.IsString {
						continue
					}
					if _, ok := x.Iter.(*ssa.Range); !ok {
						continue
					}
					ranges++
					what, at, unsure := mapLoop(w, x)
					if !r.ob(what == "") {
						report(fn, at, "map iteration: "+what, "the order of a map iteration shows: "+what)
					} else if unsure != "" {
						r.undecided(short(fn.String()) + ": " + unsure)
					}
				case *ssa.Select:
					if len(x.States) > 1 {
						r.undecided(short(fn.String()) + ": select between several channels")
					}
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if xt, ok := x.X.Type().Underlying().(*types.Basic); ok && xt.Kind() == types.UnsafePointer {
							r.ob(false)
							report(fn, in, "address as a number", "an address is used as a number")
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					if _, isGo := x.(*ssa.Go); isGo {
						var body *ssa.Function
						if s := c.StaticCallee(); s != nil {
							body = s
						}
						if body != nil {
							if t := gathers(body); t != "" && goInLoop(b) {
								r.ob(false)
								report(fn, in, "goroutines", "goroutines started in a loop gather results in the order they finish: "+t)
								continue
							}
						}
						r.undecided(short(fn.String()) + " starts a goroutine")
						continue
					}
					s := c.StaticCallee()
					if s == nil || s.Blocks != nil {
						continue
					}
					r.count("library calls", 1)
					n := s.String()
					if s.Origin() != nil {
						n = s.Origin().String()
					}
					if p := hasPrefixOf(n, nondet); !r.ob(p == "") {
						report(fn, in, n, "library code calls "+n)
					}
					if (n == "maps.Keys" || n == "maps.Values") && !sorts(fn, 1) {
						r.undecided(short(fn.String()) + " lists the keys of a map")
					}
					if what := formatsAddress(w, c, n); !r.ob(what == "") {
						report(fn, in, "formatted address", what)
					}
				}
			}
		}
	}
	r.count("map iterations", ranges)
	r.sample(fmt.Sprintf("%d map iterations in library code", ranges))
}

// gathers tells whether a goroutine's function adds to shared memory in the order of execution.
func gathers(fn *ssa.Function) string {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				return "send"
			case *ssa.Store:
				if _, ok := root(x.Addr).(*ssa.Alloc); ok {
					continue
				}
				if s := orderedValue(x.Val, nil); s != "" {
					return s
				}
			}
		}
	}
	return ordered(fn, 3, map[*ssa.Function]bool{})
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Succs...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return false
}

// formatsAddress tells whether a call of a formatting function prints an address.
func formatsAddress(w *World, c *ssa.CallCommon, n string) string {
	fi := -1
	verbs := true
	switch n {
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Printf":
		fi = 0
	case "fmt.Fprintf", "fmt.Appendf":
		fi = 1
	case "fmt.Sprint", "fmt.Sprintln", "fmt.Print", "fmt.Println":
		fi, verbs = -1, false
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Append", "fmt.Appendln":
		fi, verbs = 0, false
	default:
		return ""
	}
	if fi+1 >= len(c.Args) {
		return ""
	}
	args := variadicArgs(c.Args[fi+1])
	if !verbs {
		for _, a := range args {
			if s := w.argAddress(a, 'v'); s != "" {
				return s
			}
		}
		return ""
	}
	k, ok := c.Args[fi].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return ""
	}
	i := 0
	fs := constant.StringVal(k.Value)
	for p := 0; p < len(fs); p++ {
		if fs[p] != '%' {
			continue
		}
		p++
		for p < len(fs) && strings.ContainsRune("+-# 0123456789.*", rune(fs[p])) {
			if fs[p] == '*' {
				i++
			}
			p++
		}
		if p >= len(fs) || fs[p] == '[' {
			return ""
		}
		if fs[p] == '%' {
			continue
		}
		if i < len(args) {
			if fs[p] == 'p' {
				return "an address is printed with %p"
			}
			if strings.IndexByte("vsq", fs[p]) >= 0 {
				if s := w.argAddress(args[i], fs[p]); s != "" {
					return s
				}
			}
		}
		i++
	}
	return ""
}

// variadicArgs finds the values put into the slice of a variadic call.
func variadicArgs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, r := range *ia.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ia {
				out[k.Int64()] = s.Val
			}
		}
	}
	return out
}

func (w *World) argAddress(v ssa.Value, verb byte) string {
	var t types.Type
	switch x := v.(type) {
	case nil:
		return ""
	case *ssa.MakeInterface:
		t = x.X.Type()
	case *ssa.ChangeInterface:
		t = x.X.Type()
	default:
		t = v.Type()
	}
	if p := w.addressIn(t, 0, true, map[types.Type]bool{}); p != "" {
		return "formatting a value of type " + types.TypeString(t, nil) + " prints an address: " + p
	}
	return ""
}

func hasTextMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Error", "String", "Format"} {
		for i := 0; i < ms.Len(); i++ {
			if m := ms.At(i).Obj(); m.Name() == n {
				s := m.Type().(*types.Signature)
				if n == "Format" || s.Params().Len() == 0 && s.Results().Len() == 1 {
					return true
				}
			}
		}
	}
	return false
}

// addressIn tells whether fmt prints an address for some value of type t.
func (w *World) addressIn(t types.Type, depth int, access bool, seen map[types.Type]bool) string {
	if depth > 6 || seen[t] && depth > 0 {
		return ""
	}
	if access && hasTextMethod(t) {
		return ""
	}
	seen[t] = true
	defer delete(seen, t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return w.addressIn2(u.Elem(), depth+1, access, seen)
			}
		}
		return types.TypeString(t, nil)
	case *types.Signature, *types.Chan:
		return types.TypeString(t, nil)
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
	case *types.Interface:
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), RepoPath) {
			return ""
		}
		for _, d := range w.implementers(u) {
			if s := w.addressIn(d, depth, access, seen); s != "" {
				return types.TypeString(d, nil) + " holds " + s
			}
		}
	default:
		return w.addressIn2(t, depth, access, seen)
	}
	return ""
}

func (w *World) addressIn2(t types.Type, depth int, access bool, seen map[types.Type]bool) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := w.addressIn(u.Field(i).Type(), depth+1, access && u.Field(i).Exported(), seen); s != "" {
				return s
			}
		}
	case *types.Slice:
		return w.addressIn(u.Elem(), depth+1, access, seen)
	case *types.Array:
		return w.addressIn(u.Elem(), depth+1, access, seen)
	case *types.Map:
		if s := w.addressIn(u.Key(), depth+1, access, seen); s != "" {
			return s
		}
		return w.addressIn(u.Elem(), depth+1, access, seen)
	}
	return ""
}

// implementers lists the named types of the repository that implement an interface.
func (w *World) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, p := range w.Pkgs {
		if !strings.HasPrefix(p.PkgPath, RepoPath) || p.PkgPath == HarnessPath {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	return out
}

// ---- C22 ----

var effectPkgs = []string{"os/exec", "os/signal", "os/user", "net", "net/http", "net/url/", "net/rpc", "net/smtp", "net/textproto", "syscall", "plugin", "io/ioutil", "log/syslog", "golang.org/x/sys", "path/filepath!"}

// effectOf names the effect of a library function or variable that library code must not have.
func effectOf(pkg, name string, isVar bool) string {
	for _, p := range effectPkgs {
		if pkg == p {
			if pkg == "io/ioutil" && (name == "Discard" || name == "ReadAll" || name == "NopCloser") {
				return ""
			}
			return "uses " + pkg
		}
	}
	switch pkg {
	case "os":
		if isVar {
			if strings.HasPrefix(name, "Err") {
				return ""
			}
			return "uses os." + name
		}
		switch name {
		case "IsExist", "IsNotExist", "IsPermission", "IsTimeout", "IsPathSeparator", "NewSyscallError", "SameFile", "Expand":
			return ""
		}
		return "calls os." + name
	case "log":
		if strings.HasPrefix(name, "Fatal") || name == "SetOutput" {
			return "calls log." + name
		}
	case "runtime":
		if name == "Goexit" || name == "Breakpoint" {
			return "calls runtime." + name
		}
	case "path/filepath":
		switch name {
		case "Walk", "WalkDir", "Glob", "EvalSymlinks", "Abs":
			return "calls filepath." + name
		}
	}
	return ""
}

func checkC22(w *World, r *Report) {
	funcs := w.libFuncs()
	callers, value, _ := references(w.repoFuncs())
	// printing functions: those reached only from functions named Print...
	var printer func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	printer = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Object() != nil && fn.Object().Exported() {
			return strings.HasPrefix(fn.Name(), "Print")
		}
		if seen[fn] {
			return true
		}
		seen[fn] = true
		if value[fn] || len(callers[fn]) == 0 {
			return false
		}
		for _, c := range callers[fn] {
			if !printer(c, seen) {
				return false
			}
		}
		return true
	}
	report := func(fn *ssa.Function, in ssa.Instruction, con, msg string) {
		r.ob(false)
		r.violation(Finding{Rule: "no effects in library code", Func: short(fn.String()), Pos: w.position(in.Pos()), Construct: con, Msg: msg})
	}
	for _, fn := range funcs {
		r.fn(short(fn.String()))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Global:
						if x.Pkg != nil && !strings.HasPrefix(x.Pkg.Pkg.Path(), RepoPath) {
							r.count("references to library variables", 1)
							if e := effectOf(x.Pkg.Pkg.Path(), x.Name(), true); e != "" {
								report(fn, in, x.String(), "library code "+e)
								continue
							}
							r.ob(true)
						}
					case *ssa.Function:
						o := x
						if x.Origin() != nil {
							o = x.Origin()
						}
						p := pkgTypes(o)
						if p == nil || strings.HasPrefix(p.Path(), RepoPath) {
							continue
						}
						r.count("references to library functions", 1)
						name := o.Name()
						if rc := o.Signature.Recv(); rc != nil {
							if p.Path() == "os" || p.Path() == "log" {
								t := types.TypeString(rc.Type(), func(*types.Package) string { return "" })
								if p.Path() == "os" && strings.Contains(t, "File") && !strings.Contains(t, "FileMode") {
									report(fn, in, o.String(), "library code calls "+o.String())
									continue
								}
								if strings.HasPrefix(name, "Fatal") {
									report(fn, in, o.String(), "library code calls "+o.String())
									continue
								}
							}
							if p.Path() != "net/http" && p.Path() != "os/exec" && p.Path() != "net" {
								r.ob(true)
								continue
							}
						}
						if e := effectOf(p.Path(), name, false); e != "" {
							report(fn, in, o.String(), "library code "+e)
							continue
						}
						if p.Path() == "fmt" && (strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Scan")) {
							if strings.HasPrefix(name, "Scan") || !printer(fn, map[*ssa.Function]bool{}) {
								report(fn, in, o.String(), "library code calls fmt."+name)
								continue
							}
						}
						r.ob(true)
					case *ssa.Builtin:
						if x.Name() == "print" || x.Name() == "println" {
							report(fn, in, x.Name(), "library code calls "+x.Name())
						}
					}
				}
			}
		}
	}
}

// ---- C23 ----

func tagOf(tag, key string) (string, bool) {
	// reflect.StructTag.Lookup
	for tag != "" {
		i := 0
		for i < len(tag) && tag[i] == ' ' {
			i++
		}
		tag = tag[i:]
		i = strings.IndexByte(tag, ':')
		if i <= 0 || i+1 >= len(tag) || tag[i+1] != '"' {
			return "", false
		}
		name := tag[:i]
		tag = tag[i+1:]
		j := 1
		for j < len(tag) && tag[j] != '"' {
			if tag[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(tag) {
			return "", false
		}
		val := tag[1:j]
		tag = tag[j+1:]
		if name == key {
			return val, true
		}
	}
	return "", false
}

type cfgKey struct {
	key  string
	opts []string
	skip bool
}

func jsonKey(f *types.Var, tag string) cfgKey {
	v, _ := tagOf(tag, "json")
	if v == "-" {
		return cfgKey{skip: true}
	}
	ps := strings.Split(v, ",")
	k := ps[0]
	if k == "" {
		k = f.Name()
	}
	return cfgKey{key: k, opts: ps[1:]}
}

func yamlKey(f *types.Var, tag string) cfgKey {
	v, ok := tagOf(tag, "yaml")
	if !ok && !strings.Contains(tag, ":") {
		v = tag
	}
	if v == "-" {
		return cfgKey{skip: true}
	}
	ps := strings.Split(v, ",")
	k := ps[0]
	if k == "" {
		k = strings.ToLower(f.Name())
	}
	return cfgKey{key: k, opts: ps[1:]}
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func hasMethod(t types.Type, names ...string) string {
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			if has(names, ms.At(i).Obj().Name()) {
				return ms.At(i).Obj().Name()
			}
		}
	}
	return ""
}

func checkC23(w *World, r *Report) {
	p := w.Pkg("config")
	if p == nil || p.Pkg.Scope().Lookup("Config") == nil {
		r.undecided("no config.Config")
		return
	}
	seen := map[string]bool{}
	report := func(t types.Type, f *types.Var, con, msg string) {
		n := short(types.TypeString(t, nil))
		r.violation(Finding{Rule: "configuration formats agree", Func: n, Pos: w.position(f.Pos()), Construct: con, Msg: n + "." + f.Name() + ": " + msg})
	}
	var visit func(t types.Type, owner types.Type, f *types.Var)
	visit = func(t types.Type, owner types.Type, f *types.Var) {
		if seen[t.String()] {
			return
		}
		seen[t.String()] = true
		if m := hasMethod(t, "UnmarshalJSON", "UnmarshalYAML", "MarshalJSON", "MarshalYAML"); m != "" {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), RepoPath) {
				r.undecided("type " + t.String() + " has its own " + m)
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem(), owner, f)
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte && f != nil {
				r.ob(false)
				report(owner, f, "bytes", "bytes are base64 text in JSON and a list of numbers in YAML")
				return
			}
			visit(u.Elem(), owner, f)
		case *types.Array:
			visit(u.Elem(), owner, f)
		case *types.Map:
			visit(u.Elem(), owner, f)
		case *types.Struct:
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
				return
			}
			jk, yk := map[string]string{}, map[string]string{}
			r.fn(short(types.TypeString(t, nil)))
			for i := 0; i < u.NumFields(); i++ {
				fd := u.Field(i)
				tag := u.Tag(i)
				if !fd.Exported() && !fd.Embedded() {
					continue
				}
				r.count("fields", 1)
				j, y := jsonKey(fd, tag), yamlKey(fd, tag)
				if j.skip || y.skip {
					if !r.ob(j.skip == y.skip) {
						report(t, fd, "one format only", "the setting exists in one format only")
					}
					continue
				}
				inlineY := has(y.opts, "inline")
				_, jt := tagOf(tag, "json")
				inlineJ := fd.Embedded() && (!jt || strings.HasPrefix(tag, "json:\",")) // untagged embedded structs are flattened
				if inlineY || inlineJ {
					if !r.ob(inlineJ == inlineY) {
						report(t, fd, "inline", "the settings of the embedded struct are at different levels in JSON and YAML")
					}
					visit(fd.Type(), t, fd)
					continue
				}
				if !r.ob(j.key == y.key) {
					report(t, fd, "keys "+j.key+" and "+y.key, fmt.Sprintf("the key is %q in JSON and %q in YAML", j.key, y.key))
				}
				if o, dup := jk[strings.ToLower(j.key)]; !r.ob(!dup) {
					report(t, fd, "key "+j.key, "has the same JSON key as "+o)
				}
				if o, dup := yk[y.key]; !r.ob(!dup) {
					report(t, fd, "key "+y.key, "has the same YAML key as "+o)
				}
				jk[strings.ToLower(j.key)], yk[y.key] = fd.Name(), fd.Name()
				if !r.ob(!has(j.opts, "string")) {
					report(t, fd, "string option", "JSON wants the value as text and YAML does not")
				}
				if n, ok := fd.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Duration" {
					r.ob(false)
					report(t, fd, "duration", "YAML accepts texts like 1s and JSON does not")
				}
				if n, ok := fd.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" {
					r.ob(false)
					report(t, fd, "json type", "the type "+n.String()+" exists for JSON only")
				}
				r.sample(fmt.Sprintf("%s.%s: json %q, yaml %q", short(types.TypeString(t, nil)), fd.Name(), j.key, y.key))
				visit(fd.Type(), t, fd)
			}
		}
	}
	visit(p.Pkg.Scope().Lookup("Config").Type(), nil, nil)
	for _, pk := range w.Pkgs { // other structs that carry tags for both formats
		if !strings.HasPrefix(pk.PkgPath, RepoPath) || pk.PkgPath == HarnessPath {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					both := false
					for i := 0; i < st.NumFields(); i++ {
						_, a := tagOf(st.Tag(i), "json")
						_, b := tagOf(st.Tag(i), "yaml")
						both = both || a && b
					}
					if both {
						visit(tn.Type(), nil, nil)
					}
				}
			}
		}
	}
	// strictness of the decoders
	strict := map[string][]ssa.Instruction{}
	decoders := map[string]int{}
	var sfn *ssa.Function
	for _, fn := range w.pkgFuncs("config") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				n := c.Common().StaticCallee().String()
				isTrue := func() bool {
					a := c.Common().Args
					k, ok := a[len(a)-1].(*ssa.Const)
					return !ok || k.Value == nil || constant.BoolVal(k.Value)
				}
				switch n {
				case "(*encoding/json.Decoder).DisallowUnknownFields":
					strict["json"] = append(strict["json"], in)
					sfn = fn
				case "(*encoding/json.Decoder).UseNumber":
					r.sample("json numbers are kept as text")
				case "(*gopkg.in/yaml.v2.Decoder).SetStrict":
					if isTrue() {
						strict["yaml"] = append(strict["yaml"], in)
						sfn = fn
					}
				case "gopkg.in/yaml.v2.UnmarshalStrict":
					strict["yaml"] = append(strict["yaml"], in)
					decoders["yaml"]++
					sfn = fn
				case "gopkg.in/yaml.v2.Unmarshal", "gopkg.in/yaml.v2.NewDecoder":
					decoders["yaml"]++
				case "encoding/json.Unmarshal", "encoding/json.NewDecoder":
					decoders["json"]++
				}
			}
		}
	}
	if decoders["json"] == 0 || decoders["yaml"] == 0 {
		r.undecided("the decoders of both formats were not found in package config")
	}
	r.count("decoders", decoders["json"]+decoders["yaml"])
	if !r.ob((len(strict["json"]) > 0) == (len(strict["yaml"]) > 0)) {
		for f, ins := range strict {
			if len(ins) > 0 {
				r.violation(Finding{Rule: "configuration formats agree", Func: short(sfn.String()), Pos: w.position(ins[0].Pos()), Construct: "strict " + f,
					Msg: "unknown settings are an error in " + f + " only"})
			}
		}
	}
}
