package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a call can end.
type Outcome struct {
	St    *State
	Ret   V
	Panic bool
}

// Model replaces the body of a function.
type Model func(c *Call) []Outcome

// Call is a call being interpreted.
type Call struct {
	A     *Analyzer
	St    *State
	Fn    *ssa.Function
	Args  []V
	Instr ssa.Instruction
	Sig   *types.Signature
	Pos   token.Pos
}

func (c *Call) one(v V) []Outcome { return []Outcome{{St: c.St, Ret: v}} }

// Obl is a proof obligation: a construct that must not fail.
type Obl struct {
	Kind string
	Fn   string
	Pos  token.Pos
	N    int
	Bad  int
}

// Analyzer holds what does not depend on a state.
type Analyzer struct {
	Prog *ssa.Program
	Fset *token.FileSet
	Repo func(*ssa.Function) bool

	gfacts     map[Sym]*Fact
	gobjs      map[int]*Object
	gstr       map[string]V
	gnil       map[Kind]V
	gfloat     map[float64]V
	gfn        map[*ssa.Function]V
	gglob      map[*ssa.Global]V
	globals    map[*ssa.Global]int
	globalByID map[int]*ssa.Global
	OnBackedge func(st *State, head *ssa.BasicBlock)
	KeyErrs    bool // merged states are kept apart by the nilness of errors
	Prov       bool // texts made of values remember of which
	NoJoin     bool // states are kept apart by their paths, within MaxKeys and MaxOuts
	uniq       int
	prov       map[string]V
	provOf     map[Sym]provRec
	NoWrap     bool // machine integers are taken not to wrap around when incremented by constants
	globalObjs []int
	nextSym    Sym
	nextObj    int
	nextAct    int

	Havoc      func(st *State, t types.Type) V
	HavocField func(st *State, t types.Type, i int) V
	HavocElem  func(st *State, t types.Type) V

	Models map[string]Model
	// Intercept may take over any call.
	Intercept func(c *Call) ([]Outcome, bool)
	// UnknownInvoke handles a method call on a value of unknown dynamic type.
	UnknownInvoke func(c *Call, recv V, m *types.Func) ([]Outcome, bool)
	// KeyExtra adds to the partition key of a state.
	KeyExtra func(st *State, fn *ssa.Function) string
	// OnStore is told about every write.
	OnStore func(st *State, o *Object, pos token.Pos, fn *ssa.Function)
	// OnStoreV is told about every assignment through a pointer and OnLoad about every use.
	OnStoreV func(st *State, t Target, val V, in ssa.Instruction)
	OnLoad   func(st *State, p V, in *ssa.UnOp)
	// OnConvert is told about conversions and OnAssert about assertions to interfaces that
	// make a new value.
	OnConvert, OnAssert func(st *State, v, res V)
	// OnMakeIface is told about every conversion to an interface.
	OnMakeIface func(st *State, v V, from, to types.Type, in ssa.Instruction)
	// LoopCheck enables termination checking.
	LoopCheck        bool
	Measures         func(st *State, fn *ssa.Function) []Snap
	NoDefiniteUnroll bool
	// OpaqueObj: objects of these types are forgotten at recursion boundaries.
	OpaqueType func(t types.Type) bool

	infos               map[*ssa.Function]*fnInfo
	Obls                map[string]*Obl
	Undecided           map[string]token.Pos
	Steps, Joins, Calls int
	Fns                 map[*ssa.Function]bool
	MaxSteps            int
	failed              string

	sums        map[string]*summary
	summarize   map[*ssa.Function]bool
	active      []*activation
	implCache   map[string][]types.Type
	CallSites   map[token.Pos]bool
	loopRec     map[string]*loopRec
	Debug       bool
	MaxSplit    int
	InlineRec   int
	UnknownFunc func(c *Call, fv V) ([]Outcome, bool)
	// KeyTypes are integer types whose constants keep states apart; KeyStrings does so for
	// the way strings are put together.
	KeyFuncs   bool // function values keep states apart
	KeyTypes   map[string]bool
	GCText     bool // forget facts about text nothing points at
	KeyStrings bool
	// OnAppendAt is told about every append and where it is.
	OnAppendAt       func(st *State, in ssa.CallInstruction, s, e V, t types.Type)
	MaxKeys, MaxOuts int
	// MemoMay remembers elements read from unknown arrays at indices that may coincide.
	MemoMay  bool
	OnText   func(c *Call, text V)
	OnPrint  func(st *State, what string, in ssa.Instruction)
	OnAppend func(st *State, s, e, res V, in ssa.CallInstruction)
	FloatCmp func(x *activation, st *State, t *ssa.BinOp, a, b V) ([]*State, bool)
	depth    int
}

func New(prog *ssa.Program, repo func(*ssa.Function) bool) *Analyzer {
	a := &Analyzer{
		Prog: prog, Fset: prog.Fset, Repo: repo,
		gfacts: map[Sym]*Fact{}, gobjs: map[int]*Object{}, gstr: map[string]V{}, gnil: map[Kind]V{}, gfloat: map[float64]V{},
		gfn: map[*ssa.Function]V{}, gglob: map[*ssa.Global]V{}, globals: map[*ssa.Global]int{}, globalByID: map[int]*ssa.Global{},
		Models: map[string]Model{}, infos: map[*ssa.Function]*fnInfo{}, Obls: map[string]*Obl{},
		Undecided: map[string]token.Pos{}, Fns: map[*ssa.Function]bool{}, sums: map[string]*summary{}, summarize: map[*ssa.Function]bool{},
		implCache: map[string][]types.Type{}, CallSites: map[token.Pos]bool{}, loopRec: map[string]*loopRec{},
		nextSym: zeroSym, MaxSteps: 30000000, MaxKeys: maxKeys, MaxOuts: maxOuts,
	}
	a.gfacts[zeroSym] = &Fact{kind: KInt, typ: types.Typ[types.Int], set: setConst(0), z: true}
	for k, m := range stdModels {
		a.Models[k] = m
	}
	return a
}

type failure struct{ msg string }

// fail gives up the analysis.
func (a *Analyzer) fail(msg string) { panic(failure{msg}) }

func (a *Analyzer) undecided(what string, pos token.Pos) {
	if _, ok := a.Undecided[what]; !ok {
		a.Undecided[what] = pos
	}
}

// Try runs f and reports why the analysis gave up, if it did.
func (a *Analyzer) Try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(failure); ok {
				err = fmt.Errorf("%s", x.msg)
				return
			}
			if debugFlag {
				panic(r)
			}
			err = fmt.Errorf("the analyser failed: %v", r)
		}
	}()
	f()
	return nil
}

// RestartSummaries reruns f while it discovers recursive functions.
func (a *Analyzer) RunWithSummaries(f func()) error {
	for n := 0; n < 40; n++ {
		again := false
		err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case failure:
						err = fmt.Errorf("%s", x.msg)
					case needSummary:
						a.summarize[x.fn] = true
						a.sums = map[string]*summary{}
						a.active = nil
						a.depth = 0
						a.loopRec = map[string]*loopRec{}
						a.Obls = map[string]*Obl{}
						again = true
					default:
						panic(r)
					}
				}
			}()
			f()
			return nil
		}()
		if err != nil {
			return err
		}
		if !again {
			return nil
		}
	}
	return fmt.Errorf("recursion does not settle")
}

func (a *Analyzer) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := a.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (a *Analyzer) Pos(p token.Pos) string { return a.pos(p) }

// oblige records an obligation.
func (a *Analyzer) oblige(kind string, in ssa.Instruction, ok bool) {
	fn := in.Parent()
	k := fmt.Sprintf("%s|%s|%d", kind, fn.String(), in.Pos())
	o := a.Obls[k]
	if o == nil {
		o = &Obl{Kind: kind, Fn: fn.String(), Pos: in.Pos()}
		a.Obls[k] = o
	}
	o.N++
	if !ok {
		o.Bad++
	}
}

// fnInfo is what the solver needs about a function's control flow.
type fnInfo struct {
	fn        *ssa.Function
	idx       map[ssa.Value]int
	livein    []map[int]bool // by block
	prio      []int
	head      []bool
	back      map[[2]int]bool
	liveAfter map[ssa.Instruction]map[int]bool
	bools     []int
	rregs     []int
	kregs     map[int]bool
}

func (a *Analyzer) info(fn *ssa.Function) *fnInfo {
	if fi := a.infos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, back: map[[2]int]bool{}, liveAfter: map[ssa.Instruction]map[int]bool{}}
	a.infos[fn] = fi
	n := 0
	add := func(v ssa.Value) {
		fi.idx[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness
	nb := len(fn.Blocks)
	fi.livein = make([]map[int]bool, nb)
	for i := range fi.livein {
		fi.livein[i] = map[int]bool{}
	}
	use := func(live map[int]bool, in ssa.Instruction) {
		var ops [16]*ssa.Value
		for _, op := range in.Operands(ops[:0]) {
			if *op == nil {
				continue
			}
			if k, ok := fi.idx[*op]; ok {
				live[k] = true
			}
		}
	}
	liveOut := func(b *ssa.BasicBlock) map[int]bool {
		out := map[int]bool{}
		for _, s := range b.Succs {
			for k := range fi.livein[s.Index] {
				out[k] = true
			}
			pi := -1
			for i, p := range s.Preds {
				if p == b {
					pi = i
				}
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				// several edges may lead from b to s
				for i, p := range s.Preds {
					if p == b {
						pi = i
						if k, ok := fi.idx[phi.Edges[pi]]; ok {
							out[k] = true
						}
					}
				}
			}
		}
		return out
	}
	for ch := true; ch; {
		ch = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := liveOut(b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, fi.idx[v])
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				use(live, in)
			}
			if len(live) != len(fi.livein[i]) {
				fi.livein[i] = live
				ch = true
			}
		}
	}
	for _, b := range fn.Blocks {
		live := liveOut(b)
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			in := b.Instrs[k]
			if _, ok := in.(ssa.CallInstruction); ok {
				m := map[int]bool{}
				for x := range live {
					m[x] = true
				}
				fi.liveAfter[in] = m
			}
			if _, ok := in.(*ssa.RunDefers); ok {
				m := map[int]bool{}
				for x := range live {
					m[x] = true
				}
				fi.liveAfter[in] = m
			}
			if v, ok := in.(ssa.Value); ok {
				delete(live, fi.idx[v])
			}
			if _, ok := in.(*ssa.Phi); !ok {
				use(live, in)
			}
		}
	}
	// loops: back edges by dominance
	fi.head = make([]bool, nb)
	loop := make([]map[int]bool, nb)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.head[s.Index] = true
				fi.back[[2]int{b.Index, s.Index}] = true
				if loop[s.Index] == nil {
					loop[s.Index] = map[int]bool{s.Index: true}
				}
				// body
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if loop[s.Index][x.Index] {
						continue
					}
					loop[s.Index][x.Index] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// priorities: reverse postorder, loop exits visited first so that they come last
	inner := func(b int) int {
		best, size := -1, 1<<30
		for h, m := range loop {
			if m != nil && m[b] && len(m) < size {
				best, size = h, len(m)
			}
		}
		return best
	}
	fi.prio = make([]int, nb)
	seen := make([]bool, nb)
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		l := inner(b.Index)
		succ := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(succ, func(i, k int) bool {
			ei := l >= 0 && !loop[l][succ[i].Index]
			ek := l >= 0 && !loop[l][succ[k].Index]
			return ei && !ek
		})
		for _, s := range succ {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	if nb > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil && !seen[fn.Recover.Index] {
			dfs(fn.Recover)
		}
	}
	for i, b := range post {
		fi.prio[b] = len(post) - i
	}
	return fi
}

// implementers lists the concrete types of the analysed packages that implement it.
func (a *Analyzer) implementers(it *types.Interface) []types.Type {
	k := it.String()
	if l, ok := a.implCache[k]; ok {
		return l
	}
	var out []types.Type
	for _, p := range a.Prog.AllPackages() {
		mine := false
		var names []string
		for n, m := range p.Members {
			names = append(names, n)
			if f, ok := m.(*ssa.Function); ok && a.Repo(f) {
				mine = true
			}
		}
		if !mine && !(p.Pkg != nil && strings.HasPrefix(p.Pkg.Path(), RepoPath)) {
			continue
		}
		sort.Strings(names)
		for _, n := range names {
			tn, ok := p.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			t := tn.Type()
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.IsInterface(t) {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t, types.NewPointer(t))
			} else if pt := types.NewPointer(t); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	a.implCache[k] = out
	return out
}

// RepoPath is the import path of the analysed module.
const RepoPath = "github.com/HannesKimara/cddlc"
