package absint

import (
	"embed"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed harness/*.txt
var harnessFS embed.FS

// HarnessPath is the import path of the package of analysis entry points.
const HarnessPath = RepoPath + "/zzverif"

// World is the type-checked program.
type World struct {
	Dir    string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	Prog   *ssa.Program
	byPath map[string]*ssa.Package
	syntax map[string]*packages.Package
	Files  int
}

// Load type-checks the repository's current source and builds its SSA form.
func Load(dir string) (*World, error) {
	ov := map[string][]byte{}
	ents, err := harnessFS.ReadDir("harness")
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		b, err := harnessFS.ReadFile("harness/" + e.Name())
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(dir, "zzverif", strings.TrimSuffix(e.Name(), ".txt"))] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...", HarnessPath)
	if err != nil {
		return nil, err
	}
	w := &World{Dir: dir, Pkgs: pkgs, byPath: map[string]*ssa.Package{}, syntax: map[string]*packages.Package{}}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e.Error())
		}
		w.Files += len(p.GoFiles)
		w.syntax[p.PkgPath] = p
		w.Fset = p.Fset
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog = prog
	for _, p := range prog.AllPackages() {
		w.byPath[p.Pkg.Path()] = p
	}
	return w, nil
}

// Repo tells whether fn belongs to the repository.
func (w *World) Repo(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), RepoPath) && fn.Pkg.Pkg.Path() != HarnessPath
}

// Pkg finds a package of the repository by its path below the module.
func (w *World) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return w.byPath[RepoPath]
	}
	return w.byPath[RepoPath+"/"+rel]
}

// Harness finds an analysis entry point.
func (w *World) Harness(name string) *ssa.Function {
	return w.byPath[HarnessPath].Func(name)
}

// pkgFuncs lists the functions of a package of the repository, with methods and
// function literals.
func (w *World) pkgFuncs(rel string) []*ssa.Function {
	p := w.Pkg(rel)
	if p == nil {
		return nil
	}
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(w.Prog) {
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		for o.Parent() != nil {
			o = o.Parent()
		}
		if o.Pkg == p {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// repoFuncs lists all functions of the repository.
func (w *World) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(w.Prog) {
		if w.Repo(fn) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := out[i].String(), out[j].String(); a != b {
			return a < b
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// stringConsts lists the string constants in fn.
func stringConsts(fn *ssa.Function) []string {
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					out = append(out, constant.StringVal(c.Value))
				}
			}
		}
	}
	return out
}

// Finding is a reported violation.
type Finding struct {
	Rule, Func, Pos, Construct, Msg string
	Key                             string // identifies the finding independent of lines
	Trace                           []string
}

// Report collects what a check did.
type Report struct {
	ID                      string
	Rule                    string
	Findings                []Finding
	Known                   []string
	Undecided               []string
	Obligations, Discharged int
	Samples                 []string
	Counts                  map[string]int
	Functions               map[string]bool
	Notes                   []string
	Assume                  []string
	seen                    map[string]bool
}

func (r *Report) violation(f Finding) {
	if f.Key == "" {
		f.Key = f.Rule + "|" + f.Func + "|" + f.Construct
	}
	if r.seen == nil {
		r.seen = map[string]bool{}
	}
	if r.seen[f.Key] {
		return
	}
	r.seen[f.Key] = true
	r.Findings = append(r.Findings, f)
}

// violationAt reports a finding for a path. On a path on which an unmodelled library
// function was called the finding may be due to what is not known about it: then the
// obligation is undecided.
func (r *Report) violationAt(st *State, f Finding) {
	if st != nil {
		if st.ghostConst("#ext") != 0 {
			r.undecided(f.Func + ": " + f.Construct + ": depends on a library function that is not modelled")
			return
		}
		if f.Trace == nil {
			f.Trace = st.traceList()
		}
	}
	r.violation(f)
}

// hold keeps a value alive in all states that follow.
func (st *State) hold(name string, v V) { st.setGhost("?"+name, v) }

func (st *State) held(name string) V {
	v, ok := st.ghost("?" + name)
	if !ok {
		st.a.fail("the analysis lost " + name)
	}
	return v
}

func (r *Report) ob(ok bool) bool {
	r.Obligations++
	if ok {
		r.Discharged++
	}
	return ok
}

func (r *Report) sample(s string) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, s)
	}
}

func (r *Report) count(k string, n int) {
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[k] += n
}

func (r *Report) fn(name string) {
	if r.Functions == nil {
		r.Functions = map[string]bool{}
	}
	r.Functions[name] = true
}

func (r *Report) undecided(s string) {
	for _, u := range r.Undecided {
		if u == s {
			return
		}
	}
	r.Undecided = append(r.Undecided, s)
}

// Check decides one property.
type Check struct {
	ID     string
	Rule   string
	Run    func(w *World, r *Report)
	Assume []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Main is the command line interface.
func Main() int {
	dir := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory for evidence")
	prop := flag.String("property", "", "property to decide (comma separated, or all)")
	debug := flag.Bool("debug", false, "print progress")
	list := flag.Bool("list", false, "list checks")
	flag.Parse()
	debugFlag = *debug
	ids := sortedKeys(checks)
	if *list {
		for _, id := range ids {
			fmt.Println(id, checks[id].Rule)
		}
		return 0
	}
	if *prop != "all" {
		ids = strings.Split(*prop, ",")
	}
	start := time.Now()
	w, err := Load(*dir)
	if err != nil {
		fmt.Println("the repository does not type-check:", err)
		// code that does not compile breaks no behaviour: there is none
		return 3
	}
	code := 0
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Println("no check", id)
			return 3
		}
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		r := &Report{ID: id, Rule: c.Rule, Assume: c.Assume}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if debugFlag {
						panic(x)
					}
					r.undecided(fmt.Sprintf("the analyser failed: %v", x))
				}
			}()
			c.Run(w, r)
		}()
		if x := r.finish(w, *verif, time.Since(t0)); x != 0 {
			code = x
		}
		if len(ids) > 1 || debugFlag {
			fmt.Printf("%s: %d/%d obligations, %d findings, %d undecided, %.1fs\n", id, r.Discharged, r.Obligations, len(r.Findings), len(r.Undecided), time.Since(t0).Seconds())
		}
	}
	return code
}

var debugFlag bool

func (r *Report) finish(w *World, verif string, wall time.Duration) int {
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), r.ID)
	var viol []Finding
	for _, f := range r.Findings {
		if known[f.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, f.Key+": "+f.Msg)
			r.Known = append(r.Known, f.Key)
			continue
		}
		viol = append(viol, f)
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, r.ID+".findings.txt")
	os.Remove(replay)
	if len(viol) > 0 {
		var b strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&b, "%s: %s\n  rule: %s\n  function: %s\n  construct: %s\n  key: %s\n", f.Pos, f.Msg, f.Rule, f.Func, f.Construct, f.Key)
			for _, t := range f.Trace {
				fmt.Fprintf(&b, "    via %s\n", t)
			}
		}
		fmt.Fprintf(&b, "\nreproduce: bash /verif/check.sh %s\n", r.ID)
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(b.String())
	}
	for _, u := range r.Undecided {
		fmt.Printf("UNDECIDED: property=%s %s\n", r.ID, u)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":        r.Rule,
		"obligations":        r.Obligations,
		"discharged":         r.Discharged,
		"functions_analysed": sortedKeys(r.Functions),
		"undecided":          r.Undecided,
		"samples":            r.Samples,
		"notes":              r.Notes,
		"counts":             r.Counts,
		"source_files":       w.Files,
		"known_findings":     r.Known,
		"commit":             headOf(w.Dir),
	}
	ev := map[string]any{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": len(viol), "assumptions": r.Assume,
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 3
	}
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
		return 1
	}
	return 0
}

func headOf(dir string) string {
	out, err := exec.Command("git", "-C", dir, "rev-parse", "HEAD").Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}

// loadKnown reads the keys of recorded findings: lines "KNOWN <property> <key>".
func loadKnown(path, id string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 3)
		if len(f) == 3 && f[0] == "known:" && f[1] == "property="+id {
			out[strings.TrimSpace(f[2])] = true
		}
	}
	return out
}

// ---- running the abstract interpreter over harness functions ----

// newAnalyzer makes an analyzer for the repository.
func (w *World) newAnalyzer() *Analyzer {
	a := New(w.Prog, w.Repo)
	a.Debug = debugFlag
	return a
}

// initState runs the package initialisers of the given repository packages.
func (w *World) initState(a *Analyzer, rels ...string) *State {
	st := a.NewState()
	for _, rel := range rels {
		p := w.Pkg(rel)
		if p == nil {
			a.fail("no package " + rel)
		}
		init := p.Func("init")
		if init == nil {
			continue
		}
		outs := a.Run(st, init, nil)
		var next *State
		for _, o := range outs {
			if !o.Panic && next == nil {
				next = o.St
			}
		}
		if next == nil {
			a.fail("the initialiser of " + rel + " does not return")
		}
		st = next
	}
	return st
}

func (r *Report) addAnalyzer(w *World, a *Analyzer) {
	for fn := range a.Fns {
		if w.Repo(fn) {
			r.fn(fn.String())
		}
	}
	r.count("call_sites", len(a.CallSites))
	r.count("abstract_steps", a.Steps)
	r.count("joins", a.Joins)
	var us []string
	for u, p := range a.Undecided {
		us = append(us, u+" at "+a.pos(p))
	}
	sort.Strings(us)
	for _, u := range us {
		r.Notes = append(r.Notes, "unmodelled: "+u)
	}
}

// short names a function without the module path.
func short(s string) string {
	return strings.ReplaceAll(s, RepoPath+"/", "")
}
