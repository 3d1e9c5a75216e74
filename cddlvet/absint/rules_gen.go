package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const genRel = "transforms/codegen/golang"

const genModels = "Names, literals and their number are unknown; the library functions that convert names and print numbers are taken as injective operations named by what they do, and go/format prints the declarations it is given."

func init() {
	register(&Check{ID: "C30", Rule: "Abstract interpretation of NewGenerator, Visit and String on a tree of one rule for every primitive type and literal, with unknown names, positions and literal values: the file given to go/format declares the rule with the Go counterpart of its type, or with a literal made of exactly the rule's value; no panic.", Run: checkC30, Assume: []string{genModels, "The rule's name converts to a Go identifier."}})
	register(&Check{ID: "C31", Rule: "Abstract interpretation of NewGenerator, Visit and String on groups and arrays: of every kind of entry, alone, in pairs and nested, with unknown distinct names (field i of the struct given to go/format is made of entry i's names and of no other's; omitempty and toarray tags), and on lists of unknown length and kinds (as many fields as entries). Panics and errors are loud.", Run: checkC31, Assume: []string{genModels}})
	register(&Check{ID: "C32", Rule: "Abstract interpretation of NewGenerator, Visit and String on rules with size constraints with unknown operands, direct, in entries, optional, repeated and nested to depth three, several in a rule and in several rules: every operand is in exactly one call of the file given to go/format, inside the method Valid of its rule; the validator package is imported once if it is called, else not at all.", Run: checkC32, Assume: []string{genModels, "Names convert to Go identifiers."}})
}

// gv is a value of the generated tree.
type gv struct {
	kind string // nil, unknown, struct, list, leaf
	T    string // name of the struct type
	F    map[string]*gv
	L    []*gv
	V    V
	St   *State
}

func (g *gv) field(n string) *gv {
	if g == nil || g.F == nil || g.F[n] == nil {
		return &gv{kind: "unknown"}
	}
	return g.F[n]
}

// conv reads the tree of Go values at v.
func conv(st *State, v V, t types.Type, d int) *gv {
	if v.undef() || d > 40 {
		return &gv{kind: "unknown"}
	}
	if v.S == zeroSym {
		return &gv{kind: "leaf", V: v, St: st}
	}
	f := st.f(v)
	switch f.kind {
	case KIface:
		if f.nil3 == mayNil {
			return &gv{kind: "nil"}
		}
		if f.opq || len(f.alts) != 1 || f.nil3 != mayNon {
			return &gv{kind: "unknown"}
		}
		return conv(st, f.alts[0].P, f.alts[0].T, d+1)
	case KPtr:
		if f.nil3 == mayNil {
			return &gv{kind: "nil"}
		}
		if f.opq || len(f.tg) != 1 || f.nil3 != mayNon {
			return &gv{kind: "unknown"}
		}
		var et types.Type
		if p, ok := t.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		} else {
			return &gv{kind: "unknown"}
		}
		return conv(st, st.loadTarget(f.tg[0]), et, d+1)
	case KStruct:
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return &gv{kind: "unknown"}
		}
		g := &gv{kind: "struct", F: map[string]*gv{}}
		if n, ok := t.(*types.Named); ok {
			g.T = n.Obj().Name()
		}
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			if n == "Obj" || n == "Scope" || n == "Unresolved" {
				continue // not printed
			}
			g.F[n] = conv(st, st.elem(v, i), s.Field(i).Type(), d+1)
		}
		return g
	case KSlice:
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return &gv{kind: "unknown"}
		}
		if f.nil3 == mayNil {
			return &gv{kind: "list"}
		}
		l, ok := st.variadic(v)
		if !ok {
			return &gv{kind: "unknown", V: v, St: st}
		}
		g := &gv{kind: "list", V: v, St: st}
		for _, e := range l {
			g.L = append(g.L, conv(st, e, s.Elem(), d+1))
		}
		return g
	}
	return &gv{kind: "leaf", V: v, St: st}
}

// origins lists the symbols a text or number is made of; known is false when some of it is
// of unknown origin.
func (g *gv) origins() (out map[Sym]bool, known bool) {
	out, known = map[Sym]bool{}, true
	var val func(st *State, v V)
	val = func(st *State, v V) {
		if v.undef() {
			known = false
			return
		}
		if v.S == zeroSym {
			return
		}
		if p, ok := st.a.provOf[v.S]; ok {
			for _, x := range p.args {
				val(st, x)
			}
			return
		}
		f := st.f(v)
		if f.tag != "" {
			out[v.S] = true
			return
		}
		if f.kind == KStr {
			if f.con {
				return
			}
			for _, p := range st.rawParts(v) {
				switch p.Kind {
				case 'c':
				case 'u':
					if p.U == v {
						known = false
					} else {
						val(st, p.U)
					}
				default:
					known = false
				}
			}
			return
		}
		if _, ok := st.constOf(v); ok {
			return
		}
		known = false
	}
	var walk func(g *gv)
	walk = func(g *gv) {
		switch g.kind {
		case "unknown":
			known = false
		case "struct":
			for n, x := range g.F {
				if n == "Doc" || n == "Comment" {
					continue
				}
				walk(x)
			}
		case "list":
			for _, x := range g.L {
				walk(x)
			}
		case "leaf":
			f := g.St.f(g.V)
			if f.kind == KStr {
				val(g.St, g.V)
			}
		}
	}
	walk(g)
	return
}

// each calls f for every struct of type name in the tree.
func (g *gv) each(name string, f func(*gv)) {
	switch g.kind {
	case "struct":
		if g.T == name {
			f(g)
		}
		var ns []string
		for n := range g.F {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			g.F[n].each(name, f)
		}
	case "list":
		for _, x := range g.L {
			x.each(name, f)
		}
	}
}

func (g *gv) hasUnknown() bool {
	switch g.kind {
	case "unknown":
		return true
	case "struct":
		for _, x := range g.F {
			if x.hasUnknown() {
				return true
			}
		}
	case "list":
		for _, x := range g.L {
			if x.hasUnknown() {
				return true
			}
		}
	}
	return false
}

// text is the constant text of a leaf.
func (g *gv) text() (string, bool) {
	if g.kind != "leaf" {
		return "", false
	}
	if g.St.f(g.V).kind != KStr {
		return "", false
	}
	return g.St.constStr(g.V)
}

// genRun interprets the generator on one tree.
type genRun struct {
	w     *World
	r     *Report
	a     *Analyzer
	st    *State
	name  string
	names int
	// mustName: names are identifiers
	mustName bool
	pos      string // of the generator
	sockets  bool   // names may begin with dollars and be short
	list     bool   // lists of unknown length
	panics   int
	printed  int
	normal   int
}

func (w *World) astType(n string) types.Type {
	p := w.Pkg("ast")
	if p == nil {
		return nil
	}
	if o, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// leafStr is an unknown text of its own, which is no socket.
func (g *genRun) leafStr(tag string) V {
	ln := g.st.freshInt(intType, setRange(2, maxLen))
	if g.sockets {
		ln = g.st.freshInt(intType, setRange(1, maxLen))
	}
	if tag == "value" {
		ln = g.st.freshInt(intType, setRange(0, maxLen))
	}
	return g.st.fresh(&Fact{kind: KStr, typ: types.Typ[types.String], ln: ln, tag: tag})
}

// leafName is a name; plain ones do not begin with a dollar.
func (g *genRun) leafName(plain bool) V {
	g.names++
	v := g.leafStr("name")
	if plain && !g.sockets {
		b := g.st.strByte(v, C(0))
		g.st.meetSet(b, g.st.setOf(b).without('$'))
	}
	return v
}

// node makes a node; fields that are not given are unknown.
func (g *genRun) node(n string, fields map[string]V) V {
	T := g.w.astType(n)
	if T == nil {
		g.a.fail("no type ast." + n)
	}
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		g.a.fail("ast." + n + " is no struct")
	}
	elems := make([]V, s.NumFields())
	used := 0
	for i := range elems {
		if v, ok := fields[s.Field(i).Name()]; ok {
			used++
			if types.IsInterface(s.Field(i).Type()) && g.st.f(v).kind == KPtr {
				v = g.st.mkIface(g.st.f(v).typ, v, s.Field(i).Type())
			}
			elems[i] = v
			continue
		}
		elems[i] = g.st.havocV(s.Field(i).Type())
	}
	if used != len(fields) {
		g.a.fail("ast." + n + " has other fields")
	}
	o := g.st.newObj(T, "the "+n, g.st.fresh(&Fact{kind: KStruct, typ: T, elems: elems}))
	return g.st.ptrTo(o.id, types.NewPointer(T))
}

// nodes makes a list for field f of type n.
func (g *genRun) nodes(n, f string, vs ...V) V {
	s := g.w.astType(n).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != f {
			continue
		}
		lt := s.Field(i).Type()
		sl, ok := lt.Underlying().(*types.Slice)
		if !ok {
			break
		}
		arr := g.st.fresh(&Fact{kind: KArray, typ: sl.Elem(), defK: defZero, ln: C(int64(len(vs)))})
		for k, v := range vs {
			if types.IsInterface(sl.Elem()) {
				v = g.st.mkIface(g.st.f(v).typ, v, sl.Elem())
			}
			arr = g.st.arrSet(arr, C(int64(k)), v, false)
		}
		return g.st.newSlice(lt, g.st.f(arr), C(int64(len(vs))), C(int64(len(vs))), "the entries")
	}
	g.a.fail("ast." + n + " has no list " + f)
	return V{}
}

func (g *genRun) ident(plain bool) (V, Sym) {
	nm := g.leafName(plain)
	return g.node("Identifier", map[string]V{"Name": nm}), nm.S
}

// run interprets the generator on what build makes and shows every printed file to check.
func (w *World) genRun(r *Report, name string, list bool, build func(g *genRun) V, check func(g *genRun, file *gv)) *genRun {
	g := &genRun{w: w, r: r, name: name, list: list}
	p := w.Pkg(genRel)
	if p == nil {
		r.undecided("no package " + genRel)
		return g
	}
	newG := p.Func("NewGenerator")
	gt, _ := p.Pkg.Scope().Lookup("Generator").(*types.TypeName)
	if newG == nil || gt == nil || len(newG.Params) != 1 {
		r.undecided("no NewGenerator or Generator")
		return g
	}
	method := func(n string) *ssa.Function {
		return w.Prog.LookupMethod(types.NewPointer(gt.Type()), p.Pkg, n)
	}
	visit, str := method("Visit"), method("String")
	if visit == nil || str == nil || len(visit.Params) != 2 || len(str.Params) != 2 {
		r.undecided("no Visit or String of the generator")
		return g
	}
	a := w.newAnalyzer()
	g.a = a
	g.pos = a.pos(visit.Pos())
	a.Prov = true
	a.InlineRec = 12
	if !list {
		a.NoJoin = true
		a.MaxKeys, a.MaxOuts = 1500, 3000
	} else {
		a.KeyErrs = true
	}
	models := map[string]Model{}
	for k, m := range a.Models {
		models[k] = m
	}
	a.Models = models
	a.Intercept = func(c *Call) ([]Outcome, bool) {
		if c.Fn.Pkg == nil || c.Fn.Pkg.Pkg == nil {
			return nil, false
		}
		switch c.Fn.Pkg.Pkg.Path() {
		case "github.com/iancoleman/strcase":
			if c.Sig.Results().Len() == 1 && kindOf(c.Sig.Results().At(0).Type()) == KStr {
				return c.one(c.St.provStr(c.Fn.Name(), 0, c.Args...)), true
			}
		case "go/ast":
			switch c.Fn.Name() {
			case "NewIdent":
				T := c.Sig.Results().At(0).Type().(*types.Pointer).Elem()
				s := T.Underlying().(*types.Struct)
				elems := make([]V, s.NumFields())
				for i := range elems {
					if s.Field(i).Name() == "Name" {
						elems[i] = c.Args[0]
					} else {
						elems[i] = c.St.zeroV(s.Field(i).Type())
					}
				}
				o := c.St.newObj(T, "an identifier", c.St.fresh(&Fact{kind: KStruct, typ: T, elems: elems}))
				return c.one(c.St.ptrTo(o.id, types.NewPointer(T))), true
			case "String":
				if f := c.St.f(c.Args[0]); f.kind == KPtr && len(f.tg) == 1 && f.nil3 == mayNon && !f.opq {
					root := c.St.loadTarget(f.tg[0])
					if s, ok := c.St.f(root).typ.Underlying().(*types.Struct); ok {
						for i := 0; i < s.NumFields(); i++ {
							if s.Field(i).Name() == "Name" {
								return c.one(c.St.elem(root, i)), true
							}
						}
					}
				}
			}
		case "go/token":
			switch c.Fn.Name() {
			case "NewFileSet":
				return nonNilResult(c), true
			case "IsIdentifier":
				if g.mustName {
					return c.one(C(1)), true
				}
				return pure(c), true
			case "IsExported", "IsKeyword":
				return pure(c), true
			}
		case "go/format", "go/printer":
			if c.Fn.Name() == "Node" || c.Fn.Name() == "Fprint" {
				for i, v := range c.Args {
					f := c.St.f(v)
					if f.kind == KIface && !f.opq && len(f.alts) == 1 && strings.HasSuffix(f.alts[0].T.String(), "go/ast.File") {
						g.printed++
						c.St.setGhost("#printed", C(1))
						file := conv(c.St, f.alts[0].P, f.alts[0].T, 0)
						check(g, file)
						_ = i
					}
				}
				return pure(c), true
			}
			if c.Fn.Name() == "Source" {
				g.r.undecided(g.name + ": the file is printed from text")
			}
		}
		return nil, false
	}
	err := a.Try(func() {
		g.st = w.initState(a, genRel)
		st := g.st
		tree := build(g)
		nv := st.NonNil(st.havocStr())
		for _, o := range a.Run(st, newG, []V{nv}) {
			if o.Panic {
				continue
			}
			gen := o.Ret
			arg := tree
			if pt := visit.Params[1].Type(); types.IsInterface(pt) {
				arg = o.St.mkIface(o.St.f(tree).typ, tree, pt)
			}
			o.St.hold("gen", gen)
			for _, o2 := range a.Run(o.St, visit, []V{gen, arg}) {
				if o2.Panic {
					g.panicked(o2.St)
					continue
				}
				out := o2.St.NonNil(o2.St.havocV(str.Params[1].Type()))
				for _, o3 := range a.Run(o2.St, str, []V{o2.St.held("gen"), out}) {
					if o3.Panic {
						g.panicked(o3.St)
						continue
					}
					g.normal++
					if o3.St.ghostConst("#printed") == 0 {
						r.undecided(name + ": no file was printed")
					}
				}
			}
		}
	})
	r.addAnalyzer(w, a)
	if debugFlag {
		fmt.Println("DBG gen", name, g.printed, g.panics, g.normal, a.Steps, a.Joins, err)
	}
	r.count("trees", 1)
	r.count("files", g.printed)
	r.count("loud_failures", g.panics)
	if err != nil {
		r.undecided(name + ": the analysis gave up: " + err.Error())
	}
	r.sample(fmt.Sprintf("%s: %d files printed, %d loud failures", name, g.printed, g.panics))
	return g
}

func (g *genRun) panicked(st *State) {
	g.panics++
	if g.mustName && g.name != "" && strings.HasPrefix(g.name, "C30 ") {
		g.bad(st, "panic", "generation panics: "+st.panicMsg)
	}
}

func (g *genRun) bad(st *State, con, msg string) {
	g.r.ob(false)
	pos := g.pos
	if st != nil && st.panicPos.IsValid() {
		pos = g.a.pos(st.panicPos)
	}
	n := g.name[strings.Index(g.name, " ")+1:]
	f := Finding{Rule: "generate", Func: "(*gogen.Generator).Visit", Pos: pos, Construct: n + ": " + con, Msg: n + ": " + msg}
	if st == nil {
		st = g.st
	}
	g.r.violationAt(st, f)
}

func (g *genRun) good() { g.r.ob(true) }

func (g *genRun) unsure(what string) {
	g.r.ob(false)
	g.r.undecided(g.name + ": " + what)
}

func stOf(g *gv) *State {
	var st *State
	var walk func(g *gv)
	walk = func(g *gv) {
		if st != nil {
			return
		}
		if g.St != nil {
			st = g.St
			return
		}
		for _, x := range g.F {
			walk(x)
		}
		for _, x := range g.L {
			walk(x)
		}
	}
	walk(g)
	return st
}

// spec finds the declaration made of name: a TypeSpec or ValueSpec.
func (g *genRun) spec(file *gv, name Sym) *gv {
	decls := file.field("Decls")
	if decls.kind != "list" {
		g.unsure("the declarations are not known")
		return nil
	}
	var found []*gv
	for _, d := range decls.L {
		if d.kind != "struct" {
			g.unsure("a declaration is not known")
			return nil
		}
		if d.T != "GenDecl" {
			continue
		}
		sp := d.field("Specs")
		if sp.kind != "list" {
			g.unsure("the specifications are not known")
			return nil
		}
		for _, s := range sp.L {
			var nm *gv
			switch s.T {
			case "TypeSpec":
				nm = s.field("Name")
			case "ValueSpec":
				nm = s.field("Names")
			case "ImportSpec":
				continue
			default:
				g.unsure("a specification is not known")
				return nil
			}
			o, known := nm.origins()
			if o[name] {
				found = append(found, s)
			} else if !known {
				g.unsure("the name of a declaration is not known")
				return nil
			}
		}
	}
	if len(found) == 1 {
		g.good()
		return found[0]
	}
	if decls.hasUnknown() {
		g.unsure("the declarations are not known")
		return nil
	}
	if len(found) == 0 {
		g.bad(stOf(file), "declaration", "no declaration has the rule's name")
	} else {
		g.bad(stOf(file), "declaration", fmt.Sprintf("%d declarations have the rule's name", len(found)))
	}
	return nil
}

// goType spells a simple type.
func goType(g *gv) (string, bool) {
	switch g.kind {
	case "nil":
		return "nothing", true
	case "struct":
		switch g.T {
		case "Ident":
			return g.field("Name").text()
		case "ArrayType":
			e, ok := goType(g.field("Elt"))
			if !ok {
				return "", false
			}
			switch l := g.field("Len"); l.kind {
			case "nil":
				return "[]" + e, true
			case "unknown":
				return "", false
			}
			return "[n]" + e, true
		case "StarExpr":
			e, ok := goType(g.field("X"))
			return "*" + e, ok
		case "ParenExpr":
			return goType(g.field("X"))
		case "SelectorExpr":
			x, ok := goType(g.field("X"))
			s, ok2 := goType(g.field("Sel"))
			return x + "." + s, ok && ok2
		case "StructType":
			return "struct", true
		case "InterfaceType":
			return "interface{}", true
		}
		return g.T, true
	}
	return "", false
}

// ---- C30 ----

func checkC30(w *World, r *Report) {
	tok := func(n string) (int64, bool) {
		p := w.Pkg("token")
		if p == nil {
			return 0, false
		}
		c, ok := p.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			return 0, false
		}
		return constant.Int64Val(constant.ToInt(c.Val()))
	}
	type prim struct {
		label, node string
		tok         string
		ok          []string
	}
	prims := []prim{
		{"tstr", "TstrType", "", []string{"string"}},
		{"bstr", "BstrType", "BSTR", []string{"[]byte", "[]uint8"}},
		{"bytes", "BytesType", "BYTES", []string{"[]byte", "[]uint8"}},
		{"bool", "BooleanType", "", []string{"bool"}},
		{"int", "IntegerType", "", []string{"int"}},
		{"nint", "NegativeIntegerType", "", []string{"int"}},
		{"uint", "UintType", "", []string{"uint"}},
		{"float", "FloatType", "FLOAT", []string{"float64"}},
		{"float16", "FloatType", "FLOAT16", []string{"float32", "float64"}},
		{"float32", "FloatType", "FLOAT32", []string{"float32", "float64"}},
		{"float64", "FloatType", "FLOAT64", []string{"float64"}},
		{"null", "NullType", "", nil},
	}
	for _, p := range prims {
		p := p
		if w.astType(p.node) == nil {
			continue
		}
		var rule Sym
		g := w.genRun(r, "C30 "+p.label, false, func(g *genRun) V {
			g.mustName, g.sockets = true, true
			f := map[string]V{}
			if p.tok != "" {
				if k, ok := tok(p.tok); ok && g.hasField(p.node, "Token") {
					f["Token"] = C(k)
				}
			}
			var t V
			t, rule = g.rule(g.node(p.node, f))
			return g.cddl(t)
		}, func(g *genRun, file *gv) {
			s := g.spec(file, rule)
			if s == nil {
				return
			}
			st := stOf(file)
			if s.T != "TypeSpec" {
				g.bad(st, "type", "a primitive type is declared as something else than a type")
				return
			}
			n, ok := goType(s.field("Type"))
			if !ok {
				g.unsure("the type is not known")
				return
			}
			for _, x := range p.ok {
				if x == n {
					g.good()
					return
				}
			}
			if p.ok == nil {
				if n != "nil" && n != "nothing" {
					g.good()
					return
				}
				g.bad(st, "type "+n, "the Go counterpart is "+n+", which is no type")
				return
			}
			g.bad(st, "type "+n, "the Go counterpart is "+n)
		})
		g.mustPrint()
	}
	type lit struct {
		label, node, field string
		check              func(g *genRun, s string, con bool, p *provRec, val V, st *State) int
	}
	one := func(p *provRec, op string, val V) int {
		if p == nil || len(p.args) == 0 {
			return 0
		}
		if p.op != op || p.args[0] != val {
			return -1
		}
		return 1
	}
	lits := []lit{
		{"text literal", "TextLiteral", "Literal", func(g *genRun, s string, con bool, p *provRec, val V, st *State) int {
			return one(p, "quote", val)
		}},
		{"integer literal", "IntegerLiteral", "Literal", func(g *genRun, s string, con bool, p *provRec, val V, st *State) int {
			if x := one(p, "int", val); x != 1 {
				return x
			}
			if b, ok := st.constOf(p.args[1]); !ok {
				return 0
			} else if b != 10 {
				return -1
			}
			return 1
		}},
		{"float literal", "FloatLiteral", "Literal", func(g *genRun, s string, con bool, p *provRec, val V, st *State) int {
			if x := one(p, "float", val); x != 1 {
				return x
			}
			if len(p.args) != 4 {
				return 0
			}
			f, ok1 := st.constOf(p.args[1])
			pr, ok2 := st.constOf(p.args[2])
			b, ok3 := st.constOf(p.args[3])
			if !ok1 || !ok2 || !ok3 {
				return 0
			}
			if pr >= 0 && pr < 17 || b != 64 || !strings.ContainsRune("eEfgGxX", rune(f)) {
				return -1
			}
			if pr >= 0 && f == 'f' {
				return -1
			}
			return 1
		}},
		{"boolean literal", "BooleanLiteral", "Bool", func(g *genRun, s string, con bool, p *provRec, val V, st *State) int {
			if con {
				k, ok := st.constOf(val)
				if !ok || (k == 1) != (s == "true") || s != "true" && s != "false" {
					return -1
				}
				return 1
			}
			return one(p, "bool", val)
		}},
	}
	for _, l := range lits {
		l := l
		if w.astType(l.node) == nil {
			continue
		}
		var rule Sym
		g := w.genRun(r, "C30 "+l.label, false, func(g *genRun) V {
			g.mustName, g.sockets = true, true
			var v V
			switch l.field {
			case "Bool":
				v = g.st.fresh(&Fact{kind: KBool, typ: types.Typ[types.Bool], set: setRange(0, 1), tag: "value"})
			default:
				switch l.node {
				case "TextLiteral":
					v = g.leafStr("value")
				case "FloatLiteral":
					v = g.st.fresh(&Fact{kind: KFloat, typ: types.Typ[types.Float64], tag: "value"})
				default:
					v = g.number("value")
				}
			}
			g.st.hold("value", v)
			var t V
			t, rule = g.rule(g.node(l.node, map[string]V{l.field: v}))
			return g.cddl(t)
		}, func(g *genRun, file *gv) {
			s := g.spec(file, rule)
			if s == nil {
				return
			}
			st := stOf(file)
			if s.T != "ValueSpec" {
				g.bad(st, "value", "a literal is declared as a type")
				return
			}
			vs := s.field("Values")
			if vs.kind != "list" || len(vs.L) != 1 {
				if vs.kind == "list" {
					g.bad(st, "value", fmt.Sprintf("%d values are declared", len(vs.L)))
				} else {
					g.unsure("the values are not known")
				}
				return
			}
			var tx *gv
			switch e := vs.L[0]; e.T {
			case "BasicLit":
				tx = e.field("Value")
			case "Ident":
				tx = e.field("Name")
			default:
				g.unsure("the value is no simple literal")
				return
			}
			if tx.kind != "leaf" {
				g.unsure("the value is not known")
				return
			}
			val := st.held("value")
			var p *provRec
			c, con := st.constStr(tx.V)
			if x, ok := g.a.provOf[tx.V.S]; ok {
				p = &x
			}
			res := 0
			if con && l.field != "Bool" {
				// one constant for every value; fine when the value is known to be it
				res = -1
				if k, ok := st.constOf(val); ok && kindOf(st.f(val).typ) == KInt && c == strconv.FormatInt(k, 10) {
					res = 1
				} else if k, ok := st.constStr(val); ok && c == strconv.Quote(k) {
					res = 1
				} else if st.f(val).kind == KFloat {
					res = 0
				}
			} else {
				res = l.check(g, c, con, p, val, st)
			}
			if res == 0 && l.node == "TextLiteral" && p == nil {
				// the text itself between constant parts
				raw := false
				for _, q := range st.rawParts(tx.V) {
					if q.Kind == 'u' && q.U == val || q.Kind == 'u' && q.U.S == val.S {
						raw = true
					}
				}
				if raw || tx.V == val {
					res = -1
				}
			}
			switch res {
			case 1:
				g.good()
			case 0:
				g.unsure("how the value is printed is not known")
			default:
				how := "as something else"
				if p != nil {
					how = "by " + p.op
				} else if con {
					how = "as " + c
				} else if l.node == "TextLiteral" {
					how = "without being quoted"
				}
				g.bad(st, "value "+how, "the literal is printed "+how+", which is not a Go literal of its value")
			}
		})
		g.mustPrint()
	}
}

func (g *genRun) mustPrint() {
	if g.printed == 0 && g.panics == 0 {
		g.r.undecided(g.name + ": nothing was printed")
	}
}

func (g *genRun) hasField(n, f string) bool {
	s, ok := g.w.astType(n).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return true
		}
	}
	return false
}

// rule makes a rule of a value.
func (g *genRun) rule(value V) (V, Sym) {
	id, s := g.ident(true)
	return g.node("Rule", map[string]V{"Name": id, "Value": value}), s
}

func (g *genRun) cddl(rules ...V) V {
	return g.node("CDDL", map[string]V{"Rules": g.nodes("CDDL", "Rules", rules...)})
}

// number is an unknown number of its own.
func (g *genRun) number(tag string) V {
	t := types.Typ[types.Int64]
	v := g.st.freshInt(t, typeRange(t))
	f := g.st.f(v).clone()
	f.tag = tag
	g.st.setFact(v.S, f)
	return v
}

// shape is an entry or a type of which the generated code is known in part.
type shape struct {
	kind string // entry, ident, group, array, occ, opt, size, other, tstr, ...
	name bool   // entry: has a name of its own
	in   []*shape
	node string // other

	v    V
	own  []Sym // names
	lit  Sym   // operand of .size
	want bool
}

func (s *shape) String() string {
	var l []string
	for _, x := range s.in {
		l = append(l, x.String())
	}
	in := strings.Join(l, ", ")
	switch s.kind {
	case "entry":
		return "a: " + in
	case "ident":
		return "a"
	case "group":
		return "(" + in + ")"
	case "array":
		return "[" + in + "]"
	case "occ":
		return "*" + in
	case "opt":
		return "?" + in
	case "size":
		return in + " .size n"
	case "other":
		return s.node
	}
	return s.kind
}

func sh(kind string, in ...*shape) *shape { return &shape{kind: kind, in: in} }

// copy makes a fresh shape, nodes not built.
func (s *shape) copy() *shape {
	c := *s
	c.in = nil
	for _, x := range s.in {
		c.in = append(c.in, x.copy())
	}
	c.own, c.lit, c.v = nil, 0, V{}
	return &c
}

var primNode = map[string]string{"tstr": "TstrType", "bstr": "BstrType", "bytes": "BytesType", "uint": "UintType", "int": "IntegerType", "bool": "BooleanType"}

// build makes the node of a shape.
func (g *genRun) build(s *shape) V {
	var in []V
	for _, x := range s.in {
		in = append(in, g.build(x))
	}
	switch s.kind {
	case "entry":
		id, sym := g.ident(true)
		s.own = []Sym{sym}
		s.v = g.node("Entry", map[string]V{"Name": id, "Value": in[0]})
	case "ident":
		id, sym := g.ident(true)
		s.own = []Sym{sym}
		s.v = id
	case "group":
		s.v = g.node("Group", map[string]V{"Entries": g.nodes("Group", "Entries", in...)})
	case "array":
		s.v = g.node("Array", map[string]V{"Rules": g.nodes("Array", "Rules", in...)})
	case "occ":
		s.v = g.node("NMOccurrence", map[string]V{"Item": in[0]})
	case "opt":
		s.v = g.node("Optional", map[string]V{"Item": in[0]})
	case "size":
		n := g.number("size")
		s.lit = n.S
		s.v = g.node("SizeOperatorControl", map[string]V{"Type": in[0], "Size": g.node("IntegerLiteral", map[string]V{"Literal": n})})
	case "other":
		s.v = g.other(s.node, s, 0)
	default:
		s.v = g.node(primNode[s.kind], nil)
	}
	return s.v
}

// other makes a node whose children are names of their own.
func (g *genRun) other(n string, s *shape, d int) V {
	st, ok := g.w.astType(n).Underlying().(*types.Struct)
	if !ok {
		g.a.fail("ast." + n + " is no struct")
	}
	node := g.w.nodeIface("ast", "Node")
	f := map[string]V{}
	name := func() V {
		id, _ := g.ident(true)
		return id
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		fn := st.Field(i).Name()
		switch {
		case types.IsInterface(t) && isNodeT(t, node):
			f[fn] = name()
		case isNodeT(t, node):
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			nt, ok := p.Elem().(*types.Named)
			if !ok {
				continue
			}
			cn := nt.Obj().Name()
			if cn == "Identifier" {
				f[fn] = name()
			} else if d < 3 {
				f[fn] = g.other(cn, s, d+1)
			} else {
				f[fn] = g.a.nilV(t)
			}
		default:
			if sl, ok := t.Underlying().(*types.Slice); ok && isNodeT(sl.Elem(), node) {
				if types.IsInterface(sl.Elem()) {
					f[fn] = g.nodes(n, fn, name())
				} else {
					f[fn] = g.nodes(n, fn)
				}
			}
		}
	}
	return g.node(n, f)
}

func (s *shape) syms(out map[Sym]*shape) {
	for _, x := range s.own {
		out[x] = s
	}
	for _, x := range s.in {
		x.syms(out)
	}
}

// ---- C31 ----

// structIn finds the struct of a type.
func structIn(g *gv) *gv {
	switch g.T {
	case "StructType":
		return g
	case "ArrayType", "MapType":
		for _, n := range []string{"Elt", "Value"} {
			if x, ok := g.F[n]; ok {
				return structIn(x)
			}
		}
	case "StarExpr", "ParenExpr":
		return structIn(g.field("X"))
	case "Ellipsis":
		return structIn(g.field("Elt"))
	}
	return nil
}

func fieldTag(f *gv) (has func(string) int) {
	t := f.field("Tag")
	return func(w string) int {
		switch t.kind {
		case "nil":
			return -1
		case "unknown":
			return 0
		}
		v := t.field("Value")
		if v.kind != "leaf" {
			return 0
		}
		known := true
		for _, p := range v.St.rawParts(v.V) {
			if p.Kind == 'c' {
				if strings.Contains(p.Str, w) {
					return 1
				}
			} else if p.Kind == 'u' {
				if r, ok := v.St.a.provOf[p.U.S]; ok && len(r.args) > 0 {
					if c, ok := v.St.constStr(r.args[0]); ok && strings.Contains(c, w) {
						return 1
					}
				}
			} else {
				known = false
			}
		}
		if !known {
			return 0
		}
		return -1
	}
}

// fields checks the struct made of a group or array.
func (g *genRun) fields(t *gv, s *shape, all map[Sym]*shape, st *State) {
	x := structIn(t)
	if x == nil {
		g.unsure("the type made of " + s.String() + " is no struct")
		return
	}
	fl := x.field("Fields").field("List")
	if x.field("Fields").kind == "nil" {
		fl = &gv{kind: "list"}
	}
	if fl.kind != "list" {
		g.unsure("the fields are not known")
		return
	}
	var list []*gv
	marks := 0
	for _, f := range fl.L {
		if f.kind != "struct" {
			g.unsure("a field is not known")
			return
		}
		if s.kind == "array" {
			m := fieldTag(f)("toarray")
			if m == 0 {
				g.unsure("a tag is not known")
				return
			}
			if m == 1 {
				if o, known := f.field("Type").origins(); known && len(o) == 0 && len(f.field("Names").L) == 1 {
					if n, ok := f.field("Names").L[0].field("Name").text(); ok && n == "_" {
						marks++
						continue
					}
				}
				// the marker may be carried by an entry's field
				marks++
			}
		}
		list = append(list, f)
	}
	if s.kind == "array" {
		if marks == 1 {
			g.good()
		} else {
			g.bad(st, "toarray", fmt.Sprintf("%d fields of an array's struct carry the toarray marker", marks))
		}
	}
	n := 0
	for _, f := range list {
		k := 1
		if ns := f.field("Names"); ns.kind == "list" && len(ns.L) > 1 {
			k = len(ns.L)
		}
		n += k
	}
	if n != len(s.in) {
		g.bad(st, fmt.Sprintf("%d entries %d fields", len(s.in), n), fmt.Sprintf("the struct made of %d entries has %d fields", len(s.in), n))
		return
	}
	g.good()
	if len(list) != n {
		g.unsure("fields share a type")
		return
	}
	for i, e := range s.in {
		f := list[i]
		mine := map[Sym]*shape{}
		e.syms(mine)
		o, known := f.origins()
		for y := range o {
			if mine[y] == nil && all[y] != nil {
				g.bad(st, "order", fmt.Sprintf("field %d is made of another entry than entry %d", i+1, i+1))
				return
			}
		}
		for y, sy := range mine {
			if !o[y] {
				if !known {
					g.unsure("what a field is made of is not known")
				} else {
					g.bad(st, "entry "+e.String(), fmt.Sprintf("field %d has nothing of the %s of entry %d (%s)", i+1, sy.kind, i+1, e))
				}
				return
			}
		}
		g.good()
		if e.kind == "opt" {
			switch fieldTag(f)("omitempty") {
			case 1:
				g.good()
			case 0:
				g.unsure("a tag is not known")
			default:
				g.bad(st, "omitempty", "the field of an optional entry has no omitempty tag")
			}
		}
		// groups inside
		in := e
		for in != nil && in.kind != "group" && in.kind != "array" {
			if len(in.in) != 1 {
				in = nil
				break
			}
			in = in.in[0]
		}
		if in != nil {
			g.fields(f.field("Type"), in, all, st)
		}
	}
}

func checkC31(w *World, r *Report) {
	if w.Pkg("ast") == nil {
		r.undecided("no package ast")
		return
	}
	id := func() *shape { return sh("ident") }
	entries := []*shape{
		sh("entry", id()),
		id(),
		sh("opt", sh("entry", id())),
		sh("opt", id()),
		sh("occ", id()),
		sh("entry", sh("occ", id())),
		sh("entry", sh("group", id(), sh("entry", id()))),
		sh("entry", sh("array", sh("entry", id()), id())),
		sh("occ", sh("group", sh("entry", id()), sh("opt", sh("entry", id())))),
		sh("entry", sh("tstr")),
		sh("opt", sh("entry", sh("bool"))),
		sh("entry", sh("size", sh("uint"))),
		sh("opt", sh("entry", sh("size", sh("tstr")))),
		sh("opt", sh("group", sh("entry", id()), id())),
		sh("opt", sh("occ", id())),
		sh("occ", sh("entry", id())),
	}
	// the other kinds of entries
	skip := map[string]bool{"Comment": true, "CommentGroup": true, "BadNode": true}
	ge := w.nodeIface("ast", "GroupEntry")
	if ge == nil {
		r.undecided("no interface ast.GroupEntry")
		return
	}
	var kinds []types.Type
	for _, nt := range w.nodeTypes() {
		if !types.Implements(nt.recv, ge) || skip[nt.name] {
			continue
		}
		kinds = append(kinds, nt.recv)
		if _, ok := nt.recv.(*types.Pointer); ok {
			entries = append(entries, &shape{kind: "other", node: nt.name})
		}
	}
	var trees []*shape
	for _, con := range []string{"group", "array"} {
		trees = append(trees, sh(con))
		for _, e := range entries {
			trees = append(trees, sh(con, e.copy()))
			if e.kind == "other" {
				trees = append(trees, sh(con, sh("entry", id()), e.copy(), sh("entry", id())))
				continue
			}
			trees = append(trees, sh(con, sh("entry", id()), e.copy()), sh(con, e.copy(), sh("entry", id())), sh(con, id(), e.copy(), sh("opt", sh("entry", id()))))
		}
		trees = append(trees, sh(con, sh("entry", id()), sh("entry", id()), sh("entry", id()), sh("entry", id())))
		trees = append(trees, sh(con, id(), id(), id()), sh(con, sh("entry", id()), id(), id(), id()), sh(con, sh("entry", id()), sh("occ", id()), sh("occ", id())), sh(con, sh("entry", sh("tstr")), sh("occ", id()), id(), sh("entry", id()), sh("opt", id())), sh(con, sh("entry", id()), sh("opt", sh("entry", id())), sh("opt", id()), sh("opt", sh("occ", id())), id(), sh("entry", sh("array", id(), id(), id()))))
	}
	for _, t := range trees {
		t := t
		var rule Sym
		all := map[Sym]*shape{}
		g := w.genRun(r, "C31 "+t.String(), false, func(g *genRun) V {
			g.mustName = true
			defer func() { g.mustName = !g.sockets }()
			g.sockets = len(t.in) == 1 && (t.in[0].kind == "ident" || t.in[0].kind == "entry" && primNode[t.in[0].in[0].kind] != "")
			v := g.build(t)
			t.syms(all)
			var x V
			x, rule = g.rule(v)
			return g.cddl(x)
		}, func(g *genRun, file *gv) {
			s := g.spec(file, rule)
			if s == nil {
				return
			}
			g.fields(s.field("Type"), t, all, stOf(file))
		})
		g.mustPrint()
	}
	// any number of entries
	for _, con := range [][2]string{{"Group", "Entries"}, {"Array", "Rules"}} {
		con := con
		var rule Sym
		g := w.genRun(r, "C31 "+strings.ToLower(con[0])+" of any length", true, func(g *genRun) V {
			g.mustName = true
			s := w.astType(con[0]).Underlying().(*types.Struct)
			var lt types.Type
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == con[1] {
					lt = s.Field(i).Type()
				}
			}
			g.a.HavocElem = func(st *State, t types.Type) V {
				if !types.Identical(t, ge) && t.Underlying() != ge {
					return V{}
				}
				save := g.st
				g.st = st
				defer func() { g.st = save }()
				var alts []Alt
				for _, e := range []*shape{sh("entry", sh("tstr")), id(), sh("opt", sh("entry", sh("uint"))), sh("occ", id())} {
					v := g.build(e)
					alts = append(alts, Alt{st.f(v).typ, v})
				}
				return st.fresh(&Fact{kind: KIface, typ: t, nil3: mayNon, alts: alts})
			}
			l := g.st.havocV(lt)
			g.st.hold("entries", l)
			var x V
			x, rule = g.rule(g.node(con[0], map[string]V{con[1]: l}))
			return g.cddl(x)
		}, func(g *genRun, file *gv) {
			s := g.spec(file, rule)
			if s == nil {
				return
			}
			st := stOf(file)
			x := structIn(s.field("Type"))
			if x == nil {
				g.unsure("the type is no struct")
				return
			}
			fl := x.field("Fields").field("List")
			n := st.lenOf(st.held("entries"), types.NewSlice(ge))
			var m V
			if fl.kind == "list" {
				m = C(int64(len(fl.L)))
			} else if !fl.V.undef() && fl.St != nil {
				m = orC(fl.St.f(fl.V).ln)
			} else {
				g.unsure("the fields are not known")
				return
			}
			if con[0] == "Array" {
				n = n.plus(1)
			}
			switch st.cmpIdx(m, n) {
			case 1:
				g.good()
			case 0:
				g.bad(st, "length", "there are not as many fields as entries")
			default:
				g.unsure("the number of fields is not known")
			}
		})
		g.mustPrint()
	}
	r.count("kinds_of_entries", len(kinds))
}

// ---- C32 ----

func checkC32(w *World, r *Report) {
	vp := w.Pkg("runtime/validators")
	if vp == nil {
		r.undecided("no package runtime/validators")
		return
	}
	path := vp.Pkg.Path()
	size := func(t string) *shape { return sh("size", sh(t)) }
	e := func(x *shape) *shape { return sh("entry", x) }
	id := func() *shape { return sh("ident") }
	var trees [][]*shape
	one := func(s ...*shape) { trees = append(trees, s) }
	for _, t := range []string{"uint", "tstr", "bstr", "bytes"} {
		one(size(t))
		one(sh("group", e(size(t))))
		one(sh("array", e(size(t))))
	}
	for _, con := range []string{"group", "array"} {
		one(sh(con, sh("opt", e(size("uint")))))
		one(sh(con, sh("opt", size("tstr"))))
		one(sh(con, sh("occ", size("uint"))))
		one(sh(con, e(sh("occ", size("tstr")))))
		one(sh(con, e(size("uint")), e(size("tstr"))))
		one(sh(con, e(size("uint")), id(), e(size("uint")), e(sh("bool"))))
		one(sh(con, e(size("uint")), sh("opt", e(size("bstr"))), sh("occ", size("tstr"))))
		one(sh(con, e(sh("group", e(size("uint")), id())), e(size("tstr"))))
		one(sh(con, e(size("tstr")), e(sh("array", e(size("uint")), e(size("bytes"))))))
		one(sh(con, sh("opt", e(sh("group", e(size("uint")))))))
		one(sh(con, sh("occ", sh("group", e(size("uint")), e(size("tstr"))))))
		one(sh(con, e(sh("group", e(sh("array", e(size("uint")), e(sh("tstr"))))))))
		one(sh(con, e(sh("tstr")), id()))
		one(sh(con, e(size("uint")), e(size("tstr")), e(size("bstr")), e(size("uint")), e(size("bytes")), e(size("tstr")), sh("opt", e(size("uint"))), sh("occ", size("tstr")), e(size("uint"))))
		one(sh(con))
	}
	one(sh("occ", size("uint")))
	one(sh("tstr"))
	one(size("uint"), size("tstr"))
	one(size("uint"), sh("tstr"))
	one(sh("bool"), sh("group", e(size("tstr"))))
	one(sh("group", e(size("uint")), e(size("tstr"))), sh("array", e(size("uint"))), sh("tstr"))
	one(sh("tstr"), sh("group", id()))
	for _, t := range trees {
		t := t
		var rules []Sym
		var l []string
		for _, x := range t {
			l = append(l, x.String())
		}
		g := w.genRun(r, "C32 "+strings.Join(l, "; "), false, func(g *genRun) V {
			g.mustName = true
			var vs []V
			for _, x := range t {
				v, s := g.rule(g.build(x))
				vs = append(vs, v)
				rules = append(rules, s)
			}
			return g.cddl(vs...)
		}, func(g *genRun, file *gv) { g.sizes(file, t, rules, path) })
		g.mustPrint()
	}
}

func (s *shape) literals(out map[Sym]int, rule int) {
	if s.lit != 0 {
		out[s.lit] = rule
	}
	for _, x := range s.in {
		x.literals(out, rule)
	}
}

func (g *genRun) sizes(file *gv, t []*shape, rules []Sym, path string) {
	st := stOf(file)
	decls := file.field("Decls")
	if decls.kind != "list" {
		g.unsure("the declarations are not known")
		return
	}
	lits := map[Sym]int{}
	for i, s := range t {
		s.literals(lits, i)
	}
	imports := map[string]int{} // name the package goes by
	paths, uses := 0, 0
	calls := map[Sym]int{}
	here := map[Sym]int{}
	unknown := false
	for _, d := range decls.L {
		d.each("ImportSpec", func(s *gv) {
			p, ok := s.field("Path").field("Value").text()
			if !ok {
				unknown = true
				return
			}
			if p, err := strconv.Unquote(p); err == nil && p == path {
				paths++
				n := path[strings.LastIndex(path, "/")+1:]
				if x := s.field("Name"); x.kind == "struct" {
					if y, ok := x.field("Name").text(); ok {
						n = y
					}
				}
				imports[n]++
			}
		})
	}
	def := path[strings.LastIndex(path, "/")+1:]
	isPkg := func(n string) bool { return imports[n] > 0 || paths == 0 && n == def }
	for _, d := range decls.L {
		if d.hasUnknown() {
			// comments do not count
			_, known := d.origins()
			if !known {
				unknown = true
			}
		}
		owner := -1
		if d.T == "FuncDecl" {
			if n, ok := d.field("Name").field("Name").text(); ok && n == "Valid" {
				o, _ := d.field("Recv").origins()
				for i, s := range rules {
					if o[s] {
						owner = i
					}
				}
			}
		}
		d.each("SelectorExpr", func(s *gv) {
			if n, ok := s.field("X").field("Name").text(); ok && isPkg(n) {
				uses++
			}
		})
		d.each("CallExpr", func(c *gv) {
			f := c.field("Fun")
			n := ""
			switch f.T {
			case "SelectorExpr":
				n, _ = f.field("X").field("Name").text()
			case "IndexExpr": // an instance
				n, _ = f.field("X").field("X").field("Name").text()
			}
			if !isPkg(n) {
				if n == "" {
					unknown = true
				}
				return
			}
			o, known := c.field("Args").origins()
			if !known {
				unknown = true
			}
			for s, i := range lits {
				if o[s] {
					calls[s]++
					if owner == i {
						here[s]++
					}
				}
			}
		})
	}
	if unknown {
		g.unsure("parts of the file are not known")
		return
	}
	for s := range lits {
		switch {
		case calls[s] == 0:
			g.bad(st, "no call", "the operand of a .size is in no call of a validator")
		case calls[s] > 1:
			g.bad(st, "several calls", "the operand of a .size is in several calls of validators")
		case here[s] != 1:
			g.bad(st, "other rule", "the validator of a .size is not called in the method Valid of its rule")
		default:
			g.good()
		}
	}
	switch {
	case uses > 0 && paths == 0:
		g.bad(st, "import", "the validator package is used without being imported")
	case uses == 0 && paths > 0:
		g.bad(st, "import", "the validator package is imported without being used")
	case paths > 1:
		g.bad(st, "import", "the validator package is imported more than once")
	default:
		g.good()
	}
}
