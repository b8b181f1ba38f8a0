package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/sassoftware/go-rpmutils"

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

type Config struct {
	name string
	env  []string
}

var configs = []Config{
	{"linux-cgo", []string{"GOOS=linux", "GOARCH=amd64", "CGO_ENABLED=1"}},
	{"linux-nocgo", []string{"GOOS=linux", "GOARCH=amd64", "CGO_ENABLED=0"}},
	{"windows-nocgo", []string{"GOOS=windows", "GOARCH=amd64", "CGO_ENABLED=0"}},
}

// Program is the loaded module in one build configuration.
type Program struct {
	cfg      Config
	dir      string
	pkgs     []*packages.Package
	ssa      *ssa.Program
	spkgs    []*ssa.Package
	fset     *token.FileSet
	fnByName map[string]*ssa.Function
	fns      []*ssa.Function // all module functions with bodies, sorted
	fields   map[string]bool
	fieldTyp map[string]types.Type
	modset   map[string]bool
	modsets  map[string][]string
	gmaps    map[string]*constTab
	gvals    map[*ssa.Global]*Term
	gwritten map[*ssa.Global]string // package-level variables written outside initialisation
	ifaced   map[string]types.Type  // module types converted to interfaces
	anchored map[string]bool
	deps     map[string]bool     // import paths of everything linked in
	captured map[*ssa.Alloc]bool // variables captured by closures
	cellOf   map[*ssa.FreeVar]*ssa.Alloc
}

func load(dir string, cfg Config) (*Program, error) {
	fset := token.NewFileSet()
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	env = append(env, cfg.env...)
	pc := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env, Fset: fset}
	pkgs, err := packages.Load(pc, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modulePath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s: %s", cfg.name, strings.Join(errs, "; "))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for _, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("%s: a package could not be built", cfg.name)
		}
		p.Build()
	}
	p := &Program{cfg: cfg, dir: dir, pkgs: pkgs, ssa: prog, spkgs: sp, fset: fset,
		fnByName: map[string]*ssa.Function{}, fields: map[string]bool{}, fieldTyp: map[string]types.Type{},
		modset: map[string]bool{}, gmaps: map[string]*constTab{}, gvals: map[*ssa.Global]*Term{},
		gwritten: map[*ssa.Global]string{}, ifaced: map[string]types.Type{}}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) > 0 && (fnInModule(fn)) {
			p.fnByName[fn.String()] = fn
			p.fns = append(p.fns, fn)
		}
	}
	sort.Slice(p.fns, func(i, j int) bool { return p.fns[i].String() < p.fns[j].String() })
	if len(p.fns) == 0 {
		return nil, fmt.Errorf("%s: no functions found", cfg.name)
	}
	for _, pkg := range pkgs {
		if !inModule(pkg.Types) {
			continue
		}
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if isInteger(tn.Type()) {
					id := "p:" + typeKey(tn.Type())
					p.fields[id] = true
					p.fieldTyp[id] = tn.Type()
				}
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						id := fieldID(tn.Type(), i)
						p.fields[id] = true
						p.fieldTyp[id] = s.Field(i).Type()
					}
				}
			}
		}
	}
	dc := &packages.Config{Mode: packages.NeedName | packages.NeedImports | packages.NeedDeps, Dir: dir, Env: env}
	dpkgs, err := packages.Load(dc, "./...")
	if err != nil {
		return nil, err
	}
	p.deps = map[string]bool{}
	packages.Visit(dpkgs, nil, func(x *packages.Package) { p.deps[x.PkgPath] = true })
	p.captured, p.cellOf = map[*ssa.Alloc]bool{}, map[*ssa.FreeVar]*ssa.Alloc{}
	for again := true; again; {
		again = false
		for _, fn := range p.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					mc, ok := in.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					for i, bd := range mc.Bindings {
						fv := mc.Fn.(*ssa.Function).FreeVars[i]
						var c *ssa.Alloc
						switch bd := bd.(type) {
						case *ssa.Alloc:
							c = bd
						case *ssa.FreeVar:
							c = p.cellOf[bd]
						}
						if c != nil && p.cellOf[fv] == nil {
							p.cellOf[fv] = c
							p.captured[c] = true
							again = true
						}
					}
				}
			}
		}
	}
	p.findIfaced()
	p.computeModset()
	p.findGlobalWrites()
	return p, nil
}

func (p *Program) fieldIsInt64(f string) bool {
	t := p.fieldTyp[f]
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int64 || b.Kind() == types.Int || b.Kind() == types.Uint64)
}

func (p *Program) pos(in ssa.Instruction) string {
	pos := in.Pos()
	if !pos.IsValid() {
		// nearest instruction with a position in the block
		if b := in.Block(); b != nil {
			seen := false
			for _, x := range b.Instrs {
				if x == in {
					seen = true
				}
				if x.Pos().IsValid() {
					pos = x.Pos()
					if seen {
						break
					}
				}
			}
		}
	}
	if !pos.IsValid() {
		pos = in.Parent().Pos()
	}
	return p.posStr(pos)
}

func (p *Program) posStr(pos token.Pos) string {
	q := p.fset.Position(pos)
	f := strings.TrimPrefix(q.Filename, p.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// moduleMethods: does t have methods declared in the module?
func (p *Program) moduleMethods(t types.Type) bool {
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Pkg() != nil && inModule(o.Pkg()) {
			return true
		}
	}
	return false
}

func (p *Program) methodSel(t types.Type, m *types.Func) *types.Selection {
	return p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
}

// findIfaced collects the module types that are converted to interfaces anywhere in the module.
func (p *Program) findIfaced() {
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if p.moduleMethods(mi.X.Type()) {
						p.ifaced[typeKey(mi.X.Type())] = mi.X.Type()
					}
				}
			}
		}
	}
}

// callable names of methods that code outside the module can reach through its own interfaces.
var callbackNames = map[string]bool{"Read": true, "Write": true, "Seek": true, "Close": true, "ReadAt": true, "WriteAt": true,
	"WriteTo": true, "ReadFrom": true, "ReadByte": true, "UnreadByte": true, "WriteByte": true, "WriteString": true, "Error": true, "String": true,
	"GoString": true, "Format": true, "Len": true, "Less": true, "Swap": true, "Unwrap": true, "Is": true, "As": true, "Sum": true, "Reset": true, "Size": true, "BlockSize": true}

func (p *Program) methodsOf(t types.Type) []*ssa.Function {
	var r []*ssa.Function
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if f := p.ssa.MethodValue(sel); f != nil {
			r = append(r, f)
		}
	}
	return r
}

// reach computes the module functions reachable through static calls, closures and interface calls to
// module methods.
func (p *Program) reach(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					switch v := (*o).(type) {
					case *ssa.Function:
						walk(v)
					case *ssa.MakeClosure:
						walk(v.Fn.(*ssa.Function))
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					for _, t := range p.ifaced {
						if sel := p.methodSel(t, m); sel != nil {
							if i, ok := c.Common().Value.Type().Underlying().(*types.Interface); ok && types.Implements(t, i) {
								walk(p.ssa.MethodValue(sel))
							}
						}
					}
				}
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

func (p *Program) computeModset() {
	var roots []*ssa.Function
	for _, t := range p.ifaced {
		for _, m := range p.methodsOf(t) {
			if callbackNames[m.Name()] && fnInModule(m) {
				roots = append(roots, m)
			}
		}
	}
	p.modset = p.fieldsWritten(roots)
}

// modsetOf: the fields that calls of a type's methods from outside the module may change.
func (p *Program) modsetOf(t types.Type) []string {
	k := typeKey(t)
	if r, ok := p.modsets[k]; ok {
		return r
	}
	var roots []*ssa.Function
	for _, m := range p.methodsOf(t) {
		if callbackNames[m.Name()] && fnInModule(m) {
			roots = append(roots, m)
		}
	}
	r := sortedKeys(p.fieldsWritten(roots))
	if p.modsets == nil {
		p.modsets = map[string][]string{}
	}
	p.modsets[k] = r
	return r
}

// fieldsWritten: the fields that functions, or what they call, write or pass on by address.
func (p *Program) fieldsWritten(roots []*ssa.Function) map[string]bool {
	set := map[string]bool{}
	for f := range p.reach(roots) {
		if !fnInModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch r := ref.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							set["f:"+fieldID(fa.X.Type(), fa.Field)] = true
						}
					case ssa.CallInstruction:
						set["f:"+fieldID(fa.X.Type(), fa.Field)] = true
					}
				}
			}
		}
	}
	return set
}

// findGlobalWrites: stores to package-level variables (or to what they hold) outside initialisation.
func (p *Program) findGlobalWrites() {
	note := func(g *ssa.Global, in ssa.Instruction) {
		if _, ok := p.gwritten[g]; !ok {
			p.gwritten[g] = p.pos(in)
		}
	}
	for _, fn := range p.fns {
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g := globalRoot(in.Addr, 0); g != nil {
						note(g, in)
					}
				case *ssa.MapUpdate:
					if g := globalRoot(in.Map, 0); g != nil {
						note(g, in)
					}
				case ssa.CallInstruction:
					if bi, ok := in.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
						if g := globalRoot(in.Common().Args[0], 0); g != nil {
							note(g, in)
						}
					}
				}
			}
		}
	}
}

func isInit(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			if f.Signature.Recv() == nil && f.Parent() == nil {
				return true
			}
		}
	}
	return false
}

// globalRoot finds the package-level variable an address or reference value is derived from.
func globalRoot(v ssa.Value, depth int) *ssa.Global {
	if depth > 20 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.FieldAddr:
		return globalRoot(v.X, depth+1)
	case *ssa.IndexAddr:
		return globalRoot(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch v.Type().Underlying().(type) {
			case *types.Map, *types.Slice, *types.Pointer:
				return globalRoot(v.X, depth+1)
			}
		}
	case *ssa.Slice:
		return globalRoot(v.X, depth+1)
	case *ssa.ChangeType:
		return globalRoot(v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if g := globalRoot(e, depth+1); g != nil {
				return g
			}
		}
	}
	return nil
}

// globalValue gives the initial value of a module variable nothing writes later.
func (p *Program) globalValue(it *Interp, g *ssa.Global) *Term {
	if _, w := p.gwritten[g]; w {
		return nil
	}
	return p.gvals[g]
}

// evalInits interprets the package initialisers to learn the values of package-level variables.
func (p *Program) evalInits() []string {
	var problems []string
	for _, sp := range p.spkgs {
		init := sp.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			continue
		}
		it := newInterp(p, newInvariants())
		it.root = init
		maps := map[*Term]*constTab{}
		bad := map[*Term]bool{}
		it.hooks = []*Hooks{{mapUpdate: func(st *State, m, k, v *Term, in ssa.Instruction) {
			if maps[m] == nil {
				maps[m] = &constTab{}
			}
			if k.op != "const" {
				bad[m] = true
			}
			maps[m].keys = append(maps[m].keys, k)
			maps[m].vals = append(maps[m].vals, v)
		}}}
		st := newState(it)
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				st.mem[globalAddr(g)] = zeroTerm(derefType(g.Type()))
			}
		}
		exits := it.runFn(mkFrame(nil, nil, init, "!"+p.cfg.name), st)
		for _, e := range exits {
			for _, m := range sp.Members {
				g, ok := m.(*ssa.Global)
				if !ok {
					continue
				}
				v, ok := e.st.mem[globalAddr(g)]
				if !ok {
					continue
				}
				switch {
				case maps[v] != nil && !bad[v]:
					p.gmaps[g.String()] = maps[v]
					p.gvals[g] = app("gmap", g.String(), v.typ)
				case v.typ != nil && isSliceType(v.typ) && e.st.elements(v) != nil:
					p.gvals[g] = app("list", "", v.typ, e.st.elements(v)...)
				case v.op == "const":
					p.gvals[g] = v
				case v.sym != nil && v.sym.kind == "call" && (v.sym.callee == "regexp.MustCompile"):
					if s, ok := v.sym.args[0].strVal(); ok {
						p.gvals[g] = app("regex", s, v.typ)
					}
				case v.sym != nil && v.sym.kind == "call" && (v.sym.callee == "errors.New" || v.sym.callee == "fmt.Errorf"):
					p.gvals[g] = app("gval", g.String(), v.typ)
				}
			}
		}
		for _, m := range it.problems {
			problems = append(problems, m)
		}
	}
	return problems
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// roots are the functions users can call: exported functions, exported methods of exported types, and
// the methods of any module type reachable through an interface.
func (p *Program) roots() []*ssa.Function {
	m := map[*ssa.Function]bool{}
	for _, sp := range p.spkgs {
		for _, mem := range sp.Members {
			switch mem := mem.(type) {
			case *ssa.Function:
				if mem.Object() != nil && mem.Object().Exported() {
					m[mem] = true
				}
			case *ssa.Type:
				if !mem.Object().Exported() {
					continue
				}
				for _, t := range []types.Type{mem.Type(), types.NewPointer(mem.Type())} {
					if types.IsInterface(t) {
						continue
					}
					ms := p.ssa.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.ssa.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported() && fnInModule(f) {
							m[f] = true
						}
					}
				}
			}
		}
	}
	for _, t := range p.ifaced {
		ms := p.ssa.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			f := p.ssa.MethodValue(ms.At(i))
			if f != nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported() && fnInModule(f) {
				m[f] = true
			}
		}
	}
	var r []*ssa.Function
	for f := range m {
		if len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func newInterp(p *Program, inv *Invariants) *Interp {
	return &Interp{prog: p, inv: inv, obls: map[string]*Obligation{}, fnInf: map[*ssa.Function]*fnInfo{},
		ifaceKeys: map[string]bool{}, typeByKey: map[string]types.Type{}, problems: map[string]string{},
		covered: map[*ssa.Function]bool{}, blocks: map[*ssa.BasicBlock]bool{}, callsSeen: map[ssa.Instruction]bool{}, publishing: map[*Term]bool{}, maxSteps: 3000000}
}

// analyseRoot interprets one root with unknown arguments.
func (it *Interp) analyseRoot(fn *ssa.Function) []*Exit {
	it.root = fn
	it.steps = 0
	st := newState(it)
	fr := mkFrame(nil, nil, fn, "!"+it.prog.cfg.name)
	st.ctx = fr
	var params []*Term
	for i, p := range fn.Params {
		t := mkSym("param", p.Name(), p.Type(), fr, nil)
		t.sym.index = i
		switch p.Type().Underlying().(type) {
		case *types.Pointer:
			if !nilAllowed(p.Type()) {
				st.truth[mkEq(t, nilTerm)] = false
			}
		case *types.Interface, *types.Signature:
			if !isErrorType(p.Type()) {
				st.truth[mkEq(t, nilTerm)] = false
			}
		}
		st.env[p] = t
		params = append(params, t)
	}
	// sort.Interface: the sort package calls Less and Swap with valid indices
	if (fn.Name() == "Less" || fn.Name() == "Swap") && fn.Signature.Recv() != nil && len(params) == 3 && isSliceType(params[0].typ) && isIntTerm(params[1]) && isIntTerm(params[2]) {
		for _, i := range params[1:] {
			st.lin.add(toLin(i).neg())
			st.lin.add(toLin(i).sub(toLin(mkLen(params[0]))).plus(1))
		}
	}
	for _, h := range it.hooks {
		if h.start != nil {
			h.start(st, fn, params)
		}
	}
	for _, p := range params {
		if sl, ok := p.typ.Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
			it.inv.dynOpen["e:"+typeKey(sl.Elem())] = true
		}
	}
	exits := it.runFn(fr, st)
	for _, e := range exits {
		for _, r := range e.res {
			e.st.markEscaped(r)
			it.publish(e.st, r, r.typ)
		}
		for _, h := range it.hooks {
			if h.ret != nil {
				h.ret(e.st, fn, e.res, e.ret)
			}
		}
	}
	return exits
}

// nilAllowed: option structs are documented to be optional.
func nilAllowed(t types.Type) bool {
	return strings.HasSuffix(typeKey(t), ".SignatureOptions")
}

// methodNames lists the methods of an interface.
func (p *Program) methodNames(i *types.Interface) []string {
	var r []string
	for j := 0; j < i.NumMethods(); j++ {
		r = append(r, i.Method(j).Name())
	}
	return r
}
