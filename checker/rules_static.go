package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C22: no shared mutable state ----

func init() {
	rules["C22"] = &Rule{
		noRun: true,
		what: "Flow-insensitive interprocedural taint over the SSA form: every module variable holding references (slice, map, pointer, array, struct, non-error interface) is followed through assignments, calls and returns. " +
			"Outside initialisation nothing may store to it or through it, hand it to a function that may write it, return it from an exported function or store it in an object; variables of other packages may not be stored to; no go statement and no channel may exist.",
		static: sharedState,
		assume: []string{"compiled regular expressions and error sentinels are immutable"},
	}
	rules["C24"] = &Rule{
		what:   "The module is type-checked in every configuration; the exported API (functions, types, fields, methods, constants) and the signature of every function that exists in more than one configuration are compared, and every configuration's decompressor constructors are interpreted: on success the result must be built over the stream given and closing it must close the underlying decompressor; a variant that performs a platform operation must return its error.",
		static: collectAPI,
		hooks:  variantHooks,
		merge:  compareAPI,
		assume: []string{"stand-ins for operations a platform does not have (FIFOs and link counts on Windows) may succeed without doing anything"},
	}
}

// sharedRef: can storage be shared through a variable of this type?
func sharedRef(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	if isErrorType(t) {
		return false
	}
	switch typeKey(t) {
	case "*regexp.Regexp", "encoding/binary.ByteOrder", "encoding/binary.bigEndian", "encoding/binary.littleEndian", "reflect.Type", "*time.Location":
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if sharedRef(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return sharedRef(u.Elem(), depth+1)
	}
	return true
}

type taint struct {
	p     *Program
	r     *Report
	vals  map[ssa.Value]*ssa.Global
	work  []ssa.Value
	calls map[*ssa.Function][]ssa.CallInstruction
}

func (t *taint) mark(v ssa.Value, g *ssa.Global) {
	if _, ok := t.vals[v]; ok {
		return
	}
	t.vals[v] = g
	t.work = append(t.work, v)
}

func sharedState(p *Program, r *Report) {
	t := &taint{p: p, r: r, vals: map[ssa.Value]*ssa.Global{}, calls: map[*ssa.Function][]ssa.CallInstruction{}}
	var globals []*ssa.Global
	for _, sp := range p.spkgs {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok && !strings.HasPrefix(n, "init$") {
				globals = append(globals, g)
			}
		}
	}
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						t.calls[f] = append(t.calls[f], c)
					}
				}
			}
		}
	}
	for _, fn := range p.fns {
		if isInit(fn) {
			continue
		}
		r.item("goroutine", fn.String(), true, nil)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					r.item("goroutine", fn.String(), false, func() Finding { return r.at(in, "starts a goroutine") })
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if !inModule(g.Pkg.Pkg) {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							r.add(r.at(in, "assigns %s", g))
						}
						continue
					}
					// direct store
					if s, ok := in.(*ssa.Store); ok && s.Addr == g {
						r.add(r.at(in, "package-level variable %s is assigned after initialisation", g.Name()))
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						if sharedRef(u.Type(), 0) {
							t.mark(u, g)
						}
						continue
					}
					if fa, ok := in.(*ssa.FieldAddr); ok {
						t.mark(fa, g)
						continue
					}
					if ia, ok := in.(*ssa.IndexAddr); ok {
						t.mark(ia, g)
						continue
					}
					if sl, ok := in.(*ssa.Slice); ok {
						t.mark(sl, g)
						continue
					}
					// the address itself is used (method call, captured, stored...)
					t.use(in, *op, g)
				}
			}
		}
	}
	for len(t.work) > 0 {
		v := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		g := t.vals[v]
		if refs := v.Referrers(); refs != nil {
			for _, in := range *refs {
				t.use(in, v, g)
			}
		}
	}
	for _, g := range globals {
		r.item("variable", g.String(), true, nil)
	}
	if len(globals) == 0 {
		r.add(Finding{Msg: "no package-level variables found: the analysis did not see the source"})
	}
}

// use follows one use of a value that shares storage with a package-level variable.
func (t *taint) use(in ssa.Instruction, v ssa.Value, g *ssa.Global) {
	bad := func(format string, args ...any) {
		t.r.add(t.r.at(in, "%s of package-level variable %s", fmt.Sprintf(format, args...), g.Name()))
	}
	if isInit(in.Parent()) {
		return
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL && sharedRef(in.Type(), 0) {
			t.mark(in, g)
		}
	case *ssa.FieldAddr:
		t.mark(in, g)
	case *ssa.IndexAddr:
		t.mark(in, g)
	case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.TypeAssert:
		w := in.(ssa.Value)
		if l, ok := in.(*ssa.Lookup); ok && l.X != v {
			return
		}
		if tup, ok := w.Type().(*types.Tuple); ok {
			if sharedRef(tup.At(0).Type(), 0) {
				t.mark(w, g)
			}
		} else if sharedRef(w.Type(), 0) {
			t.mark(w, g)
		}
	case *ssa.Next:
		for i := 0; i < in.Type().(*types.Tuple).Len(); i++ {
			ty := in.Type().(*types.Tuple).At(i).Type()
			if b, ok := ty.(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			if sharedRef(ty, 0) {
				t.mark(in, g)
			}
		}
	case *ssa.Range, *ssa.Slice, *ssa.ChangeType, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface:
		t.mark(in.(ssa.Value), g)
	case *ssa.Convert, *ssa.BinOp, *ssa.If, *ssa.DebugRef:
	case *ssa.Store:
		if in.Addr == v {
			bad("write to the storage")
			return
		}
		// stored in a local variable: follow what is read back
		if a, ok := in.Addr.(*ssa.Alloc); ok && !a.Heap {
			t.mark(a, g)
			return
		}
		if sharedRef(in.Val.Type(), 0) {
			bad("an object keeps the storage")
		}
	case *ssa.MapUpdate:
		if in.Map == v {
			bad("write to the storage")
		} else {
			bad("an object keeps the storage")
		}
	case *ssa.Return:
		f := in.Parent()
		if f.Object() != nil && f.Object().Exported() {
			bad("a caller is given the storage")
			return
		}
		for _, c := range t.calls[f] {
			if cv := c.Value(); cv != nil {
				if len(in.Results) == 1 {
					t.mark(cv, g)
				} else if cv.Referrers() != nil {
					for _, ref := range *cv.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && in.Results[e.Index] == v {
							t.mark(e, g)
						}
					}
				}
			}
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			if b == v {
				t.mark(fn.FreeVars[i], g)
			}
		}
	case ssa.CallInstruction:
		c := in.Common()
		if c.IsInvoke() {
			if c.Value == v {
				m := modelFor(methodName(c.Method))
				if m == nil || !m.pure && !m.noeffect {
					bad("call of method %s", c.Method.Name())
				}
			}
			for _, a := range c.Args {
				if a == v {
					m := modelFor(methodName(c.Method))
					if !argRead(m, c.Args, a, 1) {
						bad("%s may keep or change the storage", c.Method.Name())
					}
				}
			}
			return
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if c.Args[0] == v {
					bad("append may write to the spare capacity")
				}
			case "copy", "delete", "clear":
				if c.Args[0] == v {
					bad("write to the storage")
				}
			}
			return
		}
		f := c.StaticCallee()
		if f != nil && inlinable(f) {
			for i, a := range c.Args {
				if a == v {
					t.mark(f.Params[i], g)
				}
			}
			return
		}
		name := "a function value"
		var m *model
		if f != nil {
			name = f.String()
			m = modelFor(name)
		}
		if !argRead(m, c.Args, v, 0) && !readOnlyExternal(name) {
			bad("%s may keep or change the storage", name)
		}
	default:
		bad("unknown use (%T)", in)
	}
}

func readOnlyExternal(name string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "errors.", "(*regexp.Regexp).", "bytes.Equal", "bytes.Compare", "bytes.Index", "bytes.Has", "bytes.Contains", "slices.Contains", "slices.Index", "slices.Equal", "slices.BinarySearch", "sort.Search", "maps.Clone", "slices.Clone", "bytes.Clone"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// argRead: is the argument only read by the callee?
func argRead(m *model, args []ssa.Value, v ssa.Value, off int) bool {
	if m == nil {
		return false
	}
	if m.pure {
		return true
	}
	for i, a := range args {
		if a == v && !(m.reads != nil && m.reads[i+off]) {
			return false
		}
	}
	return true
}

// ---- C24: the same library in every configuration ----

func collectAPI(p *Program, r *Report) {
	q := func(pk *types.Package) string { return pk.Path() }
	add := func(s string) { r.API = append(r.API, s) }
	r.API = nil
	for _, sp := range p.spkgs {
		scope := sp.Pkg.Scope()
		for _, n := range scope.Names() {
			o := scope.Lookup(n)
			vis := "X"
			if !o.Exported() {
				vis = "u"
			}
			if f, ok := o.(*types.Func); ok {
				add(vis + " " + sp.Pkg.Path() + "." + n + "\x00" + types.TypeString(f.Type(), q))
				continue
			}
			if vis == "u" {
				continue
			}
			switch o := o.(type) {
			case *types.TypeName:
				add("X " + sp.Pkg.Path() + "." + n + "\x00type")
				if st, ok := o.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); f.Exported() {
							add("X " + sp.Pkg.Path() + "." + n + "." + f.Name() + "\x00field " + types.TypeString(f.Type(), q))
						}
					}
				} else if !types.IsInterface(o.Type()) {
					add("X " + sp.Pkg.Path() + "." + n + " underlying\x00" + types.TypeString(o.Type().Underlying(), q))
				}
				t := o.Type()
				if !types.IsInterface(t) {
					t = types.NewPointer(t)
				}
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if m := ms.At(i).Obj(); m.Exported() {
						add("X " + sp.Pkg.Path() + "." + n + "." + m.Name() + "()\x00" + types.TypeString(m.Type(), q))
					}
				}
			case *types.Const:
				add("X " + sp.Pkg.Path() + "." + n + "\x00const " + o.Val().ExactString())
			default:
				add("X " + sp.Pkg.Path() + "." + n + "\x00" + types.TypeString(o.Type(), q))
			}
		}
	}
	sort.Strings(r.API)
	for _, a := range r.API {
		r.item("api", strings.ReplaceAll(a, "\x00", " "), true, nil)
	}
	if len(r.API) < 20 {
		r.add(Finding{Rule: "api", Msg: "the exported API was not found"})
	}
}

func compareAPI(rs []*Report) []Finding {
	type ent struct{ cfgs map[string]string }
	all := map[string]map[string]string{}
	for _, r := range rs {
		for _, a := range r.API {
			k, v, _ := strings.Cut(a, "\x00")
			if all[k] == nil {
				all[k] = map[string]string{}
			}
			all[k][r.Cfg] = v
		}
	}
	var fs []Finding
	for _, k := range sortedKeys(all) {
		m := all[k]
		first := ""
		for _, r := range rs {
			v, ok := m[r.Cfg]
			if !ok {
				if strings.HasPrefix(k, "X ") {
					fs = append(fs, Finding{Rule: "api", Fn: k[2:], Msg: "missing in configuration " + r.Cfg})
				}
				continue
			}
			if first == "" {
				first = v
			} else if v != first {
				fs = append(fs, Finding{Rule: "api", Fn: k[2:], Msg: "declared as " + first + " and, in configuration " + r.Cfg + ", as " + v})
			}
		}
	}
	return fs
}
