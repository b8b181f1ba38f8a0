package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resolveCallee evaluates what is called and with which arguments.
func (it *Interp) resolveCallee(st *State, c *ssa.CallCommon, in ssa.Instruction) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := it.value(st, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, it.value(st, a))
		}
		return nil, args
	}
	fn := it.value(st, c.Value)
	for _, a := range c.Args {
		args = append(args, it.value(st, a))
	}
	return fn, args
}

// call executes a call instruction.
func (it *Interp) call(st *State, in ssa.Instruction, c *ssa.CallCommon, result ssa.Value) []*State {
	fn, args := it.resolveCallee(st, c, in)
	return it.callTerm(st, in, c, fn, args, result, false)
}

func resultTypes(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

func setResult(st *State, v ssa.Value, res []*Term) {
	if v == nil {
		return
	}
	if len(res) == 1 {
		st.env[v] = res[0]
	} else if len(res) > 1 {
		st.env[v] = app("tuple", "", v.Type(), res...)
	}
}

func inlinable(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	return fnInModule(fn)
}

func fnInModule(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return inModule(f.Pkg.Pkg)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return inModule(o.Pkg())
	}
	// wrappers and bound methods have no package; they only forward
	return f.Synthetic != ""
}

func (it *Interp) callTerm(st *State, in ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term, result ssa.Value, isDefer bool) []*State {
	ci := &CallInfo{instr: in, common: c, args: args, frame: st.ctx, deferred: isDefer}
	if c.IsInvoke() {
		recv := args[0]
		ci.invoke = true
		if !it.notNil(st, recv, in, "interface value in call of "+c.Method.Name()) {
			return nil
		}
		var conc types.Type
		var inner *Term
		if recv.op == "mkiface" {
			conc, inner = it.typeByKey[recv.aux], recv.args[0]
		} else if d := it.dynTypes(recv); len(d) == 1 {
			conc = it.typeByKey[d[0].aux]
			inner = app("unbox", d[0].aux, conc, recv)
		} else if len(d) > 1 {
			var out []*State
			for _, x := range d {
				s := st.clone()
				if !s.assume(app("typeis", x.aux, types.Typ[types.Bool], recv), true) {
					continue
				}
				ct := it.typeByKey[x.aux]
				out = append(out, it.callMethod(s, ci, ct, app("unbox", x.aux, ct, recv), c, result)...)
			}
			return out
		} else if k := st.knownType(recv); k != nil {
			conc = k
			inner = app("unbox", typeKey(k), k, recv)
		}
		if conc != nil {
			return it.callMethod(st, ci, conc, inner, c, result)
		}
		ci.name = methodName(c.Method)
		return it.external(st, ci, resultTypes(c.Signature()), result)
	}
	switch fn.op {
	case "builtin":
		return it.builtin(st, ci, fn.aux, result)
	case "func":
		f := it.prog.fnByName[fn.aux]
		if f == nil {
			f = c.StaticCallee()
		}
		return it.callFn(st, ci, f, nil, args, result)
	case "closure":
		f := it.prog.fnByName[fn.aux]
		return it.callFn(st, ci, f, fn.args, args, result)
	}
	if f := c.StaticCallee(); f != nil {
		return it.callFn(st, ci, f, nil, args, result)
	}
	// a function value: nil check, then every function known to be stored there
	if !it.notNil(st, fn, in, "called function value") {
		return nil
	}
	if cands := it.funcsStored(fn); len(cands) > 0 {
		var out []*State
		for _, f := range cands {
			var free []*Term
			s := st
			if len(cands) > 1 {
				s = st.clone()
			}
			for range f.FreeVars {
				free = append(free, nil)
			}
			out = append(out, it.callFn(s, ci, f, free, args, result)...)
		}
		return out
	}
	ci.name = "dynamic"
	ci.args = append([]*Term{fn}, args...)
	return it.external(st, ci, resultTypes(c.Signature()), result)
}

func methodName(m *types.Func) string { return m.FullName() }

// knownType: a concrete dynamic type established by an earlier assertion.
func (st *State) knownType(x *Term) types.Type {
	for _, f := range st.typeFacts(x) {
		t := st.it.typeByKey[f.aux]
		if t != nil && !types.IsInterface(t) {
			return t
		}
	}
	return nil
}

func (it *Interp) callMethod(st *State, ci *CallInfo, conc types.Type, recv *Term, c *ssa.CallCommon, result ssa.Value) []*State {
	sel := it.prog.methodSel(conc, c.Method)
	if sel == nil {
		ci.name = methodName(c.Method)
		return it.external(st, ci, resultTypes(c.Signature()), result)
	}
	args := append([]*Term{recv}, ci.args[1:]...)
	ci2 := *ci
	ci2.args = args
	f := it.prog.ssa.MethodValue(sel)
	if f != nil && inlinable(f) {
		return it.callFn(st, &ci2, f, nil, args, result)
	}
	// a method of another package, possibly promoted through embedding
	if m, ok := sel.Obj().(*types.Func); ok {
		ci2.name = m.FullName()
	}
	return it.external(st, &ci2, resultTypes(c.Signature()), result)
}

const maxRecursion = 3

func (it *Interp) callFn(st *State, ci *CallInfo, f *ssa.Function, free []*Term, args []*Term, result ssa.Value) []*State {
	if f == nil {
		ci.name = "unknown"
		return it.external(st, ci, resultTypes(ci.common.Signature()), result)
	}
	ci.fn = f
	ci.name = f.String()
	if o := f.Origin(); o != nil {
		ci.name = o.String()
	}
	if !inlinable(f) {
		return it.external(st, ci, resultTypes(f.Signature), result)
	}
	n := 0
	for p := st.ctx; p != nil; p = p.parent {
		if p.fn == f && p.unroll == nil {
			n++
		}
	}
	if n >= maxRecursion || st.ctx.depth > 60 {
		it.problem("recursion:"+f.String(), "recursion of "+f.String()+" not bounded by constants")
		for cl := range it.prog.modset {
			st.kill(cl, st.ctx, ci.instr)
		}
		return it.external(st, ci, resultTypes(f.Signature), result)
	}
	for _, h := range it.hooks {
		if h.stub != nil {
			if res := h.stub(st, ci); res != nil {
				setResult(st, result, res)
				return []*State{st}
			}
		}
	}
	for _, h := range it.hooks {
		if h.enter != nil {
			h.enter(st, ci)
		}
	}
	saved := st.env
	ctx := st.ctx
	extra := ""
	if ci.deferred {
		extra = "~d"
	}
	fr := mkFrame(ctx, ci.instr, f, extra)
	st.env = map[ssa.Value]*Term{}
	for i, p := range f.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, fv := range f.FreeVars {
		if i < len(free) && free[i] != nil {
			st.env[fv] = free[i]
		} else {
			t := mkSym("free", fv.Name(), fv.Type(), fr, nil)
			// captured variables are passed by address
			if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
				st.truth[mkEq(t, nilTerm)] = false
			}
			st.env[fv] = t
		}
	}
	exits := it.runFn(fr, st)
	var out []*State
	for _, e := range exits {
		s := e.st
		s.ctx = ctx
		s.env = make(map[ssa.Value]*Term, len(saved)+1)
		for k, v := range saved {
			s.env[k] = v
		}
		setResult(s, result, e.res)
		for _, h := range it.hooks {
			if h.leave != nil {
				h.leave(s, ci, e.res)
			}
		}
		out = append(out, s)
	}
	return out
}

// external handles a call to a function without source in the module.
func (it *Interp) external(st *State, ci *CallInfo, rts []types.Type, result ssa.Value) []*State {
	it.callsSeen[ci.instr] = true
	for _, h := range it.hooks {
		if h.call != nil {
			h.call(st, ci)
		}
	}
	m := modelFor(ci.name)
	states := []*State{st}
	if m != nil && m.eval != nil {
		if r := m.eval(it, st, ci); r != nil {
			// the model produced its own results (possibly several cases)
			var out []*State
			for _, x := range r {
				for _, h := range it.hooks {
					if h.after != nil {
						c := *ci
						c.res = x.res
						h.after(x.st, &c)
					}
				}
				setResult(x.st, result, x.res)
				out = append(out, x.st)
			}
			return out
		}
	}
	var res []*Term
	pure := m != nil && m.pure
	// the arguments are part of a result's identity: the same call is made with others on other paths
	given := ""
	for _, a := range ci.args {
		given += fmt.Sprint(",", a.id)
	}
	for i, rt := range rts {
		if pure {
			args := make([]*Term, len(ci.args))
			for k, a := range ci.args {
				if a.typ != nil && isByteSlice(a.typ) {
					a = st.snapshot(a)
				}
				args[k] = a
			}
			t := app("call", ci.name+"#"+fmt.Sprint(i), rt, args...)
			res = append(res, t)
			continue
		}
		t := mkSym("call", ci.name+"."+instrKey(ci.instr)+given+"#"+fmt.Sprint(i), rt, st.ctx, ci.instr)
		t.sym.callee = ci.name
		t.sym.args = ci.args
		t.sym.index = i
		if len(rts) == 1 {
			t.sym.index = -1
		}
		forget(st, t)
		res = append(res, t)
	}
	if !pure {
		for _, t := range res {
			t.sym.sibs = res
		}
	}
	ci.res = res
	if len(res) == 1 && ci.fn != nil && strings.HasPrefix(ci.fn.Name(), "New") && nilable(res[0].typ) && !isErrorType(res[0].typ) {
		// constructors of other packages return something
		st.truth[mkEq(res[0], nilTerm)] = false
	}
	buf, bufN, bufOK := it.bufferEffect(st, ci)
	if !pure {
		it.defaultEffects(st, ci, m)
	}
	if bufOK {
		it.bufferResult(st, ci, buf, bufN)
	}
	if m != nil {
		if m.nonnil {
			for _, r := range res {
				if len(res) == 1 || !isErrorType(r.typ) {
					st.truth[mkEq(r, nilTerm)] = false
				}
			}
		}
		if m.post != nil {
			m.post(it, st, ci)
		}
	}
	setResult(st, result, res)
	for _, h := range it.hooks {
		if h.after != nil {
			h.after(st, ci)
		}
	}
	return states
}

// defaultEffects: what an external function may change.
func (it *Interp) defaultEffects(st *State, ci *CallInfo, m *model) {
	if m != nil && m.noeffect {
		for i, a := range ci.args {
			if ci.fn != nil && ci.fn.Signature.Recv() != nil && i == 0 {
				continue
			}
			it.retainBuffers(st, a)
		}
		return
	}
	callback := false
	var module []types.Type
	for i, a := range ci.args {
		if m != nil && m.reads != nil && m.reads[i] {
			continue
		}
		x := a
		if x.op == "mkiface" {
			t := it.typeByKey[x.aux]
			if t != nil && it.prog.moduleMethods(t) {
				callback = true
				module = append(module, t)
			}
			x = x.args[0]
		} else if x.typ != nil && types.IsInterface(x.typ) {
			if !types.Identical(x.typ, types.Universe.Lookup("error").Type()) {
				callback = true
			}
		}
		if x.typ != nil {
			if _, ok := x.typ.Underlying().(*types.Signature); ok && x.op == "closure" {
				callback = true
			}
		}
		if ci.fn != nil && ci.fn.Signature.Recv() != nil && i == 0 {
			// methods of external types change their own receiver only
			r := addrRoot(x)
			if isAlloc(r) {
				st.mem[contentAddr(x)] = mkSym("ver", "content"+fmt.Sprint(x.id)+"!"+instrKey(ci.instr), nil, st.ctx, ci.instr)
			}
			continue
		}
		if _, isP := typOf(x).Underlying().(*types.Pointer); isP || x.op == "fld" || isAlloc(x) || x.op == "slice" || x.op == "make" || x.op == "append" || x.op == "list" {
			if !(x.op == "const") {
				if m == nil || !m.noescape {
					st.markEscaped(x)
				}
				r := addrRoot(x)
				it.killObject(st, x, r, ci)
			}
		} else {
			st.markEscaped(x)
		}
	}
	if it.calm {
		for _, t := range module {
			for _, cl := range it.prog.modsetOf(t) {
				st.kill(cl, st.ctx, ci.instr)
			}
		}
		return
	}
	if callback || ci.name == "dynamic" {
		for cl := range it.prog.modset {
			st.kill(cl, st.ctx, ci.instr)
		}
	}
}

// killObject forgets the contents reachable through an argument handed to external code.
func (it *Interp) killObject(st *State, x, r *Term, ci *CallInfo) {
	unfill(st, r)
	if s, ok := moduleStruct(derefIf(r.typ)); ok {
		// external code may set the exported fields
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Exported() {
				id := fieldID(derefIf(r.typ), i)
				it.inv.refute(it.inv.notNonNeg, id, "set by "+ci.name)
				it.inv.refute(it.inv.notCounter, id, "set by "+ci.name)
				it.inv.refute(it.inv.notNonNil, id, "set by "+ci.name)
			}
		}
	}
	if isAlloc(r) || r.op == "make" {
		st.killRoot(r, reached(x), st.ctx, ci.instr)
	} else if x.typ != nil {
		switch u := x.typ.Underlying().(type) {
		case *types.Slice:
			st.kill("e:"+typeKey(u.Elem()), st.ctx, ci.instr)
		}
	}
	st.mem[contentAddr(r)] = mkSym("ver", "content"+fmt.Sprint(r.id)+"!"+instrKey(ci.instr), nil, st.ctx, ci.instr)
}

// assumed is called for each new fact; it derives what follows and informs the rules.
func (it *Interp) assumed(st *State, t *Term, val bool) bool {
	bt := types.Typ[types.Bool]
	switch t.op {
	case "eq":
		x, y := t.args[0], t.args[1]
		if y.isNil() {
			x, y = y, x
		}
		if x.isNil() && val && y.sym != nil && y.sym.kind == "call" && isErrorType(y.typ) {
			// success: the other results are usable
			for _, s := range y.sym.sibs {
				if s == y || s.typ == nil {
					continue
				}
				switch s.typ.Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
					st.truth[mkEq(s, nilTerm)] = false
				}
			}
			if m := modelFor(y.sym.callee); m != nil && m.onOK != nil {
				if !m.onOK(it, st, y.sym.sibs, y.sym.args) {
					return false
				}
			}
		}
	case "has":
		if tab := it.constTable(t.args[0]); tab != nil && len(tab.vals) > 0 && len(t.args) == 3 && isIntTerm(tab.vals[0]) {
			v := app("lookup", "", tab.vals[0].typ, t.args...)
			if gm := t.args[0]; gm.typ != nil {
				v = app("lookup", "", gm.typ.Underlying().(*types.Map).Elem(), t.args...)
			}
			if !val {
				return st.addEq(v, mkInt(0))
			}
			lo, hi := int64(1<<62), int64(-1<<62)
			for _, e := range tab.vals {
				n, isN := e.intVal()
				if !isN {
					return true
				}
				lo, hi = min(lo, n), max(hi, n)
			}
			return st.addLin(linConst(lo).sub(linTerm(v))) && st.addLin(linTerm(v).plus(-hi))
		}
		if val {
			m, k := t.args[0], t.args[1]
			if sum, ok := st.mem[mapSumAddr(m)]; ok && len(t.args) == 3 {
				v := app("lookup", "", sum.typ, m, k, t.args[2])
				// transfer bounds of the summary to the value
				var add []Lin
				for _, l := range st.lin.m {
					if l.coef(sum) != 0 {
						add = append(add, substLin(l, map[*Term]*Term{sum: v}))
					}
				}
				if n, ok := sum.intVal(); ok {
					add = append(add, linTerm(v).plus(-n), linConst(n).sub(linTerm(v)))
				} else if sum.op == "lin" || (isIntTerm(sum)) {
					add = append(add, linTerm(v).sub(toLin(sum)))
					if len(sum.args) > 0 || sum.sym != nil {
						// v equals one of the stored values; only the upper/lower relations that hold for the
						// summary symbol itself are known
						add = add[:len(add)-1]
					}
				}
				for _, l := range add {
					st.lin.add(l)
				}
				if st.nilness(sum) == 2 {
					st.truth[mkEq(v, nilTerm)] = false
				}
			}
		}
	case "typeis":
		if val {
			x := t.args[0]
			st.truth[mkEq(x, nilTerm)] = false
			if ty := it.typeByKey[t.aux]; ty != nil {
				if _, ok := ty.Underlying().(*types.Pointer); ok && t.aux != "" {
					u := app("unbox", t.aux, ty, x)
					if !it.unboxMayBeNil(x) {
						st.truth[mkEq(u, nilTerm)] = false
					}
				}
			}
		}
	case "sym":
		if t.sym.kind == "range" && val {
			for f, v := range st.truth {
				if v && f.op == "rangekey" && f.args[0] == t {
					if !st.assume(f.args[1], true) {
						return false
					}
				}
				if v && f.op == "rangestr" && f.args[0] == t {
					st.lin.add(toLin(f.args[1]).sub(toLin(f.args[2])).plus(1))
				}
			}
		}
	}
	_ = bt
	for _, h := range it.hooks {
		if h.assume != nil {
			h.assume(st, t, val)
		}
	}
	return true
}

// unboxMayBeNil: an interface holding a typed nil pointer. Values handed in by callers are assumed not
// to be typed nils.
func (it *Interp) unboxMayBeNil(x *Term) bool { return false }

func derefIf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return derefType(t)
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (it *Interp) factHolds(st *State, f *Term) bool {
	if st.truth[f] {
		return true
	}
	if f.op == "F:filled" {
		return it.filledTo(st, f.args[0], f.args[1])
	}
	for _, h := range it.hooks {
		if h.implied != nil && h.implied(st, f) {
			return true
		}
	}
	return false
}

func (it *Interp) factTemplates(states []*State, j *Term, ts []*Term) []*Term {
	r := it.fillTemplates(states, j)
	for _, h := range it.hooks {
		if h.templates != nil {
			r = append(r, h.templates(states, j, ts)...)
		}
	}
	return r
}

// ---- builtins ----

func (it *Interp) builtin(st *State, ci *CallInfo, name string, result ssa.Value) []*State {
	var res *Term
	args := ci.args
	for _, h := range it.hooks {
		if h.builtin != nil {
			h.builtin(st, ci, name)
		}
	}
	switch name {
	case "len":
		if p, ok := ci.common.Args[0].Type().Underlying().(*types.Pointer); ok {
			res = mkInt(p.Elem().Underlying().(*types.Array).Len())
		} else if a, ok := ci.common.Args[0].Type().Underlying().(*types.Array); ok {
			res = mkInt(a.Len())
		} else if _, ok := ci.common.Args[0].Type().Underlying().(*types.Map); ok {
			res = app("maplen", "", types.Typ[types.Int], args[0], st.version(mapClass(ci.common.Args[0].Type())))
			st.lin.add(linTerm(res).neg())
			st.lin.add(linTerm(res).plus(-maxLen))
		} else {
			res = mkLen(args[0])
		}
	case "cap":
		res = mkCap(args[0])
		st.lin.add(toLin(mkLen(args[0])).sub(toLin(res)))
	case "append":
		res = it.appendTerm(st, ci)
	case "copy":
		n := it.fresh(st, "call", ci.instr, "copy", types.Typ[types.Int])
		n.sym.callee = "copy"
		n.sym.args = args
		forget(st, n)
		st.lin.add(linTerm(n).neg())
		st.lin.add(linTerm(n).sub(toLin(mkLen(args[0]))))
		st.lin.add(linTerm(n).sub(toLin(mkLen(args[1]))))
		r := addrRoot(args[0])
		it.killObject(st, args[0], r, ci)
		res = n
	case "delete":
		m, k := args[0], args[1]
		class := mapClass(ci.common.Args[0].Type())
		for _, h := range it.hooks {
			if h.call != nil {
				c := *ci
				c.name = "delete"
				h.call(st, &c)
			}
		}
		st.newVersion(class, st.ctx, ci.instr, "del")
		st.truth[app("has", "", types.Typ[types.Bool], m, k, st.version(class))] = false
	case "min", "max":
		t := it.fresh(st, "call", ci.instr, name, ci.common.Signature().Results().At(0).Type())
		if result != nil {
			t = it.fresh(st, "call", ci.instr, name, result.Type())
		}
		t.sym.callee = name
		t.sym.args = args
		forget(st, t)
		for _, a := range args {
			if name == "min" {
				st.lin.add(linTerm(t).sub(toLin(a)))
			} else {
				st.lin.add(toLin(a).sub(linTerm(t)))
			}
		}
		allNN := true
		for _, a := range args {
			if !st.nonNeg(a) {
				allNN = false
			}
		}
		if allNN {
			st.lin.add(linTerm(t).neg())
		}
		// exact cases
		if len(args) == 2 {
			a, b := args[0], args[1]
			if v, ok := st.decide(mkLe0(toLin(a).sub(toLin(b)))); ok {
				if v == (name == "min") {
					t = a
				} else {
					t = b
				}
			} else {
				s1, s2 := st, st.clone()
				s1.assume(mkLe0(toLin(a).sub(toLin(b))), true)
				s2.assume(mkLe0(toLin(a).sub(toLin(b))), false)
				r1, r2 := a, b
				if name == "max" {
					r1, r2 = b, a
				}
				setResult(s1, result, []*Term{r1})
				setResult(s2, result, []*Term{r2})
				return []*State{s1, s2}
			}
		}
		res = t
	case "clear":
		r := addrRoot(args[0])
		it.killObject(st, args[0], r, ci)
		if _, ok := ci.common.Args[0].Type().Underlying().(*types.Map); ok {
			st.newVersion(mapClass(ci.common.Args[0].Type()), st.ctx, ci.instr, "clr")
		}
	case "ssa:wrapnilchk":
		if !it.notNil(st, args[0], ci.instr, "receiver") {
			return nil
		}
		res = args[0]
	case "panic":
		it.oblige(st, "panic", ci.instr, false, func() string { return "explicit panic is reachable" })
		return nil
	case "print", "println":
		for _, h := range it.hooks {
			if h.call != nil {
				c := *ci
				c.name = name
				h.call(st, &c)
			}
		}
	case "recover":
		it.problem("recover:"+ci.instr.Parent().String(), "recover is not modelled")
		res = it.fresh(st, "call", ci.instr, name, result.Type())
	default:
		it.problem("builtin:"+name, "builtin "+name+" is not modelled")
		if result != nil {
			res = it.fresh(st, "unknown", ci.instr, name, result.Type())
		}
	}
	if res != nil {
		setResult(st, result, []*Term{res})
	}
	return []*State{st}
}

// appendTerm models append(s, xs...).
func (it *Interp) appendTerm(st *State, ci *CallInfo) *Term {
	s, xs := ci.args[0], ci.args[1]
	t := ci.common.Args[0].Type()
	if ci.common.Signature().Results().Len() > 0 {
		t = ci.common.Signature().Results().At(0).Type()
	}
	n := mkLen(xs)
	vals := noneTerm
	if els := st.elements(xs); els != nil {
		vals = app("list", "", xs.typ, els...)
		for _, e := range els {
			st.markEscaped(e)
			if sl, ok := t.Underlying().(*types.Slice); ok && nilable(sl.Elem()) {
				it.inv.noteField(it, st, "e:"+typeKey(sl.Elem()), e, nil, sl.Elem())
			} else if ok {
				it.publish(st, e, sl.Elem())
			}
		}
		if s.op == "list" {
			return app("list", "", t, append(append([]*Term{}, s.args...), els...)...)
		}
		if s.isNil() && len(els) > 0 {
			return app("list", "", t, els...)
		}
		if st.fullLiteral(s) && len(els) > 0 {
			// no spare capacity: the elements are copied
			return app("list", "", t, append(append([]*Term{}, st.elements(s)...), els...)...)
		}
	}
	if z, ok := n.intVal(); ok && z == 0 {
		return s
	}
	if vals == noneTerm {
		vals = xs
	}
	// appending may write into the spare capacity of s
	if sl, ok := t.Underlying().(*types.Slice); ok {
		r := addrRoot(s)
		if !(s.isNil() || s.op == "list") {
			_ = r
			st.newVersion("e:"+typeKey(sl.Elem()), st.ctx, ci.instr, "ap")
		}
	}
	st.markEscaped(xs)
	return app("append", "", t, s, n, vals)
}

// fullLiteral: a slice of known elements that covers its whole array.
func (st *State) fullLiteral(s *Term) bool {
	if s.op != "slice" || s.args[0].op != "arr" || st.elements(s) == nil {
		return false
	}
	base := s.args[0].args[0]
	if !isAlloc(base) || base.typ == nil {
		return false
	}
	a, ok := base.typ.Underlying().(*types.Array)
	if !ok {
		return false
	}
	lo, ok := s.args[1].intVal()
	n, ok2 := mkLen(s).intVal()
	return ok && ok2 && lo == 0 && n == a.Len()
}

// elements gives the elements of a slice over a literal array, when all are known.
func (st *State) elements(xs *Term) []*Term {
	if xs.op == "list" {
		return xs.args
	}
	if xs.isNil() {
		return []*Term{}
	}
	if xs.op != "slice" || xs.args[0].op != "arr" {
		return nil
	}
	arr := xs.args[0]
	n, ok := mkLen(xs).intVal()
	lo, ok2 := xs.args[1].intVal()
	if !ok || !ok2 || n > 64 {
		return nil
	}
	base := arr.args[0]
	var et types.Type
	if xs.typ != nil {
		if s, ok := xs.typ.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
	}
	if et == nil {
		return nil
	}
	out := []*Term{}
	for i := int64(0); i < n; i++ {
		a := app("elemaddr", "", et, base, mkInt(lo+i))
		out = append(out, st.load(a, et))
	}
	return out
}

// ---- tables computed by package initialisation ----

type constTab struct {
	keys []*Term
	vals []*Term
}

func (c *constTab) get(k *Term) (*Term, bool) {
	for i, x := range c.keys {
		if x == k {
			return c.vals[i], true
		}
	}
	return nil, false
}

// constTable gives the literal contents of a package-level map that nothing writes after initialisation.
func (it *Interp) constTable(m *Term) *constTab {
	if m.op != "gmap" {
		return nil
	}
	return it.prog.gmaps[m.aux]
}

// globalContent is the value of a package-level variable that is never written after initialisation.
func (it *Interp) globalContent(addr, root *Term, t types.Type) *Term {
	g := globalOf[root]
	if g == nil {
		return nil
	}
	if !inModule(g.Pkg.Pkg) {
		// sentinels such as io.EOF
		if isErrorType(t) || true {
			return app("gval", g.String(), t)
		}
	}
	if addr != root {
		return nil
	}
	return it.prog.globalValue(it, g)
}

// ---- invariants about fields, established over all stores of the module ----

type Invariants struct {
	notNonNil  map[string]bool // refuted
	notNonNeg  map[string]bool
	notCounter map[string]bool
	dyn        map[string]map[string]bool // field -> dynamic types stored
	dynOpen    map[string]bool
	fns        map[string]map[string]bool // func-typed fields -> functions stored
	fnsOpen    map[string]bool
	changed    bool
	stores     map[string]int
	why        map[string]string
	prevStores map[string]int
}

func newInvariants() *Invariants {
	return &Invariants{notNonNil: map[string]bool{}, notNonNeg: map[string]bool{}, notCounter: map[string]bool{},
		dyn: map[string]map[string]bool{}, dynOpen: map[string]bool{}, fns: map[string]map[string]bool{}, fnsOpen: map[string]bool{},
		stores: map[string]int{}, why: map[string]string{}}
}

// fieldOfAddr names the field an address denotes; variables of the module's own integer types (byte
// counters that are passed around by pointer) are treated as a field of their own.
func fieldOfAddr(t *Term) (string, bool) {
	if t.op == "fld" {
		return t.aux, true
	}
	if t.op != "elemaddr" && t.typ != nil && isInteger(t.typ) {
		if n, ok := types.Unalias(t.typ).(*types.Named); ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg()) {
			return "p:" + typeKey(t.typ), true
		}
	}
	return "", false
}

func (inv *Invariants) refute(m map[string]bool, f, why string) {
	if !m[f] {
		m[f] = true
		inv.changed = true
		inv.why[f] += why + "; "
	}
}

func (inv *Invariants) noteStore(it *Interp, st *State, addr, v *Term, t types.Type) {
	if r := addrRoot(addr); (isAlloc(r) || r.op == "make") && !st.escaped(r) {
		// the object is still followed precisely; what it holds counts when it is published
		if f, ok := fieldOfAddr(addr); !ok || !strings.HasPrefix(f, "p:") {
			if _, ok := st.mem[addr]; ok || st.truth[zeroedFact(r)] {
				if addr.op == "elemaddr" && r.op == "make" && nilable(t) && st.nilness(v) != 2 {
					inv.refute(inv.notNonNil, "e:"+typeKey(t), v.String())
				}
				if addr.op == "elemaddr" && nilable(t) && types.IsInterface(t) {
					inv.noteDyn(it, "e:"+typeKey(t), v, map[*Term]bool{})
				}
				return
			}
		}
	}
	if c := it.locClass(addr); c != "" {
		inv.noteField(it, st, c, v, nil, t)
	}
	f, ok := fieldOfAddr(addr)
	if !ok {
		if s, isS := t.Underlying().(*types.Struct); isS && !opaqueStruct(t) {
			for i := 0; i < s.NumFields(); i++ {
				inv.noteField(it, st, fieldID(t, i), projField(v, t, i), nil, s.Field(i).Type())
			}
		}
		return
	}
	inv.noteField(it, st, f, v, addr, t)
}

func (inv *Invariants) noteField(it *Interp, st *State, f string, v, addr *Term, t types.Type) {
	inv.stores[f]++
	it.publish(st, v, t)
	if strings.HasPrefix(f, "e:") || strings.HasPrefix(f, "c:") {
		if isInteger(t) {
			return
		}
	}
	if isInteger(t) {
		if !inv.notNonNeg[f] && !st.nonNeg(v) {
			inv.refute(inv.notNonNeg, f, v.String())
		}
		if !inv.notCounter[f] {
			ok := false
			if n, isC := v.intVal(); isC && n >= 0 && n < 1<<40 {
				ok = true
			} else if addr == nil {
				// an object built before it was published: what it holds is a counter's value, or small
				ok = st.nonNeg(v) && st.proveLin(toLin(v).plus(-maxCount-maxLen))
			} else {
				d := toLin(v).sub(toLin(st.load(addr, t)))
				if st.proveLin(d.neg()) && st.proveLin(d.plus(-maxLen-8)) {
					ok = true
				}
			}
			if !ok {
				inv.refute(inv.notCounter, f, v.String())
			}
		}
		return
	}
	if s, isS := t.Underlying().(*types.Struct); isS && !opaqueStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			inv.noteField(it, st, fieldID(t, i), projField(v, t, i), nil, s.Field(i).Type())
		}
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		if !inv.notNonNil[f] && st.nilness(v) != 2 {
			inv.refute(inv.notNonNil, f, v.String())
		}
	case *types.Interface:
		if !inv.notNonNil[f] && st.nilness(v) != 2 {
			inv.refute(inv.notNonNil, f, v.String())
		}
		inv.noteDyn(it, f, v, map[*Term]bool{})
	case *types.Signature:
		if !inv.notNonNil[f] && st.nilness(v) != 2 {
			inv.refute(inv.notNonNil, f, v.String())
		}
		switch v.op {
		case "closure", "func":
			if inv.fns[f] == nil {
				inv.fns[f] = map[string]bool{}
			}
			if !inv.fns[f][v.aux] {
				inv.fns[f][v.aux] = true
				inv.changed = true
			}
		case "nil":
		default:
			if !inv.fnsOpen[f] {
				inv.fnsOpen[f] = true
				inv.changed = true
			}
		}
	}
}

func (inv *Invariants) noteDyn(it *Interp, f string, v *Term, seen map[*Term]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch {
	case v.isNil():
	case v.op == "mkiface":
		t := it.typeByKey[v.aux]
		if t == nil || !it.prog.moduleMethods(t) {
			if !inv.dynOpen[f] {
				inv.dynOpen[f] = true
				inv.changed = true
			}
			return
		}
		if inv.dyn[f] == nil {
			inv.dyn[f] = map[string]bool{}
		}
		if !inv.dyn[f][v.aux] {
			inv.dyn[f][v.aux] = true
			inv.changed = true
		}
	case v.sym != nil && v.sym.kind == "join":
		for _, p := range sortedTerms(v.sym.parents) {
			inv.noteDyn(it, f, p, seen)
		}
	case v.op == "ld" && v.args[0].op == "fld" && v.args[0].aux == f:
		// re-storing its own value
	default:
		if !inv.dynOpen[f] {
			inv.dynOpen[f] = true
			inv.changed = true
		}
	}
}

func (inv *Invariants) noteMapStore(it *Interp, st *State, mt types.Type, v *Term) {
	et := mt.Underlying().(*types.Map).Elem()
	if s, ok := et.Underlying().(*types.Struct); ok && !opaqueStruct(et) {
		for i := 0; i < s.NumFields(); i++ {
			inv.noteField(it, st, fieldID(et, i), projField(v, et, i), nil, s.Field(i).Type())
		}
	}
}

// locClass names the kind of location (element of a slice of some type, variable captured by a closure)
// whose values are summarised over the whole module.
func (it *Interp) locClass(addr *Term) string {
	switch {
	case addr.op == "elemaddr":
		if addr.typ != nil && nilable(addr.typ) {
			return "e:" + typeKey(addr.typ)
		}
	case isAlloc(addr):
		if in, ok := addr.sym.instr.(*ssa.Alloc); ok && it.prog.captured[in] {
			return cellKey(in)
		}
	case addr.op == "sym" && addr.sym.kind == "free":
		if fn := addr.sym.frame; fn != nil {
			for _, fv := range fn.base().fn.FreeVars {
				if fv.Name() == addr.sym.name {
					if c := it.prog.cellOf[fv]; c != nil {
						return cellKey(c)
					}
				}
			}
		}
	}
	return ""
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func cellKey(in *ssa.Alloc) string { return "c:" + fnID(in.Parent()) + "|" + instrKey(in) }

// moduleStruct: a struct type whose fields are tracked one by one.
func moduleStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg()) {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// publish is called when the value v stops being followed precisely (it is stored, boxed, returned to
// the caller of the module, merged with another): what it points to must satisfy the module-wide field
// invariants from then on.
func (it *Interp) publish(st *State, v *Term, t types.Type) {
	if v == nil || it.publishing[v] {
		return
	}
	it.publishing[v] = true
	defer delete(it.publishing, v)
	switch {
	case isAlloc(v):
		if c := it.locClass(v); c != "" && nilable(v.typ) {
			it.inv.noteField(it, st, c, st.load(v, v.typ), nil, v.typ)
		}
		s, ok := moduleStruct(v.typ)
		if !ok {
			return
		}
		if _, isMap := v.typ.Underlying().(*types.Map); isMap {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			a := fieldAddr(v, fieldID(v.typ, i), ft)
			it.inv.noteField(it, st, a.aux, st.load(a, ft), nil, ft)
		}
	case v.op == "mkiface":
		it.publish(st, v.args[0], it.typeByKey[v.aux])
	case v.op == "struct":
		if s, ok := moduleStruct(v.typ); ok {
			for i := 0; i < s.NumFields(); i++ {
				it.inv.noteField(it, st, fieldID(v.typ, i), projField(v, v.typ, i), nil, s.Field(i).Type())
			}
		}
	case v.op == "make":
		sl, ok := typOf(v).Underlying().(*types.Slice)
		if !ok {
			return
		}
		if s, ok := moduleStruct(sl.Elem()); ok {
			if n, isC := v.args[1].intVal(); isC && n == 0 {
				return
			}
			// zeroed elements
			for i := 0; i < s.NumFields(); i++ {
				it.inv.noteField(it, st, fieldID(sl.Elem(), i), zeroTerm(s.Field(i).Type()), nil, s.Field(i).Type())
			}
		}
		if nilable(sl.Elem()) && !it.filledTo(st, v, v.args[1]) {
			it.inv.refute(it.inv.notNonNil, "e:"+typeKey(sl.Elem()), "elements of "+v.String()+" left unset")
		}
	case v.op == "closure":
		for _, a := range v.args {
			it.publish(st, a, a.typ)
		}
	case v.op == "fld", v.op == "elemaddr":
		it.publish(st, addrRoot(v), nil)
	case v.op == "slice":
		if els := st.elements(v); els != nil {
			et := typOf(v).Underlying().(*types.Slice).Elem()
			if nilable(et) {
				for _, e := range els {
					it.inv.noteField(it, st, "e:"+typeKey(et), e, nil, et)
				}
			}
			return
		}
		it.publish(st, v.args[0], t)
	case v.op == "append":
		it.publish(st, v.args[0], t)
	}
}

func filledFact(base, n *Term) *Term { return fact("filled", "", base, n) }

// filledTo: have the elements [0,n) of base been set to non-nil values?
func (it *Interp) filledTo(st *State, base, n *Term) bool {
	l := toLin(n)
	if st.proveLin(l) {
		return true
	}
	for f, v := range st.truth {
		if v && f.op == "F:filled" && f.args[0] == base && st.proveLin(l.sub(toLin(f.args[1]))) {
			return true
		}
	}
	return false
}

func unfill(st *State, base *Term) {
	for f := range st.truth {
		if f.op == "F:filled" && addrRoot(f.args[0]) == addrRoot(base) {
			delete(st.truth, f)
		}
	}
}

// noteFilled: base[idx] was set to v.
func (it *Interp) noteFilled(st *State, base, idx, v *Term) {
	if st.nilness(v) != 2 {
		unfill(st, base)
		return
	}
	if it.filledTo(st, base, idx) {
		for f := range st.truth {
			if f.op == "F:filled" && f.args[0] == base {
				delete(st.truth, f)
			}
		}
		st.setFact(filledFact(base, fromLin(toLin(idx).plus(1), types.Typ[types.Int])))
	}
}

// fillTemplates proposes how far a slice is filled in terms of a loop counter.
func (it *Interp) fillTemplates(states []*State, j *Term) []*Term {
	bases := map[*Term]bool{}
	for _, st := range states {
		for f, v := range st.truth {
			if v && f.op == "F:filled" {
				bases[f.args[0]] = true
			}
		}
	}
	var r []*Term
	for _, b := range sortedTerms(bases) {
		if b.op == "make" {
			r = append(r, filledFact(b, b.args[1]))
		}
		if j.typ != nil && isInteger(j.typ) && j.sym != nil && !strings.Contains(j.sym.name, ":m") {
			r = append(r, filledFact(b, j), filledFact(b, fromLin(linTerm(j).plus(1), j.typ)))
		}
	}
	return r
}

// fieldOf gives the field a loaded value comes from.
func (it *Interp) fieldOf(t *Term) (string, bool) {
	switch t.op {
	case "ld":
		if c := it.locClass(t.args[0]); c != "" {
			return c, true
		}
		return fieldOfAddr(t.args[0])
	case "field":
		return t.aux, true
	}
	return "", false
}

// seen: values of the field were seen being stored (the first round is optimistic).
func (inv *Invariants) seen(f string) bool {
	return inv.prevStores == nil || inv.stores[f] > 0 || strings.HasPrefix(f, "e:")
}

func (it *Interp) moduleField(f string) bool {
	return it.prog.fields[f] || strings.HasPrefix(f, "e:") || strings.HasPrefix(f, "c:")
}

// keyFields: every entity of a key ring has a primary key (an assumption about callers).
var keyFields = map[string]bool{"github.com/ProtonMail/go-crypto/openpgp.Entity.PrimaryKey": true}

func (it *Interp) invNonNil(t *Term) bool {
	if t.op == "unbox" {
		t = t.args[0]
	}
	f, ok := it.fieldOf(t)
	if t.op == "ld" && ok && keyFields[f] {
		return true
	}
	if t.op == "field" {
		// the zero value of a missing map entry has nil fields
		if b := t.args[0]; !(b.op == "unbox" || b.sym != nil && b.sym.kind == "param") {
			return false
		}
	}
	return ok && it.moduleField(f) && !it.inv.notNonNil[f] && it.inv.seen(f)
}

func (it *Interp) invNonNeg(t *Term) bool {
	f, ok := it.fieldOf(t)
	return ok && it.moduleField(f) && !it.inv.notNonNeg[f]
}

func (it *Interp) invNonNegClass(string) bool { return false }

func (it *Interp) counterField(t *Term) bool {
	f, ok := it.fieldOf(t)
	return ok && it.moduleField(f) && it.prog.fieldIsInt64(f) && !it.inv.notCounter[f] && it.inv.seen(f)
}

// dynTypes lists the possible dynamic types of an interface value read from a field whose stores are
// all known; nil when unknown.
func (it *Interp) dynTypes(x *Term) []*Term {
	m := map[string]bool{}
	if !it.dynOf(x, m, map[*Term]bool{}) || len(m) == 0 {
		return nil
	}
	var r []*Term
	for _, k := range sortedKeys(m) {
		r = append(r, app("mkiface", k, nil, x))
	}
	return r
}

func (it *Interp) dynOf(x *Term, m map[string]bool, seen map[*Term]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	if x.isNil() {
		return true
	}
	if x.op == "mkiface" {
		m[x.aux] = true
		return true
	}
	if x.sym != nil && x.sym.kind == "join" && len(x.sym.parents) > 0 {
		for p := range x.sym.parents {
			if !it.dynOf(p, m, seen) {
				return false
			}
		}
		return true
	}
	f, ok := it.fieldOf(x)
	if !ok || x.op == "field" && !(x.args[0].op == "unbox" || x.args[0].sym != nil && x.args[0].sym.kind == "param") || !it.moduleField(f) || it.inv.dynOpen[f] {
		return false
	}
	if len(it.inv.dyn[f]) == 0 && (it.inv.prevStores != nil || len(seen) == 1) {
		return false
	}
	for k := range it.inv.dyn[f] {
		m[k] = true
	}
	return true
}

// funcsStored lists the functions stored in the field a function value was read from.
func (it *Interp) funcsStored(fn *Term) []*ssa.Function {
	f, ok := it.fieldOf(fn)
	if !ok || it.inv.fnsOpen[f] {
		return nil
	}
	var r []*ssa.Function
	for k := range it.inv.fns[f] {
		if g := it.prog.fnByName[k]; g != nil {
			r = append(r, g)
		}
	}
	return r
}

var _ = constant.MakeInt64
var _ = token.ADD
var _ = strings.HasPrefix
