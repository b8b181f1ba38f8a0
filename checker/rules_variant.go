package main

// C24, second part: functions that exist once per configuration must do the same thing.

import (
	"go/build/constraint"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var platformWords = map[string]bool{"windows": true, "linux": true, "darwin": true, "unix": true, "freebsd": true, "amd64": true, "arm64": true, "386": true, "arm": true}

// variantFuncs: functions declared in files that belong to some configurations only.
func (p *Program) variantFuncs() map[*ssa.Function]bool {
	files := map[string]bool{}
	for _, pkg := range p.pkgs {
		for _, f := range pkg.Syntax {
			name := p.fset.Position(f.Pos()).Filename
			for _, c := range f.Comments {
				if c.Pos() > f.Package {
					break
				}
				for _, l := range c.List {
					if constraint.IsGoBuild(l.Text) || constraint.IsPlusBuild(l.Text) {
						files[name] = true
					}
				}
			}
			parts := strings.Split(strings.TrimSuffix(filepath.Base(name), ".go"), "_")
			if len(parts) > 1 && platformWords[parts[len(parts)-1]] {
				files[name] = true
			}
		}
	}
	r := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		if fn.Pos().IsValid() && files[p.fset.Position(fn.Pos()).Filename] {
			r[fn] = true
		}
	}
	return r
}

// hasMethod: a method of that name without parameters.
func hasMethod(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name && f.Type().(*types.Signature).Params().Len() == 0 {
			return f
		}
	}
	return nil
}

// closes: every return of the method comes after a call of a Close (or Stop, Release...) of something.
func closes(fn *ssa.Function) bool {
	var calls []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			name := ""
			if c.Common().IsInvoke() {
				name = c.Common().Method.Name()
			} else if f := c.Common().StaticCallee(); f != nil {
				name = f.Name()
				if fnInModule(f) && len(f.Blocks) > 0 && f != fn && closes(f) {
					name = "Close"
				}
			} else if mb, ok := c.Common().Value.(*ssa.UnOp); ok {
				_ = mb
				name = "Close" // a stored close function
			}
			if strings.HasPrefix(name, "Close") {
				if _, d := in.(*ssa.Defer); d || true {
					calls = append(calls, b)
				}
			}
		}
	}
	ok := len(calls) > 0
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, r := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !r || b.Comment == "recover" {
			continue
		}
		dom := false
		for _, c := range calls {
			if c.Dominates(b) {
				dom = true
			}
		}
		ok = ok && dom
	}
	return ok
}

func variantHooks(it *Interp, r *Report) []*Hooks {
	p := it.prog
	vf := p.variantFuncs()
	if len(vf) == 0 {
		r.add(Finding{Rule: "variant", Msg: "no configuration specific functions found"})
	}
	h := &Hooks{}
	// every failure inside a variant is reported by it
	h.after = func(st *State, c *CallInfo) {
		e := lastErr(c.res, c.common.Signature())
		if e == nil || st.nilness(e) == 1 {
			return
		}
		if _, ok := tolerated[c.name]; ok || strings.HasSuffix(c.name, ").Close") {
			return
		}
		for fr := st.ctx; fr != nil; fr = fr.parent {
			if vf[fr.fn] {
				st.addMay(&May{kind: "variant", site: instrKey(c.instr) + "|" + fnID(c.instr.Parent()), instr: c.instr, frame: fr, note: c.name, terms: map[*Term]bool{e: true}})
				return
			}
		}
	}
	reported := func(st *State, fn *ssa.Function, fr *Frame, res []*Term) {
		e := lastErr(res, fn.Signature)
		for k, m := range st.may {
			if m.kind != "variant" || fr != nil && m.frame != fr {
				continue
			}
			delete(st.may, k)
			ok := e != nil && (st.nilness(e) == 2 || m.terms[e])
			for t := range m.terms {
				if st.nilness(t) == 1 {
					ok = true
				}
			}
			r.item("variant: reports failures", p.pos(m.instr)+" "+m.note, ok, func() Finding {
				return r.at(m.instr, "%s may succeed although %s failed", shortName(fn.String()), m.note)
			})
		}
	}
	h.ret = func(st *State, root *ssa.Function, res []*Term, in *ssa.Return) {
		if vf[root] {
			reported(st, root, nil, res)
		}
	}
	h.leave = func(st *State, ci *CallInfo, res []*Term) {
		if vf[ci.fn] {
			reported(st, ci.fn, calleeFrame(st, ci), res)
		}
		if !vf[ci.fn] || len(res) == 0 {
			return
		}
		rt := ci.fn.Signature.Results().At(0).Type()
		if !types.IsInterface(rt) || hasMethod(rt, "Close") == nil && types.NewMethodSet(rt).Lookup(nil, "Read") == nil {
			return
		}
		if e := lastErr(res, ci.fn.Signature); e != nil && st.nilness(e) == 2 || res[0].isNil() {
			return
		}
		var src *Term
		for i, prm := range ci.fn.Params {
			if types.IsInterface(prm.Type()) && i < len(ci.args) {
				src = ci.args[i]
			}
		}
		key := shortName(ci.fn.String())
		from := false
		st.provenance(res[0], func(x *Term) bool {
			if x == src {
				from = true
			}
			return !from
		})
		r.item("variant: reads the stream given", key, from || src == nil, func() Finding {
			return r.at(ci.instr, "the reader %s returns does not read the stream it was given", key)
		})
		cl := func(ok bool) {
			r.item("variant: Close releases the decompressor", key, ok, func() Finding {
				return r.at(ci.instr, "closing what %s returns does not close the decompressor", key)
			})
		}
		if res[0].op == "mkiface" {
			t := it.typeByKey[res[0].aux]
			if m := hasMethod(t, "Close"); m != nil {
				if inModule(m.Pkg()) {
					f := p.ssa.FuncValue(m)
					cl(f == nil || len(f.Blocks) == 0 || closes(f))
				} else {
					cl(true)
				}
			}
		}
		provenance(res[0], func(x *Term) bool {
			if x.sym != nil && x.sym.callee == "io.NopCloser" {
				inner := x.sym.args[0]
				bad := false
				if inner.op == "mkiface" {
					bad = hasMethod(it.typeByKey[inner.aux], "Close") != nil
				}
				cl(!bad)
			}
			return true
		})
	}
	// an option that makes one configuration refuse what the others accept
	h.call = func(st *State, c *CallInfo) {
		short := c.name[strings.LastIndex(c.name, ".")+1:]
		if !strings.HasPrefix(short, "With") || !(strings.Contains(short, "Max") || strings.Contains(short, "Limit") && !strings.Contains(short, "DecodeAll")) {
			return
		}
		for fr := st.ctx; fr != nil; fr = fr.parent {
			if !vf[fr.fn] {
				continue
			}
			ok := len(c.args) == 0
			for _, a := range c.args {
				if n, k := a.intVal(); k && n >= 1<<31 {
					ok = true
				}
			}
			r.item("variant: no extra limits", p.pos(c.instr)+" "+c.name, ok, func() Finding {
				return r.at(c.instr, "%s limits what this configuration can decompress", c.name)
			})
			return
		}
	}
	return []*Hooks{h}
}

// provenance also follows what is stored in objects made by the module.
func (st *State) provenance(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var byRoot map[*Term][]*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		provenance(x, func(y *Term) bool {
			if seen[y] {
				return false
			}
			seen[y] = true
			if !f(y) {
				return false
			}
			if isAlloc(y) || y.op == "make" {
				if byRoot == nil {
					byRoot = map[*Term][]*Term{}
					for a, v := range st.mem {
						if r := addrRoot(a); r != nil {
							byRoot[r] = append(byRoot[r], v)
						}
					}
				}
				for _, v := range byRoot[y] {
					walk(v)
				}
			}
			return true
		})
	}
	walk(t)
}
