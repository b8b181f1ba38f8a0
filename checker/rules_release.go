package main

// C14: files and decompressors are released on every path.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C14"] = &Rule{
		what:  "Abstract interpretation of every entry point with a may-analysis of held resources: each opened file, created temporary and started decompressor is held until a path closes it (removes or renames it), or is known never to have come into being. At every return of an entry point nothing may be held, except a decompressor that a successful call hands over in a field of its result, and then every return of that result's Next with an error must have closed what the field holds.",
		hooks: releaseHooks, strict: true,
		assume: []string{"closing releases, whether it reports an error or not", "a constructor that reports an error holds nothing"},
	}
}

var opensFile = map[string]bool{"os.Open": true, "os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "io/ioutil.TempFile": true}
var createsTemp = map[string]bool{"os.CreateTemp": true, "io/ioutil.TempFile": true}

func typeHasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// startsDecompressor: a constructor of another package that wraps a reader into something to be closed.
func startsDecompressor(c *CallInfo) bool {
	if len(c.res) == 0 || c.common.IsInvoke() {
		return false
	}
	i := strings.LastIndex(c.name, ".")
	if i < 0 || strings.HasPrefix(c.name, "io.") || strings.HasPrefix(c.name, "os.") || strings.HasPrefix(c.name, "(") {
		return false
	}
	rt := c.common.Signature().Results().At(0).Type()
	if !typeHasMethod(rt, "Close") || !typeHasMethod(rt, "Read") {
		return false
	}
	ps := c.common.Signature().Params()
	for k := 0; k < ps.Len(); k++ {
		if types.IsInterface(ps.At(k).Type()) && hasReadMethod(ps.At(k).Type()) {
			return true
		}
	}
	return false
}

type releaser struct {
	it     *Interp
	r      *Report
	handed map[string]func() Finding // fields decompressors were handed over in
	closes map[string]map[string]bool
	params []*Term
}

const heldFile, heldTemp, heldDec = "open file", "temporary file", "decompressor"

// dead: the resource never came into being.
func dead(st *State, m *May) bool {
	for t := range m.terms {
		if st.nilness(t) == 1 {
			return true
		}
		if t.sym != nil && t.sym.kind == "call" && len(t.sym.sibs) > 1 {
			if e := t.sym.sibs[len(t.sym.sibs)-1]; isErrorType(typOf(e)) && st.nilness(e) == 2 {
				return true
			}
		}
	}
	return false
}

func held(k string) bool { return k == heldFile || k == heldTemp || k == heldDec }

func drop(st *State, f func(m *May) bool) {
	for k, m := range st.may {
		if held(m.kind) && f(m) {
			delete(st.may, k)
		}
	}
}

// fileNamed: the file a path is the name of.
func fileNamed(p *Term) *Term {
	if p.op == "call" && p.aux == "(*os.File).Name#0" {
		return p.args[0]
	}
	if p.sym != nil && p.sym.kind == "call" && p.sym.callee == "(*os.File).Name" {
		return p.sym.args[0]
	}
	return nil
}

func (x *releaser) after(st *State, c *CallInfo) {
	hold := func(kind string) {
		x.r.item(kind, x.it.prog.pos(c.instr)+" "+c.name, true, nil)
		st.addMay(&May{kind: kind, site: instrKey(c.instr) + "|" + fnID(c.instr.Parent()), instr: c.instr, frame: st.ctx, note: c.name, terms: map[*Term]bool{c.res[0]: true}})
		if rt := typOf(c.res[0]); !types.IsInterface(rt) {
			m := st.may[(&May{kind: kind, site: instrKey(c.instr) + "|" + fnID(c.instr.Parent()), terms: map[*Term]bool{c.res[0]: true}}).key()]
			delete(st.may, m.key())
			m.terms[x.it.mkIface(c.res[0], rt, nil)] = true
			st.addMay(m)
		}
	}
	switch {
	case opensFile[c.name]:
		hold(heldFile)
		if createsTemp[c.name] {
			hold(heldTemp)
		}
	case startsDecompressor(c):
		hold(heldDec)
	case c.name == "os.Remove" || c.name == "os.RemoveAll":
		if f := fileNamed(c.args[0]); f != nil {
			drop(st, func(m *May) bool { return m.kind == heldTemp && m.terms[f] })
		}
	case c.name == "os.Rename":
		if f := fileNamed(c.args[0]); f != nil {
			st.truth[fact("gone", "", f, c.res[0])] = true
		}
	case strings.HasSuffix(c.name, ").Close") || strings.HasSuffix(c.name, ".Close"):
		v := unface(c.args[0])
		drop(st, func(m *May) bool { return m.kind != heldTemp && (m.terms[v] || m.terms[c.args[0]]) })
		st.truth[fact("closed", "", c.args[0])] = true
	}
}

func (x *releaser) gone(st *State, f, e *Term) bool {
	if st.nilness(e) == 2 || st.hasFact(fact("gone", "", f, e)) {
		return true
	}
	for _, m := range st.may {
		if m.kind == heldTemp && m.terms[f] && !dead(st, m) {
			return false
		}
	}
	return true
}

// exists: what is held only exists when the error is nil.
func (x *releaser) exists(st *State, v, e *Term) bool {
	if st.nilness(e) == 1 || st.hasFact(fact("exists", "", v, e)) {
		return true
	}
	for _, m := range st.may {
		if held(m.kind) && m.terms[v] && !dead(st, m) {
			for t := range m.terms {
				if t.sym != nil && t.sym.kind == "call" && len(t.sym.sibs) > 1 && t.sym.sibs[len(t.sym.sibs)-1] == e {
					return true
				}
			}
			return false
		}
	}
	return true
}

// closed: the value was closed, or cannot be.
func (x *releaser) closed(st *State, v *Term) bool {
	if st.hasFact(fact("closed", "", v)) || st.nilness(v) == 1 {
		return true
	}
	for k := range x.it.ifaceKeys {
		if t := x.it.typeByKey[k]; t != nil && types.NewMethodSet(t).Len() == 1 && typeHasMethod(t, "Close") {
			if is, ok := st.decide(app("typeis", k, types.Typ[types.Bool], v)); ok && !is {
				return true
			}
		}
	}
	return false
}

func releaseHooks(it *Interp, r *Report) []*Hooks {
	x := &releaser{it: it, r: r, handed: map[string]func() Finding{}, closes: map[string]map[string]bool{}}
	h := &Hooks{after: x.after, ret: x.ret}
	h.start = func(st *State, root *ssa.Function, params []*Term) { x.params = params }
	h.assume = func(st *State, t *Term, val bool) {
		if t.op == "typeis" && !val {
			// it would be, if it were this one
			if i, ok := it.typeByKey[t.aux].Underlying().(*types.Interface); ok {
				drop(st, func(m *May) bool {
					for y := range m.terms {
						if m.terms[t.args[0]] && (staticallyImplements(y, i, map[*Term]bool{}) || y.op != "mkiface" && y.typ != nil && types.Implements(y.typ, i)) {
							return true
						}
					}
					return false
				})
			}
		}
		if t.op != "eq" {
			return
		}
		drop(st, func(m *May) bool { return dead(st, m) })
		for i := 0; i < 2; i++ {
			if t.args[1-i].isNil() && !val {
				for _, f := range st.factsNamed("exists") {
					if f.args[1] == t.args[i] {
						drop(st, func(m *May) bool { return m.terms[f.args[0]] })
					}
				}
			}
			if t.args[1-i].isNil() && val {
				for _, f := range st.factsNamed("gone") {
					if f.args[1] == t.args[i] {
						drop(st, func(m *May) bool { return m.kind == heldTemp && m.terms[f.args[0]] })
					}
				}
			}
		}
	}
	h.prune = func(st *State) { drop(st, func(m *May) bool { return dead(st, m) }) }
	h.implied = func(st *State, f *Term) bool {
		switch f.op {
		case "F:gone":
			return x.gone(st, f.args[0], f.args[1])
		case "F:exists":
			return x.exists(st, f.args[0], f.args[1])
		case "F:closed":
			return x.closed(st, f.args[0])
		}
		return false
	}
	h.templates = func(states []*State, j *Term, ts []*Term) (out []*Term) {
		if !isErrorType(j.typ) {
			return nil
		}
		seen := map[*Term]bool{}
		for _, st := range states {
			for _, m := range st.maysSorted() {
				if !held(m.kind) {
					continue
				}
				for t := range m.terms {
					if !seen[t] {
						seen[t] = true
						out = append(out, fact("exists", "", t, j))
						if m.kind == heldTemp {
							out = append(out, fact("gone", "", t, j))
						}
					}
				}
			}
		}
		return
	}
	h.joined = func(states []*State) (out []*Term) {
		seen := map[*Term]bool{}
		for _, st := range states {
			for _, f := range st.factsNamed("closed") {
				if !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
		return
	}
	r.finish = func() {
		for k, f := range x.handed {
			c := x.closes[k]
			ok := len(c) > 0
			for _, v := range c {
				ok = ok && v
			}
			r.item("iteration", k, ok, f)
		}
		r.floor(heldFile, 4)
		r.floor(heldDec, 1)
		r.floor("iteration", 1)
	}
	return []*Hooks{h}
}

func (x *releaser) ret(st *State, root *ssa.Function, res []*Term, in *ssa.Return) {
	e := lastErr(res, root.Signature)
	for _, m := range st.maysSorted() {
		if !held(m.kind) || dead(st, m) {
			continue
		}
		m := m
		if m.kind == heldDec && e != nil && st.nilness(e) == 1 {
			if k := x.handover(st, root, res, m); k != "" {
				if x.handed[k] == nil {
					x.handed[k] = func() Finding {
						f := x.r.at(in, "the decompressor is handed over in %s, which is not closed whenever its iteration ends or fails", k)
						f.Fn = shortName(root.String())
						return f
					}
				}
				continue
			}
		}
		x.r.item(m.kind, x.it.prog.pos(m.instr)+" "+m.note, false, func() Finding {
			what := "is not closed"
			if m.kind == heldTemp {
				what = "is neither removed nor renamed"
			}
			f := x.r.at(m.instr, "the %s of %s %s when %s returns", m.kind, m.note, what, shortName(root.String()))
			return f
		})
	}
	x.next(st, root, e)
}

// handover: the field of the result that holds the decompressor, or the result.
func (x *releaser) handover(st *State, root *ssa.Function, res []*Term, m *May) string {
	for _, v := range res {
		v = unface(v)
		t := typOf(v)
		n := t
		if !isAlloc(v) {
			if !isPointer(t) {
				continue
			}
			n = derefType(t)
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !types.IsInterface(f.Type()) {
				continue
			}
			in := false
			provenance(st.load(fieldAddr(v, fieldID(n, i), f.Type()), f.Type()), func(y *Term) bool {
				if y.op == "mkiface" {
					if t := x.it.typeByKey[y.aux]; t == nil || !typeHasMethod(t, "Close") {
						return false
					}
				}
				in = in || m.terms[y]
				return true
			})
			if in {
				return fieldID(n, i)
			}
		}
		// somewhere inside
		return typeKey(n)
	}
	return ""
}

// next: what an iteration that ended or failed has closed.
func (x *releaser) next(st *State, root *ssa.Function, e *Term) {
	if root.Signature.Recv() == nil || root.Name() != "Next" || e == nil || st.nilness(e) == 1 {
		return
	}
	t := root.Signature.Recv().Type()
	if !isPointer(t) {
		return
	}
	n := derefType(t)
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	p := x.params[0]
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !types.IsInterface(f.Type()) || !hasReadMethod(f.Type()) {
			continue
		}
		k := fieldID(n, i)
		if x.closes[k] == nil {
			x.closes[k] = map[string]bool{}
		}
		v := st.load(fieldAddr(p, k, f.Type()), f.Type())
		key := fmt.Sprint(root)
		was, seen := x.closes[k][key]
		x.closes[k][key] = x.closed(st, v) && (was || !seen)
	}
}
