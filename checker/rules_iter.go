package main

// C28: payload iteration pairs each archive entry with its own metadata.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C28"] = &Rule{
		what:  "Abstract evaluation of payload iteration over a list of three files with unrelated names, two of them linked: for an entry with an arbitrary header index, Next must return the file with that index and fail for every other index; for an entry with an arbitrary name, with and without a leading ./, it must return the file whose path is that name without the ./ and fail for names of no file; after any two steps the link indication must be that of the entry returned last. An error of the archive reader must be returned.",
		hooks: iterHooks, focus: readerRoot, calm: true, strict: true,
		assume: []string{"the archive reader reports entries as C09 to C11 require", "files have different paths"},
	}
}

type iterator struct {
	it *Interp
	r  *Report
	f  *fileRule
}

func iterHooks(it *Interp, r *Report) []*Hooks {
	f := &fileRule{it: it, r: r, h: findPkgHeader(it.prog)}
	f.q = &queries{it: it, r: r, h: f.h}
	if f.h != nil {
		if o := f.h.t.(*types.Named).Obj().Pkg().Scope().Lookup("FileInfo"); o != nil {
			f.it0 = o.Type()
			f.iface, _ = o.Type().Underlying().(*types.Interface)
		}
	}
	x := &iterator{it, r, f}
	done := false
	h := &Hooks{}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		if done || f.h == nil || f.iface == nil {
			return
		}
		done = true
		for _, fn := range f.sizers() {
			x.run(st.clone(), fn)
		}
	}
	r.finish = func() {
		r.floor("by index", 5)
		r.floor("by name", 10)
		r.floor("no such entry", 3)
		r.floor("link", 9)
		r.floor("error", 1)
	}
	return []*Hooks{h}
}

// an entry of the archive as a scenario sees it.
type anEntry struct {
	label    string
	stripped bool
	index    *Term
	name     *Term
	pins     []pin
	facts    func(st *State)
	want     int // the file, or -1
}

func (x *iterator) run(st0 *State, fn *ssa.Function) {
	f := x.f
	impl := f.impl()
	if impl == nil {
		return
	}
	// the reader
	st := st0.clone()
	args := make([]*Term, len(fn.Params))
	names := []string{"/F0", "/.f/1 ~", "f/2"}
	slice := app("make", "", types.NewSlice(f.it0), mkSym("alloc", "files", types.NewSlice(f.it0), st.ctx, nil), mkInt(int64(len(names))))
	linked, other := mkInt(9), mkInt(7)
	var objs []*Term
	for j, nm := range names {
		o := mkSym("param", fmt.Sprint("file", j), types.NewPointer(impl), st.ctx, nil)
		st.assume(mkEq(o, nilTerm), false)
		objs = append(objs, o)
		f.setField(st, o, impl, "Name", mkStr(nm))
		f.setField(st, o, impl, "Mode", mkInt(0100644))
		f.setField(st, o, impl, "Device", mkInt(1))
		ino := linked
		if j == 2 {
			ino = other
		}
		f.setField(st, o, impl, "Inode", ino)
		st.mem[app("elemaddr", "", f.it0, slice, mkInt(int64(j)))] = app("mkiface", typeKey(types.NewPointer(impl)), f.it0, o)
		f.it.typeByKey[typeKey(types.NewPointer(impl))] = types.NewPointer(impl)
	}
	for k, p := range fn.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), f.it0) {
			args[k] = slice
			continue
		}
		args[k] = mkSym("param", p.Name(), p.Type(), st.ctx, nil)
		if nilable(p.Type()) {
			st.assume(mkEq(args[k], nilTerm), false)
		}
	}
	for _, e := range x.it.evalWith(nil, st, fn, args) {
		if len(e.res) == 0 || len(e.res) > 1 && e.st.nilness(e.res[len(e.res)-1]) == 2 {
			continue
		}
		pr := e.res[0]
		if pr.op == "mkiface" {
			pr = pr.args[0]
		}
		next, link := x.it.method(ptrType(pr), "Next"), x.it.method(ptrType(pr), "IsLink")
		if next == nil || link == nil {
			continue
		}
		x.steps(e.st, pr, next, link, objs, names)
	}
}

// step evaluates one step of the iteration.
func (x *iterator) step(st *State, pr *Term, next *ssa.Function, en *anEntry) []*Exit {
	st = st.clone()
	h := &Hooks{}
	h.stub = func(st *State, c *CallInfo) []*Term {
		if c.fn == nil || c.fn.Signature.Recv() == nil || c.instr.Parent().Pkg == c.fn.Pkg || c.fn.Pkg == nil || c.fn.Pkg == next.Pkg {
			return nil
		}
		res := c.fn.Signature.Results()
		switch {
		case c.fn.Name() == "Next" && res.Len() == 2:
			if en == nil {
				e := mkSym("param", "archive error", res.At(1).Type(), nil, nil)
				st.assume(mkEq(e, nilTerm), false)
				return []*Term{nilTerm, e}
			}
			hdr := mkSym("param", "entry header", res.At(0).Type(), nil, nil)
			st.assume(mkEq(hdr, nilTerm), false)
			return []*Term{hdr, nilTerm}
		case en == nil:
		case c.fn.Name() == "IsStripped" && res.Len() == 1:
			return []*Term{mkBool(en.stripped)}
		case c.fn.Name() == "Index" && res.Len() == 1:
			return []*Term{en.index}
		case c.fn.Name() == "Filename" && res.Len() == 1:
			return []*Term{en.name}
		}
		return nil
	}
	if en != nil {
		if en.facts != nil {
			en.facts(st)
		}
		x.it.pins = en.pins
	}
	ex := x.it.evalWith([]*Hooks{h}, st, next, []*Term{pr})
	x.it.pins = nil
	return ex
}

func (x *iterator) steps(st *State, pr *Term, next, link *ssa.Function, objs []*Term, names []string) {
	n := len(objs)
	bt := types.Typ[types.Uint8]
	str := types.Typ[types.String]
	idx := mkSym("param", "entry index", types.Typ[types.Int], nil, nil)
	nm := mkSym("param", "entry name", str, nil, nil)
	var list []*anEntry
	for j := range objs {
		list = append(list, &anEntry{label: fmt.Sprintf("with index %d", j), stripped: true, index: mkInt(int64(j)), name: mkStr(""), want: j})
	}
	list = append(list,
		&anEntry{label: "with an index above all files", stripped: true, index: idx, name: mkStr(""), want: -1, facts: func(st *State) { st.lin.add(linConst(int64(n)).sub(linTerm(idx))) }},
		&anEntry{label: "with a negative index", stripped: true, index: idx, name: mkStr(""), want: -1, facts: func(st *State) { st.lin.add(linTerm(idx).plus(1)) }})
	all := func() (ts []*Term) {
		for _, s := range names {
			ts = append(ts, mkStr(s))
		}
		return
	}()
	pure := func(callee string, args ...*Term) *Term { return app("call", callee+"#0", str, args...) }
	// what is known about a name, and the ways to write it without its ./
	prefix := func(p byte, q byte) (ps []pin) {
		is := func(t *Term, v bool) { ps = append(ps, pin{val: t, is: mkBool(v)}) }
		for i, b := range []byte{p, q} {
			at := app("elemval", "", bt, nm, mkInt(int64(i)))
			if b != 0 {
				ps = append(ps, pin{val: at, is: mkInt(int64(b))})
			} else {
				ps = append(ps, pin{val: at, not: []*Term{mkInt('.'), mkInt('/')}})
			}
		}
		is(app("hasprefix", "", types.Typ[types.Bool], nm, mkStr("./")), p == '.' && q == '/')
		is(app("hasprefix", "", types.Typ[types.Bool], nm, mkStr("/")), p == '/')
		is(app("hasprefix", "", types.Typ[types.Bool], nm, mkStr(".")), p == '.')
		is(app("call", "strings.CutPrefix#1", types.Typ[types.Bool], nm, mkStr("./")), p == '.' && q == '/')
		is(app("call", "strings.CutPrefix#1", types.Typ[types.Bool], nm, mkStr(".")), p == '.')
		return
	}
	plain := func(p, q byte, v pin) []pin {
		ps := append(prefix(p, q), v)
		v.val = pure("strings.TrimPrefix", nm, mkStr("./"))
		if p == '.' && q != '/' || p != '.' {
			ps = append(ps, v)
		}
		return ps
	}
	cut := func(v pin) []pin {
		ps := append(prefix('.', '/'), pin{val: nm, not: all})
		for _, t := range []*Term{
			app("slice", "", str, nm, mkInt(1), app("none", "", nil)),
			app("slice", "", str, nm, mkInt(1), mkLen(nm)),
			pure("strings.TrimPrefix", nm, mkStr(".")),
			app("concat", "", str, mkStr("/"), app("slice", "", str, nm, mkInt(2), app("none", "", nil))),
			app("concat", "", str, mkStr("/"), app("slice", "", str, nm, mkInt(2), mkLen(nm))),
			app("concat", "", str, mkStr("/"), pure("strings.TrimPrefix", nm, mkStr("./"))),
			app("concat", "", str, mkStr("/"), pure("strings.CutPrefix", nm, mkStr("./"))),
			pure("strings.CutPrefix", nm, mkStr(".")),
		} {
			v.val = t
			ps = append(ps, v)
		}
		return ps
	}
	long := func(k int64) func(st *State) {
		return func(st *State) { st.lin.add(linConst(k).sub(toLin(mkLen(nm)))) }
	}
	exact := func(k int64) func(st *State) {
		return func(st *State) {
			long(k)(st)
			st.lin.add(toLin(mkLen(nm)).plus(-k))
		}
	}
	name := func(label string, want int, pins []pin, facts func(*State)) {
		list = append(list, &anEntry{label: label, name: nm, index: idx, pins: pins, facts: facts, want: want})
	}
	for j, s := range names {
		is := pin{val: nm, is: mkStr(s)}
		name(fmt.Sprintf("named like file %d", j), j, plain('/', 0, is), long(2))
		name(fmt.Sprintf("named like file %d (relative)", j), j, plain(0, '/', is), long(2))
		name(fmt.Sprintf("named like file %d (hidden)", j), j, plain('.', 0, is), long(2))
		if s[0] == '/' {
			name(fmt.Sprintf("named like file %d with a leading ./", j), j, cut(pin{is: mkStr(s)}), long(2))
		}
	}
	not := pin{val: nm, not: all}
	name("with another name", -1, plain('/', 0, not), long(2))
	name("with another relative name", -1, plain(0, '/', not), long(2))
	name("with another hidden name", -1, plain('.', 0, not), long(2))
	name("with another name after ./", -1, cut(pin{not: all}), long(2))
	name("with one character as name", -1, append(prefix('.', 0), not), exact(1))
	name("without name", -1, []pin{{val: nm, is: mkStr("")}}, exact(0))
	at := func(e *Exit) (file int, failed, ok bool) {
		if len(e.res) != 2 {
			return 0, false, false
		}
		switch e.st.nilness(e.res[1]) {
		case 2:
			return -1, true, true
		case 0:
			return 0, false, false
		}
		for j, o := range objs {
			r := unface(e.res[0])
			if r == o {
				return j, false, true
			}
			if q := x.it.query(e.st, r, "Name"); q != nil && isAlloc(r) {
				if c := e.st.constOf(q); c != nil && c == mkStr(names[j]) {
					return j, false, true
				}
			}
		}
		return 0, false, false
	}
	describe := func(e *Exit) string {
		j, failed, ok := at(e)
		switch {
		case !ok:
			return fmt.Sprintf("what is returned is unclear: %v", e.res)
		case failed:
			return "it fails"
		}
		return fmt.Sprintf("file %d is returned", j)
	}
	finding := func(fn *ssa.Function, format string, args ...any) func() Finding {
		return func() Finding {
			y := x.r.at(nil, format, args...)
			y.Fn, y.Pos = shortName(fn.String()), x.it.prog.fset.Position(fn.Pos()).String()
			return y
		}
	}
	pos := make([][]*Exit, n)
	for _, en := range list {
		rule := "by name"
		if en.stripped {
			rule = "by index"
		}
		ex := x.step(st, pr, next, en)
		if len(ex) == 0 {
			x.r.item(rule, en.label, false, finding(next, "an entry %s never gets a result", en.label))
		}
		for _, e := range ex {
			j, _, ok := at(e)
			x.r.item(rule, en.label, ok && j == en.want, finding(next, "for an entry %s %s (expected: %d)", en.label, describe(e), en.want))
			if en.want < 0 {
				x.r.item("no such entry", en.label, ok && j == en.want, finding(next, "for an entry %s %s", en.label, describe(e)))
			}
		}
		if en.stripped && en.want >= 0 {
			pos[en.want] = ex
		}
	}
	// the archive reader's errors
	for _, e := range x.step(st, pr, next, nil) {
		_, failed, ok := at(e)
		ok = ok && failed && unface(e.res[1]).sym != nil
		x.r.item("error", "archive", ok, finding(next, "an error of the archive reader is lost"))
	}
	// the link indication
	isLink := func(e *Exit) (v, known bool) {
		known = true
		for i, l := range x.it.evalFn(e.st, link, []*Term{pr}) {
			b, ok := l.st.decide(l.res[0])
			if !ok || i > 0 && b != v {
				return false, false
			}
			v = b
		}
		return
	}
	for a := 0; a < n; a++ {
		for _, e1 := range pos[a] {
			if j, _, ok := at(e1); !ok || j != a {
				continue
			}
			for b := 0; b < n; b++ {
				en := &anEntry{stripped: true, index: mkInt(int64(b)), name: mkStr("")}
				for _, e2 := range x.step(e1.st, pr, next, en) {
					if j, _, ok := at(e2); !ok || j != b {
						continue
					}
					v, known := isLink(e2)
					want := b == 0
					x.r.item("link", strings.Join([]string{names[a], names[b]}, " "), known && v == want,
						finding(link, "after entries %d and %d the link indication is not that of file %d (known %v: %v)", a, b, b, known, v))
				}
			}
		}
	}
}
