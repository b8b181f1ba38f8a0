package main

// C05: reading the headers consumes exactly the headers and reports their extent.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C05"] = &Rule{
		what:  "Abstract interpretation of the functions that read a package's headers from a stream, with the stream position as a ghost and every buffer followed to the stream bytes it was filled from: on each successful return the position must be the start plus lead, intros, index tables and data as declared by the big-endian counts at their places in the stream (the first data area rounded up to eight), for every value of the counts; the extents reported by the accessors must equal these positions, each retained raw copy must be exactly the bytes of its header, and the payload is left to be read from the caller's own reader.",
		hooks: extentHooks, focus: readerRoot, calm: true, strict: true,
		assume: []string{"io.ReadFull, io.CopyN, io.TeeReader and encoding/binary.Read consume what they are documented to consume"},
	}
}

// wordAt finds terms holding the 32 bit big-endian number at a stream position.
func (m *streamModel) wordsAt(st *State, pos Lin) (r []*Term) {
	seen := map[*Term]bool{}
	visit := func(t *Term) {
		t.walk(func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			sp, ok := m.wordOf(st, x)
			if ok && st.same(sp.pos, pos) && st.same(sp.n, linConst(4)) {
				r = append(r, x)
			}
		})
	}
	for _, l := range st.lin.m {
		for _, p := range l.ps {
			visit(p.t)
		}
	}
	for t := range st.truth {
		visit(t)
	}
	for _, v := range st.mem {
		if v != nil {
			visit(v)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return
}

// wordOf: where in the stream an integer was read from.
func (m *streamModel) wordOf(st *State, x *Term) (span, bool) {
	switch x.op {
	case "ld":
		if !isIntTerm(x) || x.typ == nil {
			return span{}, false
		}
		n := packedSize(x.typ)
		root := addrRoot(x.args[0])
		off, ok := offsetIn(x.args[0])
		if n <= 0 || !ok {
			return span{}, false
		}
		return m.spanIn(st, root, off, linConst(n), nil)
	case "call":
		if strings.Contains(x.aux, "bigEndian).Uint32") && len(x.args) > 0 {
			sp, ok := m.resolve(st, x.args[0])
			if ok && st.proveLin(linConst(4).sub(sp.n)) {
				sp.n = linConst(4)
			}
			return sp, ok
		}
	}
	return span{}, false
}

// headerOf: the header object a reading function returned.
func (ph *pkgHeader) headerOf(st *State, res *Term, t types.Type) *Term {
	if types.Identical(t, types.NewPointer(ph.t)) {
		return res
	}
	n := derefIf(t)
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), types.NewPointer(ph.t)) {
			return st.load(fieldAddr(res, fieldID(n, i), s.Field(i).Type()), s.Field(i).Type())
		}
	}
	return nil
}

func extentHooks(it *Interp, r *Report) []*Hooks {
	m := &streamModel{it: it}
	ph := findPkgHeader(it.prog)
	h := &Hooks{}
	var pos0, reader *Term
	reads := func(root *ssa.Function) bool {
		s := root.Signature
		return ph != nil && s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 2 && types.IsInterface(s.Params().At(0).Type()) && isErrorType(s.Results().At(1).Type()) &&
			isPointer(s.Results().At(0).Type())
	}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		if reads(root) {
			pos0, reader = m.pos(st), params[0]
		}
	}
	h.ret = func(st *State, root *ssa.Function, res []*Term, in *ssa.Return) {
		if !reads(root) || !isNilErr(st, res[1]) {
			return
		}
		rt := root.Signature.Results().At(0).Type()
		hdr := ph.headerOf(st, res[0], rt)
		if hdr == nil {
			return
		}
		at := func(format string, args ...any) func() Finding {
			return func() Finding { return r.at(in, format, args...) }
		}
		name := root.Name() + " "
		p0, p1 := toLin(pos0), toLin(m.pos(st))
		var p2 Lin
		if v := it.query(st, hdr, "OriginalSignatureHeaderSize"); v != nil {
			p2 = p0.add(toLin(v))
		} else {
			r.item("extent", name+"signature area", false, at("the size of the signature area has no single value"))
			return
		}
		// signature area
		ok := false
		for _, e := range m.wordsAt(st, p0.plus(96+8)) {
			for _, s := range m.wordsAt(st, p0.plus(96+12)) {
				if isAlignedTo(st, p2.sub(p0).plus(-96-16).sub(toLin(e).scale(16)), toLin(s), 8) {
					ok = true
				}
			}
		}
		r.item("extent", name+"signature area", ok, at("the size reported for the signature area, %s, is not the lead, intro, declared entries and declared data rounded up to eight", st.settle(p2.sub(p0))))
		ok = false
		for _, e := range m.wordsAt(st, p2.plus(8)) {
			for _, s := range m.wordsAt(st, p2.plus(12)) {
				if st.same(p1, p2.plus(16).add(toLin(e).scale(16)).add(toLin(s))) {
					ok = true
				}
			}
		}
		r.item("extent", name+"stream position", ok, at("after reading, the stream is at %s from the end of the signature area, which is not the end of the declared general header", st.settle(p1.sub(p2))))
		// reported range
		rg := it.query(st, hdr, "GetRange")
		okS, okE := false, false
		if rg != nil && rg.op == "struct" && len(rg.args) == 2 {
			okS, okE = st.same(toLin(rg.args[0]), p2.sub(p0)), st.same(toLin(rg.args[1]), p1.sub(p0))
		}
		r.item("range", name+"start", okS, at("the reported range %v does not start where the signature area ends", rg))
		r.item("range", name+"end", okE, at("the reported range %v does not end where the stream is", rg))
		// raw copies
		var spans []span
		seen := map[*Term]bool{}
		var reach func(p *Term, t types.Type, depth int)
		reach = func(p *Term, t types.Type, depth int) {
			s, ok := t.Underlying().(*types.Struct)
			if !ok || depth > 3 || seen[p] {
				return
			}
			seen[p] = true
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				a := fieldAddr(p, fieldID(t, i), ft)
				switch u := ft.Underlying().(type) {
				case *types.Slice:
					if isByteSlice(ft) {
						if sp, ok := m.resolve(st, st.load(a, ft)); ok {
							spans = append(spans, sp)
						}
					}
				case *types.Pointer:
					if v := st.load(a, ft); v != nil && !v.isNil() {
						reach(v, u.Elem(), depth+1)
					}
				case *types.Struct:
					reach(a, ft, depth+1)
				}
			}
		}
		reach(hdr, ph.t, 0)
		for _, w := range []struct {
			what string
			a, b Lin
		}{{"lead", p0, p0.plus(96)}, {"signature header", p0.plus(96), p2}, {"general header", p2, p1}} {
			ok := false
			for _, sp := range spans {
				if st.same(sp.pos, w.a) && st.same(sp.pos.add(sp.n), w.b) {
					ok = true
				}
			}
			r.item("raw copy", name+w.what, ok, at("no retained bytes are exactly the %s as consumed from the stream", w.what))
		}
		// the payload
		if hdr != res[0] {
			n := derefIf(rt)
			s := n.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				if types.IsInterface(ft) && hasReadMethod(ft) {
					v := st.load(fieldAddr(res[0], fieldID(n, i), ft), ft)
					r.item("payload", name+s.Field(i).Name(), v == reader, at("the payload is to be read from %s, not from the caller's reader", v))
				}
			}
		}
	}
	// rounding by cases
	h.implied = func(st *State, f *Term) bool {
		return f.op == "F:align8" && isAlignedTo(st, toLin(f.args[0]), toLin(f.args[1]), 8)
	}
	h.templates = func(states []*State, j *Term, ts []*Term) (fs []*Term) {
		if !isIntTerm(j) {
			return nil
		}
		for i, t := range ts {
			if t != bottomTerm && isIntTerm(t) && (i == 0 || t != ts[i-1]) {
				fs = append(fs, fact("align8", "", j, t))
			}
		}
		return
	}
	r.finish = func() {
		r.floor("extent", 4)
		r.floor("range", 4)
		r.floor("raw copy", 6)
		r.floor("payload", 1)
	}
	return []*Hooks{m.hooks(), h}
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
