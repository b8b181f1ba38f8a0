package main

// C09, C10, C11: the cpio archive reader, stated over stream positions.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func cpioRoot(r string) bool {
	return strings.Contains(r, "rpmutils/cpio.") || strings.Contains(strings.ToLower(r), "payload")
}

func init() {
	rules["C09"] = &Rule{
		what:  "Abstract interpretation of every function that returns an archive entry header, with the stream position as a ghost: at each successful return every exported accessor of the header is evaluated and must be the unsigned base-16 decoding of the eight stream bytes at that field's offset from the magic (newc field order), or the name bytes, or for stripped entries the index field and the size table entry at that index; the six magic bytes must have been compared with one of the two known values.",
		hooks: headerHooks, focus: cpioRoot, calm: true, strict: true,
		assume: []string{"readers supplied by the caller do not call back into the archive reader", "strconv.ParseUint and io.ReadFull behave as documented"},
	}
}

var newcFields = []string{"Ino", "Mode", "Uid", "Gid", "Nlink", "Mtime", "Filesize", "Devmajor", "Devminor", "Rdevmajor", "Rdevminor", "Namesize", "Check"}

// entryHeader gives the header object of a returned entry.
func (it *Interp) entryHeader(st *State, res *Term) *Term {
	p, ok := ptrType(res).Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	if it.method(p, "Filesize64") != nil && it.method(p, "Namesize") != nil {
		return res
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Exported() && it.method(f.Type(), "Filesize64") != nil && it.method(f.Type(), "Namesize") != nil {
			return st.load(fieldAddr(res, fieldID(p.Elem(), i), f.Type()), f.Type())
		}
	}
	return nil
}

// method finds an exported method declared in the module.
func (it *Interp) method(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	ms := it.prog.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if f := it.prog.ssa.MethodValue(ms.At(i)); f != nil && inlinable(f) {
				return f
			}
		}
	}
	return nil
}

// ptrType: the type of a pointer value (an allocation is named by the type of the object).
func ptrType(t *Term) types.Type {
	if isAlloc(t) && t.typ != nil {
		return types.NewPointer(t.typ)
	}
	return typOf(t)
}

// query evaluates an accessor without parameters; all results must agree.
func (it *Interp) query(st *State, recv *Term, name string) *Term {
	f := it.method(ptrType(recv), name)
	if f == nil {
		return nil
	}
	var v *Term
	for _, e := range it.evalFn(st, f, []*Term{recv}) {
		if len(e.res) == 0 || v != nil && v != e.res[0] {
			return nil
		}
		v = e.res[0]
	}
	return v
}

// magicAt: the stream position of the bytes that were found equal to a magic number.
func (m *streamModel) magicAt(st *State) (pos Lin, magic string, why string) {
	why = "no comparison of six header bytes with a known magic holds on this path"
	found := false
	try := func(x, c *Term) {
		s, ok := constBytes(c)
		if !ok || s != "070701" && s != "07070X" {
			return
		}
		sp, ok := m.resolve(st, x)
		if !ok {
			return
		}
		if !st.same(sp.n, linConst(6)) {
			why = "the magic is compared with " + sp.n.String() + " bytes"
			return
		}
		pos, magic, found = sp.pos, s, true
	}
	var ts []*Term
	for t, v := range st.truth {
		if v && (t.op == "eq" || t.op == "call" && strings.HasPrefix(t.aux, "bytes.Equal#")) {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		try(t.args[0], t.args[1])
		try(t.args[1], t.args[0])
	}
	if !found {
		return pos, "", why
	}
	return pos, magic, ""
}

// constBytes: the value of a constant string or byte slice.
func constBytes(t *Term) (string, bool) {
	for t.op == "bytestr" || t.op == "bytesof" {
		t = t.args[0]
	}
	return t.strVal()
}

func isNilErr(st *State, e *Term) bool { return e != nil && st.nilness(e) == 1 }

func headerHooks(it *Interp, r *Report) []*Hooks {
	m := &streamModel{it: it}
	sizesField := map[string]bool{}
	// the field that keeps the supplied size table
	noteSizes := func(st *State, fn *ssa.Function, params []*Term) {
		for i, p := range params {
			sl, ok := p.typ.Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Int64 {
				continue
			}
			_ = i
			for a, v := range st.mem {
				if a.op == "fld" && v != nil && v.contains(p) {
					sizesField[a.aux] = true
				}
			}
		}
	}
	h := &Hooks{}
	var later []func()
	var ps []*Term
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		ps = params
		m.setPos(st, mkSym("ghost", "$pos0", int64T, nil, nil))
	}
	h.ret = func(st *State, root *ssa.Function, res []*Term, in *ssa.Return) {
		noteSizes(st, root, ps)
		e := lastErr(res, root.Signature)
		if e == nil || len(res) < 2 || st.nilness(e) == 2 {
			return
		}
		hdr := it.entryHeader(st, res[0])
		if hdr == nil || st.nilness(hdr) == 1 {
			return
		}
		// the payload reader's entries carry no header
		name := shortName(root.String())
		bad := func(key, format string, args ...any) {
			r.item("header", name+" "+key, false, func() Finding { return r.at(in, "%s", fmt.Sprintf(format, args...)) })
		}
		good := func(key string) { r.item("header", name+" "+key, true, nil) }
		h0, magic, why := m.magicAt(st)
		if why != "" {
			bad("magic", "an entry is returned although %s", why)
			return
		}
		good("magic")
		if v := it.query(st, hdr, "Magic"); v == nil {
			bad("Magic", "Magic of the returned header is not known")
		} else if s, ok := v.strVal(); ok && s == magic {
			good("Magic")
		} else if sp, ok := m.resolve(st, v); ok && st.same(sp.pos, h0) && st.same(sp.n, linConst(6)) {
			good("Magic")
		} else {
			bad("Magic", "Magic of the returned header is %s, the archive has %q", v, magic)
		}
		num := func(name string, off int64) *Term {
			v := it.query(st, hdr, name)
			if v == nil {
				bad(name, "%s of the returned header has no single value", name)
				return nil
			}
			if why := m.hexField(st, v, h0.plus(off)); why != "" {
				bad(name, "%s of the returned header %s", name, why)
			} else {
				good(name)
			}
			return v
		}
		strip := it.query(st, hdr, "IsStripped")
		want := magic == "07070X"
		if strip == nil {
			bad("IsStripped", "IsStripped is not known")
		} else if b, ok := strip.boolVal(); ok && b == want {
			good("IsStripped")
		} else if b, ok := st.decide(strip); ok && b == want {
			good("IsStripped")
		} else {
			bad("IsStripped", "IsStripped does not tell whether the magic is the stripped one")
		}
		if want {
			idx := num("Index", 6)
			for _, f := range newcFields {
				v := it.query(st, hdr, f)
				if v == nil {
					bad(f, "%s of a stripped entry is not known", f)
				} else if n, ok := v.intVal(); !ok || n != 0 {
					bad(f+" stripped", "%s of a stripped entry, whose header has no such field, is %s", f, v)
				}
			}
			sz := it.query(st, hdr, "Filesize64")
			later = append(later, func() {
				if sz == nil || sz.op != "ld" || sz.args[0].op != "elemaddr" {
					bad("size", "the size of a stripped entry is not an element of the size table")
					return
				}
				if sz.args[0].args[1] != idx {
					bad("size", "the size of a stripped entry is element %s of the size table, its index is %s", sz.args[0].args[1], idx)
					return
				}
				ok := false
				provenance(sz.args[0].args[0], func(x *Term) bool {
					x.walk(func(y *Term) {
						if y.op == "fld" && sizesField[y.aux] {
							ok = true
						}
					})
					return true
				})
				if ok {
					good("size")
				} else {
					bad("size", "the size of a stripped entry is not taken from the supplied size table")
				}
			})
			return
		}
		var size *Term
		var namesize *Term
		for i, f := range newcFields {
			v := num(f, 6+8*int64(i))
			if f == "Filesize" {
				size = v
			}
			if f == "Namesize" {
				namesize = v
			}
		}
		if v := it.query(st, hdr, "Filesize64"); v != nil && size != nil && st.same(toLin(v), toLin(size)) {
			good("Filesize64")
		} else {
			bad("Filesize64", "Filesize64 of an ordinary entry is %s, not its size field", v)
		}
		v := it.query(st, hdr, "Filename")
		if v == nil || namesize == nil {
			bad("Filename", "Filename is not known")
		} else if sp, ok := m.resolve(st, v); !ok {
			bad("Filename", "Filename is %s, not bytes read from the archive", v)
		} else if !st.same(sp.pos, h0.plus(110)) || !st.same(sp.n, toLin(namesize).plus(-1)) {
			bad("Filename", "Filename is not the name field without its terminator: offset %s length %s", sp.pos.sub(h0), sp.n)
		} else {
			good("Filename")
		}
	}
	r.finish = func() {
		for _, f := range later {
			f()
		}
		later = nil
		r.floor("header", 30)
	}
	return []*Hooks{m.hooks(), h}
}

// hexField: is v the unsigned hexadecimal decoding of the eight bytes at pos?
func (m *streamModel) hexField(st *State, v *Term, pos Lin) string {
	for v.op == "conv" || v.op == "convert" {
		v = v.args[0]
	}
	if v.op != "call" || v.aux != "strconv.ParseUint#0" {
		return fmt.Sprintf("is %s, not a decoded header field", v)
	}
	if b, ok := v.args[1].intVal(); !ok || b != 16 {
		return "is not decoded as hexadecimal"
	}
	if b, ok := v.args[2].intVal(); !ok || b != 32 && b != 64 && b != 0 {
		return fmt.Sprintf("is limited to %s bits", v.args[2])
	}
	sp, ok := m.resolve(st, v.args[0])
	if !ok {
		return fmt.Sprintf("is decoded from %s, which is not known to be one header field", v.args[0])
	}
	if !st.same(sp.pos, pos) || !st.same(sp.n, linConst(8)) {
		return fmt.Sprintf("is decoded from %s bytes at offset %s from its own field", sp.n, sp.pos.sub(pos))
	}
	return ""
}
