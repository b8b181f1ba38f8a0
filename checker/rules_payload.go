package main

// C25: which decompressor reads a payload, and that it is given all of it.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C25"] = &Rule{
		what:  "Abstract evaluation of every method that opens a package's payload, for each declared compressor, an unknown one, none, and for a declared payload format other than cpio: the reader handed to the archive package is taken apart; it must be exactly the decompressor of the declared name over the caller's own stream, nothing may be opened for an unknown name or format, and without a declaration the choice between gzip and none must depend on the first two stream bytes, both fully read and put back in front of the rest.",
		hooks: selectHooks, focus: readerRoot, calm: true, strict: true,
		assume: []string{"the constructors of the decompression packages decode their own format"},
	}
}

// constructors of the decompressors, by format.
var decompressors = map[string]string{
	"compress/gzip.NewReader":                               "gzip",
	"compress/bzip2.NewReader":                              "bzip2",
	"github.com/ulikunitz/xz.NewReader":                     "xz",
	"(github.com/ulikunitz/xz.ReaderConfig).NewReader":      "xz",
	"github.com/ulikunitz/xz/lzma.NewReader":                "lzma",
	"(github.com/ulikunitz/xz/lzma.ReaderConfig).NewReader": "lzma",
	"github.com/DataDog/zstd.NewReader":                     "zstd",
	"github.com/DataDog/zstd.NewReaderDict":                 "zstd",
	"github.com/klauspost/compress/zstd.NewReader":          "zstd",
	"github.com/klauspost/compress/gzip.NewReader":          "gzip",
}

type selector struct {
	it      *Interp
	r       *Report
	ph      *pkgHeader
	q       *queries
	m       *streamModel
	rpm     *types.Named
	hdrF    int
	strF    int
	magicAt *Term // where the inspected bytes are
}

// rpmType finds the type that holds a header and the stream its payload is read from.
func rpmType(p *Program, ph *pkgHeader) (n *types.Named, hdr, stream int) {
	if ph == nil {
		return nil, 0, 0
	}
	sc := ph.t.(*types.Named).Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		o, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || !o.Exported() {
			continue
		}
		s, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		h, f := -1, -1
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if types.Identical(ft, types.NewPointer(ph.t)) {
				h = i
			} else if types.IsInterface(ft) && hasReadMethod(ft) {
				f = i
			}
		}
		if h >= 0 && f >= 0 {
			return o.Type().(*types.Named), h, f
		}
	}
	return nil, 0, 0
}

func selectHooks(it *Interp, r *Report) []*Hooks {
	s := &selector{it: it, r: r, ph: findPkgHeader(it.prog), m: &streamModel{it: it}}
	s.q = &queries{it: it, r: r, h: s.ph}
	s.rpm, s.hdrF, s.strF = rpmType(it.prog, s.ph)
	h := &Hooks{}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		if s.rpm == nil || root.Signature.Recv() == nil || !types.Identical(derefIf(root.Signature.Recv().Type()), s.rpm) {
			return
		}
		res := root.Signature.Results()
		if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
			return
		}
		s.all(st, root, params)
	}
	r.finish = func() {
		r.floor("selection", 21)
		r.floor("refused", 6)
		r.floor("inspection", 6)
	}
	return []*Hooks{h}
}

func (s *selector) pos(fn *ssa.Function, format string, args ...any) func() Finding {
	return func() Finding {
		x := s.r.at(nil, "%s", fmt.Sprintf(format, args...))
		x.Fn, x.Pos = shortName(fn.String()), s.it.prog.fset.Position(fn.Pos()).String()
		return x
	}
}

func (s *selector) all(st0 *State, fn *ssa.Function, params []*Term) {
	st := st0.clone()
	st.assume(mkEq(params[0], nilTerm), false)
	str := s.rpm.Underlying().(*types.Struct)
	hdr := st.load(fieldAddr(params[0], fieldID(s.rpm, s.hdrF), str.Field(s.hdrF).Type()), str.Field(s.hdrF).Type())
	st.assume(mkEq(hdr, nilTerm), false)
	stream := st.load(fieldAddr(params[0], fieldID(s.rpm, s.strF), str.Field(s.strF).Type()), str.Field(s.strF).Type())
	st.assume(mkEq(stream, nilTerm), false)
	format, ok1 := s.it.prog.constIntOK("PAYLOADFORMAT")
	comp, ok2 := s.it.prog.constIntOK("PAYLOADCOMPRESSOR")
	if !ok1 || !ok2 {
		return
	}
	area := s.ph.area(st, hdr, s.ph.gen)
	get := s.it.method(types.NewPointer(s.ph.t), "GetString")
	if get == nil {
		return
	}
	value := func(st *State, tag int64) *Term {
		s.q.present(st, area, mkInt(tag), true, 6)
		_, ex := s.q.eval(st, get, []*Term{hdr, mkInt(tag)})
		for _, e := range ex {
			if len(e.res) == 2 && e.st.nilness(e.res[1]) == 1 {
				return e.res[0]
			}
		}
		return nil
	}
	name := fn.Name()
	formats := []string{"gzip", "bzip2", "xz", "lzma", "zstd", "uncompressed"}
	// a payload format other than cpio
	bad := st.clone()
	f := value(bad, format)
	if f == nil {
		s.r.item("refused", name+" format", false, s.pos(fn, "the payload format has no single value"))
		return
	}
	opened, _, ok := s.eval(bad, fn, params, pin{val: f, not: []*Term{mkStr("cpio")}})
	s.r.item("refused", name+" format", len(opened) == 0 && !ok, s.pos(fn, "a payload whose format is not cpio is opened"))
	for _, withFormat := range []bool{true, false} {
		base, label := st.clone(), name
		var pins []pin
		if withFormat {
			f := value(base, format)
			pins = append(pins, pin{val: f, is: mkStr("cpio")})
		} else {
			s.q.present(base, area, mkInt(format), false, 0)
			label += " without format"
		}
		// declared compressors
		for _, c := range formats {
			b := base.clone()
			v := value(b, comp)
			if v == nil {
				s.r.item("selection", label+" "+c, false, s.pos(fn, "the compressor has no single value"))
				continue
			}
			want := []string{c}
			if c == "uncompressed" {
				want = nil
			}
			opened, _, _ := s.eval(b, fn, params, append(pins, pin{val: v, is: mkStr(c)})...)
			s.r.item("selection", label+" "+c, len(opened) > 0, s.pos(fn, "a payload compressed with %s is never opened", c))
			for _, o := range opened {
				got, base, why := s.chain(o.st, o.arg)
				s.r.item("selection", label+" "+c, why == "" && base == stream && strings.Join(got, ",") == strings.Join(want, ","), func() Finding {
					if why == "" && base != stream {
						why = fmt.Sprintf("it does not read the caller's stream but %s", base)
					}
					return s.r.at(o.in, "the reader for a payload declared as %s decodes %v %s", c, got, why)
				})
			}
		}
		// an unknown one
		b := base.clone()
		v := value(b, comp)
		if v != nil {
			p := pin{val: v}
			for _, c := range formats {
				p.not = append(p.not, mkStr(c))
			}
			opened, _, ok := s.eval(b, fn, params, append(pins, p)...)
			s.r.item("refused", label+" compressor", len(opened) == 0 && !ok, s.pos(fn, "a payload with an unknown compressor is opened"))
		}
		// none declared
		b = base.clone()
		s.q.present(b, area, mkInt(comp), false, 0)
		s.inspected(b, fn, params, label, stream, pins)
	}
}

type opening struct {
	st  *State
	arg *Term
	in  ssa.Instruction
}

// eval runs the method; what is handed to the archive package is recorded.
func (s *selector) eval(st *State, fn *ssa.Function, params []*Term, pins ...pin) (opened []opening, ex []*Exit, ok bool) {
	obs := &Hooks{}
	obs.enter = func(st *State, c *CallInfo) {
		if c.fn == nil || c.fn.Pkg == nil || fn.Pkg == c.fn.Pkg || c.frame == nil || c.instr.Parent().Pkg != fn.Pkg {
			return
		}
		for i, p := range c.fn.Params {
			if i < len(c.args) && types.IsInterface(p.Type()) && hasReadMethod(p.Type()) && c.fn.Signature.Recv() == nil {
				opened = append(opened, opening{st.clone(), c.args[i], c.instr})
			}
		}
	}
	obs.joined = func(states []*State) []*Term {
		if s.magicAt != nil {
			return []*Term{fact("nomagic", "")}
		}
		return nil
	}
	obs.implied = func(st *State, f *Term) bool {
		if f.op != "F:nomagic" || s.magicAt == nil {
			return false
		}
		_, no := s.magic(st, toLin(s.magicAt))
		return no
	}
	s.it.pins = pins
	ex = s.it.evalWith([]*Hooks{s.m.hooks(), obs}, st, fn, params)
	s.it.pins = nil
	for _, e := range ex {
		if err := e.res[len(e.res)-1]; e.st.nilness(err) != 2 {
			ok = true
		}
	}
	return
}

// chain takes a reader apart: the decompressors on the way to the stream they read.
func (s *selector) chain(st *State, r *Term) (formats []string, base *Term, why string) {
	for i := 0; i < 12; i++ {
		if r.op == "mkiface" {
			r = r.args[0]
			continue
		}
		if r.sym != nil && r.sym.kind == "call" && len(r.sym.args) > 0 {
			if f, ok := decompressors[r.sym.callee]; ok {
				formats = append(formats, f)
				a := r.sym.args[0]
				if strings.HasPrefix(r.sym.callee, "(") && len(r.sym.args) > 1 {
					a = r.sym.args[1]
				}
				r = a
				continue
			}
			switch r.sym.callee {
			case "bufio.NewReader", "bufio.NewReaderSize", "io.NopCloser", "(*github.com/klauspost/compress/zstd.Decoder).IOReadCloser":
				r = r.sym.args[0]
				continue
			}
		}
		if r.sym != nil && r.sym.kind == "call" && r.sym.callee == "io.MultiReader" {
			return formats, r, ""
		}
		// a forwarding wrapper of this module
		if next := s.wrapped(st, r); next != nil {
			r = next
			continue
		}
		return formats, r, ""
	}
	return formats, r, "its readers are nested too deep"
}

// wrapped: the only reader a wrapper declared in the module holds.
func (s *selector) wrapped(st *State, r *Term) *Term {
	var found *Term
	n := 0
	add := func(v *Term, t types.Type) {
		if v != nil && hasReadMethod(t) {
			found, n = v, n+1
		}
	}
	switch {
	case r.op == "struct" && r.typ != nil:
		if u, ok := r.typ.Underlying().(*types.Struct); ok && len(r.args) == u.NumFields() {
			for i := range r.args {
				add(r.args[i], u.Field(i).Type())
			}
		}
	case isAlloc(r) && r.typ != nil:
		if u, ok := r.typ.Underlying().(*types.Struct); ok && s.it.prog.moduleMethods(types.NewPointer(r.typ)) {
			for i := 0; i < u.NumFields(); i++ {
				add(st.load(fieldAddr(r, fieldID(r.typ, i), u.Field(i).Type()), u.Field(i).Type()), u.Field(i).Type())
			}
		}
	}
	if n == 1 {
		return found
	}
	return nil
}

// inspected: no compressor is declared.
func (s *selector) inspected(b *State, fn *ssa.Function, params []*Term, label string, stream *Term, pins []pin) {
	pos0 := s.m.pos(b)
	s.magicAt = pos0
	opened, _, _ := s.eval(b, fn, params, pins...)
	s.magicAt = nil
	kinds := map[string]bool{}
	for _, o := range opened {
		formats, base, why := s.chain(o.st, o.arg)
		kind := strings.Join(formats, ",")
		if kind == "" {
			kind = "none"
		}
		kinds[kind] = true
		item := func(what string, ok bool, format string, args ...any) {
			s.r.item("inspection", label+" "+kind+" "+what, ok, func() Finding { return s.r.at(o.in, format, args...) })
		}
		if kind != "gzip" && kind != "none" {
			item("kind", false, "a payload without declared compressor is decoded as %s %s", kind, why)
			continue
		}
		// everything peeked is put back
		p1 := toLin(s.m.pos(o.st))
		if base.sym != nil && base.sym.kind == "call" && base.sym.callee == "io.MultiReader" {
			els := o.st.elements(base.sym.args[0])
			at := p1
			if p := o.st.mem[attr(base, "at")]; p != nil && kind != "none" {
				at = toLin(p) // the decompressor has read from there on
			}
			ok := len(els) == 2
			if ok {
				_, rest, _ := s.chain(o.st, els[1])
				sp, known := s.memory(o.st, els[0])
				ok = rest == stream && known && o.st.same(sp.pos, toLin(pos0)) && o.st.same(sp.pos.add(sp.n), at)
			}
			item("put back", ok, "the bytes inspected are not put back exactly in front of the rest of the stream")
		} else {
			item("put back", base == stream && (o.st.same(p1, toLin(pos0)) || s.buffered(o.st, o.arg)), "the bytes inspected are not put back in front of the rest of the stream")
		}
		yes, no := s.magic(o.st, toLin(pos0))
		if kind == "gzip" {
			item("magic", yes, "gzip is chosen without the first two stream bytes being 1f 8b")
		} else {
			item("magic", no, "the payload is taken as uncompressed although its first two bytes may be 1f 8b")
		}
	}
	s.r.item("inspection", label+" both", kinds["gzip"] && kinds["none"], s.pos(fn, "without a declared compressor, gzip and uncompressed payloads are not both supported: %v", kinds))
}

func (s *selector) buffered(st *State, r *Term) bool {
	for i := 0; i < 12; i++ {
		if r.op == "mkiface" {
			r = r.args[0]
			continue
		}
		if r.sym != nil && r.sym.kind == "call" && len(r.sym.args) > 0 {
			if strings.HasPrefix(r.sym.callee, "bufio.NewReader") {
				return true
			}
			r = r.sym.args[0]
			continue
		}
		if n := s.wrapped(st, r); n != nil {
			r = n
			continue
		}
		return false
	}
	return false
}

// memory: the stream bytes a reader over memory delivers.
func (s *selector) memory(st *State, r *Term) (span, bool) {
	r = unface(r)
	if r.sym != nil && r.sym.kind == "call" && len(r.sym.args) > 0 {
		switch r.sym.callee {
		case "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader":
			return s.m.resolve(st, r.sym.args[0])
		}
	}
	if b := s.it.bufferArg(r); b != nil {
		if ver := st.mem[contentAddr(addrRoot(b))]; ver != nil {
			if n := st.bufLen(b); n != nil {
				return s.m.spanIn(st, b, linConst(0), toLin(n), ver)
			}
		}
	}
	return span{}, false
}

// magic: what the state knows about the first two stream bytes being 1f 8b.
func (s *selector) magic(st *State, pos Lin) (yes, no bool) {
	if st.hasFact(fact("nomagic", "")) {
		return false, true
	}
	var is [2]bool
	byteAt := func(x *Term) int {
		x = stripConv(x)
		if x.op != "ld" && x.op != "elemval" {
			return -1
		}
		off, ok := offsetIn(x.args[0])
		if !ok {
			return -1
		}
		sp, ok := s.m.spanIn(st, addrRoot(x.args[0]), off, linConst(1), nil)
		if !ok {
			return -1
		}
		for i := int64(0); i < 2; i++ {
			if st.same(sp.pos, pos.plus(i)) {
				return int(i)
			}
		}
		return -1
	}
	want := []int64{0x1f, 0x8b}
	check := func(x *Term) {
		if i := byteAt(x); i >= 0 {
			if val, known := st.decide(mkEq(x, mkInt(want[i]))); known && val {
				is[i] = true
			} else if known {
				no = true
			}
		}
	}
	seen := map[*Term]bool{}
	visit := func(t *Term) {
		t.walk(func(x *Term) {
			if !seen[x] {
				seen[x] = true
				if isIntTerm(x) {
					check(x)
				}
			}
		})
	}
	for t, v := range st.truth {
		visit(t)
		// the two bytes as one value
		var a, b *Term
		switch {
		case t.op == "eq":
			a, b = t.args[0], t.args[1]
		case t.op == "call" && (strings.HasPrefix(t.aux, "bytes.Equal#") || strings.HasPrefix(t.aux, "bytes.HasPrefix#") || strings.HasPrefix(t.aux, "strings.HasPrefix#")):
			a, b = t.args[0], t.args[1]
		default:
			continue
		}
		for i := 0; i < 2; i++ {
			if c, ok := bytesIn(st, b); ok && c == "\x1f\x8b" {
				if sp, ok := s.m.resolve(st, a); ok && st.same(sp.pos, pos) {
					if v {
						is[0], is[1] = true, true
					} else {
						no = true
					}
				}
			}
			if n, ok := b.intVal(); ok && n == 0x1f8b && a.op == "call" && strings.Contains(a.aux, "bigEndian).Uint16") {
				if sp, ok := s.m.resolve(st, a.args[0]); ok && st.same(sp.pos, pos) {
					if v {
						is[0], is[1] = true, true
					} else {
						no = true
					}
				}
			}
			a, b = b, a
		}
	}
	for _, l := range st.lin.m {
		for _, p := range l.ps {
			visit(p.t)
		}
	}
	return is[0] && is[1], no
}

// bytesIn: bytes known by value.
func bytesIn(st *State, t *Term) (string, bool) {
	if c, ok := constBytes(t); ok {
		return c, true
	}
	if t.op == "bytesof" && len(t.args) == 2 && t.args[1] == st.mem[contentAddr(addrRoot(t.args[0]))] {
		t = t.args[0]
	}
	if t.op != "list" && t.op != "slice" {
		return "", false
	}
	els := st.elements(t)
	if len(els) == 0 {
		return "", false
	}
	var b []byte
	for _, e := range els {
		n, ok := e.intVal()
		if !ok {
			return "", false
		}
		b = append(b, byte(n))
	}
	return string(b), true
}
