package main

// C08: package identity and file metadata.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C08"] = &Rule{
		what:  "Abstract evaluation of the identity and file queries with each defining tag present or absent: every field of the identity and every result of the accessors of each file's metadata, at the point where the file enters the list, must be exactly the element of the defining tag's value with index 0 or the file's own index; full paths must join the directory the file's index selects with its base name. Payload iteration: the sizes handed to the archive reader and the link marks are followed through every store, and the key that groups links must determine device and inode.",
		hooks: fileHooks, focus: readerRoot, calm: true, strict: true,
		assume: []string{"what getters return for one tag is decided by C06 and C07"},
	}
}

// accessors of a file and the tags that define them; alternatives in order of preference.
var fileTags = map[string][]string{
	"Name": {"OLDFILENAMES"}, "Size": {"LONGFILESIZES", "FILESIZES"}, "UserName": {"FILEUSERNAME"}, "GroupName": {"FILEGROUPNAME"},
	"Flags": {"FILEFLAGS"}, "Mtime": {"FILEMTIMES"}, "Digest": {"FILEDIGESTS"}, "Mode": {"FILEMODES"}, "Linkname": {"FILELINKTOS"},
	"Device": {"FILEDEVICES"}, "Inode": {"FILEINODES"},
}

type fileRule struct {
	it    *Interp
	r     *Report
	h     *pkgHeader
	q     *queries
	iface *types.Interface
	it0   types.Type
}

func fileHooks(it *Interp, r *Report) []*Hooks {
	f := &fileRule{it: it, r: r, h: findPkgHeader(it.prog)}
	f.q = &queries{it: it, r: r, h: f.h}
	if f.h != nil {
		if o := f.h.t.(*types.Named).Obj().Pkg().Scope().Lookup("FileInfo"); o != nil {
			f.it0 = o.Type()
			f.iface, _ = o.Type().Underlying().(*types.Interface)
		}
	}
	h := &Hooks{}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		if f.h == nil || f.iface == nil || root.Signature.Recv() == nil || !types.Identical(derefIf(root.Signature.Recv().Type()), f.h.t) || len(params) != 1 {
			return
		}
		res := root.Signature.Results()
		if res.Len() != 2 || !isErrorType(res.At(1).Type()) {
			return
		}
		if s, ok := res.At(0).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), f.it0) {
			f.files(st.clone(), root, params)
		} else if n, ok := derefIf(res.At(0).Type()).(*types.Named); ok && n.Obj().Name() == "NEVRA" {
			f.identity(st.clone(), root, params)
		}
	}
	r.finish = func() {
		r.floor("attribute", 20)
		r.floor("identity", 5)
		r.floor("path", 2)
		r.floor("size", 2)
		r.floor("link", 3)
	}
	return append([]*Hooks{h}, f.payload()...)
}

func (f *fileRule) pos(fn *ssa.Function, format string, args ...any) func() Finding {
	return func() Finding {
		x := f.r.at(nil, "%s", fmt.Sprintf(format, args...))
		x.Fn = shortName(fn.String())
		x.Pos = f.it.prog.fset.Position(fn.Pos()).String()
		return x
	}
}

// tagsOf: the tags whose values v is computed from.
func (f *fileRule) tagsOf(t *trace, st *State, v *Term) []string {
	m := map[string]bool{}
	t.sources(st, v, func(x *Term) {
		if x.op == "lookup" && x.args[0].typ != nil && types.Identical(x.args[0].typ, f.h.et) {
			k, ok := x.args[1].intVal()
			name := "?"
			if ok {
				name = f.tagName(k)
			}
			m[name] = true
		}
	})
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (f *fileRule) tagName(k int64) string {
	for _, ts := range fileTags {
		for _, n := range ts {
			if v, ok := f.it.prog.constIntOK(n); ok && v == k {
				return n
			}
		}
	}
	for _, n := range []string{"NAME", "EPOCH", "VERSION", "RELEASE", "ARCH", "DIRNAMES", "DIRINDEXES", "BASENAMES"} {
		if v, ok := f.it.prog.constIntOK(n); ok && v == k {
			return n
		}
	}
	return fmt.Sprint("tag ", k)
}

func (f *fileRule) set(st *State, hdr *Term, tag string, yes bool, kind int64) {
	k, ok := f.it.prog.constIntOK(tag)
	if ok {
		f.q.present(st, f.h.area(st, hdr, f.h.gen), mkInt(k), yes, kind)
	}
}

type scenario struct {
	name          string
	absent, given []string // given: with types in kinds
	kinds         map[string]int64
	want          map[string]string // accessor -> tags
}

func (f *fileRule) files(st0 *State, fn *ssa.Function, params []*Term) {
	hdr := params[0]
	st0.assume(mkEq(hdr, nilTerm), false)
	one := map[string]string{}
	for a, ts := range fileTags {
		one[a] = strings.Join(ts, ",")
	}
	with := func(kv ...string) map[string]string {
		m := map[string]string{}
		for k, v := range one {
			m[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i]] = kv[i+1]
		}
		return m
	}
	for _, sc := range []scenario{
		{"with full paths and long sizes", nil, []string{"OLDFILENAMES", "LONGFILESIZES", "FILESIZES", "FILEDEVICES", "FILEINODES"}, nil, with("Size", "LONGFILESIZES")},
		{"with directory table", []string{"OLDFILENAMES", "LONGFILESIZES"}, []string{"FILESIZES", "FILEDEVICES", "FILEINODES", "DIRNAMES", "DIRINDEXES", "BASENAMES"}, nil, with("Size", "FILESIZES", "Name", "BASENAMES,DIRINDEXES,DIRNAMES")},
	} {
		st := st0.clone()
		for _, tag := range sc.absent {
			f.set(st, hdr, tag, false, 0)
		}
		for _, tag := range sc.given {
			kind := int64(4)
			switch tag {
			case "OLDFILENAMES", "DIRNAMES", "BASENAMES":
				kind = 8
			case "LONGFILESIZES":
				kind = 5
			}
			f.set(st, hdr, tag, true, kind)
		}
		f.listed(st, fn, params, sc)
	}
}

// listed evaluates the query and examines every file at the point where it is put into the list.
func (f *fileRule) listed(st0 *State, fn *ssa.Function, params []*Term, sc scenario) {
	var t *trace
	n := 0
	obs := &Hooks{}
	entered := func(st *State, obj, idx *Term, in ssa.Instruction) {
		n++
		ms := f.it.prog.methodNames(f.iface)
		for _, name := range ms {
			want, ok := sc.want[name]
			if !ok {
				continue
			}
			label := name + " " + sc.name
			v := f.it.query(st, obj, name)
			if v == nil {
				f.r.item("attribute", label, false, func() Finding { return f.r.at(in, "%s: %s has no single value", sc.name, name) })
				continue
			}
			x := v
			got := strings.Join(f.tagsOf(t, st, x), ",")
			f.r.item("attribute", label, got == want, func() Finding {
				return f.r.at(in, "%s: %s of a file is computed from %s, not from %s", sc.name, name, got, want)
			})
			f.r.item("attribute", label+" value", t.elementAt(st, x, idx), func() Finding {
				return f.r.at(in, "%s: %s of file %s is %s, not the element with the same index", sc.name, name, idx, x)
			})
		}
	}
	obs.store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != "elemaddr" || val == nil || isAlloc(addr.args[0]) {
			return // (an array of arguments is not the list)
		}
		if obj := f.object(val); obj != nil {
			entered(st, obj, addr.args[1], in)
		}
	}
	obs.builtin = func(st *State, c *CallInfo, name string) {
		if name != "append" || len(c.args) < 2 {
			return
		}
		els := st.elements(c.args[1])
		for i, e := range els {
			if obj := f.object(e); obj != nil {
				entered(st, obj, fromLin(toLin(mkLen(c.args[0])).plus(int64(i)), types.Typ[types.Int]), c.instr)
			}
		}
	}
	join := &Hooks{}
	join.after = func(st *State, c *CallInfo) {
		if c.name != "path.Join" {
			return
		}
		els := st.elements(c.args[0])
		bad := func(why string) {
			f.r.item("path", sc.name+instrKey(c.instr), false, func() Finding { return f.r.at(c.instr, "%s: %s", sc.name, why) })
		}
		if len(els) != 2 {
			bad("a path is not made of a directory and a base name")
			return
		}
		el := func(x *Term) (base, idx *Term, ok bool) {
			if x.op != "ld" || x.args[0].op != "elemaddr" {
				return nil, nil, false
			}
			return x.args[0].args[0], x.args[0].args[1], true
		}
		d, di, ok1 := el(els[0])
		b, bi, ok2 := el(els[1])
		if !ok1 || !ok2 {
			bad("a path is not made of elements of the directory and base name tags")
			return
		}
		dt, bt := strings.Join(f.tagsOf(t, st, d), ","), strings.Join(f.tagsOf(t, st, b), ",")
		xd, xi, ok3 := el(stripConv(di))
		if !ok3 {
			bad(fmt.Sprintf("the directory %s is not selected by an element of the directory indexes", di))
			return
		}
		xt := strings.Join(f.tagsOf(t, st, xd), ",")
		if dt != "DIRNAMES" || bt != "BASENAMES" || xt != "DIRINDEXES" {
			bad(fmt.Sprintf("a path is made of %s[%s[i]] and %s[i]", dt, xt, bt))
			return
		}
		if !st.same(toLin(xi), toLin(bi)) {
			bad(fmt.Sprintf("directory index %s is used for base name %s", xi, bi))
			return
		}
		f.r.item("path", sc.name+instrKey(c.instr), true, nil)
	}
	put := &Hooks{}
	placed := func(st *State, v, idx *Term, in ssa.Instruction) {
		v = stripConv(v)
		if v.op != "call" && (v.sym == nil || v.sym.callee != "path.Join") {
			return
		}
		if v.op == "call" && !strings.HasPrefix(v.aux, "path.Join") {
			return
		}
		args := v.args
		if v.sym != nil {
			args = v.sym.args
		}
		els := st.elements(args[0])
		if len(els) != 2 || els[1].op != "ld" || els[1].args[0].op != "elemaddr" {
			return
		}
		bi := els[1].args[0].args[1]
		f.r.item("path", sc.name+" placed", st.same(toLin(bi), toLin(idx)), func() Finding {
			return f.r.at(in, "%s: the path of base name %s is put at index %s", sc.name, bi, idx)
		})
	}
	put.store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "elemaddr" && val != nil {
			if a := addrRoot(addr); a.op == "make" {
				placed(st, val, addr.args[1], in)
			}
		}
	}
	put.builtin = func(st *State, c *CallInfo, name string) {
		if name == "append" && len(c.args) == 2 {
			for i, e := range st.elements(c.args[1]) {
				placed(st, e, fromLin(toLin(mkLen(c.args[0])).plus(int64(i)), types.Typ[types.Int]), c.instr)
			}
		}
	}
	t = newTrace(f.it)
	t.fn = fn
	f.it.evalWith([]*Hooks{t.hooks(), obs, join, put}, st0, fn, params)
	if n == 0 {
		f.r.item("attribute", sc.name, false, f.pos(fn, "%s: no file is seen to enter the list", sc.name))
	}
}

// elementAt: v is, unchanged, an element with this index.
func (t *trace) elementAt(st *State, v, idx *Term) bool {
	if v.op == "ld" && v.args[0].op == "elemaddr" {
		return st.same(toLin(v.args[0].args[1]), toLin(idx))
	}
	for _, e := range t.indexed {
		if e.val == v && st.same(toLin(e.idx), toLin(idx)) {
			return true
		}
	}
	return false
}

// object: a newly made file as it is stored.
func (f *fileRule) object(v *Term) *Term {
	if v.op != "mkiface" {
		return nil
	}
	x := v.args[0]
	t := f.it.typeByKey[v.aux]
	if t == nil || !isAlloc(addrRoot(x)) || !(types.Implements(t, f.iface) || types.Implements(types.NewPointer(t), f.iface)) {
		return nil
	}
	return x
}

func (f *fileRule) identity(st0 *State, fn *ssa.Function, params []*Term) {
	hdr := params[0]
	st0.assume(mkEq(hdr, nilTerm), false)
	for _, epoch := range []bool{true, false} {
		st := st0.clone()
		f.set(st, hdr, "EPOCH", epoch, 4)
		for _, n := range []string{"NAME", "VERSION", "RELEASE", "ARCH"} {
			f.set(st, hdr, n, true, 6)
		}
		t, ex := f.q.eval(st, fn, params)
		for _, e := range ex {
			if e.st.nilness(e.res[1]) == 2 {
				continue
			}
			p := e.res[0]
			nt := derefIf(fn.Signature.Results().At(0).Type())
			s := nt.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				name := s.Field(i).Name()
				tag := strings.ToUpper(name)
				label := name
				if !epoch {
					label += " without epoch"
				}
				v := e.st.load(fieldAddr(p, fieldID(nt, i), s.Field(i).Type()), s.Field(i).Type())
				if tag == "EPOCH" {
					num := decimalOf(e.st, v)
					if !epoch {
						z, ok := v.strVal()
						ok = ok && z == "0" || num != nil && num.op == "const" && constant.Sign(num.val) == 0
						f.r.item("identity", label, ok, f.pos(fn, "without an epoch tag the epoch is %s, not 0", v))
						continue
					}
					if num == nil {
						f.r.item("identity", label, false, f.pos(fn, "the epoch is %s, not a decimal number", v))
						continue
					}
					v = num
				}
				got := strings.Join(f.tagsOf(t, e.st, v), ",")
				f.r.item("identity", label, got == tag, f.pos(fn, "%s is computed from %q, not from %s", name, got, tag))
				f.r.item("identity", label+" value", t.elementAt(e.st, v, mkInt(0)), f.pos(fn, "%s is %s, not the first value of its tag", name, v))
			}
		}
	}
}

// decimalOf: the number a string is the decimal representation of.
func decimalOf(st *State, v *Term) *Term {
	var name string
	var args []*Term
	switch {
	case v.op == "call":
		name, args = v.aux, v.args
	case v.sym != nil:
		name, args = v.sym.callee, v.sym.args
	}
	if i := strings.LastIndex(name, "#"); i > 0 {
		name = name[:i]
	}
	switch name {
	case "strconv.FormatUint", "strconv.FormatInt":
		if b, ok := args[1].intVal(); ok && b == 10 {
			return stripConv(args[0])
		}
	case "strconv.Itoa":
		return stripConv(args[0])
	case "fmt.Sprint":
		if els := st.elements(args[0]); len(els) == 1 {
			return stripConv(unface(els[0]))
		}
	case "fmt.Sprintf":
		if s, ok := args[0].strVal(); ok && (s == "%d" || s == "%v") {
			if els := st.elements(args[1]); len(els) == 1 {
				return stripConv(unface(els[0]))
			}
		}
	}
	return nil
}

// ---- what payload iteration derives from the metadata ----

func (f *fileRule) payload() []*Hooks {
	if f.h == nil || f.iface == nil {
		return nil
	}
	done := false
	h := &Hooks{}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		if done {
			return
		}
		done = true
		for _, fn := range f.sizers() {
			f.sizes(st, fn)
		}
	}
	return []*Hooks{h}
}

const sizesCallee = "NewReaderWithSizes"

// sizers: functions that take the files and set up the archive reader.
func (f *fileRule) sizers() []*ssa.Function {
	reaches := map[*ssa.Function]bool{}
	var reach func(fn *ssa.Function, depth int) bool
	reach = func(fn *ssa.Function, depth int) bool {
		if v, ok := reaches[fn]; ok {
			return v
		}
		reaches[fn] = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && inModule(g.Pkg.Pkg) && (g.Name() == sizesCallee || depth < 4 && reach(g, depth+1)) {
						reaches[fn] = true
						return true
					}
				}
			}
		}
		return false
	}
	var r []*ssa.Function
	for _, fn := range f.it.prog.fns {
		if fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		for _, p := range fn.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), f.it0) && reach(fn, 0) {
				r = append(r, fn)
			}
		}
	}
	return r
}

type aFile struct {
	mode     int64
	dev, ino *Term
}

func (f *fileRule) sizes(st0 *State, fn *ssa.Function) {
	impl := f.impl()
	if impl == nil {
		return
	}
	u32 := types.Typ[types.Uint32]
	sym := func(name string, t types.Type) *Term { return mkSym("param", "file."+name, t, st0.ctx, nil) }
	d, i := sym("dev", u32), sym("ino", u32)
	zero, three, nine := mkInt(0), mkInt(3), mkInt(9)
	const reg, lnk, dir, chr, fifo = 0100644, 0120777, 040755, 020644, 010644
	type want struct {
		size string // size, link, 0
		mark bool
	}
	for _, c := range []struct {
		name  string
		files []aFile
		want  []want
	}{
		{"a regular file", []aFile{{reg, d, i}}, []want{{"size", false}}},
		{"a symbolic link", []aFile{{lnk, d, i}}, []want{{"link", false}}},
		{"a directory", []aFile{{dir, d, i}}, []want{{"0", false}}},
		{"a device", []aFile{{chr, d, i}}, []want{{"0", false}}},
		{"a FIFO", []aFile{{fifo, d, i}}, []want{{"0", false}}},
		{"two linked files", []aFile{{reg, three, nine}, {reg, three, nine}}, []want{{"0", true}, {"size", false}}},
		{"three linked files", []aFile{{reg, three, nine}, {reg, three, nine}, {reg, three, nine}}, []want{{"0", true}, {"0", true}, {"size", false}}},
		{"two files without identity", []aFile{{reg, zero, zero}, {reg, zero, zero}}, []want{{"size", false}, {"size", false}}},
		{"a file and a directory", []aFile{{reg, three, nine}, {dir, three, nine}}, []want{{"size", false}, {"0", false}}},
		{"a directory and a file", []aFile{{dir, three, nine}, {reg, three, nine}}, []want{{"0", false}, {"size", false}}},
		{"a symbolic link and a file", []aFile{{lnk, three, nine}, {reg, three, nine}}, []want{{"link", false}, {"size", false}}},
		{"files with different inodes", []aFile{{reg, three, nine}, {reg, three, three}}, []want{{"size", false}, {"size", false}}},
		{"files on different devices", []aFile{{reg, three, nine}, {reg, nine, nine}}, []want{{"size", false}, {"size", false}}},
		{"two groups", []aFile{{reg, three, nine}, {reg, nine, nine}, {reg, three, nine}}, []want{{"0", true}, {"size", false}, {"size", false}}},
	} {
		st := st0.clone()
		st.assume(mkEq(d, zero), false)
		st.assume(mkEq(i, zero), false)
		args := make([]*Term, len(fn.Params))
		var objs []*Term
		slice := app("make", "", types.NewSlice(f.it0), mkSym("alloc", "files", types.NewSlice(f.it0), st.ctx, nil), mkInt(int64(len(c.files))))
		for j, a := range c.files {
			o := mkSym("param", fmt.Sprint("file", j), types.NewPointer(impl), st.ctx, nil)
			st.assume(mkEq(o, nilTerm), false)
			objs = append(objs, o)
			f.setField(st, o, impl, "Mode", mkInt(a.mode))
			f.setField(st, o, impl, "Device", a.dev)
			f.setField(st, o, impl, "Inode", a.ino)
			st.mem[app("elemaddr", "", f.it0, slice, mkInt(int64(j)))] = app("mkiface", typeKey(types.NewPointer(impl)), f.it0, o)
			f.it.typeByKey[typeKey(types.NewPointer(impl))] = types.NewPointer(impl)
		}
		for k, p := range fn.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), f.it0) {
				args[k] = slice
				continue
			}
			args[k] = mkSym("param", p.Name(), p.Type(), st.ctx, nil)
			if nilable(p.Type()) {
				st.assume(mkEq(args[k], nilTerm), false)
			}
		}
		var got [][]*Term
		obs := &Hooks{}
		obs.enter = func(st *State, ci *CallInfo) {
			if ci.fn == nil || ci.fn.Name() != sizesCallee {
				return
			}
			for _, a := range ci.args {
				if s, ok := typOf(a).Underlying().(*types.Slice); ok {
					var vs []*Term
					for j := range c.files {
						vs = append(vs, st.load(app("elemaddr", "", s.Elem(), a, mkInt(int64(j))), s.Elem()))
					}
					got = append(got, vs)
				}
			}
		}
		if len(c.files) == 1 && c.files[0].mode == reg {
			obs.mapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
				if !mentions(k, d) && !mentions(k, i) {
					return
				}
				f.r.item("link", "key", f.determines(k, d, i), func() Finding {
					return f.r.at(in, "files are grouped by %s, which does not determine their device and inode", k)
				})
			}
		}
		ex := f.it.evalWith([]*Hooks{obs}, st, fn, args)
		if len(got) == 0 {
			f.r.item("size", c.name, false, f.pos(fn, "%s: no sizes are handed to the archive reader", c.name))
			continue
		}
		for _, vs := range got {
			for j, v := range vs {
				ok := false
				switch c.want[j].size {
				case "0":
					n, isC := v.intVal()
					ok = isC && n == 0
				case "size":
					ok = stripConv(v) == stripConv(f.getField(st, objs[j], "Size"))
				case "link":
					l := f.getField(st, objs[j], "Linkname")
					ok = l != nil && stripConv(v) == mkLen(l)
				}
				f.r.item("size", c.name, ok, f.pos(fn, "%s: the size used for file %d is %s (expected: %s)", c.name, j, v, c.want[j].size))
			}
		}
		for _, e := range ex {
			if len(e.res) == 0 {
				continue
			}
			marks := f.marks(e.st, e.res[0])
			if marks == nil {
				continue
			}
			for j := range c.files {
				v, known := e.st.decide(e.st.load(app("elemaddr", "", types.Typ[types.Bool], marks, mkInt(int64(j))), types.Typ[types.Bool]))
				f.r.item("link", c.name, known && v == c.want[j].mark, f.pos(fn, "%s: file %d is not marked correctly (expected %v)", c.name, j, c.want[j].mark))
			}
		}
	}
}

// impl: the module's type of files.
func (f *fileRule) impl() types.Type {
	scope := f.h.t.(*types.Named).Obj().Pkg().Scope()
	for _, n := range scope.Names() {
		o, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(o.Type()) {
			continue
		}
		if _, ok := o.Type().Underlying().(*types.Struct); ok && types.Implements(types.NewPointer(o.Type()), f.iface) {
			return o.Type()
		}
	}
	return nil
}

// getField: what an accessor of a file returns.
func (f *fileRule) getField(st *State, o *Term, name string) *Term { return f.it.query(st, o, name) }

// setField makes an accessor return v, by setting the field it reads.
func (f *fileRule) setField(st *State, o *Term, impl types.Type, name string, v *Term) {
	x := f.it.query(st, o, name)
	if x == nil {
		return
	}
	if x = stripConv(x); x.op == "ld" {
		st.mem[x.args[0]] = v
	}
}

func mentions(t, x *Term) bool { return t.contains(x) }

// determines: equal values of k mean equal a and equal b (each of 32 bits).
func (f *fileRule) determines(k, a, b *Term) bool {
	k = stripConv(k)
	switch k.op {
	case "struct", "arrval":
		n := map[*Term]bool{}
		for _, x := range k.args {
			n[stripConv(x)] = true
		}
		return n[a] && n[b]
	case "or", "xor":
		hi := func(x, y *Term) bool {
			if x.op != "shl" && x.op != "wrap:shl" || !isUint64(x.typ) && !isInt64(x.typ) {
				return false
			}
			c, ok := x.args[1].intVal()
			return ok && c == 32 && (stripConv(x.args[0]) == a && stripConv(y) == b || stripConv(x.args[0]) == b && stripConv(y) == a)
		}
		return hi(k.args[0], k.args[1]) || hi(k.args[1], k.args[0])
	case "wrap:add", "wrap:mul", "lin", "add":
	}
	l := toLin(k)
	if k.op == "wrap:add" {
		l = toLin(k.args[0]).add(toLin(k.args[1]))
	}
	var ca, cb int64
	for _, p := range l.ps {
		t, c := stripConv(p.t), p.k
		if t.op == "wrap:mul" || t.op == "mul" || t.op == "wrap:shl" || t.op == "shl" {
			n, ok := t.args[1].intVal()
			if !ok {
				return false
			}
			if strings.HasSuffix(t.op, "shl") {
				n = 1 << uint(n)
			}
			c *= n
			t = stripConv(t.args[0])
		}
		switch t {
		case a:
			ca += c
		case b:
			cb += c
		default:
			return false
		}
	}
	return ca == 1 && cb == 1<<32 || cb == 1 && ca == 1<<32
}

// marks: the table of link marks of a payload reader.
func (f *fileRule) marks(st *State, pr *Term) *Term {
	pr = unface(pr)
	t := derefIf(ptrType(pr))
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Bool]) {
			return st.load(fieldAddr(pr, fieldID(t, i), s.Field(i).Type()), s.Field(i).Type())
		}
	}
	return nil
}
