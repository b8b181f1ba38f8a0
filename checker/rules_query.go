package main

// C06, C07: tag queries. Every query of the package header is evaluated abstractly, for a symbolic tag of each
// range, present and absent, and for each stored data type.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C06"] = &Rule{
		what:  "Abstract evaluation of every query method of the package header for a symbolic tag in each tag range, absent and present with each stored data type: every map lookup it makes must be in the header that range belongs to, under the raw number; the result must be computed from that entry alone; an absent tag must give the no-such-tag error and a present one never; a value of another type must be refused; single-value queries may succeed only where the number of values is provably one, with that value.",
		hooks: func(it *Interp, r *Report) []*Hooks { return tagHooks(it, r, false) }, focus: readerRoot, calm: true, strict: true,
	}
	rules["C07"] = &Rule{
		what:  "Abstract interpretation of everything that reads or reports header and archive data: every integer conversion must be provably value preserving (including conversions of fields, through what is stored in them), and for each stored integer type, what decodes an entry must be big endian, unsigned and of exactly that type's width, each result element converted from the element of the same index.",
		hooks: func(it *Interp, r *Report) []*Hooks { return tagHooks(it, r, true) }, focus: readerRoot, calm: true, strict: true,
		assume: []string{"int has 64 bits"},
	}
}

// readerRoot: everything but writing headers.
func readerRoot(r string) bool {
	for _, w := range []string{"Sign", "Rewrite", "DumpSignatureHeader", "WriteTo", "OriginalSignatureHeaderSize"} {
		if strings.Contains(r[strings.LastIndex(r, ".")+1:], w) {
			return false
		}
	}
	return true
}

// trace of one evaluation
type trace struct {
	it      *Interp
	lookups []lookupEvent
	src     map[*Term][]*Term // object -> what was put into it
	fn      *ssa.Function
	indexed []indexEvent
}

// indexEvent: an element was read.
type indexEvent struct {
	val  *Term
	own  bool // in the evaluated function itself
	only bool // it is the only element
	n    *Term
	idx  *Term
}

type lookupEvent struct {
	m, k *Term
	in   ssa.Instruction
}

func newTrace(it *Interp) *trace { return &trace{it: it, src: map[*Term][]*Term{}} }

func (t *trace) hooks() *Hooks {
	put := func(dst, v *Term) {
		if dst != nil && v != nil {
			r := addrRoot(dst)
			t.src[r] = append(t.src[r], v)
		}
	}
	h := &Hooks{}
	h.lookup = func(st *State, m, k *Term, in ssa.Instruction) {
		t.lookups = append(t.lookups, lookupEvent{m, k, in})
	}
	h.index = func(st *State, base, idx *Term, in ssa.Instruction) {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok || t.fn == nil || !isSliceT(ia.X.Type()) {
			return
		}
		a, ok := st.env[ia]
		if !ok {
			return
		}
		n := mkLen(base)
		t.indexed = append(t.indexed, indexEvent{stripConv(st.load(a, derefType(ia.Type()))), ia.Parent() == t.fn,
			onlyOne(st, n, idx), n, idx})
	}
	h.store = func(st *State, addr, val *Term, in ssa.Instruction) { put(addr, val) }
	h.mapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) { put(m, v); put(m, k) }
	h.after = func(st *State, c *CallInfo) {
		// what is read or copied into an object
		for i, a := range c.args {
			x := unface(a)
			if x.typ == nil && !isAlloc(x) {
				continue
			}
			switch typOf(x).Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
			default:
				if !isAlloc(x) {
					continue
				}
			}
			for j, b := range c.args {
				if i != j {
					put(x, b)
				}
			}
		}
	}
	h.builtin = func(st *State, c *CallInfo, name string) {
		if (name == "copy" || name == "append") && len(c.args) > 1 {
			for _, a := range c.args[1:] {
				put(c.args[0], a)
			}
		}
	}
	return h
}

func onlyOne(st *State, n, idx *Term) bool {
	return st.same(toLin(n), linConst(1)) && st.same(toLin(idx), linConst(0))
}

func stripConv(v *Term) *Term {
	for v.op == "conv" {
		v = v.args[0]
	}
	return v
}

// single: v was read as the only element of a slice.
func (t *trace) single(st *State, v *Term) (bool, string) {
	v = stripConv(v)
	own, n, good := false, 0, 0
	why := ""
	for _, e := range t.indexed {
		if e.val == v && e.own {
			own = true
		}
	}
	for _, e := range t.indexed {
		if e.val != v || own && !e.own {
			continue
		}
		n++
		if e.only || onlyOne(st, e.n, e.idx) {
			good++
		} else {
			why = fmt.Sprintf("is one of %s values", e.n)
		}
	}
	if n == 0 {
		return false, fmt.Sprint("is ", v)
	}
	if own {
		return good == n, why
	}
	return good > 0, why
}

// sources calls f for every lookup and every parameter a value is computed from.
func (t *trace) sources(st *State, v *Term, f func(x *Term)) {
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		switch x.op {
		case "lookup", "mapel":
			f(x)
			return
		case "ver":
			return
		}
		for i, a := range x.args {
			if x.op == "make" && i == 1 {
				break // how many there are
			}
			walk(a)
		}
		if x.sym != nil {
			if x.sym.kind == "param" {
				f(x)
			}
			for _, a := range x.sym.args {
				walk(a)
			}
			for a := range x.sym.parents {
				walk(a)
			}
			for _, a := range t.src[x] {
				walk(a)
			}
			if st != nil && isAlloc(x) {
				for a, c := range st.mem {
					if addrRoot(a) == x {
						walk(c)
					}
				}
			}
		} else {
			for _, a := range t.src[x] {
				walk(a)
			}
		}
	}
	walk(v)
}

// pkgHeader describes the fields of the package header.
type pkgHeader struct {
	t        types.Type // the structure
	sig, gen string     // field ids
	ht       types.Type // pointer to one header
	entries  string
	et       *types.Map
	kind     int // field of an entry holding its type
	contents int
	count    int
}

func findPkgHeader(p *Program) *pkgHeader {
	for _, sp := range p.spkgs {
		o, ok := sp.Pkg.Scope().Lookup("RpmHeader").(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		h := &pkgHeader{t: o.Type()}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "sigHeader" {
				h.sig, h.ht = fieldID(o.Type(), i), s.Field(i).Type()
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if h.ht != nil && types.Identical(s.Field(i).Type(), h.ht) && s.Field(i).Name() != "sigHeader" {
				h.gen = fieldID(o.Type(), i)
			}
		}
		if h.ht == nil || h.gen == "" {
			return nil
		}
		hs, ok := derefIf(h.ht).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < hs.NumFields(); i++ {
			m, ok := hs.Field(i).Type().Underlying().(*types.Map)
			if !ok || hs.Field(i).Name() != "entries" {
				continue
			}
			es, ok := m.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			h.entries, h.et = fieldID(derefIf(h.ht), i), m
			for j := 0; j < es.NumFields(); j++ {
				switch es.Field(j).Name() {
				case "dataType":
					h.kind = j
				case "contents":
					h.contents = j
				case "count":
					h.count = j
				}
			}
		}
		if h.et == nil {
			return nil
		}
		return h
	}
	return nil
}

// area gives the entries of one of the two headers of a package header.
func (h *pkgHeader) area(st *State, hdr *Term, field string) *Term {
	x := st.load(fieldAddr(hdr, field, h.ht), h.ht)
	return st.load(fieldAddr(x, h.entries, h.et), h.et)
}

type tagRange struct {
	name   string
	lo, hi int64
	sig    bool
	off    int64
}

var tagRanges = []tagRange{
	{"below the general range", -1 << 31, 999, true, 0},
	{"general low", 1000, 1026, false, 0},
	{"general", 1028, 16383, false, 0},
	{"signature range", 16385, 17410, true, 16384},
	{"high signature range", 17412, 1 << 31, true, 16384},
}

var intTypes = []int64{1, 2, 3, 4, 5}
var intWidth = map[int64]int64{1: 1, 2: 1, 3: 2, 4: 4, 5: 8}

// typesFor: the stored types a query with this result must accept and those it must refuse.
func typesFor(t types.Type) (accept, refuse []int64) {
	all := []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	set := func(xs ...int64) map[int64]bool {
		m := map[int64]bool{}
		for _, x := range xs {
			m[x] = true
		}
		return m
	}
	var acc, either map[int64]bool
	e := t
	if isByteSlice(t) {
		acc = set(7)
	} else {
		if s, ok := t.Underlying().(*types.Slice); ok {
			e = s.Elem()
		}
		b, _ := e.Underlying().(*types.Basic)
		switch {
		case types.IsInterface(e):
			acc = set(1, 2, 3, 4, 5, 6, 7, 8, 9)
		case b == nil:
			return nil, nil
		case b.Info()&types.IsString != 0:
			acc = set(6, 8, 9)
		case b.Kind() == types.Uint64:
			acc = set(1, 2, 3, 4, 5)
		case b.Info()&types.IsInteger != 0:
			acc, either = set(1, 2, 3, 4), set(5)
		default:
			return nil, nil
		}
	}
	for _, k := range all {
		switch {
		case acc[k]:
			accept = append(accept, k)
		case either[k]:
		default:
			refuse = append(refuse, k)
		}
	}
	return
}

func isScalar(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

type queries struct {
	it   *Interp
	r    *Report
	h    *pkgHeader
	ints bool
	nst  map[string]bool
}

func tagHooks(it *Interp, r *Report, ints bool) []*Hooks {
	q := &queries{it: it, r: r, h: findPkgHeader(it.prog), ints: ints, nst: map[string]bool{}}
	for _, k := range it.prog.noSuchTagKeys() {
		q.nst[k] = true
	}
	h := &Hooks{}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		if q.h == nil || root.Signature.Recv() == nil || !types.Identical(derefIf(root.Signature.Recv().Type()), q.h.t) {
			return
		}
		s := st.clone()
		q.check(s, root, params)
	}
	if ints {
		n := newNarrow(it, r)
		n.hooks(h)
		r.finish = func() {
			n.finish()
			r.floor("conversion", 15)
			r.floor("decoding", 30)
		}
	} else {
		r.finish = func() {
			r.floor("lookup", 60)
			r.floor("absent", 30)
			r.floor("type", 60)
			r.floor("single", 8)
		}
	}
	return []*Hooks{h}
}

// noSuchTag: does the error certainly (all) or possibly (any) have the no-such-tag type?
func (q *queries) noSuchTag(st *State, e *Term) (all, any bool) {
	all = true
	n := 0
	var walk func(x *Term, depth int)
	seen := map[*Term]bool{}
	walk = func(x *Term, depth int) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.isNil() || st.nilness(x) == 1 {
			return
		}
		if x.op == "mkiface" {
			n++
			if q.nst[x.aux] {
				any = true
			} else {
				all = false
			}
			return
		}
		if x.sym != nil && x.sym.kind == "join" && len(x.sym.parents) > 0 && depth < 20 {
			for p := range x.sym.parents {
				walk(p, depth+1)
			}
			return
		}
		n++
		if x.sym != nil && x.sym.kind == "call" && x.sym.callee == "fmt.Errorf" {
			// wraps one only if it is formatted with %w
			f, ok := x.sym.args[0].strVal()
			if !ok || strings.Contains(f, "%w") {
				any = true
			}
		}
		all = false
	}
	walk(e, 0)
	if n == 0 {
		all = false
	}
	return
}

// tagExtras: other tags of the same header a query may consult for a given tag.
func (q *queries) splice(k int64) map[int64]bool {
	if k == q.tag("OLDFILENAMES") {
		return map[int64]bool{k: true, q.tag("DIRNAMES"): true, q.tag("DIRINDEXES"): true, q.tag("BASENAMES"): true}
	}
	return map[int64]bool{k: true}
}

func (q *queries) tag(name string) int64 {
	v, _ := q.it.prog.constIntOK(name)
	return v
}

func (q *queries) check(st0 *State, fn *ssa.Function, params []*Term) {
	sig := fn.Signature
	name := shortName(fn.String())
	var tags []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		if b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			tags = append(tags, params[i+1])
		} else {
			return
		}
	}
	res := sig.Results()
	isBool := res.Len() == 1 && types.Identical(res.At(0).Type(), types.Typ[types.Bool])
	hasErr := res.Len() == 2 && isErrorType(res.At(1).Type())
	hdr := params[0]
	st0.assume(mkEq(hdr, nilTerm), false)
	mapOf := func(st *State, sig bool) *Term {
		if sig {
			return q.h.area(st, hdr, q.h.sig)
		}
		return q.h.area(st, hdr, q.h.gen)
	}
	fix := func(tag *Term, rg tagRange) (*State, *Term, *Term) {
		st := st0.clone()
		st.assume(mkLe0(linConst(rg.lo).sub(linTerm(tag))), true)
		st.assume(mkLe0(linTerm(tag).plus(-rg.hi)), true)
		key := fromLin(linTerm(tag).plus(-rg.off), types.Typ[types.Int])
		return st, mapOf(st, rg.sig), key
	}
	switch {
	case len(tags) == 1 && (isBool || hasErr):
		for _, rg := range tagRanges {
			st, m, key := fix(tags[0], rg)
			q.one(st, fn, params, name+", tag "+rg.name, []*Term{m}, []*Term{key}, rg.name == "general")
		}
		old := q.tag("OLDFILENAMES")
		st := st0.clone()
		st.assume(mkEq(tags[0], mkInt(old)), true)
		q.spliced(st, fn, append([]*Term{hdr}, mkInt(old)), name, mapOf(st, false))
	case len(tags) == 2 && hasErr:
		// the second tag is preferred
		for _, a := range tagRanges[1:] {
			for _, b := range tagRanges[1:] {
				st, m1, k1 := fix(tags[0], a)
				st.assume(mkLe0(linConst(b.lo).sub(linTerm(tags[1]))), true)
				st.assume(mkLe0(linTerm(tags[1]).plus(-b.hi)), true)
				m2 := mapOf(st, b.sig)
				k2 := fromLin(linTerm(tags[1]).plus(-b.off), types.Typ[types.Int])
				q.one(st, fn, params, name+", tags "+a.name+" and "+b.name, []*Term{m2, m1}, []*Term{k2, k1}, a.name == "general" && b.name == "general")
			}
		}
	case len(tags) == 0 && hasErr:
		switch fn.Name() {
		case "InstalledSize":
			g := mapOf(st0, false)
			q.one(st0.clone(), fn, params, name, []*Term{g, g}, []*Term{mkInt(q.tag("LONGSIZE")), mkInt(q.tag("SIZE"))}, true)
		case "PayloadSize":
			g := mapOf(st0, true)
			q.one(st0.clone(), fn, params, name, []*Term{g, g}, []*Term{mkInt(q.tag("SIG_LONGARCHIVESIZE")), mkInt(q.tag("SIG_PAYLOADSIZE") - 16384)}, true)
		}
	}
}

// present puts the presence and type of a tag into a state.
func (q *queries) present(st *State, m, key *Term, yes bool, kind int64) (val *Term) {
	val, has := q.it.mapGet(st, m, key, q.h.et, q.h.et.Elem())
	st.assume(has, yes)
	if yes {
		dt := projField(val, q.h.et.Elem(), q.h.kind)
		st.assume(mkEq(dt, mkInt(kind)), true)
	}
	return val
}

func (q *queries) eval(st *State, fn *ssa.Function, args []*Term, extra ...*Hooks) (*trace, []*Exit) {
	t := newTrace(q.it)
	t.fn = fn
	ex := q.it.evalWith(append([]*Hooks{t.hooks()}, extra...), st, fn, args)
	return t, ex
}

// one checks a query whose value comes from the first of the given tags that is present.
func (q *queries) one(st0 *State, fn *ssa.Function, params []*Term, what string, ms, ks []*Term, full bool) {
	res := fn.Signature.Results()
	isBool := res.Len() == 1
	rt := res.At(0).Type()
	accept, refuse := typesFor(rt)
	if len(ms) == 2 && !isSliceT(rt) {
		// sizes
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
			accept, refuse = []int64{1, 2, 3, 4, 5}, []int64{0, 6, 7, 8, 9, 10}
		}
	}
	pos := func(format string, args ...any) func() Finding {
		return func() Finding {
			f := q.r.at(nil, "%s", fmt.Sprintf(format, args...))
			f.Fn = shortName(fn.String())
			f.Pos = q.it.prog.fset.Position(fn.Pos()).String()
			return f
		}
	}
	allowed := func(t *trace, in string) {
		for _, l := range t.lookups {
			if l.m.typ == nil || !types.Identical(l.m.typ, q.h.et) {
				continue
			}
			ok := false
			for i := range ms {
				if l.m == ms[i] && (l.k == ks[i] || st0.same(toLin(l.k), toLin(ks[i]))) {
					ok = true
				}
			}
			if !q.ints {
				q.r.item("lookup", what, ok, func() Finding {
					return q.r.at(l.in, "%s: looks up tag %s of %s, not %s of %s", what, l.k, l.m, ks[0], ms[0])
				})
			}
		}
	}
	// absent
	{
		st := st0.clone()
		for i := range ms {
			q.present(st, ms[i], ks[i], false, 0)
		}
		t, ex := q.eval(st, fn, params)
		allowed(t, "absent")
		for _, e := range ex {
			if q.ints {
				break
			}
			if isBool {
				v, known := e.st.decide(e.res[0])
				q.r.item("absent", what, known && !v, pos("%s: an absent tag is not reported as absent", what))
				continue
			}
			all, _ := q.noSuchTag(e.st, e.res[1])
			q.r.item("absent", what, e.st.nilness(e.res[1]) == 2 && all, pos("%s: when the tag is absent the error is %s, not the no-such-tag error", what, e.res[1]))
		}
		if len(ex) == 0 && !q.ints {
			q.r.item("absent", what, false, pos("%s: no result when the tag is absent", what))
		}
	}
	which := len(ms)
	for first := 0; first < which; first++ {
		for _, k := range append(append([]int64(nil), accept...), refuse...) {
			if !full && k != accept[0] {
				continue
			}
			if q.ints && intWidth[k] == 0 {
				continue
			}
			st := st0.clone()
			var val *Term
			bad := false
			for i := range ms {
				if i < first {
					q.present(st, ms[i], ks[i], false, 0)
				} else if i == first {
					val = q.present(st, ms[i], ks[i], true, k)
				}
			}
			if bad {
				continue
			}
			ok := containsInt(accept, k)
			label := fmt.Sprintf("%s, stored type %d", what, k)
			if which > 1 {
				label += fmt.Sprintf(", alternative %d", first)
			}
			contents := projField(val, q.h.et.Elem(), q.h.contents)
			var extra []*Hooks
			var dec *decoding
			if q.ints {
				dec = &decoding{q: q, label: label, kind: k, contents: contents, bufs: map[*Term]*Term{}}
				extra = append(extra, dec.hooks())
			}
			t, ex := q.eval(st, fn, params, extra...)
			allowed(t, label)
			if isBool {
				for _, e := range ex {
					v, known := e.st.decide(e.res[0])
					if !q.ints {
						q.r.item("type", label, known && v, pos("%s: a present tag is not reported as present", label))
					}
				}
				continue
			}
			good := 0
			for _, e := range ex {
				if e.st.nilness(e.res[1]) == 2 {
					_, any := q.noSuchTag(e.st, e.res[1])
					if !q.ints {
						q.r.item("absent", label, !any, pos("%s: a tag that is present may be reported as absent", label))
					}
					continue
				}
				good++
				if q.ints {
					dec.result(e, fn, rt)
					continue
				}
				if !ok {
					continue
				}
				// computed from that entry alone
				n, foreign := 0, ""
				t.sources(e.st, e.res[0], func(x *Term) {
					if x.op != "lookup" || !types.Identical(x.args[0].typ, q.h.et) {
						return
					}
					if x.args[0] == ms[first] && st0.same(toLin(x.args[1]), toLin(ks[first])) {
						n++
					} else {
						foreign = x.String()
					}
				})
				q.r.item("value", label, n > 0 && foreign == "", pos("%s: the result %s is not computed from that entry alone %s", label, e.res[0], foreign))
				if isByteSlice(rt) {
					q.r.item("value", label, e.res[0] == contents || t.copyOf(e.st, e.res[0], contents), pos("%s: the result is %s, not the entry's contents", label, e.res[0]))
				}
				if b, isB := rt.Underlying().(*types.Basic); isB && b.Info()&(types.IsInteger|types.IsString) != 0 {
					one, why := t.single(e.st, e.res[0])
					q.r.item("single", label, one, pos("%s: the single value %s, which is not known to be the only one", label, why))
				}
			}
			if !q.ints {
				if ok {
					q.r.item("type", label, good > 0, pos("%s: a value of stored type %d is never returned", label, k))
				} else {
					q.r.item("type", label, good == 0, pos("%s: a value of stored type %d is not refused", label, k))
				}
			}
		}
	}
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func containsInt(xs []int64, x int64) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// copyOf: v is a fresh slice into which exactly c was put.
func (t *trace) copyOf(st *State, v, c *Term) bool {
	r := addrRoot(v)
	if r != c && !isAlloc(r) && r.op != "make" && r.sym == nil {
		return false
	}
	hit := false
	for _, s := range t.src[r] {
		if s == c || s.contains(c) {
			hit = true
		}
	}
	if r.sym != nil {
		for _, a := range r.sym.args {
			if a == c || a.contains(c) {
				hit = true
			}
		}
	}
	return hit && st.same(toLin(mkLen(v)), toLin(mkLen(c)))
}

// spliced: paths assembled from directory and base names come from the general header.
func (q *queries) spliced(st *State, fn *ssa.Function, params []*Term, what string, m *Term) {
	if q.ints {
		return
	}
	old := q.tag("OLDFILENAMES")
	ok := q.splice(old)
	t, ex := q.eval(st, fn, params)
	for _, l := range t.lookups {
		if !types.Identical(l.m.typ, q.h.et) {
			continue
		}
		k, isC := l.k.intVal()
		q.r.item("lookup", what+", file names", isC && ok[k] && l.m == m, func() Finding {
			return q.r.at(l.in, "%s of file names looks up tag %s of %s", what, l.k, l.m)
		})
	}
	_ = ex
}

// ---- decoding of integers (C07) ----

type decoding struct {
	q        *queries
	label    string
	kind     int64
	contents *Term
	bufs     map[*Term]*Term // decoded buffer -> contents
}

func (d *decoding) over(x *Term) bool {
	// a reader or slice over the entry's contents
	hit := false
	var walk func(y *Term)
	seen := map[*Term]bool{}
	walk = func(y *Term) {
		if y == nil || seen[y] {
			return
		}
		seen[y] = true
		if y == d.contents {
			hit = true
			return
		}
		for _, a := range y.args {
			walk(a)
		}
		if y.sym != nil {
			for _, a := range y.sym.args {
				walk(a)
			}
			for p := range y.sym.parents {
				walk(p)
			}
		}
	}
	walk(x)
	return hit
}

func (d *decoding) item(key string, ok bool, in ssa.Instruction, format string, args ...any) {
	d.q.r.item("decoding", d.label+" "+key, ok, func() Finding {
		return d.q.r.at(in, "%s: %s", d.label, fmt.Sprintf(format, args...))
	})
}

func (d *decoding) hooks() *Hooks {
	h := &Hooks{}
	w := intWidth[d.kind]
	h.after = func(st *State, c *CallInfo) {
		switch {
		case c.name == "encoding/binary.Read":
			if !d.over(c.args[0]) {
				return
			}
			d.item("order", strings.Contains(c.args[1].String(), "BigEndian") || strings.Contains(strings.ToLower(c.args[1].String()), "bigendian"), c.instr, "decoded with byte order %s", c.args[1])
			dst := c.args[2]
			t := typOf(unface(dst))
			if dst.op == "mkiface" {
				t = d.q.it.typeByKey[dst.aux]
			}
			if t == nil {
				d.item("width", false, c.instr, "decoded into a value of unknown type")
				return
			}
			t = derefIf(t)
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			}
			b, _ := t.Underlying().(*types.Basic)
			d.item("width", b != nil && packedSize(t) == w, c.instr, "a value of %d bytes is decoded as %s", w, t)
			d.item("sign", b != nil && (b.Info()&types.IsUnsigned != 0), c.instr, "an unsigned value is decoded as %s", t)
			buf := unface(dst)
			if isSliceT(typOf(buf)) {
				d.bufs[addrRoot(buf)] = buf
				n := mkLen(buf)
				d.item("number", d.counts(st, n, w), c.instr, "%s values of %d bytes are decoded from %s bytes", n, w, mkLen(d.contents))
			}
		case strings.HasPrefix(c.name, "(encoding/binary.") && strings.Contains(c.name, ").Uint"):
			if len(c.args) < 2 || !d.over(c.args[len(c.args)-1]) {
				return
			}
			d.item("order", strings.Contains(strings.ToLower(c.name), "bigendian"), c.instr, "decoded with %s", c.name)
			d.item("width", strings.HasSuffix(c.name, fmt.Sprintf("Uint%d", w*8)), c.instr, "a value of %d bytes is decoded with %s", w, c.name)
		}
	}
	h.store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != "elemaddr" || val == nil {
			return
		}
		v := val
		for v.op == "conv" {
			v = v.args[0]
		}
		if v.op != "ld" || v.args[0].op != "elemaddr" {
			return
		}
		if d.bufs[addrRoot(v.args[0])] == nil || d.bufs[addrRoot(addr)] != nil {
			return
		}
		d.item("index", st.same(toLin(addr.args[1]), toLin(v.args[0].args[1])), in, "element %s is taken from element %s", addr.args[1], v.args[0].args[1])
		d.item("value", v == val, in, "element is changed by a conversion: %s", val)
	}
	return h
}

// counts: n is the number of values of w bytes in the contents.
func (d *decoding) counts(st *State, n *Term, w int64) bool {
	l := toLin(mkLen(d.contents))
	if w == 1 && st.same(toLin(n), l) {
		return true
	}
	for n.op == "conv" {
		n = n.args[0]
	}
	if n.op == "shr" || n.op == "quo" {
		c, ok := n.args[1].intVal()
		if n.op == "shr" && c < 32 {
			c = 1 << uint(c)
		}
		return ok && c == w && st.same(toLin(n.args[0]), l)
	}
	if st.same(toLin(n), l) {
		return w == 1
	}
	// the stored count
	return n.op == "field" && strings.Contains(n.aux, "count") && d.contents.op == "field" && n.args[0] == d.contents.args[0]
}

func (d *decoding) result(e *Exit, fn *ssa.Function, rt types.Type) {
	if !isSliceT(rt) {
		return
	}
	root := addrRoot(e.res[0])
	if d.bufs[root] != nil {
		d.item("result", e.st.same(toLin(mkLen(e.res[0])), toLin(mkLen(d.bufs[root]))), e.ret, "only some of the decoded values are returned")
		return
	}
	for _, b := range sortedBufs(d.bufs) {
		if e.st.same(toLin(mkLen(e.res[0])), toLin(mkLen(b))) {
			d.item("result", true, e.ret, "")
			return
		}
	}
	if len(d.bufs) > 0 {
		d.item("result", false, e.ret, "%s values are returned, not as many as were decoded", mkLen(e.res[0]))
	}
}

func sortedBufs(m map[*Term]*Term) []*Term {
	var r []*Term
	for _, b := range m {
		r = append(r, b)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// ---- conversions ----

// narrow checks that integer conversions keep the value.
type narrow struct {
	it        *Interp
	r         *Report
	fields    map[string]*fieldFits               // conversions of fields that need a bound on what is stored
	pending   map[*ssa.Convert]bool               // conversions whose result must be checked before it is used
	unfit     map[*Term]map[*Term]ssa.Instruction // new object -> fields holding a value not known to fit
	published map[*Term]bool
}

type fieldFits struct {
	needed   bool
	in       ssa.Instruction
	from, to types.Type
	ok       bool
	badAt    Finding
	stores   int
}

func newNarrow(it *Interp, r *Report) *narrow {
	return &narrow{it: it, r: r, fields: map[string]*fieldFits{}, pending: map[*ssa.Convert]bool{}, unfit: map[*Term]map[*Term]ssa.Instruction{}, published: map[*Term]bool{}}
}

func (n *narrow) hooks(h *Hooks) {
	h.convert, h.store, h.instr = n.convert, n.store, n.use
	h.after = func(st *State, c *CallInfo) { n.publish(st, c.args...) }
	h.builtin = func(st *State, c *CallInfo, name string) { n.publish(st, c.args...) }
	h.fnret = func(st *State, fr *Frame, res []*Term, in *ssa.Return) { n.publish(st, res...) }
	h.mapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) { n.publish(st, k, v) }
}

func (n *narrow) field(id string) *fieldFits {
	f := n.fields[id]
	if f == nil {
		f = &fieldFits{ok: true}
		n.fields[id] = f
	}
	return f
}

func (n *narrow) convert(st *State, from, to types.Type, x, res *Term, in *ssa.Convert) {
	if !isInteger(from) || !isInteger(to) || x.op == "const" {
		return
	}
	key := fnID(in.Parent()) + " " + instrKey(in)
	if res.op != "conv" {
		n.r.item("conversion", key, true, nil)
		return
	}
	if x.op == "ld" && x.args[0].op == "fld" && isUint64(from) && !isUint64(to) {
		f := n.field(x.args[0].aux)
		f.needed, f.in, f.from, f.to = true, in, from, to
		return
	}
	if isUint64(from) && isInt64(to) {
		// its sign tells whether the value was kept
		n.pending[in] = true
		return
	}
	n.bad(in, x)
}

func (n *narrow) bad(in *ssa.Convert, x *Term) {
	n.r.item("conversion", fnID(in.Parent())+" "+instrKey(in), false, func() Finding {
		return n.r.at(in, "conversion from %s to %s may change the value of %s", in.X.Type(), in.Type(), x)
	})
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int64 || b.Kind() == types.Int)
}

// use: the result of a pending conversion may be compared, and used once it is known not to be negative.
func (n *narrow) use(st *State, in ssa.Instruction) {
	if len(n.pending) == 0 {
		return
	}
	if b, ok := in.(*ssa.BinOp); ok && isComparison(b.Op) {
		return
	}
	if _, ok := in.(*ssa.DebugRef); ok {
		return
	}
	var buf [8]*ssa.Value
	for _, o := range in.Operands(buf[:0]) {
		if c, ok := (*o).(*ssa.Convert); ok && n.pending[c] {
			v := st.env[c]
			if v != nil && v.op == "conv" && !st.proveLin(linConst(0).sub(toLin(v))) {
				n.bad(c, v.args[0])
			} else {
				n.r.item("conversion", fnID(c.Parent())+" "+instrKey(c), true, nil)
			}
		}
	}
}

func isComparison(op token.Token) bool {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return true
	}
	return false
}

func (n *narrow) fits(st *State, val *Term) bool {
	return st.atMostMaxInt64(val) || val.op == "const" || !isUint64(typOf(val)) || st.proveLin(toLin(val).plus(-fitLimit))
}

func (n *narrow) store(st *State, addr, val *Term, in ssa.Instruction) {
	n.publish(st, val)
	if addr.op != "fld" || val == nil || val.typ == nil && val.op != "const" || !isIntTerm(val) {
		return
	}
	f := n.field(addr.aux)
	f.stores++
	if n.fits(st, val) {
		return
	}
	if r := addrRoot(addr); isAlloc(r) && !n.published[r] {
		// may still be checked before the object is used
		if n.unfit[r] == nil {
			n.unfit[r] = map[*Term]ssa.Instruction{}
		}
		n.unfit[r][addr] = in
		return
	}
	n.misfit(f, in, val)
}

func (n *narrow) misfit(f *fieldFits, in ssa.Instruction, val *Term) {
	if f.ok {
		f.ok = false
		f.badAt = n.r.at(in, "the stored value %s may be too large for the signed type it is later reported as", val)
	}
}

// publish: objects become reachable from elsewhere.
func (n *narrow) publish(st *State, vs ...*Term) {
	for _, v := range vs {
		if v == nil {
			continue
		}
		r := addrRoot(unface(v))
		if !isAlloc(r) {
			continue
		}
		n.published[r] = true
		for a, in := range n.unfit[r] {
			if val := st.load(a, derefIf(a.typ)); !n.fits(st, val) {
				n.misfit(n.field(a.aux), in, val)
			}
		}
	}
}

func (n *narrow) finish() {
	var ids []string
	for id := range n.fields {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		f := n.fields[id]
		if f.needed {
			n.r.item("conversion", "field "+id, f.ok && f.stores > 0, func() Finding {
				if !f.ok {
					return f.badAt
				}
				return n.r.at(f.in, "conversion from %s to %s may change the value", f.from, f.to)
			})
		}
	}
}
