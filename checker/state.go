package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame identifies a calling context: a function reached through a chain of call sites (and, for
// loops with a constant trip count, the iteration).
type Frame struct {
	id     string
	fn     *ssa.Function
	parent *Frame
	call   ssa.Instruction // call site in parent
	unroll *Frame          // for unrolled iterations: the frame they belong to
	depth  int
}

var frameTab = map[string]*Frame{}

func mkFrame(parent *Frame, call ssa.Instruction, fn *ssa.Function, extra string) *Frame {
	id := ""
	if parent != nil {
		id = parent.id + "/"
	}
	id += fnID(fn)
	if call != nil {
		id += "@" + instrKey(call)
	}
	id += extra
	if f, ok := frameTab[id]; ok {
		return f
	}
	f := &Frame{id: id, fn: fn, parent: parent, call: call}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	frameTab[id] = f
	return f
}

// base strips unrolling tags.
func (f *Frame) base() *Frame {
	for f.unroll != nil {
		f = f.unroll
	}
	return f
}

func fnID(fn *ssa.Function) string {
	return fn.String()
}

var instrKeys = map[ssa.Instruction]string{}

func instrKey(in ssa.Instruction) string {
	if k, ok := instrKeys[in]; ok {
		return k
	}
	k := ""
	if b := in.Block(); b != nil {
		for i, x := range b.Instrs {
			if x == in {
				k = fmt.Sprintf("%d.%d", b.Index, i)
				break
			}
		}
	}
	instrKeys[in] = k
	return k
}

// May is a fact that may hold on some path to this point (for instance: a failure of a call that
// nobody has looked at yet). Terms are aliases of the value the fact is about.
type May struct {
	kind     string
	site     string
	instr    ssa.Instruction
	frame    *Frame
	terms    map[*Term]bool
	note     string
	external bool
}

func (m *May) key() string {
	ids := make([]int, 0, len(m.terms))
	for t := range m.terms {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	return fmt.Sprintf("%s|%s|%v", m.kind, m.site, ids)
}

func (m *May) clone() *May {
	n := *m
	n.terms = map[*Term]bool{}
	for t := range m.terms {
		n.terms[t] = true
	}
	return &n
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
	frame *Frame
}

type State struct {
	it     *Interp
	ctx    *Frame
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	ver    map[string]*Term
	truth  map[*Term]bool
	lin    *LinSet
	may    map[string]*May
	defers []*deferred
}

func newState(it *Interp) *State {
	return &State{it: it, env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, ver: map[string]*Term{},
		truth: map[*Term]bool{}, lin: newLinSet(), may: map[string]*May{}}
}

func (st *State) clone() *State {
	n := &State{it: st.it, ctx: st.ctx,
		env: make(map[ssa.Value]*Term, len(st.env)+8), mem: make(map[*Term]*Term, len(st.mem)+8),
		ver: make(map[string]*Term, len(st.ver)), truth: make(map[*Term]bool, len(st.truth)+8),
		lin: st.lin.clone(), may: make(map[string]*May, len(st.may)), defers: append([]*deferred(nil), st.defers...)}
	for k, v := range st.env {
		n.env[k] = v
	}
	for k, v := range st.mem {
		n.mem[k] = v
	}
	for k, v := range st.ver {
		n.ver[k] = v
	}
	for k, v := range st.truth {
		n.truth[k] = v
	}
	for k, v := range st.may {
		n.may[k] = v
	}
	return n
}

// ---- facts ----

func fact(name, aux string, args ...*Term) *Term {
	return app("F:"+name, aux, types.Typ[types.Bool], args...)
}

func (st *State) setFact(f *Term)      { st.truth[f] = true }
func (st *State) clearFact(f *Term)    { delete(st.truth, f) }
func (st *State) hasFact(f *Term) bool { return st.truth[f] }

func (st *State) factsNamed(name string) []*Term {
	var r []*Term
	for t, v := range st.truth {
		if v && t.op == "F:"+name {
			r = append(r, t)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (st *State) addMay(m *May) { st.may[m.key()] = m }

func (st *State) maysSorted() []*May {
	ks := make([]string, 0, len(st.may))
	for k := range st.may {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := make([]*May, 0, len(ks))
	for _, k := range ks {
		r = append(r, st.may[k])
	}
	return r
}

// ---- boolean terms ----

func mkNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return mkBool(!b)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return app("not", "", types.Typ[types.Bool], t)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if a.op == "const" && b.op == "const" {
		if a.val.Kind() == b.val.Kind() {
			return mkBool(constant.Compare(a.val, token.EQL, b.val))
		}
		return mkBool(false)
	}
	// comparisons with booleans
	for i, x := range []*Term{a, b} {
		if v, ok := x.boolVal(); ok {
			y := []*Term{b, a}[i]
			if v {
				return y
			}
			return mkNot(y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("eq", "", types.Typ[types.Bool], a, b)
}

// le0 is the atom l <= 0.
func mkLe0(l Lin) *Term {
	if len(l.ps) == 0 {
		return mkBool(l.c <= 0)
	}
	l = l.normalise()
	return app("le0", "", types.Typ[types.Bool], fromLin(l, types.Typ[types.Int]))
}

// nilness: 1 nil, 2 non-nil, 0 unknown
func (st *State) nilness(t *Term) int {
	switch t.op {
	case "nil":
		return 1
	case "closure", "func", "fld", "arr", "list", "elemaddr", "unboxptr":
		return 2
	case "mkiface":
		return 2 // an interface holding a typed value is never the nil interface
	case "const", "struct":
		return 2
	case "make", "makemap", "makechan":
		return 2
	case "slice":
		// slicing a non-nil base gives non-nil; x[:0] of nil is nil
		n := st.nilness(t.args[0])
		return n
	case "append":
		if n := toLin(t.args[1]); len(n.ps) == 0 && n.c > 0 {
			return 2
		}
		if st.nilness(t.args[0]) == 2 {
			return 2
		}
	case "gval":
		return 2
	case "sym":
		if t.sym.kind == "alloc" || t.sym.kind == "global" {
			return 2
		}
	}
	if v, ok := st.truth[mkEq(t, nilTerm)]; ok {
		if v {
			return 1
		}
		return 2
	}
	if t.op == "ld" || t.op == "field" || t.op == "unbox" {
		if st.it.invNonNil(t) {
			return 2
		}
	}
	if t.op == "unbox" {
		if st.it.invNonNil(t.args[0]) || st.nilness(t.args[0]) == 2 && !st.it.inv.notNonNil["i:"+t.aux] {
			return 2
		}
	}
	return 0
}

// decide evaluates a boolean term in the state.
func (st *State) decide(t *Term) (val, known bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if v, ok := st.truth[t]; ok {
		return v, true
	}
	if len(st.it.pins) > 0 && (t.op == "call" || t.op == "hasprefix") {
		if v, ok := st.it.pinned(t, mkBool(true)); ok {
			return v, true
		}
	}
	switch t.op {
	case "not":
		v, ok := st.decide(t.args[0])
		return !v, ok
	case "le0":
		l := toLin(t.args[0])
		if st.proveLin(l) {
			return true, true
		}
		if st.proveLin(l.neg().plus(1)) {
			return false, true
		}
	case "call":
		if t.aux == "(time.Time).IsZero#0" && t.args[0].typ != nil && t.args[0] == zeroTerm(t.args[0].typ) {
			return true, true
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		if a.isNil() || b.isNil() {
			x := a
			if a.isNil() {
				x = b
			}
			switch st.nilness(x) {
			case 1:
				return true, true
			case 2:
				return false, true
			}
			return false, false
		}
		if len(st.it.pins) > 0 {
			for i := 0; i < 2; i++ {
				if b.op == "const" && a.op != "const" {
					if val, known := st.it.pinned(a, b); known {
						return val, true
					}
				}
				a, b = b, a
			}
		}
		if a.op == "lin" || b.op == "lin" || isIntTerm(a) || isIntTerm(b) {
			d := toLin(a).sub(toLin(b))
			if st.proveLin(d.plus(1)) || st.proveLin(d.neg().plus(1)) {
				return false, true
			}
			if st.proveLin(d) && st.proveLin(d.neg()) {
				return true, true
			}
			return false, false
		}
		// through known equalities with constants
		if ca, cb := st.constOf(a), st.constOf(b); ca != nil && cb != nil {
			return ca == cb, true
		}
		na, nb := st.nilness(a), st.nilness(b)
		if na != 0 && nb != 0 && na != nb {
			return false, true
		}
		if a.op == "mkiface" && b.op == "mkiface" && a.aux != b.aux {
			return false, true
		}
		if a.op == "gval" && b.op == "gval" {
			return false, true // different sentinels (a==b was handled)
		}
		if a.op == "sym" && b.op == "sym" && a.sym.kind == "alloc" && b.sym.kind == "alloc" {
			return false, true
		}
		if st.freshErr(a) && b.op == "gval" || st.freshErr(b) && a.op == "gval" {
			return false, true
		}
		if a.op == "mkiface" && b.op == "gval" || b.op == "mkiface" && a.op == "gval" {
			return false, true
		}
	case "typeis":
		x := t.args[0]
		if x.op == "mkiface" {
			return st.it.typeIs(x, t.aux), true
		}
		if st.nilness(x) == 1 {
			return false, true
		}
		if x.op == "gval" {
			return false, true
		}
		if st.it.ifaceKeys[t.aux] && st.nilness(x) == 2 {
			if i, ok := st.it.typeByKey[t.aux].Underlying().(*types.Interface); ok && staticallyImplements(x, i, map[*Term]bool{}) {
				return true, true
			}
		}
		if x.sym != nil && x.sym.kind == "call" && (x.sym.callee == "fmt.Errorf" || x.sym.callee == "errors.New") && !st.it.ifaceKeys[t.aux] && !strings.HasPrefix(t.aux, "*fmt.") && !strings.HasPrefix(t.aux, "*errors.") {
			return false, true
		}
		for _, f := range st.typeFacts(x) {
			if f.op == "typeis" && f != t && !st.it.ifaceKeys[f.aux] && !st.it.ifaceKeys[t.aux] {
				return false, true // already known to be of another concrete type
			}
		}
		if k := st.it.dynTypes(x); k != nil {
			any, all := false, true
			for _, d := range k {
				if st.it.typeIs(d, t.aux) {
					any = true
				} else {
					all = false
				}
			}
			if !any {
				return false, true
			}
			if all && st.nilness(x) == 2 {
				return true, true
			}
		}
	case "has":
		m := t.args[0]
		if st.nilness(m) == 1 {
			return false, true
		}
	case "hashavail":
		if st.it.hashLinked(st, t.args[0]) {
			return true, true
		}
	}
	return false, false
}

func (st *State) typeFacts(x *Term) []*Term {
	var r []*Term
	for t, v := range st.truth {
		if v && t.op == "typeis" && t.args[0] == x {
			r = append(r, t)
		}
	}
	return r
}

// freshErr: an error value created by errors.New / fmt.Errorf during the call (distinct from every
// package level sentinel).
func (st *State) freshErr(t *Term) bool {
	if t.op != "sym" || t.sym.kind != "call" {
		return false
	}
	switch t.sym.callee {
	case "errors.New", "fmt.Errorf":
		return true
	}
	return false
}

func isIntTerm(t *Term) bool {
	if t.op == "const" {
		return t.val.Kind() == constant.Int
	}
	return t.typ != nil && isInteger(t.typ)
}

// constOf finds the constant a term is known to be equal to.
// pin: an assumption about a value of the input, which does not change while it is used.
type pin struct {
	val *Term
	is  *Term   // the value
	not []*Term // or values it does not have
}

func (it *Interp) pinned(x, c *Term) (val, known bool) {
	for _, p := range it.pins {
		if !sameShape(p.val, x) {
			continue
		}
		if p.is != nil {
			return p.is == c, true
		}
		for _, n := range p.not {
			if n == c {
				return false, true
			}
		}
	}
	return false, false
}

// sameShape: equal up to the versions of the memory read.
func sameShape(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op || a.aux != b.aux || len(a.args) != len(b.args) || a.sym != nil || a.op == "const" {
		return false
	}
	n := len(a.args)
	if a.op == "ld" {
		n = 1
	}
	for i := 0; i < n; i++ {
		if a.op == "bytesof" && i == 1 {
			continue
		}
		if !sameShape(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func (st *State) constOf(t *Term) *Term {
	if t.op == "const" || t.isNil() {
		return t
	}
	for _, p := range st.it.pins {
		if p.is != nil && sameShape(p.val, t) {
			return p.is
		}
	}
	if isIntTerm(t) {
		// c <= t <= c
		up, okU := st.lin.m[linTerm(t).vecKey()]
		lo, okL := st.lin.m[linTerm(t).neg().vecKey()]
		if okU && okL && -up.c == lo.c {
			return mkInt(lo.c)
		}
		return nil
	}
	for f, v := range st.truth {
		if v && f.op == "eq" {
			if f.args[0] == t && f.args[1].op == "const" {
				return f.args[1]
			}
			if f.args[1] == t && f.args[0].op == "const" {
				return f.args[0]
			}
		}
	}
	return nil
}

// assume refines the state with t == val; false when that is impossible.
func (st *State) assume(t *Term, val bool) bool {
	if v, ok := st.decide(t); ok {
		if v != val {
			return false
		}
		if t.op == "const" {
			return true
		}
	}
	switch t.op {
	case "not":
		return st.assume(t.args[0], !val)
	case "le0":
		l := toLin(t.args[0])
		if !val {
			l = l.neg().plus(1)
		}
		if !st.addLin(l) {
			return false
		}
		if len(l.ps) == 1 {
			x := l.ps[0].t
			if x.op == "conv" && l.ps[0].k == -1 && l.c >= 0 {
				if isUint64(typOf(x.args[0])) {
					st.truth[app("fitsint64", "", types.Typ[types.Bool], x.args[0])] = true
				}
			}
		}
	case "eq":
		a, b := t.args[0], t.args[1]
		if isIntTerm(a) || isIntTerm(b) {
			if val {
				if !st.addEq(a, b) {
					return false
				}
			} else {
				// sharpen: a != b with a <= b known gives a < b
				d := toLin(a).sub(toLin(b))
				if st.proveLin(d) {
					st.lin.add(d.plus(1))
				} else if st.proveLin(d.neg()) {
					st.lin.add(d.neg().plus(1))
				}
			}
		} else if a.isNil() || b.isNil() {
			x := a
			if a.isNil() {
				x = b
			}
			if val && x.typ != nil {
				switch x.typ.Underlying().(type) {
				case *types.Slice, *types.Map:
					st.lin.add(toLin(mkLen(x)))
				}
			}
		}
	}
	st.truth[t] = val
	return st.it.assumed(st, t, val)
}

func typOf(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

// ---- memory ----

// heapClass names the part of the heap an address belongs to; two addresses of different classes
// never alias.
func heapClass(addr *Term) string {
	switch addr.op {
	case "fld":
		return "f:" + addr.aux
	case "elemaddr":
		return "e:" + typeKey(addr.typ)
	}
	if addr.sym != nil && addr.sym.kind == "global" {
		return "g:" + addr.sym.name
	}
	return "p:" + typeKey(addr.typ)
}

func (st *State) version(class string) *Term {
	if v, ok := st.ver[class]; ok {
		return v
	}
	return mkSym("ver", class, nil, nil, nil)
}

// root of an address
func addrRoot(a *Term) *Term {
	for {
		switch a.op {
		case "fld", "elemaddr", "slice", "arr":
			a = a.args[0]
			continue
		}
		return a
	}
}

func isAlloc(t *Term) bool  { return t.op == "sym" && t.sym.kind == "alloc" }
func isGlobal(t *Term) bool { return t.op == "sym" && t.sym.kind == "global" }

// mayAlias decides whether two addresses of the same class may be the same location.
func (st *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := addrRoot(a), addrRoot(b)
	fresh := func(t *Term) bool {
		return t.op == "make" || isAlloc(t)
	}
	if ra != rb {
		if (fresh(ra) || isGlobal(ra)) && (fresh(rb) || isGlobal(rb)) {
			return false
		}
		if fresh(ra) && !st.escaped(ra) && !st.derived(rb, ra) {
			return false
		}
		if fresh(rb) && !st.escaped(rb) && !st.derived(ra, rb) {
			return false
		}
		return true
	}
	if a.op == "fld" && b.op == "fld" && a.aux == b.aux {
		return st.mayAlias(a.args[0], b.args[0])
	}
	if a.op == "elemaddr" && b.op == "elemaddr" && a.args[0] == b.args[0] {
		d := toLin(a.args[1]).sub(toLin(b.args[1]))
		if st.proveLin(d.plus(1)) || st.proveLin(d.neg().plus(1)) {
			return false
		}
	}
	if a.op == "elemaddr" && b.op == "elemaddr" && a.args[0] != b.args[0] && a.args[0].op == b.args[0].op && (a.args[0].op == "elemaddr" || a.args[0].op == "fld") {
		// elements of arrays inside other objects
		return st.mayAlias(a.args[0], b.args[0])
	}
	return true
}

// derived: could pointer p be alloc q (p is a join of values including q)?
func (st *State) derived(p, q *Term) bool {
	found := false
	provenance(p, func(t *Term) bool {
		if t == q {
			found = true
		}
		return !found
	})
	return found
}

func escFact(t *Term) *Term { return app("may:escaped", "", nil, t) }

func (st *State) escaped(t *Term) bool {
	_, ok := st.may["escaped|"+fmt.Sprint(t.id)]
	return ok
}

func (st *State) markEscaped(t *Term) {
	if t == nil {
		return
	}
	switch t.op {
	case "fld", "elemaddr", "slice", "arr", "mkiface", "struct", "closure", "list", "append", "tuple", "unbox", "conv", "bytestr":
		for _, a := range t.args {
			st.markEscaped(a)
		}
		return
	case "make":
	case "sym":
		if t.sym.kind == "join" {
			for p := range t.sym.parents {
				if p.op == "make" {
					// published when it was joined; explicit stores of nil count immediately
					st.escapeRoot(p, false)
				} else if isAlloc(p) || p.op == "mkiface" {
					st.markEscaped(p)
				}
			}
			return
		}
		if t.sym.kind != "alloc" {
			return
		}
	default:
		return
	}
	st.escapeRoot(t, true)
}

func (st *State) escapeRoot(t *Term, publish bool) {
	k := "escaped|" + fmt.Sprint(t.id)
	if _, ok := st.may[k]; ok {
		return
	}
	st.may[k] = &May{kind: "escaped", site: fmt.Sprint(t.id), terms: map[*Term]bool{}}
	if publish {
		st.it.publish(st, t, t.typ)
	}
	// everything stored in it escapes as well
	for a, v := range st.mem {
		if addrRoot(a) == t {
			st.markEscaped(v)
		}
	}
}

func fieldAddr(base *Term, field string, typ types.Type) *Term {
	return app("fld", field, typ, base)
}

func fieldID(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	n := typeKey(t)
	return n + "." + s.Field(i).Name()
}

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), t)
		}
		return app("zero", typeKey(t), t)
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroTerm(u.Field(i).Type())
		}
		return app("struct", typeKey(t), t, args...)
	case *types.Array:
		return app("zero", typeKey(t), t)
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroTerm(u.At(i).Type())
		}
		return app("tuple", "", t, args...)
	}
	return nilTerm
}

func zeroedFact(t *Term) *Term { return fact("zeroed", "", t) }

// load reads a location of type t.
func (st *State) load(addr *Term, t types.Type) *Term {
	if s, ok := t.Underlying().(*types.Struct); ok && !opaqueStruct(t) {
		if v, ok := st.mem[addr]; ok && v.op != "split" {
			return v
		}
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = st.load(fieldAddr(addr, fieldID(t, i), s.Field(i).Type()), s.Field(i).Type())
		}
		return mkStruct(t, args)
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if v := st.partOf(addr, t); v != nil {
		return v
	}
	if opaqueStruct(t) {
		if _, ok := t.Underlying().(*types.Struct); ok {
			// its fields may have been set one by one
			var parts []*Term
			for x, v := range st.mem {
				if v != nil && x != addr && under(x, addr) {
					parts = append(parts, x)
				}
			}
			if len(parts) > 0 {
				sort.Slice(parts, func(i, j int) bool { return parts[i].id < parts[j].id })
				args := []*Term{st.defaultContent(addr, t)}
				for _, x := range parts {
					args = append(args, x, st.mem[x])
				}
				return app("snap", typeKey(t), t, args...)
			}
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return st.loadArray(addr, a, t)
	}
	if symbolicElem(addr) {
		// any of the elements that are known
		class := heapClass(addr)
		for a, v := range st.mem {
			if v != nil && a.op == addr.op && heapClass(a) == class && st.mayAlias(a, addr) {
				st.markEscaped(v)
			}
		}
	}
	return st.defaultContent(addr, t)
}

// partOf gives a field of a structure of another package that was stored as a whole.
func (st *State) partOf(addr *Term, t types.Type) *Term {
	if addr.op != "fld" {
		return nil
	}
	v, ok := st.mem[addr.args[0]]
	if !ok || v == nil || v.typ == nil || !opaqueStruct(v.typ) {
		return nil
	}
	for {
		switch {
		case v.op == "zero":
			return zeroTerm(t)
		case v.op == "with":
			if v.aux == addr.aux {
				return v.args[1]
			}
			v = v.args[0]
			continue
		case v.op == "snap":
			for i := 1; i+1 < len(v.args); i += 2 {
				if x := v.args[i]; x.op == "fld" && x.aux == addr.aux {
					return v.args[i+1]
				}
			}
			v = v.args[0]
			continue
		}
		return app("field", addr.aux, t, v)
	}
}

const maxArrayElems = 32

func explicitArray(a *types.Array) bool {
	if b, ok := a.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return false
	}
	return a.Len() <= maxArrayElems
}

// loadArray gives the value of a whole array: element by element if it is small, else a name for the present
// contents.
func (st *State) loadArray(addr *Term, a *types.Array, t types.Type) *Term {
	r := addrRoot(addr)
	if isGlobal(r) {
		return st.defaultContent(addr, t)
	}
	var parts []*Term
	for x, v := range st.mem {
		if x != addr && under(x, addr) && v != nil {
			parts = append(parts, x)
		}
	}
	if len(parts) == 0 && st.truth[zeroedFact(r)] {
		return zeroTerm(t)
	}
	var args []*Term
	if explicitArray(a) {
		for i := int64(0); i < a.Len(); i++ {
			args = append(args, st.load(app("elemaddr", "", a.Elem(), addr, mkInt(i)), a.Elem()))
		}
		return app("arrval", typeKey(t), t, args...)
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i].id < parts[j].id })
	args = append(args, addr, st.version("e:"+typeKey(a.Elem())))
	for _, x := range parts {
		args = append(args, x, st.mem[x])
	}
	return app("arrsnap", typeKey(t), t, args...)
}

func (st *State) storeArray(addr, v *Term, a *types.Array, frame *Frame, instr ssa.Instruction) {
	r := addrRoot(addr)
	for x := range st.mem {
		if x != addr && under(x, addr) {
			delete(st.mem, x)
		}
	}
	delete(st.mem, addr)
	class := "e:" + typeKey(a.Elem())
	if explicitArray(a) && (v.op == "arrval" || v.op == "zero") {
		for i := int64(0); i < a.Len(); i++ {
			x := zeroTerm(a.Elem())
			if v.op == "arrval" {
				x = v.args[i]
			}
			st.store(app("elemaddr", "", a.Elem(), addr, mkInt(i)), x, a.Elem(), frame, instr)
		}
		return
	}
	if v.op == "zero" && isAlloc(r) && st.truth[zeroedFact(r)] {
		if _, ok := st.mem[contentAddr(r)]; !ok {
			return
		}
	}
	st.notZeroed(r)
	for x := range st.mem {
		if under(x, addr) {
			delete(st.mem, x)
		}
	}
	st.mem[contentAddr(r)] = mkSym("ver", "content"+fmt.Sprint(r.id)+"!"+instrKeyOf(instr), nil, frame, instr)
	if isAlloc(r) && !st.escaped(r) {
		st.newVersion(class, frame, instr, "arr")
	} else {
		st.kill(class, frame, instr)
	}
}

// mkStruct rebuilds the original value when all fields are projections of one value.
func mkStruct(t types.Type, args []*Term) *Term {
	if len(args) > 0 && args[0].op == "field" {
		base := args[0].args[0]
		same := true
		for i, a := range args {
			if a.op != "field" || a.args[0] != base || a.aux != fieldID(t, i) {
				same = false
				break
			}
		}
		if same && base.typ != nil && types.Identical(base.typ, t) {
			return base
		}
	}
	return app("struct", typeKey(t), t, args...)
}

// opaqueStruct: struct types of other packages are kept whole.
func opaqueStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return !inModule(n.Obj().Pkg())
	}
	return false
}

func (st *State) defaultContent(addr *Term, t types.Type) *Term {
	r := addrRoot(addr)
	if st.truth[zeroedFact(r)] && !st.otherElem(addr) {
		return zeroTerm(t)
	}
	if isGlobal(r) {
		if v := st.it.globalContent(addr, r, t); v != nil {
			return v
		}
	}
	// fixed contents of literal slices
	if addr.op == "elemaddr" {
		if v := elemOf(addr.args[0], addr.args[1]); v != nil {
			return v
		}
	}
	if addr.op == "fld" && addr.args[0].op == "elemaddr" && addr.args[0].typ != nil {
		if v := elemOf(addr.args[0].args[0], addr.args[0].args[1]); v != nil {
			if s, ok := addr.args[0].typ.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if fieldID(addr.args[0].typ, i) == addr.aux {
						return projField(v, addr.args[0].typ, i)
					}
				}
			}
		}
	}
	// a pointer obtained by joining: content unknown but stable under the same version
	ld := app("ld", "", t, addr, st.version(heapClass(addr)))
	return ld
}

// otherElem: could a store to another element have changed this one?
func (st *State) otherElem(addr *Term) bool {
	if addr.op != "elemaddr" {
		return addr.op == "fld" && st.otherElem(addr.args[0])
	}
	r := addrRoot(addr)
	for a := range st.mem {
		e := a
		for e.op == "fld" {
			e = e.args[0]
		}
		if e != addr && e.op == "elemaddr" && addrRoot(e) == r && (e.args[0] != addr.args[0] || st.mayAlias(e, addr)) {
			return true
		}
	}
	return false
}

// notZeroed gives up the knowledge that untouched parts of an object are zero.
func (st *State) notZeroed(r *Term) {
	if !st.truth[zeroedFact(r)] {
		return
	}
	if s, ok := moduleStruct(r.typ); ok && isAlloc(r) {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if _, isS := ft.Underlying().(*types.Struct); isS {
				continue
			}
			a := fieldAddr(r, fieldID(r.typ, i), ft)
			if _, ok := st.mem[a]; !ok {
				st.mem[a] = st.load(a, ft)
			}
		}
	}
	delete(st.truth, zeroedFact(r))
}

// elemOf gives element idx of a list-valued slice term.
func elemOf(s, idx *Term) *Term {
	n, ok := idx.intVal()
	if !ok {
		return nil
	}
	switch s.op {
	case "list", "arrval":
		if n >= 0 && n < int64(len(s.args)) {
			return s.args[n]
		}
	case "slice":
		if lo, ok := s.args[1].intVal(); ok {
			return elemOf(s.args[0], mkInt(n+lo))
		}
	}
	return nil
}

func (st *State) newVersion(class string, frame *Frame, instr ssa.Instruction, why string) {
	st.ver[class] = mkSym("ver", class+"!"+why+instrKeyOf(instr), nil, frame, instr)
}

func instrKeyOf(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	return instrKey(in)
}

// store writes v to addr.
func (st *State) store(addr, v *Term, t types.Type, frame *Frame, instr ssa.Instruction) {
	if s, ok := t.Underlying().(*types.Struct); ok && !opaqueStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			st.store(fieldAddr(addr, fieldID(t, i), s.Field(i).Type()), projField(v, t, i), s.Field(i).Type(), frame, instr)
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		st.storeArray(addr, v, a, frame, instr)
		return
	}
	if opaqueStruct(t) {
		for x := range st.mem {
			if x != addr && x.op == "fld" && under(x, addr) {
				delete(st.mem, x)
			}
		}
	}
	if addr.op == "fld" {
		if w := st.mem[addr.args[0]]; w != nil && w.typ != nil && opaqueStruct(w.typ) {
			st.mem[addr.args[0]] = app("with", addr.aux, w.typ, w, v)
		}
	}
	class := heapClass(addr)
	root := addrRoot(addr)
	if addr.op == "elemaddr" && instr != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			// the buffer's contents are no longer what was put there
			if _, ok := st.mem[contentAddr(root)]; !ok {
				st.mem[contentAddr(root)] = nil
			}
			for a := range st.mem {
				if a.op == "content" && (a.args[0] == root || st.mayAlias(a.args[0], root)) {
					st.mem[a] = mkSym("ver", "content"+fmt.Sprint(a.args[0].id)+"!"+instrKeyOf(instr), nil, frame, instr)
				}
			}
		}
	}
	for e := addr; e.op == "fld" || e.op == "elemaddr"; e = e.args[0] {
		if e.op == "elemaddr" && e.args[1].op != "const" {
			st.notZeroed(root)
		}
	}
	var del []*Term
	for a := range st.mem {
		if a != addr && heapClass(a) == class && st.mayAlias(a, addr) {
			del = append(del, a)
		}
	}
	if len(del) > 0 || !(isAlloc(root) && !st.escaped(root)) {
		st.newVersion(class, frame, instr, "st")
	}
	for _, a := range del {
		// what was there may still be, without being known
		st.markEscaped(st.mem[a])
		st.mem[a] = app("ld", "", t, a, st.version(class))
	}
	st.mem[addr] = v
	if symbolicElem(addr) {
		st.markEscaped(v)
	}
	// storing into an escaped or unknown object makes the value reachable
	if !isAlloc(root) && root.op != "make" || st.escaped(root) {
		st.markEscaped(v)
	}
}

// symbolicElem: the address is in an element whose index is not constant.
func symbolicElem(addr *Term) bool {
	for e := addr; e.op == "fld" || e.op == "elemaddr" || e.op == "arr" || e.op == "slice"; e = e.args[0] {
		if e.op == "elemaddr" && e.args[1].op != "const" {
			return true
		}
	}
	return false
}

func projField(v *Term, t types.Type, i int) *Term {
	s := t.Underlying().(*types.Struct)
	if v.op == "struct" && len(v.args) == s.NumFields() {
		return v.args[i]
	}
	return app("field", fieldID(t, i), s.Field(i).Type(), v)
}

// kill forgets what is stored in a heap class (an unknown call may have changed it).
func (st *State) kill(class string, frame *Frame, instr ssa.Instruction) {
	st.newVersion(class, frame, instr, "k")
	for a, v := range st.mem {
		if heapClass(a) == class {
			r := addrRoot(a)
			if isAlloc(r) && !st.escaped(r) {
				continue
			}
			st.mem[a] = app("ld", "", typOf(v), a, st.version(class))
			if v.typ == nil || v.isNil() || v.op == "const" {
				st.mem[a] = app("ld", "", a.typ, a, st.version(class))
			}
		}
	}
}

// killRoot forgets the contents of one object (a buffer handed to an external function).
//
// Only what lies under part is concerned: external code cannot get from a pointer to a field, or from a slice
// of an array field, to the rest of the object.
func (st *State) killRoot(root, part *Term, frame *Frame, instr ssa.Instruction) {
	if root.op == "sym" || root.op == "make" {
		v := mkSym("ver", "obj"+fmt.Sprint(root.id)+"!"+instrKeyOf(instr), nil, frame, instr)
		for a := range st.mem {
			if addrRoot(a) == root && (part == root || under(a, part)) {
				st.mem[a] = app("ld", "", a.typ, a, v)
			}
		}
		delete(st.truth, zeroedFact(root))
	}
}

// reached is the outermost location external code can get at through a pointer or slice.
func reached(x *Term) *Term {
	for x.op == "slice" || x.op == "arr" || x.op == "elemaddr" {
		x = x.args[0]
	}
	return x
}

// under: is a the location p or a part of it?
func under(a, p *Term) bool {
	for {
		if a == p {
			return true
		}
		switch a.op {
		case "fld", "elemaddr", "slice", "arr", "content":
			a = a.args[0]
			continue
		}
		return false
	}
}

// ---- joining ----

type slot struct {
	name string
	ts   []*Term
	typ  types.Type
	set  func(n *State, t *Term)

	ghost bool
}

// liveAt tells which SSA values are needed at the join point; nil means all.
type joinSpec struct {
	frame   *Frame
	tag     string
	live    map[ssa.Value]bool
	extra   []slot           // additional values (results)
	stale   func(*Term) bool // symbols that must not survive
	allowed *State           // when set, only facts already in this state may be kept
	mustJ   map[string]bool  // slots that stay join symbols
	jnames  map[string]bool  // out: slots that became join symbols
}

func (it *Interp) join(sp *joinSpec, states []*State) *State {
	for _, h := range it.hooks {
		if h.prune != nil {
			for _, st := range states {
				h.prune(st)
			}
		}
	}
	base := states[0]
	n := newState(it)
	n.ctx = base.ctx
	n.defers = base.defers
	if len(states) == 1 && sp.stale == nil && sp.mustJ == nil {
		c := base.clone()
		if sp.live != nil {
			for v := range c.env {
				if !sp.live[v] {
					delete(c.env, v)
				}
			}
		}
		for _, e := range sp.extra {
			e.set(c, e.ts[0])
		}
		return c
	}
	stale := sp.stale
	if stale == nil {
		stale = func(*Term) bool { return false }
	}
	var slots []slot
	// env
	var vals []ssa.Value
	for v := range base.env {
		if sp.live == nil || sp.live[v] {
			vals = append(vals, v)
		}
	}
	sort.Slice(vals, func(i, j int) bool { return valKey(vals[i]) < valKey(vals[j]) })
	for _, v := range vals {
		v := v
		s := slot{name: "v" + valKey(v), typ: v.Type(), set: func(n *State, t *Term) { n.env[v] = t }}
		ok := true
		for _, st := range states {
			t, has := st.env[v]
			if !has {
				ok = false
				break
			}
			s.ts = append(s.ts, t)
		}
		if ok {
			slots = append(slots, s)
		}
	}
	slots = append(slots, sp.extra...)
	// versions
	vers := map[string]bool{}
	for _, st := range states {
		for c := range st.ver {
			vers[c] = true
		}
	}
	var vcs []string
	for c := range vers {
		vcs = append(vcs, c)
	}
	sort.Strings(vcs)
	for _, c := range vcs {
		c := c
		s := slot{name: "ver:" + c, set: func(n *State, t *Term) { n.ver[c] = t }}
		for _, st := range states {
			s.ts = append(s.ts, st.version(c))
		}
		slots = append(slots, s)
	}
	// memory
	addrs := map[*Term]bool{}
	for _, st := range states {
		for a := range st.mem {
			if !staleTerm(a, stale) {
				addrs[a] = true
			}
		}
	}
	for _, a := range sortedTerms(addrs) {
		a := a
		s := slot{name: "m" + fmt.Sprint(a.id), typ: a.typ, ghost: a.op == "fld" && strings.HasPrefix(a.aux, "$"), set: func(n *State, t *Term) { n.mem[a] = t }}
		ok := true
		for _, st := range states {
			if c, has := st.mem[a]; has {
				s.ts = append(s.ts, c)
				continue
			}
			if a.op == "mapsum" {
				m := a.args[0]
				if m.typ != nil && st.hasFact(fact("emptymap", "", m, st.version(mapClass(m.typ)))) {
					s.ts = append(s.ts, bottomTerm)
					continue
				}
			}
			r := addrRoot(a)
			if isAlloc(r) || r.op == "make" {
				if !st.truth[zeroedFact(r)] && a.op != "elemaddr" {
					ok = false
					break
				}
			}
			if a.typ == nil {
				ok = false
				break
			}
			s.ts = append(s.ts, st.defaultContent(a, a.typ))
		}
		if ok {
			slots = append(slots, s)
		}
	}
	// deferred calls
	for i := range base.defers {
		i := i
		d := *base.defers[i]
		d.args = append([]*Term(nil), d.args...)
		cp := append([]*deferred(nil), n.defers...)
		cp[i] = &d
		n.defers = cp
		add := func(name string, get func(*deferred) *Term, set func(*Term)) {
			s := slot{name: fmt.Sprintf("d%d.%s", i, name), set: func(_ *State, t *Term) { set(t) }}
			for _, st := range states {
				s.ts = append(s.ts, get(st.defers[i]))
			}
			slots = append(slots, s)
		}
		if d.fn != nil {
			add("f", func(d *deferred) *Term { return d.fn }, func(t *Term) { d.fn = t })
		}
		for k := range d.args {
			k := k
			add(fmt.Sprint("a", k), func(d *deferred) *Term { return d.args[k] }, func(t *Term) { d.args[k] = t })
		}
	}

	// decide the joined term of each slot
	groups := map[string]*Term{}
	type jinfo struct {
		j  *Term
		ts []*Term
	}
	var js []jinfo
	ghosts := map[*Term]bool{}
	for _, s := range slots {
		same := true
		for _, t := range s.ts {
			if t != s.ts[0] || staleTerm(t, stale) {
				same = false
				break
			}
		}
		if same && sp.mustJ[s.name] {
			// keep a join symbol once introduced, for stability
			if !(s.ts[0].sym != nil && s.ts[0].sym.kind == "join" && s.ts[0].sym.name == sp.tag+":"+s.name) {
				same = false
			}
		}
		if same {
			s.set(n, s.ts[0])
			continue
		}
		var kb strings.Builder
		for _, t := range s.ts {
			fmt.Fprintf(&kb, "%d,", t.id)
		}
		kb.WriteString(typeKey(s.typ))
		gk := kb.String()
		j, ok := groups[gk]
		if !ok {
			kind := "join"
			if strings.HasPrefix(s.name, "ver:") {
				kind = "ver"
			}
			jt := s.typ
			j = mkSym(kind, sp.tag+":"+s.name, jt, sp.frame, nil)
			if j.sym.parents == nil {
				j.sym.parents = map[*Term]bool{}
			}
			if j.typ == nil {
				for _, t := range s.ts {
					if t.typ != nil {
						j.typ = t.typ
					}
				}
			}
			for _, t := range s.ts {
				if t != j && t != bottomTerm {
					j.sym.parents[t] = true
				}
			}
			groups[gk] = j
			js = append(js, jinfo{j, s.ts})
			if kind == "join" {
				for i, t := range s.ts {
					it.publish(states[i], t, t.typ)
				}
			}
		}
		if sp.jnames != nil {
			sp.jnames[s.name] = true
		}
		if s.ghost {
			ghosts[j] = true
		}
		s.set(n, j)
	}
	// simultaneous substitutions back into each state
	subs := make([]map[*Term]*Term, len(states))
	inv := make([]map[*Term][]*Term, len(states))
	for i := range states {
		subs[i] = map[*Term]*Term{}
		inv[i] = map[*Term][]*Term{}
		for _, j := range js {
			subs[i][j.j] = j.ts[i]
			if j.ts[i].op != "const" && j.ts[i].op != "nil" && j.ts[i] != bottomTerm {
				inv[i][j.ts[i]] = append(inv[i][j.ts[i]], j.j)
			}
		}
	}
	holds := func(t *Term, val bool) bool {
		for i, st := range states {
			if mentionsBottom(t, subs[i]) {
				continue
			}
			x := t.subst(subs[i])
			if x.op == "F" || strings.HasPrefix(x.op, "F:") {
				if !it.factHolds(st, x) {
					return false
				}
				continue
			}
			v, ok := st.decide(x)
			if !ok || v != val {
				return false
			}
		}
		return true
	}
	holdsLin := func(l Lin) bool {
		for i, st := range states {
			vac := false
			for _, p := range l.ps {
				if mentionsBottom(p.t, subs[i]) {
					vac = true
				}
			}
			if vac {
				continue
			}
			x := substLin(l, subs[i])
			if !st.proveLin(x) && !(onGhost(l, ghosts) && st.provePlain(x)) {
				return false
			}
		}
		return true
	}
	tried := map[string]bool{}
	tryFact := func(t *Term, val bool) {
		if staleTermExcept(t, stale, js2set(js, func(x jinfo) *Term { return x.j })) {
			return
		}
		k := fmt.Sprint(t.id, val)
		if tried[k] {
			return
		}
		tried[k] = true
		if t.op == "const" || t.op == "le0" {
			return
		}
		switch t.op {
		case "F:zeroed", "F:emptymap", "F:filled":
			// what is known about the storage of one object does not carry over to "one of these objects"
			if t.args[0].sym != nil && t.args[0].sym.kind == "join" {
				return
			}
		}
		if holds(t, val) {
			n.truth[t] = val
		}
	}
	triedL := map[string]bool{}
	tryLin := func(l Lin) {
		l = l.normalise()
		if len(l.ps) == 0 || !l.ok() {
			return
		}
		k := l.vecKey() + fmt.Sprint(l.c)
		if triedL[k] {
			return
		}
		triedL[k] = true
		for _, p := range l.ps {
			if staleTermExcept(p.t, stale, js2set(js, func(x jinfo) *Term { return x.j })) {
				return
			}
		}
		if holdsLin(l) {
			n.lin.add(l)
		}
	}
	if sp.allowed != nil {
		for t, v := range sp.allowed.truth {
			tryFact(t, v)
		}
		for _, l := range sp.allowed.lin.m {
			tryLin(l)
		}
	} else {
		for i, st := range states {
			for t, v := range st.truth {
				tryFact(t, v)
				for _, r := range rewrites(t, inv[i]) {
					tryFact(r, v)
				}
			}
			for _, l := range st.lin.m {
				tryLin(l)
				for _, r := range rewriteLins(l, inv[i], js2pairs(js, i, func(x jinfo) (*Term, *Term) { return x.j, x.ts[i] })) {
					tryLin(r)
				}
			}
		}
		for _, h := range it.hooks {
			if h.joined != nil && len(states) > 1 {
				for _, f := range h.joined(states) {
					tryFact(f, true)
				}
			}
		}
		// what moved along with a ghost location
		for _, g := range js {
			if !ghosts[g.j] || !isIntTerm(g.j) {
				continue
			}
			for _, k := range js {
				if k.j == g.j || !isIntTerm(k.j) {
					continue
				}
				var d Lin
				ok := true
				for i, st := range states {
					if g.ts[i] == bottomTerm || k.ts[i] == bottomTerm {
						ok = false
						break
					}
					x := st.settle(toLin(g.ts[i]).sub(toLin(k.ts[i])))
					if i == 0 {
						d = x
					} else if y := x.sub(d); len(y.ps) > 0 || y.c != 0 {
						ok = false
						break
					}
				}
				if ok {
					l := linTerm(g.j).sub(linTerm(k.j)).sub(d)
					tryLin(l)
					tryLin(l.neg())
					as := anchors(states, k.ts, stale)
					for _, st := range states {
						as = append(as, inSums(st)...)
					}
					for _, a := range as {
						l := linTerm(k.j).sub(linTerm(a))
						all := !staleTerm(a, stale)
						for i, st := range states {
							all = all && st.same(substLin(l, subs[i]), linConst(0))
						}
						if all {
							n.lin.add(l)
							n.lin.add(l.neg())
						}
					}
				}
			}
		}
		// standard candidates for the join symbols
		for _, j := range js {
			if strings.HasPrefix(j.j.sym.kind, "ver") {
				continue
			}
			if isIntTerm(j.j) {
				for _, t := range j.ts {
					if t == bottomTerm {
						continue
					}
					if c, ok := t.intVal(); ok && c < linLimit && c > -linLimit {
						tryLin(linTerm(j.j).plus(-c))
						tryLin(linConst(c).sub(linTerm(j.j)))
					} else {
						l := toLin(t)
						tryLin(linTerm(j.j).sub(l))
						tryLin(l.sub(linTerm(j.j)))
						for i, st := range states {
							if j.ts[i] == t {
								lo, hi := st.interval(t)
								if lo > -linLimit {
									tryLin(linConst(lo).sub(linTerm(j.j)))
								}
								if hi < linLimit {
									tryLin(linTerm(j.j).plus(-hi))
								}
							}
						}
					}
				}
				tryLin(linTerm(j.j).neg())
				for _, a := range anchors(states, j.ts, stale) {
					tryLin(linTerm(j.j).sub(linTerm(a)))
					tryLin(linTerm(j.j).sub(linTerm(a)).plus(1))
				}
				for _, k := range js {
					if k.j != j.j && isIntTerm(k.j) {
						tryLin(linTerm(j.j).sub(linTerm(k.j)))
						tryLin(linTerm(j.j).sub(linTerm(k.j)).plus(1))
					}
				}
			} else if isLenType(j.j.typ) {
				lj := linTerm(mkLen(j.j))
				for i, t := range j.ts {
					if t == bottomTerm {
						continue
					}
					l := toLin(mkLen(t))
					tryLin(lj.sub(l))
					tryLin(l.sub(lj))
					_ = i
				}
				tryLin(linConst(1).sub(lj))
				for _, a := range anchors(states, j.ts, stale) {
					tryLin(lj.sub(linTerm(a)))
					tryLin(linTerm(a).sub(lj))
				}
				for _, k := range js {
					if k.j != j.j && isLenType(k.j.typ) {
						d := lj.sub(linTerm(mkLen(k.j)))
						tryLin(d)
					}
					if k.j != j.j && isIntTerm(k.j) {
						d := lj.sub(linTerm(k.j))
						tryLin(d)
						tryLin(d.neg())
						// range loops count from -1
						tryLin(d.plus(-1))
						tryLin(d.neg().plus(1))
					}
				}
			}
			if j.j.typ != nil {
				switch u := j.j.typ.Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Slice:
					tryFact(mkEq(j.j, nilTerm), false)
					tryFact(mkEq(j.j, nilTerm), true)
				case *types.Basic:
					if u.Info()&types.IsBoolean != 0 {
						tryFact(j.j, true)
						tryFact(j.j, false)
					}
				}
			}
			for _, c := range it.factTemplates(states, j.j, j.ts) {
				tryFact(c, true)
			}
		}
	}
	// may facts: union with renaming
	for i, st := range states {
		for _, m := range st.may {
			if m.kind == "escaped" {
				for t := range m.terms {
					if stale(t) {
						continue
					}
				}
				n.may[m.site2key()] = m
				continue
			}
			c := &May{kind: m.kind, site: m.site, instr: m.instr, frame: m.frame, note: m.note, external: m.external, terms: map[*Term]bool{}}
			for t := range m.terms {
				if rs, ok := inv[i][t]; ok {
					for _, r := range rs {
						c.terms[r] = true
					}
					if held(m.kind) && !staleTerm(t, stale) {
						c.terms[t] = true
					}
					continue
				}
				hit := false
				for _, r := range rewrites(t, inv[i]) {
					c.terms[r] = true
					hit = true
				}
				if !hit && !staleTerm(t, stale) {
					c.terms[t] = true
				}
			}
			n.may[c.key()] = c
		}
	}
	return n
}

// inSums: the terms of sums that are only plain by assumption.
func inSums(st *State) []*Term {
	r := map[*Term]bool{}
	for _, l := range st.lin.m {
		for _, p := range l.ps {
			if strings.HasPrefix(p.t.op, "wrap:") {
				for _, q := range st.settle(linTerm(p.t)).ps {
					r[q.t] = true
				}
			}
		}
	}
	return sortedTerms(r)
}

func onGhost(l Lin, ghosts map[*Term]bool) bool {
	for _, p := range l.ps {
		if ghosts[p.t] {
			return true
		}
	}
	return false
}

// bottomTerm stands for "no value at all" (the summary of an empty map).
var bottomTerm = intern("bottom", func() *Term { return &Term{op: "bottom"} })

// mentionsBottom: the fact is about something that has no value in this state, hence holds.
func mentionsBottom(t *Term, sub map[*Term]*Term) bool {
	if sub[t] == bottomTerm {
		return true
	}
	for _, a := range t.args {
		if mentionsBottom(a, sub) {
			return true
		}
	}
	return false
}

func (m *May) site2key() string { return "escaped|" + m.site }

func js2set[T any](xs []T, f func(T) *Term) map[*Term]bool {
	r := map[*Term]bool{}
	for _, x := range xs {
		r[f(x)] = true
	}
	return r
}

type jpair struct{ j, t *Term }

func js2pairs[T any](xs []T, i int, f func(T) (*Term, *Term)) []jpair {
	var r []jpair
	for _, x := range xs {
		j, t := f(x)
		r = append(r, jpair{j, t})
	}
	return r
}

func isLenType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// anchors are the integer terms a joined variable may usefully be compared with: those related to one
// of its values first, then the live ones, then a few others.
func anchors(states []*State, ts []*Term, stale func(*Term) bool) []*Term {
	rank := map[*Term]int{}
	add := func(t *Term, r int) {
		if t.op == "const" || staleTerm(t, stale) {
			return
		}
		if o, ok := rank[t]; !ok || r < o {
			rank[t] = r
		}
	}
	val := map[*Term]bool{}
	for _, t := range ts {
		if t == bottomTerm {
			continue
		}
		var l Lin
		if isLenType(t.typ) {
			l = toLin(mkLen(t))
		} else {
			l = toLin(t)
		}
		for _, p := range l.ps {
			val[p.t] = true
		}
	}
	for _, st := range states {
		for v := range val {
			add(v, 0)
			for _, l := range st.lin.by(v) {
				for _, p := range l.ps {
					add(p.t, 0)
				}
			}
		}
		for _, t := range st.env {
			if isIntTerm(t) && !(t.sym != nil && t.sym.kind == "join") {
				if l := toLin(t); len(l.ps) == 1 && l.ps[0].k == 1 {
					add(l.ps[0].t, 1)
				}
			}
			if isLenType(t.typ) && t.op != "const" {
				l := toLin(mkLen(t))
				if len(l.ps) == 1 && l.ps[0].k == 1 && l.c == 0 {
					add(l.ps[0].t, 1)
				}
			}
		}
	}
	var r []*Term
	for t := range rank {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool {
		if rank[r[i]] != rank[r[j]] {
			return rank[r[i]] < rank[r[j]]
		}
		return r[i].id > r[j].id
	})
	if len(r) > 40 {
		r = r[:40]
	}
	return r
}

func staleTerm(t *Term, stale func(*Term) bool) bool {
	if t.sym != nil {
		return stale(t)
	}
	for _, a := range t.args {
		if staleTerm(a, stale) {
			return true
		}
	}
	return false
}

func staleTermExcept(t *Term, stale func(*Term) bool, except map[*Term]bool) bool {
	if except[t] {
		return false
	}
	if t.sym != nil {
		return stale(t)
	}
	for _, a := range t.args {
		if staleTermExcept(a, stale, except) {
			return true
		}
	}
	return false
}

// rewrites gives the variants of t in which terms replaced by join symbols are renamed.
func rewrites(t *Term, inv map[*Term][]*Term) []*Term {
	occ := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if _, ok := inv[x]; ok {
			occ[x] = true
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	if len(occ) == 0 {
		return nil
	}
	maps := []map[*Term]*Term{{}}
	for _, o := range sortedTerms(occ) {
		var nm []map[*Term]*Term
		js := inv[o]
		if len(js) > 3 {
			js = js[:3]
		}
		for _, m := range maps {
			for _, j := range js {
				c := map[*Term]*Term{}
				for k, v := range m {
					c[k] = v
				}
				c[o] = j
				nm = append(nm, c)
			}
		}
		maps = nm
		if len(maps) > 9 {
			maps = maps[:9]
		}
	}
	var r []*Term
	for _, m := range maps {
		r = append(r, t.subst(m))
	}
	// partial variants: rename only one of the terms
	if len(occ) > 1 {
		for o := range occ {
			for _, j := range inv[o] {
				r = append(r, t.subst(map[*Term]*Term{o: j}))
			}
		}
	}
	return r
}

func substLin(l Lin, m map[*Term]*Term) Lin {
	r := linConst(l.c)
	for _, p := range l.ps {
		r = r.add(toLin(p.t.subst(m)).scale(p.k))
	}
	return r
}

// rewriteLins renames terms in a constraint; a slot whose value is x+c also gives x = J-c.
func rewriteLins(l Lin, inv map[*Term][]*Term, pairs []jpair) []Lin {
	var r []Lin
	maps := []map[*Term]*Term{{}}
	occ := false
	for _, p := range l.ps {
		for _, v := range rewrites(p.t, inv) {
			occ = true
			var nm []map[*Term]*Term
			for _, m := range maps {
				c := map[*Term]*Term{}
				for k, x := range m {
					c[k] = x
				}
				c[p.t] = v
				nm = append(nm, c)
			}
			// one variant per term is enough in combination, further variants separately
			if len(maps) < 6 {
				maps = append(maps, nm...)
			}
		}
	}
	if occ {
		for _, m := range maps {
			if len(m) > 0 {
				r = append(r, substLin(l, m))
			}
		}
	}
	for _, jp := range pairs {
		tl := toLin(jp.t)
		if len(tl.ps) == 1 && abs64(tl.ps[0].k) == 1 && (tl.c != 0 || tl.ps[0].k == -1) {
			x := tl.ps[0].t
			k := l.coef(x)
			if k == 0 {
				continue
			}
			// t = s*x + c = J  =>  x = s*(J - c)
			s := tl.ps[0].k
			n := Lin{c: l.c}
			for _, p := range l.ps {
				if p.t != x {
					n = n.add(Lin{ps: []pair{p}})
				}
			}
			n = n.add(linTerm(jp.j).plus(-tl.c).scale(s * k))
			r = append(r, n)
		}
	}
	return r
}

var valKeys = map[ssa.Value]string{}

func valKey(v ssa.Value) string {
	if k, ok := valKeys[v]; ok {
		return k
	}
	k := v.Name()
	if in, ok := v.(ssa.Instruction); ok {
		k = v.Name() + "." + instrKey(in)
	}
	valKeys[v] = k
	return k
}

// sameFacts reports whether two states carry the same information.
func sameState(a, b *State) bool {
	if len(a.env) != len(b.env) || len(a.mem) != len(b.mem) || len(a.truth) != len(b.truth) ||
		len(a.lin.m) != len(b.lin.m) || len(a.may) != len(b.may) || len(a.defers) != len(b.defers) || len(a.ver) != len(b.ver) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	for k, v := range a.ver {
		if b.ver[k] != v {
			return false
		}
	}
	for k, v := range a.truth {
		if w, ok := b.truth[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range a.lin.m {
		if w, ok := b.lin.m[k]; !ok || w.c != v.c {
			return false
		}
	}
	for k := range a.may {
		if _, ok := b.may[k]; !ok {
			return false
		}
	}
	return true
}

// staticallyImplements: whatever is not nil in x has the methods, going by static types.
func staticallyImplements(x *Term, i *types.Interface, seen map[*Term]bool) bool {
	if seen[x] || x.isNil() {
		return true
	}
	seen[x] = true
	if x.op == "mkiface" {
		return false // decided by its own type
	}
	if x.typ != nil && types.IsInterface(x.typ) && types.Implements(x.typ, i) {
		return true
	}
	if x.sym == nil || x.sym.kind != "join" || len(x.sym.parents) == 0 {
		return false
	}
	for p := range x.sym.parents {
		if !staticallyImplements(p, i, seen) {
			return false
		}
	}
	return true
}
