package main

// The position of the stream being read, as a ghost location, and what each buffer was filled with. The rules
// about archives and headers are stated over stream positions, so that it does not matter how many calls or
// helpers the reading is spread over.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type streamModel struct {
	teed     func(st *State, w, before *Term) // told about what passes a tee
	it       *Interp
	saved    []counterVal // between the call and after hooks
	quiet    bool
	teeEmpty map[ssa.Instruction]bool // set before io.TeeReader: its buffers were empty
	// called after each operation on the stream
	onRead func(st *State, c *CallInfo, rd *readOp, before *Term)
	only   func(reader *Term) bool
}

type counterVal struct {
	addr, old *Term
}

type readOp struct {
	reader *Term
	buf    *Term // slice that is filled
	dst    *Term // writer that receives the data
	n      *Term // bytes consumed
	lim    *Term // at most this many bytes are asked for (nil: unlimited)
	exact  bool  // nil error means n == lim
	direct bool  // one Read call: n may be anything up to lim
	result *Term // the bytes are a result
}

var int64T = types.Typ[types.Int64]

func ghostBase() *Term         { return mkSym("ghost", "$stream", nil, nil, nil) }
func ghostAddr(n string) *Term { return fieldAddr(ghostBase(), "$"+n, int64T) }

func (m *streamModel) pos(st *State) *Term { return st.load(ghostAddr("pos"), int64T) }
func (m *streamModel) setPos(st *State, p *Term) {
	st.mem[ghostAddr("pos")] = p
}

func attr(v *Term, name string) *Term {
	return app("attr", name, types.Typ[types.UnsafePointer], v)
}

// memory readers are not the stream
func memoryReader(t types.Type) bool {
	switch typeKey(t) {
	case "*bytes.Buffer", "*bytes.Reader", "*strings.Reader":
		return true
	}
	return false
}

// exactReader: what a reader value reads from. exact says reading n bytes advances the stream by n.
func (m *streamModel) streamOf(st *State, r *Term) (stream, exact bool, through *Term) {
	for i := 0; i < 8; i++ {
		if r.op == "mkiface" {
			t := m.it.typeByKey[r.aux]
			if t == nil {
				return true, false, nil
			}
			if memoryReader(t) {
				return false, false, nil
			}
			if m.it.prog.moduleMethods(t) {
				return true, true, r
			}
			r = r.args[0]
			continue
		}
		if r.typ != nil && memoryReader(r.typ) {
			return false, false, nil
		}
		if r.sym != nil && r.sym.kind == "call" && r.sym.index <= 0 {
			switch r.sym.callee {
			case "io.LimitReader", "io.TeeReader", "io.NopCloser":
				r = r.sym.args[0]
				continue
			case "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader":
				return false, false, nil
			}
			return true, false, nil
		}
		if isAlloc(r) {
			if memoryReader(types.NewPointer(derefType(r.typ))) {
				return false, false, nil
			}
			if typeKey(derefType(r.typ)) == "io.LimitedReader" {
				return true, true, nil
			}
		}
		break
	}
	if r.typ != nil && !types.IsInterface(r.typ) {
		if m.it.prog.moduleMethods(r.typ) {
			return true, true, r
		}
		return true, false, nil
	}
	return true, true, nil
}

// readOpOf classifies an external call.
func readOpOf(c *CallInfo) *readOp {
	switch c.name {
	case "io.ReadFull":
		return &readOp{reader: c.args[0], buf: c.args[1], lim: mkLen(c.args[1]), exact: true}
	case "io.ReadAtLeast":
		return &readOp{reader: c.args[0], buf: c.args[1], lim: mkLen(c.args[1])}
	case "io.CopyN":
		return &readOp{reader: c.args[1], dst: c.args[0], lim: c.args[2], exact: true}
	case "io.Copy", "io.CopyBuffer":
		return &readOp{reader: c.args[1], dst: c.args[0]}
	case "io.ReadAll":
		return &readOp{reader: c.args[0]}
	case "encoding/binary.Read":
		return &readOp{reader: c.args[0], dst: c.args[2]}
	case "(*bytes.Buffer).ReadFrom":
		return &readOp{reader: c.args[1], dst: c.args[0]}
	}
	if strings.HasSuffix(c.name, ").Read") && len(c.args) == 2 && isByteSlice(typOf(c.args[1])) {
		return &readOp{reader: c.args[0], buf: c.args[1], lim: mkLen(c.args[1]), direct: true}
	}
	return nil
}

func (it *Interp) readMethod(t types.Type) *ssa.Function {
	ms := it.prog.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Read" {
			return it.prog.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

// counters: the integer fields that count the bytes read through a module reader.
func (m *streamModel) counters(st *State, r *Term) (cs []counterVal, exact bool) {
	t, recv := r.typ, r
	if r.op == "mkiface" {
		t, recv = m.it.typeByKey[r.aux], r.args[0]
	}
	if t == nil {
		return nil, false
	}
	f := m.it.readMethod(t)
	if f == nil || !inlinable(f) {
		return nil, false
	}
	saved := m.onRead
	m.onRead = nil
	defer func() { m.onRead = saved }()
	buf := mkSym("evalbuf", "p", f.Signature.Params().At(0).Type(), st.ctx, nil)
	before := m.pos(st)
	hooks := []*Hooks{m.hooks()}
	exits := m.it.evalWith(hooks, st, f, []*Term{recv, buf})
	if len(exits) == 0 {
		return nil, false
	}
	exact = true
	var cand map[*Term]bool
	for _, e := range exits {
		n := toLin(e.res[0])
		eq := e.st.same
		if !eq(toLin(m.pos(e.st)).sub(toLin(before)), n) {
			exact = false
		}
		c := map[*Term]bool{}
		for a, v := range e.st.mem {
			if a.op != "fld" || strings.HasPrefix(a.aux, "$") || v == nil || !isIntTerm(v) {
				continue
			}
			if cand != nil && !cand[a] {
				continue
			}
			old := st.peek(a, v.typ)
			if old != nil && eq(toLin(v).sub(toLin(old)), n) {
				c[a] = true
			}
		}
		cand = c
	}
	for _, a := range sortedTerms(cand) {
		if v := st.peek(a, a.typ); v != nil {
			cs = append(cs, counterVal{a, v})
		}
	}
	return cs, exact
}

// peek reads a location without changing the state's structure.
func (st *State) peek(a *Term, t types.Type) *Term {
	return st.load(a, t)
}

func (m *streamModel) hooks() *Hooks {
	h := &Hooks{}
	type pend struct {
		cs     []counterVal
		op     *readOp
		before *Term
		prev   *Term
		oldLen *Term
	}
	var cur *pend
	var curIn ssa.Instruction
	h.call = func(st *State, c *CallInfo) {
		cur, curIn = nil, nil
		empty := func(b *Term) bool {
			n := st.bufLen(b)
			if n == nil {
				return st.mem[attr(b, "fresh")] != nil
			}
			k, c := n.intVal()
			return c && k == 0
		}
		if c.name == "io.MultiWriter" {
			for _, x := range st.elements(c.args[0]) {
				for _, b := range m.sinks(st, x) {
					if empty(b) {
						st.mem[attr(b, "fresh")] = noneTerm
					}
				}
			}
		}
		if c.name == "io.TeeReader" {
			ok := true
			for _, b := range m.sinks(st, c.args[1]) {
				ok = ok && empty(b)
			}
			if m.teeEmpty == nil {
				m.teeEmpty = map[ssa.Instruction]bool{}
			}
			m.teeEmpty[c.instr] = ok
		}
		op := readOpOf(c)
		if op == nil {
			return
		}
		stream, exact, through := m.streamOf(st, op.reader)
		if !stream {
			return
		}
		p := &pend{op: op, before: m.pos(st)}
		if through != nil {
			cs, ex := m.counters(st, through)
			p.cs = cs
			exact = exact && ex
		}
		if !exact {
			p.before = nil
		}
		if op.buf != nil {
			p.prev = st.mem[contentAddr(addrRoot(op.buf))]
		} else if op.dst != nil {
			if b := m.it.bufferArg(op.dst); b != nil {
				p.prev = st.mem[contentAddr(addrRoot(b))]
				p.oldLen = st.bufLen(b)
			}
		}
		cur, curIn = p, c.instr
	}
	h.after = func(st *State, c *CallInfo) {
		p := cur
		if p == nil || curIn != c.instr {
			m.other(st, c)
			return
		}
		cur = nil
		op := p.op
		if op.dst != nil {
			for _, b := range m.sinks(st, op.dst) {
				m.untee(st, b)
			}
		}
		switch c.name {
		case "io.ReadAll":
			op.n = mkLen(c.res[0])
			op.result = c.res[0]
		case "encoding/binary.Read":
			if sz := packedSize(derefIf(typOf(unface(c.args[2])))); sz > 0 {
				op.n = mkInt(sz)
				op.lim = op.n
				op.exact = true
			} else {
				op.n = m.it.fresh(st, "fresh", c.instr, "binread", types.Typ[types.Int])
			}
		default:
			op.n = c.res[0]
		}
		n := toLin(op.n)
		for _, x := range p.cs {
			st.mem[x.addr] = fromLin(toLin(x.old).add(n), typOf(x.addr))
		}
		before := p.before
		if before == nil {
			m.setPos(st, m.it.fresh(st, "fresh", c.instr, "pos", int64T))
		} else {
			m.setPos(st, fromLin(toLin(before).add(n), int64T))
		}
		m.feed(st, op.reader, before)
		if before != nil {
			var ver *Term
			lo, hi := mkInt(0), op.n
			switch {
			case op.buf != nil:
				ver = st.mem[contentAddr(addrRoot(op.buf))]
				off, ok := offsetIn(op.buf)
				if !ok {
					ver = nil
				} else {
					lo = fromLin(off, types.Typ[types.Int])
					hi = fromLin(off.add(n), types.Typ[types.Int])
				}
			case op.result != nil:
				ver = op.result
			case op.dst != nil:
				b := m.it.bufferArg(op.dst)
				if b != nil {
					ver = st.mem[contentAddr(addrRoot(b))]
					if p.oldLen == nil {
						ver = nil
					} else {
						lo = p.oldLen
						hi = fromLin(toLin(lo).add(n), types.Typ[types.Int])
					}
				} else if c.name == "encoding/binary.Read" {
					x := unface(op.dst)
					ver = st.mem[contentAddr(addrRoot(x))]
				}
			}
			if ver != nil {
				st.mem[attr(ver, "pos")] = before
				st.mem[attr(ver, "lo")] = lo
				st.mem[attr(ver, "hi")] = hi
				if p.prev != nil && p.prev != ver {
					st.mem[attr(ver, "prev")] = p.prev
				} else {
					delete(st.mem, attr(ver, "prev"))
				}
			}
		}
		if m.onRead != nil {
			m.onRead(st, c, op, before)
		}
	}
	return h
}

// sinks: the buffers a writer forwards to.
func (m *streamModel) sinks(st *State, w *Term) (r []*Term) {
	if b := m.it.bufferArg(w); b != nil {
		return []*Term{b}
	}
	if w.op == "mkiface" {
		w = w.args[0]
	}
	if w.sym != nil && w.sym.kind == "call" && w.sym.callee == "io.MultiWriter" {
		for _, x := range st.elements(w.sym.args[0]) {
			r = append(r, m.sinks(st, x)...)
		}
	}
	return
}

func (m *streamModel) untee(st *State, b *Term) {
	delete(st.mem, attr(b, "fresh"))
	delete(st.mem, attr(b, "teefrom"))
	delete(st.mem, attr(b, "teeto"))
}

// feed: what was read through tees has been recorded in their buffers.
func (m *streamModel) feed(st *State, r *Term, before *Term) {
	for i := 0; i < 8; i++ {
		r = unface(r)
		if r.sym == nil || r.sym.kind != "call" {
			return
		}
		switch r.sym.callee {
		case "io.TeeReader":
			if m.teed != nil {
				m.teed(st, r.sym.args[1], before)
			}
			for _, b := range m.sinks(st, r.sym.args[1]) {
				to := st.mem[attr(b, "teeto")]
				if to == nil || before == nil || !st.same(toLin(to), toLin(before)) {
					m.untee(st, b)
					continue
				}
				st.mem[attr(b, "teeto")] = m.pos(st)
			}
			r = r.sym.args[0]
		case "io.LimitReader", "io.NopCloser":
			r = r.sym.args[0]
		default:
			return
		}
	}
}

func unface(t *Term) *Term {
	if t.op == "mkiface" {
		return t.args[0]
	}
	return t
}

// other external calls
func (m *streamModel) other(st *State, c *CallInfo) {
	switch c.name {
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		if b := m.it.bufferArg(c.args[0]); b != nil {
			if from, to := st.mem[attr(b, "teefrom")], st.mem[attr(b, "teeto")]; from != nil && to != nil {
				r := c.res[0]
				n := toLin(to).sub(toLin(from))
				st.mem[attr(r, "pos")] = from
				st.mem[attr(r, "lo")] = mkInt(0)
				st.mem[attr(r, "hi")] = fromLin(n, types.Typ[types.Int])
				st.addEq(mkLen(r), fromLin(n, types.Typ[types.Int]))
				return
			}
			if v := st.mem[contentAddr(addrRoot(b))]; v != nil {
				st.mem[attr(c.res[0], "of")] = v
			}
		}
		return
	case "io.TeeReader":
		if stream, exact, _ := m.streamOf(st, c.args[0]); stream {
			for _, b := range m.sinks(st, c.args[1]) {
				if exact && m.teeEmpty[c.instr] && st.mem[attr(b, "teefrom")] == nil {
					st.mem[attr(b, "teefrom")] = m.pos(st)
					st.mem[attr(b, "teeto")] = m.pos(st)
				} else {
					m.untee(st, b)
				}
			}
		}
		return
	}
	if len(c.args) > 0 {
		switch c.name {
		case "(*bytes.Buffer).Len", "(*bytes.Buffer).Cap", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Available":
		default:
			for _, a := range c.args {
				if c.name == "io.MultiWriter" {
					break
				}
				for _, b := range m.sinks(st, a) {
					m.untee(st, b)
				}
			}
		}
	}
	if c.name == "io.MultiReader" {
		st.mem[attr(c.res[0], "at")] = m.pos(st)
	}
	if c.name == "io.LimitReader" || c.name == "io.TeeReader" || c.name == "io.NopCloser" || c.name == "io.MultiReader" || c.name == "io.MultiWriter" {
		return
	}
	if m := modelFor(c.name); m != nil && (m.pure || m.noeffect) {
		return
	}
	// anything else that is given the stream may read from it
	for i, a := range c.args {
		x := unface(a)
		if x.typ == nil || c.common.IsInvoke() && i == 0 && !strings.HasPrefix(c.name, "(io.") {
			continue
		}
		if !hasReadMethod(x.typ) {
			continue
		}
		if stream, _, _ := m.streamOf(st, a); stream && isReaderType(a) {
			m.setPos(st, m.it.fresh(st, "fresh", c.instr, "pos", int64T))
		}
	}
}

func isReaderType(a *Term) bool {
	t := a.typ
	if a.op == "mkiface" {
		return true
	}
	return t != nil && types.IsInterface(t)
}

func hasReadMethod(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Read")
	_, ok := o.(*types.Func)
	return ok
}

// packedSize: the number of bytes encoding/binary reads for a type.
func packedSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8, types.Int8, types.Bool:
			return 1
		case types.Uint16, types.Int16:
			return 2
		case types.Uint32, types.Int32, types.Float32:
			return 4
		case types.Uint64, types.Int64, types.Float64:
			return 8
		}
	case *types.Array:
		if e := packedSize(u.Elem()); e > 0 {
			return e * u.Len()
		}
	case *types.Struct:
		var n int64
		for i := 0; i < u.NumFields(); i++ {
			e := packedSize(u.Field(i).Type())
			if e <= 0 {
				return -1
			}
			n += e
		}
		return n
	}
	return -1
}

// offsetIn: the offset of a slice or location within its root object.
func offsetIn(x *Term) (Lin, bool) {
	off := linConst(0)
	for {
		switch x.op {
		case "slice":
			off = off.add(toLin(x.args[1]))
			x = x.args[0]
		case "arr", "bytesof":
			x = x.args[0]
		case "elemaddr":
			sz := int64(1)
			if x.typ != nil {
				if s := packedSize(derefIf(x.typ)); s > 0 {
					sz = s
				}
			}
			off = off.add(toLin(x.args[1]).scale(sz))
			x = x.args[0]
		case "fld":
			st, ok := derefIf(typOf(x.args[0])).Underlying().(*types.Struct)
			if !ok {
				return off, x.args[0].op == "sym"
			}
			for i := 0; i < st.NumFields(); i++ {
				if fieldID(derefIf(typOf(x.args[0])), i) == x.aux {
					break
				}
				// only structures of plain bytes have a meaningful layout; others count as separate objects
				if s := packedSize(st.Field(i).Type()); s > 0 {
					off = off.plus(s)
				}
			}
			x = x.args[0]
		default:
			return off, true
		}
	}
}

// span of the stream
type span struct {
	pos, n Lin
}

func (s span) String() string { return fmt.Sprintf("[%s,+%s)", s.pos, s.n) }

// resolve finds where in the stream a string or byte slice was read from.
func (m *streamModel) resolve(st *State, t *Term) (span, bool) {
	for t.op == "bytestr" || t.op == "conv" {
		t = t.args[0]
	}
	var ver *Term
	if t.op == "bytesof" {
		ver = t.args[1]
		t = t.args[0]
	}
	off, ok := offsetIn(t)
	if !ok {
		return span{}, false
	}
	return m.spanIn(st, addrRoot(t), off, toLin(mkLen(t)), ver)
}

// spanIn: where n bytes at an offset of an object were read from.
func (m *streamModel) spanIn(st *State, root *Term, off, n Lin, ver *Term) (span, bool) {
	if root.op == "bytesof" {
		if ver == nil {
			ver = root.args[1]
		}
		root = addrRoot(root)
	}
	if st.mem[attr(root, "pos")] != nil {
		ver = root // a result of io.ReadAll
	}
	if v := st.mem[attr(root, "of")]; v != nil {
		ver = v // the contents of a buffer
	}
	if ver == nil {
		ver = st.mem[contentAddr(root)]
	}
	for i := 0; ver != nil && i < 40; i++ {
		pos, lo, hi := st.mem[attr(ver, "pos")], st.mem[attr(ver, "lo")], st.mem[attr(ver, "hi")]
		if pos == nil || lo == nil || hi == nil {
			return span{}, false
		}
		l, h := toLin(lo), toLin(hi)
		end := off.add(n)
		if st.proveLin(l.sub(off)) && st.proveLin(end.sub(h)) {
			return span{toLin(pos).add(off).sub(l), n}, true
		}
		if !st.proveLin(end.sub(l)) && !st.proveLin(h.sub(off)) {
			return span{}, false
		}
		ver = st.mem[attr(ver, "prev")]
	}
	return span{}, false
}

// settle replaces terms whose value is known.
//
// Positions and lengths are far from the limits of their types (archives of 2^58 bytes are not considered), so
// sums that could not be shown to fit count as plain sums.
func (st *State) settle(l Lin) Lin {
	out := linConst(l.c)
	for _, p := range l.ps {
		if strings.HasPrefix(p.t.op, "wrap:") && len(p.t.args) == 2 {
			a, b := st.settle(toLin(p.t.args[0])), st.settle(toLin(p.t.args[1]))
			switch p.t.op {
			case "wrap:add":
				out = out.add(a.add(b).scale(p.k))
				continue
			case "wrap:sub":
				out = out.add(a.sub(b).scale(p.k))
				continue
			}
		}
		up, ok1 := st.lin.m[linTerm(p.t).vecKey()]
		dn, ok2 := st.lin.m[linTerm(p.t).neg().vecKey()]
		if ok1 && ok2 && up.c == -dn.c {
			out.c = satAdd(out.c, satMul(dn.c, p.k))
			continue
		}
		out = out.add(linTerm(p.t).scale(p.k))
	}
	return out
}

// same: the two are equal, with sums and differences taken as plain.
func (st *State) same(a, b Lin) bool {
	d := st.settle(a.sub(b))
	if len(d.ps) == 0 {
		return d.c == 0
	}
	return st.provePlain(d) && st.provePlain(d.neg()) || st.vanishes(d)
}

// equalities the state knows.
func (st *State) equalities() (eqs []Lin) {
	var keys []string
	for k := range st.lin.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l := st.lin.m[k]
		if len(l.ps) == 0 || l.ps[0].k < 0 {
			continue
		}
		if o, ok := st.lin.m[l.neg().vecKey()]; ok && o.c == -l.c {
			eqs = append(eqs, st.settle(l))
		}
	}
	return
}

// inTerms rewrites an expression by the known equalities, removing terms that need not be kept.
func (st *State) inTerms(e Lin, keep func(t *Term) bool) Lin {
	eqs := st.equalities()
	e = st.settle(e)
	elim := func(l, by Lin, p pair) Lin {
		for _, q := range l.ps {
			if q.t == p.t {
				return l.sub(by.scale(q.k * p.k))
			}
		}
		return l
	}
	for i := range eqs {
		var piv *pair
		for j := range eqs[i].ps {
			p := &eqs[i].ps[j]
			if (p.k == 1 || p.k == -1) && !keep(p.t) {
				piv = p
				break
			}
		}
		if piv == nil {
			continue
		}
		p, by := *piv, eqs[i]
		for j := range eqs {
			if j > i {
				eqs[j] = elim(eqs[j], by, p)
			}
		}
		e = elim(e, by, p)
		if !e.ok() {
			return e
		}
	}
	return e
}

// vanishes: does d reduce to zero by the known equalities?
func (st *State) vanishes(d Lin) bool {
	eqs := st.equalities()
	elim := func(l, by Lin, p pair) Lin {
		for _, q := range l.ps {
			if q.t == p.t {
				return l.sub(by.scale(q.k * p.k)) // p.k is 1 or -1
			}
		}
		return l
	}
	for i := range eqs {
		// a term with unit coefficient is replaced everywhere else
		var piv *pair
		for j := range eqs[i].ps {
			if k := eqs[i].ps[j].k; k == 1 || k == -1 {
				piv = &eqs[i].ps[j]
				break
			}
		}
		if piv == nil {
			continue
		}
		p, by := *piv, eqs[i]
		for j := range eqs {
			if j > i {
				eqs[j] = elim(eqs[j], by, p)
			}
		}
		d = elim(d, by, p)
		if !d.ok() {
			return false
		}
	}
	return len(d.ps) == 0 && d.c == 0
}

// provePlain shows l <= 0 with sums and differences taken as plain.
func (st *State) provePlain(l Lin) bool {
	l = st.settle(l)
	if st.proveLin(l) {
		return true
	}
	var s *State
	for _, l := range st.lin.m {
		for _, p := range l.ps {
			if p.t.op == "wrap:add" || p.t.op == "wrap:sub" {
				if s == nil {
					s = st.clone()
				}
				e := linTerm(p.t).sub(s.settle(linTerm(p.t)))
				s.lin.add(e)
				s.lin.add(e.neg())
			}
		}
	}
	if s == nil {
		return false
	}
	return s.proveLin(s.settle(l))
}

// evalWith interprets a function on given arguments in a copy of the state, with the given observers.
func (it *Interp) evalWith(hooks []*Hooks, st *State, fn *ssa.Function, args []*Term) []*Exit {
	saved, obls, seen := it.hooks, it.obls, it.callsSeen
	it.hooks, it.obls, it.callsSeen = hooks, map[string]*Obligation{}, map[ssa.Instruction]bool{}
	defer func() { it.hooks, it.obls, it.callsSeen = saved, obls, seen }()
	s := st.clone()
	fr := mkFrame(st.ctx, nil, fn, "!eval")
	s.env = map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	s.ctx = fr
	steps := it.steps
	ex := it.runFn(fr, s)
	it.steps = steps
	return ex
}

// evalFn is evalWith without observers.
func (it *Interp) evalFn(st *State, fn *ssa.Function, args []*Term) []*Exit {
	return it.evalWith(nil, st, fn, args)
}

// residue evaluates a linear expression when x = m*q + r, as (coefficient of x, constant), for constants r.
// Division remainders of expressions in x fold to constants.
func residue(st *State, l Lin, x Lin, mod, r int64) (k Lin, ok bool) {
	out := linConst(l.c)
	for _, p := range l.ps {
		if p.t.op == "quo" || p.t.op == "shr" {
			// (a/m)*m is a less its remainder
			c, isC := p.t.args[1].intVal()
			if isC && p.t.op == "shr" && c < 32 {
				c = 1 << uint(c)
			}
			if isC && c == mod && p.k%mod == 0 {
				a, ok := residue(st, st.settle(toLin(p.t.args[0])), x, mod, r)
				if !ok {
					return out, false
				}
				if res, ok := modOf(a, x, mod, r); ok {
					out = out.add(a.plus(-res).scale(p.k / mod))
					continue
				}
			}
		}
		v, ok := residueTerm(st, p.t, x, mod, r)
		if !ok {
			return out, false
		}
		out = out.add(v.scale(p.k))
	}
	return out, out.ok()
}

func residueTerm(st *State, t *Term, x Lin, mod, r int64) (Lin, bool) {
	switch t.op {
	case "rem", "and", "andnot", "quo", "shr":
	default:
		if strings.HasPrefix(t.op, "wrap:") && len(t.args) == 2 {
			a, ok1 := residue(st, st.settle(toLin(t.args[0])), x, mod, r)
			b, ok2 := residue(st, st.settle(toLin(t.args[1])), x, mod, r)
			if !ok1 || !ok2 {
				return Lin{}, false
			}
			switch strings.TrimPrefix(t.op, "wrap:") {
			case "add":
				return a.add(b), true
			case "sub":
				return a.sub(b), true
			case "mul":
				if len(a.ps) == 0 {
					return b.scale(a.c), true
				}
				if len(b.ps) == 0 {
					return a.scale(b.c), true
				}
			}
			return Lin{}, false
		}
		if t.op == "conv" || t.op == "convert" {
			return residue(st, st.settle(toLin(t.args[0])), x, mod, r)
		}
		return linTerm(t), true
	}
	a, ok := residue(st, st.settle(toLin(t.args[0])), x, mod, r)
	if !ok {
		return Lin{}, false
	}
	c, isC := t.args[1].intVal()
	if !isC {
		b, ok := residue(st, st.settle(toLin(t.args[1])), x, mod, r)
		if !ok || len(b.ps) != 0 {
			return linTerm(t), true
		}
		c = b.c
	}
	// the value of a modulo mod
	res, ok := modOf(a, x, mod, r)
	if !ok {
		return linTerm(t), true
	}
	neg := len(a.ps) == 0 && a.c < 0
	switch t.op {
	case "rem":
		if c != mod {
			return linTerm(t), true
		}
		if neg && res != 0 {
			res -= mod
		}
		return linConst(res), true
	case "and":
		switch c {
		case mod - 1:
			return linConst(res), true
		case -mod:
			return a.plus(-res), true
		}
	case "andnot":
		if c == mod-1 {
			return a.plus(-res), true
		}
	}
	return linTerm(t), true
}

// modOf: a mod m for a = k*x + c.
func modOf(a, x Lin, m, r int64) (int64, bool) {
	if len(a.ps) == 0 {
		return ((a.c % m) + m) % m, true
	}
	for k := int64(-4); k <= 4; k++ {
		d := a.sub(x.scale(k))
		if len(d.ps) == 0 {
			return (((d.c + k*r) % m) + m) % m, true
		}
		all := true
		for _, p := range d.ps {
			if p.k%m != 0 {
				all = false
			}
		}
		if all {
			return (((d.c + k*r) % m) + m) % m, true
		}
	}
	return 0, false
}

// isAligned: is e always x rounded up to a multiple of m? Each residue of x is decided on its own, with what the
// state knows about remainders of x.
func isAligned(st *State, e, x Lin, m int64) bool {
	if isAligned1(st, e, x, m) {
		return true
	}
	e2 := st.inTerms(e, func(t *Term) bool {
		for _, p := range x.ps {
			if p.t == t {
				return true
			}
		}
		hit := false
		t.walk(func(u *Term) {
			switch u.op {
			case "rem", "and", "andnot", "quo", "shr":
				hit = true
			}
		})
		return hit
	})
	return e2.sub(e).String() != "0" && isAligned1(st, e2, x, m)
}

func isAligned1(st *State, e, x Lin, m int64) bool {
	e, x = st.settle(e), st.settle(x)
	var rems []*Term
	seen := map[*Term]bool{}
	collect := func(l Lin) {
		for _, p := range l.ps {
			hit := false
			p.t.walk(func(u *Term) {
				switch u.op {
				case "rem", "and", "andnot", "quo", "shr":
					hit = true
				}
			})
			if hit && !seen[p.t] {
				seen[p.t] = true
				rems = append(rems, p.t)
			}
		}
	}
	collect(e)
	var about []Lin
	for _, l := range st.lin.m {
		n := len(rems)
		collect(l)
		if len(rems) > n {
			about = append(about, l)
			continue
		}
		for _, p := range l.ps {
			if seen[p.t] {
				about = append(about, l)
				break
			}
		}
	}
	for r := int64(0); r < m; r++ {
		want := x.plus((m - r) % m)
		if v, ok := residue(st, e, x, m, r); ok && st.same(v, want) {
			continue
		}
		if impossible(st, about, x, m, r) {
			continue
		}
		if len(rems) == 0 {
			return false
		}
		s := st.clone()
		for _, t := range rems {
			if v, ok := residue(st, linTerm(t), x, m, r); ok && !(len(v.ps) == 1 && v.ps[0].t == t) {
				d := linTerm(t).sub(s.settle(v))
				s.lin.add(d)
				s.lin.add(d.neg())
			} else if v, ok := residue(st, linTerm(t).scale(m), x, m, r); ok && (t.op == "quo" || t.op == "shr") {
				d := linTerm(t).scale(m).sub(s.settle(v))
				s.lin.add(d)
				s.lin.add(d.neg())
			}
		}
		v, ok := residue(st, e, x, m, r)
		if !ok {
			v = e
		}
		if !s.same(v, want) {
			return false
		}
	}
	return true
}

// impossible: the state excludes that x leaves remainder r.
func impossible(st *State, about []Lin, x Lin, m, r int64) bool {
	for _, l := range about {
		if v, ok := residue(st, l, x, m, r); ok {
			if v = st.settle(v); len(v.ps) == 0 && v.c > 0 {
				return true
			}
		}
	}
	for f, val := range st.truth {
		if f.op != "eq" || !isIntTerm(f.args[0]) || !isIntTerm(f.args[1]) {
			continue
		}
		v, ok := residue(st, toLin(f.args[0]).sub(toLin(f.args[1])), x, m, r)
		if ok && len(v.ps) == 0 && (v.c == 0) != val {
			return true
		}
	}
	return false
}
