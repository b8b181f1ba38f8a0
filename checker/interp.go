package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is the abstract interpreter: it walks the SSA form of one root function (inlining the
// module's own callees) over abstract states.
type Interp struct {
	pins     []pin
	unstable int // loops whose current pass is not over a stable state
	prog     *Program
	inv      *Invariants
	root     *ssa.Function
	hooks    []*Hooks
	obls     map[string]*Obligation
	fnInf    map[*ssa.Function]*fnInfo

	ifaceKeys map[string]bool
	typeByKey map[string]types.Type

	steps         int
	calm          bool
	maxSteps      int
	problems      map[string]string // undecided constructs: key -> description
	covered       map[*ssa.Function]bool
	blocks        map[*ssa.BasicBlock]bool // completed
	publishing    map[*Term]bool
	callsSeen     map[ssa.Instruction]bool
	listProducers map[*Term]bool
}

// Hooks lets a rule watch the interpretation.
type Hooks struct {
	call      func(st *State, c *CallInfo)              // before an external call (results not set yet)
	after     func(st *State, c *CallInfo)              // after an external call; results available
	enter     func(st *State, c *CallInfo)              // module function about to be inlined
	leave     func(st *State, c *CallInfo, res []*Term) // module function inlined, per exit
	assume    func(st *State, t *Term, val bool)
	ret       func(st *State, root *ssa.Function, res []*Term, in *ssa.Return)
	fnret     func(st *State, fr *Frame, res []*Term, in *ssa.Return) // any inlined function's return
	store     func(st *State, addr, val *Term, in ssa.Instruction)
	mapUpdate func(st *State, m, k, v *Term, in ssa.Instruction)
	lookup    func(st *State, m, k *Term, in ssa.Instruction)
	index     func(st *State, base, idx *Term, in ssa.Instruction)
	convert   func(st *State, from, to types.Type, x, r *Term, in *ssa.Convert)
	implied   func(st *State, f *Term) bool
	templates func(states []*State, j *Term, ts []*Term) []*Term
	joined    func(states []*State) []*Term // candidate facts about values that are the same in all states
	start     func(st *State, root *ssa.Function, params []*Term)
	discard   func(st *State, d *deferred)              // unused
	instr     func(st *State, in ssa.Instruction)       // before every instruction
	builtin   func(st *State, c *CallInfo, name string) // before a builtin
	stub      func(st *State, c *CallInfo) []*Term      // results to use instead of analysing a module function
	prune     func(st *State)                           // before a state is merged with others
}

type CallInfo struct {
	instr    ssa.Instruction
	common   *ssa.CallCommon
	name     string // canonical name of an external callee or module function
	fn       *ssa.Function
	args     []*Term // receiver first
	res      []*Term
	frame    *Frame
	deferred bool
	invoke   bool
}

type Obligation struct {
	kind   string
	instr  ssa.Instruction
	fn     *ssa.Function
	ok     bool
	detail string
	roots  map[string]bool
	seen   map[string]bool
	visits int
}

func (it *Interp) oblige(st *State, kind string, in ssa.Instruction, ok bool, detail func() string) {
	k := kind + "|" + fnID(in.Parent()) + "|" + instrKey(in)
	o := it.obls[k]
	if o == nil {
		o = &Obligation{kind: kind, instr: in, fn: in.Parent(), ok: true, roots: map[string]bool{}, seen: map[string]bool{}}
		it.obls[k] = o
	}
	o.visits++
	o.seen[it.root.String()] = true
	if !ok {
		if o.ok {
			o.detail = detail()
		}
		o.ok = false
		o.roots[it.root.String()] = true
	}
}

func (it *Interp) problem(key, msg string) {
	if _, ok := it.problems[key]; !ok {
		it.problems[key] = msg
	}
}

// ---- per function information ----

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	order map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	live  map[*ssa.BasicBlock]map[ssa.Value]bool       // live at entry (phis of the block included)
	irred bool
}

func (it *Interp) info(fn *ssa.Function) *fnInfo {
	if i, ok := it.fnInf[fn]; ok {
		return i
	}
	i := &fnInfo{order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	it.fnInf[fn] = i
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for k := len(b.Succs) - 1; k >= 0; k-- {
			if !seen[b.Succs[k]] {
				dfs(b.Succs[k])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for k := len(post) - 1; k >= 0; k-- {
		i.order[post[k]] = len(i.rpo)
		i.rpo = append(i.rpo, post[k])
	}
	for _, b := range i.rpo {
		for _, s := range b.Succs {
			if i.order[s] <= i.order[b] {
				// retreating edge
				if !s.Dominates(b) {
					i.irred = true
					continue
				}
				body := i.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					for _, p := range x.Preds {
						if _, ok := i.order[p]; ok {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// rpo must keep loop bodies contiguous enough: iteration over a region in rpo order is fine for
	// reducible graphs.
	// liveness
	i.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		i.live[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for k := len(i.rpo) - 1; k >= 0; k-- {
			b := i.rpo[k]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.live[s] {
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == b && tracked(phi.Edges[pi]) {
							live[phi.Edges[pi]] = true
						}
					}
				}
			}
			var ops []*ssa.Value
			for n := len(b.Instrs) - 1; n >= 0; n-- {
				in := b.Instrs[n]
				if v, ok := in.(ssa.Value); ok {
					if _, phi := in.(*ssa.Phi); !phi {
						delete(live, v)
					}
				}
				if _, phi := in.(*ssa.Phi); phi {
					live[in.(ssa.Value)] = true
					continue
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if tracked(*o) {
						live[*o] = true
					}
				}
			}
			if len(live) != len(i.live[b]) {
				i.live[b] = live
				changed = true
			}
		}
	}
	return i
}

// ---- execution of a function ----

type Exit struct {
	st  *State
	res []*Term
	ret *ssa.Return
}

type fexec struct {
	it   *Interp
	fn   *ssa.Function
	info *fnInfo
	fr   *Frame
}

type edgeOut struct {
	to *ssa.BasicBlock
	st *State
}

// call runs fn in frame fr starting from st, whose env must hold the parameters.
func (it *Interp) runFn(fr *Frame, st *State) []*Exit {
	x := &fexec{it: it, fn: fr.fn, info: it.info(fr.fn), fr: fr}
	it.covered[fr.fn] = true
	if x.info.irred {
		it.problem("irreducible:"+fr.fn.String(), "irreducible control flow in "+fr.fn.String())
		return nil
	}
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range x.info.rpo {
		region[b] = true
	}
	st.ctx = fr
	_, _, rets := x.run(region, fr.fn.Blocks[0], []*State{st}, nil)
	return x.mergeExits(rets)
}

// splitErr separates the exits of a function whose error result is not known to be nil or not, so that
// what is known about the other results survives the merge of exits.
func (x *fexec) splitErr(rets []*Exit) []*Exit {
	if x.fr.parent == nil {
		return rets
	}
	var out []*Exit
	for _, e := range rets {
		n := len(e.res)
		if n < 2 || !isErrorType(x.fn.Signature.Results().At(n-1).Type()) || e.st.nilness(e.res[n-1]) != 0 {
			out = append(out, e)
			continue
		}
		c := mkEq(e.res[n-1], nilTerm)
		bad := e.st.clone()
		good := e.st
		if good.assume(c, true) {
			res := append([]*Term{}, e.res...)
			res[n-1] = nilTerm
			out = append(out, &Exit{st: good, res: res, ret: e.ret})
		}
		if bad.assume(c, false) {
			out = append(out, &Exit{st: bad, res: e.res, ret: e.ret})
		}
	}
	return out
}

func (x *fexec) mergeExits(rets []*Exit) []*Exit {
	rets = x.splitErr(rets)
	groups := map[string][]*Exit{}
	var keys []string
	for _, r := range rets {
		k := ""
		for _, t := range r.res {
			k += x.it.valueKey(r.st, t, true) + ";"
		}
		for _, h := range x.it.exitKeys(r.st) {
			k += h
		}
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], r)
	}
	sort.Strings(keys)
	var out []*Exit
	for _, k := range keys {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		var states []*State
		for _, e := range g {
			e.st.ctx = x.fr
			states = append(states, e.st)
		}
		nres := len(g[0].res)
		res := make([]*Term, nres)
		sp := &joinSpec{frame: x.fr, tag: "exit" + k, live: map[ssa.Value]bool{}}
		for i := 0; i < nres; i++ {
			i := i
			s := slot{name: fmt.Sprint("r", i), set: func(_ *State, t *Term) { res[i] = t }}
			s.typ = x.fn.Signature.Results().At(i).Type()
			for _, e := range g {
				s.ts = append(s.ts, e.res[i])
			}
			sp.extra = append(sp.extra, s)
		}
		j := x.it.join(sp, states)
		out = append(out, &Exit{st: j, res: res, ret: g[0].ret})
	}
	return out
}

// valueKey describes the distinguishing feature of a value for partitioning.
func (it *Interp) valueKey(st *State, t *Term, consts bool) string {
	if t == nil {
		return "?"
	}
	if b, ok := t.boolVal(); ok {
		return fmt.Sprint(b)
	}
	if t.op == "const" {
		if consts {
			return "c" + t.val.ExactString()
		}
		return ""
	}
	if t.op == "mkiface" {
		return "i" + t.aux
	}
	if consts && isAlloc(t) && t.typ != nil {
		if _, ok := moduleStruct(t.typ); ok {
			return fmt.Sprint("A", t.id)
		}
	}
	if t.isNil() {
		return "n"
	}
	if t.op == "func" || t.op == "closure" {
		return "f" + t.aux
	}
	if t.typ != nil {
		switch u := t.typ.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Signature:
			switch st.nilness(t) {
			case 1:
				return "n"
			case 2:
				if it.freshErrKey(t) {
					return "E"
				}
				return "N"
			}
			return "?"
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				if v, ok := st.decide(t); ok {
					return fmt.Sprint(v)
				}
			}
			if consts && u.Info()&types.IsString != 0 {
				if c := st.constOf(t); c != nil {
					return "c" + c.val.ExactString()
				}
			}
		}
	}
	switch st.nilness(t) {
	case 2:
		return "N"
	case 1:
		return "n"
	}
	return "?"
}

func (it *Interp) freshErrKey(t *Term) bool { return false }

func (it *Interp) exitKeys(st *State) []string { return nil }

func (x *fexec) key(b *ssa.BasicBlock, st *State) string {
	var sb strings.Builder
	var vals []ssa.Value
	for v := range x.info.live[b] {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return valKey(vals[i]) < valKey(vals[j]) })
	for _, v := range vals {
		t, ok := st.env[v]
		if !ok {
			continue
		}
		_, isPhi := v.(*ssa.Phi)
		switch u := v.Type().Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Signature:
			if isAlloc(t) && t.typ != nil && t.sym.frame != nil && t.sym.frame.base() != x.fr.base() {
				if _, ok := moduleStruct(t.typ); ok {
					sb.WriteString(valKey(v) + fmt.Sprint("=A", t.id, ";"))
					continue
				}
			}
			if t.sym != nil && (t.sym.kind == "alloc" || t.sym.kind == "param") {
				continue
			}
			sb.WriteString(valKey(v) + "=" + x.it.valueKey(st, t, false) + ";")
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				if b, ok := t.boolVal(); ok {
					sb.WriteString(valKey(v) + "=" + fmt.Sprint(b) + ";")
				} else if k, ok := st.decide(t); ok {
					sb.WriteString(valKey(v) + "=" + fmt.Sprint(k) + ";")
				}
			} else if in, isInstr := v.(ssa.Instruction); isInstr && (isPhi || u.Info()&types.IsString != 0) && t.op == "const" && x.info.loops[in.Block()] == nil {
				sb.WriteString(valKey(v) + "=" + t.val.ExactString() + ";")
			}
		case *types.Slice, *types.Map:
			if t.isNil() {
				sb.WriteString(valKey(v) + "=n;")
			}
		}
	}
	// local variables held in memory (captured by closures)
	var cells []*Term
	for a := range st.mem {
		if isAlloc(a) && a.sym.frame != nil && a.sym.frame.base() == x.fr.base() {
			cells = append(cells, a)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, a := range cells {
		v := st.mem[a]
		t := a.typ
		if t == nil {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Interface, *types.Pointer:
			sb.WriteString(fmt.Sprintf("m%d=%s;", a.id, x.it.valueKey(st, v, false)))
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				sb.WriteString(fmt.Sprintf("m%d=%s;", a.id, x.it.valueKey(st, v, false)))
			}
		}
	}
	for _, d := range st.defers {
		sb.WriteString("d" + instrKey(d.instr) + ";")
	}
	if st.ctx != x.fr {
		sb.WriteString(st.ctx.id)
	}
	return sb.String()
}

const maxParts = 48

func (x *fexec) merge(b *ssa.BasicBlock, in []*State) []*State {
	if len(in) <= 1 {
		return in
	}
	groups := map[string][]*State{}
	var keys []string
	for _, st := range in {
		k := x.key(b, st)
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], st)
	}
	if len(keys) > maxParts {
		// too many cases: keep only the deferred calls and context apart
		ng := map[string][]*State{}
		var nk []string
		for _, k := range keys {
			for _, st := range groups[k] {
				c := ""
				for _, d := range st.defers {
					c += "d" + instrKey(d.instr) + ";"
				}
				c += st.ctx.id
				if _, ok := ng[c]; !ok {
					nk = append(nk, c)
				}
				ng[c] = append(ng[c], st)
			}
		}
		groups, keys = ng, nk
	}
	sort.Strings(keys)
	var out []*State
	for _, k := range keys {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		j := x.it.join(&joinSpec{frame: g[0].ctx, tag: fmt.Sprintf("b%d:%s", b.Index, k), live: x.info.live[b]}, g)
		markBlk(j, b)
		out = append(out, j)
	}
	return out
}

// join symbols remember the block they were made at, for staleness.
func markBlk(st *State, b *ssa.BasicBlock) {}

var symBlk = map[*Term]*ssa.BasicBlock{}

// run executes the blocks of a region (a whole function or a loop body) once, in reverse post order;
// inner loops are brought to a fixed point. header is the loop header when region is a loop body.
func (x *fexec) run(region map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, in []*State, header *ssa.BasicBlock) (exits map[*ssa.BasicBlock][]*State, back []*State, rets []*Exit) {
	exits = map[*ssa.BasicBlock][]*State{}
	pend := map[*ssa.BasicBlock][]*State{start: in}
	done := map[*ssa.BasicBlock]bool{}
	route := func(outs []edgeOut) {
		for _, o := range outs {
			switch {
			case header != nil && o.to == header:
				back = append(back, o.st)
			case region[o.to]:
				pend[o.to] = append(pend[o.to], o.st)
			default:
				exits[o.to] = append(exits[o.to], o.st)
			}
		}
	}
	for _, b := range x.info.rpo {
		if !region[b] || done[b] {
			continue
		}
		states := pend[b]
		if len(states) == 0 {
			continue
		}
		if body := x.info.loops[b]; body != nil && b != header {
			outs, r := x.loop(b, body, x.merge(b, states))
			rets = append(rets, r...)
			for n := range body {
				done[n] = true
			}
			route(outs)
			continue
		}
		for _, st := range x.merge(b, states) {
			outs, r := x.block(b, st)
			rets = append(rets, r...)
			route(outs)
		}
	}
	return
}

func flat(exits map[*ssa.BasicBlock][]*State) []edgeOut {
	var bs []*ssa.BasicBlock
	for b := range exits {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	var r []edgeOut
	for _, b := range bs {
		for _, st := range exits[b] {
			r = append(r, edgeOut{b, st})
		}
	}
	return r
}

const maxUnroll = 24

// loop analyses a loop starting from the given states at its header.
func (x *fexec) loop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry []*State) (outs []edgeOut, rets []*Exit) {
	ctx := x.fr
	if len(entry) > 0 {
		ctx = entry[0].ctx
	}
	restore := func(os []edgeOut) {
		for _, o := range os {
			o.st.ctx = ctx
		}
	}
	// iterations whose entry condition folds to a constant are executed one by one
	cur := entry
	for k := 0; k < maxUnroll && len(cur) > 0; k++ {
		fold := true
		for _, st := range cur {
			if !x.foldsTrue(h, body, st) {
				fold = false
			}
		}
		if !fold {
			break
		}
		uf := mkFrame2(ctx, h, k)
		for _, st := range cur {
			st.ctx = uf
		}
		ex, back, r := x.run(body, h, cur, h)
		o := flat(ex)
		restore(o)
		outs = append(outs, o...)
		rets = append(rets, r...)
		for _, st := range back {
			st.ctx = ctx
		}
		cur = x.merge(h, back)
	}
	if len(cur) == 0 {
		return
	}
	stale := func(t *Term) bool { return staleIn(t, ctx, h, body) }
	heads := map[string]*State{}
	musts := map[string]map[string]bool{}
	var backs []*State
	for iter := 0; ; iter++ {
		groups := map[string][]*State{}
		var keys []string
		for _, st := range append(append([]*State{}, cur...), backs...) {
			k := x.key(h, st)
			if _, ok := groups[k]; !ok {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], st)
		}
		for k := range heads { // a head once seen stays
			if _, ok := groups[k]; !ok {
				groups[k] = []*State{heads[k]}
				keys = append(keys, k)
			}
		}
		if len(keys) > maxParts {
			groups = map[string][]*State{"all": append(append([]*State{}, cur...), backs...)}
			keys = []string{"all"}
		}
		sort.Strings(keys)
		newHeads := map[string]*State{}
		stable := iter > 0
		for _, k := range keys {
			if musts[k] == nil {
				musts[k] = map[string]bool{}
			}
			sp := &joinSpec{frame: ctx, tag: fmt.Sprintf("L%d:%s", h.Index, k), live: x.info.live[h], stale: stale, mustJ: musts[k], jnames: musts[k]}
			if iter >= 4 {
				sp.allowed = heads[k]
			}
			j := x.it.join(sp, groups[k])
			j.ctx = ctx
			newHeads[k] = j
			if old := heads[k]; old == nil || !sameState(old, j) {
				stable = false
			}
		}
		if len(newHeads) != len(heads) {
			stable = false
		}
		heads = newHeads
		if stable && iter > 0 {
			// one more pass over the body gives the exits of the stable state
		}
		if iter > 60 {
			x.it.problem("loop:"+x.fn.String()+fmt.Sprint(h.Index), "loop analysis did not converge in "+x.fn.String())
			return
		}
		var hs []*State
		for _, k := range keys {
			c := heads[k].clone()
			hs = append(hs, c)
		}
		if !stable {
			x.it.unstable++
		}
		ex, back, r := x.runHeads(body, h, hs)
		if !stable {
			x.it.unstable--
		}
		if stable {
			o := flat(ex)
			restore(o)
			outs = append(outs, o...)
			rets = append(rets, r...)
			return
		}
		for _, st := range back {
			st.ctx = ctx
		}
		backs = x.merge(h, back)
	}
}

func (x *fexec) runHeads(body map[*ssa.BasicBlock]bool, h *ssa.BasicBlock, hs []*State) (map[*ssa.BasicBlock][]*State, []*State, []*Exit) {
	// the head states stay apart even when merge would group them: their keys differ anyway
	return x.run(body, h, hs, h)
}

func mkFrame2(ctx *Frame, h *ssa.BasicBlock, k int) *Frame {
	id := fmt.Sprintf("%s#%d.%d", ctx.id, h.Index, k)
	if f, ok := frameTab[id]; ok {
		return f
	}
	f := &Frame{id: id, fn: ctx.fn, parent: ctx.parent, call: ctx.call, unroll: ctx, depth: ctx.depth}
	frameTab[id] = f
	unrollHdr[f] = h
	return f
}

var unrollHdr = map[*Frame]*ssa.BasicBlock{}

// staleIn: is the symbol (re)defined by each iteration of the loop with header h in frame ctx?
func staleIn(t *Term, ctx *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	s := t.sym
	if s == nil || s.frame == nil {
		return false
	}
	f := s.frame
	var blk *ssa.BasicBlock
	if s.instr != nil {
		blk = s.instr.Block()
	} else if s.kind == "join" || s.kind == "ver" {
		blk = joinBlock(s)
	}
	for f != nil {
		if f == ctx {
			return blk == nil || body[blk]
		}
		if f.unroll != nil {
			if f.unroll == ctx && unrollHdr[f] == h {
				return false
			}
			f = f.unroll
			continue
		}
		if f.call != nil {
			blk = f.call.Block()
		} else {
			blk = nil
		}
		f = f.parent
	}
	return false
}

// joinBlock recovers the block a join symbol belongs to from its name.
func joinBlock(s *SymInfo) *ssa.BasicBlock {
	n := s.name
	if n == "" || s.frame == nil {
		return nil
	}
	if n[0] == 'b' || n[0] == 'L' {
		v := 0
		i := 1
		for i < len(n) && n[i] >= '0' && n[i] <= '9' {
			v = v*10 + int(n[i]-'0')
			i++
		}
		fn := s.frame.fn
		if i > 1 && v < len(fn.Blocks) {
			return fn.Blocks[v]
		}
	}
	return nil
}

// foldsTrue: does the loop condition at header h fold to a constant in this state, by constants and
// literal lengths alone, so that the loop is entered?
func (x *fexec) foldsTrue(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if !(body[h.Succs[0]] != body[h.Succs[1]]) {
		return false
	}
	// only instructions without effects before the If
	env := map[ssa.Value]*Term{}
	get := func(v ssa.Value) *Term {
		if t, ok := env[v]; ok {
			return t
		}
		return x.it.peekValue(st, v)
	}
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Phi:
			t, ok := st.env[in]
			if !ok {
				return false
			}
			env[in] = t
		case *ssa.BinOp:
			a, b := get(in.X), get(in.Y)
			if a == nil || b == nil {
				return false
			}
			if isInteger(in.X.Type()) && a.op == "const" && b.op == "const" {
				env[in] = x.it.binop(st, in.Op, a, b, in.X.Type(), in.Type())
			} else {
				return false
			}
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := get(in.Call.Args[0])
				if a == nil {
					return false
				}
				env[in] = mkLen(a)
				continue
			}
			return false
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	c := get(iff.Cond)
	if c == nil {
		return false
	}
	b, ok := c.boolVal()
	if !ok {
		return false
	}
	// when the condition is constant and leaves the loop, executing the header once is exact too
	if b {
		return body[h.Succs[0]]
	}
	return true
}

func (it *Interp) peekValue(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return mkConst(v.Value, v.Type())
	}
	return st.env[v]
}

// block executes one block from its first non-phi instruction.
func (x *fexec) block(b *ssa.BasicBlock, st0 *State) (outs []edgeOut, rets []*Exit) {
	type work struct {
		st *State
		i  int
	}
	start := 0
	for start < len(b.Instrs) {
		if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	x.it.blocks[b] = true
	stack := []work{{st0, start}}
	for len(stack) > 0 {
		w := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		st, i := w.st, w.i
	loop:
		for i < len(b.Instrs) {
			x.it.steps++
			if x.it.steps > x.it.maxSteps {
				x.it.problem("budget", "analysis budget exhausted in "+x.it.root.String())
				return nil, nil
			}
			in := b.Instrs[i]
			i++
			switch in := in.(type) {
			case *ssa.If:
				c := x.it.value(st, in.Cond)
				t := st.clone()
				if t.assume(c, true) {
					outs = append(outs, edgeOut{b.Succs[0], x.edge(b, b.Succs[0], t)})
				}
				if st.assume(c, false) {
					outs = append(outs, edgeOut{b.Succs[1], x.edge(b, b.Succs[1], st)})
				}
				break loop
			case *ssa.Jump:
				outs = append(outs, edgeOut{b.Succs[0], x.edge(b, b.Succs[0], st)})
				break loop
			case *ssa.Return:
				var res []*Term
				for _, r := range in.Results {
					res = append(res, x.it.value(st, r))
				}
				for _, h := range x.it.hooks {
					if h.fnret != nil {
						h.fnret(st, st.ctx, res, in)
					}
				}
				rets = append(rets, &Exit{st: st, res: res, ret: in})
				break loop
			case *ssa.Panic:
				x.it.oblige(st, "panic", in, false, func() string { return "explicit panic is reachable" })
				break loop
			case *ssa.RunDefers:
				sts := x.runDefers(st)
				if len(sts) == 0 {
					break loop
				}
				for _, s := range sts[1:] {
					stack = append(stack, work{s, i})
				}
				st = sts[0]
			case *ssa.Call:
				sts := x.it.call(st, in, &in.Call, in)
				if len(sts) == 0 {
					break loop
				}
				for _, s := range sts[1:] {
					stack = append(stack, work{s, i})
				}
				st = sts[0]
			default:
				if !x.it.instr(st, in, x) {
					break loop
				}
			}
		}
	}
	return
}

// edge moves a state along a control flow edge, assigning the phis of the target.
func (x *fexec) edge(from, to *ssa.BasicBlock, st *State) *State {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, x.it.value(st, phi.Edges[pi]))
	}
	// an If with both edges to the same block: both preds equal; phi edges may differ but then SSA
	// would have split them
	for i, phi := range phis {
		st.env[phi] = vals[i]
	}
	// drop values that are no longer live
	live := x.info.live[to]
	for v := range st.env {
		if !live[v] {
			delete(st.env, v)
		}
	}
	return st
}

func (x *fexec) runDefers(st *State) []*State {
	if len(st.defers) == 0 {
		return []*State{st}
	}
	var mine []*deferred
	var rest []*deferred
	for _, d := range st.defers {
		if d.frame.base() == x.fr.base() {
			mine = append(mine, d)
		} else {
			rest = append(rest, d)
		}
	}
	st.defers = rest
	states := []*State{st}
	for i := len(mine) - 1; i >= 0; i-- {
		d := mine[i]
		var next []*State
		for _, s := range states {
			next = append(next, x.it.callTerm(s, d.instr, &d.instr.Call, d.fn, d.args, nil, true)...)
		}
		states = next
	}
	return states
}

// value evaluates an SSA operand.
func (it *Interp) value(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return globalAddr(v)
	case *ssa.Function:
		return app("func", v.String(), v.Type())
	case *ssa.Builtin:
		return app("builtin", v.Name(), v.Type())
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	// free variables and anything not seen: unknown
	t := mkSym("free", v.Name(), v.Type(), st.ctx.base(), nil)
	st.env[v] = t
	return t
}

func globalAddr(g *ssa.Global) *Term {
	t := mkSym("global", g.String(), g.Type().Underlying().(*types.Pointer).Elem(), nil, nil)
	globalOf[t] = g
	return t
}

var globalOf = map[*Term]*ssa.Global{}

func (it *Interp) fresh(st *State, kind string, in ssa.Instruction, name string, typ types.Type) *Term {
	return mkSym(kind, name+"."+instrKeyOf(in), typ, st.ctx, in)
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (it *Interp) notNil(st *State, t *Term, in ssa.Instruction, what string) bool {
	n := st.nilness(t)
	it.oblige(st, "nil", in, n == 2, func() string { return what + " may be nil (" + t.String() + ")" + debugVal(st, t) })
	if n == 1 {
		return false
	}
	if n == 0 {
		st.truth[mkEq(t, nilTerm)] = false
	}
	return true
}

// instr executes a straight-line instruction; false when the path cannot continue.
func (it *Interp) instr(st *State, in ssa.Instruction, x *fexec) bool {
	for _, h := range it.hooks {
		if h.instr != nil {
			h.instr(st, in)
		}
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := derefType(in.Type())
		a := mkSym("alloc", in.Name()+"."+instrKey(in), t, st.ctx, in)
		// a re-executed allocation is a new object: forget the contents of the previous one
		for c := range st.mem {
			if addrRoot(c) == a {
				delete(st.mem, c)
			}
		}
		delete(st.may, "escaped|"+fmt.Sprint(a.id))
		for f := range st.truth {
			if f.contains(a) {
				delete(st.truth, f)
			}
		}
		st.setFact(zeroedFact(a))
		st.env[in] = a
	case *ssa.BinOp:
		a, b := it.value(st, in.X), it.value(st, in.Y)
		if in.Op == token.QUO || in.Op == token.REM {
			if isInteger(in.X.Type()) {
				ok := false
				if n, isC := b.intVal(); isC {
					ok = n != 0
				} else if v, known := st.decide(mkIntEq(b, mkInt(0))); known {
					ok = !v
				}
				it.oblige(st, "div", in, ok, func() string { return "division by " + b.String() + " which may be zero" })
			}
		}
		if in.Op == token.SHL || in.Op == token.SHR {
			if isSigned(in.Y.Type()) && b.op != "const" {
				it.oblige(st, "shift", in, st.nonNeg(b), func() string { return "shift count may be negative" })
			}
		}
		if (in.Op == token.EQL || in.Op == token.NEQ) && types.IsInterface(in.X.Type()) && types.IsInterface(in.Y.Type()) {
			// comparing interfaces holding uncomparable dynamic types panics; only module types matter
			it.cmpIface(st, in, a, b)
		}
		st.env[in] = it.binop(st, in.Op, a, b, in.X.Type(), in.Type())
	case *ssa.UnOp:
		return it.unop(st, in)
	case *ssa.Phi:
	case *ssa.ChangeType:
		v := it.value(st, in.X)
		st.env[in] = v
	case *ssa.ChangeInterface:
		st.env[in] = it.value(st, in.X)
	case *ssa.Convert:
		return it.convert(st, in)
	case *ssa.MultiConvert:
		st.env[in] = it.fresh(st, "conv", in, "multi", in.Type())
	case *ssa.SliceToArrayPointer:
		x := it.value(st, in.X)
		n := derefType(in.Type()).Underlying().(*types.Array).Len()
		ok := st.proveLin(linConst(n).sub(toLin(mkLen(x))))
		it.oblige(st, "slice2arr", in, ok, func() string { return "slice may be too short for array conversion" })
		st.env[in] = app("s2a", typeKey(in.Type()), in.Type(), x)
	case *ssa.MakeInterface:
		v := it.value(st, in.X)
		if v.op == "struct" {
			it.publish(st, v, in.X.Type())
		}
		if _, isP := in.X.Type().Underlying().(*types.Pointer); isP && st.nilness(v) != 2 {
			it.inv.refute(it.inv.notNonNil, "i:"+typeKey(in.X.Type()), "boxed "+v.String())
		}
		st.env[in] = it.mkIface(v, in.X.Type(), in.Type())
	case *ssa.Extract:
		tup := it.value(st, in.Tuple)
		if tup.op == "tuple" {
			st.env[in] = tup.args[in.Index]
		} else {
			st.env[in] = app("extract", fmt.Sprint(in.Index), in.Type(), tup)
		}
	case *ssa.Field:
		v := it.value(st, in.X)
		st.env[in] = projField(v, in.X.Type(), in.Field)
	case *ssa.FieldAddr:
		p := it.value(st, in.X)
		if !it.notNil(st, p, in, "base of field "+fieldName(in.X.Type(), in.Field)) {
			return false
		}
		ft := derefType(in.Type())
		st.env[in] = fieldAddr(p, fieldID(in.X.Type(), in.Field), ft)
	case *ssa.Index:
		base, idx := it.value(st, in.X), it.value(st, in.Index)
		n := mkLen(base)
		if arr, ok := in.X.Type().Underlying().(*types.Array); ok {
			n = mkInt(arr.Len())
		}
		it.checkIndex(st, in, idx, n, base)
		if v := elemOf(base, idx); v != nil {
			st.env[in] = v
		} else {
			st.env[in] = app("elemval", "", in.Type(), base, idx)
		}
	case *ssa.IndexAddr:
		base, idx := it.value(st, in.X), it.value(st, in.Index)
		var n *Term
		et := derefType(in.Type())
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			n = mkInt(p.Elem().Underlying().(*types.Array).Len())
			if !it.notNil(st, base, in, "array pointer") {
				return false
			}
		} else {
			n = mkLen(base)
		}
		it.checkIndex(st, in, idx, n, base)
		st.env[in] = it.elemAddr(st, base, idx, et)
		for _, h := range it.hooks {
			if h.index != nil {
				h.index(st, base, idx, in)
			}
		}
	case *ssa.Lookup:
		return it.lookup(st, in)
	case *ssa.Slice:
		return it.slice(st, in)
	case *ssa.MakeSlice:
		n := it.value(st, in.Len)
		c := it.value(st, in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		it.checkMake(st, in, n, c, et)
		if !st.addLinQ(linConst(0).sub(toLin(n))) {
			return false
		}
		m := app("make", "", in.Type(), mkSym("alloc", in.Name()+"."+instrKey(in), in.Type(), st.ctx, in), n)
		it.resetObject(st, m)
		st.setFact(zeroedFact(m))
		st.env[in] = m
	case *ssa.MakeMap:
		if in.Reserve != nil {
			n := it.value(st, in.Reserve)
			it.checkMakeMap(st, in, n)
		}
		m := mkSym("alloc", in.Name()+"."+instrKey(in), in.Type(), st.ctx, in)
		it.resetObject(st, m)
		st.setFact(fact("emptymap", "", m, st.version(mapClass(in.Type()))))
		st.setFact(zeroedFact(m))
		st.env[in] = m
	case *ssa.MakeChan:
		st.env[in] = app("makechan", "", in.Type(), it.fresh(st, "alloc", in, "chan", in.Type()))
	case *ssa.MakeClosure:
		args := []*Term{}
		for _, b := range in.Bindings {
			v := it.value(st, b)
			args = append(args, v)
		}
		st.env[in] = app("closure", in.Fn.(*ssa.Function).String(), in.Type(), args...)
	case *ssa.MapUpdate:
		m := it.value(st, in.Map)
		k, v := it.value(st, in.Key), it.value(st, in.Value)
		ok := st.nilness(m) == 2
		it.oblige(st, "nilmap", in, ok, func() string { return "assignment to a map that may be nil" })
		it.checkKey(st, in, k, in.Key.Type())
		for _, h := range it.hooks {
			if h.mapUpdate != nil {
				h.mapUpdate(st, m, k, v, in)
			}
		}
		class := mapClass(in.Map.Type())
		sum := mapSumAddr(m)
		if old, has := st.mem[sum]; has {
			// summary of all values stored so far
			st.mem[sum] = it.weakJoin(st, old, v, in)
		} else if st.hasFact(fact("emptymap", "", m, st.version(class))) {
			st.mem[sum] = v
		}
		all := it.wholeMap(st, m, k, v, class)
		st.newVersion(class, st.ctx, in, "mu")
		if all != nil {
			st.mem[app("mapall", "", nil, m, st.version(class))] = all
		}
		st.truth[app("has", "", types.Typ[types.Bool], m, k, st.version(class))] = true
		st.mem[app("mapel", "", v.typ, m, k, st.version(class))] = v
		st.markEscaped(v)
		it.inv.noteMapStore(it, st, in.Map.Type(), v)
	case *ssa.Range:
		st.env[in] = app("range", instrKey(in), in.Type(), it.value(st, in.X), mkSym("range", instrKey(in), nil, st.ctx, in))
	case *ssa.Next:
		return it.next(st, in)
	case *ssa.Select, *ssa.Send, *ssa.Go:
		it.problem("conc:"+in.Parent().String()+instrKey(in), "concurrency construct not modelled in "+in.Parent().String())
		if v, ok := in.(ssa.Value); ok {
			st.env[v] = it.fresh(st, "conc", in, "", v.Type())
		}
	case *ssa.Store:
		p, v := it.value(st, in.Addr), it.value(st, in.Val)
		if !it.notNil(st, p, in, "store target") {
			return false
		}
		for _, h := range it.hooks {
			if h.store != nil {
				h.store(st, p, v, in)
			}
		}
		it.inv.noteStore(it, st, p, v, in.Val.Type())
		st.store(p, v, in.Val.Type(), st.ctx, in)
		if p.op == "elemaddr" {
			it.noteFilled(st, p.args[0], p.args[1], v)
		}
	case *ssa.TypeAssert:
		return it.typeAssert(st, in)
	case *ssa.Defer:
		d := &deferred{instr: in, frame: st.ctx}
		d.fn, d.args = it.resolveCallee(st, &in.Call, in)
		// the same defer twice (a loop): the earlier one stays too
		n := 0
		for _, o := range st.defers {
			if o.instr == in {
				n++
			}
		}
		if n > 4 {
			it.problem("defer:"+in.Parent().String(), "unbounded deferred calls in "+in.Parent().String())
			return true
		}
		st.defers = append(append([]*deferred(nil), st.defers...), d)
	default:
		it.problem(fmt.Sprintf("instr:%T", in), fmt.Sprintf("instruction %T not modelled", in))
		if v, ok := in.(ssa.Value); ok {
			st.env[v] = it.fresh(st, "unknown", in, "", v.Type())
		}
	}
	return true
}

// addLinQ records a constraint; false when contradictory.
func (st *State) addLinQ(l Lin) bool { return st.addLin(l) }

// resetObject removes what is known about an object that is about to be allocated (again).
func (it *Interp) resetObject(st *State, m *Term) {
	for c := range st.mem {
		if addrRoot(c) == m || c.contains(m) {
			delete(st.mem, c)
		}
	}
	for f := range st.truth {
		if f.contains(m) {
			delete(st.truth, f)
		}
	}
	delete(st.may, "escaped|"+fmt.Sprint(m.id))
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func fieldName(t types.Type, i int) string {
	return derefType(t).Underlying().(*types.Struct).Field(i).Name()
}

func mapClass(t types.Type) string { return "m:" + typeKey(t.Underlying()) }

func mapSumAddr(m *Term) *Term {
	var et types.Type
	if m.typ != nil {
		if mt, ok := m.typ.Underlying().(*types.Map); ok {
			et = mt.Elem()
		}
	}
	return app("mapsum", "", et, m)
}

// weakJoin gives a symbol standing for either of two values, keeping the bounds both satisfy.
func (it *Interp) weakJoin(st *State, a, b *Term, in ssa.Instruction) *Term {
	if a == b {
		return a
	}
	j := mkSym("join", "weak."+instrKey(in), b.typ, st.ctx, in)
	if j.sym.parents == nil {
		j.sym.parents = map[*Term]bool{}
	}
	if a != j {
		j.sym.parents[a] = true
	}
	j.sym.parents[b] = true
	type cand struct{ l Lin }
	var keep []Lin
	if isIntTerm(b) {
		cs := []Lin{linTerm(j).neg()}
		var ls []Lin
		for _, l := range st.lin.m {
			ls = append(ls, l)
		}
		for _, l := range ls {
			for _, t := range []*Term{a, b} {
				tl := toLin(t)
				if len(tl.ps) == 1 && tl.ps[0].k == 1 && tl.c == 0 {
					if k := l.coef(tl.ps[0].t); k != 0 {
						cs = append(cs, substLin(l, map[*Term]*Term{tl.ps[0].t: j}))
					}
				}
			}
		}
		for _, c := range cs {
			if st.proveLin(substLin(c, map[*Term]*Term{j: a})) && st.proveLin(substLin(c, map[*Term]*Term{j: b})) {
				keep = append(keep, c)
			}
		}
	}
	nn := st.nilness(a) == 2 && st.nilness(b) == 2
	// old facts about j are replaced
	for k, l := range st.lin.m {
		if l.coef(j) != 0 {
			st.lin.del(k)
		}
	}
	for t := range st.truth {
		if t.contains(j) {
			delete(st.truth, t)
		}
	}
	for _, c := range keep {
		st.lin.add(c)
	}
	if nn {
		st.truth[mkEq(j, nilTerm)] = false
	}
	return j
}

func (it *Interp) elemAddr(st *State, base, idx *Term, et types.Type) *Term {
	// element i of x[lo:hi] is element lo+i of x
	for base.op == "slice" {
		idx = fromLin(toLin(idx).add(toLin(base.args[1])), types.Typ[types.Int])
		base = base.args[0]
	}
	if base.op == "arr" {
		base = base.args[0]
	}
	return app("elemaddr", "", et, base, idx)
}

func mkIntEq(a, b *Term) *Term { return mkEq(a, b) }

func (it *Interp) checkIndex(st *State, in ssa.Instruction, idx, n, base *Term) {
	il, nl := toLin(idx), toLin(n)
	lo := st.proveLin(il.neg())
	hi := st.proveLin(il.sub(nl).plus(1))
	it.oblige(st, "index", in, lo && hi, func() string {
		return fmt.Sprintf("index %s of %s not shown to be within [0,%s)", idx, base, n)
	})
	if !lo {
		st.addLin(il.neg())
	}
	if !hi {
		st.addLin(il.sub(nl).plus(1))
	}
}

func (it *Interp) cmpIface(st *State, in *ssa.BinOp, a, b *Term) {
	for i, t := range []*Term{a, b} {
		if t.op == "mkiface" {
			o := []*Term{b, a}[i]
			if o.isNil() || o.op == "gval" || o.op == "mkiface" && o.aux != t.aux {
				continue
			}
			if ty := it.typeByKey[t.aux]; ty != nil && !types.Comparable(ty) {
				it.oblige(st, "ifacecmp", in, false, func() string { return "comparison of uncomparable dynamic type " + t.aux })
			}
		}
	}
}

func (it *Interp) checkKey(st *State, in ssa.Instruction, k *Term, t types.Type) {
	if types.IsInterface(t) && k.op != "mkiface" {
		it.oblige(st, "mapkey", in, false, func() string { return "interface map key may be unhashable" })
	}
}

func (it *Interp) mkIface(v *Term, from, to types.Type) *Term {
	if types.IsInterface(from) {
		return v
	}
	k := typeKey(from)
	it.typeByKey[k] = from
	return app("mkiface", k, to, v)
}

// typeIs: does the dynamic value x (a mkiface term) satisfy type/interface key aux?
func (it *Interp) typeIs(x *Term, aux string) bool {
	if x.aux == aux {
		return true
	}
	t := it.typeByKey[aux]
	d := it.typeByKey[x.aux]
	if t == nil || d == nil {
		return false
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(d, i)
	}
	return types.Identical(t, d)
}

func (it *Interp) binop(st *State, op token.Token, a, b *Term, xt, rt types.Type) *Term {
	bt := types.Typ[types.Bool]
	switch op {
	case token.EQL, token.NEQ:
		var t *Term
		if bb, ok := xt.Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
			// equality with "" is a length test
			if s, ok := a.strVal(); ok && s == "" {
				t = mkEq(mkLen(b), mkInt(0))
			} else if s, ok := b.strVal(); ok && s == "" {
				t = mkEq(mkLen(a), mkInt(0))
			}
		}
		if t == nil {
			t = mkEq(a, b)
		}
		if op == token.NEQ {
			return mkNot(t)
		}
		return t
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInteger(xt) {
			if isUint64(xt) {
				if t := fits64(op, a, b); t != nil {
					return t
				}
			}
			la, lb := toLin(a), toLin(b)
			switch op {
			case token.LSS:
				return mkLe0(la.sub(lb).plus(1))
			case token.LEQ:
				return mkLe0(la.sub(lb))
			case token.GTR:
				return mkNot(mkLe0(la.sub(lb)))
			case token.GEQ:
				return mkNot(mkLe0(la.sub(lb).plus(1)))
			}
		}
		if a.op == "const" && b.op == "const" {
			return mkBool(constant.Compare(a.val, op, b.val))
		}
		switch op {
		case token.LSS:
			return app("lt", "", bt, a, b)
		case token.GTR:
			return app("lt", "", bt, b, a)
		case token.LEQ:
			return mkNot(app("lt", "", bt, b, a))
		case token.GEQ:
			return mkNot(app("lt", "", bt, a, b))
		}
	case token.LAND, token.LOR:
	case token.ADD:
		if bb, ok := xt.Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
			return mkConcat(a, b, rt)
		}
	}
	if isInteger(rt) {
		return st.arith(op, a, b, rt)
	}
	return app("bin:"+op.String(), typeKey(rt), rt, a, b)
}

// fits64 recognises comparisons of an unsigned 64-bit value with the largest signed one.
func fits64(op token.Token, a, b *Term) *Term {
	f := func(x *Term) *Term { return app("fitsint64", "", types.Typ[types.Bool], x) }
	maxI := constant.MakeInt64(1<<63 - 1)
	half := constant.MakeUint64(1 << 63)
	isC := func(t *Term, v constant.Value) bool {
		return t.op == "const" && t.val.Kind() == constant.Int && constant.Compare(t.val, token.EQL, v)
	}
	switch {
	case op == token.GTR && isC(b, maxI), op == token.GEQ && isC(b, half):
		return mkNot(f(a))
	case op == token.LEQ && isC(b, maxI), op == token.LSS && isC(b, half):
		return f(a)
	case op == token.LSS && isC(a, maxI), op == token.LEQ && isC(a, half):
		return mkNot(f(b))
	case op == token.GEQ && isC(a, maxI), op == token.GTR && isC(a, half):
		return f(b)
	}
	return nil
}

func mkConcat(a, b *Term, t types.Type) *Term {
	if sa, ok := a.strVal(); ok {
		if sb, ok := b.strVal(); ok {
			return mkConst(constant.MakeString(sa+sb), t)
		}
		if sa == "" {
			return b
		}
	}
	if sb, ok := b.strVal(); ok && sb == "" {
		return a
	}
	return app("concat", "", t, a, b)
}

func (it *Interp) unop(st *State, in *ssa.UnOp) bool {
	v := it.value(st, in.X)
	switch in.Op {
	case token.MUL: // load
		if !it.notNil(st, v, in, "dereferenced pointer") {
			return false
		}
		r := st.load(v, in.Type())
		if n := st.nilness(r); v.op == "elemaddr" && nilable(in.Type()) && n != 2 {
			if it.filledTo(st, v.args[0], fromLin(toLin(v.args[1]).plus(1), types.Typ[types.Int])) {
				if n == 1 {
					return false // the element was set on every path that gets here
				}
				st.truth[mkEq(r, nilTerm)] = false
			}
		}
		st.env[in] = r
	case token.NOT:
		st.env[in] = mkNot(v)
	case token.SUB:
		if isInteger(in.Type()) {
			st.env[in] = st.arith(token.SUB, mkInt(0), v, in.Type())
		} else {
			st.env[in] = app("neg", "", in.Type(), v)
		}
	case token.XOR:
		if n, ok := v.intVal(); ok {
			st.env[in] = wrapConst(constant.MakeInt64(^n), in.Type())
		} else {
			st.env[in] = app("compl", "", in.Type(), v)
		}
	case token.ARROW:
		it.problem("conc:"+in.Parent().String(), "channel receive in "+in.Parent().String())
		st.env[in] = it.fresh(st, "recv", in, "", in.Type())
	default:
		st.env[in] = it.fresh(st, "unknown", in, "", in.Type())
	}
	return true
}

func (it *Interp) convert(st *State, in *ssa.Convert) bool {
	x := it.value(st, in.X)
	from, to := in.X.Type(), in.Type()
	var r *Term
	switch {
	case isInteger(from) && isInteger(to):
		r = st.convInt(x, from, to)
		if r == x && x.op != "const" && x.typ != nil && isUint64(to) != isUint64(typOf(x)) {
			// keep the mathematical term
		}
	case isString(from) && isByteSlice(to):
		if x.op == "bytestr" && x.aux == "s" {
			r = app("bytestr", "b", to, x.args[0])
		} else {
			r = app("bytestr", "b", to, x)
		}
	case isByteSlice(from) && isString(to):
		r = app("bytestr", "s", to, st.snapshot(x))
	default:
		r = app("convert", typeKey(to), to, x)
	}
	for _, h := range it.hooks {
		if h.convert != nil {
			h.convert(st, from, to, x, r, in)
		}
	}
	st.env[in] = r
	return true
}

// snapshot names the current contents of a byte slice.
func (st *State) snapshot(x *Term) *Term {
	r := addrRoot(x)
	if c, ok := st.mem[contentAddr(r)]; ok {
		// a slice of known contents
		if x == r {
			return app("bytesof", "", x.typ, x, c)
		}
		return app("bytesof", "", x.typ, x, c)
	}
	return x
}

// contentAddr is the pseudo location holding "what was last put into this buffer".
func contentAddr(root *Term) *Term {
	return app("content", "", types.Typ[types.UnsafePointer], root)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (it *Interp) lookup(st *State, in *ssa.Lookup) bool {
	m, k := it.value(st, in.X), it.value(st, in.Index)
	if isString(in.X.Type()) {
		it.checkIndex(st, in, k, mkLen(m), m)
		st.env[in] = app("elemval", "", in.Type(), m, k)
		return true
	}
	for _, h := range it.hooks {
		if h.lookup != nil {
			h.lookup(st, m, k, in)
		}
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	it.checkKey(st, in, k, in.Index.Type())
	val, ok := it.mapGet(st, m, k, in.X.Type(), et)
	if in.CommaOk {
		st.env[in] = app("tuple", "", in.Type(), val, ok)
	} else {
		st.env[in] = val
	}
	return true
}

// mapGet gives the value and presence of a key.
// wholeMap: everything in the map after an update, while all its keys are constants.
func (it *Interp) wholeMap(st *State, m, k, v *Term, class string) *Term {
	if k.op != "const" {
		return nil
	}
	var els []*Term
	if !st.hasFact(fact("emptymap", "", m, st.version(class))) {
		all := st.mem[app("mapall", "", nil, m, st.version(class))]
		if all == nil || all.op != "list" || len(all.args) > 32 {
			return nil
		}
		els = append(els, all.args...)
	}
	for i := 0; i < len(els); i += 2 {
		if els[i] == k {
			els[i+1] = v
			return app("list", "", nil, els...)
		}
	}
	return app("list", "", nil, append(els, k, v)...)
}

func (it *Interp) mapGet(st *State, m, k *Term, mt, et types.Type) (val, ok *Term) {
	class := mapClass(mt)
	v := st.version(class)
	bt := types.Typ[types.Bool]
	if st.nilness(m) == 1 {
		return zeroTerm(et), mkBool(false)
	}
	if c := st.constOf(k); c != nil && c.op == "const" {
		k = c
	}
	// literal tables
	if tab := it.constTable(m); tab != nil {
		none := true
		for _, e := range tab.keys {
			if eq, known := st.decide(mkEq(k, e)); !known || eq {
				none = false
				break
			}
		}
		if none {
			return zeroTerm(et), mkBool(false)
		}
		if k.op == "const" {
			if e, has := tab.get(k); has {
				return e, mkBool(true)
			}
			return zeroTerm(et), mkBool(false)
		}
		val = app("lookup", "", et, m, k, v)
		ok = app("has", "", bt, m, k, v)
		if isInteger(et) {
			lo, hi := int64(0), int64(0)
			for _, e := range tab.vals {
				if n, isN := e.intVal(); isN {
					if n < lo {
						lo = n
					}
					if n > hi {
						hi = n
					}
				} else {
					lo, hi = -linLimit+1, linLimit-1
				}
			}
			st.lin.add(linConst(lo).sub(linTerm(val)))
			st.lin.add(linTerm(val).plus(-hi))
		}
		return
	}
	if c, has := st.mem[app("mapel", "", nil, m, k, v)]; has {
		return c, mkBool(true)
	}
	ok = app("has", "", bt, m, k, v)
	if st.hasFact(fact("emptymap", "", m, v)) {
		return zeroTerm(et), mkBool(false)
	}
	if all, known := st.mem[app("mapall", "", nil, m, v)]; known && all.op == "list" && k.op != "const" && len(it.pins) > 0 {
		none := true
		for i := 0; i < len(all.args) && none; i += 2 {
			eq, known := st.decide(mkEq(k, all.args[i]))
			none = known && !eq
		}
		if none {
			return zeroTerm(et), mkBool(false)
		}
	}
	if all, known := st.mem[app("mapall", "", nil, m, v)]; known && all.op == "list" && k.op == "const" {
		for i := 0; i < len(all.args); i += 2 {
			if all.args[i] == k {
				return all.args[i+1], mkBool(true)
			}
		}
		return zeroTerm(et), mkBool(false)
	}
	val = app("lookup", "", et, m, k, v)
	if sum, has := st.mem[mapSumAddr(m)]; has {
		// what holds of every stored value holds of this one when the key is present; the facts are
		// attached when presence becomes known
		_ = sum
	}
	return
}

func (it *Interp) slice(st *State, in *ssa.Slice) bool {
	base := it.value(st, in.X)
	lo := mkInt(0)
	if in.Low != nil {
		lo = it.value(st, in.Low)
	}
	var hi *Term
	if in.High != nil {
		hi = it.value(st, in.High)
	}
	var n *Term // length
	var max Lin // capacity bound for hi
	isStr := false
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		alen := p.Elem().Underlying().(*types.Array).Len()
		if !it.notNil(st, base, in, "sliced array pointer") {
			return false
		}
		n = mkInt(alen)
		max = linConst(alen)
		base = app("arr", fmt.Sprint(alen), in.Type(), base)
	} else {
		n = mkLen(base)
		isStr = isString(in.X.Type())
		max = toLin(n)
		if !isStr {
			max = toLin(mkCap(base))
		}
	}
	h := n
	if hi != nil {
		h = hi
	}
	ll, hl := toLin(lo), toLin(h)
	okLo := st.proveLin(ll.neg())
	okLH := st.proveLin(ll.sub(hl))
	okHi := hi == nil || st.proveLin(hl.sub(toLin(n))) || st.proveLin(hl.sub(max))
	if in.Max != nil {
		mx := toLin(it.value(st, in.Max))
		okHi = okHi && st.proveLin(hl.sub(mx)) && (st.proveLin(mx.sub(toLin(n))) || st.proveLin(mx.sub(max)))
	}
	it.oblige(st, "slice", in, okLo && okLH && okHi, func() string {
		return fmt.Sprintf("slice bounds [%s:%s] of %s with length %s not shown to be valid", lo, h, base, n)
	})
	if !okLo {
		st.addLin(ll.neg())
	}
	if !okLH {
		st.addLin(ll.sub(hl))
	}
	if !okHi {
		st.addLin(hl.sub(toLin(n)))
	}
	st.env[in] = mkSlice(base, lo, hi, in.Type())
	return true
}

func mkCap(t *Term) *Term {
	switch t.op {
	case "make":
		return t.args[1]
	case "arr":
		return mkLen(t)
	case "nil":
		return mkInt(0)
	}
	return app("cap", "", types.Typ[types.Int], t)
}

func mkSlice(base, lo, hi *Term, t types.Type) *Term {
	z, isC := lo.intVal()
	if isC && z == 0 && hi == nil {
		if base.op == "arr" {
			return app("slice", "", t, base, lo, noneTerm)
		}
		return base
	}
	if s, ok := base.strVal(); ok && isC {
		if hi == nil && z >= 0 && z <= int64(len(s)) {
			return mkConst(constant.MakeString(s[z:]), t)
		}
		if hi != nil {
			if h, ok := hi.intVal(); ok && z >= 0 && z <= h && h <= int64(len(s)) {
				return mkConst(constant.MakeString(s[z:h]), t)
			}
		}
	}
	// slice of slice
	if base.op == "slice" {
		nlo := fromLin(toLin(lo).add(toLin(base.args[1])), types.Typ[types.Int])
		var nhi *Term
		if hi != nil {
			nhi = fromLin(toLin(hi).add(toLin(base.args[1])), types.Typ[types.Int])
		} else if base.args[2].op != "none" {
			nhi = base.args[2]
		}
		return mkSlice2(base.args[0], nlo, nhi, t)
	}
	return mkSlice2(base, lo, hi, t)
}

func mkSlice2(base, lo, hi *Term, t types.Type) *Term {
	if hi == nil {
		hi = noneTerm
	}
	if n, ok := lo.intVal(); ok && n == 0 && (hi.op == "none" || hi == mkLen(base)) && base.op != "arr" {
		return base
	}
	return app("slice", "", t, base, lo, hi)
}

func (it *Interp) next(st *State, in *ssa.Next) bool {
	r := it.value(st, in.Iter)
	tup := in.Type().(*types.Tuple)
	ok := it.fresh(st, "range", in, "ok", types.Typ[types.Bool])
	forget(st, ok)
	var k, v *Term
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	k = it.fresh(st, "range", in, "key", kt)
	v = it.fresh(st, "range", in, "val", vt)
	forget(st, k)
	forget(st, v)
	if r.op == "range" && !in.IsString {
		m := r.args[0]
		if m.typ != nil {
			if mt, isM := m.typ.Underlying().(*types.Map); isM {
				k = mkSym("range", "key."+instrKey(in), mt.Key(), st.ctx, in)
				forget(st, k)
				ver := st.version(mapClass(m.typ))
				v = app("lookup", "", mt.Elem(), m, k, ver)
				st.truth[app("rangekey", "", types.Typ[types.Bool], ok, app("has", "", types.Typ[types.Bool], m, k, ver))] = true
			}
		}
	} else if in.IsString && r.op == "range" {
		s := r.args[0]
		k = mkSym("range", "key."+instrKey(in), types.Typ[types.Int], st.ctx, in)
		forget(st, k)
		st.lin.add(linTerm(k).neg())
		// only meaningful when ok; harmless otherwise because the body is not entered
		st.lin.add(linTerm(k).sub(toLin(mkLen(s))))
		st.truth[app("rangestr", "", types.Typ[types.Bool], ok, k, mkLen(s))] = true
	}
	for _, t := range []*Term{k, v} {
		if t.sym != nil {
			t.sym.args = []*Term{r}
		}
	}
	st.env[in] = app("tuple", "", in.Type(), ok, k, v)
	return true
}

// forget drops all facts about a symbol that is being redefined.
func forget(st *State, s *Term) {
	for f := range st.truth {
		if f.contains(s) {
			delete(st.truth, f)
		}
	}
	for k, l := range st.lin.m {
		for _, p := range l.ps {
			if p.t.contains(s) {
				st.lin.del(k)
				break
			}
		}
	}
	for a, v := range st.mem {
		if a.contains(s) {
			delete(st.mem, a)
		} else if v.contains(s) {
			st.mem[a] = app("ld", "", a.typ, a, mkSym("ver", "fg"+fmt.Sprint(s.id), nil, nil, nil))
		}
	}
}

func (it *Interp) typeAssert(st *State, in *ssa.TypeAssert) bool {
	x := it.value(st, in.X)
	k := typeKey(in.AssertedType)
	it.typeByKey[k] = in.AssertedType
	isI := types.IsInterface(in.AssertedType)
	if isI {
		it.ifaceKeys[k] = true
	}
	cond := app("typeis", k, types.Typ[types.Bool], x)
	var val *Term
	if isI {
		val = x
	} else if x.op == "mkiface" && x.aux == k {
		val = x.args[0]
	} else {
		val = app("unbox", k, in.AssertedType, x)
	}
	if in.CommaOk {
		c := cond
		if v, ok := st.decide(cond); ok {
			c = mkBool(v)
			if !v {
				val = zeroTerm(in.AssertedType)
			}
		}
		st.env[in] = app("tuple", "", in.Type(), val, c)
		return true
	}
	v, ok := st.decide(cond)
	it.oblige(st, "assert", in, ok && v, func() string {
		return "type assertion to " + k + " may fail on " + x.String() + debugVal(st, x)
	})
	if ok && !v {
		return false
	}
	if !ok {
		st.assume(cond, true)
	}
	st.env[in] = val
	return true
}

func debugVal(st *State, x *Term) string {
	r := fmt.Sprintf(" [nil=%d dyn=%v", st.nilness(x), st.it.dynTypes(x))
	if x.sym != nil {
		for p := range x.sym.parents {
			r += fmt.Sprintf(" parent %v", p)
		}
	}
	for f := range st.truth {
		if f.op == "F:filled" {
			r += " " + f.String()
		}
	}
	return r + "]"
}
