package main

// The numeric part of the abstract domain: a conjunction of linear inequalities over integer terms,
// with a bounded entailment check (repeated elimination of one variable of the goal against one
// inequality). No general solver is involved; when the bounded check fails the answer is "unknown".

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
)

// maxLen bounds the length of any slice, string or map a program can hold (1 TiB), maxCount what a
// counter growing by at most one buffer per call can reach, fitLimit the values arithmetic is exact for.
const (
	maxLen   = int64(1) << 40
	maxCount = int64(1) << 58
	fitLimit = int64(1) << 60
)

type LinSet struct {
	m   map[string]Lin  // vector -> tightest constraint (Lin <= 0)
	idx map[*Term][]Lin // by term, built on demand
}

func newLinSet() *LinSet { return &LinSet{m: map[string]Lin{}} }

func (s *LinSet) clone() *LinSet {
	n := &LinSet{m: make(map[string]Lin, len(s.m)+4), idx: s.idx}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

// normalise divides by the gcd of the coefficients, rounding the constant so that the integer
// solutions stay the same.
func (a Lin) normalise() Lin {
	if len(a.ps) == 0 {
		return a
	}
	g := int64(0)
	for _, p := range a.ps {
		g = gcd(g, abs64(p.k))
	}
	if g > 1 {
		r := Lin{c: ceilDiv(a.c, g)}
		for _, p := range a.ps {
			r.ps = append(r.ps, pair{p.t, p.k / g})
		}
		return r
	}
	return a
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a > 0) == (b > 0) {
		q++
	}
	return q
}

func (s *LinSet) add(l Lin) {
	if len(l.ps) == 0 || !l.ok() {
		return
	}
	l = l.normalise()
	k := l.vecKey()
	if o, ok := s.m[k]; ok && o.c >= l.c {
		return
	}
	s.m[k] = l
	s.idx = nil
}

// del removes a constraint.
func (s *LinSet) del(k string) {
	delete(s.m, k)
	s.idx = nil
}

func (s *LinSet) by(t *Term) []Lin {
	if s.idx == nil {
		s.idx = map[*Term][]Lin{}
		for _, l := range s.sorted() {
			for _, p := range l.ps {
				s.idx[p.t] = append(s.idx[p.t], l)
			}
		}
		for _, r := range s.idx {
			sort.SliceStable(r, func(i, j int) bool { return len(r[i].ps) < len(r[j].ps) })
		}
	}
	return s.idx[t]
}

func (s *LinSet) sorted() []Lin {
	ks := make([]string, 0, len(s.m))
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := make([]Lin, 0, len(ks))
	for _, k := range ks {
		r = append(r, s.m[k])
	}
	return r
}

// typeRange gives the range of an integer type.
func typeRange(t types.Type) (lo, hi int64, ok bool) {
	if t == nil {
		return 0, 0, false
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true
	case types.Int32, types.UntypedRune:
		return math.MinInt32, math.MaxInt32, true
	case types.Int, types.Int64, types.UntypedInt:
		return math.MinInt64, math.MaxInt64, true
	case types.Uint8:
		return 0, math.MaxUint8, true
	case types.Uint16:
		return 0, math.MaxUint16, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxInt64, true // upper end saturated: it is 2^64-1
	}
	return 0, 0, false
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr)
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// axioms are the constraints every term satisfies because of what it is.
func (st *State) axioms(t *Term) []Lin {
	var r []Lin
	lo := func(c int64) { r = append(r, Lin{c: c, ps: []pair{{t, -1}}}) } // t >= c
	hi := func(c int64) { r = append(r, Lin{c: -c, ps: []pair{{t, 1}}}) } // t <= c
	switch t.op {
	case "len", "cap":
		lo(0)
		hi(maxLen)
		return r
	case "rem":
		if k, ok := t.args[1].intVal(); ok && k > 0 {
			hi(k - 1)
			if st.nonNeg(t.args[0]) {
				lo(0)
				r = append(r, linTerm(t).sub(toLin(t.args[0])))
			} else {
				lo(-(k - 1))
			}
			return r
		} else if !ok && nonNegDepth < 3 {
			nonNegDepth++
			d := toLin(t.args[1])
			if st.proveLin(d.neg().plus(1)) {
				r = append(r, linTerm(t).sub(d).plus(1))
				if st.proveLin(toLin(t.args[0]).neg()) {
					lo(0)
				}
			}
			nonNegDepth--
		}
	case "quo":
		if k, ok := t.args[1].intVal(); ok && k > 0 && st.nonNeg(t.args[0]) {
			x := toLin(t.args[0])
			r = append(r, linTerm(t).scale(k).sub(x))                // k*q <= x
			r = append(r, x.sub(linTerm(t).scale(k)).plus(-(k - 1))) // x <= k*q+k-1
			lo(0)
			return r
		}
	case "mul":
		a, b := t.args[0], t.args[1]
		if st.nonNeg(a) && st.nonNeg(b) {
			lo(0)
		}
		alo, ahi := st.interval(a)
		blo, bhi := st.interval(b)
		m := []int64{satMul(alo, blo), satMul(alo, bhi), satMul(ahi, blo), satMul(ahi, bhi)}
		sort.Slice(m, func(i, j int) bool { return m[i] < m[j] })
		if m[0] > -linLimit {
			lo(m[0])
		}
		if m[3] < linLimit {
			hi(m[3])
		}
		return r
	case "and":
		for _, a := range t.args {
			if k, ok := a.intVal(); ok && k >= 0 {
				lo(0)
				hi(k)
			}
		}
	case "field", "ld", "elemval":
		if st.it.invNonNeg(t) {
			lo(0)
		}
		if st.it.counterField(t) {
			hi(maxCount)
		}
	}
	if t.sym != nil && t.sym.kind == "cell" && st.it.invNonNegClass(t.sym.name) {
		lo(0)
	}
	if l, h, ok := typeRange(t.typ); ok {
		if l > -linLimit {
			lo(l)
		}
		if h < linLimit {
			hi(h)
		}
	}
	return r
}

var nonNegDepth int

func (st *State) nonNeg(t *Term) bool {
	if n, ok := t.intVal(); ok {
		return n >= 0
	}
	if nonNegDepth > 3 {
		return false
	}
	nonNegDepth++
	defer func() { nonNegDepth-- }()
	return st.proveLin(toLin(t).neg())
}

// interval gives constant bounds of a term as far as the state knows them.
func (st *State) interval(t *Term) (lo, hi int64) {
	if n, ok := t.intVal(); ok {
		return n, n
	}
	lo, hi = -math.MaxInt64, math.MaxInt64
	if l, h, ok := typeRange(t.typ); ok {
		lo, hi = l, h
		if isUint64(t.typ) {
			hi = math.MaxInt64
		}
	}
	// probing a few powers of two keeps this simple
	l := toLin(t)
	for _, k := range []int64{0, 1, 2, 3, 4, 8, 16, 64, 255, 1 << 16, 1 << 20, 1 << 26, 1 << 31, 1 << 32, 1 << 40, maxLen} {
		if k >= hi {
			break
		}
		if st.proveLin(l.plus(-k)) {
			hi = k
			break
		}
	}
	for _, k := range []int64{1 << 40, 1 << 31, 1 << 16, 255, 8, 1, 0, -1, -(1 << 31), -(1 << 40), -maxLen} {
		if k <= lo {
			break
		}
		if st.proveLin(linConst(k).sub(l)) {
			lo = k
			break
		}
	}
	return
}

// proveLin tries to show l <= 0 in this state.
func (st *State) proveLin(l Lin) bool {
	budget := 400
	return st.prove(l, 5, &budget, map[string]bool{})
}

func (st *State) prove(l Lin, depth int, budget *int, seen map[string]bool) bool {
	if len(l.ps) == 0 {
		return l.c <= 0
	}
	l = l.normalise()
	vk := l.vecKey()
	if o, ok := st.lin.m[vk]; ok && o.c >= l.c {
		return true
	}
	if depth == 0 || *budget <= 0 || len(l.ps) > 6 {
		return false
	}
	*budget--
	key := vk + constant.MakeInt64(l.c).ExactString()
	if seen[key] {
		return false
	}
	seen[key] = true
	// eliminate variables one after the other: pick each in turn
	for _, p := range l.ps {
		var cands []Lin
		for _, c := range st.linBy(p.t) {
			k := c.coef(p.t)
			if k != 0 && (k > 0) == (p.k > 0) {
				cands = append(cands, c)
			}
		}
		ax := st.axioms(p.t)
		for _, c := range ax {
			k := c.coef(p.t)
			if k != 0 && (k > 0) == (p.k > 0) {
				cands = append(cands, c)
			}
		}
		sort.SliceStable(cands, func(i, j int) bool { return len(cands[i].ps) < len(cands[j].ps) })
		for _, c := range cands {
			k := abs64(c.coef(p.t))
			pk := abs64(p.k)
			g := gcd(k, pk)
			// (k/g)*l - (pk/g)*c <= 0 implies l <= 0 since c <= 0
			n := l.scale(k / g).sub(c.scale(pk / g))
			if !n.ok() {
				continue
			}
			if len(n.ps) == 0 {
				if n.c <= 0 {
					return true
				}
				continue
			}
			if len(n.ps) > len(l.ps)+1 {
				continue
			}
			if st.prove(n, depth-1, budget, seen) {
				return true
			}
		}
	}
	return false
}

func (a Lin) coef(t *Term) int64 {
	for _, p := range a.ps {
		if p.t == t {
			return p.k
		}
	}
	return 0
}

func (st *State) linBy(t *Term) []Lin { return st.lin.by(t) }

// addLin records l <= 0; false when the state becomes contradictory.
func (st *State) addLin(l Lin) bool {
	if len(l.ps) == 0 {
		return l.c <= 0
	}
	// contradiction when -l+1 <= 0 (l >= 1) is provable
	if st.proveLin(l.neg().plus(1)) {
		return false
	}
	st.lin.add(l)
	return true
}

func (st *State) addEq(a, b *Term) bool {
	d := toLin(a).sub(toLin(b))
	return st.addLin(d) && st.addLin(d.neg())
}

// fits reports whether the mathematical value l lies in the range of type t.
func (st *State) fits(l Lin, t types.Type) bool {
	lo, hi, ok := typeRange(t)
	if !ok {
		return false
	}
	if len(l.ps) == 0 {
		return l.c >= lo && l.c <= hi
	}
	if isUint64(t) {
		// only values known to stay below 2^62 are represented exactly after arithmetic; a single
		// untouched term of an unsigned type is trivially in range
		if len(l.ps) == 1 && l.c == 0 && l.ps[0].k == 1 {
			return st.proveLin(l.neg())
		}
		return st.proveLin(l.neg()) && st.proveLin(l.plus(-fitLimit))
	}
	if lo == math.MinInt64 {
		if len(l.ps) == 1 && l.c == 0 && l.ps[0].k == 1 && l.ps[0].t.typ != nil {
			if l2, _, ok := typeRange(l.ps[0].t.typ); ok && !isUint64(l.ps[0].t.typ) && l2 >= lo {
				return true
			}
		}
		return st.proveLin(l.plus(-fitLimit)) && st.proveLin(l.neg().plus(-fitLimit))
	}
	return st.proveLin(l.plus(-hi)) && st.proveLin(linConst(lo).sub(l))
}

// ---- arithmetic on terms ----

func opName(op token.Token) string {
	switch op {
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "quo"
	case token.REM:
		return "rem"
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.AND_NOT:
		return "andnot"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	}
	return op.String()
}

// arith evaluates an integer operation whose result has type t. A result that might not be the
// mathematical one (overflow) becomes an opaque "wrap:" term.
func (st *State) arith(op token.Token, a, b *Term, t types.Type) *Term {
	if a.op == "const" && b.op == "const" && a.val.Kind() == constant.Int && b.val.Kind() == constant.Int {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b.val); ok && n < 64 {
				return wrapConst(constant.Shift(a.val, op, uint(n)), t)
			}
		case token.QUO, token.REM:
			if constant.Sign(b.val) != 0 {
				if op == token.QUO {
					return wrapConst(constant.BinaryOp(a.val, token.QUO_ASSIGN, b.val), t)
				}
				return wrapConst(constant.BinaryOp(a.val, op, b.val), t)
			}
		default:
			return wrapConst(constant.BinaryOp(a.val, op, b.val), t)
		}
	}
	opaque := func() *Term { return app("wrap:"+opName(op), typeKey(t), t, a, b) }
	lin := func(l Lin) *Term {
		if l.ok() && st.fits(l, t) {
			return fromLin(l, t)
		}
		return opaque()
	}
	switch op {
	case token.ADD:
		return lin(toLin(a).add(toLin(b)))
	case token.SUB:
		d := toLin(a).sub(toLin(b))
		if st.nonNeg(b) && (!isUint64(t) && st.nonNeg(a) || st.proveLin(d.neg())) {
			return fromLin(d, t) // between -b and a
		}
		return lin(d)
	case token.MUL:
		if n, ok := b.intVal(); ok {
			return lin(toLin(a).scale(n))
		}
		if n, ok := a.intVal(); ok {
			return lin(toLin(b).scale(n))
		}
		if a.id > b.id {
			a, b = b, a
		}
		m := app("mul", "", t, a, b)
		if st.fits(linTerm(m).plus(0), t) && mulBounded(st, m) {
			return m
		}
		return opaque()
	case token.SHL:
		if n, ok := b.intVal(); ok && n >= 0 && n < 40 {
			return lin(toLin(a).scale(int64(1) << uint(n)))
		}
		return opaque()
	case token.QUO:
		if n, ok := b.intVal(); ok && n > 0 {
			if n == 1 {
				return a
			}
			if r := divExact(toLin(a), n); r != nil {
				return fromLin(*r, t)
			}
			return app("quo", "", t, a, b)
		}
		return app("quo", "", t, a, b)
	case token.SHR:
		if n, ok := b.intVal(); ok && n >= 0 && n < 62 {
			if n == 0 {
				return a
			}
			if r := divExact(toLin(a), 1<<uint(n)); r != nil {
				return fromLin(*r, t)
			}
			if st.nonNeg(a) {
				return app("quo", "", t, a, mkInt(1<<uint(n)))
			}
			return app("shr", "", t, a, b)
		}
		return app("shr", "", t, a, b)
	case token.REM:
		return app("rem", "", t, a, b)
	case token.AND:
		// x & all-ones(type) is x; x & (2^k-1) of a non-negative x is x rem 2^k
		for i, m := range []*Term{b, a} {
			x := []*Term{a, b}[i]
			n, ok := m.intVal()
			if ok && n < -1 && -n < 1<<40 && -n&(-n-1) == 0 && st.nonNeg(x) {
				return fromLin(toLin(x).sub(linTerm(app("rem", "", t, x, mkInt(-n)))), t)
			}
			if !ok || n < 0 {
				continue
			}
			if st.nonNeg(x) && st.proveLin(toLin(x).plus(-n)) && n&(n+1) == 0 {
				return x
			}
			if n > 0 && n&(n+1) == 0 && st.nonNeg(x) && n < 1<<40 {
				return app("rem", "", t, x, mkInt(n+1))
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
		return app("and", "", t, a, b)
	case token.AND_NOT:
		if n, ok := b.intVal(); ok && n > 0 && n < 1<<40 && n&(n+1) == 0 && st.nonNeg(a) {
			return fromLin(toLin(a).sub(linTerm(app("rem", "", t, a, mkInt(n+1)))), t)
		}
		return app("andnot", "", t, a, b)
	case token.OR, token.XOR:
		if a.id > b.id {
			a, b = b, a
		}
		return app(opName(op), "", t, a, b)
	}
	return opaque()
}

func mulBounded(st *State, m *Term) bool {
	alo, ahi := st.interval(m.args[0])
	blo, bhi := st.interval(m.args[1])
	for _, v := range []int64{satMul(alo, blo), satMul(alo, bhi), satMul(ahi, blo), satMul(ahi, bhi)} {
		if v > linLimit || v < -linLimit {
			return false
		}
	}
	return true
}

func divExact(l Lin, n int64) *Lin {
	if l.c%n != 0 {
		return nil
	}
	r := Lin{c: l.c / n}
	for _, p := range l.ps {
		if p.k%n != 0 {
			return nil
		}
		r.ps = append(r.ps, pair{p.t, p.k / n})
	}
	return &r
}

func wrapConst(v constant.Value, t types.Type) *Term {
	// typed constant arithmetic on two constants can only overflow at run time for values the
	// propagation found; wrap to the type
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return mkConst(v, t)
	}
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		bits, signed = 64, false
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
	v = constant.BinaryOp(v, token.REM, mod)
	if constant.Sign(v) < 0 {
		v = constant.BinaryOp(v, token.ADD, mod)
	}
	if signed && constant.Compare(v, token.GEQ, half) {
		v = constant.BinaryOp(v, token.SUB, mod)
	}
	return mkConst(v, t)
}

// convInt converts an integer term to type t: the identity when the value is representable.
func (st *State) convInt(x *Term, from, to types.Type) *Term {
	if x.op == "const" && x.val.Kind() == constant.Int {
		return wrapConst(x.val, to)
	}
	if isUint64(to) {
		if isUint64(from) || st.nonNeg(x) {
			return x
		}
		return app("conv", typeKey(to), to, x)
	}
	flo, fhi, ok1 := typeRange(from)
	tlo, thi, ok2 := typeRange(to)
	if ok1 && ok2 && flo >= tlo && fhi <= thi && !isUint64(from) {
		return x
	}
	if isUint64(from) && st.proveLin(toLin(x).plus(-fitLimit)) && thi == math.MaxInt64 {
		return x
	}
	if thi != math.MaxInt64 && st.proveLin(toLin(x).plus(-thi)) && st.proveLin(linConst(tlo).sub(toLin(x))) {
		return x
	}
	if isUint64(from) && thi == math.MaxInt64 {
		// a comparison with the largest int64 was made: recorded as the constraint x <= 2^63-1
		if st.atMostMaxInt64(x) {
			return x
		}
	}
	return app("conv", typeKey(to), to, x)
}

func (st *State) atMostMaxInt64(x *Term) bool {
	v, ok := st.truth[app("fitsint64", "", types.Typ[types.Bool], x)]
	return ok && v
}
