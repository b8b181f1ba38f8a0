package main

// Terms: hash-consed symbolic names for abstract values. A term is a constant, a symbol (a value the
// analysis knows nothing about except through the state's facts) or an operator application.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	id   int
	op   string
	args []*Term
	val  constant.Value // op == "const"
	aux  string         // part of the identity (field name, type, coefficients...)
	typ  types.Type     // static type where known; not part of the identity except for const/sym
	sym  *SymInfo
}

// SymInfo describes where a symbol comes from.
type SymInfo struct {
	kind    string // "param","call","join","load","alloc","free","range","fresh"
	frame   *Frame
	instr   ssa.Instruction
	callee  string  // for calls
	args    []*Term // for calls
	index   int     // tuple index of a call result, -1 when single
	parents map[*Term]bool
	sibs    []*Term // the other results of the same call
	name    string
	nested  bool // call results: was the allocation made in a loop
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	t.id = len(termList)
	termList = append(termList, t)
	termTab[key] = t
	return t
}

func mkConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return mkNil(typ)
	}
	k := "c:" + v.ExactString()
	if v.Kind() == constant.Int {
		// numeric constants are mathematical integers, independent of type
		return intern(k, func() *Term { return &Term{op: "const", val: v, typ: typ} })
	}
	if v.Kind() == constant.String || v.Kind() == constant.Bool {
		return intern(k, func() *Term { return &Term{op: "const", val: v, typ: typ} })
	}
	return intern(k+typeKey(typ), func() *Term { return &Term{op: "const", val: v, typ: typ} })
}

func mkInt(n int64) *Term { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkBool(b bool) *Term { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkStr(s string) *Term {
	return mkConst(constant.MakeString(s), types.Typ[types.String])
}

var nilTerm = intern("nil", func() *Term { return &Term{op: "nil"} })

func mkNil(types.Type) *Term { return nilTerm }

func app(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return intern(sb.String(), func() *Term {
		return &Term{op: op, aux: aux, args: append([]*Term(nil), args...), typ: typ}
	})
}

func mkSym(kind, name string, typ types.Type, frame *Frame, instr ssa.Instruction) *Term {
	key := "s:" + kind + ":" + name
	if frame != nil {
		key += "@" + frame.id
	}
	return intern(key, func() *Term {
		return &Term{op: "sym", typ: typ, sym: &SymInfo{kind: kind, frame: frame, instr: instr, name: name, index: -1}}
	})
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isNil() bool   { return t.op == "nil" }

func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && t.val.Kind() == constant.Int {
		return constant.Int64Val(t.val)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == "const" && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}
func (t *Term) boolVal() (v, ok bool) {
	if t.op == "const" && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}

func shortAux(a string) string {
	if i := strings.LastIndexByte(a, '/'); i >= 0 && strings.Contains(a, ".") {
		return a[i+1:]
	}
	return a
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(depth int) string {
	if t == nil {
		return "<none>"
	}
	switch t.op {
	case "const":
		return t.val.String()
	case "nil":
		return "nil"
	case "sym":
		s := t.sym
		n := s.name
		if s.kind == "call" {
			n = s.callee
			if s.index >= 0 {
				n += "#" + strconv.Itoa(s.index)
			}
			return fmt.Sprintf("%s·%d", n, t.id)
		}
		return fmt.Sprintf("%s:%s·%d", s.kind, n, t.id)
	case "lin":
		return toLin(t).String()
	}
	if depth == 0 {
		return t.op + "(…)"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(depth-1))
	}
	x := t.op
	if t.aux != "" && t.op != "ld" {
		x += "[" + shortAux(t.aux) + "]"
	}
	switch t.op {
	case "ld", "field":
		as = as[:1]
	case "lookup", "has":
		as = as[:2]
	}
	return x + "(" + strings.Join(as, ", ") + ")"
}

// contains reports whether sub occurs in t.
var containsMemo = map[[2]int]bool{}

func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	if len(t.args) == 0 || sub.id > t.id {
		return false
	}
	k := [2]int{t.id, sub.id}
	if v, ok := containsMemo[k]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if a.contains(sub) {
			r = true
			break
		}
	}
	containsMemo[k] = r
	return r
}

// subst replaces sub-terms according to m (simultaneously).
func (t *Term) subst(m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = a.subst(m)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	if t.op == "lin" {
		l := toLin(t)
		r := linConst(l.c)
		for _, p := range l.ps {
			r = r.add(toLin(p.t.subst(m)).scale(p.k))
		}
		return fromLin(r, t.typ)
	}
	switch t.op {
	case "len":
		if r := simpLen(args[0]); r != nil {
			return r
		}
	}
	return app(t.op, t.aux, t.typ, args...)
}

// provenance walks a term together with the possible sources of join symbols and
// the arguments of call results, calling f on each; f returns false to stop descending.
func provenance(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var walk func(*Term)
	walk = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		if x.sym != nil {
			for _, a := range x.sym.args {
				walk(a)
			}
			for _, p := range sortedTerms(x.sym.parents) {
				walk(p)
			}
		}
	}
	walk(t)
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// ---- linear expressions over integer terms ----

type pair struct {
	t *Term
	k int64
}

// Lin is sum(k*t)+c; the comparison form used by constraints is Lin <= 0.
type Lin struct {
	c  int64
	ps []pair // sorted by term id, k != 0
}

func linConst(c int64) Lin { return Lin{c: c} }
func linTerm(t *Term) Lin  { return Lin{ps: []pair{{t, 1}}} }

const linLimit = int64(1) << 62

func (a Lin) ok() bool {
	if a.c > linLimit || a.c < -linLimit {
		return false
	}
	for _, p := range a.ps {
		if p.k > 1<<40 || p.k < -(1<<40) {
			return false
		}
	}
	return true
}

func (a Lin) add(b Lin) Lin {
	r := Lin{c: satAdd(a.c, b.c)}
	i, j := 0, 0
	for i < len(a.ps) || j < len(b.ps) {
		switch {
		case j >= len(b.ps) || (i < len(a.ps) && a.ps[i].t.id < b.ps[j].t.id):
			r.ps = append(r.ps, a.ps[i])
			i++
		case i >= len(a.ps) || b.ps[j].t.id < a.ps[i].t.id:
			r.ps = append(r.ps, b.ps[j])
			j++
		default:
			if k := a.ps[i].k + b.ps[j].k; k != 0 {
				r.ps = append(r.ps, pair{a.ps[i].t, k})
			}
			i++
			j++
		}
	}
	return r
}

func satAdd(a, b int64) int64 {
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return 1<<63 - 1
	}
	if a < 0 && b < 0 && c >= 0 {
		return -(1<<63 - 1)
	}
	return c
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b != a || (a == -1 && b == -(1<<63)) || (b == -1 && a == -(1<<63)) {
		if (a > 0) == (b > 0) {
			return 1<<63 - 1
		}
		return -(1<<63 - 1)
	}
	return c
}

func (a Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{c: satMul(a.c, k)}
	for _, p := range a.ps {
		r.ps = append(r.ps, pair{p.t, satMul(p.k, k)})
	}
	return r
}
func (a Lin) neg() Lin         { return a.scale(-1) }
func (a Lin) sub(b Lin) Lin    { return a.add(b.neg()) }
func (a Lin) plus(c int64) Lin { a.c = satAdd(a.c, c); return a }

func (a Lin) vecKey() string {
	b := make([]byte, 0, 12*len(a.ps))
	for _, p := range a.ps {
		b = strconv.AppendInt(b, p.k, 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(p.t.id), 10)
		b = append(b, ',')
	}
	return string(b)
}

func (a Lin) String() string {
	var s []string
	for _, p := range a.ps {
		if p.k == 1 {
			s = append(s, p.t.str(4))
		} else {
			s = append(s, fmt.Sprintf("%d*%s", p.k, p.t.str(4)))
		}
	}
	if a.c != 0 || len(s) == 0 {
		s = append(s, strconv.FormatInt(a.c, 10))
	}
	return strings.Join(s, " + ")
}

func toLin(t *Term) Lin {
	if t.op == "lin" {
		var l Lin
		parts := strings.Split(t.aux, ",")
		l.c, _ = strconv.ParseInt(parts[0], 10, 64)
		for i, a := range t.args {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			l.ps = append(l.ps, pair{a, k})
		}
		sort.Slice(l.ps, func(i, j int) bool { return l.ps[i].t.id < l.ps[j].t.id })
		return l
	}
	if t.op == "const" {
		if n, ok := t.intVal(); ok && n < linLimit && n > -linLimit {
			return linConst(n)
		}
	}
	return linTerm(t)
}

func fromLin(l Lin, typ types.Type) *Term {
	if len(l.ps) == 0 {
		return mkConst(constant.MakeInt64(l.c), typ)
	}
	if len(l.ps) == 1 && l.c == 0 && l.ps[0].k == 1 {
		return l.ps[0].t
	}
	aux := strconv.FormatInt(l.c, 10)
	var args []*Term
	for _, p := range l.ps {
		aux += "," + strconv.FormatInt(p.k, 10)
		args = append(args, p.t)
	}
	return app("lin", aux, typ, args...)
}

// simpLen gives len(t) in simpler form, or nil.
func simpLen(t *Term) *Term {
	switch t.op {
	case "nil":
		return mkInt(0)
	case "const":
		if s, ok := t.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case "slice": // base, lo, hi
		if t.args[2].op != "none" {
			return fromLin(toLin(t.args[2]).sub(toLin(t.args[1])), types.Typ[types.Int])
		}
		return fromLin(toLin(mkLen(t.args[0])).sub(toLin(t.args[1])), types.Typ[types.Int])
	case "make":
		return t.args[1]
	case "append": // slice, n, values list
		return fromLin(toLin(mkLen(t.args[0])).add(toLin(t.args[1])), types.Typ[types.Int])
	case "list":
		return mkInt(int64(len(t.args)))
	case "bytestr": // []byte(string) and string([]byte)
		return mkLen(t.args[0])
	case "concat":
		return fromLin(toLin(mkLen(t.args[0])).add(toLin(mkLen(t.args[1]))), types.Typ[types.Int])
	case "arr": // pointer to array of constant length used as slice operand
		n, _ := strconv.ParseInt(t.aux, 10, 64)
		return mkInt(n)
	}
	return nil
}

func mkLen(t *Term) *Term {
	if r := simpLen(t); r != nil {
		return r
	}
	return app("len", "", types.Typ[types.Int], t)
}

var noneTerm = intern("none", func() *Term { return &Term{op: "none"} })
