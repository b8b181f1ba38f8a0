package main

// C15, C16: what verification and signing check before they succeed.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C16"] = &Rule{
		what:  "Abstract evaluation of verification for packages that carry each of the four signature tags alone, the header-only pair, the payload pair, all and none, with and without a key ring; hash objects are followed from construction through every write. Each success needs, per tag present, a parsed packet with nothing after it, and with a key ring a successful VerifySignature by a key found to match this packet over a hash of this packet's algorithm holding exactly the raw header (and, for the payload tags, the rest of the stream up to its end); the reported signatures must be one per tag with the right HeaderOnly. Other types of tag values and failing headers must be refused.",
		hooks: verifyHooks, focus: verifies, calm: true, strict: true,
		assume: []string{"packet.Read, VerifySignature and CheckKeyIdOrFingerprint of the OpenPGP package do what they document"},
	}
}

// hashing follows what is written into hash objects.
type hashing struct {
	it *Interp
	m  *streamModel
}

var emptyContent = mkSym("ghost", "$empty", nil, nil, nil)
var unknownContent = mkSym("ghost", "$unknown", nil, nil, nil)

func isHash(t *Term) bool {
	return t != nil && t.sym != nil && t.sym.kind == "call" && (t.sym.callee == "(crypto.Hash).New" || hashCtor[t.sym.callee] != 0)
}

// constructors of hashes, with the crypto.Hash they stand for
var hashCtor = map[string]int64{"crypto/md5.New": 2, "crypto/sha1.New": 3, "crypto/sha256.New224": 4, "crypto/sha256.New": 5, "crypto/sha512.New384": 6, "crypto/sha512.New": 7}

// kind: the crypto.Hash of a hash object.
func hashKind(h *Term) *Term {
	h = unface(h)
	if n := hashCtor[h.sym.callee]; n != 0 {
		return mkInt(n)
	}
	return h.sym.args[0]
}

// writers: the hashes a writer forwards to.
func (x *hashing) writers(st *State, w *Term) (r []*Term) {
	w = unface(w)
	if isHash(w) {
		return []*Term{w}
	}
	if w.sym != nil && w.sym.kind == "call" && w.sym.callee == "io.MultiWriter" {
		for _, e := range st.elements(w.sym.args[0]) {
			r = append(r, x.writers(st, e)...)
		}
	}
	return
}

func (x *hashing) content(st *State, h *Term) *Term {
	if c := st.mem[attr(unface(h), "written")]; c != nil {
		return c
	}
	return unknownContent
}

func (x *hashing) add(st *State, h, item *Term) {
	st.mem[attr(unface(h), "written")] = app("written", "", types.Typ[types.UnsafePointer], x.content(st, h), item)
}

// item describes bytes that are hashed.
func (x *hashing) item(st *State, b *Term) *Term {
	if t := st.mem[attr(b, "rest")]; t != nil {
		return t
	}
	if x.m != nil {
		if sp, ok := x.m.resolve(st, b); ok {
			return app("span", "", types.Typ[types.UnsafePointer], fromLin(sp.pos, int64T), fromLin(sp.n, int64T))
		}
	}
	return b
}

func (x *hashing) hooks() *Hooks {
	h := &Hooks{}
	rest := func(st *State, r, err *Term) *Term {
		for i := 0; i < 8; i++ {
			r = unface(r)
			if r.sym != nil && r.sym.kind == "call" && (r.sym.callee == "io.TeeReader" || r.sym.callee == "io.NopCloser" || r.sym.callee == "bufio.NewReader" || r.sym.callee == "bufio.NewReaderSize") {
				r = r.sym.args[0]
				continue
			}
			break
		}
		return app("rest", "", types.Typ[types.UnsafePointer], r, err)
	}
	tees := func(st *State, r *Term) (ws []*Term) {
		for i := 0; i < 8; i++ {
			r = unface(r)
			if r.sym == nil || r.sym.kind != "call" {
				break
			}
			if r.sym.callee == "io.TeeReader" {
				ws = append(ws, x.writers(st, r.sym.args[1])...)
			} else if r.sym.callee != "io.NopCloser" && r.sym.callee != "bufio.NewReader" {
				break
			}
			r = r.sym.args[0]
		}
		return
	}
	h.after = func(st *State, c *CallInfo) {
		if len(c.res) > 0 && isHash(c.res[0]) {
			st.mem[attr(c.res[0], "written")] = emptyContent
			return
		}
		switch c.name {
		case "(hash.Hash).Write", "(io.Writer).Write", "io.WriteString":
			for _, w := range x.writers(st, c.args[0]) {
				x.add(st, w, x.item(st, c.args[1]))
			}
			return
		case "io.Copy", "io.CopyBuffer":
			i := rest(st, c.args[1], c.res[1])
			for _, w := range append(x.writers(st, c.args[0]), tees(st, c.args[1])...) {
				x.add(st, w, i)
			}
			return
		case "io.ReadAll", "io/ioutil.ReadAll":
			i := rest(st, c.args[0], c.res[1])
			st.mem[attr(c.res[0], "rest")] = i
			for _, w := range tees(st, c.args[0]) {
				x.add(st, w, i)
			}
			return
		case "(hash.Hash).Sum":
			if isHash(unface(c.args[0])) && (c.args[1].isNil() || st.same(toLin(mkLen(c.args[1])), linConst(0))) {
				st.mem[attr(c.res[0], "sum")] = app("sum", "", types.Typ[types.UnsafePointer], unface(c.args[0]), x.content(st, c.args[0]))
			}
			return
		case "(hash.Hash).Reset":
			if isHash(unface(c.args[0])) {
				st.mem[attr(unface(c.args[0]), "written")] = emptyContent
			}
			return
		case "(hash.Hash).Size", "(hash.Hash).BlockSize", "io.MultiWriter", "io.TeeReader":
			return
		}
		if x.m != nil && readOpOf(c) != nil {
			return // the stream model tells what passed
		}
		for _, a := range c.args {
			for _, w := range append(x.writers(st, a), tees(st, a)...) {
				st.mem[attr(c.resultOf(), "digest")] = app("sum", "", types.Typ[types.UnsafePointer], w, x.content(st, w))
				st.mem[attr(w, "written")] = unknownContent
			}
		}
	}
	return h
}

// teed: bytes from before up to the present position have passed into a writer.
func (x *hashing) teed(st *State, w, before *Term) {
	for _, h := range x.writers(st, w) {
		if before == nil {
			st.mem[attr(h, "written")] = unknownContent
			continue
		}
		n := toLin(x.m.pos(st)).sub(toLin(before))
		x.add(st, h, app("span", "", types.Typ[types.UnsafePointer], before, fromLin(n, int64T)))
	}
}

func (c *CallInfo) resultOf() *Term {
	if len(c.res) == 0 {
		return unknownContent
	}
	return c.res[len(c.res)-1]
}

// hashed: what was hashed, oldest first.
func hashed(c *Term) (items []*Term, ok bool) {
	for c.op == "written" {
		items = append([]*Term{c.args[1]}, items...)
		c = c.args[0]
	}
	return items, c == emptyContent
}

type verifier struct {
	it  *Interp
	r   *Report
	q   *queries
	ph  *pkgHeader
	raw string // field with a header's own bytes
	hs  []*Term
	x   *hashing
}

func verifies(r string) bool {
	n := r[strings.LastIndex(r, ".")+1:]
	return n == "Verify"
}

func newVerifier(it *Interp, r *Report) *verifier {
	v := &verifier{it: it, r: r, ph: findPkgHeader(it.prog), x: &hashing{it: it}}
	if v.ph == nil {
		return v
	}
	v.q = &queries{it: it, r: r, h: v.ph}
	ht := derefIf(v.ph.ht)
	s := ht.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if isBytes(s.Field(i).Type()) {
			v.raw = fieldID(ht, i)
		}
	}
	return v
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// prepare makes the two headers of the package that is verified.
func (v *verifier) prepare(st *State) (sig, gen *Term) {
	v.hs = nil
	for _, n := range []string{"sig", "gen"} {
		h := mkSym("param", n+" header", v.ph.ht, nil, nil)
		st.assume(mkEq(h, nilTerm), false)
		v.hs = append(v.hs, h)
	}
	return v.entries(st, v.hs[0]), v.entries(st, v.hs[1])
}

func (v *verifier) entries(st *State, h *Term) *Term {
	return st.load(fieldAddr(h, v.ph.entries, v.ph.et), v.ph.et)
}

func (v *verifier) rawBytes(st *State, h *Term) *Term {
	t := types.NewSlice(types.Typ[types.Byte])
	return st.load(fieldAddr(h, v.raw, t), t)
}

func stubCount() *Term { return ghostAddr("headers read") }

// stubs: reading the headers is left out; it yields the two prepared headers, or fails.
func (v *verifier) stubs(fail int64) *Hooks {
	h := &Hooks{}
	h.stub = func(st *State, c *CallInfo) []*Term {
		if c.fn == nil {
			return nil
		}
		res := c.fn.Signature.Results()
		n, at := 0, 0
		for i := 0; i < res.Len(); i++ {
			if types.Identical(res.At(i).Type(), v.ph.ht) {
				n, at = n+1, i
			}
		}
		var reader *Term
		for i, p := range c.fn.Params {
			if i < len(c.args) && types.IsInterface(p.Type()) && hasReadMethod(p.Type()) {
				reader = c.args[i]
			}
		}
		if n != 1 || reader == nil {
			return nil
		}
		k := int64(0)
		if t := st.mem[stubCount()]; t != nil {
			ok := false
			if k, ok = t.intVal(); !ok {
				return nil
			}
		}
		st.mem[stubCount()] = mkInt(k + 1)
		if k > 1 {
			return nil
		}
		var out []*Term
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			switch {
			case i == at && k == fail:
				out = append(out, nilTerm)
			case i == at:
				out = append(out, v.hs[k])
			case isErrorType(t) && k == fail:
				e := v.it.fresh(st, "fresh", c.instr, "header error", t)
				st.assume(mkEq(e, nilTerm), false)
				out = append(out, e)
			case isErrorType(t):
				out = append(out, nilTerm)
			default:
				out = append(out, v.it.fresh(st, "fresh", c.instr, fmt.Sprint("header", i), t))
			}
		}
		st.mem[attr(v.hs[k], "reader")] = reader
		for i, a := range c.args {
			st.mem[attr(v.hs[k], fmt.Sprint("arg", i))] = a
		}
		return out
	}
	return h
}

// signature tags, raw numbers, and whether they cover the payload.
var sigTags = []int64{267, 268, 1002, 1005}

func coversPayload(tag int64) bool { return tag > 1000 }

const sigPkg = "github.com/ProtonMail/go-crypto/openpgp/packet."

// packetTag: the signature tag whose value a packet was parsed from, and the reader it was parsed with.
func (v *verifier) packetTag(st *State, x *Term) (tag int64, reader *Term, err *Term) {
	if x.op == "unbox" {
		x = x.args[0]
	}
	if x.sym == nil || x.sym.kind != "call" || x.sym.index != 0 || len(x.sym.args) != 1 {
		return
	}
	var rd *Term
	switch x.sym.callee {
	case sigPkg + "Read":
		rd = unface(x.sym.args[0])
	case "(*" + sigPkg + "Reader).Next":
		nr := unface(x.sym.args[0])
		if nr.sym == nil || nr.sym.callee != sigPkg+"NewReader" {
			return
		}
		rd = unface(nr.sym.args[0])
	default:
		return
	}
	if rd.sym == nil || rd.sym.kind != "call" || rd.sym.callee != "bytes.NewReader" && rd.sym.callee != "bytes.NewBuffer" {
		return
	}
	blob := rd.sym.args[0]
	for _, t := range sigTags {
		val, _ := v.it.mapGet(st, v.entries(st, v.hs[0]), mkInt(t), v.ph.et, v.ph.et.Elem())
		if blob == projField(val, v.ph.et.Elem(), v.ph.contents) {
			return t, rd, x.sym.sibs[1]
		}
	}
	return
}

// parsed: the value of a tag was parsed, and nothing follows the packet.
func (v *verifier) parsed(st *State, tag int64) bool {
	if st.hasFact(fact("parsed", "", mkInt(tag))) {
		return true
	}
	var readers []*Term
	each(st, func(x *Term) {
		if t, rd, err := v.packetTag(st, x); t == tag && st.nilness(err) == 1 {
			readers = append(readers, rd)
		}
	})
	ok := false
	each(st, func(x *Term) {
		if x.sym == nil || x.sym.kind != "call" || len(x.sym.args) == 0 {
			return
		}
		for _, rd := range readers {
			if unface(x.sym.args[0]) != rd {
				continue
			}
			switch x.sym.callee {
			case "(*bytes.Reader).Len", "(*bytes.Buffer).Len":
				ok = ok || st.same(toLin(x), linConst(0))
			case "(*bytes.Reader).ReadByte", "(*bytes.Buffer).ReadByte":
				ok = ok || x.sym.index == 1 && v.isEOF(st, x)
			}
		}
	})
	return ok
}

func (v *verifier) isEOF(st *State, e *Term) bool {
	for t, val := range st.truth {
		if val && t.op == "eq" && (t.args[0] == e && strings.Contains(t.args[1].String(), "io.EOF") || t.args[1] == e && strings.Contains(t.args[0].String(), "io.EOF")) {
			return true
		}
	}
	return false
}

// each visits what the state knows something about.
func each(st *State, f func(x *Term)) {
	seen := map[*Term]bool{}
	visit := func(t *Term) {
		t.walk(func(x *Term) {
			if !seen[x] {
				seen[x] = true
				f(x)
			}
		})
	}
	for t := range st.truth {
		visit(t)
	}
	for _, l := range st.lin.m {
		for _, p := range l.ps {
			visit(p.t)
		}
	}
}

// verified: the signature of a tag was checked with a matching key over the bytes it covers.
func (v *verifier) verified(st *State, tag int64) bool {
	if st.hasFact(fact("verified", "", mkInt(tag))) {
		return true
	}
	for t, val := range st.truth {
		if !val || t.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			e := t.args[i]
			if !t.args[1-i].isNil() || e.sym == nil || e.sym.callee != "(*"+sigPkg+"PublicKey).VerifySignature" {
				continue
			}
			key, h, pkt := e.sym.args[0], unface(e.sym.args[1]), e.sym.args[2]
			if pt, _, _ := v.packetTag(st, pkt); pt != tag || !v.matches(st, pkt, key) {
				continue
			}
			d := st.mem[attr(e, "digest")]
			if d == nil || d.op != "sum" || d.args[0] != h || !isHash(h) {
				continue
			}
			if !v.hashOf(st, hashKind(h), pkt) || !v.covers(st, d.args[1], coversPayload(tag)) {
				continue
			}
			return true
		}
	}
	return false
}

func (v *verifier) matches(st *State, pkt, key *Term) bool {
	if st.hasFact(fact("matches", "", pkt, key)) {
		return true
	}
	val, ok := st.decide(app("call", "(*"+sigPkg+"Signature).CheckKeyIdOrFingerprint#0", types.Typ[types.Bool], pkt, key))
	return ok && val
}

// hashOf: the algorithm is the one the packet names.
func (v *verifier) hashOf(st *State, kind, pkt *Term) bool {
	kind = stripConv(kind)
	return kind.op == "ld" && kind.args[0].op == "fld" && strings.HasSuffix(kind.args[0].aux, "openpgp/packet.Signature.Hash") && kind.args[0].args[0] == pkt
}

// covers: exactly the raw header was hashed, and the payload if wanted.
func (v *verifier) covers(st *State, content *Term, payload bool) bool {
	items, ok := hashed(content)
	if !ok || len(items) == 0 || items[0] != v.rawBytes(st, v.hs[1]) {
		return false
	}
	if !payload {
		return len(items) == 1
	}
	return len(items) == 2 && v.isRest(st, items[1])
}

// isRest: everything after the headers, read without error.
func (v *verifier) isRest(st *State, i *Term) bool {
	return i.op == "rest" && st.nilness(i.args[1]) == 1 && unface(st.mem[attr(v.hs[1], "reader")]) == i.args[0]
}

func (v *verifier) hooks() *Hooks {
	h := &Hooks{}
	var facts []*Term
	for _, t := range sigTags {
		facts = append(facts, fact("parsed", "", mkInt(t)), fact("verified", "", mkInt(t)))
	}
	h.joined = func(states []*State) []*Term { return facts }
	h.implied = func(st *State, f *Term) bool {
		switch f.op {
		case "F:parsed":
			n, _ := f.args[0].intVal()
			return v.parsed(st, n)
		case "F:verified":
			n, _ := f.args[0].intVal()
			return v.verified(st, n)
		case "F:matches":
			return v.matches(st, f.args[0], f.args[1])
		}
		return false
	}
	h.templates = func(states []*State, j *Term, ts []*Term) (out []*Term) {
		if typeKey(typOf(j)) != "*"+sigPkg+"PublicKey" {
			return nil
		}
		seen := map[*Term]bool{}
		for _, st := range states {
			for t, val := range st.truth {
				pkt := (*Term)(nil)
				if t.op == "F:matches" || val && t.op == "call" && strings.HasSuffix(t.aux, "Signature).CheckKeyIdOrFingerprint#0") {
					pkt = t.args[0]
				}
				if pkt != nil && !seen[pkt] {
					seen[pkt] = true
					out = append(out, fact("matches", "", pkt, j))
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
		return
	}
	return h
}

func (v *verifier) eval(st *State, fn *ssa.Function, params []*Term, fail int64, pins ...pin) (good []*Exit) {
	v.it.pins = pins
	defer func() { v.it.pins = nil }()
	for _, e := range v.it.evalWith([]*Hooks{v.stubs(fail), v.x.hooks(), v.hooks()}, st, fn, params) {
		if e.st.nilness(e.res[len(e.res)-1]) != 2 {
			good = append(good, e)
		}
	}
	return
}

func (v *verifier) pos(fn *ssa.Function, format string, args ...any) func() Finding {
	return func() Finding {
		x := v.r.at(nil, "%s", fmt.Sprintf(format, args...))
		x.Fn, x.Pos = shortName(fn.String()), v.it.prog.fset.Position(fn.Pos()).String()
		return x
	}
}

func verifyHooks(it *Interp, r *Report) []*Hooks {
	v := newVerifier(it, r)
	h := &Hooks{}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		if v.ph == nil || v.raw == "" || root.Signature.Recv() != nil {
			return
		}
		v.signatures(st, root, params)
	}
	r.finish = func() {
		r.floor("parsed", 16)
		r.floor("verified", 12)
		r.floor("reported", 9)
		r.floor("refused", 6)
		r.floor("usable", 9)
	}
	return []*Hooks{h}
}

func tagNames(tags []int64) string {
	if len(tags) == 0 {
		return "none"
	}
	var n []string
	for _, t := range tags {
		n = append(n, map[int64]string{267: "DSA", 268: "RSA", 1002: "PGP", 1005: "GPG"}[t])
	}
	return strings.Join(n, "+")
}

func (v *verifier) signatures(st0 *State, fn *ssa.Function, params []*Term) {
	ring := -1
	for i, p := range fn.Params {
		if strings.HasSuffix(typeKey(p.Type()), "openpgp.EntityList") {
			ring = i
		}
	}
	if ring < 0 {
		return
	}
	scenario := func(tags []int64, kind int64) *State {
		st := st0.clone()
		sig, gen := v.prepare(st)
		for _, t := range sigTags {
			v.q.present(st, sig, mkInt(t), false, 0)
		}
		for _, t := range tags {
			delete(st.truth, v.q.has(st, sig, mkInt(t)))
			v.q.present(st, sig, mkInt(t), true, kind)
		}
		// the digest is C15's
		v.q.present(st, gen, mkInt(v.q.tag("PAYLOADDIGEST")), false, 0)
		v.q.present(st, sig, mkInt(1004), true, 7)
		return st
	}
	for _, known := range []bool{true, false} {
		all := [][]int64{{}, {267}, {268}, {1002}, {1005}, {267, 268}, {1002, 1005}, sigTags}
		if !known {
			all = [][]int64{{267}, {1005}, sigTags}
		}
		for _, tags := range all {
			st := scenario(tags, 7)
			st.assume(mkEq(params[ring], nilTerm), !known)
			label := tagNames(tags)
			if !known {
				label += " without keys"
			}
			good := v.eval(st, fn, params, -1)
			v.r.item("usable", label, len(good) > 0, v.pos(fn, "a package with signatures %s can never be verified", label))
			for _, e := range good {
				for _, t := range tags {
					name := tagNames([]int64{t})
					v.r.item("parsed", label+" "+name, v.parsed(e.st, t), v.pos(fn, "verification of a package with signatures %s can succeed without the %s signature having been parsed completely", label, name))
					if known {
						v.r.item("verified", label+" "+name, v.verified(e.st, t), v.pos(fn, "verification of a package with signatures %s can succeed without the %s signature having been checked with a matching key over the bytes it covers", label, name))
					}
				}
				ok, why := v.reported(e, tags)
				v.r.item("reported", label, ok, v.pos(fn, "for a package with signatures %s the reported signatures are wrong: %s", label, why))
			}
		}
	}
	for _, t := range sigTags {
		st := scenario([]int64{t}, 4)
		good := v.eval(st, fn, params, -1)
		v.r.item("refused", tagNames([]int64{t}), len(good) == 0, v.pos(fn, "verification can succeed although the value of the %s signature tag is not binary", tagNames([]int64{t})))
	}
	for k := int64(0); k < 2; k++ {
		st := scenario(nil, 7)
		good := v.eval(st, fn, params, k)
		v.r.item("refused", fmt.Sprint("header ", k), len(good) == 0, v.pos(fn, "verification can succeed although a header could not be read"))
	}
}

// reported: the signatures returned are those of the tags.
func (v *verifier) reported(e *Exit, tags []int64) (bool, string) {
	var list *Term
	var et types.Type
	for i, r := range e.res {
		if r.typ != nil && i > 0 && i < len(e.res)-1 || r.op == "list" {
			list = r
		}
	}
	for _, p := range v.it.prog.spkgs {
		if o := p.Pkg.Scope().Lookup("Signature"); o != nil {
			et = o.Type()
		}
	}
	if et == nil {
		return false, "no type Signature"
	}
	if list == nil || list.isNil() {
		return len(tags) == 0, "none is reported"
	}
	els := e.st.elements(list)
	if len(els) != len(tags) {
		return false, fmt.Sprintf("%d are reported", len(els))
	}
	seen := map[int64]bool{}
	s, ok := et.Underlying().(*types.Struct)
	if !ok {
		return false, "not a structure"
	}
	for _, x := range els {
		of, only := map[int64]bool{}, (*Term)(nil)
		for i := 0; i < s.NumFields(); i++ {
			f := e.st.load(fieldAddr(x, fieldID(et, i), s.Field(i).Type()), s.Field(i).Type())
			switch s.Field(i).Name() {
			case "HeaderOnly":
				only = f
			case "Hash", "CreationTime":
				f.walk(func(y *Term) {
					if t, _, _ := v.packetTag(e.st, y); t != 0 {
						of[t] = true
					}
				})
			}
		}
		if len(of) != 1 {
			return false, "one is not taken from a single packet"
		}
		for t := range of {
			if seen[t] {
				return false, "one is reported twice"
			}
			seen[t] = true
			b, ok := false, false
			if only != nil {
				b, ok = only.boolVal()
			}
			if !ok || b == coversPayload(t) {
				return false, fmt.Sprintf("HeaderOnly is %v for %s", only, tagNames([]int64{t}))
			}
		}
	}
	return true, ""
}

// has: the term saying that a map has a key.
func (q *queries) has(st *State, m, key *Term) *Term {
	_, has := q.it.mapGet(st, m, key, q.h.et, q.h.et.Elem())
	return has
}
