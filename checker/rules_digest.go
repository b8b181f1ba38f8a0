package main

// C15: digests that a package carries are enforced.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C15"] = &Rule{
		what:  "Abstract evaluation of every entry point that reads headers, with the stream position as a ghost and hash objects followed from construction through every write: when the signature header carries a SHA-256 or SHA-1 digest, each success needs an established equality between that value and the hexadecimal sum of a hash of that kind holding exactly the stream bytes kept as the general header (SHA-256 preferred). Verification and signing are evaluated for every payload digest algorithm, an unknown one, none, and MD5 present or absent, with and without signatures: each success needs the equality between the declared payload digest and a sum of the declared kind over exactly the rest of the stream read to its end without error (or MD5 over raw header and that rest), and there is no success when no digest is usable. Calls that work on files may succeed only after such an entry point did.",
		hooks: digestHooks, focus: readsHeaders, calm: true, strict: true,
		assume: []string{"a header digest that is empty or not of string type counts as absent, as does a payload digest without a readable algorithm"},
	}
}

func readsHeaders(r string) bool {
	switch r[strings.LastIndex(r, ".")+1:] {
	case "ReadHeader", "ReadRpm", "Verify", "SignRpmStream", "SignRpmFile", "RewriteWithSignatures":
		return true
	}
	return false
}

// callOf: the function and arguments a term is the result of.
func callOf(t *Term) (name string, args []*Term) {
	switch {
	case t.op == "call":
		return t.aux, t.args
	case t.sym != nil && t.sym.kind == "call":
		return fmt.Sprintf("%s#%d", t.sym.callee, max(t.sym.index, 0)), t.sym.args
	}
	return "", nil
}

// digestForm: a term without its representation; level counts hexadecimal encodings.
func digestForm(st *State, t *Term) (core *Term, level int) {
	for i := 0; i < 8; i++ {
		name, args := callOf(t)
		switch {
		case name == "encoding/hex.EncodeToString#0":
			t, level = args[0], level+1
			continue
		case name == "encoding/hex.DecodeString#0":
			t, level = args[0], level-1
			continue
		case name == "strings.ToLower#0":
			t = args[0]
			continue
		case name == "fmt.Sprintf#0" && len(args) == 2:
			if f, ok := args[0].strVal(); ok && f == "%x" {
				if e := st.elements(args[1]); len(e) == 1 {
					t, level = unface(e[0]), level+1
					continue
				}
			}
		case t.op == "bytestr" || t.op == "bytesof" || t.op == "conv":
			t = t.args[0]
			continue
		}
		break
	}
	return t, level
}

// enforced: a digest was found equal to a value.
func (v *verifier) enforced(st *State, value *Term, level int, kind int64, covers func(content *Term) bool) bool {
	want, l0 := digestForm(st, value)
	level += l0
	check := func(a, b *Term) bool {
		for i := 0; i < 2; i++ {
			x, lx := digestForm(st, a)
			y, ly := digestForm(st, b)
			a, b = b, a
			d := st.mem[attr(x, "sum")]
			if d == nil || !sameShape(y, want) || lx != level+ly-l0 {
				continue
			}
			if k, ok := stripConv(hashKind(d.args[0])).intVal(); ok && k == kind && covers(d.args[1]) {
				return true
			}
		}
		return false
	}
	for t, val := range st.truth {
		if !val {
			continue
		}
		if t.op == "eq" {
			if check(t.args[0], t.args[1]) {
				return true
			}
			continue
		}
		name, args := callOf(t)
		switch name {
		case "bytes.Equal#0", "strings.EqualFold#0", "bytes.EqualFold#0", "crypto/hmac.Equal#0":
			if check(args[0], args[1]) {
				return true
			}
		}
	}
	ok := false
	each(st, func(x *Term) {
		name, args := callOf(x)
		switch name {
		case "crypto/subtle.ConstantTimeCompare#0":
			ok = ok || st.same(toLin(x), linConst(1)) && check(args[0], args[1])
		case "bytes.Compare#0", "strings.Compare#0":
			ok = ok || st.same(toLin(x), linConst(0)) && check(args[0], args[1])
		}
	})
	return ok
}

// answer: queries of a header for a tag give a prepared value.
type answer struct {
	h   *Term
	tag int64
	val *Term
}

func (v *verifier) givens(gs []answer) *Hooks {
	h := &Hooks{}
	h.stub = func(st *State, c *CallInfo) []*Term {
		if c.fn == nil || c.fn.Signature.Recv() == nil || len(c.args) != 2 {
			return nil
		}
		res := c.fn.Signature.Results()
		tag, ok := c.args[1].intVal()
		if !ok || res.Len() != 2 || !isErrorType(res.At(1).Type()) {
			return nil
		}
		for _, g := range gs {
			if g.h != c.args[0] || g.tag != tag {
				continue
			}
			t := res.At(0).Type()
			str := g.val.typ != nil && isStringType(g.val.typ)
			switch u := t.Underlying().(type) {
			case *types.Basic:
				if str == (u.Info()&types.IsString != 0) && (str || u.Info()&types.IsInteger != 0) {
					return []*Term{g.val, nilTerm}
				}
			case *types.Slice:
				e, ok := u.Elem().Underlying().(*types.Basic)
				if !ok || e.Kind() == types.Uint8 {
					return nil
				}
				if str == (e.Info()&types.IsString != 0) {
					return []*Term{app("list", "", t, g.val), nilTerm}
				}
			}
		}
		return nil
	}
	return h
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func digestHooks(it *Interp, r *Report) []*Hooks {
	v := newVerifier(it, r)
	h := &Hooks{}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		s := root.Signature
		if v.ph == nil || v.raw == "" || s.Recv() != nil || len(params) == 0 || !isErrorType(s.Results().At(s.Results().Len()-1).Type()) {
			return
		}
		if !types.IsInterface(root.Params[0].Type()) {
			v.delegates(st, root, params)
			return
		}
		v.headerDigests(st, root, params)
		if n := root.Name(); n == "Verify" || n == "SignRpmStream" {
			v.payloadDigests(st, root, params)
		}
	}
	r.finish = func() {
		r.floor("header digest", 12)
		r.floor("payload digest", 20)
		r.floor("refused", 8)
		r.floor("usable", 30)
		r.floor("checked first", 2)
	}
	return []*Hooks{h}
}

// tags of the digests
const sha256Tag, sha1Tag, md5Tag = 273, 269, 1004

var payloadAlgos = []struct {
	name string
	hash int64 // crypto.Hash
}{{"HASH_MD5", 2}, {"HASH_SHA1", 3}, {"HASH_SHA224", 4}, {"HASH_SHA256", 5}, {"HASH_SHA384", 6}, {"HASH_SHA512", 7}}

func (v *verifier) text(st *State, name string, empty bool) *Term {
	s := mkSym("param", name, types.Typ[types.String], nil, nil)
	if empty {
		return mkStr("")
	}
	st.assume(mkEq(s, mkStr("")), false)
	st.addLin(linConst(1).sub(toLin(mkLen(s))))
	return s
}

// headerDigests: the general header is read for real, from a stream with a ghost position.
func (v *verifier) headerDigests(st0 *State, fn *ssa.Function, params []*Term) {
	m := &streamModel{it: v.it}
	v.x.m = m
	m.teed = v.x.teed
	defer func() { v.x.m = nil }()
	for _, sc := range []struct {
		label        string
		sha256, sha1 int // 0 absent, 1 empty, 2 there
		kind         int64
		signed       bool
	}{
		{"SHA-256 and SHA-1", 2, 2, 5, true}, {"SHA-256", 2, 0, 5, false}, {"SHA-1", 0, 2, 3, false}, {"an empty SHA-256 and SHA-1", 1, 2, 3, false}, {"none", 0, 0, 0, false},
	} {
		st := st0.clone()
		sig, _ := v.prepare(st)
		var gs []answer
		for _, t := range sigTags {
			if fn.Name() == "Verify" {
				v.q.present(st, sig, mkInt(t), sc.signed, 7)
			}
		}
		want := (*Term)(nil)
		for i, there := range []int{sc.sha256, sc.sha1} {
			tag := []int64{sha256Tag, sha1Tag}[i]
			v.q.present(st, sig, mkInt(tag), there > 0, 6)
			if there > 0 {
				x := v.text(st, fmt.Sprint("digest ", tag), there == 1)
				gs = append(gs, answer{v.hs[0], tag, x})
				if there == 2 && want == nil {
					want = x
				}
			}
		}
		m.pos(st)
		stub := v.stubs(-1)
		whole := stub.stub
		stub.stub = func(st *State, c *CallInfo) []*Term {
			if n := st.mem[stubCount()]; n != nil {
				return nil
			}
			return whole(st, c)
		}
		n := 0
		label := fn.Name() + " " + sc.label
		for _, e := range v.it.evalWith([]*Hooks{v.givens(gs), stub, m.hooks(), v.x.hooks(), v.hooks()}, st, fn, params) {
			if e.st.nilness(e.res[len(e.res)-1]) == 2 {
				continue
			}
			n++
			if sc.kind == 0 {
				continue
			}
			sp, ok := v.kept(m, e, fn)
			v.r.item("header digest", label, ok && v.enforced(e.st, want, 1, sc.kind, func(content *Term) bool {
				items, whole := hashed(content)
				if !whole || len(items) == 0 {
					return false
				}
				at := sp.pos
				for _, i := range items {
					if i.op != "span" || !e.st.same(toLin(i.args[0]), at) {
						return false
					}
					at = at.add(toLin(i.args[1]))
				}
				return e.st.same(at, sp.pos.add(sp.n))
			}), v.pos(fn, "%s can succeed for a package with a header digest (%s) although the header as read was not found to match it", fn.Name(), sc.label))
		}
		v.r.item("usable", label, n > 0, v.pos(fn, "%s never succeeds for a package with a header digest (%s)", fn.Name(), sc.label))
	}
}

// kept: the stream bytes kept as the general header.
func (v *verifier) kept(m *streamModel, e *Exit, fn *ssa.Function) (span, bool) {
	for i, r := range e.res {
		t := fn.Signature.Results().At(i).Type()
		if !isPointer(t) {
			continue
		}
		if hdr := v.ph.headerOf(e.st, r, t); hdr != nil {
			gen := e.st.load(fieldAddr(hdr, v.ph.gen, v.ph.ht), v.ph.ht)
			return m.resolve(e.st, v.rawBytes(e.st, gen))
		}
	}
	return span{}, false
}

func (v *verifier) payloadDigests(st0 *State, fn *ssa.Function, params []*Term) {
	algoTag, digestTag := v.q.tag("PAYLOADDIGESTALGO"), v.q.tag("PAYLOADDIGEST")
	run := func(label string, algo int64, digest, md5, signed bool, kind int64, whole bool) {
		st := st0.clone()
		sig, gen := v.prepare(st)
		for _, t := range sigTags {
			v.q.present(st, sig, mkInt(t), signed, 7)
		}
		var gs []answer
		v.q.present(st, gen, mkInt(digestTag), digest, 6)
		want, level := (*Term)(nil), 1
		if digest {
			want = v.text(st, "payload digest", false)
			gs = append(gs, answer{v.hs[1], digestTag, want})
		}
		switch {
		case algo > 0:
			v.q.present(st, gen, mkInt(algoTag), true, 4)
			gs = append(gs, answer{v.hs[1], algoTag, mkInt(algo)})
		default:
			v.q.present(st, gen, mkInt(algoTag), algo < 0, 6)
		}
		val := v.q.present(st, sig, mkInt(md5Tag), md5, 7)
		if md5 {
			c := projField(val, v.ph.et.Elem(), v.ph.contents)
			st.addLin(linConst(1).sub(toLin(mkLen(c))))
			if whole {
				want, level = c, 0
			}
		}
		label = fn.Name() + " " + label
		n := 0
		for _, e := range v.it.evalWith([]*Hooks{v.givens(gs), v.stubs(-1), v.x.hooks(), v.hooks()}, st, fn, params) {
			if e.st.nilness(e.res[len(e.res)-1]) == 2 {
				continue
			}
			n++
			if kind == 0 {
				continue
			}
			v.r.item("payload digest", label, v.enforced(e.st, want, level, kind, func(content *Term) bool {
				items, ok := hashed(content)
				if !ok {
					return false
				}
				if whole {
					return v.covers(e.st, content, true)
				}
				return len(items) == 1 && v.isRest(e.st, items[0])
			}), v.pos(fn, "%s can succeed for a package with %s although the payload as read was not found to match it", fn.Name(), label))
		}
		if kind == 0 {
			v.r.item("refused", label, n == 0, v.pos(fn, "%s can succeed for a package without usable payload digest (%s)", fn.Name(), label))
		} else {
			v.r.item("usable", label, n > 0, v.pos(fn, "%s never succeeds for a package with %s", fn.Name(), label))
		}
	}
	for i, a := range payloadAlgos {
		k := v.q.tag(a.name)
		run("payload digest "+a.name, k, true, i%2 == 0, false, a.hash, false)
	}
	run("signatures and payload digest HASH_SHA256", v.q.tag("HASH_SHA256"), true, true, true, 5, false)
	run("signatures and MD5", 0, false, true, true, 2, true)
	run("signatures and no digest", 0, false, false, true, 0, false)
	for _, md5 := range []bool{true, false} {
		kind, label := int64(0), "and no MD5"
		if md5 {
			kind, label = 2, "and MD5"
		}
		run("unknown algorithm "+label, 99, true, md5, false, kind, md5)
		run("payload digest without algorithm "+label, 0, true, md5, false, kind, md5)
		run("payload digest with an algorithm of another type "+label, -1, true, md5, false, kind, md5)
		run("no payload digest "+label, 0, false, md5, false, kind, md5)
	}
}

// delegates: what works on files uses an entry point that is checked.
func (v *verifier) delegates(st0 *State, fn *ssa.Function, params []*Term) {
	called := ghostAddr("headers checked")
	signs := false
	for _, p := range fn.Params {
		signs = signs || strings.HasSuffix(typeKey(p.Type()), "openpgp/packet.PrivateKey")
	}
	h := &Hooks{}
	h.stub = func(st *State, c *CallInfo) []*Term {
		if c.fn == nil || c.fn.Object() == nil || !c.fn.Object().Exported() || c.fn.Signature.Recv() != nil || len(c.fn.Params) == 0 {
			return nil
		}
		switch n := c.fn.Name(); {
		case !readsHeaders(c.fn.String()) || !types.IsInterface(c.fn.Params[0].Type()):
			return nil
		case signs && n != "Verify" && n != "SignRpmStream":
			return nil
		}
		res := c.fn.Signature.Results()
		var out []*Term
		for i := 0; i < res.Len(); i++ {
			x := v.it.fresh(st, "fresh", c.instr, fmt.Sprint("checked", i), res.At(i).Type())
			if isPointer(res.At(i).Type()) {
				hdr := v.ph.headerOf(st, x, res.At(i).Type())
				for _, f := range []string{v.ph.sig, v.ph.gen} {
					if hdr != nil {
						st.assume(mkEq(st.load(fieldAddr(hdr, f, v.ph.ht), v.ph.ht), nilTerm), false)
					}
				}
				st.assume(mkEq(x, nilTerm), false)
			}
			out = append(out, x)
		}
		if unface(c.args[0]) == params[0] {
			st.mem[called] = out[len(out)-1]
		}
		return out
	}
	h.joined = func([]*State) []*Term { return []*Term{fact("checked", "")} }
	checked := func(st *State) bool {
		if st.hasFact(fact("checked", "")) {
			return true
		}
		e := st.mem[called]
		return e != nil && st.nilness(e) == 1
	}
	h.implied = func(st *State, f *Term) bool { return f.op == "F:checked" && checked(st) }
	n := 0
	for _, e := range v.it.evalWith([]*Hooks{h}, st0, fn, params) {
		if e.st.nilness(e.res[len(e.res)-1]) == 2 {
			continue
		}
		n++
		v.r.item("checked first", fn.Name(), checked(e.st), v.pos(fn, "%s can succeed without the package's digests having been checked", fn.Name()))
	}
	v.r.item("usable", fn.Name(), n > 0, v.pos(fn, "%s never succeeds", fn.Name()))
}
