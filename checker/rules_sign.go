package main

// C17: what a signing call puts into the signature header.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C17"] = &Rule{
		what:  "Abstract evaluation of the signing entry points with the options absent, unset and set, and for packages with a payload digest or only an MD5: hash objects are followed from construction through every write, signature packets from construction through Sign and Serialize to the bytes kept. On each success the RSA tag must hold, with binary type and its length as count, the serialisation of a binary signature made without error by the caller's key over a hash of the wanted algorithm holding exactly the raw header, the PGP tag the same over header and rest of the payload stream, with the wanted creation time; the DSA and GPG tags must be gone, and the headers returned be those read. The same must hold whenever the signature header is written out by a signing call, and given signatures must be under their own tags whenever it is written out by a call that inserts them.",
		hooks: signHooks, focus: signs, calm: true, strict: true,
		assume: []string{"Sign and Serialize of the OpenPGP package do what they document", "time.Time.IsZero is how an unset creation time is recognised"},
	}
}

func signs(r string) bool {
	switch r[strings.LastIndex(r, ".")+1:] {
	case "SignRpmStream", "SignRpmFile", "RewriteWithSignatures":
		return true
	}
	return false
}

type signer struct {
	*verifier
	opts  *Term // nil: no options
	hash  *Term // the algorithm wanted
	ctime *Term // the creation time wanted, nil: now
	key   *Term
	given map[int64]*Term
	label string
}

func opaqueTerm(op string, args ...*Term) *Term {
	return app(op, "", types.Typ[types.UnsafePointer], args...)
}

// tagState: what is known about an entry of the signature header.
func (s *signer) tagState(tag int64) *Term { return attr(s.hs[0], fmt.Sprint("tag ", tag)) }

func (s *signer) hooks() *Hooks {
	h := &Hooks{}
	known := func(st *State, m *Term) bool { return m == s.entries(st, s.hs[0]) }
	set := func(st *State, k, v *Term) {
		if c := st.constOf(k); c != nil {
			if n, ok := c.intVal(); ok {
				if v.op == "$deleted" {
					st.mem[s.tagState(n)] = v
				} else {
					st.mem[s.tagState(n)] = opaqueTerm("put", v)
				}
				return
			}
		}
		for _, n := range sigTags {
			if eq, known := st.decide(mkEq(k, mkInt(n))); !known || eq {
				st.mem[s.tagState(n)] = unknownContent
			}
		}
	}
	h.mapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
		if known(st, m) {
			set(st, k, v)
		}
	}
	load := func(st *State, p *Term, name string) *Term {
		t := typOf(p)
		st2, ok := derefIf(t).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st2.NumFields(); i++ {
			if st2.Field(i).Name() == name {
				return st.load(fieldAddr(p, fieldID(derefIf(t), i), st2.Field(i).Type()), st2.Field(i).Type())
			}
		}
		return nil
	}
	h.call = func(st *State, c *CallInfo) {
		switch {
		case c.name == "delete":
			if known(st, c.args[0]) {
				set(st, c.args[1], app("$deleted", "", types.Typ[types.UnsafePointer]))
			}
		case c.name == "(*"+sigPkg+"Signature).Sign":
			p := c.args[0]
			var parts []*Term
			for _, f := range []string{"SigType", "Hash", "CreationTime", "PubKeyAlgo"} {
				x := load(st, p, f)
				if x == nil {
					x = noneTerm
				}
				parts = append(parts, x)
			}
			st.mem[attr(p, "params")] = opaqueTerm("params", append(parts, c.args[2], unface(c.args[1]))...)
		}
	}
	h.after = func(st *State, c *CallInfo) {
		switch c.name {
		case "(*" + sigPkg + "Signature).Sign":
			st.mem[attr(c.args[0], "signed")] = opaqueTerm("signed", st.mem[attr(c.args[0], "params")], c.res[0])
			return
		case "(*" + sigPkg + "Signature).Serialize":
			b := unface(c.args[1])
			x := st.mem[attr(c.args[0], "signed")]
			if x == nil || st.mem[attr(b, "holds")] != nil || !isAlloc(b) {
				x = unknownContent
			}
			st.mem[attr(b, "holds")] = opaqueTerm("serialized", x, c.res[0])
			return
		case "(*bytes.Buffer).Bytes":
			if x := st.mem[attr(c.args[0], "holds")]; x != nil {
				st.mem[attr(c.res[0], "signature")] = x
			}
			return
		case "(*bytes.Buffer).Len":
			return
		}
		for _, a := range c.args {
			if b := s.it.bufferArg(a); b != nil {
				st.mem[attr(b, "holds")] = unknownContent
			}
		}
	}
	h.enter = func(st *State, c *CallInfo) {
		if c.fn == nil || c.fn.Signature.Recv() == nil || len(c.args) < 2 || c.args[0] != s.hs[0] || !isWriterType(c.fn.Params[1].Type()) {
			return
		}
		s.check(st, c.instr.Parent(), "written", s.label+", when written by "+c.instr.Parent().Name())
	}
	return h
}

func isWriterType(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == "Write" {
			return true
		}
	}
	return false
}

// value: the bytes an entry holds, if the entry is well formed.
func (s *signer) value(st *State, tag int64) (*Term, string) {
	x := st.mem[s.tagState(tag)]
	switch {
	case x == nil:
		return nil, "it is left as it was"
	case x.op == "$deleted":
		return nil, "it is removed"
	case x.op != "put":
		return nil, "it may be another"
	}
	x = x.args[0]
	et := s.ph.et.Elem()
	kind, content, count := projField(x, et, s.ph.kind), projField(x, et, s.ph.contents), projField(x, et, s.ph.count)
	if k, ok := stripConv(kind).intVal(); !ok || k != 7 {
		return nil, "its type is not binary"
	}
	if stripConv(count) != mkLen(content) && !st.same(toLin(stripConv(count)), toLin(mkLen(content))) {
		return nil, "its count is not its length"
	}
	return content, ""
}

// signature: is a value a signature over the header (and payload)?
func (s *signer) signature(st *State, x *Term, payload bool) string {
	d := st.mem[attr(x, "signature")]
	if d == nil || d.op != "serialized" {
		return "it is not the serialisation of a signature"
	}
	if st.nilness(d.args[1]) != 1 {
		return "it may have been serialised with an error"
	}
	d = d.args[0]
	if d.op != "signed" || d.args[0].op != "params" {
		return "it was not signed"
	}
	err, p := d.args[1], d.args[0].args
	if st.nilness(err) != 1 {
		return "signing may have failed"
	}
	if n, ok := stripConv(p[0]).intVal(); !ok || n != 0 {
		return fmt.Sprintf("its type is %s", p[0])
	}
	if p[4] != s.key {
		return "it is made with another key"
	}
	if !s.equal(st, stripConv(p[1]), s.hash) {
		return fmt.Sprintf("its hash algorithm is %s", p[1])
	}
	switch {
	case s.ctime == nil:
		n, _ := callOf(p[2])
		if n != "time.Now#0" {
			return fmt.Sprintf("its creation time is %s", p[2])
		}
	case !sameShape(p[2], s.ctime):
		return fmt.Sprintf("its creation time is %s", p[2])
	}
	if !s.publicAlgo(p[3]) {
		return fmt.Sprintf("its key algorithm is %s", p[3])
	}
	sum := st.mem[attr(err, "digest")]
	if sum == nil || sum.op != "sum" || sum.args[0] != p[5] {
		return "what was signed is unknown"
	}
	if !s.equal(st, stripConv(hashKind(sum.args[0])), s.hash) {
		return fmt.Sprintf("what was signed is a hash of kind %s", hashKind(sum.args[0]))
	}
	if !s.covers(st, sum.args[1], payload) {
		items, _ := hashed(sum.args[1])
		return fmt.Sprintf("what was hashed is %v", items)
	}
	return ""
}

func (s *signer) equal(st *State, a, b *Term) bool {
	return sameShape(a, b) || st.same(toLin(a), toLin(b))
}

func (s *signer) publicAlgo(x *Term) bool {
	x = stripConv(x)
	if x.op != "ld" && x.op != "field" {
		return false
	}
	ok := false
	x.walk(func(y *Term) { ok = ok || y == s.key })
	return ok && strings.Contains(x.String(), "PubKeyAlgo")
}

func (s *signer) check(st *State, fn *ssa.Function, rule, where string) {
	for _, tag := range sigTags {
		name := tagNames([]int64{tag})
		label := where + " " + name
		if tag == 267 || tag == 1005 {
			x := st.mem[s.tagState(tag)]
			s.r.item(rule, label, x != nil && x.op == "$deleted", s.pos(fn, "a %s signature made earlier may still be in the signature header (%s)", name, where))
			continue
		}
		x, why := s.value(st, tag)
		switch {
		case why != "":
		case s.given != nil:
			if x != s.given[tag] {
				why = fmt.Sprintf("it is %s", x)
			}
		default:
			why = s.signature(st, x, coversPayload(tag))
		}
		s.r.item(rule, label, why == "", s.pos(fn, "the %s tag does not hold the signature it should (%s): %s", name, where, why))
	}
}

func signHooks(it *Interp, r *Report) []*Hooks {
	s := &signer{verifier: newVerifier(it, r)}
	h := &Hooks{}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		if s.ph == nil || s.raw == "" || root.Signature.Recv() != nil || len(params) < 3 {
			return
		}
		s.all(st, root, params)
	}
	r.finish = func() {
		r.floor("signed", 24)
		r.floor("written", 12)
		r.floor("headers", 3)
		r.floor("usable", 6)
	}
	return []*Hooks{h}
}

func (s *signer) all(st0 *State, fn *ssa.Function, params []*Term) {
	s.key, s.opts, s.given = nil, nil, nil
	var ot *types.Named
	var given []*Term
	for i, p := range fn.Params {
		switch {
		case strings.HasSuffix(typeKey(p.Type()), "openpgp/packet.PrivateKey"):
			s.key = params[i]
		case isBytes(p.Type()):
			given = append(given, params[i])
		case isPointer(p.Type()) && strings.HasSuffix(typeKey(p.Type()), ".SignatureOptions"):
			s.opts = params[i]
			ot, _ = derefIf(p.Type()).(*types.Named)
		}
	}
	if s.key == nil {
		if len(given) == 2 {
			s.given = map[int64]*Term{1002: given[0], 268: given[1]}
			s.run(st0, fn, params, "given signatures", true)
		}
		return
	}
	if ot == nil {
		return
	}
	field := func(st *State, name string) *Term {
		u := ot.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return st.load(fieldAddr(s.opts, fieldID(ot, i), u.Field(i).Type()), u.Field(i).Type())
			}
		}
		return nil
	}
	stream := types.IsInterface(fn.Params[0].Type())
	for _, label := range []string{"no options", "unset options", "set options", "a set hash", "a set time"} {
		if !stream && label != "set options" && label != "no options" {
			continue
		}
		for _, digest := range []bool{true, false} {
			if !digest && label != "no options" {
				continue
			}
			st := st0.clone()
			st.assume(mkEq(s.opts, nilTerm), label == "no options")
			s.hash, s.ctime = mkInt(5), nil
			if label != "no options" {
				hf, tf := field(st, "Hash"), field(st, "CreationTime")
				if hf == nil || tf == nil {
					return
				}
				setH, setT := label != "unset options" && label != "a set time", label != "unset options" && label != "a set hash"
				st.assume(mkEq(hf, mkInt(0)), !setH)
				st.assume(app("call", "(time.Time).IsZero#0", types.Typ[types.Bool], tf), !setT)
				if setH {
					s.hash = hf
				}
				if setT {
					s.ctime = tf
				}
			}
			l := label
			if !digest {
				l += " and MD5"
			}
			s.run(st, fn, params, l, digest)
		}
	}
}

func (s *signer) run(st0 *State, fn *ssa.Function, params []*Term, label string, digest bool) {
	st := st0.clone()
	sig, gen := s.prepare(st)
	var gs []answer
	digestTag, algoTag := s.q.tag("PAYLOADDIGEST"), s.q.tag("PAYLOADDIGESTALGO")
	s.q.present(st, gen, mkInt(digestTag), digest, 6)
	if digest {
		s.q.present(st, gen, mkInt(algoTag), true, 4)
		gs = append(gs, answer{s.hs[1], digestTag, s.text(st, "payload digest", false)}, answer{s.hs[1], algoTag, mkInt(s.q.tag("HASH_SHA256"))})
	}
	s.q.present(st, sig, mkInt(md5Tag), !digest, 7)
	for _, t := range []int64{sha256Tag, sha1Tag} {
		s.q.present(st, sig, mkInt(t), false, 0)
	}
	n := 0
	s.label = fn.Name() + " with " + label
	for _, e := range s.it.evalWith([]*Hooks{s.givens(gs), s.stubs(-1), s.x.hooks(), s.verifier.hooks(), s.hooks()}, st, fn, params) {
		if e.st.nilness(e.res[len(e.res)-1]) == 2 {
			continue
		}
		n++
		s.check(e.st, fn, "signed", s.label)
		hdr := (*Term)(nil)
		if t := fn.Signature.Results().At(0).Type(); isPointer(t) {
			hdr = s.ph.headerOf(e.st, e.res[0], t)
		}
		ok := hdr != nil
		for i, f := range []string{s.ph.sig, s.ph.gen} {
			ok = ok && e.st.load(fieldAddr(hdr, f, s.ph.ht), s.ph.ht) == s.hs[i]
		}
		s.r.item("headers", fn.Name()+" "+label, ok, s.pos(fn, "%s does not return the headers it read", fn.Name()))
	}
	s.r.item("usable", fn.Name()+" "+label, n > 0, s.pos(fn, "%s can never succeed with %s", fn.Name(), label))
}
