package main

// C10 and C11: the end of the archive and the bounds of an entry's contents.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C10"] = &Rule{
		what:  "Abstract interpretation of iteration, reading and extraction: an error that may be io.EOF (classified by its source: the standard library's read functions, wrapped errors, joins) may leave ReadNextEntry never, Next only where the entry name read from the stream was found equal to the trailer, a contents read only where the entry's remaining length (a linear form over the entry's fields that starts as the declared size and decreases by what is delivered) is zero; extraction may report success only after the trailer was seen.",
		hooks: eofHooks, focus: cpioRoot, calm: true, strict: true,
		assume: []string{"the standard library returns io.EOF only where documented", "readers supplied by the caller do not call back into the archive reader"},
	}
	rules["C11"] = &Rule{
		what:  "Abstract interpretation with ghost stream positions and linear arithmetic: the entry's remaining length starts as the declared size, every read of the stream on behalf of an entry asks for at most that much and is preceded by a comparison of the stream position with the entry's own position, what is delivered is subtracted; the position of the next header is kept as the entry's end rounded up to four bytes (decided for all four residues) and the next header is read exactly there; contents start at the padded end of the name; Reader.Read reads the entry last returned.",
		hooks: boundHooks, focus: cpioRoot, calm: true, strict: true,
		assume: []string{"archive positions stay below 2^58", "readers supplied by the caller do not call back into the archive reader"},
	}
}

// ---- io.EOF ----

func isEOF(t *Term) bool { return t != nil && t.op == "gval" && t.aux == "io.EOF" }

var neverEOF = []string{"os.", "strconv.", "path", "syscall.", "errors.New", "io.Copy#", "io.ReadAll", "bytes.", "strings.", "encoding/hex.", "golang.org/x/sys/", "io/ioutil.ReadAll", "(*os.File).Seek", "(*os.File).Stat", "(*os.File).Write", "(*os.File).Close", "(*os.File).Chmod"}

func mayBeEOF(st *State, e *Term) bool { return mayBeEOFd(st, e, 0) }

func mayBeEOFd(st *State, e *Term, depth int) bool {
	if e == nil || st.nilness(e) == 1 || depth > 6 {
		return e != nil && depth > 6
	}
	if isEOF(e) {
		return true
	}
	if st.hasFact(fact("noteof", "", e)) {
		return false
	}
	for t, v := range st.truth {
		if t.op == "eq" && (t.args[0] == e && isEOF(t.args[1]) || t.args[1] == e && isEOF(t.args[0])) {
			return v
		}
		if v && t.op == "eq" && (t.args[0] == e || t.args[1] == e) {
			o := t.args[0]
			if o == e {
				o = t.args[1]
			}
			if !o.isNil() && !mayBeEOFd(st, o, depth+3) {
				return false
			}
		}
	}
	switch {
	case e.op == "call":
		return false
	case e.op == "mkiface", e.op == "gval":
		return false
	case e.sym != nil && e.sym.kind == "call":
		cal := e.sym.callee
		switch cal {
		case "io.Copy", "io.CopyBuffer":
			return false
		case "fmt.Errorf":
			f, ok := e.sym.args[0].strVal()
			if ok && !strings.Contains(f, "%w") {
				return false
			}
			for _, a := range st.elements(e.sym.args[1]) {
				if isErrorType(typOf(a)) && mayBeEOFd(st, a, depth+1) {
					return true
				}
			}
			return !ok
		case "errors.Join":
			for _, a := range st.elements(e.sym.args[0]) {
				if mayBeEOFd(st, a, depth+1) {
					return true
				}
			}
			return false
		}
		for _, p := range neverEOF {
			if strings.HasPrefix(cal, strings.TrimSuffix(p, "#")) && (!strings.HasSuffix(p, "#") || cal == strings.TrimSuffix(p, "#")) {
				return false
			}
		}
		return true
	case e.op == "ld" && isGlobal(addrRoot(e.args[0])):
		return false // another error variable
	case isGlobal(e):
		return false
	}
	return true
}

// ---- candidates for the linear forms over an entry's fields ----

type form struct {
	typ  string // the object's type
	a, b string // a, a-b or a+b
	sign int64
}

func (f form) String() string {
	n := func(s string) string { return s[strings.LastIndex(s, ".")+1:] }
	switch f.sign {
	case 1:
		return n(f.a) + "+" + n(f.b)
	case -1:
		return n(f.a) + "-" + n(f.b)
	}
	return n(f.a)
}

func intFields(t types.Type) (ids []string, ts []types.Type) {
	s, ok := derefIf(t).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if isInteger(s.Field(i).Type()) {
			ids = append(ids, fieldID(derefIf(t), i))
			ts = append(ts, s.Field(i).Type())
		}
	}
	return
}

func formsOf(t types.Type, sign int64) []form {
	ids, _ := intFields(t)
	k := typeKey(derefIf(t))
	var r []form
	for _, a := range ids {
		r = append(r, form{typ: k, a: a})
		for _, b := range ids {
			if a != b && (sign < 0 || a < b) {
				r = append(r, form{k, a, b, sign})
			}
		}
	}
	return r
}

func (f form) value(st *State, obj *Term) Lin {
	v := func(id string) Lin { return toLin(st.load(fieldAddr(obj, id, int64T), int64T)) }
	l := v(f.a)
	if f.sign != 0 {
		l = l.add(v(f.b).scale(f.sign))
	}
	return l
}

// tally of checks per candidate: a candidate qualifies when all its checks hold
type tally struct {
	r     *Report
	cands map[form]map[string]bool // check -> holds
	fails map[form][]Finding
	kinds map[string]bool
}

func newTally(r *Report) *tally {
	return &tally{r: r, cands: map[form]map[string]bool{}, fails: map[form][]Finding{}, kinds: map[string]bool{}}
}

func (t *tally) check(f form, key string, ok bool, mk func() Finding) {
	if t.cands[f] == nil {
		t.cands[f] = map[string]bool{}
	}
	if old, seen := t.cands[f][key]; seen && (!old || ok) {
		return
	}
	t.cands[f][key] = ok
	if !ok {
		t.fails[f] = append(t.fails[f], mk())
	}
}

// decide reports the checks of the best candidate.
func (t *tally) decide(rule, what string, kinds []string) {
	var best *form
	score := func(f form) (n int) {
		for k, ok := range t.cands[f] {
			if !ok {
				n += 10
				if strings.HasPrefix(k, "init") {
					n += 1000
				}
			}
		}
		for _, k := range kinds {
			found := false
			for c := range t.cands[f] {
				if strings.HasPrefix(c, k) {
					found = true
				}
			}
			if !found {
				n += 500
			}
		}
		return
	}
	var fs []form
	for f := range t.cands {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fmt.Sprint(fs[i]) < fmt.Sprint(fs[j]) })
	for i := range fs {
		if best == nil || score(fs[i]) < score(*best) {
			best = &fs[i]
		}
	}
	if best == nil {
		t.r.item(rule, what, false, func() Finding { return Finding{Msg: "nothing found that keeps " + what} })
		return
	}
	for _, k := range kinds {
		found := false
		for c := range t.cands[*best] {
			if strings.HasPrefix(c, k) {
				found = true
			}
		}
		if !found {
			t.r.item(rule, what+" "+k, false, func() Finding {
				return Finding{Msg: fmt.Sprintf("%s: no place found where %q could be checked", what, k)}
			})
		}
	}
	var ks []string
	for k := range t.cands[*best] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t.r.item(rule, what+" ("+best.String()+") "+k, t.cands[*best][k], func() Finding {
			for _, f := range t.fails[*best] {
				if strings.HasSuffix(f.Msg, "["+k+"]") {
					return f
				}
			}
			return Finding{Msg: k}
		})
	}
}

// ---- reading an entry's contents ----

// entryReads watches calls of Read methods of module types.
type entryReads struct {
	m     *streamModel
	it    *Interp
	r     *Report
	rest  *tally // what remains of the entry
	place *tally // where the entry's next byte is
	objs  map[*Term]types.Type
	eof   bool // check the end of file rule, else the bounds
}

func readRecv(fn *ssa.Function) types.Type {
	if fn.Name() != "Read" || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 1 || !isByteSlice(fn.Signature.Params().At(0).Type()) {
		return nil
	}
	t := fn.Signature.Recv().Type()
	if ids, _ := intFields(t); len(ids) == 0 {
		return nil
	}
	return t
}

func (er *entryReads) begin(st *State, fn *ssa.Function, obj *Term) {
	t := readRecv(fn)
	if t == nil {
		return
	}
	er.objs[obj] = t
	ids, ts := intFields(t)
	for i, id := range ids {
		st.mem[attr(obj, "in|"+id)] = st.load(fieldAddr(obj, id, ts[i]), ts[i])
	}
}

func (er *entryReads) entryVal(st *State, f form, obj *Term) (Lin, bool) {
	v := func(id string) *Term { return st.mem[attr(obj, "in|"+id)] }
	if v(f.a) == nil {
		return Lin{}, false
	}
	l := toLin(v(f.a))
	if f.sign != 0 {
		if v(f.b) == nil {
			return Lin{}, false
		}
		l = l.add(toLin(v(f.b)).scale(f.sign))
	}
	return l, true
}

func (er *entryReads) end(st *State, fn *ssa.Function, obj *Term, res []*Term, in ssa.Instruction) {
	t := readRecv(fn)
	if t == nil || len(res) != 2 {
		return
	}
	n := toLin(res[0])
	name := shortName(fn.String())
	for _, f := range formsOf(t, -1) {
		before, ok := er.entryVal(st, f, obj)
		if !ok {
			continue
		}
		after := f.value(st, obj)
		key := "step " + name
		er.rest.check(f, key, st.same(before.sub(after), n), func() Finding {
			return er.r.at(in, "%s delivers %s bytes but what remains of the entry changes from %s to %s [%s]", name, n, before, after, key)
		})
		if er.eof {
			k2 := "end " + name
			er.rest.check(f, k2, er.eofOK(st, f, obj, res[1]), func() Finding {
				return er.r.at(in, "%s may report the end of the entry (io.EOF) while %s bytes of it are missing [%s]", name, after, k2)
			})
		}
	}
	if er.eof {
		return
	}
	for _, f := range formsOf(t, 1) {
		before, ok := er.entryVal(st, f, obj)
		if !ok {
			continue
		}
		after := f.value(st, obj)
		key := "step " + name
		er.place.check(f, key, st.same(after.sub(before), n), func() Finding {
			return er.r.at(in, "%s delivers %s bytes but the entry's position moves by %s [%s]", name, n, after.sub(before), key)
		})
	}
}

// sharedErrors: errors that have the same value in all states and may be io.EOF in some.
func sharedErrors(states []*State) []*Term {
	seen := map[*Term]bool{}
	for v, t := range states[0].env {
		if !isErrorType(v.Type()) || seen[t] || states[0].nilness(t) == 1 {
			continue
		}
		for _, st := range states {
			if st.env[v] == t && mayBeEOF(st, t) {
				seen[t] = true
			}
		}
	}
	return sortedTerms(seen)
}

func eofFact(f form, e, obj *Term) *Term { return fact("eofdone", fmt.Sprint(f), e, obj) }

func (er *entryReads) eofOK(st *State, f form, obj, e *Term) bool {
	if !mayBeEOF(st, e) || st.hasFact(eofFact(f, e, obj)) {
		return true
	}
	return st.provePlain((f.value(st, obj)))
}

// onStream is called for each read of the stream itself.
func (er *entryReads) onStream(st *State, c *CallInfo, op *readOp) {
	// the innermost entry objects whose Read is being executed
	for fr := st.ctx; fr != nil; fr = fr.parent {
		if fr.fn == nil || fr.fn.Name() != "Read" {
			continue
		}
		obj := st.mem[attr(mkSym("frame", frameKey(fr), nil, nil, nil), "recv")]
		if obj == nil {
			continue
		}
		t := er.objs[obj]
		if t == nil {
			continue
		}
		for _, f := range formsOf(t, -1) {
			l, ok := er.entryVal(st, f, obj)
			if !ok {
				continue
			}
			key := "limit " + shortName(fr.fn.String())
			holds := op.lim != nil && st.provePlain((toLin(op.lim).sub(l)))
			er.rest.check(f, key, holds, func() Finding {
				return er.r.at(c.instr, "the stream is asked for up to %s bytes when %s remain of the entry [%s]", op.lim, l, key)
			})
		}
		for _, f := range formsOf(t, 1) {
			s, ok := er.entryVal(st, f, obj)
			if !ok {
				continue
			}
			key := "order " + shortName(fr.fn.String())
			holds := false
			var now []string
			for _, x := range er.counterVals(st) {
				now = append(now, x.String())
				if st.same(toLin(x), s) {
					holds = true
				}
			}
			er.place.check(f, key, holds, func() Finding {
				return er.r.at(c.instr, "the stream is read for an entry without knowing that its position (%s) is the entry's (%s) [%s]", strings.Join(now, ","), s, key)
			})
		}
	}
}

// counterVals: values of integer fields of objects whose Read is being executed, as they were on entry.
func (er *entryReads) counterVals(st *State) []*Term {
	var r []*Term
	for fr := st.ctx; fr != nil; fr = fr.parent {
		if fr.fn == nil || fr.fn.Name() != "Read" {
			continue
		}
		obj := st.mem[attr(mkSym("frame", frameKey(fr), nil, nil, nil), "recv")]
		if obj == nil || er.objs[obj] == nil {
			continue
		}
		ids, _ := intFields(er.objs[obj])
		if len(ids) != 1 {
			continue
		}
		for _, id := range ids {
			if v := st.mem[attr(obj, "in|"+id)]; v != nil {
				r = append(r, v)
			}
		}
	}
	return r
}

var frameKeys = map[*Frame]string{}

func frameKey(f *Frame) string {
	if k, ok := frameKeys[f]; ok {
		return k
	}
	k := fmt.Sprintf("frame%d", len(frameKeys))
	frameKeys[f] = k
	return k
}

func (er *entryReads) hooks() *Hooks {
	h := &Hooks{}
	enter := func(st *State, fr *Frame, fn *ssa.Function, args []*Term) {
		if readRecv(fn) == nil {
			return
		}
		st.mem[attr(mkSym("frame", frameKey(fr), nil, nil, nil), "recv")] = args[0]
		er.begin(st, fn, args[0])
	}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		er.objs = map[*Term]types.Type{}
		enter(st, st.ctx, root, params)
	}
	h.enter = func(st *State, c *CallInfo) { enter(st, calleeFrame(st, c), c.fn, c.args) }
	h.leave = func(st *State, c *CallInfo, res []*Term) {
		if len(c.args) > 0 {
			er.end(st, c.fn, c.args[0], res, c.instr)
		}
	}
	h.ret = func(st *State, root *ssa.Function, res []*Term, in *ssa.Return) {
		if readRecv(root) != nil && len(root.Params) > 0 {
			if obj := st.mem[attr(mkSym("frame", frameKey(st.ctx), nil, nil, nil), "recv")]; obj != nil {
				er.end(st, root, obj, res, in)
			}
		}
		// any other way to read contents
		if er.eof && root.Name() == "Read" && len(res) == 2 && readRecv(root) == nil {
			name := shortName(root.String())
			for obj, t := range er.objs {
				if readRecv(er.it.readMethod(t)) == nil {
					continue
				}
				for _, f := range formsOf(t, -1) {
					if _, ok := er.entryVal(st, f, obj); !ok {
						if !mayBeEOF(st, res[1]) {
							continue
						}
					}
					k := "end " + name
					er.rest.check(f, k, er.eofOK(st, f, obj, res[1]), func() Finding {
						return er.r.at(in, "%s may report the end of the entry (io.EOF) while bytes of it are missing [%s]", name, k)
					})
				}
			}
		}
	}
	h.implied = func(st *State, f *Term) bool {
		if f.op != "F:eofdone" {
			return false
		}
		e, obj := f.args[0], f.args[1]
		if !mayBeEOF(st, e) {
			return true
		}
		t := er.objs[obj]
		if t == nil {
			return false
		}
		for _, x := range formsOf(t, -1) {
			if fmt.Sprint(x) == f.aux {
				return st.hasFact(f) || st.provePlain((x.value(st, obj)))
			}
		}
		return false
	}
	facts := func(j *Term) []*Term {
		var fs []*Term
		var objs []*Term
		for o := range er.objs {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, k int) bool { return objs[i].id < objs[k].id })
		for _, o := range objs {
			for _, x := range formsOf(er.objs[o], -1) {
				fs = append(fs, eofFact(x, j, o))
			}
		}
		return fs
	}
	h.templates = func(states []*State, j *Term, ts []*Term) []*Term {
		if !isErrorType(j.typ) || !er.eof {
			return nil
		}
		return facts(j)
	}
	h.joined = func(states []*State) []*Term {
		var fs []*Term
		if er.eof {
			for _, e := range sharedErrors(states) {
				fs = append(fs, facts(e)...)
			}
		}
		return fs
	}
	return h
}

// payloadObjects: objects with a Read method and integer fields that an entry returned by ReadNextEntry holds.
func (it *Interp) payloadObjects(st *State, entry *Term) []*Term {
	s, ok := derefIf(ptrType(entry)).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []*Term
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		v := st.load(fieldAddr(entry, fieldID(derefIf(ptrType(entry)), i), ft), ft)
		v = unface(v)
		t := ptrType(v)
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			continue
		}
		if f := it.readMethod(t); f != nil && readRecv(f) != nil {
			r = append(r, v)
		}
	}
	return r
}

func (er *entryReads) atEntry(st *State, root *ssa.Function, res []*Term, in *ssa.Return, counter *Term) {
	it := er.it
	hdr := it.entryHeader(st, res[0])
	if hdr == nil || hdr == res[0] {
		return
	}
	name := shortName(root.String())
	size := it.query(st, hdr, "Filesize64")
	strip := it.query(st, hdr, "IsStripped")
	key := "init " + name + " ordinary"
	if strip != nil {
		if b, ok := strip.boolVal(); ok && b {
			key = "init " + name + " stripped"
		}
	}
	objs := it.payloadObjects(st, res[0])
	if len(objs) == 0 {
		er.r.item("entry", name+" contents", false, func() Finding { return er.r.at(in, "the returned entry has no contents reader") })
	}
	for _, o := range objs {
		t := ptrType(o)
		for _, f := range formsOf(t, -1) {
			v := f.value(st, o)
			er.rest.check(f, key, size != nil && st.same(v, toLin(size)), func() Finding {
				return er.r.at(in, "a new entry starts with %s bytes to deliver, its declared size is %s [%s]", v, size, key)
			})
		}
		if counter != nil {
			for _, f := range formsOf(t, 1) {
				v := f.value(st, o)
				er.place.check(f, key, st.same(v, toLin(counter)), func() Finding {
					return er.r.at(in, "a new entry's contents are taken to start at %s, the stream is at %s [%s]", v, counter, key)
				})
			}
		}
	}
}

// ---- C10 ----

const trailerName = "TRAILER!!!"

func eofHooks(it *Interp, r *Report) []*Hooks {
	m := &streamModel{it: it}
	er := &entryReads{m: m, it: it, r: r, rest: newTally(r), place: newTally(r), objs: map[*Term]types.Type{}, eof: true}
	trailer := fact("trailer", "")
	m.onRead = func(st *State, c *CallInfo, op *readOp, before *Term) {
		st.clearFact(trailer)
	}
	okFact := func(e *Term) *Term { return fact("eofok", "", e) }
	eofOK := func(st *State, e *Term) bool {
		return st.hasFact(trailer) || !mayBeEOF(st, e) || st.hasFact(okFact(e))
	}
	h := &Hooks{}
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		m.setPos(st, mkSym("ghost", "$pos0", int64T, nil, nil))
	}
	h.assume = func(st *State, t *Term, val bool) {
		if t.op == "call" && strings.HasPrefix(t.aux, "errors.Is#") && isEOF(t.args[1]) {
			if !val {
				st.setFact(fact("noteof", "", t.args[0]))
			} else if st.hasFact(okFact(t.args[0])) {
				st.setFact(trailer)
			}
		}
		if t.op != "eq" || !val {
			return
		}
		for i, a := range t.args {
			b := t.args[1-i]
			if isEOF(a) && st.hasFact(okFact(b)) {
				st.setFact(trailer)
			}
			s, ok := constBytes(a)
			if !ok || s != trailerName {
				continue
			}
			if sp, ok := m.resolve(st, b); ok {
				if h0, magic, why := m.magicAt(st); why == "" && magic == "070701" && st.same(sp.pos, h0.plus(110)) {
					st.setFact(trailer)
				}
			}
		}
	}
	h.implied = func(st *State, f *Term) bool {
		switch f.op {
		case "F:eofok":
			return eofOK(st, f.args[0])
		case "F:noteof":
			return !mayBeEOF(st, f.args[0])
		}
		return false
	}
	h.templates = func(states []*State, j *Term, ts []*Term) []*Term {
		if !isErrorType(j.typ) {
			return nil
		}
		return []*Term{okFact(j), fact("noteof", "", j)}
	}
	h.joined = func(states []*State) []*Term {
		var fs []*Term
		for _, e := range sharedErrors(states) {
			fs = append(fs, okFact(e), fact("noteof", "", e))
		}
		return fs
	}
	h.ret = func(st *State, root *ssa.Function, res []*Term, in *ssa.Return) {
		name := shortName(root.String())
		e := lastErr(res, root.Signature)
		if e == nil {
			return
		}
		switch root.Name() {
		case "ReadNextEntry", "Next", "Extract", "ExpandPayload":
		default:
			return
		}
		if os.Getenv("DBGEOF") != "" && !eofOK(st, e) {
			st.provenance(e, func(x *Term) bool {
				fmt.Fprintln(os.Stderr, "EOF?", name, x, mayBeEOF(st, x), st.hasFact(okFact(x)))
				return true
			})
		}
		r.item("end of archive", name, eofOK(st, e), func() Finding {
			return r.at(in, "%s may return io.EOF (%s) although no entry named %s was read: a truncated archive looks complete", name, e, trailerName)
		})
		if st.nilness(e) != 2 && (root.Name() == "Extract" || root.Name() == "ExpandPayload") {
			r.item("complete", name, st.hasFact(trailer), func() Finding {
				return r.at(in, "%s may report success although no entry named %s was read", name, trailerName)
			})
		}
		if st.nilness(e) != 2 && root.Name() == "ReadNextEntry" {
			er.atEntry(st, root, res, in, nil)
		}
	}
	r.finish = func() {
		er.rest.decide("end of entry", "what remains of an entry", []string{"init", "step", "end"})
		r.floor("end of archive", 4)
		r.floor("complete", 1)
		r.floor("end of entry", 4)
	}
	return []*Hooks{m.hooks(), er.hooks(), h}
}

// ---- C11 ----

func boundHooks(it *Interp, r *Report) []*Hooks {
	m := &streamModel{it: it}
	er := &entryReads{m: m, it: it, r: r, rest: newTally(r), place: newTally(r), objs: map[*Term]types.Type{}}
	next := newTally(r)
	m.onRead = func(st *State, c *CallInfo, op *readOp, before *Term) {}
	h := &Hooks{}
	entryN := map[string]Lin{}
	var recv *Term
	h.start = func(st *State, root *ssa.Function, params []*Term) {
		m.setPos(st, mkSym("ghost", "$pos0", int64T, nil, nil))
		entryN = map[string]Lin{}
		recv = nil
		if root.Name() == "ReadNextEntry" && root.Signature.Recv() != nil {
			recv = params[0]
			ids, ts := intFields(recv.typ)
			for i, id := range ids {
				entryN[id] = toLin(st.load(fieldAddr(recv, id, ts[i]), ts[i]))
			}
		}
	}
	h.call = func(st *State, c *CallInfo) {
		if op := readOpOf(c); op != nil {
			if stream, _, through := m.streamOf(st, op.reader); stream {
				if op.direct && through == nil {
					er.onStream(st, c, op)
				}
			}
		}
	}
	h.ret = func(st *State, root *ssa.Function, res []*Term, in *ssa.Return) {
		name := shortName(root.String())
		e := lastErr(res, root.Signature)
		if e == nil || st.nilness(e) == 2 {
			return
		}
		if root.Name() == "Next" && root.Signature.Recv() != nil {
			hdr := it.entryHeader(st, res[0])
			if hdr != nil && st.nilness(hdr) != 1 {
				er.readsLast(st, root, res, hdr, in)
			}
			return
		}
		if root.Name() != "ReadNextEntry" || recv == nil {
			return
		}
		hdr := it.entryHeader(st, res[0])
		if hdr == nil {
			return
		}
		bad := func(key, format string, args ...any) {
			r.item("position", name+" "+key, false, func() Finding { return r.at(in, "%s", fmt.Sprintf(format, args...)) })
		}
		good := func(key string) { r.item("position", name+" "+key, true, nil) }
		h0, magic, why := m.magicAt(st)
		if why != "" {
			bad("magic", "%s", why)
			return
		}
		p0 := toLin(mkSym("ghost", "$pos0", int64T, nil, nil))
		p1 := toLin(m.pos(st))
		// fields that moved along with the position count it
		var ctr *Term
		var c0, c1 Lin
		for _, a := range m.counterFields(st) {
			old := toLin(app("ld", "", a.typ, a, mkSym("ver", heapClass(a), nil, nil, nil)))
			now := toLin(st.load(a, a.typ))
			if st.same(now.sub(old), p1.sub(p0)) {
				ctr, c0, c1 = a, old, now
			}
		}
		if ctr == nil {
			bad("counter", "no field counts the bytes read from the stream")
			return
		}
		er.atEntry(st, root, res, in, fromLin(c1, int64T))
		size := it.query(st, hdr, "Filesize64")
		ns := it.query(st, hdr, "Namesize")
		kind := "ordinary"
		if magic == "07070X" {
			kind = "stripped"
			if st.same(p1.sub(h0), linConst(14)) {
				good("contents after stripped header")
			} else {
				bad("contents after stripped header", "contents of a stripped entry are taken to start %s bytes after its magic, not 14", p1.sub(h0))
			}
		} else if ns != nil {
			x := toLin(ns).plus(110)
			abs := c0.add(h0.sub(p0)).add(x)
			if isAlignedUp(st, st.settle(p1.sub(h0)), x) || isAlignedUp(st, st.settle(c1), st.settle(abs)) {
				good("contents after name")
			} else {
				bad("contents after name", "contents are taken to start %s bytes after the header start, which is not the end of the name (%s) rounded up to four", st.settle(p1.sub(h0)), x)
			}
		}
		ids, ts := intFields(recv.typ)
		for i, id := range ids {
			f := form{typ: typeKey(derefIf(recv.typ)), a: id}
			n0 := entryN[id]
			at := c0.add(h0.sub(p0))
			key := "start " + name + " " + kind
			next.check(f, key, st.same(at, n0), func() Finding {
				return r.at(in, "the header is read at %s, the entry before it ends at %s [%s]", st.settle(at), n0, key)
			})
			n1 := st.settle(toLin(st.load(fieldAddr(recv, id, ts[i]), ts[i])))
			key2 := "next " + name + " " + kind
			ok := size != nil && isAlignedUp(st, n1, st.settle(c1.add(toLin(size))))
			if os.Getenv("DBGN") != "" && !ok {
				fmt.Fprintln(os.Stderr, "NEXT", f, n1, "size", size, c1)
			}
			next.check(f, key2, ok, func() Finding {
				return r.at(in, "the next header is looked for at %s, which is not the end of the contents (%s) rounded up to four [%s]", n1, st.settle(c1.add(toLin(size))), key2)
			})
		}
	}
	h.implied = func(st *State, f *Term) bool {
		return f.op == "F:align4" && isAlignedUp(st, toLin(f.args[0]), toLin(f.args[1]))
	}
	h.templates = func(states []*State, j *Term, ts []*Term) []*Term {
		if !isIntTerm(j) {
			return nil
		}
		// x rounded up by cases
		seen := map[string]bool{}
		var fs []*Term
		add := func(e, x Lin) {
			f := fact("align4", "", fromLin(e, int64T), fromLin(x, int64T))
			if k := fmt.Sprint(f.id); !seen[k] && len(fs) < 24 {
				seen[k] = true
				fs = append(fs, f)
			}
		}
		rems := map[*Term]bool{}
		look := func(u *Term) {
			if u.op == "rem" || u.op == "and" || u.op == "andnot" || u.op == "quo" || u.op == "shr" {
				rems[u.args[0]] = true
			}
		}
		for i, st := range states {
			if ts[i] == bottomTerm {
				continue
			}
			for _, p := range toLin(ts[i]).ps {
				p.t.walk(look)
				for _, l := range st.lin.by(p.t) {
					for _, q := range l.ps {
						q.t.walk(look)
					}
				}
			}
		}
		moved := strings.Contains(j.sym.name, ":m")
		for _, a := range sortedTerms(rems) {
			for k := int64(0); k < 4; k++ {
				x := toLin(a).plus(-k)
				add(linTerm(j), x)
				if moved {
					for i, st := range states {
						if ts[i] != bottomTerm {
							add(linTerm(j).sub(st.settle(toLin(ts[i]))).add(x), x)
						}
					}
				}
			}
		}
		return fs
	}
	r.finish = func() {
		er.rest.decide("entry", "what remains of an entry", []string{"init", "step", "limit"})
		er.place.decide("order", "an entry's position", []string{"init", "step", "order"})
		next.decide("next entry", "the position of the next header", []string{"start", "next"})
		r.floor("position", 2)
		r.floor("last", 1)
	}
	return []*Hooks{m.hooks(), er.hooks(), h}
}

// isAlignedUp: e is x rounded up to four, also when computed by cases.
func isAlignedUp(st *State, e, x Lin) bool { return isAlignedTo(st, e, x, 4) }

func isAlignedTo(st *State, e, x Lin, m int64) bool {
	if isAligned(st, e, x, m) {
		return true
	}
	for _, f := range st.factsNamed(fmt.Sprint("align", m)) {
		a, b := toLin(f.args[0]), toLin(f.args[1])
		if st.same(b, x) && st.same(a.sub(b), e.sub(x)) {
			return true
		}
	}
	return false
}

// counterFields: integer field locations known to the state.
func (m *streamModel) counterFields(st *State) []*Term {
	var r []*Term
	for a, v := range st.mem {
		if a.op == "fld" && !strings.HasPrefix(a.aux, "$") && v != nil && isIntTerm(v) && a.typ != nil && isInteger(a.typ) && !isAlloc(addrRoot(a)) {
			r = append(r, a)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// readsLast: Read after Next reads the contents of the entry Next returned.
func (er *entryReads) readsLast(st *State, root *ssa.Function, res []*Term, hdr *Term, in *ssa.Return) {
	it := er.it
	name := shortName(root.String())
	var self *Term
	for p, v := range st.env {
		if p == ssa.Value(root.Params[0]) {
			self = v
		}
	}
	rd := it.readMethod(root.Signature.Recv().Type())
	if self == nil || rd == nil {
		return
	}
	size := it.query(st, hdr, "Filesize64")
	objs := map[*Term]types.Type{}
	h := &Hooks{}
	h.enter = func(s *State, c *CallInfo) {
		if t := readRecv(c.fn); t != nil && len(objs) == 0 {
			objs[c.args[0]] = t
		}
	}
	buf := mkSym("evalbuf", "p", rd.Signature.Params().At(0).Type(), st.ctx, nil)
	it.evalWith([]*Hooks{h}, st, rd, []*Term{self, buf})
	ok := false
	for o, t := range objs {
		for _, f := range formsOf(t, -1) {
			if size != nil && isAlloc(o) && st.same(f.value(st, o), toLin(size)) {
				ok = true
			}
		}
	}
	er.r.item("last", name, ok, func() Finding {
		return er.r.at(in, "Read after %s does not read the contents of the entry it returned", name)
	})
}
