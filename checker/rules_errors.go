package main

// C20: no failure is swallowed. Every error produced on a path is a pending obligation until it is known
// to be nil; when an entry point returns, each pending error must be the returned one or the returned
// error must be known to be non-nil.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calls that report an error for form's sake only
var neverFails = []string{"(hash.Hash).", "(*bytes.Buffer).Write", "(*strings.Builder).", "(*bytes.Reader).Seek", "(*strings.Reader).Seek", "fmt.Print", "fmt.Fprint", "fmt.Errorf", "errors.New", "errors.Join", "(hash.Hash32).", "(hash.Hash64)."}

// failures that are answers, not failures (the operation that depends on them fails by itself)
var tolerated = map[string]string{
	"os.Lstat":                  "probe: the operation that follows reports a real problem",
	"os.Stat":                   "probe: the operation that follows reports a real problem",
	"(*os.File).Chmod":          "best effort mode of a rewritten file",
	"os.Chmod":                  "best effort mode",
	"(io.Closer).Close":         "closing a stream that was only read",
	"(io.ReadCloser).Close":     "closing a stream that was only read",
	"(io.ReadSeekCloser).Close": "closing a stream that was only read",
	"os.Remove":                 "removal of a temporary or of an object that the next operation replaces",
}

// tags that may be absent (tagAbsent) or unusable in any way (tagAny) without failing the query that
// looks at them
func (p *Program) optionalTags() (absent, any map[int64]bool) {
	absent, any = map[int64]bool{}, map[int64]bool{}
	base := p.constInt("_SIGHEADER_TAG_BASE")
	for _, n := range []string{"EPOCH", "OLDFILENAMES", "BASENAMES", "DIRNAMES", "DIRINDEXES", "PAYLOADFORMAT", "PAYLOADCOMPRESSOR",
		"LONGFILESIZES", "LONGSIZE", "SIG_LONGARCHIVESIZE", "SIG_RSA", "SIG_DSA", "SIG_PGP", "SIG_GPG", "SIG_LONGSIZE"} {
		if v, ok := p.constIntOK(n); ok {
			absent[v] = true
			absent[v-base] = true
		}
	}
	for _, n := range []string{"SIG_SHA1", "SIG_SHA256", "SIG_MD5", "PAYLOADDIGEST", "PAYLOADDIGESTALGO", "FILEDEVICES", "FILEINODES"} {
		if v, ok := p.constIntOK(n); ok {
			any[v] = true
			if strings.HasPrefix(n, "SIG_") {
				any[v-base] = true
			}
		}
	}
	return
}

func (p *Program) constIntOK(name string) (int64, bool) {
	for _, sp := range p.spkgs {
		if o, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return mkConst(o.Val(), o.Type()).intVal()
		}
	}
	return 0, false
}

func (p *Program) constInt(name string) int64 {
	v, _ := p.constIntOK(name)
	return v
}

func (f *Frame) within(anc *Frame) bool {
	for ; f != nil; f = f.parent {
		if f == anc {
			return true
		}
	}
	return false
}

func calleeFrame(st *State, ci *CallInfo) *Frame {
	extra := ""
	if ci.deferred {
		extra = "~d"
	}
	return mkFrame(st.ctx, ci.instr, ci.fn, extra)
}

func lastErr(res []*Term, sig *types.Signature) *Term {
	n := sig.Results().Len()
	if n == 0 || len(res) != n || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	return res[n-1]
}

// tagArg: the header tag a call asks for (a constant argument that is a tag number).
func tagArgs(args []*Term, sig *types.Signature) []int64 {
	var r []int64
	off := len(args) - sig.Params().Len()
	for i := range args {
		j := i - off
		if j < 0 || j >= sig.Params().Len() {
			continue
		}
		if b, ok := sig.Params().At(j).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		if n, ok := args[i].intVal(); ok && n >= 60 {
			r = append(r, n)
		}
	}
	return r
}

func init() {
	rules["C20"] = &Rule{
		what:   "Abstract interpretation of every entry point with a may-analysis of pending errors: each error result of an external or module call is pending until a branch establishes that it is nil; when the entry point returns, every pending error must be the returned error, or the returned error must be non-nil. One obligation per error-producing call site.",
		hooks:  errorHooks,
		assume: []string{"hash and in-memory buffer writes do not fail", "tolerated: Stat/Lstat probes, resolving the destination of a rewrite, best-effort Chmod, closing streams that were only read, removing a file that is being replaced, optional tags that are absent, and digest, device and inode tags that are absent or unusable"},
	}
}

const pendKind = "pending"

func (p *Program) noSuchTagKeys() []string {
	var r []string
	for _, sp := range p.spkgs {
		if o, ok := sp.Pkg.Scope().Lookup("NoSuchTagError").(*types.TypeName); ok {
			r = append(r, typeKey(o.Type()), typeKey(types.NewPointer(o.Type())))
		}
	}
	return r
}

func errorHooks(it *Interp, r *Report) []*Hooks {
	p := it.prog
	absentTags, anyTags := p.optionalTags()
	nst := p.noSuchTagKeys()
	isNoSuchTag := func(st *State, e *Term) bool {
		for _, k := range nst {
			if v, ok := st.decide(app("typeis", k, types.Typ[types.Bool], e)); ok && v {
				return true
			}
			if st.truth[app("erras", k, types.Typ[types.Bool], e)] {
				return true
			}
		}
		return false
	}
	add := func(st *State, e *Term, in ssa.Instruction, note string, ext bool) {
		if st.nilness(e) == 1 {
			return
		}
		for _, m := range st.may {
			if m.kind == pendKind && m.terms[e] {
				return
			}
		}
		key := p.pos(in) + " " + note
		r.item("error", key, true, nil)
		st.addMay(&May{kind: pendKind, site: instrKey(in) + "|" + fnID(in.Parent()), instr: in, frame: st.ctx, note: note, external: ext, terms: map[*Term]bool{e: true}})
	}
	clear := func(st *State, f func(m *May) bool) {
		for k, m := range st.may {
			if m.kind == pendKind && f(m) {
				delete(st.may, k)
			}
		}
	}
	var pure func(t *Term) bool
	_ = pure
	h := &Hooks{}
	h.after = func(st *State, c *CallInfo) {
		e := lastErr(c.res, c.common.Signature())
		if e == nil {
			return
		}
		for _, n := range neverFails {
			if strings.HasPrefix(c.name, n) {
				return
			}
		}
		if c.common.IsInvoke() {
			// a hash is a writer that cannot fail
			if k := typeKey(c.common.Value.Type()); strings.HasPrefix(k, "hash.") {
				return
			}
		}
		if _, ok := tolerated[c.name]; ok {
			return
		}
		if c.name == "path/filepath.EvalSymlinks" && c.args[0].sym != nil && c.args[0].sym.kind == "param" && signs(it.root.String()) {
			// where a rewritten package goes need not exist, and what follows reports a real problem
			return
		}
		if strings.HasSuffix(c.name, ").Close") {
			// only files opened for writing can lose data when closed
			if c.name != "(*os.File).Close" {
				return
			}
			ro := false
			provenance(c.args[0], func(x *Term) bool {
				if x.sym != nil && x.sym.kind == "call" && x.sym.callee == "os.Open" {
					ro = true
				}
				return true
			})
			if ro || c.args[0].sym != nil && c.args[0].sym.kind == "param" {
				return
			}
		}
		add(st, e, c.instr, c.name, true)
	}
	h.leave = func(st *State, ci *CallInfo, res []*Term) {
		e := lastErr(res, ci.fn.Signature)
		tags := tagArgs(ci.args, ci.fn.Signature)
		fr := calleeFrame(st, ci)
		inner := func() { clear(st, func(m *May) bool { return m.frame.within(fr) }) }
		for _, t := range tags {
			if anyTags[t] {
				inner()
				return
			}
		}
		if e == nil {
			return
		}
		for _, t := range tags {
			if absentTags[t] && isNoSuchTag(st, e) {
				inner()
				return
			}
		}
		note := shortName(ci.name)
		for _, t := range tags {
			note += fmt.Sprintf("(%d)", t)
		}
		if st.nilness(e) != 1 {
			add(st, e, ci.instr, note, false)
		}
	}
	h.assume = func(st *State, t *Term, val bool) {
		switch t.op {
		case "eq":
			a, b := t.args[0], t.args[1]
			if b.isNil() {
				a, b = b, a
			}
			if a.isNil() && val {
				nils := map[*Term]bool{b: true}
				for again := true; again; {
					again = false
					for _, f := range st.factsNamed("errimp") {
						if nils[f.args[1]] && !nils[f.args[0]] {
							nils[f.args[0]] = true
							st.truth[mkEq(f.args[0], nilTerm)] = true
							again = true
						}
					}
				}
				clear(st, func(m *May) bool {
					for t := range m.terms {
						if nils[t] {
							return true
						}
					}
					return false
				})
			}
			if val {
				// the end of input is not a failure of a plain read
				for _, x := range []*Term{a, b} {
					if strings.Contains(x.String(), "io.EOF") {
						y := a
						if x == a {
							y = b
						}
						if y.sym != nil && y.sym.kind == "call" && strings.HasSuffix(y.sym.callee, ").Read") {
							clear(st, func(m *May) bool { return m.terms[y] })
						}
					}
				}
			}
		case "typeis", "erras":
			if val {
				for _, k := range nst {
					if t.aux == k {
						e := t.args[0]
						clear(st, func(m *May) bool {
							if !m.terms[e] {
								return false
							}
							if m.external {
								return true // errors of other packages are of other types
							}
							for tag := range absentTags {
								if strings.Contains(m.note, fmt.Sprintf("(%d)", tag)) {
									return true
								}
							}
							return false
						})
					}
				}
			}
		case "call":
			if !val {
				return
			}
			// a directory that exists already
			if strings.HasSuffix(t.aux, ".IsDir#0") {
				t.walk(func(x *Term) {
					if x.sym != nil && (x.sym.callee == "os.Stat" || x.sym.callee == "os.Lstat") {
						clear(st, func(m *May) bool { return m.note == "os.Mkdir" && mkdirOf(m, x.sym.args[0]) })
					}
				})
			}
			// the path does not exist: an answer
			if t.aux == "os.IsNotExist#0" || t.aux == "errors.Is#0" && strings.Contains(t.args[1].String(), "ErrNotExist") {
				e := t.args[0]
				clear(st, func(m *May) bool { return m.terms[e] && m.note == "path/filepath.EvalSymlinks" })
			}
		}
	}
	h.ret = func(st *State, root *ssa.Function, res []*Term, in *ssa.Return) {
		e := lastErr(res, root.Signature)
		ok := func(m *May) bool {
			if e == nil {
				return false
			}
			if st.nilness(e) == 2 || m.terms[e] {
				return true
			}
			for t := range m.terms {
				if st.nilness(t) == 1 || st.hasFact(fact("errimp", "", t, e)) {
					return true
				}
				if e.sym != nil && e.sym.callee == "errors.Join" && e.contains(t) {
					return true
				}
			}
			return false
		}
		for _, m := range st.maysSorted() {
			if m.kind != pendKind || ok(m) {
				continue
			}
			what := "success may be reported"
			if e == nil {
				what = "the failure cannot be reported"
			}
			r.item("error", p.pos(m.instr)+" "+m.note, false, func() Finding {
				return r.at(m.instr, "the error of %s may be lost: %s by %s", m.note, what, shortName(root.String()))
			})
		}
	}
	// errimp(E, R): R is nil only if E is
	h.implied = func(st *State, f *Term) bool {
		if f.op != "F:errimp" {
			return false
		}
		e, x := f.args[0], f.args[1]
		if e == x || st.nilness(x) == 2 || st.nilness(e) == 1 {
			return true
		}
		// nothing to lose where the failure is not pending
		for _, m := range st.may {
			if m.kind == pendKind && m.terms[e] {
				return false
			}
		}
		return true
	}
	h.templates = func(states []*State, j *Term, ts []*Term) []*Term {
		if !isErrorType(j.typ) {
			return nil
		}
		var fs []*Term
		seen := map[*Term]bool{}
		for _, st := range states {
			for _, m := range st.may {
				if m.kind == pendKind {
					for t := range m.terms {
						if !seen[t] {
							seen[t] = true
							fs = append(fs, fact("errimp", "", t, j))
						}
					}
				}
			}
		}
		return fs
	}
	return []*Hooks{h}
}

func mkdirOf(m *May, path *Term) bool {
	for t := range m.terms {
		if t.sym != nil && len(t.sym.args) > 0 && t.sym.args[0] == path {
			return true
		}
	}
	return false
}

// walk visits all sub-terms.
func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, a := range t.args {
		a.walk(f)
	}
}
