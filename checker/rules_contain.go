package main

// C12: extraction stays inside the destination directory.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C12"] = &Rule{
		what:  "Abstract interpretation of extraction with facts about paths: every path given to a call that creates, opens, links, replaces or changes something must be lexically inside the resolved destination, its directory must be known to resolve to the inside (the directory itself or its deepest existing ancestor was resolved and compared), and where the call follows symbolic links the path itself must be known not to be one. Paths kept for later must satisfy this when they are stored.",
		hooks: containHooks, focus: func(r string) bool {
			return strings.HasSuffix(r, "cpio.Extract") || strings.HasSuffix(r, ".ExpandPayload")
		}, calm: true, strict: true,
		assume: []string{"nothing else changes the destination meanwhile", "directories created by extraction are never replaced: no call removes or renames one (each such call is an obligation itself)"},
	}
}

// fsCall: what a call does to the file system objects its path arguments name.
type fsCall struct {
	paths  []int
	dirs   []int // must resolve inside themselves (missing parts are created)
	follow bool
}

var fsCalls = map[string]fsCall{
	"os.Mkdir": {paths: []int{0}}, "os.MkdirAll": {dirs: []int{0}}, "os.Symlink": {paths: []int{1}}, "os.Link": {paths: []int{0, 1}},
	"os.Create": {paths: []int{0}, follow: true}, "os.OpenFile": {paths: []int{0}, follow: true}, "os.Open": {paths: []int{0}, follow: true},
	"os.WriteFile": {paths: []int{0}, follow: true}, "os.ReadFile": {paths: []int{0}, follow: true}, "os.Truncate": {paths: []int{0}, follow: true},
	"os.Chmod": {paths: []int{0}, follow: true}, "os.Chown": {paths: []int{0}, follow: true}, "os.Chtimes": {paths: []int{0}, follow: true},
	"os.Lchown": {paths: []int{0}}, "os.Remove": {paths: []int{0}}, "os.RemoveAll": {paths: []int{0}}, "os.Rename": {paths: []int{0, 1}},
	"os.MkdirTemp": {dirs: []int{0}}, "os.CreateTemp": {dirs: []int{0}}, "os.Chdir": {dirs: []int{0}},
	"io/ioutil.WriteFile": {paths: []int{0}, follow: true}, "io/ioutil.TempFile": {dirs: []int{0}}, "io/ioutil.TempDir": {dirs: []int{0}},
}

// the last element of system call names
var sysCalls = map[string]fsCall{
	"Mkfifo": {paths: []int{0}}, "Mknod": {paths: []int{0}}, "Mkdir": {paths: []int{0}}, "Symlink": {paths: []int{1}}, "Link": {paths: []int{0, 1}},
	"Open": {paths: []int{0}, follow: true}, "Creat": {paths: []int{0}, follow: true}, "Chmod": {paths: []int{0}, follow: true}, "Chown": {paths: []int{0}, follow: true},
	"Lchown": {paths: []int{0}}, "Unlink": {paths: []int{0}}, "Rmdir": {paths: []int{0}}, "Rename": {paths: []int{0, 1}}, "Truncate": {paths: []int{0}, follow: true},
	"Utimes": {paths: []int{0}, follow: true}, "UtimesNano": {paths: []int{0}, follow: true}, "Chroot": {paths: []int{0}, follow: true}, "Mount": {paths: []int{1}, follow: true},
}

func fsCallOf(name string) (fsCall, bool) {
	if c, ok := fsCalls[name]; ok {
		return c, true
	}
	for _, p := range []string{"syscall.", "golang.org/x/sys/unix.", "golang.org/x/sys/windows."} {
		if strings.HasPrefix(name, p) {
			c, ok := sysCalls[strings.TrimPrefix(name, p)]
			return c, ok
		}
	}
	return fsCall{}, false
}

type container struct {
	it *Interp
	r  *Report
	// where an unsafe path was put, by the kind of the place
	unsafe map[string]Finding
	used   map[string]func() Finding // places paths were taken from
}

func containHooks(it *Interp, r *Report) []*Hooks {
	c := &container{it: it, r: r, unsafe: map[string]Finding{}, used: map[string]func() Finding{}}
	h := &Hooks{call: c.call, store: c.store, mapUpdate: c.mapUpdate, builtin: c.builtin, implied: c.implied, joined: c.joined, templates: c.templates}
	h.instr = func(st *State, in ssa.Instruction) {
		switch in.(type) {
		case *ssa.Return, *ssa.Jump, *ssa.If:
			for _, f := range c.candidates([]*State{st}) {
				if !st.hasFact(f) && c.implied(st, f) {
					st.truth[f] = true
				}
			}
		}
	}
	r.finish = func() {
		for k, bad := range c.unsafe {
			if f, ok := c.used[k]; ok {
				bad, f := bad, f
				r.item("stored", k, false, func() Finding {
					x := bad
					x.Msg += "; it is used " + f().Msg
					return x
				})
			}
		}
		for k := range c.used {
			if _, bad := c.unsafe[k]; !bad {
				r.item("stored", k, true, nil)
			}
		}
		r.floor("inside", 8)
		r.floor("resolved", 8)
		r.floor("not a link", 1)
	}
	return []*Hooks{h}
}

func pathCall(t *Term, names ...string) bool {
	if t.op != "call" {
		return false
	}
	for _, n := range names {
		if t.aux == n+"#0" {
			return true
		}
	}
	return false
}

// given: computed from the caller's arguments only.
func given(t *Term) bool {
	switch {
	case t.op == "const":
		return true
	case t.op == "call" || t.op == "concat" || t.op == "slice" || t.op == "conv":
		for _, a := range t.args {
			if a.op != "none" && !given(a) {
				return false
			}
		}
		return true
	case t.sym != nil && t.sym.kind == "param":
		return isString(typOf(t))
	}
	return false
}

// isDest: the resolved destination.
func isDest(t *Term) bool {
	return t.sym != nil && t.sym.kind == "call" && t.sym.callee == "path/filepath.EvalSymlinks" && t.sym.index == 0 && given(t.sym.args[0])
}

// resolution: what EvalSymlinks was asked.
func resolution(t *Term) *Term {
	if t.sym != nil && t.sym.kind == "call" && t.sym.callee == "path/filepath.EvalSymlinks" && t.sym.index == 0 {
		return t.sym.args[0]
	}
	return nil
}

// destPrefix: the destination and a separator.
func destPrefix(t *Term) bool {
	if t.op != "concat" || len(t.args) != 2 || !isDest(t.args[0]) {
		return false
	}
	s, ok := t.args[1].strVal()
	return ok && (s == "/" || s == "\\")
}

// strictly: x is lexically below the destination.
func (c *container) strictly(st *State, x *Term) bool {
	if st.hasFact(fact("below", "", x)) {
		return true
	}
	for t, v := range st.truth {
		if v && t.op == "hasprefix" && t.args[0] == x && destPrefix(t.args[1]) {
			return true
		}
	}
	if !st.hasFact(fact("inside", "", x)) && !c.local(st, x) {
		return false
	}
	for t, v := range st.truth {
		if !v && t.op == "eq" {
			if t.args[0] == x && isDest(t.args[1]) || t.args[1] == x && isDest(t.args[0]) {
				return true
			}
		}
	}
	return false
}

// local: joined to the destination from something that cannot climb out.
func (c *container) local(st *State, x *Term) bool {
	if !pathCall(x, "path/filepath.Join") {
		return false
	}
	els := x.args
	if len(els) == 1 {
		els = st.elements(els[0])
	}
	if len(els) < 2 || !isDest(els[0]) {
		return false
	}
	for _, e := range els[1:] {
		for pathCall(e, "path/filepath.FromSlash") {
			e = e.args[0]
		}
		if pathCall(e, "path.Clean", "path/filepath.Clean") && e.args[0].op == "concat" {
			if s, ok := e.args[0].args[0].strVal(); ok && s == "/" {
				continue
			}
		}
		if v, ok := st.decide(app("call", "path/filepath.IsLocal#0", types.Typ[types.Bool], e)); ok && v {
			continue
		}
		return false
	}
	return true
}

// inside: x is lexically the destination or below.
func (c *container) inside(st *State, x *Term) bool {
	if isDest(x) || st.hasFact(fact("inside", "", x)) || c.strictly(st, x) || c.local(st, x) {
		return true
	}
	if pathCall(x, "path/filepath.Dir") && c.strictly(st, x.args[0]) {
		return true
	}
	for t, v := range st.truth {
		if v && t.op == "eq" {
			if t.args[0] == x && isDest(t.args[1]) || t.args[1] == x && isDest(t.args[0]) {
				return true
			}
		}
	}
	return c.relative(st, x)
}

// relative: filepath.Rel(dest, x) does not climb.
func (c *container) relative(st *State, x *Term) bool {
	up, upper := false, false
	isRel := func(t *Term) bool {
		return pathCall(t, "path/filepath.Rel") && isDest(t.args[0]) && t.args[1] == x
	}
	for t, v := range st.truth {
		switch {
		case v && t.op == "call" && t.aux == "path/filepath.IsLocal#0" && isRel(t.args[0]):
			return true
		case !v && t.op == "eq":
			for i := 0; i < 2; i++ {
				if s, ok := t.args[1-i].strVal(); ok && s == ".." && isRel(t.args[i]) {
					up = true
				}
			}
		case !v && t.op == "hasprefix" && isRel(t.args[0]):
			p := t.args[1]
			if s, ok := p.strVal(); ok && (s == "../" || s == "..\\") {
				upper = true
			} else if ok && s == ".." {
				return true
			}
		}
	}
	return up && upper
}

// missing: x was found not to exist.
func (c *container) missing(st *State, x *Term) bool {
	if st.hasFact(fact("missing", "", x)) {
		return true
	}
	for t, v := range st.truth {
		if !v || t.op != "call" || !(t.aux == "os.IsNotExist#0" || t.aux == "errors.Is#0" && strings.Contains(t.args[1].String(), "ErrNotExist")) {
			continue
		}
		e := t.args[0]
		if e.sym == nil || e.sym.kind != "call" || len(e.sym.args) == 0 || e.sym.args[0] != x {
			continue
		}
		switch e.sym.callee {
		case "path/filepath.EvalSymlinks", "os.Lstat", "os.Stat":
			return true
		}
	}
	return false
}

// safeDir: x, or the deepest directory above x that exists, resolves to the inside.
func (c *container) safeDir(st *State, x *Term) bool {
	if isDest(x) || st.hasFact(fact("safedir", "", x)) {
		return true
	}
	for _, f := range c.candidates([]*State{st}) {
		if f.op != "F:resolves" || !c.implied(st, f) {
			continue
		}
		y := f.args[0]
		if x == y || st.hasFact(fact("reach", "", x, y)) {
			return true
		}
	}
	return false
}

func (c *container) notLink(st *State, x *Term) bool {
	if st.hasFact(fact("nolink", "", x)) {
		return true
	}
	info := func(t *Term) bool {
		return t.sym != nil && t.sym.kind == "call" && t.sym.callee == "os.Lstat" && len(t.sym.args) == 1 && t.sym.args[0] == x
	}
	for t, v := range st.truth {
		switch {
		case t.op == "eq":
			for i := 0; i < 2; i++ {
				a, b := t.args[i], t.args[1-i]
				if !v && b.isNil() && info(a) && a.sym.index == 1 {
					return true // nothing is there, as far as can be known
				}
				if v && b.isNil() && a.sym != nil && a.sym.callee == "os.Remove" && a.sym.args[0] == x {
					return true
				}
				if n, ok := b.intVal(); v && ok && n == 0 && a.op == "and" && c.modeOf(a.args[0], info) && isLinkBit(a.args[1]) {
					return true
				}
				if n, ok := b.intVal(); ok && pathCall(stripConv(a), "(io/fs.FileMode).Type") && c.modeOf(a, info) && v == (n&(1<<27) == 0) && (v || n == 1<<27) {
					return true
				}
				if n, ok := b.intVal(); !v && ok && n == 1<<27 && a.op == "and" && (c.modeOf(a.args[0], info) && isLinkBit(a.args[1]) || c.modeOf(a.args[1], info) && isLinkBit(a.args[0])) {
					// the type is not exactly this, and nothing but symbolic links has the bit
					m, ok := a.args[1].intVal()
					if !ok {
						m, ok = a.args[0].intVal()
					}
					if ok && m&^0x8f280000 == 0 {
						return true
					}
				}
				if n, ok := b.intVal(); v && ok && n == 0 && a.op == "and" && c.modeOf(a.args[1], info) && isLinkBit(a.args[0]) {
					return true
				}
			}
		case t.op == "call" && t.aux == "(io/fs.FileMode).IsRegular#0" && v && c.modeOf(t.args[0], info):
			return true
		}
	}
	return false
}

func isLinkBit(t *Term) bool {
	n, ok := t.intVal()
	return ok && n&(1<<27) != 0
}

func (c *container) modeOf(t *Term, info func(*Term) bool) bool {
	t = stripConv(t)
	if pathCall(t, "(io/fs.FileMode).Type") {
		t = t.args[0]
	}
	if t.sym != nil && t.sym.kind == "call" && strings.HasSuffix(t.sym.callee, "FileInfo).Mode") {
		return info(t.sym.args[0])
	}
	return t.op == "call" && strings.Contains(t.aux, "FileInfo).Mode") && info(t.args[0])
}

// candidates: facts worth keeping.
func (c *container) candidates(states []*State) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(f *Term) {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, st := range states {
		for t := range st.truth {
			switch t.op {
			case "F:present", "F:safedir", "F:inside", "F:below", "F:nolink", "F:resolves", "F:missing", "F:reach":
				add(t)
				if t.op == "F:resolves" {
					add(fact("safedir", "", t.args[0]))
				}
				if t.op == "F:reach" {
					add(fact("safedir", "", t.args[0]))
				}
			case "hasprefix":
				if destPrefix(t.args[1]) {
					add(fact("inside", "", t.args[0]))
					add(fact("below", "", t.args[0]))
				}
			case "call", "eq":
				t.walk(func(x *Term) {
					if x.sym != nil && x.sym.kind == "call" && len(x.sym.args) > 0 {
						switch x.sym.callee {
						case "path/filepath.EvalSymlinks":
							add(fact("resolves", "", x.sym.args[0]))
							add(fact("safedir", "", x.sym.args[0]))
							add(fact("missing", "", x.sym.args[0]))
							add(fact("present", "", x.sym.args[0]))
						case "os.MkdirAll", "os.Mkdir":
							add(fact("present", "", x.sym.args[0]))
						case "os.Lstat", "os.Remove":
							add(fact("nolink", "", x.sym.args[0]))
							add(fact("missing", "", x.sym.args[0]))
						}
					}
				})
				if t.op == "eq" {
					for i := 0; i < 2; i++ {
						if isDest(t.args[i]) && t.args[1-i].op != "const" {
							add(fact("inside", "", t.args[1-i]))
							add(fact("below", "", t.args[1-i]))
						}
					}
				}
			}
		}
	}
	return out
}

func (c *container) joined(states []*State) []*Term { return c.candidates(states) }

// templates: a directory reached from another one by going up while nothing exists.
func (c *container) templates(states []*State, j *Term, ts []*Term) []*Term {
	if !isString(typOf(j)) {
		return nil
	}
	out := []*Term{fact("inside", "", j), fact("below", "", j), fact("nolink", "", j)}
	for _, t := range ts {
		if t != nil && t != bottomTerm {
			out = append(out, fact("reach", "", t, j))
		}
	}
	for _, st := range states {
		for f := range st.truth {
			if f.op == "F:reach" {
				out = append(out, fact("reach", "", f.args[0], j))
			}
		}
	}
	return out
}

func (c *container) implied(st *State, f *Term) bool {
	switch f.op {
	case "F:below":
		return c.strictly(st, f.args[0])
	case "F:inside":
		return c.inside(st, f.args[0])
	case "F:nolink":
		return c.notLink(st, f.args[0])
	case "F:present":
		return c.made(st, f.args[0])
	case "F:missing":
		return c.missing(st, f.args[0])
	case "F:resolves":
		// resolved, and the result is inside
		for t := range st.truth {
			ok := false
			t.walk(func(x *Term) {
				if !ok && x.sym != nil && resolution(x) == f.args[0] && x != f.args[0] {
					ok = (isDest(x) || c.inside(st, x)) && st.nilness(x.sym.sibs[1]) != 2
				}
			})
			if ok {
				return true
			}
		}
	case "F:safedir":
		return c.safeDir(st, f.args[0])
	case "F:reach":
		o, x := f.args[0], f.args[1]
		if o == x {
			return true
		}
		if pathCall(x, "path/filepath.Dir") {
			y := x.args[0]
			return (o == y || st.hasFact(fact("reach", "", o, y))) && c.missing(st, y)
		}
	}
	return false
}

// place: the kind of place a path kept for later comes from.
func place(t *Term) string {
	switch {
	case t.op == "ld":
		return heapClass(t.args[0])
	case t.op == "lookup" || t.op == "mapel":
		return "map " + typeKey(typOf(t))
	case t.op == "field":
		return t.aux
	case t.sym != nil && t.sym.kind == "join":
		k := ""
		for p := range t.sym.parents {
			q := place(p)
			if q == "" || k != "" && k != q {
				return ""
			}
			k = q
		}
		return k
	}
	return ""
}

func (c *container) safe(st *State, x *Term, dir bool) (inside, resolved bool) {
	if dir {
		if given(x) {
			return true, true
		}
		return c.inside(st, x), c.safeDir(st, x)
	}
	inside = c.strictly(st, x)
	// any way to write the parent
	for t := range st.truth {
		if t.op == "F:safedir" && pathCall(t.args[0], "path/filepath.Dir") && t.args[0].args[0] == x {
			return inside, true
		}
	}
	return inside, c.safeDir(st, app("call", "path/filepath.Dir#0", types.Typ[types.String], x))
}

// present: the directory of x was made, or found.
func (c *container) present(st *State, x *Term) bool {
	for t := range st.truth {
		if t.op == "F:present" && pathCall(t.args[0], "path/filepath.Dir") && t.args[0].args[0] == x {
			return true
		}
	}
	return c.made(st, app("call", "path/filepath.Dir#0", types.Typ[types.String], x))
}

func (c *container) made(st *State, d *Term) bool {
	for t, v := range st.truth {
		switch {
		case v && t.op == "eq":
			for i := 0; i < 2; i++ {
				a := t.args[i]
				if t.args[1-i].isNil() && a.sym != nil && a.sym.kind == "call" && len(a.sym.args) > 0 && a.sym.args[0] == d {
					switch a.sym.callee {
					case "os.MkdirAll", "os.Mkdir", "path/filepath.EvalSymlinks", "os.Stat":
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *container) call(st *State, ci *CallInfo) {
	fc, ok := fsCallOf(ci.name)
	if !ok {
		return
	}
	check := func(i int, dir bool) {
		if i >= len(ci.args) {
			return
		}
		x := ci.args[i]
		key := fmt.Sprint(fnID(ci.instr.Parent()), instrKey(ci.instr), i)
		at := func(format string, args ...any) func() Finding {
			return func() Finding { return c.r.at(ci.instr, format, args...) }
		}
		from := x
		if dir && pathCall(x, "path/filepath.Dir") {
			from = x.args[0]
		}
		if k := place(from); k != "" {
			c.used[k] = at("by %s", ci.name)
			c.r.item("inside", key, true, nil)
			c.r.item("resolved", key, true, nil)
		} else {
			in, res := c.safe(st, x, dir)
			c.r.item("inside", key, in, at("%s is given a path that is not known to lie inside the destination: %s", ci.name, x))
			c.r.item("resolved", key, res, at("%s is given a path whose directory is not known to resolve inside the destination: %s", ci.name, x))
		}
		if fc.follow && !dir {
			excl := false
			if ci.name == "os.OpenFile" {
				// O_CREAT|O_EXCL and O_NOFOLLOW do not follow
				if n, ok := ci.args[1].intVal(); ok && (n&0x80 != 0 && n&0x40 != 0 || n&0x20000 != 0) && !strings.HasPrefix(c.it.prog.cfg.name, "windows") {
					excl = true
				}
			}
			c.r.item("not a link", key, excl || c.notLink(st, x), at("%s follows symbolic links, and the path may be one an earlier entry planted", ci.name))
		}
	}
	for _, i := range fc.paths {
		check(i, false)
	}
	for _, i := range fc.dirs {
		check(i, true)
	}
	if strings.HasSuffix(ci.name, ".Symlink") || strings.HasSuffix(ci.name, ".Rename") {
		for t := range st.truth {
			if t.op == "F:nolink" || t.op == "F:missing" {
				delete(st.truth, t)
			}
		}
	}
}

func (c *container) keep(st *State, class string, v *Term, in ssa.Instruction) {
	if v == nil || !isString(typOf(v)) || v.op == "const" || in == nil {
		return
	}
	if k := place(v); k != "" {
		if k != class {
			c.used[k] = func() Finding { return c.r.at(in, "where it is kept as well") }
			if f, ok := c.used[class]; ok {
				c.used[k] = f
			}
		}
		return
	}
	// a directory that does not exist yet could become a link
	if i, r := c.safe(st, v, false); i && r && c.present(st, v) {
		return
	}
	if _, ok := c.unsafe[class]; !ok {
		c.unsafe[class] = c.r.at(in, "a path is kept for later without being known to be inside the destination and to have a directory that resolves there: %s", v)
	}
}

func (c *container) store(st *State, addr, v *Term, in ssa.Instruction) {
	if isAlloc(addr) || v == nil || v.typ == nil {
		return
	}
	if s, ok := in.(*ssa.Store); ok {
		if x, ok := s.Addr.(*ssa.IndexAddr); ok {
			if a, ok := x.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
				return // judged by append, or seen by what is called
			}
		}
	}
	c.parts(st, heapClass(addr), v, v.typ, in)
}

func (c *container) parts(st *State, class string, v *Term, t types.Type, in ssa.Instruction) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if class == "e:any" {
			return
		}
		c.keep(st, class, v, in)
	case *types.Struct:
		if opaqueStruct(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			c.parts(st, "f:"+fieldID(t, i), projField(v, t, i), u.Field(i).Type(), in)
		}
	}
}

func (c *container) mapUpdate(st *State, m, k, v *Term, in ssa.Instruction) {
	if v.typ != nil {
		c.parts(st, "map "+typeKey(v.typ), v, v.typ, in)
	}
}

func (c *container) builtin(st *State, ci *CallInfo, name string) {
	if name != "append" || len(ci.args) < 2 {
		return
	}
	for _, e := range st.elements(ci.args[1]) {
		if e.typ != nil {
			c.parts(st, "e:"+typeKey(e.typ), e, e.typ, ci.instr)
		}
	}
}
