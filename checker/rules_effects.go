package main

// C23: only extraction and rewriting have side effects. C21: queries do not modify what they query.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C23"] = &Rule{
		what: "Effect analysis over the call graph (static calls, closures, function values, interface calls resolved to module types): from every entry point other than extraction and rewriting, no call, function value or variable of the file system, environment, network, process, logging or standard streams is reachable. " +
			"From extraction only file system operations are reachable, from rewriting only operations on files; standard output is only used where abstract interpretation shows the output name to equal a dash.",
		static: sideEffects,
		hooks:  stdoutHooks,
		assume: []string{"functions of other packages outside the listed system packages have no such effects", "reading the clock is not a side effect"},
	}
	rules["C21"] = &Rule{
		what:  "Abstract interpretation of every query: each store, map update, delete, copy, append into spare capacity and each external call that may write through an argument must target an object created by the query itself.",
		hooks: queryHooks,
	}
}

// what an external function or variable touches: "" nothing, "fs" files, "sys" anything else
func effectOf(pkg, name, recv string) string {
	switch {
	case pkg == "os":
		switch recv {
		case "FileMode", "DirEntry", "FileInfo", "PathError", "LinkError", "SyscallError":
			return ""
		case "File":
			switch name {
			case "Name", "Read", "ReadAt", "Seek", "Stat", "Fd":
				return "" // a file the caller opened, or one whose opening counts
			}
			return "fs"
		case "Root":
			return "fs"
		case "Process", "ProcessState":
			return "sys"
		}
		switch name {
		case "IsExist", "IsNotExist", "IsPermission", "IsTimeout", "IsPathSeparator", "SameFile", "NewSyscallError":
			return ""
		case "Getenv", "LookupEnv", "Environ", "Setenv", "Unsetenv", "Clearenv", "Expand", "ExpandEnv", "Exit", "Chdir", "Getwd", "Getpid", "Getppid", "Getuid", "Geteuid", "Getgid", "Getegid", "Getgroups", "Hostname", "Executable",
			"FindProcess", "StartProcess", "UserHomeDir", "UserCacheDir", "UserConfigDir", "Pipe", "NewFile":
			return "sys"
		}
		if strings.HasPrefix(name, "Err") {
			return ""
		}
		return "fs"
	case pkg == "syscall" || strings.HasPrefix(pkg, "golang.org/x/sys"):
		for _, p := range []string{"Mkfifo", "Mknod", "Link", "Symlink", "Mkdir", "Open", "Close", "Fch", "Chmod", "Lch", "Chown", "Utime", "Lutime", "Stat", "Lstat", "Fstat", "Unlink", "Rename", "Readlink"} {
			if strings.HasPrefix(name, p) && name != "Fchdir" {
				return "fs"
			}
		}
		if strings.HasPrefix(name, "E") && name == strings.ToUpper(name) || recv == "Errno" || recv == "Stat_t" {
			return ""
		}
		return "sys"
	case pkg == "path/filepath":
		switch name {
		case "EvalSymlinks", "Walk", "WalkDir", "Glob", "Abs":
			return "fs"
		}
	case pkg == "io/ioutil":
		switch name {
		case "ReadAll", "NopCloser", "Discard":
			return ""
		}
		return "fs"
	case pkg == "fmt":
		if strings.HasPrefix(name, "Print") || name == "Scan" || name == "Scanln" || name == "Scanf" {
			return "sys"
		}
	case pkg == "net" || strings.HasPrefix(pkg, "net/") && pkg != "net/url" && pkg != "net/netip", pkg == "os/exec", pkg == "os/signal", pkg == "os/user", pkg == "log", strings.HasPrefix(pkg, "log/"), pkg == "flag", pkg == "plugin", pkg == "testing", pkg == "runtime/debug", pkg == "runtime/pprof", pkg == "runtime/trace", pkg == "expvar":
		return "sys"
	case pkg == "runtime":
		switch name {
		case "KeepAlive", "Caller", "Callers", "NumGoroutine", "NumCPU", "GOOS", "GOARCH":
			return ""
		}
		return "sys"
	case pkg == "embed", pkg == "unsafe":
		return ""
	}
	return ""
}

func recvName(f *types.Func) string {
	r := f.Type().(*types.Signature).Recv()
	if r == nil {
		return ""
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// effectClass: 0 no effects allowed, 1 extraction, 2 rewriting
func effectClass(f *ssa.Function) int {
	switch f.Name() {
	case "Extract", "ExpandPayload", "Mkfifo":
		return 1
	case "SignRpmFile", "RewriteWithSignatures":
		return 2
	case "HasLinks":
		return 0
	}
	return 0
}

func sideEffects(p *Program, r *Report) {
	type use struct {
		in        ssa.Instruction
		eff, what string
	}
	uses := map[*ssa.Function][]use{}
	n := 0
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				note := func(eff, what string) {
					if eff != "" {
						uses[fn] = append(uses[fn], use{in, eff, what})
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					n++
					cc := c.Common()
					if cc.IsInvoke() {
						m := cc.Method
						if m.Pkg() != nil && !inModule(m.Pkg()) {
							note(effectOf(m.Pkg().Path(), m.Name(), recvName(m)), m.FullName())
						}
					} else if b, ok := cc.Value.(*ssa.Builtin); ok && strings.HasPrefix(b.Name(), "print") {
						note("sys", b.Name())
					}
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						if v.Object() != nil && v.Object().Pkg() != nil && !inModule(v.Object().Pkg()) {
							o := v.Object().(*types.Func)
							note(effectOf(o.Pkg().Path(), o.Name(), recvName(o)), shortName(v.String()))
						}
					case *ssa.Global:
						if !inModule(v.Pkg.Pkg) {
							pk := v.Pkg.Pkg.Path()
							switch {
							case pk == "os" && (v.Name() == "Stdout" || v.Name() == "Stderr" || v.Name() == "Stdin"):
								note("std", "os."+v.Name())
							case pk == "os" && v.Name() == "Args":
								note("sys", "os.Args")
							}
						}
					}
				}
			}
		}
	}
	roots := p.roots()
	found := map[int]int{}
	for _, root := range roots {
		class := effectClass(root)
		found[class]++
		reach := p.reach([]*ssa.Function{root})
		r.item("effect", shortName(root.String()), true, nil)
		for f := range reach {
			for _, u := range uses[f] {
				ok := false
				switch class {
				case 1:
					ok = u.eff == "fs"
				case 2:
					ok = u.eff == "fs" || u.what == "os.Stdout"
				}
				if !ok {
					u := u
					r.item("effect", shortName(root.String()), false, func() Finding {
						return r.at(u.in, "%s is reachable from %s", u.what, shortName(root.String()))
					})
				}
			}
		}
	}
	if found[1] < 2 || found[2] < 2 || found[0] < 30 {
		r.add(Finding{Rule: "effect", Msg: "the entry points for extraction, rewriting and reading were not all found"})
	}
	// package initialisation runs in every program
	for _, fn := range p.fns {
		if !isInit(fn) {
			continue
		}
		for f := range p.reach([]*ssa.Function{fn}) {
			for _, u := range uses[f] {
				u := u
				r.item("effect", "package initialisation", false, func() Finding { return r.at(u.in, "%s at package initialisation", u.what) })
			}
		}
	}
}

func stdoutHooks(it *Interp, r *Report) []*Hooks {
	h := &Hooks{}
	var params []*Term
	h.start = func(st *State, root *ssa.Function, ps []*Term) { params = ps }
	h.instr = func(st *State, in ssa.Instruction) {
		u, ok := in.(*ssa.UnOp)
		if !ok {
			return
		}
		g, ok := u.X.(*ssa.Global)
		if !ok || g.Pkg.Pkg.Path() != "os" || g.Name() != "Stdout" {
			return
		}
		dash := false
		for _, p := range params {
			if p.typ != nil && isString(p.typ) {
				if v, known := st.decide(mkEq(p, mkStr("-"))); known && v {
					dash = true
				}
			}
		}
		r.item("standard output", it.prog.pos(in)+" by "+shortName(it.root.String()), dash, func() Finding {
			return r.at(in, "standard output is used although the output name may not be a dash")
		})
	}
	return []*Hooks{h}
}

// isQuery: entry points that only look at something.
func (p *Program) isQuery(f *ssa.Function) bool {
	recv := f.Signature.Recv()
	if recv == nil {
		switch f.Name() {
		case "Vercmp", "NEVRAcmp", "GetFileAlgoName":
			return true
		}
		return false
	}
	t := recv.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	switch n.Obj().Name() {
	case "RpmHeader":
		return f.Name() != "DumpSignatureHeader"
	case "Cpio_newc_header", "NEVRA":
		return true
	}
	switch f.Name() {
	case "Len", "Less", "IsLink", "Error", "String":
		return true
	}
	// implementations of FileInfo
	if o, ok := p.rootPkg().Scope().Lookup("FileInfo").(*types.TypeName); ok {
		if i, ok := o.Type().Underlying().(*types.Interface); ok && (types.Implements(n, i) || types.Implements(types.NewPointer(n), i)) {
			return true
		}
	}
	return false
}

func (p *Program) rootPkg() *types.Package {
	for _, sp := range p.spkgs {
		if sp.Pkg.Path() == modulePath {
			return sp.Pkg
		}
	}
	return nil
}

func queryHooks(it *Interp, r *Report) []*Hooks {
	p := it.prog
	query := false
	h := &Hooks{}
	n := 0
	for _, f := range p.roots() {
		if p.isQuery(f) {
			n++
			r.item("query", shortName(f.String()), true, nil)
		}
	}
	if n < 25 {
		r.add(Finding{Rule: "query", Msg: "the query methods were not found"})
	}
	h.start = func(st *State, root *ssa.Function, ps []*Term) { query = p.isQuery(root) }
	check := func(st *State, obj *Term, in ssa.Instruction, what string) {
		if !query {
			return
		}
		ok := st.ownObject(obj, map[*Term]bool{})
		r.item("write", p.pos(in)+" "+what, ok, func() Finding {
			return r.at(in, "%s may change an object that %s was given", what, shortName(it.root.String()))
		})
	}
	h.store = func(st *State, addr, val *Term, in ssa.Instruction) { check(st, addr, in, "store") }
	h.mapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) { check(st, m, in, "map update") }
	h.builtin = func(st *State, c *CallInfo, name string) {
		switch name {
		case "copy", "delete", "clear":
			check(st, c.args[0], c.instr, name)
		case "append":
			s := c.args[0]
			if s.isNil() || st.nilness(s) == 1 {
				return
			}
			if l, ok := mkLen(c.args[1]).intVal(); ok && l == 0 {
				return
			}
			check(st, s, c.instr, name)
		}
	}
	h.call = func(st *State, c *CallInfo) {
		if !query || c.name == "delete" {
			return
		}
		m := modelFor(c.name)
		if m != nil && (m.pure || m.noeffect) && !strings.HasPrefix(c.name, "bytes.NewBuffer") || readOnlyExternal(c.name) || m != nil && m.eval != nil {
			return
		}
		for i, a := range c.args {
			if m != nil && m.reads != nil && m.reads[i] {
				continue
			}
			if a.isConst() || a.isNil() {
				continue
			}
			x := a
			if x.op == "mkiface" {
				x = x.args[0]
			}
			switch typOf(x).Underlying().(type) {
			case *types.Basic, *types.Signature:
				continue
			case *types.Interface:
				if c.common.IsInvoke() && i == 0 && readMethod(c.common.Method.Name()) {
					continue
				}
			}
			if !refType(x) {
				continue
			}
			if isGlobal(addrRoot(x)) || x.op == "ld" && isGlobal(addrRoot(x.args[0])) {
				continue // C22
			}
			check(st, x, c.instr, c.name)
		}
	}
	return []*Hooks{h}
}

// methods of other packages' interfaces that only read their receiver
func readMethod(name string) bool {
	switch name {
	case "Error", "String", "Is", "Unwrap", "Uint16", "Uint32", "Uint64", "Mode", "Size", "Name", "IsDir", "ModTime", "Sys", "Len", "Less":
		return true
	}
	return false
}

// ownObject: the storage was created by this call of the entry point.
func (st *State) ownObject(addr *Term, seen map[*Term]bool) bool {
	if seen[addr] {
		return true
	}
	seen[addr] = true
	r := addrRoot(addr)
	switch r.op {
	case "make", "list", "const", "nil", "struct", "closure", "convert", "strbytes":
		return true
	case "mkiface":
		return st.ownObject(r.args[0], seen)
	case "append":
		return st.ownObject(r.args[0], seen)
	case "call":
		// result of a pure function
		for _, a := range r.args {
			if refType(a) && !st.ownObject(a, seen) {
				return false
			}
		}
		return true
	case "ld":
		c := addrRoot(r.args[0])
		if !st.ownObject(c, seen) {
			return false
		}
		for a, v := range st.mem {
			if addrRoot(a) == c && v != nil && refType(v) && v != r && !st.ownObject(v, seen) {
				return false
			}
		}
		return true
	case "sym":
		switch r.sym.kind {
		case "alloc":
			return true
		case "make":
			return true
		case "join":
			if len(r.sym.parents) == 0 {
				return false
			}
			for _, q := range sortedTerms(r.sym.parents) {
				if refType(q) && !st.ownObject(q, seen) {
					return false
				}
			}
			return true
		case "call", "append":
			for _, a := range r.sym.args {
				if refType(a) && !st.ownObject(a, seen) {
					return aliasFree(r.sym.callee)
				}
			}
			return true
		}
	}
	return false
}

// results of these functions never share memory with their arguments
func aliasFree(callee string) bool {
	for _, s := range []string{"bytes.NewReader", "strings.", "io.ReadAll", "bytes.Clone", "slices.Clone", "fmt.", "errors.", "bufio.NewReader", "regexp.", "encoding/", "strconv.", "bytes.Repeat", "bytes.ToUpper", "bytes.ToLower", "bytes.Join", "bytes.Replace"} {
		if strings.HasPrefix(callee, s) {
			return true
		}
	}
	return false
}

func refType(t *Term) bool {
	if t == nil || t.typ == nil {
		return t != nil && (t.op == "mkiface" || t.op == "fld" || t.op == "slice")
	}
	switch u := t.typ.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return false
	case *types.Tuple:
		return false
	case *types.Interface:
		_ = u
		return !isErrorType(t.typ)
	}
	return sharedRef(t.typ, 0)
}
