package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strings"
)

// model describes an external function: what it may change and what is known about its results.
type model struct {
	pure     bool // result depends on the arguments only, nothing is changed
	noeffect bool // changes nothing reachable from the module
	nonnil   bool // results are non-nil
	noescape bool
	reads    map[int]bool // argument positions that are only read
	eval     func(it *Interp, st *State, c *CallInfo) []evalRes
	post     func(it *Interp, st *State, c *CallInfo)
	onOK     func(it *Interp, st *State, sibs, args []*Term) bool // facts once the error is known to be nil
}

type evalRes struct {
	st  *State
	res []*Term
}

var models map[string]*model

func modelFor(name string) *model {
	if m, ok := models[name]; ok {
		return m
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return pureModel
		}
	}
	return nil
}

var pureModel = &model{pure: true}

var purePrefixes = []string{"strings.", "path.", "path/filepath.", "strconv.", "unicode", "math.", "math/bits.",
	"(time.Time).", "time.Unix", "(crypto.Hash).", "(io/fs.FileMode).", "(encoding/binary.bigEndian).", "(encoding/binary.littleEndian)."}

// n <= len(buf) for Read-like functions.
func readPost(buf int) func(it *Interp, st *State, c *CallInfo) {
	return func(it *Interp, st *State, c *CallInfo) {
		n := c.res[0]
		st.lin.add(linTerm(n).neg())
		st.lin.add(linTerm(n).sub(toLin(mkLen(c.args[buf]))))
	}
}

func fullOnOK(buf int) func(it *Interp, st *State, sibs, args []*Term) bool {
	return func(it *Interp, st *State, sibs, args []*Term) bool {
		return st.addEq(sibs[0], mkLen(args[buf]))
	}
}

func nonNegBelow(lim int64) func(it *Interp, st *State, c *CallInfo) {
	return func(it *Interp, st *State, c *CallInfo) {
		st.lin.add(linTerm(c.res[0]).neg())
		st.lin.add(linTerm(c.res[0]).plus(-lim))
	}
}

func indexPost(sub bool) func(it *Interp, st *State, c *CallInfo) {
	return func(it *Interp, st *State, c *CallInfo) {
		r := linTerm(c.res[0])
		st.lin.add(r.neg().plus(-1)) // r >= -1
		l := r.sub(toLin(mkLen(c.args[0])))
		if !sub {
			st.lin.add(l.plus(1)) // r < len
		} else {
			st.lin.add(l) // r <= len
			// r + len(sub) <= len when found; recorded for non-negative constants
			if n, ok := mkLen(c.args[1]).intVal(); ok && n > 0 {
				st.lin.add(l.plus(1))
			}
		}
	}
}

func init() {
	none := &model{noeffect: true, noescape: true}
	noneNN := &model{noeffect: true, noescape: true, nonnil: true}
	models = map[string]*model{
		"errors.New":  noneNN,
		"fmt.Errorf":  noneNN,
		"fmt.Sprintf": {pure: true},
		"fmt.Sprint":  {pure: true},
		"errors.Is":   {pure: true},
		// these look at the file system
		"path/filepath.Glob": none, "path/filepath.Abs": none, "path/filepath.Walk": nil, "path/filepath.WalkDir": nil,
		"errors.As":  {eval: errorsAs},
		"os.IsExist": {pure: true}, "os.IsNotExist": {pure: true}, "os.IsPermission": {pure: true},
		"(error).Error": {pure: true},
		"bytes.Equal":   {pure: true}, "bytes.Compare": {pure: true}, "bytes.HasPrefix": {pure: true}, "bytes.HasSuffix": {pure: true}, "bytes.Contains": {pure: true},
		"crypto/subtle.ConstantTimeCompare": {pure: true},
		"encoding/hex.EncodeToString":       {pure: true},
		"bytes.IndexByte":                   {pure: true, post: indexPost(false)},
		"bytes.Index":                       {pure: true, post: indexPost(true)},
		"strings.IndexByte":                 {pure: true, post: indexPost(false)},
		"strings.IndexRune":                 {pure: true, post: indexPost(false)},
		"strings.IndexAny":                  {pure: true, post: indexPost(false)},
		"strings.IndexFunc":                 {pure: true, post: indexPost(false)},
		"strings.LastIndexByte":             {pure: true, post: indexPost(false)},
		"strings.Index":                     {pure: true, post: indexPost(true)},
		"strings.LastIndex":                 {pure: true, post: indexPost(true)},
		"strings.Split":                     {pure: true, post: splitPost},
		"strings.TrimLeft":                  {pure: true, post: shrinkPost}, "strings.TrimRight": {pure: true, post: shrinkPost}, "strings.TrimPrefix": {pure: true, post: shrinkPost},
		"strings.TrimSuffix": {pure: true, post: shrinkPost}, "strings.Trim": {pure: true, post: shrinkPost}, "strings.TrimSpace": {pure: true, post: shrinkPost},
		"strings.HasPrefix":                   {eval: hasPrefix},
		"strings.HasSuffix":                   {eval: hasPrefix},
		"(*regexp.Regexp).FindStringSubmatch": {eval: submatch},
		"(*regexp.Regexp).MatchString":        {eval: matchString},
		"(*regexp.Regexp).FindString": {pure: true, post: func(it *Interp, st *State, c *CallInfo) {
			st.lin.add(toLin(mkLen(c.res[0])).sub(toLin(mkLen(c.args[1]))))
		}},
		"(*regexp.Regexp).FindStringIndex":         {noeffect: true},
		"(*regexp.Regexp).FindStringSubmatchIndex": {noeffect: true},
		"regexp.MustCompile":                       noneNN,

		"io.ReadFull":           {post: readPost(1), onOK: fullOnOK(1), noescape: true},
		"io.ReadAtLeast":        {post: readPost(1), noescape: true},
		"(io.Reader).Read":      {post: readPost(1), noescape: true},
		"(*os.File).Read":       {post: readPost(1), noescape: true},
		"(*bytes.Reader).Read":  {post: readPost(1), noescape: true},
		"(*bytes.Buffer).Read":  {post: readPost(1), noescape: true},
		"(io.Writer).Write":     {post: readPost(1), onOK: fullOnOK(1), reads: map[int]bool{1: true}, noescape: true},
		"(*os.File).Write":      {post: readPost(1), onOK: fullOnOK(1), reads: map[int]bool{1: true}, noescape: true},
		"(*bytes.Buffer).Write": {post: readPost(1), reads: map[int]bool{1: true}, noescape: true},
		"io.Copy":               {post: nonNegBelow(linLimit), noescape: true},
		"io.CopyN": {post: nonNegBelow(linLimit), noescape: true, onOK: func(it *Interp, st *State, sibs, args []*Term) bool {
			if st.nonNeg(args[2]) {
				return st.addEq(sibs[0], args[2])
			}
			return true
		}},
		"(io.Seeker).Seek":                  {post: func(it *Interp, st *State, c *CallInfo) {}},
		"io.ReadAll":                        {nonnil: true},
		"github.com/DataDog/zstd.NewReader": {nonnil: true},
		"io.TeeReader":                      {nonnil: true, noeffect: true},
		"io.MultiReader":                    {nonnil: true, noeffect: true},
		"io.MultiWriter":                    {nonnil: true, noeffect: true},
		"io.LimitReader":                    {nonnil: true, noeffect: true},
		"io.NewSectionReader":               {nonnil: true, noeffect: true},
		"bufio.NewReader":                   {nonnil: true, noeffect: true},
		"bufio.NewWriter":                   {nonnil: true, noeffect: true},
		"bytes.NewReader":                   {nonnil: true, noeffect: true},
		"bytes.NewBuffer":                   {nonnil: true, noeffect: true},
		"bytes.NewBufferString":             {nonnil: true, noeffect: true},
		"strings.NewReader":                 {nonnil: true, noeffect: true},
		"(*bytes.Buffer).Bytes":             none, "(*bytes.Buffer).Len": {noeffect: true, post: nonNegBelow(maxLen)}, "(*bytes.Reader).Len": {noeffect: true, post: nonNegBelow(maxLen)},
		"(*bytes.Buffer).String":  none,
		"(crypto.Hash).New":       {nonnil: true, noeffect: true, eval: hashNew},
		"(crypto.Hash).Size":      {pure: true},
		"(crypto.Hash).Available": {eval: hashAvail},
		"(hash.Hash).Sum":         {noeffect: true},
		"crypto/md5.New":          noneNN, "crypto/sha1.New": noneNN, "crypto/sha256.New": noneNN, "crypto/sha512.New": noneNN, "crypto/sha256.New224": noneNN, "crypto/sha512.New384": noneNN,
		"time.Now":           none,
		"(time.Time).IsZero": {pure: true},
		"sort.Ints":          {}, "sort.Sort": {}, "sort.Strings": {}, "sort.Slice": {}, "sort.SliceStable": {}, "slices.Sort": {},
		"encoding/binary.Read":     {},
		"encoding/binary.Write":    {reads: map[int]bool{2: true}},
		"encoding/binary.Size":     {pure: true},
		"compress/bzip2.NewReader": {nonnil: true, noeffect: true},
		"os.Lstat":                 none, "os.Stat": none, "os.Mkdir": none, "os.MkdirAll": none, "os.Symlink": none, "os.Link": none, "os.Remove": none, "os.RemoveAll": none,
		"os.Rename": none, "os.Create": none, "os.OpenFile": none, "os.Open": none, "os.CreateTemp": none, "os.Readlink": none, "os.Chmod": none,
		"os.MkdirTemp": none, "os.WriteFile": none, "os.ReadFile": none, "os.SameFile": {pure: true},
		"(*os.File).Name": {pure: true}, "(*os.File).Stat": none, "(*os.File).Close": none, "(*os.File).Chmod": none, "(*os.File).Sync": none,
		"(io/fs.FileInfo).Mode": {pure: true}, "(io/fs.FileInfo).Sys": {pure: true}, "(io/fs.FileInfo).Size": {pure: true}, "(io/fs.FileInfo).Name": {pure: true}, "(io/fs.FileInfo).IsDir": {pure: true},
		"golang.org/x/sys/unix.Mkfifo": none,
		"path/filepath.EvalSymlinks":   none,
		"strconv.ParseInt":             {pure: true, eval: parseInt},
		"strconv.ParseUint":            {pure: true, eval: parseInt},
		"(*github.com/ProtonMail/go-crypto/openpgp/packet.Signature).CheckKeyIdOrFingerprint": {pure: true},
		"(*github.com/ProtonMail/go-crypto/openpgp.Entity).PrimaryIdentity":                   none,
		"(*github.com/ProtonMail/go-crypto/openpgp/packet.PublicKey).VerifySignature":         none,
		"github.com/ProtonMail/go-crypto/openpgp/packet.NewReader":                            {nonnil: true, noeffect: true},
		"(encoding/binary.bigEndian).Uint16":                                                  {eval: beRead(2)}, "(encoding/binary.bigEndian).Uint32": {eval: beRead(4)}, "(encoding/binary.bigEndian).Uint64": {eval: beRead(8)},
		"(encoding/binary.littleEndian).Uint16": {eval: beRead(2)}, "(encoding/binary.littleEndian).Uint32": {eval: beRead(4)}, "(encoding/binary.littleEndian).Uint64": {eval: beRead(8)},
		"(encoding/binary.bigEndian).PutUint16": {eval: bePut(2)}, "(encoding/binary.bigEndian).PutUint32": {eval: bePut(4)}, "(encoding/binary.bigEndian).PutUint64": {eval: bePut(8)},
		"(*bytes.Buffer).Grow": {eval: growEval(1, true), noeffect: true}, "(*strings.Builder).Grow": {eval: growEval(1, true), noeffect: true},
		"slices.Grow": {eval: growEval(1, true), noeffect: true}, "bufio.NewReaderSize": {eval: growEval(1, false), nonnil: true, noeffect: true}, "bufio.NewWriterSize": {eval: growEval(1, false), nonnil: true, noeffect: true},
		"bytes.Repeat": {noeffect: true, eval: repeatEval}, "strings.Repeat": {noeffect: true, eval: repeatEval},
	}
	// pure functions still get their post conditions
	_ = fmt.Sprint
}

func pureCall(c *CallInfo, i int, t types.Type) *Term {
	return app("call", c.name+"#"+fmt.Sprint(i), t, c.args...)
}

func repeatEval(it *Interp, st *State, c *CallInfo) []evalRes {
	it.oblige(st, "repeat", c.instr, st.nonNeg(c.args[1]), func() string { return "negative repeat count possible" })
	if n, ok := mkLen(c.args[0]).intVal(); ok && n > 0 {
		it.checkAlloc(st, c.instr, c.args[1], n)
	} else {
		it.checkAlloc(st, c.instr, c.args[1], 1<<20)
	}
	return nil
}

// growEval: an allocation made by a library function on request.
func growEval(arg int, noNeg bool) func(it *Interp, st *State, c *CallInfo) []evalRes {
	return func(it *Interp, st *State, c *CallInfo) []evalRes {
		if noNeg {
			it.oblige(st, "repeat", c.instr, st.nonNeg(c.args[arg]), func() string { return c.name + " with a negative size possible" })
		}
		it.checkAlloc(st, c.instr, c.args[arg], 1)
		return nil
	}
}

func beRead(n int64) func(it *Interp, st *State, c *CallInfo) []evalRes {
	return func(it *Interp, st *State, c *CallInfo) []evalRes {
		b := c.args[len(c.args)-1]
		ok := st.proveLin(linConst(n).sub(toLin(mkLen(b))))
		it.oblige(st, "bytes", c.instr, ok, func() string { return fmt.Sprintf("%s needs %d bytes of %s", c.name, n, b) })
		t := app("call", c.name, c.common.Signature().Results().At(0).Type(), b, st.contentOf(b))
		return []evalRes{{st, []*Term{t}}}
	}
}

func bePut(n int64) func(it *Interp, st *State, c *CallInfo) []evalRes {
	return func(it *Interp, st *State, c *CallInfo) []evalRes {
		b := c.args[len(c.args)-2]
		ok := st.proveLin(linConst(n).sub(toLin(mkLen(b))))
		it.oblige(st, "bytes", c.instr, ok, func() string { return fmt.Sprintf("%s needs %d bytes of %s", c.name, n, b) })
		return nil
	}
}

func (st *State) contentOf(b *Term) *Term {
	if c, ok := st.mem[contentAddr(addrRoot(b))]; ok {
		return c
	}
	return noneTerm
}

func splitPost(it *Interp, st *State, c *CallInfo) {
	if s, ok := c.args[1].strVal(); ok && s != "" {
		st.lin.add(linConst(1).sub(toLin(mkLen(c.res[0]))))
	}
}

func shrinkPost(it *Interp, st *State, c *CallInfo) {
	st.lin.add(toLin(mkLen(c.res[0])).sub(toLin(mkLen(c.args[0]))))
}

func hasPrefix(it *Interp, st *State, c *CallInfo) []evalRes {
	bt := types.Typ[types.Bool]
	op := "hasprefix"
	f := strings.HasPrefix
	if strings.HasSuffix(c.name, "HasSuffix") {
		op = "hassuffix"
		f = strings.HasSuffix
	}
	if a, ok := c.args[0].strVal(); ok {
		if b, ok := c.args[1].strVal(); ok {
			return []evalRes{{st, []*Term{mkBool(f(a, b))}}}
		}
	}
	t := app(op, "", bt, c.args[0], c.args[1])
	if v, ok := st.decide(t); ok {
		return []evalRes{{st, []*Term{mkBool(v)}}}
	}
	// the string must be at least as long as its prefix
	s1, s2 := st, st.clone()
	var r []evalRes
	if s1.assume(t, true) && s1.addLin(toLin(mkLen(c.args[1])).sub(toLin(mkLen(c.args[0])))) {
		r = append(r, evalRes{s1, []*Term{mkBool(true)}})
	}
	if s2.assume(t, false) {
		r = append(r, evalRes{s2, []*Term{mkBool(false)}})
	}
	return r
}

func regexOf(t *Term) (string, bool) {
	if t.op == "regex" {
		return t.aux, true
	}
	return "", false
}

func submatch(it *Interp, st *State, c *CallInfo) []evalRes {
	re, ok := regexOf(c.args[0])
	if !ok {
		return nil
	}
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return nil
	}
	n := p.MaxCap() + 1
	cond := app("rematch", re, types.Typ[types.Bool], c.args[1])
	rt := c.common.Signature().Results().At(0).Type()
	var els []*Term
	for i := 0; i < n; i++ {
		els = append(els, app("submatch", fmt.Sprint(i)+":"+re, types.Typ[types.String], c.args[1]))
	}
	if v, known := st.decide(cond); known {
		if v {
			return []evalRes{{st, []*Term{app("list", "", rt, els...)}}}
		}
		return []evalRes{{st, []*Term{nilTerm}}}
	}
	s1, s2 := st, st.clone()
	var r []evalRes
	if s1.assume(cond, true) {
		for _, e := range els {
			s1.lin.add(toLin(mkLen(e)).sub(toLin(mkLen(c.args[1]))))
		}
		r = append(r, evalRes{s1, []*Term{app("list", "", rt, els...)}})
	}
	if s2.assume(cond, false) {
		r = append(r, evalRes{s2, []*Term{nilTerm}})
	}
	return r
}

func matchString(it *Interp, st *State, c *CallInfo) []evalRes {
	re, ok := regexOf(c.args[0])
	if !ok {
		return nil
	}
	cond := app("rematch", re, types.Typ[types.Bool], c.args[1])
	if v, known := st.decide(cond); known {
		return []evalRes{{st, []*Term{mkBool(v)}}}
	}
	return []evalRes{{st, []*Term{cond}}}
}

// hashNew: crypto.Hash.New panics unless the hash is linked in.
func hashNew(it *Interp, st *State, c *CallInfo) []evalRes {
	h := c.args[0]
	ok := it.hashLinked(st, h)
	it.oblige(st, "hash", c.instr, ok, func() string { return "hash function " + h.String() + " may not be available" })
	return nil
}

func hashAvail(it *Interp, st *State, c *CallInfo) []evalRes {
	t := app("hashavail", "", types.Typ[types.Bool], c.args[0])
	if it.hashLinked(st, c.args[0]) {
		if !c.args[0].isConst() {
			st.truth[t] = true
		}
		return []evalRes{{st, []*Term{mkBool(true)}}}
	}
	return []evalRes{{st, []*Term{t}}}
}

// hashLinked: the hash is a constant whose implementation is imported, was checked with Available, or
// comes from a parsed signature packet (the parser only accepts linked hashes).
func (it *Interp) hashLinked(st *State, h *Term) bool {
	c := st.constOf(h)
	if c != nil {
		n, ok := c.intVal()
		if !ok {
			return false
		}
		return it.prog.hashImported(n)
	}
	if st.truth[app("hashavail", "", types.Typ[types.Bool], h)] {
		return true
	}
	ok := false
	if h.op == "ld" && h.args[0].op == "fld" && strings.HasSuffix(h.args[0].aux, "openpgp/packet.Signature.Hash") {
		ok = true
	}
	if h.sym != nil && h.sym.kind == "join" && len(h.sym.parents) > 0 {
		ok = true
		for p := range h.sym.parents {
			if p == h || !it.hashLinked(st, p) {
				ok = false
			}
		}
	}
	if h.op == "ld" && h.args[0].op == "fld" && strings.HasSuffix(h.args[0].aux, modulePath+".Signature.Hash") {
		ok = true // only ever stored from a packet's Hash (checked at the stores)
	}
	return ok
}

// hashImported: crypto.Hash number -> implementing package is linked through the module's imports.
func (p *Program) hashImported(n int64) bool {
	pk := map[int64]string{2: "crypto/md5", 3: "crypto/sha1", 4: "crypto/sha256", 5: "crypto/sha256", 6: "crypto/sha512", 7: "crypto/sha512"}[n]
	if pk == "" {
		return false
	}
	return p.transImport(pk)
}

func (p *Program) transImport(pk string) bool { return p.deps[pk] }

// parseInt: the value is bounded by the requested bit size.
func parseInt(it *Interp, st *State, c *CallInfo) []evalRes {
	s, base, bits := c.args[0], c.args[1], c.args[2]
	rt := c.common.Signature().Results()
	v := app("call", c.name+"#0", rt.At(0).Type(), s, base, bits)
	e := app("call", c.name+"#1", rt.At(1).Type(), s, base, bits)
	unsigned := strings.HasSuffix(c.name, "Uint")
	n, okBits := bits.intVal()
	// on success the digits bound the value: 4 bits per hexadecimal digit, and no sign when the text is
	// known to have none
	var r []evalRes
	s1, s2 := st, st.clone()
	if s1.assume(mkEq(e, nilTerm), true) {
		if unsigned {
			s1.lin.add(linTerm(v).neg())
		}
		if okBits && n > 0 && n < 62 {
			if unsigned {
				s1.lin.add(linTerm(v).plus(-((int64(1) << uint(n)) - 1)))
			} else {
				s1.lin.add(linTerm(v).plus(-((int64(1) << uint(n-1)) - 1)))
				s1.lin.add(linConst(-(int64(1) << uint(n-1))).sub(linTerm(v)))
			}
		}
		if l, ok := mkLen(s).intVal(); ok {
			if b, okb := base.intVal(); okb && b >= 2 && b <= 36 && l <= 12 {
				lim := int64(1)
				for i := int64(0); i < l && lim < linLimit/64; i++ {
					lim *= b
				}
				s1.lin.add(linTerm(v).plus(-(lim - 1)))
				s1.lin.add(linConst(-(lim - 1)).sub(linTerm(v)))
			}
		}
		r = append(r, evalRes{s1, []*Term{v, e}})
	}
	if s2.assume(mkEq(e, nilTerm), false) {
		r = append(r, evalRes{s2, []*Term{v, e}})
	}
	return r
}

// errorsAs: errors.As(err, &target).
func errorsAs(it *Interp, st *State, c *CallInfo) []evalRes {
	tgt := c.args[1]
	if tgt.op == "mkiface" {
		t := it.typeByKey[tgt.aux]
		if p, ok := t.Underlying().(*types.Pointer); ok {
			k := typeKey(p.Elem())
			it.typeByKey[k] = p.Elem()
			r := app("erras", k, types.Typ[types.Bool], c.args[0])
			if st.nilness(c.args[0]) == 1 {
				return []evalRes{{st, []*Term{mkBool(false)}}}
			}
			if v, known := st.decide(app("typeis", k, types.Typ[types.Bool], c.args[0])); known && v {
				return []evalRes{{st, []*Term{mkBool(true)}}}
			}
			return []evalRes{{st, []*Term{r}}}
		}
	}
	return nil
}
