package main

// The number of unread bytes of a local bytes.Buffer, kept as a ghost field. It is only trusted while
// nothing else holds the buffer's address.

import (
	"go/types"
	"strings"
)

const bufLenField = "$buflen"

func isBufferPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeKey(p.Elem()) == "bytes.Buffer"
}

// bufferArg gives the buffer an argument points to.
func (it *Interp) bufferArg(a *Term) *Term {
	if a.op == "mkiface" {
		if t := it.typeByKey[a.aux]; isBufferPtr(t) {
			return a.args[0]
		}
		return nil
	}
	if isBufferPtr(a.typ) || isAlloc(a) && a.typ != nil && typeKey(derefType(a.typ)) == "bytes.Buffer" {
		return a
	}
	return nil
}

func bufLenAddr(b *Term) *Term { return fieldAddr(b, bufLenField, types.Typ[types.Int]) }

// bufLen is the tracked length, nil when something else may write to the buffer.
func (st *State) bufLen(b *Term) *Term {
	if !isAlloc(b) || st.escaped(b) {
		return nil
	}
	n := st.load(bufLenAddr(b), types.Typ[types.Int])
	st.lin.add(toLin(n).neg())
	return n
}

// retainBuffers: a reader or writer built around a buffer keeps using it.
func (it *Interp) retainBuffers(st *State, a *Term) {
	if a == nil {
		return
	}
	if b := it.bufferArg(a); b != nil {
		st.markEscaped(b)
		return
	}
	switch a.op {
	case "list", "mkiface", "slice", "arr", "append", "struct", "closure":
		for _, x := range a.args {
			it.retainBuffers(st, x)
		}
	case "sym", "make":
		if isAlloc(a) || a.op == "make" {
			for ad, v := range st.mem {
				if addrRoot(ad) == a && v != nil {
					if b := it.bufferArg(v); b != nil {
						st.markEscaped(b)
					}
				}
			}
		}
	}
}

// bufferEffect computes the length after a call, before the call's generic effects are applied.
func (it *Interp) bufferEffect(st *State, ci *CallInfo) (b *Term, after *Term, known bool) {
	if len(ci.args) == 0 {
		return nil, nil, false
	}
	b = it.bufferArg(ci.args[0])
	if b == nil {
		return nil, nil, false
	}
	old := st.bufLen(b)
	if old == nil {
		return nil, nil, false
	}
	plus := func(x *Term) (*Term, *Term, bool) {
		l := toLin(old).add(toLin(x))
		return b, fromLin(l, types.Typ[types.Int]), true
	}
	switch ci.name {
	case "io.Copy", "io.CopyN", "(*bytes.Buffer).ReadFrom":
		return plus(ci.res[0])
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		return plus(mkLen(ci.args[1]))
	case "(*bytes.Buffer).WriteByte":
		return plus(mkInt(1))
	case "(*bytes.Buffer).Reset":
		return b, mkInt(0), true
	case "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Cap", "(*bytes.Buffer).Available", "(*bytes.Buffer).Grow":
		return b, old, true
	}
	if strings.HasPrefix(ci.name, "(*bytes.Buffer).") {
		return b, it.fresh(st, "fresh", ci.instr, "buflen", types.Typ[types.Int]), true
	}
	return nil, nil, false
}

// bufferResult relates the results of an observer to the tracked length.
func (it *Interp) bufferResult(st *State, ci *CallInfo, b, n *Term) {
	st.store(bufLenAddr(b), n, types.Typ[types.Int], st.ctx, ci.instr)
	switch ci.name {
	case "(*bytes.Buffer).Len":
		st.addEq(ci.res[0], n)
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		st.addEq(mkLen(ci.res[0]), n)
	}
}
