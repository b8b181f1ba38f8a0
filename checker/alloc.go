package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// allocLimit is the largest allocation (in bytes) that needs no justification by data already held.
const allocLimit = int64(64) << 20

var sizes = types.SizesFor("gc", "amd64")

func elemSize(t types.Type) int64 {
	defer func() { recover() }()
	n := sizes.Sizeof(t)
	if n <= 0 {
		return 1
	}
	return n
}

// checkMake: the length and capacity of a slice allocation must be valid, and the amount of memory must
// be bounded by a constant or by data the process already holds.
func (it *Interp) checkMake(st *State, in ssa.Instruction, n, c *Term, et types.Type) {
	nl, cl := toLin(n), toLin(c)
	lo := st.proveLin(nl.neg())
	le := n == c || st.proveLin(nl.sub(cl))
	size := elemSize(et)
	max := (int64(1) << 47) / size
	hi := st.proveLin(cl.plus(-max))
	it.oblige(st, "make", in, lo && le && hi, func() string {
		return fmt.Sprintf("make with length %s capacity %s not shown to be within [0, %d]", n, c, max)
	})
	it.checkAlloc(st, in, c, size)
	if !lo {
		st.addLin(nl.neg())
	}
	if !hi {
		st.addLin(cl.plus(-max))
	}
}

func (it *Interp) checkMakeMap(st *State, in ssa.Instruction, n *Term) {
	// a negative hint is treated as zero by the runtime when it is not constant
	it.checkAlloc(st, in, n, 64)
}

func (it *Interp) checkAlloc(st *State, in ssa.Instruction, n *Term, size int64) {
	it.oblige(st, "alloc", in, it.allocBounded(st, n, size), func() string {
		return fmt.Sprintf("allocation of %s elements of %d bytes is bounded neither by a constant nor by data already held", n, size)
	})
}

// allocBounded: n*size is at most allocLimit, or n is at most a small multiple of the size of data in
// memory.
func (it *Interp) allocBounded(st *State, n *Term, size int64) bool {
	l := toLin(n)
	if st.proveLin(l.plus(-(allocLimit / size))) {
		return true
	}
	held := func(t *Term) bool {
		switch t.op {
		case "len", "maplen", "cap":
			return true
		}
		return false
	}
	// the value itself is a combination of lengths
	ok := true
	for _, p := range l.ps {
		if p.k > 0 && !(held(p.t) && p.k <= 64) {
			ok = false
		}
	}
	if ok {
		return true
	}
	// or it is at most 4x the length of something held
	for _, a := range anchors([]*State{st}, []*Term{n}, func(*Term) bool { return false }) {
		if held(a) && st.proveLin(l.sub(linTerm(a).scale(4)).plus(-allocLimit/size)) {
			return true
		}
	}
	for _, t := range lenTermsOf(l, st) {
		if st.proveLin(l.sub(linTerm(t).scale(4)).plus(-allocLimit / size)) {
			return true
		}
	}
	return false
}

// lenTermsOf collects length terms related to l through the known constraints.
func lenTermsOf(l Lin, st *State) []*Term {
	m := map[*Term]bool{}
	var inside func(t *Term)
	inside = func(t *Term) {
		if t.op == "len" || t.op == "maplen" {
			m[t] = true
			return
		}
		if t.op == "quo" || t.op == "lin" || t.op == "rem" {
			for _, a := range t.args {
				inside(a)
			}
		}
	}
	for _, p := range l.ps {
		inside(p.t)
		for _, c := range st.linBy(p.t) {
			for _, q := range c.ps {
				if q.t.op == "len" || q.t.op == "maplen" {
					m[q.t] = true
				}
			}
		}
	}
	return sortedTerms(m)
}
