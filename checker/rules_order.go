package main

// C27: identities compare by epoch, version and release; the sortable lists order by it.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C27"] = &Rule{
		what:  "Abstract evaluation of the identity comparison and of every sortable list's Less for each of the possible outcomes (below, equal, above) of comparing epoch, version and release, with the version comparison as an uninterpreted antisymmetric function: the result must have the sign of the first unequal one (Less: true exactly when it is negative). Swap must exchange exactly the two elements, Len give the length.",
		hooks: orderHooks, focus: func(r string) bool {
			for _, s := range []string{"NEVRAcmp", ".Less", ".Swap", ".Len", ".Sort"} {
				if strings.HasSuffix(r, s) {
					return true
				}
			}
			return false
		},
		strict: true,
		assume: []string{"version comparison is antisymmetric and returns -1, 0 or 1 (C26)", "the indices given to Less and Swap are in range"},
	}
}

// identity fields in the order of their weight
var identityFields = []string{"Epoch", "Version", "Release"}

type orderer struct {
	it  *Interp
	r   *Report
	cmp *ssa.Function // version comparison
}

// side gives the values compared for one operand, most significant first.
func (o *orderer) side(st *State, v *Term, t types.Type) []*Term {
	if isString(t) {
		return []*Term{v}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
			return nil
		}
		t = p.Elem()
		v = st.load(v, t)
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*Term
	for _, name := range identityFields {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name && isString(s.Field(i).Type()) {
				out = append(out, projField(v, t, i))
			}
		}
	}
	if len(out) != len(identityFields) {
		return nil
	}
	return out
}

func orderHooks(it *Interp, r *Report) []*Hooks {
	o := &orderer{it: it, r: r}
	for _, sp := range it.prog.spkgs {
		if sp.Pkg == it.prog.rootPkg() {
			o.cmp = sp.Func("Vercmp")
		}
	}
	h := &Hooks{}
	h.start = func(st *State, fn *ssa.Function, params []*Term) {
		sig := fn.Signature
		if o.cmp == nil || fn == o.cmp || !fn.Object().Exported() {
			return
		}
		res := sig.Results()
		isInt := func(t types.Type) bool { return types.Identical(t, types.Typ[types.Int]) }
		if sig.Recv() == nil {
			if res.Len() == 1 && isInt(res.At(0).Type()) && sig.Params().Len() == 2 && types.Identical(sig.Params().At(0).Type(), sig.Params().At(1).Type()) {
				o.compare(st, fn, params, params[0], params[1], sig.Params().At(0).Type(), false)
			}
			return
		}
		sl, ok := sig.Recv().Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		et := sl.Elem()
		if o.side(st.clone(), mkSym("probe", "", et, nil, nil), et) == nil {
			return
		}
		switch {
		case fn.Name() == "Sort" && len(params) == 1:
			o.sorts(st, fn, params)
		case fn.Name() == "Len" && len(params) == 1:
			ex := o.it.evalFn(st, fn, params)
			ok := len(ex) > 0
			for _, e := range ex {
				ok = ok && len(e.res) == 1 && e.st.same(toLin(e.res[0]), toLin(mkLen(params[0])))
			}
			o.item("len", fn, ok, "the length of the list is not the number of its elements")
		case len(params) == 3 && isInt(params[1].typ) && isInt(params[2].typ):
			st := st.clone()
			for _, p := range params[1:] {
				st.lin.add(linTerm(p).neg())
				st.lin.add(linTerm(p).plus(1).sub(toLin(mkLen(params[0]))))
			}
			at := func(i *Term) *Term { return st.load(o.it.elemAddr(st, params[0], i, et), et) }
			if fn.Name() == "Less" {
				o.compare(st, fn, params, at(params[1]), at(params[2]), et, true)
			} else if fn.Name() == "Swap" {
				o.swap(st, fn, params, at(params[1]), at(params[2]), et)
			}
		}
	}
	r.finish = func() {
		r.floor("order", 27+27+3)
		r.floor("swap", 2)
		r.floor("len", 2)
		r.floor("sorts", 1)
	}
	return []*Hooks{h}
}

func (o *orderer) item(rule string, fn *ssa.Function, ok bool, format string, args ...any) {
	o.r.item(rule, fn.String()+fmt.Sprintf(format, args...), ok, func() Finding {
		x := o.r.at(nil, format, args...)
		x.Fn, x.Pos = shortName(fn.String()), o.it.prog.fset.Position(fn.Pos()).String()
		return x
	})
}

func (o *orderer) compare(st0 *State, fn *ssa.Function, params []*Term, x, y *Term, t types.Type, less bool) {
	st0 = st0.clone()
	xs, ys := o.side(st0, x, t), o.side(st0, y, t)
	if xs == nil || ys == nil {
		return
	}
	n := 1
	for range xs {
		n *= 3
	}
	sign := map[int]string{-1: "lower", 0: "equal", 1: "higher"}
	for k := 0; k < n; k++ {
		st := st0.clone()
		out := make([]int, len(xs))
		want := 0
		label := ""
		for i, d := 0, k; i < len(xs); i, d = i+1, d/3 {
			out[i] = d%3 - 1
			if want == 0 {
				want = out[i]
			}
			if out[i] != 0 {
				// strings that compare differently are different
				st.assume(mkEq(xs[i], ys[i]), false)
			}
			name := "string"
			if len(xs) > 1 {
				name = strings.ToLower(identityFields[i])
			}
			if label != "" {
				label += ", "
			}
			label += name + " " + sign[out[i]]
		}
		if want != 0 && x.typ != nil {
			st.truth[mkEq(x, y)] = false
		}
		h := &Hooks{}
		foreign := ""
		h.stub = func(st *State, c *CallInfo) []*Term {
			if c.fn != o.cmp {
				return nil
			}
			for i := range xs {
				switch {
				case sameShape(c.args[0], xs[i]) && sameShape(c.args[1], ys[i]):
					return []*Term{mkInt(int64(out[i]))}
				case sameShape(c.args[0], ys[i]) && sameShape(c.args[1], xs[i]):
					return []*Term{mkInt(int64(-out[i]))}
				}
			}
			if sameShape(c.args[0], c.args[1]) {
				return []*Term{mkInt(0)}
			}
			foreign = fmt.Sprintf("%s with %s", c.args[0], c.args[1])
			return nil
		}
		ex := o.it.evalWith([]*Hooks{h}, st, fn, params)
		ok, what := len(ex) > 0, "nothing"
		for _, e := range ex {
			var got int
			known := false
			if less {
				if v, k := e.st.decide(e.res[0]); k {
					known = true
					if v {
						got = -1
					}
				}
			} else if c := e.st.constOf(e.res[0]); c != nil {
				v, _ := c.intVal()
				known = v >= -1 && v <= 1
				got = int(v)
			}
			switch {
			case !known:
				ok, what = false, "something that does not follow from comparing them"
			case less && (got == -1) != (want == -1), !less && got != want:
				ok, what = false, sign[got]
				if less {
					what = map[int]string{-1: "before", 0: "not before"}[got]
				}
			}
		}
		if foreign != "" {
			what += " (it compares " + foreign + ")"
		}
		o.r.item("order", fn.String()+label, ok, func() Finding {
			f := o.r.at(nil, "when the first operand's %s, the result is %s", label, what)
			f.Fn, f.Pos = shortName(fn.String()), o.it.prog.fset.Position(fn.Pos()).String()
			return f
		})
	}
}

// swap: on every path the stores are exactly those of the two elements' old values at each other's place.
func (o *orderer) swap(st *State, fn *ssa.Function, params []*Term, x, y *Term, et types.Type) {
	ax, ay := o.it.elemAddr(st, params[0], params[1], et), o.it.elemAddr(st, params[0], params[2], et)
	if p, ok := st.decide(mkEq(params[1], params[2])); ok && p {
		return
	}
	bad := ""
	h := &Hooks{}
	h.store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if isAlloc(addrRoot(addr)) {
			return
		}
		switch {
		case sameShape(addr, ax) && sameShape(val, y):
			st.truth[fact("swapped", "x")] = true
		case sameShape(addr, ay) && sameShape(val, x):
			st.truth[fact("swapped", "y")] = true
		default:
			bad = fmt.Sprintf("it stores %s at %s", val, addr)
		}
	}
	h.call = func(st *State, c *CallInfo) { bad = "it calls " + c.name }
	// exchanging an element with itself changes nothing
	st = st.clone()
	st.assume(mkEq(params[1], params[2]), false)
	ex := o.it.evalWith([]*Hooks{h}, st, fn, params)
	ok := len(ex) > 0 && bad == ""
	for _, e := range ex {
		ok = ok && e.st.hasFact(fact("swapped", "x")) && e.st.hasFact(fact("swapped", "y"))
	}
	o.r.item("swap", fn.String(), ok, func() Finding {
		f := o.r.at(nil, "the two elements are not exactly exchanged: %s", bad)
		f.Fn, f.Pos = shortName(fn.String()), o.it.prog.fset.Position(fn.Pos()).String()
		return f
	})
}

// sorts: the whole list is handed to a sorting function, in its own order.
func (o *orderer) sorts(st *State, fn *ssa.Function, params []*Term) {
	bad := ""
	h := &Hooks{}
	h.call = func(st *State, c *CallInfo) {
		switch c.name {
		case "sort.Sort", "sort.Stable":
			if a := unface(c.args[0]); a == params[0] {
				st.truth[fact("sorted", "")] = true
			} else {
				bad = fmt.Sprintf("%s is sorted instead", c.args[0])
			}
		case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			if a := unface(c.args[0]); a == params[0] {
				st.truth[fact("sorted", "")] = true
			}
		}
	}
	ex := o.it.evalWith([]*Hooks{h}, st, fn, params)
	ok := len(ex) > 0 && bad == ""
	for _, e := range ex {
		short, known := e.st.decide(mkLe0(toLin(mkLen(params[0])).plus(-1)))
		ok = ok && (e.st.hasFact(fact("sorted", "")) || known && short)
	}
	o.item("sorts", fn, ok, "the list is not always sorted in its own order %s", bad)
}
