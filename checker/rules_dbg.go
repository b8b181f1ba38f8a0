package main

import (
	"fmt"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["DBG"] = &Rule{hooks: dbgHooks}
}

func dbgHooks(it *Interp, r *Report) []*Hooks {
	h := &Hooks{}
	h.ret = func(st *State, root *ssa.Function, res []*Term, in *ssa.Return) {
		if shortName(root.String()) != os.Getenv("DBGROOT") {
			return
		}
		fmt.Fprintf(os.Stderr, "=== return %s\n", it.prog.pos(in))
		for i, x := range res {
			fmt.Fprintf(os.Stderr, " res%d %s\n", i, debugVal(st, x))
		}
		var ks []string
		for a, v := range st.mem {
			ks = append(ks, fmt.Sprintf("   %s = %s", a, v))
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintln(os.Stderr, clip(k, 300))
		}
		if os.Getenv("DBGTRUTH") != "" {
			var ts []string
			for t, v := range st.truth {
				ts = append(ts, fmt.Sprintf("   T %v %s", v, t))
			}
			sort.Strings(ts)
			for _, k := range ts {
				fmt.Fprintln(os.Stderr, clip(k, 300))
			}
		}
	}
	return []*Hooks{h}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
