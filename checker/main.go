package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagRepo  = flag.String("repo", "/repo", "source tree to analyse")
	flagProp  = flag.String("prop", "", "property to decide")
	flagVerif = flag.String("verif", "/verif", "directory of the checks")
	flagDebug = flag.String("debug", "", "debug mode: obls, roots")
	flagRoot  = flag.String("root", "", "debug: only roots containing this")
	flagChild = flag.Bool("child", false, "analyse one configuration (internal)")
	flagTier  = flag.String("tier", "quick", "quick or thorough")
	flagCfg   = flag.String("cfg", "", "debug: only this configuration")
)

func main() {
	flag.Parse()
	if *flagDebug != "" {
		debugMain()
		return
	}
	if *flagChild {
		os.Exit(childMain())
	}
	os.Exit(checkMain())
}

func debugMain() {
	for _, cfg := range configs {
		if *flagCfg != "" && cfg.name != *flagCfg {
			continue
		}
		t0 := time.Now()
		p, err := load(*flagRepo, cfg)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		fmt.Println(cfg.name, "loaded", time.Since(t0), len(p.fns), "functions")
		for _, m := range p.evalInits() {
			fmt.Println("init problem:", m)
		}
		if *flagDebug == "inits" {
			for k, t := range p.gmaps {
				fmt.Println(k, len(t.keys), t.keys, t.vals)
			}
			for g, v := range p.gvals {
				fmt.Println(g, v)
			}
			return
		}
		if pf := os.Getenv("PROF"); pf != "" {
			stop := startProf(pf)
			go func() { time.Sleep(25 * time.Second); stop(); os.Exit(0) }()
		}
		a := analyse(p, nil, *flagRoot, nil)
		fmt.Println("analysis", time.Since(t0), "rounds", a.rounds)
		if *flagDebug != "inv" && *flagDebug != "cov" {
			a.printObls(os.Stdout)
		}
		for _, k := range sortedKeys(a.it.problems) {
			fmt.Println("PROBLEM", a.it.problems[k])
		}
		if *flagDebug == "cov" {
			for fn := range a.it.covered {
				for _, b := range fn.Blocks {
					if !a.it.blocks[b] && len(b.Instrs) > 0 && b.Comment != "recover" {
						fmt.Println("UNREACHED", p.posStr(fn.Pos()), fn.Name(), b.Index, b.Comment, p.pos(b.Instrs[len(b.Instrs)-1]), p.pos(b.Instrs[0]))
					}
				}
			}
			for _, fn := range p.fns {
				if !a.it.covered[fn] {
					fmt.Println("NOTCOVERED", fn)
				}
			}
		}
		if *flagDebug == "inv" {
			for _, f := range sortedKeys(a.it.inv.why) {
				fmt.Println("INV", f, a.it.inv.why[f])
			}
			for _, f := range sortedKeys(a.it.inv.dynOpen) {
				fmt.Println("DYNOPEN", f)
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Analysis is one complete interpretation of the module in one configuration.
type Analysis struct {
	p      *Program
	it     *Interp
	rounds int
	times  map[string]time.Duration
	exits  map[string]int
}

// analyse interprets every root until the field invariants are stable; the rules' hooks see only the
// last round.
func analyse(p *Program, rules func(it *Interp) []*Hooks, only string, rule *Rule) *Analysis {
	if rule == nil {
		rule = &Rule{}
	}
	focused := rule.focus != nil || rule.calm
	last := false
	inv := newInvariants()
	roots := p.roots()
	a := &Analysis{p: p}
	for round := 0; ; round++ {
		inv.changed = false
		inv.stores = map[string]int{}
		for k, v := range inv.prevStores {
			inv.stores[k] = v
		}
		it := newInterp(p, inv)
		it.calm = last && rule.calm
		if rules != nil && (!focused || last) {
			it.hooks = rules(it)
		}
		a.it = it
		a.times = map[string]time.Duration{}
		a.exits = map[string]int{}
		for _, r := range roots {
			if only != "" && !strings.Contains(r.String(), only) {
				continue
			}
			if last && rule.focus != nil && !rule.focus(shortName(r.String())) {
				continue
			}
			t0 := time.Now()
			ex := it.safeRoot(r)
			a.exits[r.String()] = len(ex)
			a.times[r.String()] = time.Since(t0)
			if *flagDebug == "roots" {
				fmt.Println(round, r, len(ex), it.steps, time.Since(t0))
			}
		}
		a.rounds = round + 1
		first := inv.prevStores == nil
		inv.prevStores = inv.stores
		if last {
			return a
		}
		if !inv.changed && !first {
			if focused {
				last = true
				continue
			}
			return a
		}
		if round > 12 {
			it.problem("invariants", "field invariants did not stabilise")
			return a
		}
	}
}

// safeRoot: a construct the analyser cannot cope with is reported as undecided.
func (it *Interp) safeRoot(fn *ssa.Function) (ex []*Exit) {
	defer func() {
		if e := recover(); e != nil {
			if *flagDebug != "" {
				panic(e)
			}
			it.problem("crash:"+fn.String(), fmt.Sprintf("the analysis of %s failed: %v", fn, e))
		}
	}()
	return it.analyseRoot(fn)
}

func (a *Analysis) printObls(w *os.File) {
	var ks []string
	tot := map[string]int{}
	bad := map[string]int{}
	for k, o := range a.it.obls {
		tot[o.kind]++
		if !o.ok {
			bad[o.kind]++
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := a.it.obls[k]
		fmt.Fprintf(w, "FAIL %-6s %s %s: %s\n", o.kind, a.p.pos(o.instr), shortFn(o.fn.String()), o.detail)
	}
	for _, k := range sortedKeys(tot) {
		fmt.Fprintf(w, "%s %d/%d ok\n", k, tot[k]-bad[k], tot[k])
	}
}

func shortFn(s string) string { return strings.ReplaceAll(s, modulePath, "rpmutils") }
