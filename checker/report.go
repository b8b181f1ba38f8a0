package main

// Deciding one property: every configuration is analysed in its own process, the findings are merged,
// compared with the known findings and reported.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Rule string `json:"rule"`
	Fn   string `json:"function"`
	Pos  string `json:"pos"`
	Msg  string `json:"message"`
	Via  string `json:"via,omitempty"` // entry points
}

func (f Finding) key() string { return f.Rule + " " + f.Fn + ": " + f.Msg }

type Report struct {
	Cfg       string         `json:"cfg"`
	Findings  []Finding      `json:"findings"`
	Obls      map[string]int `json:"obligations"`
	Ok        map[string]int `json:"discharged"`
	Functions int            `json:"functions"`
	Roots     int            `json:"entry_points"`
	Blocks    int            `json:"blocks"`
	CallSites int            `json:"external_call_sites"`
	Rounds    int            `json:"rounds"`
	Unreached []string       `json:"unreached"`
	Problems  []string       `json:"undecided"`
	API       []string       `json:"api,omitempty"`
	Items     []string       `json:"items"` // what was checked, in words
	prog      *Program
	it        *Interp
	prop      string
	seen      map[string]bool
	oblSeen   map[string]bool
	oblFail   map[string]bool
	finish    func() // set by hooks: what is decided once everything was interpreted
}

// floor: a rule that found much less to check than there must be has not understood the source.
func (r *Report) floor(rule string, n int) {
	if r.Obls[rule] < n {
		r.add(Finding{Rule: rule, Msg: fmt.Sprintf("only %d obligations found, at least %d expected: the construct this rule is about was not recognised", r.Obls[rule], n)})
	}
}

func newReport(p *Program, prop string) *Report {
	return &Report{Cfg: p.cfg.name, prog: p, prop: prop, Obls: map[string]int{}, Ok: map[string]int{}, seen: map[string]bool{},
		oblSeen: map[string]bool{}, oblFail: map[string]bool{}}
}

// item records one obligation of a rule, identified by key; a failing one becomes a finding.
func (r *Report) item(rule, key string, ok bool, f func() Finding) {
	if r.it != nil && r.it.unstable > 0 {
		return // the loop is gone through again once its state is stable
	}
	k := rule + "|" + key
	if !r.oblSeen[k] {
		r.oblSeen[k] = true
		r.Obls[rule]++
		r.Ok[rule]++
		if len(r.Items) < 400 {
			r.Items = append(r.Items, rule+": "+key)
		}
	}
	if !ok {
		if !r.oblFail[k] {
			r.oblFail[k] = true
			r.Ok[rule]--
		}
		x := f()
		x.Rule = rule
		r.add(x)
	}
}

func (r *Report) add(x Finding) {
	if r.it != nil && r.it.root != nil && x.Via == "" {
		x.Via = r.it.root.String()
	}
	k := x.key() + x.Pos
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, x)
}

// at makes a finding for an instruction.
func (r *Report) at(in ssa.Instruction, format string, args ...any) Finding {
	f := Finding{Msg: clean(fmt.Sprintf(format, args...))}
	if in != nil {
		f.Pos = r.prog.pos(in)
		f.Fn = shortName(in.Parent().String())
	}
	return f
}

func clean(s string) string {
	// symbol numbers differ between runs and configurations
	var sb strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "·") {
			i += len("·")
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				i++
			}
			continue
		}
		sb.WriteByte(s[i])
		i++
	}
	r := sb.String()
	if len(r) > 400 {
		r = r[:400] + "…"
	}
	return r
}

func shortName(s string) string { return strings.ReplaceAll(s, modulePath, "rpmutils") }

// Rule decides one property.
type Rule struct {
	kinds  []string // panic obligations that count
	roots  func(root string) bool
	hooks  func(it *Interp, r *Report) []*Hooks
	static func(p *Program, r *Report)              // needs no interpretation
	final  func(p *Program, a *Analysis, r *Report) // after the interpretation
	merge  func(rs []*Report) []Finding             // across configurations
	what   string                                   // the rule in words
	assume []string
	noRun  bool                   // static only
	strict bool                   // undecided constructs are findings
	focus  func(root string) bool // entry points to which the hooks apply (nil: all)
	calm   bool                   // readers and writers supplied by the caller do not call back into the objects using them
}

var rules = map[string]*Rule{}

func childReport(cfg Config, prop string) *Report {
	p, err := load(*flagRepo, cfg)
	if err != nil {
		return &Report{Cfg: cfg.name, Findings: []Finding{{Rule: "load", Msg: clean("the source does not type-check: " + err.Error())}}}
	}
	rule := rules[prop]
	r := newReport(p, prop)
	r.Functions = len(p.fns)
	r.Problems = append(r.Problems, p.evalInits()...)
	if rule.static != nil {
		rule.static(p, r)
	}
	if !rule.noRun {
		var mk func(it *Interp) []*Hooks
		if rule.hooks != nil {
			mk = func(it *Interp) []*Hooks {
				r.Findings, r.seen, r.oblSeen, r.oblFail = nil, map[string]bool{}, map[string]bool{}, map[string]bool{}
				r.Obls, r.Ok, r.Items = map[string]int{}, map[string]int{}, nil
				r.it = it
				if rule.static != nil {
					rule.static(p, r)
				}
				return rule.hooks(it, r)
			}
		}
		a := analyse(p, mk, "", rule)
		r.it = nil
		r.Rounds = a.rounds
		r.Roots = len(a.exits)
		for fn := range a.it.covered {
			for _, b := range fn.Blocks {
				if a.it.blocks[b] {
					r.Blocks++
				} else if len(b.Instrs) > 0 && b.Comment != "recover" {
					r.Unreached = append(r.Unreached, p.pos(b.Instrs[len(b.Instrs)-1])+" in "+shortName(fn.String()))
				}
			}
		}
		sort.Strings(r.Unreached)
		r.CallSites = len(a.it.callsSeen)
		for _, k := range sortedKeys(a.it.problems) {
			r.Problems = append(r.Problems, a.it.problems[k])
		}
		kinds := map[string]bool{}
		for _, k := range rule.kinds {
			kinds[k] = true
		}
		if len(kinds) > 0 {
			var ks []string
			for k := range a.it.obls {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				o := a.it.obls[k]
				if !kinds[o.kind] {
					continue
				}
				rel := rule.roots == nil
				var via []string
				for root := range o.seen {
					if rule.roots == nil || rule.roots(root) {
						rel = true
					}
				}
				for root := range o.roots {
					if rule.roots == nil || rule.roots(root) {
						via = append(via, shortName(root))
					}
				}
				if !rel {
					continue
				}
				sort.Strings(via)
				r.item(o.kind, k, len(via) == 0, func() Finding {
					f := r.at(o.instr, "%s", o.detail)
					f.Via = strings.Join(via, ", ")
					return f
				})
			}
		}
		if r.finish != nil {
			r.finish()
		}
		if rule.final != nil {
			rule.final(p, a, r)
		}
	}
	if rule.strict {
		for _, m := range r.Problems {
			r.add(Finding{Rule: "undecided", Msg: clean(m)})
		}
	}
	return r
}

func childMain() int {
	for _, cfg := range allConfigs() {
		if cfg.name == *flagCfg {
			r := childReport(cfg, *flagProp)
			json.NewEncoder(os.Stdout).Encode(r)
			return 0
		}
	}
	return 2
}

func allConfigs() []Config { return append(append([]Config(nil), configs...), moreConfigs...) }

func checkMain() int {
	t0 := time.Now()
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" || *flagTier == "thorough" {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rule := rules[*flagProp]
	if rule == nil {
		fmt.Fprintln(os.Stderr, "no check for property", *flagProp)
		return 2
	}
	cfgs := configs
	if tier == "thorough" {
		cfgs = allConfigs()
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	reps := make([]*Report, len(cfgs))
	errs := make([]error, len(cfgs))
	var wg sync.WaitGroup
	sem := make(chan bool, 3)
	for i, c := range cfgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(self, "-child", "-cfg", c.name, "-prop", *flagProp, "-repo", *flagRepo)
			cmd.Stderr = os.Stderr
			out, err := cmd.Output()
			if err != nil {
				errs[i] = fmt.Errorf("%s: %v", c.name, err)
				return
			}
			reps[i] = &Report{}
			errs[i] = json.Unmarshal(out, reps[i])
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			fmt.Fprintln(os.Stderr, "analyser failed:", err)
			return 2
		}
	}
	type merged struct {
		Finding
		Cfgs []string `json:"configurations"`
	}
	var order []string
	all := map[string]*merged{}
	note := func(f Finding, cfg string) {
		k := f.key() + f.Pos
		if all[k] == nil {
			all[k] = &merged{Finding: f}
			order = append(order, k)
		}
		all[k].Cfgs = append(all[k].Cfgs, cfg)
	}
	for _, r := range reps {
		for _, f := range r.Findings {
			note(f, r.Cfg)
		}
	}
	if rule.merge != nil {
		for _, f := range rule.merge(reps) {
			note(f, "all")
		}
	}
	known := knownFindings(*flagProp)
	var viol, knownHit []*merged
	for _, k := range order {
		if m := all[k]; known[m.key()] {
			knownHit = append(knownHit, m)
		} else {
			viol = append(viol, m)
		}
	}
	// evidence
	obl, ok := 0, 0
	perRule := map[string]string{}
	cov := map[string]any{}
	var cfgInfo []map[string]any
	for _, r := range reps {
		for k, n := range r.Obls {
			obl += n
			ok += r.Ok[k]
			perRule[r.Cfg+" "+k] = fmt.Sprintf("%d of %d", r.Ok[k], n)
		}
		cfgInfo = append(cfgInfo, map[string]any{"configuration": r.Cfg, "functions": r.Functions, "entry_points": r.Roots, "blocks_analysed": r.Blocks,
			"external_call_sites": r.CallSites, "rounds": r.Rounds, "unreachable_code": r.Unreached, "undecided": r.Problems})
	}
	cov["obligations"] = obl
	cov["discharged"] = ok
	cov["explanation"] = rule.what
	cov["exhaustive"] = true
	cov["checker_cmd"] = "bash /verif/run.sh " + *flagProp + " " + tier
	cov["trusted_base"] = []string{"go/types and golang.org/x/tools/go/ssa", "the analyser in /verif/checker with its models of external functions (models.go)"}
	cov["per_rule"] = perRule
	cov["configurations"] = cfgInfo
	if len(reps) > 0 {
		items := reps[0].Items
		for i := range items {
			items[i] = clean(shortName(items[i]))
		}
		cov["items"] = items
	}
	ev := map[string]any{"property": *flagProp, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append(append([]string(nil), commonAssumptions...), rule.assume...), "wall_s": time.Since(t0).Seconds()}
	var vs []string
	for _, m := range viol {
		vs = append(vs, m.Pos+" "+m.Fn+": "+m.Msg)
	}
	if vs == nil {
		vs = []string{}
	}
	dir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(dir, 0755)
	replay := filepath.Join(dir, *flagProp+".violations.json")
	os.Remove(replay)
	ev["violations"] = len(vs)
	cov["violation_list"] = vs
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, *flagProp+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, m := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s %s\n", *flagProp, m.Pos, m.Fn, m.Msg)
	}
	if len(viol) == 0 {
		fmt.Printf("%s: held; %d obligations in %d configurations, %.1fs\n", *flagProp, obl, len(reps), time.Since(t0).Seconds())
		return 0
	}
	b, _ = json.MarshalIndent(map[string]any{"property": *flagProp, "rerun": "bash /verif/run.sh " + *flagProp, "violations": viol}, "", " ")
	os.WriteFile(replay, append(b, '\n'), 0644)
	for i, m := range viol {
		if i >= 20 {
			fmt.Printf("  … and %d more\n", len(viol)-i)
			break
		}
		fmt.Printf("  [%s] %s %s: %s (%s)", m.Rule, m.Pos, m.Fn, m.Msg, strings.Join(m.Cfgs, ","))
		if m.Via != "" {
			fmt.Printf(" via %s", shortName(m.Via))
		}
		fmt.Println()
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, replay)
	return 1
}

// knownFindings reads the committed list; lines "finding: property=<id> key=<finding key>".
func knownFindings(prop string) map[string]bool {
	r := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(*flagVerif, "known_findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + prop + " key="
		if strings.HasPrefix(l, p) {
			r[strings.TrimSpace(strings.TrimPrefix(l, p))] = true
		}
	}
	return r
}

var commonAssumptions = []string{
	"int is 64 bits wide",
	"callers pass non-nil interface, pointer and function arguments and slices without nil elements (signature options may be nil); every entity of a key ring has a primary key",
	"no slice or string is longer than 2^40 and no byte counter exceeds 2^58",
	"functions of other packages behave as documented (models.go lists what is relied on)",
}

var moreConfigs = []Config{
	{"darwin-nocgo", []string{"GOOS=darwin", "GOARCH=amd64", "CGO_ENABLED=0"}},
	{"linux-arm64-nocgo", []string{"GOOS=linux", "GOARCH=arm64", "CGO_ENABLED=0"}},
}
