package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// verifDir is where contracts, evidence and findings live.
var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

type finding struct {
	prop, contract, what string
}

// knownFindings reads "known: property=<id> contract=<name> :: <what fails>".
func knownFindings() []finding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, what, _ := strings.Cut(strings.TrimPrefix(l, "known: "), "::")
		f := finding{what: strings.TrimSpace(what)}
		for _, w := range strings.Fields(head) {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				f.prop = v
			case "contract":
				f.contract = v
			}
		}
		out = append(out, f)
	}
	return out
}

func (w *World) runTasks(cts []*Contract, par int, done map[*Contract]*Task) []*Task {
	var ts []*Task
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, c := range cts {
		if done[c] != nil {
			continue
		}
		t := &Task{w: w, contract: c}
		done[c] = t
		ts = append(ts, t)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			t.Run()
			<-sem
			mu.Lock()
			defer mu.Unlock()
			if os.Getenv("VCG_QUIET") == "" {
				printTask(t, false, false)
			}
		}()
	}
	wg.Wait()
	return ts
}

// bounded: the contract is tested, not proved.
func (c *Contract) bounded() bool {
	_, ok := c.flags["bounded"]
	return ok
}

func (t *Task) bad() bool {
	if t.err != "" || t.vacuous {
		return true
	}
	for _, o := range t.obls {
		if o.status != "proved" {
			return true
		}
	}
	return len(t.obls) == 0
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	par := fs.Int("j", 6, "")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	t0 := time.Now()
	os.Exit(checkProp(*prop, *tier, seed, *par, t0))
}

func writeJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func checkProp(prop, tier string, seed int64, par int, t0 time.Time) int {
	evFile := filepath.Join(verifDir, "evidence", prop+".json")
	repFile := filepath.Join(verifDir, "evidence", prop+".replay.json")
	os.Remove(repFile)
	maxStage = 3
	deadline = t0.Add(560 * time.Second)
	replayN, budget := 4000, 12*time.Second
	if tier == "thorough" {
		maxStage = 0
		budgetScale = 3
		deadline = t0.Add(700 * time.Second)
		replayN, budget = 40000, 60*time.Second
	}
	type replayDoc struct {
		Property string           `json:"property"`
		Problems []string         `json:"problems"`
		Failed   []map[string]any `json:"failed_obligations"`
		Inputs   []*Failure       `json:"failing_inputs"`
		Searched map[string]int   `json:"inputs_tried_per_contract,omitempty"`
		Note     string           `json:"note"`
	}
	doc := replayDoc{Property: prop, Note: "failed obligations of the deductive verifier; failing_inputs were executed against the real code of the current tree"}
	w, err := loadWorld(filepath.Join(verifDir, "contracts"))
	if err != nil {
		fmt.Println("cannot load the code with its contracts:", err)
		doc.Problems = append(doc.Problems, "cannot load the code with its contracts: "+err.Error())
		writeJSON(repFile, doc)
		writeJSON(evFile, map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof",
			"coverage": map[string]any{"obligations": 0, "discharged": 0, "checker_cmd": "vcg check", "trusted_base": []string{"none"}, "explanation": err.Error()},
			"wall_s":   time.Since(t0).Seconds(), "violations": 1})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, repFile)
		return 1
	}
	var own []*Contract
	bounded := map[*Contract]bool{}
	for _, c := range w.all {
		if contains(c.props, prop) {
			if c.bounded() {
				bounded[c] = true
				continue
			}
			own = append(own, c)
		}
	}
	sort.Slice(own, func(i, j int) bool { return own[i].name < own[j].name })
	for _, m := range w.missing {
		if contains(m.props, prop) {
			doc.Problems = append(doc.Problems, m.why)
		}
	}
	if len(own)+len(bounded) == 0 && len(doc.Problems) == 0 {
		fmt.Println("no contracts for", prop)
		return 2
	}
	done := map[*Contract]*Task{}
	all := w.runTasks(own, par, done)
	// the contracts relied on by callers are verified too
	for {
		need := map[*Contract]bool{}
		for _, t := range all {
			if t.x == nil {
				continue
			}
			for k := range t.x.usedContracts {
				if c := w.contracts[k]; c != nil && done[c] == nil && !bounded[c] {
					if c.bounded() {
						bounded[c] = true
						continue
					}
					need[c] = true
				}
			}
		}
		if len(need) == 0 {
			break
		}
		var l []*Contract
		for c := range need {
			l = append(l, c)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
		all = append(all, w.runTasks(l, par, done)...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].contract.name < all[j].contract.name })

	// known findings
	known := map[string]finding{}
	for _, f := range knownFindings() {
		if f.prop == prop {
			known[f.contract] = f
		}
	}
	var failing []*Task
	obl, dis, inv := 0, 0, 0
	byEngine := map[string]int{}
	funcs := map[string]bool{}
	notes := map[string]bool{}
	var clist, trusted []string
	for _, t := range all {
		clist = append(clist, t.contract.name)
		if t.x != nil {
			for f := range t.x.funcs {
				funcs[f] = true
			}
			for n := range t.x.notes {
				notes[n] = true
			}
			inv += t.x.invProved
		}
		for _, o := range t.obls {
			obl++
			if o.status == "proved" {
				dis++
				byEngine[o.engine]++
			}
		}
		if t.err != "" {
			obl++
		}
		if t.bad() {
			if f, ok := known[t.contract.name]; ok && t.err == "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, f.contract, f.what)
				continue
			}
			failing = append(failing, t)
		}
	}
	code := 0
	// functions out of reach of the prover: their contracts are executed on generated inputs
	var bl []*Contract
	for c := range bounded {
		bl = append(bl, c)
	}
	sort.Slice(bl, func(i, j int) bool { return bl[i].name < bl[j].name })
	var blist []string
	var bfail []*Failure
	if len(bl) > 0 {
		ro, err := w.replay(bl, seed, 5*replayN, budget)
		if err != nil {
			doc.Problems = append(doc.Problems, err.Error())
			fmt.Println(err)
		} else {
			bfail = ro.Failures
			for _, c := range bl {
				blist = append(blist, fmt.Sprintf("%s: %d generated inputs executed, no proof", c.name, ro.Used[c.name]))
				trusted = append(trusted, "contract of "+c.name+" (assumed by its callers; only tested, on generated inputs)")
			}
		}
	}
	if len(failing) > 0 || len(doc.Problems) > 0 || len(bfail) > 0 {
		code = 1
		var cts []*Contract
		seen := map[*Contract]bool{}
		add := func(c *Contract) {
			if !seen[c] {
				if _, k := known[c.name]; k {
					return
				}
				seen[c] = true
				cts = append(cts, c)
			}
		}
		for _, t := range failing {
			add(t.contract)
			why := t.err
			if t.vacuous {
				why = "the hypotheses of the contract became contradictory: the function cannot return normally"
			}
			if why != "" {
				doc.Failed = append(doc.Failed, map[string]any{"contract": t.contract.name, "obligation": why})
			}
			for _, o := range t.obls {
				if o.status != "proved" {
					e := map[string]any{"contract": t.contract.name, "kind": o.kind, "obligation": o.name, "at": o.pos, "solver_verdict": o.verdict}
					if len(doc.Failed) < 6 && o.failGoal != nil {
						e["goal"] = fmt.Sprintf("%.3000s", o.failGoal)
					}
					doc.Failed = append(doc.Failed, e)
					fmt.Printf("failed obligation: %s [%s] %s: %s\n", t.contract.name, o.kind, o.pos, o.name)
				}
			}
		}
		// contracts that rely on a failing one are executed as well
		for _, t := range all {
			if t.x == nil {
				continue
			}
			for k := range t.x.usedContracts {
				if c := w.contracts[k]; c != nil && seen[c] {
					add(t.contract)
				}
			}
		}
		for _, c := range own {
			if len(doc.Problems) > 0 {
				add(c)
			}
		}
		ro, err := w.replay(cts, seed, replayN, budget)
		suffix := " no-failing-input-found"
		if err != nil {
			doc.Problems = append(doc.Problems, err.Error())
			fmt.Println(err)
		} else {
			doc.Searched = ro.Used
			doc.Inputs = append(bfail, ro.Failures...)
			if len(doc.Inputs) > 0 {
				suffix = ""
				f := doc.Inputs[0]
				fmt.Printf("failing input for %s: %s args=%s\n", f.Contract, f.Reason, strings.Join(f.Args, " "))
			}
		}
		writeJSON(repFile, doc)
		defer fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, repFile, suffix)
	}
	trusted = append(trusted,
		"vcg verification-condition generator (/verif/vcg): SSA semantics, instantiation and simplification rules",
		"golang.org/x/tools/go/ssa v0.52.0 translation of the source to SSA",
		"SMT solvers z3 (z3-new), z3 4.8.12, cvc5 1.1.2: an unsat answer of any one of them is believed",
		"specification functions in /verif/contracts (the statement of what is proved)")
	assumptions := append([]string{"float64 arithmetic is treated as exact real arithmetic (rounding, overflow to Inf and NaN inputs excluded; division by zero is modelled and must be excluded by proof)",
		"int arithmetic is treated as mathematical (no wrap-around)",
		"slice arguments do not alias each other; the program is sequential"}, sortedKeys(notes)...)
	level, explanation := "proof", ""
	if obl == 0 {
		level, explanation = "other", "bounded stand-in, nothing is proved: "+strings.Join(blist, "; ")
		trusted = trusted[:len(trusted)-4]
		assumptions = []string{"only the generated inputs named in bounded_contracts were executed"}
	}
	if clist == nil {
		clist = []string{}
	}
	writeJSON(evFile, map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"obligations": obl, "discharged": dis,
			"explanation":                explanation,
			"loop_invariant_obligations": inv,
			"checker_cmd":                "bash /verif/check.sh " + prop,
			"trusted_base":               trusted,
			"functions_under_contract":   clist,
			"functions_executed":         sortedKeys(funcs),
			"bounded_contracts":          append([]string{}, blist...),
			"obligations_by_engine":      byEngine,
			"solver_queries":             gstats.queries,
			"solver_seconds":             float64(gstats.nanos) / 1e9,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(failing) + len(bfail),
	})
	fmt.Printf("property %s: %d contracts, %d/%d obligations discharged, %d loop-invariant obligations, %.1fs\n", prop, len(all), dis, obl, inv, time.Since(t0).Seconds())
	return code
}

// replayMain executes contracts on generated inputs without proving anything.
func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	n := fs.Int("n", 3000, "")
	seed := fs.Int64("seed", 1, "")
	secs := fs.Int("t", 10, "")
	fs.Parse(args)
	w, err := loadWorld(filepath.Join(verifDir, "contracts"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var cts []*Contract
	for _, c := range w.all {
		if matches(c, fs.Args()) {
			cts = append(cts, c)
		}
	}
	ro, err := w.replay(cts, *seed, *n, time.Duration(*secs)*time.Second)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, f := range ro.Failures {
		fmt.Printf("FAIL %s: %s\n   args %s\n   results %s\n", f.Contract, f.Reason, strings.Join(f.Args, " "), strings.Join(f.Results, " "))
	}
	for _, k := range cts {
		if u := ro.Used[k.name]; u < 200 {
			fmt.Printf("few inputs: %s %d\n", k.name, u)
		}
	}
	fmt.Printf("%d contracts replayed, %d failures\n", len(cts), len(ro.Failures))
}

func matches(c *Contract, names []string) bool {
	for _, a := range names {
		if c.name == a || strings.HasSuffix(c.name, "."+a) || strings.HasPrefix(a, "@") && contains(c.props, a[1:]) || strings.HasPrefix(a, "%") && strings.Contains(c.name, a[1:]) {
			return true
		}
	}
	return false
}
