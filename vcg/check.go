package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

// hasNonlinear: does the ground problem contain a product of two unknowns?
func hasNonlinear(ts []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OPoly {
			for _, m := range t.poly {
				if len(m.atoms) > 1 {
					return true
				}
				for _, a := range m.atoms {
					if rec(a) {
						return true
					}
				}
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

type attempt struct {
	engine string
	linear bool
	ms     int
}

// solve races the attempts of one stage; any unsat wins.
var deadline time.Time

func pastDeadline() bool { return !deadline.IsZero() && time.Now().After(deadline) }

func (p *Prover) solve(asserts []*Term, stage []attempt) (bool, string, string) {
	if pastDeadline() {
		return false, "", "time budget exhausted"
	}
	nl := hasNonlinear(asserts)
	texts := map[bool]string{}
	get := func(lin bool) string {
		if t, ok := texts[lin]; ok {
			return t
		}
		texts[lin] = smtText(asserts, "", lin)
		return texts[lin]
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		ok   bool
		name string
		v    string
	}
	ch := make(chan res, len(stage))
	n := 0
	for _, a := range stage {
		a := a
		if a.linear && !nl {
			a.linear = false
		}
		q := get(a.linear)
		h := fmt.Sprintf("%s/%x", a.engine, sha256.Sum256([]byte(q)))
		p.mu.Lock()
		r, hit := p.cache[h]
		p.mu.Unlock()
		if hit && (r.ok || r.ms >= a.ms) {
			if r.ok {
				return true, a.engine, "unsat"
			}
			continue
		}
		n++
		go func() {
			v, _ := runSolver(ctx, a.engine, q, a.ms)
			ok := v == "unsat"
			if v != "cancelled" && ctx.Err() == nil {
				p.mu.Lock()
				p.cache[h] = &Result{ok: ok, engine: a.engine, verdict: v, ms: a.ms}
				p.mu.Unlock()
			}
			ch <- res{ok, a.engine, v}
		}()
	}
	last := "unknown"
	for i := 0; i < n; i++ {
		r := <-ch
		if r.ok {
			bump(r.name)
			return true, r.name, r.v
		}
		if r.v == "sat" {
			last = "sat"
		}
	}
	return false, "", last
}

func trivial(hyps []*Term, goal *Term) bool {
	if goal.op == OTrue {
		return true
	}
	for _, h := range hyps {
		if h == goal || h.op == OFalse {
			return true
		}
	}
	return false
}

// CheckAll decides, for each goal, whether hyps |= goal (quickly; used for Houdini).
func (p *Prover) CheckAll(base []*Term, goals []*Term, extra []*Term, ms int) []bool {
	return p.checkAll(base, goals, extra, ms, false, false)
}

func (p *Prover) checkAll(base []*Term, goals []*Term, extra []*Term, ms int, deep, mul bool) []bool {
	out := make([]bool, len(goals))
	set := map[*Term]bool{}
	for _, h := range base {
		set[h] = true
		if h.op == OAnd {
			for _, a := range h.args {
				set[a] = true
			}
		}
	}
	pending := map[int]bool{}
	for i, g := range goals {
		if g.op == OTrue || set[g] {
			out[i] = true
			continue
		}
		if g.op != OFalse {
			pending[i] = true
		}
	}
	nl := func(i int) bool { return hasNonlinear([]*Term{goals[i]}) }
	phases := 2
	if p.effort >= 2 {
		phases = 4
	}
	if mul && p.effort >= 2 {
		phases = 6
	}
	at := []attempt{{"z3-new", true, ms}}
	sem := make(chan struct{}, 2*runtime.NumCPU())
	// prove solves a batch of problems (one per index) in parallel.
	prove := func(batch map[int][]*Term) map[int]bool {
		res := map[int]bool{}
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i, as := range batch {
			i, as := i, as
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				ok, _, v := p.solve(as, at)
				if !ok && dumpDir != "" {
					os.WriteFile(fmt.Sprintf("%s/cand%d.%d.smt2", dumpDir, len(p.cache), i), []byte("; "+v+" "+goals[i].String()+"\n"+smtText(as, "", false)), 0o644)
				}
				mu.Lock()
				res[i] = ok
				mu.Unlock()
			}()
		}
		wg.Wait()
		return res
	}
	for phase := 0; phase < phases; phase++ {
		rounds, gens := 2, 1
		if deep {
			rounds, gens = 3, 2
			at = []attempt{{"z3-new", true, ms}, {"z3-new", false, ms}}
		}
		if phase >= 2 {
			rounds, gens = 3, 2
			at = []attempt{{"z3-new", true, ms}, {"z3-new", false, ms}}
		}
		hypsOf := func(i int) []*Term {
			if extra != nil {
				return append(base[:len(base):len(base)], extra[i])
			}
			return base
		}
		var order []int
		for i := range goals {
			if pending[i] {
				order = append(order, i)
			}
		}
		if phase%2 == 0 {
			batch := map[int][]*Term{}
			for _, i := range order {
				gp := p.buildGround(hypsOf(i), goals[i], rounds, gens, phase >= 4)
				if gp.contradiction() {
					out[i] = true
					delete(pending, i)
					continue
				}
				batch[i] = gp.asserts
			}
			for i, ok := range prove(batch) {
				if ok {
					out[i] = true
					delete(pending, i)
				}
			}
			continue
		}
		// case splits: one case of every remaining goal per round
		todo := map[int][]vcase{}
		for _, i := range order {
			if !nl(i) {
				continue
			}
			if cs := p.cases(hypsOf(i), goals[i], 12); len(cs) > 0 {
				todo[i] = cs
			} else if cs != nil {
				out[i] = true
				delete(pending, i)
			}
		}
		cur := map[int]vcase{}
		for len(todo) > 0 {
			batch := map[int][]*Term{}
			for _, i := range order {
				for len(todo[i]) > 0 {
					cs := todo[i][0]
					todo[i] = todo[i][1:]
					gp := p.buildGroundL(cs.hyps, cs.goal, rounds, gens, phase >= 4, cs.lits)
					if !gp.contradiction() {
						batch[i] = gp.asserts
						cur[i] = cs
						break
					}
				}
			}
			res := prove(batch)
			for _, i := range order {
				cs, live := todo[i]
				if !live {
					continue
				}
				ok, tried := res[i]
				if tried && !ok {
					if phase >= 3 {
						if sub := p.unfoldedCases(cur[i], 12); sub != nil {
							todo[i] = append(sub, cs...)
							if len(todo[i]) > 0 {
								continue
							}
							ok = true
						}
					}
				}
				if tried && !ok {
					delete(todo, i)
				} else if len(todo[i]) == 0 {
					out[i] = true
					delete(pending, i)
					delete(todo, i)
				}
			}
		}
	}
	if p.effort < 2 {
		p.dropped += len(pending)
	}
	return out
}


func (g *groundProblem) contradiction() bool {
	for _, a := range g.asserts {
		if a.op == OFalse {
			return true
		}
	}
	return false
}

// splitGoal breaks conjunctive goals into separate ones.
func splitGoal(c *TC, g *Term) []*Term {
	if g.op == OAnd {
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(c, a)...)
		}
		return out
	}
	if g.op == OOr {
		for i, a := range g.args {
			if a.op == OAnd {
				var rest []*Term
				rest = append(rest, g.args[:i]...)
				rest = append(rest, g.args[i+1:]...)
				var out []*Term
				for _, b := range a.args {
					out = append(out, splitGoal(c, c.Or(append([]*Term{b}, rest...)...))...)
				}
				return out
			}
		}
	}
	return []*Term{g}
}

var budgetScale = 1.0

// Discharge decides one obligation.
func (p *Prover) Discharge(o *Obligation) {
	if o.status == "proved" {
		return
	}
	t0 := time.Now()
	engines := map[string]bool{}
	for _, g := range splitGoal(p.c, o.goal) {
		ok, eng := p.dischargeOne(o, g)
		if !ok {
			o.status = "failed"
			o.secs = time.Since(t0).Seconds()
			return
		}
		engines[eng] = true
	}
	o.status = "proved"
	o.engine = strings.Join(sortedKeys(engines), "+")
	o.secs = time.Since(t0).Seconds()
}

func (p *Prover) dischargeOne(o *Obligation, g *Term) (bool, string) {
	if trivial(o.hyps, g) {
		return true, "simplifier"
	}
	sc := func(ms int) int { return int(float64(ms) * budgetScale) }
	type stage struct {
		rounds, gens int
		mul bool
		at           []attempt
	}
	stages := []stage{
		{3, 2, false, []attempt{{"z3-new", true, sc(2500)}}},
		{4, 2, true, []attempt{{"z3-new", false, sc(6000)}, {"cvc5", true, sc(6000)}}},
		{5, 3, false, []attempt{{"z3-new", true, sc(10000)}, {"z3-new", false, sc(20000)}, {"z3", false, sc(20000)}, {"cvc5", false, sc(20000)}}},
		{7, 4, true, []attempt{{"z3-new", true, sc(20000)}, {"z3-new", false, sc(20000)}, {"cvc5", true, sc(20000)}}},
	}
	for si, st := range stages {
		gp := p.buildGround(o.hyps, g, st.rounds, st.gens, st.mul)
		if gp.contradiction() {
			return true, "simplifier"
		}
		ok, eng, v := p.solve(gp.asserts, st.at)
		if ok {
			return true, eng
		}
		if si < 2 {
			if css := p.cases(o.hyps, g, 24); css != nil {
				eng := map[string]bool{}
				ok := true
				for len(css) > 0 {
					cs := css[0]
					css = css[1:]
					gp := p.buildGroundL(cs.hyps, cs.goal, st.rounds, st.gens, st.mul, cs.lits)
					if gp.contradiction() {
						continue
					}
					ok1, e, _ := p.solve(gp.asserts, st.at)
					if !ok1 {
						if p.effort >= 2 {
							if sub := p.unfoldedCases(cs, 24); sub != nil {
								css = append(sub, css...)
								continue
							}
						}
						ok = false
						break
					}
					eng[e] = true
				}
				if ok {
					if len(eng) == 0 {
						eng["simplifier"] = true
					}
					return true, strings.Join(sortedKeys(eng), "+")
				}
			}
		}
		o.verdict = v
		if si == len(stages)-1 || si == 0 {
			o.query = smtText(gp.asserts, "", false)
			o.failGoal = g
		}
		if dumpDir != "" {
			os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", dumpDir, sanitize(o.pos+"."+o.kind+"."+o.name), si), []byte(o.query), 0o644)
		}
		if maxStage > 0 && si+1 >= maxStage || p.effort < 2 && p.dropped > 0 && si == 1 {
			break
		}
	}
	return false, ""
}

var dumpDir = os.Getenv("VCG_DUMP")
var maxStage = 0

