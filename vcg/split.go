package main

// Case splitting on the conditions of conditional values in non-linear goals, so that
// products and reciprocals are over plain polynomials in each case.

type vcase struct {
	hyps []*Term
	goal *Term
	lits map[*Term]*Term // the literals assumed in this case
	unf  bool            // definitions written out
}

// open strips outer quantifiers and moves the simple disjuncts of the goal to the hypotheses.
func (p *Prover) open(hyps []*Term, goal *Term) ([]*Term, *Term) {
	c := p.c
	hyps = hyps[:len(hyps):len(hyps)]
	for i := 0; i < 8; i++ {
		switch goal.op {
		case OForall:
			sk := c.Fresh("sk", goal.bound[0].sort)
			goal = c.Subst(goal.args[0], map[*Term]*Term{goal.bound[0]: sk})
			continue
		case OOr:
			main := goal.args[0]
			score := func(t *Term) int {
				s := 0
				if t.quantInside() {
					s += 1000
				}
				if t.op == OAnd || t.op == OOr {
					s += 10
				}
				if hasNonlinear([]*Term{t}) {
					s += 100
				}
				if (t.op == OEq || t.op == OLe || t.op == OLt) && t.args[0].sort == SReal {
					s += 50
				}
				return s
			}
			for _, a := range goal.args[1:] {
				if score(a) > score(main) {
					main = a
				}
			}
			for _, a := range goal.args {
				if a != main {
					hyps = append(hyps, c.Not(a))
				}
			}
			goal = main
			continue
		}
		break
	}
	return hyps, goal
}

// pickCond prefers conditions over integers: they usually decide the others.
func pickCond(g *Term) *Term {
	var all []*Term
	collectConds(g, map[*Term]bool{}, &all)
	for _, t := range all {
		if len(t.args) > 0 && t.args[0].sort == SInt {
			return t
		}
	}
	if len(all) > 0 {
		return all[0]
	}
	return nil
}

func collectConds(t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] || t.op == OForall || t.op == OLambda {
		return
	}
	seen[t] = true
	if t.op == OIte && t.sort != SBool && !t.args[0].hasBV {
		n := len(*out)
		collectConds(t.args[0], seen, out)
		if len(*out) == n {
			var rec func(cd *Term)
			rec = func(cd *Term) {
				if cd.op == OAnd || cd.op == OOr || cd.op == ONot {
					for _, a := range cd.args {
						rec(a)
					}
					return
				}
				*out = append(*out, cd)
			}
			rec(t.args[0])
		}
	}
	for _, a := range t.args {
		collectConds(a, seen, out)
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			collectConds(a, seen, out)
		}
	}
}

// feasible: quick check that the quantifier-free hypotheses are consistent.
func (p *Prover) feasible(hyps []*Term) bool {
	var qf []*Term
	for _, h := range hyps {
		if !h.quantInside() {
			qf = append(qf, h)
		}
	}
	ok, _, _ := p.solve(qf, []attempt{{"z3-new", true, 300}})
	return !ok
}

// cases enumerates the cases left to show; nil when there are too many.
func (p *Prover) cases(hyps []*Term, goal *Term, limit int) []vcase {
	c := p.c
	hyps, goal = p.open(hyps, goal)
	hyps, goal = p.eliminate(hyps, goal)
	out := []vcase{}
	var rec func(h []*Term, g *Term, depth int, lits []*Term) bool
	rec = func(h []*Term, g *Term, depth int, lits []*Term) bool {
		if g.op == OTrue {
			return true
		}
		for _, x := range h {
			if x.op == OFalse {
				return true
			}
		}
		if g.op == OForall || g.op == OOr {
			h, g = p.open(h, g)
		}
		cd := pickCond(g)
		if cd == nil || depth == 0 {
			m := map[*Term]*Term{}
			for _, l := range lits {
				m[l] = c.True
				m[c.Not(l)] = c.False
			}
			out = append(out, vcase{hyps: h, goal: g, lits: m})
			return len(out) <= limit
		}
		for _, lit := range []*Term{cd, c.Not(cd)} {
			m := map[*Term]*Term{lit: c.True, c.Not(lit): c.False}
			memo := map[*Term]*Term{}
			var h2 []*Term
			bad := false
			for _, x := range h {
				y := c.subst(x, m, memo)
				if y.op == OFalse {
					bad = true
				}
				if y.op != OTrue {
					h2 = append(h2, y)
				}
			}
			if bad {
				continue
			}
			g2 := c.subst(g, m, memo)
			h2 = append(h2, lit)
			h2, g2 = p.eliminate(h2, g2)
			if depth < 8 && !p.feasible(h2) {
				continue
			}
			if !rec(h2, g2, depth-1, append(lits[:len(lits):len(lits)], lit)) {
				return false
			}
		}
		return true
	}
	if !rec(hyps, goal, 9, nil) {
		return nil
	}
	return out
}

// unfoldedCases: the cases of c's goal with the definitions of the
// specification functions written out.
func (p *Prover) unfoldedCases(cs vcase, limit int) []vcase {
	if cs.unf {
		return nil
	}
	g := p.unfoldGoal(cs.goal)
	if g == cs.goal {
		return nil
	}
	out := p.cases(cs.hyps, g, limit)
	for i := range out {
		out[i].unf = true
		for k, v := range cs.lits {
			out[i].lits[k] = v
		}
	}
	return out
}

// unfoldGoal writes out named sequences at an index and recursive functions
// whose previous value occurs in the goal.
func (p *Prover) unfoldGoal(g *Term) *Term {
	c := p.c
	for round := 0; round < 5; round++ {
		atoms := map[*Term]bool{}
		var order []*Term
		var rec func(t *Term)
		rec = func(t *Term) {
			if atoms[t] || t.op == OForall || t.op == OLambda {
				return
			}
			atoms[t] = true
			order = append(order, t)
			for _, a := range t.args {
				rec(a)
			}
			for _, m := range t.poly {
				for _, a := range m.atoms {
					rec(a)
				}
			}
		}
		rec(g)
		sub := map[*Term]*Term{}
		for _, t := range order {
			if t.hasBV {
				continue
			}
			if t.op == OSelect {
				if d := t.args[0].def; d != nil && d.opaque && d.seqBody != nil {
					sub[t] = c.Select(c.instSeq(t.args[0]), t.args[1])
				}
				continue
			}
			d := t.def
			if t.op != OApp || d == nil || d.body == nil {
				continue
			}
			u := c.unfold(t)
			if !d.recursive {
				sub[t] = u
				continue
			}
			prev, n := false, 0
			seen := map[*Term]bool{}
			var find func(t *Term)
			find = func(t *Term) {
				if seen[t] || t.op == OForall || t.op == OLambda {
					return
				}
				seen[t] = true
				if t.op == OApp && t.def == d {
					n++
					prev = prev || atoms[t]
				}
				for _, a := range t.args {
					find(a)
				}
				for _, m := range t.poly {
					for _, a := range m.atoms {
						find(a)
					}
				}
			}
			find(u)
			if prev {
				sub[t] = u
			}
		}
		if len(sub) == 0 {
			break
		}
		g2 := c.subst(g, sub, map[*Term]*Term{})
		if g2 == g {
			break
		}
		g = g2
	}
	return g
}
