package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------
// Prover: turns (hypotheses |- goal) into a ground SMT problem by polarity
// skolemisation, trigger-based instantiation of the quantified hypotheses and
// bounded unfolding of the specification functions, and hands it to z3/cvc5.
// Every step only adds consequences of the hypotheses, so "unsat" is a proof.

type Stats struct {
	queries  int64
	nanos    int64
	byEngine sync.Map // name -> *int64
}

var gstats Stats

func bump(name string) {
	v, _ := gstats.byEngine.LoadOrStore(name, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

var solverSem = make(chan struct{}, 8)

type solverSpec struct {
	name string
	args func(ms int) []string
}

var solvers = map[string]solverSpec{
	"z3-new": {"z3-new", func(ms int) []string {
		return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
	}},
	"z3": {"z3", func(ms int) []string {
		return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
	}},
	"cvc5": {"cvc5", func(ms int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--nl-ext-tplanes"}
	}},
}

func runSolver(ctx context.Context, name, query string, ms int) (string, string) {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled", ""
	}
	defer func() { <-solverSem }()
	sp := solvers[name]
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, sp.name, sp.args(ms)...)
	cmd.Stdin = strings.NewReader(query)
	var out, er bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &er
	t0 := time.Now()
	_ = cmd.Run()
	atomic.AddInt64(&gstats.nanos, int64(time.Since(t0)))
	atomic.AddInt64(&gstats.queries, 1)
	s := out.String()
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	first = strings.TrimSpace(first)
	if strings.Contains(s, "error") && first != "unsat" && first != "sat" {
		if debugSolver {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR", name, s[:min(len(s), 600)])
			os.WriteFile("/tmp/vcg_err.smt2", []byte(query), 0o644)
		}
		return "error", s
	}
	return first, s
}

var debugSolver = os.Getenv("VCG_DEBUG") != ""

type Result struct {
	ok      bool
	engine  string
	verdict string
	ms      int
}

type groundProblem struct {
	c        *TC
	asserts  []*Term
	seen     map[*Term]bool
	quants   []*quant
	qseen    map[*Term]*Term // forall -> proxy
	gen      map[*Term]int   // app -> generation
	apps     []*Term
	sels     []*Term
	invs     []*Term
	visited  map[*Term]int
	apDone   int
	again    []*Term
	opq      []*Term // selections from opaque sequences
	skolems  []*Term
	pairs    map[string]bool
	insts    int
	maxInst  int
	limitGen int
	nSk      int
	byArr    map[*Term][]*Term // array -> index terms
	byApp    map[string][]*Term
	divs     []*Term
	curGen   int
	factors  map[*Term][]*Term // atom -> products it is multiplied with
	facSeen  map[string]bool
	mulDone  map[string]bool
	eqAtoms  map[*Term][]*Term // atom -> clauses with an equality mentioning it linearly
	facNew   []*Term
	eqNew    []*Term
	nMul     int
	useMul   bool
	nFac     int
	nSign    int
	lits     map[*Term]*Term
	litMemo  map[*Term]*Term
}

type trig struct {
	arr  *Term  // select on this array (nil if app)
	app  string // or application of this function
	pos  int
	tmpl *Term
	off  *Term // index = sgn*k + off
	sgn  int
}

type quant struct {
	f     *Term
	proxy *Term
	trigs []trig
	done  map[*Term]bool
	tpos  []int // progress per trigger
	spos  int
}

func newGround(c *TC) *groundProblem {
	return &groundProblem{c: c, seen: map[*Term]bool{}, qseen: map[*Term]*Term{}, gen: map[*Term]int{},
		visited: map[*Term]int{}, pairs: map[string]bool{}, byArr: map[*Term][]*Term{}, byApp: map[string][]*Term{},
		maxInst: 1500, limitGen: 4, factors: map[*Term][]*Term{}, facSeen: map[string]bool{}, mulDone: map[string]bool{}, eqAtoms: map[*Term][]*Term{}}
}

// assert adds t (positive polarity) after skolemisation/proxying.
func (g *groundProblem) assert(t *Term, gen int) {
	t = g.pol(t, true)
	if g.lits != nil {
		t = g.c.subst(t, g.lits, g.litMemo)
	}
	g.add(t, gen)
}

func (g *groundProblem) add(t *Term, gen int) {
	if t.op == OAnd {
		for _, a := range t.args {
			g.add(a, gen)
		}
		return
	}
	if t.op == OTrue || g.seen[t] {
		return
	}
	g.seen[t] = true
	g.asserts = append(g.asserts, t)
	g.scan(t, gen)
	g.noteEq(t)
}

// noteEq registers clauses with exactly one equality between reals.
func (g *groundProblem) noteEq(t *Term) {
	var e *Term
	if t.op == OEq {
		e = t
	} else if t.op == OOr {
		for _, a := range t.args {
			if a.op == OEq && len(a.args) == 1 && a.args[0].sort == SReal {
				if e != nil {
					return
				}
				e = a
			}
		}
	}
	if e == nil || len(e.args) != 1 || e.args[0].sort != SReal {
		return
	}
	for _, m := range g.c.polyOf(e.args[0]) {
		if len(m.atoms) == 1 && !m.atoms[0].hasBV {
			a := m.atoms[0]
			g.eqAtoms[a] = append(g.eqAtoms[a], t)
			g.eqNew = append(g.eqNew, a)
		}
	}
}

// mulPush multiplies under conditionals.
func (c *TC) mulPush(f, u *Term) *Term {
	if u.op == OIte {
		return c.Ite(u.args[0], c.mulPush(f, u.args[1]), c.mulPush(f, u.args[2]))
	}
	if u.op == OPoly {
		r := c.Real(0)
		for _, m := range u.poly {
			x := f
			for _, a := range m.atoms {
				if a.op == OIte && len(m.atoms) == 1 {
					x = c.mulPush(x, a)
				} else {
					x = c.Mul(x, a)
				}
			}
			r = c.Add(r, c.Scale(x, m.coef))
		}
		return r
	}
	return c.Mul(f, u)
}

// multiply adds consequences f*a = f*b of equalities a = b whose side occurs in products.
func (g *groundProblem) multiply() bool {
	c := g.c
	todo := append(g.facNew, g.eqNew...)
	g.facNew, g.eqNew = nil, nil
	changed := false
	for _, a := range todo {
		fs, cls := g.factors[a], g.eqAtoms[a]
		if len(fs) == 0 || len(cls) == 0 {
			continue
		}
		for _, f := range fs {
			for _, cl := range cls {
				key := fmt.Sprintf("%d/%d", f.id, cl.id)
				if g.mulDone[key] || g.nMul > 60 {
					continue
				}
				g.mulDone[key] = true
				g.nMul++
				mul := func(e *Term) *Term {
					return c.Eq(c.mulPush(f, e.args[0]), c.Real(0))
				}
				var n *Term
				if cl.op == OEq {
					n = mul(cl)
				} else {
					var as []*Term
					for _, l := range cl.args {
						if l.op == OEq && len(l.args) == 1 && l.args[0].sort == SReal {
							l = mul(l)
						}
						as = append(as, l)
					}
					n = c.Or(as...)
				}
				if n.op != OTrue && !g.seen[n] {
					g.seen[n] = true
					g.asserts = append(g.asserts, n)
					g.scan(n, 1)
					changed = true
				}
			}
		}
	}
	return changed
}

func hasQuant(t *Term) bool { return t.quantInside() }

var quantMemo sync.Map

func (t *Term) quantInside() bool {
	if t.op == OForall {
		return true
	}
	if len(t.args) == 0 || t.sort != SBool && t.op != OIte {
		return false
	}
	if v, ok := quantMemo.Load(t); ok {
		return v.(bool)
	}
	r := false
	for _, a := range t.args {
		if a.sort == SBool && a.quantInside() {
			r = true
			break
		}
	}
	quantMemo.Store(t, r)
	return r
}

// pol: returns an equisatisfiable formula w/o quantifiers: negative foralls are
// skolemised, positive ones are replaced by proxies.
func (g *groundProblem) pol(t *Term, pos bool) *Term {
	c := g.c
	if !hasQuant(t) {
		return t
	}
	switch t.op {
	case OForall:
		if pos {
			return g.proxy(t)
		}
		g.nSk++
		sk := c.Fresh("sk", t.bound[0].sort)
		g.skolems = append(g.skolems, sk)
		body := c.Subst(t.args[0], map[*Term]*Term{t.bound[0]: sk})
		return g.pol(body, false)
	case ONot:
		return c.Not(g.pol(t.args[0], !pos))
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = g.pol(a, pos)
		}
		if t.op == OAnd {
			return c.And(as...)
		}
		return c.Or(as...)
	}
	// quantifier under an equality/ite: abstract by an unconstrained boolean (weakening in
	// both polarities is not sound for goals, but only loses hypotheses here)
	return c.Fresh("qabs", SBool)
}

func (g *groundProblem) proxy(f *Term) *Term {
	if p, ok := g.qseen[f]; ok {
		return p
	}
	p := g.c.Fresh("qp", SBool)
	g.qseen[f] = p
	q := &quant{f: f, proxy: p, done: map[*Term]bool{}}
	k := f.bound[0]
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.hasBV || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall || t.op == OLambda {
			rec(t.args[0])
			return
		}
		if t.op == OSelect && !t.args[0].hasBV {
			if sgn, off, ok := linearIn(g.c, t.args[1], k); ok {
				q.trigs = append(q.trigs, trig{arr: t.args[0], off: off, sgn: sgn})
			}
		}
		if t.op == OSelect && t.args[0].op == OSelect && t.args[0].args[0].op == OVar && t.args[0].hasBV {
			// nested arrays: select(select(H, k), x) handled by the inner select
		}
		if t.op == OApp {
			for i, a := range t.args {
				if sgn, off, ok := linearIn(g.c, a, k); ok && a.sort == k.sort {
					q.trigs = append(q.trigs, trig{app: t.name, pos: i, off: off, sgn: sgn, tmpl: t})
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				rec(a)
			}
		}
	}
	rec(f.args[0])
	q.tpos = make([]int, len(q.trigs))
	g.quants = append(g.quants, q)
	return p
}

// linearIn: t == sgn*k + off with off free of bound variables.
func linearIn(c *TC, t, k *Term) (int, *Term, bool) {
	if t == k {
		if k.sort.isNum() {
			return 1, c.Num(new(big.Rat), k.sort), true
		}
		return 1, nil, true
	}
	if t.op != OPoly {
		return 0, nil, false
	}
	sgn := 0
	var rest []mono
	for _, m := range t.poly {
		if len(m.atoms) == 1 && m.atoms[0] == k {
			if m.coef.Cmp(one) == 0 {
				sgn = 1
			} else if m.coef.Cmp(minusOne) == 0 {
				sgn = -1
			} else {
				return 0, nil, false
			}
			continue
		}
		for _, a := range m.atoms {
			if a.hasBV {
				return 0, nil, false
			}
		}
		rest = append(rest, m)
	}
	if sgn == 0 {
		return 0, nil, false
	}
	return sgn, c.fromPoly(rest, t.sort), true
}

// scan registers ground applications, selects, inverses.
func (g *groundProblem) scan(t *Term, gen int) {
	if t.hasBV {
		return
	}
	if old, ok := g.visited[t]; ok {
		if old <= gen || len(t.args) == 0 && len(t.poly) == 0 {
			return
		}
		// seen before at a higher generation: lower it below
		g.visited[t] = gen
		if t.op == OApp {
			g.gen[t] = gen
			if g.apDone > 0 {
				g.again = append(g.again, t)
			}
		}
		if _, ok := g.gen[t]; ok && t.op == OSelect {
			g.gen[t] = gen
			g.opq = append(g.opq, t)
		}
		if t.op == OForall || t.op == OLambda {
			return
		}
		for _, a := range t.args {
			g.scan(a, gen)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				g.scan(a, gen)
			}
		}
		return
	}
	g.visited[t] = gen
	switch t.op {
	case OApp:
		g.gen[t] = gen
		g.apps = append(g.apps, t)
		g.byApp[t.name] = append(g.byApp[t.name], t)
	case OSelect:
		if d := t.args[0].def; d != nil && d.opaque && d.seqBody != nil {
			g.gen[t] = gen
			g.opq = append(g.opq, t)
		}
		g.sels = append(g.sels, t)
		g.byArr[t.args[0]] = append(g.byArr[t.args[0]], t.args[1])
	case OInv:
		g.invs = append(g.invs, t)
	case OIDiv, OMod:
		g.divs = append(g.divs, t)
	case OForall, OLambda:
		return
	case OEq, OLe, OLt:
		if len(t.args) == 1 && t.args[0].sort == SReal {
			defer g.factorLemma(t.op, t.args[0], gen)
		}
	}
	for _, a := range t.args {
		g.scan(a, gen)
	}
	for _, m := range t.poly {
		if g.useMul && len(m.atoms) >= 2 && t.sort == SReal {
			for i, a := range m.atoms {
				if a.op == OInv {
					continue
				}
				key := fmt.Sprintf("%d:%s", i, atomKey(m.atoms))
				if g.facSeen[key] {
					continue
				}
				g.facSeen[key] = true
				var rest []*Term
				rest = append(rest, m.atoms[:i]...)
				rest = append(rest, m.atoms[i+1:]...)
				f := g.c.fromPoly([]mono{{one, rest}}, SReal)
				g.factors[a] = append(g.factors[a], f)
				g.facNew = append(g.facNew, a)
			}
		}
		for _, a := range m.atoms {
			g.scan(a, gen)
		}
	}
}

// factorLemma: for p = R + f*A adds A = 0 -> f*A = 0 (and the sign rules for
// inequalities); for p = R + f1*A1 + f2*A2 with f1 = 1/d1, f2 = 1/d2 adds
// (d1 = d2 and A1 + A2 = 0) -> f1*A1 + f2*A2 = 0.
func (g *groundProblem) factorLemma(op Op, p *Term, gen int) {
	c := g.c
	if gen > 1 || g.nFac > 60 {
		return
	}
	if op == OEq {
		for _, m := range c.polyOf(p) {
			if len(m.atoms) < 2 || len(m.atoms) > 3 || g.nSign > 40 {
				continue
			}
			g.nSign++
			prod := c.fromPoly([]mono{{one, m.atoms}}, SReal)
			cl := []*Term{c.Ge(prod, c.Real(0))}
			for _, a := range m.atoms {
				cl = append(cl, c.Lt(a, c.Real(0)))
			}
			g.lemma(c.Or(cl...))
		}
	}
	groups := map[*Term][]mono{}
	var order []*Term
	for _, m := range c.polyOf(p) {
		if len(m.atoms) < 2 {
			continue
		}
		seen := map[*Term]bool{}
		for i, a := range m.atoms {
			if seen[a] {
				continue
			}
			seen[a] = true
			var rest []*Term
			rest = append(rest, m.atoms[:i]...)
			rest = append(rest, m.atoms[i+1:]...)
			if _, ok := groups[a]; !ok {
				order = append(order, a)
			}
			groups[a] = append(groups[a], mono{m.coef, rest})
		}
	}
	z := c.Real(0)
	// single reciprocals (monomial inv alone) belong to their group too
	for _, m := range c.polyOf(p) {
		if len(m.atoms) == 1 && m.atoms[0].op == OInv {
			if _, ok := groups[m.atoms[0]]; !ok {
				order = append(order, m.atoms[0])
			}
			groups[m.atoms[0]] = append(groups[m.atoms[0]], mono{m.coef, nil})
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var invs []*Term
	for _, f := range order {
		ms := groups[f]
		if f.op == OInv {
			invs = append(invs, f)
		}
		A := c.fromPoly(ms, SReal)
		if len(ms) >= 2 {
			g.nFac++
			g.lemma(c.Or(c.Not(c.Eq(A, z)), c.Eq(c.Mul(f, A), z)))
		}
		if op != OEq {
			g.nFac++
			fa := c.Mul(f, A)
			g.lemma(c.Or(c.Lt(f, z), c.Lt(A, z), c.Ge(fa, z)))
			g.lemma(c.Or(c.Lt(f, z), c.Gt(A, z), c.Le(fa, z)))
		}
	}
	for i := range invs {
		for j := i + 1; j < len(invs); j++ {
			a, b := invs[i], invs[j]
			A := c.fromPoly(groups[a], SReal)
			B := c.fromPoly(groups[b], SReal)
			g.nFac++
			g.lemma(c.Or(c.Not(c.Eq(a.args[0], b.args[0])), c.Not(c.Eq(c.Add(A, B), z)), c.Eq(c.Add(c.Mul(a, A), c.Mul(b, B)), z)))
		}
	}
}

func (g *groundProblem) lemma(t *Term) {
	if t.op == OTrue || g.seen[t] {
		return
	}
	g.seen[t] = true
	g.asserts = append(g.asserts, t)
	g.scan(t, 2)
}

func (g *groundProblem) instantiate(q *quant, v *Term, gen int) bool {
	if q.done[v] || g.insts >= g.maxInst {
		return false
	}
	q.done[v] = true
	g.insts++
	body := g.c.Subst(q.f.args[0], map[*Term]*Term{q.f.bound[0]: v})
	inst := g.c.Or(g.c.Not(q.proxy), body)
	// body positive
	g.assert(g.c.Or(g.c.Not(q.proxy), g.pol(body, true)), gen)
	_ = inst
	return true
}

func (g *groundProblem) saturate(rounds int) {
	c := g.c
	appDone := 0
	invDone := 0
	divDone := 0
	unfolded := map[*Term]bool{}
	facted := map[*Term]bool{}
	for r := 0; r < rounds; r++ {
		changed := false
		// unfold
		todo := append(g.again, g.apps[appDone:]...)
		g.again = nil
		appDone = len(g.apps)
		g.apDone = appDone
		for _, a := range todo {
			g.builtinAxioms(a)
			if a.def != nil && len(a.def.facts) > 0 && !facted[a] && g.gen[a] < g.limitGen {
				facted[a] = true
				m := map[*Term]*Term{}
				for i, p := range a.def.params {
					m[p] = a.args[i]
				}
				for _, f := range a.def.facts {
					g.assert(c.Subst(f, m), g.gen[a]+2)
				}
				changed = true
			}
			if a.def != nil && a.def.body != nil && !unfolded[a] {
				lim := g.limitGen
				if g.gen[a] < lim {
					unfolded[a] = true
					u := c.unfold(a)
					nx := g.gen[a] + 2
					if !a.def.recursive {
						nx = g.gen[a]
					}
					g.assert(c.Eq(a, u), nx)
					changed = true
				}
			}
		}
		opq := g.opq
		g.opq = nil
		for _, s := range opq {
			if !unfolded[s] && g.gen[s] < g.limitGen {
				unfolded[s] = true
				g.assert(c.Eq(s, c.Select(c.instSeq(s.args[0]), s.args[1])), g.gen[s]+1)
				changed = true
			}
		}
		for ; invDone < len(g.invs); invDone++ {
			t := g.invs[invDone]
			x := t.args[0]
			z := c.Real(0)
			g.add(c.Or(c.Eq(x, z), c.Eq(c.Mul(x, t), c.Real(1))), 0)
			g.add(c.Or(c.Le(x, z), c.Gt(t, z)), 0)
			g.add(c.Or(c.Ge(x, z), c.Lt(t, z)), 0)
			changed = true
		}
		for ; divDone < len(g.divs); divDone++ {
			t := g.divs[divDone]
			a, b := t.args[0], t.args[1]
			if b.op == ONum {
				continue
			}
			q := c.IDiv(a, b)
			m := c.Mod(a, b)
			g.add(c.Or(c.Le(b, c.Int(0)), c.And(c.Eq(a, c.Add(c.Mul(b, q), m)), c.Ge(m, c.Int(0)), c.Lt(m, b))), 0)
			changed = true
		}
		if g.useMul && r >= 1 && g.multiply() {
			changed = true
		}
		// congruence between applications over different arrays
		if g.congruence() {
			changed = true
		}
		// instantiate
		nq := len(g.quants)
		for qi := 0; qi < nq; qi++ {
			q := g.quants[qi]
			for ti := range q.trigs {
				tr := &q.trigs[ti]
				var cands []*Term
				if tr.arr != nil {
					l := g.byArr[tr.arr]
					cands = l[min(q.tpos[ti], len(l)):]
					q.tpos[ti] = len(l)
				} else {
					l := g.byApp[tr.app]
					for _, a := range l[min(q.tpos[ti], len(l)):] {
						if g.gen[a] > g.limitGen {
							continue
						}
						ok := true
						for ai, x := range tr.tmpl.args {
							if ai != tr.pos && !x.hasBV && x != a.args[ai] {
								ok = false
							}
						}
						if ok {
							cands = append(cands, a.args[tr.pos])
						}
					}
					q.tpos[ti] = len(l)
				}
				for _, v := range cands {
					k := v
					if tr.off != nil {
						if tr.sgn > 0 {
							k = c.Sub(v, tr.off)
						} else {
							k = c.Sub(tr.off, v)
						}
					}
					if g.instantiate(q, k, 2) {
						changed = true
					}
				}
			}
			for ; q.spos < len(g.skolems); q.spos++ {
				s := g.skolems[q.spos]
				if s.sort == q.f.bound[0].sort && q.spos < 6 {
					if g.instantiate(q, s, 2) {
						changed = true
					}
				}
			}
			if len(q.trigs) == 0 && r == 0 && q.f.bound[0].sort == SInt {
				// no trigger: try the index terms around
				cnt := 0
				for _, s := range g.sels {
					if s.args[1].sort == SInt && cnt < 12 {
						cnt++
						if g.instantiate(q, s.args[1], 2) {
							changed = true
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	if g.useMul {
		g.multiply()
		g.multiply()
	}
}

func (g *groundProblem) congruence() bool {
	c := g.c
	changed := false
	names := make([]string, 0, len(g.byApp))
	for n := range g.byApp {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		l := g.byApp[n]
		if len(l) < 2 || len(l) > 40 {
			continue
		}
		d := l[0].def
		if d == nil || len(d.arrLens) == 0 {
			continue
		}
		for i := 0; i < len(l); i++ {
			for j := i + 1; j < len(l); j++ {
				a, b := l[i], l[j]
				diff := false
				for x := range a.args {
					if a.args[x] != b.args[x] && a.args[x].sort.elem != nil {
						diff = true
					}
				}
				if !diff {
					continue
				}
				key := fmt.Sprintf("%d/%d", a.id, b.id)
				if g.pairs[key] || len(g.pairs) > 60 {
					continue
				}
				g.pairs[key] = true
				cl := []*Term{}
				bad := false
				var arrCl []*Term
				for x := range a.args {
					p, q := a.args[x], b.args[x]
					if p == q {
						continue
					}
					if p.sort.elem == nil {
						e := c.Eq(p, q)
						if e == c.False {
							bad = true
							break
						}
						cl = append(cl, c.Not(e))
						continue
					}
					rng, ok := d.arrLens[x]
					if !ok {
						cl = append(cl, c.Not(c.Eq(p, q)))
						continue
					}
					// rng over params: index range [0,len)
					m := map[*Term]*Term{}
					for y, pr := range d.params {
						m[pr] = a.args[y]
					}
					n := c.Subst(rng, m)
					sk := c.Fresh("dif", SInt)
					arrCl = append(arrCl, c.And(c.Ge(sk, c.Int(0)), c.Lt(sk, n), c.Not(c.Eq(c.Select(p, sk), c.Select(q, sk)))))
				}
				if bad {
					continue
				}
				cl = append(cl, arrCl...)
				if a.sort.elem != nil {
					continue // arrays: compared pointwise by selects
				}
				cl = append(cl, c.Eq(a, b))
				g.add(c.Or(cl...), 1)
				changed = true
			}
		}
	}
	return changed
}

func (g *groundProblem) builtinAxioms(a *Term) {
	c := g.c
	switch a.name {
	case "sqrt!":
		x := a.args[0]
		g.add(c.Or(c.Lt(x, c.Real(0)), c.And(c.Ge(a, c.Real(0)), c.Eq(c.Mul(a, a), x))), 0)
	case "round!": // nearest integer, half away from zero
		x := a.args[0]
		h := c.Num(big.NewRat(1, 2), SReal)
		ra := c.ToReal(a)
		g.add(c.And(c.Le(c.Sub(ra, x), h), c.Le(c.Sub(x, ra), h)), 0)
		g.add(c.Or(c.Lt(x, c.Real(0)), c.And(c.Ge(ra, c.Real(0)), c.Lt(c.Sub(x, ra), h))), 0)
		g.add(c.Or(c.Ge(x, c.Real(0)), c.And(c.Le(ra, c.Real(0)), c.Lt(c.Sub(ra, x), h))), 0)
	case "floor!":
		x := a.args[0]
		ra := c.ToReal(a)
		g.add(c.And(c.Le(ra, x), c.Lt(x, c.Add(ra, c.Real(1)))), 0)
	}
}

// ---------------------------------------------------------------------------
// SMT text

type smtWriter struct {
	b     strings.Builder
	decl  map[string]bool
	names map[*Term]string
	count map[*Term]int
	linear bool // abstract non-linear monomials as uninterpreted functions
}

func smtText(asserts []*Term, extra string, linear bool) string {
	w := &smtWriter{decl: map[string]bool{}, names: map[*Term]string{}, count: map[*Term]int{}, linear: linear}
	var hdr strings.Builder
	hdr.WriteString("(set-logic ALL)\n(declare-sort Str 0)\n(declare-sort Val 0)\n(declare-fun inv! (Real) Real)\n(declare-fun nlmul! (Real Real) Real)\n(declare-fun nlmuli! (Int Int) Int)\n")
	strs := map[string]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		w.count[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar:
			if !t.isBV && !w.decl[t.name] {
				w.decl[t.name] = true
				fmt.Fprintf(&hdr, "(declare-fun %s () %s)\n", smtName(t.name), t.sort.name)
			}
		case OApp:
			key := t.name
			if !w.decl["f:"+key] {
				w.decl["f:"+key] = true
				var ss []string
				for _, a := range t.args {
					ss = append(ss, a.sort.name)
				}
				fmt.Fprintf(&hdr, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(ss, " "), t.sort.name)
			}
			if t.sort == SStr && len(t.args) == 0 {
				strs[t.name] = true
			}
		case OLambda:
			if t.hasBV {
				break
			}
			n := fmt.Sprintf("lam!%d", t.id)
			if !w.decl[n] {
				w.decl[n] = true
				fmt.Fprintf(&hdr, "(declare-fun %s () %s)\n", n, t.sort.name)
			}
			return
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				visit(a)
			}
		}
	}
	for _, a := range asserts {
		visit(a)
	}
	if len(strs) > 1 {
		var l []string
		for s := range strs {
			l = append(l, smtName(s))
		}
		sort.Strings(l)
		fmt.Fprintf(&hdr, "(assert (distinct %s))\n", strings.Join(l, " "))
	}
	var body strings.Builder
	w.b = strings.Builder{}
	for _, a := range asserts {
		s := w.term(a)
		body.WriteString("(assert ")
		body.WriteString(s)
		body.WriteString(")\n")
	}
	return hdr.String() + w.b.String() + body.String() + "(check-sat)\n" + extra
}

func (w *smtWriter) term(t *Term) string {
	if n, ok := w.names[t]; ok {
		return n
	}
	s := w.raw(t)
	if !t.hasBV && w.count[t] > 1 && t.op != OVar && t.op != ONum && t.op != OTrue && t.op != OFalse && t.op != OLambda && len(s) > 24 {
		n := fmt.Sprintf("d!%d", t.id)
		fmt.Fprintf(&w.b, "(define-fun %s () %s %s)\n", n, t.sort.name, s)
		w.names[t] = n
		return n
	}
	if !t.hasBV {
		w.names[t] = s
	}
	return s
}

func (w *smtWriter) mono(m mono, s *Sort) string {
	if len(m.atoms) == 0 {
		return ratStr(m.coef, s)
	}
	var x string
	if len(m.atoms) == 1 {
		x = w.term(m.atoms[0])
	} else if w.linear {
		f := "nlmul!"
		if s == SInt {
			f = "nlmuli!"
		}
		// products of like shape must align for congruence
		as := append([]*Term(nil), m.atoms...)
		sort.SliceStable(as, func(i, j int) bool {
			ci, cj := atomClass(as[i]), atomClass(as[j])
			if ci != cj {
				return ci < cj
			}
			return false
		})
		x = w.term(as[len(as)-1])
		for i := len(as) - 2; i >= 0; i-- {
			x = "(" + f + " " + w.term(as[i]) + " " + x + ")"
		}
	} else {
		x = "(*"
		for _, a := range m.atoms {
			x += " " + w.term(a)
		}
		x += ")"
	}
	if m.coef.Cmp(one) == 0 {
		return x
	}
	return "(* " + ratStr(m.coef, s) + " " + x + ")"
}

func atomClass(t *Term) string {
	switch t.op {
	case OInv:
		return "z"
	case OToReal:
		return "y"
	case OApp:
		return "a" + t.name
	case OSelect:
		return "s" + atomClass(t.args[0])
	case OVar:
		return "v" + t.name
	}
	return "i"
}

func (w *smtWriter) sum(ms []mono, s *Sort) string {
	if len(ms) == 0 {
		return ratStr(new(big.Rat), s)
	}
	if len(ms) == 1 {
		return w.mono(ms[0], s)
	}
	x := "(+"
	for _, m := range ms {
		x += " " + w.mono(m, s)
	}
	return x + ")"
}

func (w *smtWriter) op(name string, t *Term) string {
	x := "(" + name
	for _, a := range t.args {
		x += " " + w.term(a)
	}
	return x + ")"
}

func (w *smtWriter) raw(t *Term) string {
	switch t.op {
	case OVar:
		return smtName(t.name)
	case ONum:
		return ratStr(t.num, t.sort)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OPoly:
		return w.sum(t.poly, t.sort)
	case OEq:
		if len(t.args) == 1 {
			pos, neg := splitSides(t.args[0], polyOfStatic)
			return "(= " + w.sum(pos, t.args[0].sort) + " " + w.sum(neg, t.args[0].sort) + ")"
		}
		return w.op("=", t)
	case OLe, OLt:
		op := "(<= "
		if t.op == OLt {
			op = "(< "
		}
		pos, neg := splitSides(t.args[0], polyOfStatic)
		return op + w.sum(pos, t.args[0].sort) + " " + w.sum(neg, t.args[0].sort) + ")"
	case OIte:
		return w.op("ite", t)
	case ONot:
		return w.op("not", t)
	case OAnd:
		return w.op("and", t)
	case OOr:
		return w.op("or", t)
	case OSelect:
		return w.op("select", t)
	case OStore:
		return w.op("store", t)
	case OConstArr:
		return "((as const " + t.sort.name + ") " + w.term(t.args[0]) + ")"
	case OApp:
		if len(t.args) == 0 {
			return smtName(t.name)
		}
		return w.op(smtName(t.name), t)
	case OInv:
		return w.op("inv!", t)
	case OIDiv:
		return w.op("div", t)
	case OMod:
		return w.op("mod", t)
	case OToReal:
		return w.op("to_real", t)
	case OForall:
		return "(forall ((" + smtName(t.bound[0].name) + " " + t.bound[0].sort.name + ")) " + w.raw(t.args[0]) + ")"
	case OLambda:
		if t.hasBV {
			return "(lambda ((" + smtName(t.bound[0].name) + " " + t.bound[0].sort.name + ")) " + w.raw(t.args[0]) + ")"
		}
		return fmt.Sprintf("lam!%d", t.id)
	}
	panic("raw")
}

// ---------------------------------------------------------------------------

type Prover struct {
	c     *TC
	cache map[string]*Result
	mu    sync.Mutex
	effort  int
	inputMark int
	locals  map[*Term][]*Term
	refArrs map[*Term]bool
	refMemo map[*Term]bool
	elims   map[string]*elimRes
	dropped int // candidates given up after quick checks only
}

// Prove tries to show hyps |= goal.  effort: 0 quick (Houdini), 1 normal, 2 hard.
func (p *Prover) buildGround(hyps []*Term, goal *Term, rounds, gens int, mul bool) *groundProblem {
	return p.buildGroundL(hyps, goal, rounds, gens, mul, nil)
}

func (p *Prover) buildGroundL(hyps []*Term, goal *Term, rounds, gens int, mul bool, lits map[*Term]*Term) *groundProblem {
	if pastDeadline() {
		panic(unsupported{"time budget of the check exhausted"})
	}
	g := newGround(p.c)
	g.useMul = mul
	g.limitGen = 2*gens + opqExtra
	hyps, goal, rel := p.eliminateR(hyps, goal)
	hyps = p.relevant(hyps, rel)
	g.assert(p.c.Not(goal), 0)
	for _, h := range hyps {
		g.assert(h, 0)
	}
	g.lits = lits
	g.litMemo = map[*Term]*Term{}
	t0 := time.Now()
	g.saturate(rounds)
	if debugSlow && time.Since(t0) > 300*time.Millisecond {
		qs := append([]*quant(nil), g.quants...)
		sort.Slice(qs, func(i, j int) bool { return len(qs[i].done) > len(qs[j].done) })
		fmt.Fprintf(os.Stderr, "SLOW %v hyps=%d asserts=%d insts=%d quants=%d apps=%d sels=%d goal=%.300s\n", time.Since(t0), len(hyps), len(g.asserts), g.insts, len(qs), len(g.apps), len(g.sels), goal)
		for i := 0; i < len(qs) && i < 12; i++ {
			fmt.Fprintf(os.Stderr, "    %d: %.300s\n", len(qs[i].done), qs[i].f)
		}
	}
	return g
}

var debugSlow = os.Getenv("VCG_SLOW") != ""
var opqExtra = func() int { if v := os.Getenv("VCG_OPQ"); v != "" { return int(v[0] - '0') }; return 1 }()
var noRel = os.Getenv("VCG_NOREL") != ""

// local: the free variables of t introduced during execution (not the inputs).
func (p *Prover) local(t *Term) []*Term {
	if l, ok := p.locals[t]; ok {
		return l
	}
	var out []*Term
	for v := range freeVars(t) {
		if v.id > p.inputMark && !strings.HasPrefix(v.name, "H.") {
			out = append(out, v)
		}
	}
	p.locals[t] = out
	return out
}

// relevant (quick mode) keeps the hypotheses connected to the goal by local variables.
func (p *Prover) relevant(hyps []*Term, goal *Term) []*Term {
	if p.effort != 1 || goal.op == OFalse || noRel {
		return hyps
	}
	reached := map[*Term]bool{}
	for _, v := range p.local(goal) {
		reached[v] = true
	}
	var out []*Term
	refs := p.refAtom(goal)
	left := make([]*Term, 0, len(hyps))
	for _, h := range hyps {
		if !refs && p.refOnly(h) {
			continue
		}
		left = append(left, h)
	}
	for changed := true; changed; {
		changed = false
		k := 0
		for _, h := range left {
			l := p.local(h)
			use := len(l) == 0
			for _, v := range l {
				if reached[v] {
					use = true
					break
				}
			}
			if !use {
				left[k] = h
				k++
				continue
			}
			out = append(out, h)
			for _, v := range l {
				if !reached[v] {
					reached[v] = true
					changed = true
				}
			}
		}
		left = left[:k]
	}
	if os.Getenv("VCG_REL") != "" {
		fmt.Fprintf(os.Stderr, "REL goal %.200s\n", goal)
		for _, h := range left {
			fmt.Fprintf(os.Stderr, "   drop %.300s\n", h)
		}
	}
	return out
}

// isRefSel: the element of an array of references.
func (p *Prover) isRefSel(t *Term) bool {
	return t.op == OSelect && t.sort == SInt && t.args[0].op == OVar && p.refArrs[t.args[0]]
}

// refAtom: t compares references.
func (p *Prover) refAtom(t *Term) bool {
	if r, ok := p.refMemo[t]; ok {
		return r
	}
	r := false
	switch t.op {
	case OEq, OLe, OLt:
		for _, a := range t.args {
			if p.isRefSel(a) {
				r = true
			}
			for _, m := range a.poly {
				for _, b := range m.atoms {
					if p.isRefSel(b) {
						r = true
					}
				}
			}
		}
	case OApp, OStore:
		for _, a := range t.args {
			if p.isRefSel(a) {
				r = true
			}
		}
	}
	for _, a := range t.args {
		r = r || p.refAtom(a)
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			r = r || p.refAtom(a)
		}
	}
	p.refMemo[t] = r
	return r
}

// refOnly: a hypothesis that only says references are non-nil or allocated.
func (p *Prover) refOnly(h *Term) bool {
	if h.op != OForall || !p.refAtom(h) {
		return false
	}
	var onlyRefs func(t *Term) bool
	onlyRefs = func(t *Term) bool {
		if t.op == OSelect {
			return p.isRefSel(t)
		}
		if t.op == OApp {
			return false
		}
		for _, a := range t.args {
			if !onlyRefs(a) {
				return false
			}
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				if !onlyRefs(a) {
					return false
				}
			}
		}
		return true
	}
	return onlyRefs(h)
}

type elimRes struct {
	hyps []*Term
	subs []map[*Term]*Term
	lits map[int]bool // substitutions of truth values for literals
}

// eliminate substitutes variables defined by unconditional equalities.
func (p *Prover) eliminate(hyps []*Term, goal *Term) ([]*Term, *Term) {
	h, g, _ := p.eliminateR(hyps, goal)
	return h, g
}

// eliminateR also returns the goal with only variables substituted (for the choice of relevant hypotheses).
func (p *Prover) eliminateR(hyps []*Term, goal *Term) ([]*Term, *Term, *Term) {
	rel := goal
	hyps, goal = p.openGuards(hyps, goal)
	var key strings.Builder
	for _, h := range hyps {
		fmt.Fprintf(&key, "%d.", h.id)
	}
	k := key.String()
	r, ok := p.elims[k]
	if !ok {
		r = &elimRes{lits: map[int]bool{}}
		r.hyps, _ = p.elim(hyps, p.c.True, r)
		if len(p.elims) > 400 {
			p.elims = map[string]*elimRes{}
		}
		p.elims[k] = r
	}
	for i, s := range r.subs {
		goal = p.c.subst(goal, s, map[*Term]*Term{})
		if !r.lits[i] && p.effort == 1 {
			rel = p.c.subst(rel, s, map[*Term]*Term{})
		}
	}
	return r.hyps[:len(r.hyps):len(r.hyps)], goal, rel
}

func (p *Prover) elim(hyps []*Term, goal *Term, res *elimRes) ([]*Term, *Term) {
	c := p.c
	for round := 0; round < 6; round++ {
		sub := map[*Term]*Term{}
		used := map[*Term]bool{}
		var flat []*Term
		for _, h := range hyps {
			flat = append(flat, conj(h)...)
		}
		for _, h := range flat {
			if h.op != OEq || h.hasBV && h.quantInside() {
				continue
			}
			v, d := solveEq(c, h)
			if v == nil || used[v] || sub[v] != nil {
				continue
			}
			ok := true
			fv := freeVars(d)
			for w := range fv {
				if sub[w] != nil || w == v {
					ok = false
				}
			}
			if !ok {
				continue
			}
			for w := range fv {
				used[w] = true
			}
			sub[v] = d
		}
		if u, eqs := p.unitLits(flat); len(u) > 0 {
			memo := map[*Term]*Term{}
			var out []*Term
			ch := false
			for _, h := range flat {
				if isLit(h) {
					out = append(out, h)
					continue
				}
				r := c.subst(h, u, memo)
				ch = ch || r != h
				if r.op != OTrue {
					out = append(out, r)
				}
			}
			res.lits[len(res.subs)] = true
			res.subs = append(res.subs, u)
			hyps = append(out, eqs...)
			ch = ch || len(eqs) > 0
			if ch && len(sub) == 0 {
				continue
			}
			flat = flat[:0:0]
			for _, h := range hyps {
				flat = append(flat, conj(h)...)
			}
		}
		if len(sub) == 0 {
			break
		}
		res.subs = append(res.subs, sub)
		memo := map[*Term]*Term{}
		var out []*Term
		for _, h := range flat {
			h = c.subst(h, sub, memo)
			if h.op != OTrue {
				out = append(out, h)
			}
		}
		hyps = out
		goal = c.subst(goal, sub, memo)
	}
	return hyps, goal
}

// isLit: an atom or its negation.
func isLit(t *Term) bool {
	if t.op == ONot {
		t = t.args[0]
	}
	switch t.op {
	case OEq, OLe, OLt:
		return !t.quantInside()
	case OVar, OApp, OSelect:
		return true
	}
	return false
}

// openGuards moves the quantifier-free negative disjuncts of the goal (its path condition) to the hypotheses.
func (p *Prover) openGuards(hyps []*Term, goal *Term) ([]*Term, *Term) {
	if goal.op != OOr {
		return hyps, goal
	}
	c := p.c
	var rest []*Term
	out := hyps[:len(hyps):len(hyps)]
	for _, a := range goal.args {
		if a.op == ONot && !a.quantInside() {
			out = append(out, c.Not(a))
		} else {
			rest = append(rest, a)
		}
	}
	if len(rest) == 0 || len(rest) == len(goal.args) {
		return hyps, goal
	}
	return out, c.Or(rest...)
}

type bound struct{ lo, hi *big.Rat }

// linForm splits an integer polynomial into a sign-normalised form and a constant: p = sgn*form + k.
func (c *TC) linForm(p *Term) (form *Term, sgn int, k *big.Rat) {
	k = new(big.Rat)
	var ms []mono
	for _, m := range c.polyOf(p) {
		if len(m.atoms) == 0 {
			k = m.coef
			continue
		}
		ms = append(ms, m)
	}
	if len(ms) == 0 {
		return nil, 0, k
	}
	sgn = ms[0].coef.Sign()
	if sgn < 0 {
		neg := make([]mono, len(ms))
		for i, m := range ms {
			neg[i] = mono{new(big.Rat).Neg(m.coef), m.atoms}
		}
		ms = neg
	}
	return c.fromPoly(ms, p.sort), sgn, k
}

// unitLits decides atoms of the hypotheses from the unit literals among them.
func (p *Prover) unitLits(hyps []*Term) (map[*Term]*Term, []*Term) {
	c := p.c
	val := map[*Term]*Term{}
	bounds := map[*Term]*bound{}
	n := 0
	note := func(t *Term) {
		if (t.op != OLe && t.op != OEq) || len(t.args) != 1 || t.args[0].sort != SInt {
			return
		}
		f, s, k := c.linForm(t.args[0])
		if f == nil {
			return
		}
		b := bounds[f]
		if b == nil {
			b = &bound{}
			bounds[f] = b
		}
		v := new(big.Rat).Neg(k) // s*f <= v
		if s < 0 {
			v = k
		}
		if t.op == OEq || s > 0 {
			if b.hi == nil || v.Cmp(b.hi) < 0 {
				b.hi = v
			}
		}
		if t.op == OEq || s < 0 {
			if b.lo == nil || v.Cmp(b.lo) > 0 {
				b.lo = v
			}
		}
	}
	for _, h := range hyps {
		if !isLit(h) || h.hasBV {
			continue
		}
		n++
		val[h] = c.True
		val[c.Not(h)] = c.False
		note(h)
	}
	if n == 0 {
		return nil, nil
	}
	var eqs []*Term
	var forms []*Term
	for f := range bounds {
		forms = append(forms, f)
	}
	sort.Slice(forms, func(i, j int) bool { return forms[i].id < forms[j].id })
	for _, f := range forms {
		b := bounds[f]
		if b.lo != nil && b.hi != nil && b.lo.Cmp(b.hi) == 0 {
			if e := c.Eq(f, c.Num(b.lo, SInt)); val[e] == nil && e.op == OEq {
				eqs = append(eqs, e)
			}
		}
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OLe, OEq:
			if len(t.args) == 1 && t.args[0].sort == SInt && !t.hasBV && val[t] == nil {
				f, s, k := c.linForm(t.args[0])
				if b := bounds[f]; f != nil && b != nil {
					v := new(big.Rat).Neg(k)
					if s < 0 {
						v = k
					}
					if t.op == OEq {
						if b.hi != nil && b.hi.Cmp(v) < 0 || b.lo != nil && b.lo.Cmp(v) > 0 {
							val[t] = c.False
							val[c.Not(t)] = c.True
						} else if b.hi != nil && b.lo != nil && b.hi.Cmp(v) == 0 && b.lo.Cmp(v) == 0 {
							val[t] = c.True
							val[c.Not(t)] = c.False
						}
					} else if s > 0 { // f <= v
						if b.hi != nil && b.hi.Cmp(v) <= 0 {
							val[t] = c.True
						} else if b.lo != nil && b.lo.Cmp(v) > 0 {
							val[t] = c.False
						}
					} else { // f >= v
						if b.lo != nil && b.lo.Cmp(v) >= 0 {
							val[t] = c.True
						} else if b.hi != nil && b.hi.Cmp(v) < 0 {
							val[t] = c.False
						}
					}
				}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				visit(a)
			}
		}
	}
	for _, h := range hyps {
		if !isLit(h) {
			visit(h)
		}
	}
	return val, eqs
}

// solveEq finds a variable to eliminate from an equality.
func solveEq(c *TC, h *Term) (*Term, *Term) {
	if len(h.args) == 2 {
		a, b := h.args[0], h.args[1]
		if a.op == OVar && !a.isBV && !b.hasBV {
			return a, b
		}
		if b.op == OVar && !b.isBV && !a.hasBV {
			return b, a
		}
		return nil, nil
	}
	p := h.args[0]
	if p.hasBV {
		return nil, nil
	}
	var best *Term
	var co *big.Rat
	for _, m := range c.polyOf(p) {
		if len(m.atoms) == 1 && m.atoms[0].op == OVar {
			if p.sort == SInt && new(big.Rat).Abs(m.coef).Cmp(one) != 0 {
				continue
			}
			v := m.atoms[0]
			if best != nil && best.id > v.id {
				continue
			}
			best, co = v, m.coef
		}
	}
	if best == nil {
		return nil, nil
	}
	// best = -(p - co*best)/co
	rest := c.Sub(p, c.Scale(best, co))
	d := c.Scale(rest, new(big.Rat).Neg(new(big.Rat).Inv(co)))
	if occurs(d, best) {
		return nil, nil
	}
	return best, d
}
