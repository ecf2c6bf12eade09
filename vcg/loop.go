package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	nested bool // contains inner loops
}

type loopInfo struct {
	rpo      []*ssa.BasicBlock
	headerOf map[*ssa.BasicBlock]*Loop
}

func computeLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{headerOf: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				l := li.headerOf[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.headerOf[s] = l
				}
				// collect body
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	for h, l := range li.headerOf {
		for h2 := range li.headerOf {
			if h2 != h && l.blocks[h2] {
				l.nested = true
			}
		}
	}
	return li
}

// ---------------------------------------------------------------------------

type loc struct {
	name string
	phi  *ssa.Phi
	obj  *Object
	gh   string
	path []int
	typ  types.Type
}

type view struct {
	st   *State
	phis map[*ssa.Phi]Val
}

func (v *view) val(l loc) Val {
	if l.phi != nil {
		return getPath(v.phis[l.phi], l.path)
	}
	if l.obj != nil {
		return getPath(v.st.objs[l.obj], l.path)
	}
	return v.st.ghost[l.gh]
}

type cand struct {
	name  string
	build func(v *view) *Term
	h     *Term // at header
	spec  bool  // derived from the contract
}

type widener struct {
	x       *Exec
	hv      map[*Term]bool
	hr      map[*Region]bool
	changed bool
	hyps    []*Term
	pfx     string
	id0     int
	symKind map[string]bool // floats that may become NaN or infinite
}

func (w *widener) fresh(name string, s *Sort) *Term {
	t := w.x.c.Fresh(w.pfx+name, s)
	w.hv[t] = true
	w.changed = true
	return t
}

func normHeapPtr(p VPtr) (VPtr, bool) {
	var n *types.Named
	for _, a := range p.alts {
		switch a.kind {
		case PNil:
		case PHeap:
			if len(a.path) > 0 {
				return p, false
			}
			n = a.htyp
		default:
			return p, false
		}
	}
	_ = n
	return p, n != nil || true
}

func (w *widener) widen(h, b Val, name string) Val {
	x := w.x
	c := x.c
	if sameVal(h, b) {
		if f, ok := h.(VF); !ok || f.kind != nil || !w.symKind[name] {
			return h
		}
	}
	switch hv := h.(type) {
	case VT:
		if w.hv[hv.t] {
			return h
		}
		return VT{w.fresh(name, hv.t.sort)}
	case VF:
		bv := b.(VF)
		r := hv
		if hv.v != bv.v && !w.hv[hv.v] {
			r.v = w.fresh(name, SReal)
		}
		if hv.kind == nil && !w.symKind[name] {
			return r // finite so far, and to be shown finite after every round
		}
		if hv.kind != bv.kind || hv.kind == nil {
			if hv.kind == nil || !w.hv[hv.kind] {
				r.kind = w.fresh(name+".kind", SInt)
			}
		}
		return r
	case VStruct:
		bv := b.(VStruct)
		r := VStruct{typ: hv.typ}
		for i := range hv.fields {
			fn := hv.typ.Underlying().(*types.Struct).Field(i).Name()
			r.fields = append(r.fields, w.widen(hv.fields[i], bv.fields[i], name+"."+fn))
		}
		return r
	case VTuple:
		bv := b.(VTuple)
		r := VTuple{}
		for i := range hv.vals {
			r.vals = append(r.vals, w.widen(hv.vals[i], bv.vals[i], fmt.Sprintf("%s.%d", name, i)))
		}
		return r
	case VSlice:
		bv := b.(VSlice)
		if len(hv.alts) == 1 && len(bv.alts) == 1 && hv.alts[0].reg == bv.alts[0].reg && hv.alts[0].reg != nil {
			a, d := hv.alts[0], bv.alts[0]
			ww := func(p, q *Term, n string) *Term {
				if p == q || w.hv[p] {
					return p
				}
				return w.fresh(name+n, SInt)
			}
			a.off = ww(a.off, d.off, ".off")
			a.ln = ww(a.ln, d.ln, ".len")
			a.capa = ww(a.capa, d.capa, ".cap")
			return VSlice{elem: hv.elem, alts: []SliceAlt{a}}
		}
		if len(hv.alts) == 1 && hv.alts[0].reg != nil && w.hr[hv.alts[0].reg] {
			for _, d := range bv.alts {
				if d.reg != nil {
					link(hv.alts[0].reg, d.reg)
				}
			}
			a := hv.alts[0]
			if !w.hv[a.ln] && a.ln != x.sliceLen(bv) {
				a.ln = w.fresh(name+".len", SInt)
				return VSlice{elem: hv.elem, alts: []SliceAlt{a}}
			}
			return h
		}
		r := x.newRegion(w.pfx+name, hv.elem)
		w.hr[r] = true
		w.changed = true
		for _, d := range append(append([]SliceAlt(nil), hv.alts...), bv.alts...) {
			if d.reg != nil && d.capa != d.ln {
				link(r, d.reg)
			}
		}
		ln := w.fresh(name+".len", SInt)
		cp := w.fresh(name+".cap", SInt)
		return VSlice{elem: hv.elem, alts: []SliceAlt{{guard: c.True, reg: r, off: c.Int(0), ln: ln, capa: cp}}}
	case VPtr:
		bv := b.(VPtr)
		for _, p := range []VPtr{hv, bv} {
			for _, a := range p.alts {
				if !(a.kind == PNil || a.kind == PHeap && len(a.path) == 0) {
					unsup("pointer to a local object changes in a loop")
				}
			}
		}
		if len(hv.alts) == 1 && hv.alts[0].kind == PHeap && w.hv[hv.alts[0].ref] {
			return h
		}
		var n *types.Named = namedStruct(hv.elem)
		return VPtr{elem: hv.elem, alts: []PtrAlt{{guard: c.True, kind: PHeap, ref: w.fresh(name, SInt), htyp: n}}}
	case VIface:
		if hv.opaque != nil && w.hv[hv.opaque] {
			return h
		}
		return VIface{opaque: w.fresh(name, SVal)}
	}
	unsup("loop-modified value of kind %T (%s)", h, name)
	return nil
}

func locName(phi *ssa.Phi) string {
	if phi.Comment != "" {
		return phi.Comment
	}
	return phi.Name()
}

// runLoop executes a loop from the incoming edges and returns its exit edges.
func (x *Exec) runLoop(fr *frame, L *Loop, inc []edge) []edge {
	c := x.c
	if x.spec > 0 {
		return x.unrollSpec(fr, L, inc)
	}
	x.loopCount++
	if ex, ok := x.tryUnroll(fr, L, inc); ok {
		return ex
	}
	E := x.mergeEdges(fr, L.header, inc, false)
	ev := &view{st: E, phis: map[*ssa.Phi]Val{}}
	var phis []*ssa.Phi
	for _, ins := range L.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
			ev.phis[p] = fr.regs[p]
		}
	}
	if E.pc == c.False {
		return nil
	}
	if x.discover == 0 && E.pc != c.True && !x.prover.feasible(append(append([]*Term(nil), x.hyps...), E.pc)) {
		return nil // the loop is not reached
	}
	key := fmt.Sprintf("%s%s#%d", fr.callPos, fr.fn.Name(), L.header.Index)
	if x.symKind[key] == nil {
		x.symKind[key] = map[string]bool{}
	}
	hyps0 := x.hyps
	if x.discover == 0 {
		E = x.finiteEntry(E, ev, phis)
		for _, p := range phis {
			fr.regs[p] = ev.phis[p]
		}
	}
	w := &widener{x: x, hv: map[*Term]bool{}, hr: map[*Region]bool{}, pfx: "", id0: c.next, symKind: x.symKind[key]}
	H := E.clone()
	hphis := map[*ssa.Phi]Val{}
	for _, p := range phis {
		hphis[p] = ev.phis[p]
	}
	allocH := (*Term)(nil)
	run := func() (exits, backs []edge) {
		for _, p := range phis {
			fr.regs[p] = hphis[p]
		}
		x.st = H
		x.cond = H.pc
		return x.runRegion(fr, L, []edge{{to: L.header, st: H.clone()}})
	}
	var backView *view
	mkBack := func(backs []edge) *view {
		if len(backs) == 0 {
			return nil
		}
		var ss []*State
		for _, e := range backs {
			ss = append(ss, e.st)
		}
		rel := relGuards(c, ss)
		bv := &view{phis: map[*ssa.Phi]Val{}}
		for pi, p := range phis {
			v := backs[len(backs)-1].phis[pi]
			for i := len(backs) - 2; i >= 0; i-- {
				v = x.mergeVal(rel[i], backs[i].phis[pi], v)
			}
			bv.phis[p] = v
		}
		bv.st = x.merge(ss)
		return bv
	}
	// --- discovery of the modified locations
	x.trial++
	x.discover++
	for iter := 0; ; iter++ {
		if iter > 12 {
			unsup("loop modification analysis does not converge")
		}
		savedH := x.hyps
		savedR := len(fr.returns)
		savedD := len(fr.defers)
		_, backs := run()
		x.hyps = savedH
		fr.returns = fr.returns[:savedR]
		fr.defers = fr.defers[:savedD]
		backView = mkBack(backs)
		if backView == nil {
			break // no back edge feasible
		}
		w.changed = false
		for _, p := range phis {
			hphis[p] = w.widen(hphis[p], backView.phis[p], locName(p))
		}
		nH := H.clone()
		var objs []*Object
		for o := range H.objs {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		for _, o := range objs {
			if b, ok := backView.st.objs[o]; ok {
				nH.objs[o] = w.widen(H.objs[o], b, o.name)
			}
		}
		for _, k := range sortedKeys(H.ghost) {
			if b, ok := backView.st.ghost[k]; ok {
				nH.ghost[k] = w.widen(H.ghost[k], b, k)
			}
		}
		var rs []*Region
		for r := range H.regs {
			rs = append(rs, r)
		}
		for r := range w.hr {
			if _, ok := H.regs[r]; !ok {
				rs = append(rs, r)
			}
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, r := range rs {
			if _, ok := H.regs[r]; !ok {
				rc := &RegCont{}
				for i, l := range leaves(r.elem) {
					rc.leaf = append(rc.leaf, w.fresh(fmt.Sprintf("%s.%d", r.name, i), SArr(l.sort)))
				}
				nH.regs[r] = rc
				continue
			}
			b := backView.st.regs[r]
			if b == nil || b == H.regs[r] {
				continue
			}
			rc := &RegCont{leaf: append([]*Term(nil), H.regs[r].leaf...)}
			for i := range rc.leaf {
				if rc.leaf[i] != b.leaf[i] && !w.hv[rc.leaf[i]] {
					rc.leaf[i] = w.fresh(fmt.Sprintf("%s.%d", r.name, i), rc.leaf[i].sort)
				}
			}
			nH.regs[r] = rc
		}
		for k, b := range backView.st.heap {
			h := x.heapArr(H, k, b.sort.elem)
			if h != b && !w.hv[h] {
				nH.heap[k] = w.fresh("H."+k, b.sort)
			}
		}
		if backView.st.alloc != H.alloc && !w.hv[H.alloc] {
			nH.alloc = w.fresh("alloc", SInt)
			allocH = nH.alloc
		}
		H = nH
		if !w.changed {
			break
		}
	}
	x.discover--
	x.trial--
	for _, p := range phis {
		fr.regs[p] = hphis[p]
	}
	hv := &view{st: H, phis: hphis}
	x.cond = H.pc
	x.st = H
	if backView == nil {
		// the body never reaches the header again: at most one iteration
		return first(run())
	}
	if allocH != nil {
		x.assumeT(c.Ge(allocH, E.alloc))
	}
	// facts true of any slice value
	for _, p := range phis {
		x.sliceFacts(hphis[p], w)
	}
	for _, o := range sortedObjs(H.objs) {
		x.sliceFacts(H.objs[o], w)
	}
	if x.discover > 0 {
		return first(run())
	}
	baseHyps := x.hyps
	locs := x.loopLocs(fr, L, H, phis, hphis, w)
	cands := x.candidates(fr, L, ev, hv, backView, locs, w, hphis)
	if keep, ok := x.loopMemo[key]; ok {
		var cs []*cand
		for _, cd := range cands {
			if keep[cd.name] {
				cs = append(cs, cd)
			}
		}
		cands = cs
	}
	// --- initiation
	{
		var goals []*Term
		for _, cd := range cands {
			x.cond = E.pc
			goals = append(goals, c.Imp(E.pc, x.specEval(func() *Term { return cd.build(ev) })))
		}
		ok := x.prover.CheckAll(baseHyps, goals, nil, x.candTimeout())
		var cs []*cand
		for i, cd := range cands {
			if ok[i] {
				cs = append(cs, cd)
			}
		}
		cands = cs
	}
	// --- consecution
	trialRun := func() *view {
		x.hyps = baseHyps
		x.cond = H.pc
		for _, cd := range cands {
			x.assumeT(cd.h)
		}
		x.trial++
		savedR := len(fr.returns)
		savedD := len(fr.defers)
		_, backs := run()
		fr.returns = fr.returns[:savedR]
		fr.defers = fr.defers[:savedD]
		x.trial--
		return mkBack(backs)
	}
	// floats kept finite at the header
	var musts []mustFinite
	musts = x.mustFinites(H, backView, phis, hphis, w)
	if len(cands) > 0 || len(musts) > 0 {
		b := trialRun()
		var lost []*cand
		for b != nil && len(cands) > 0 {
			bodyHyps := x.hyps // includes candidates + facts assumed in the body
			var goals []*Term
			for _, cd := range cands {
				x.cond = b.st.pc
				goals = append(goals, c.Imp(b.st.pc, x.specEval(func() *Term { return cd.build(b) })))
			}
			ok := x.prover.CheckAll(bodyHyps, goals, nil, x.candTimeout())
			var cs []*cand
			dropped := 0
			for i, cd := range cands {
				if ok[i] {
					cs = append(cs, cd)
				} else {
					dropped++
					if cd.spec {
						lost = append(lost, cd)
					}
					if debugLoops {
						fmt.Fprintf(os.Stderr, "  [%s] drop %s: %.300s\n", key, cd.name, cd.h)
					}
				}
			}
			cands = cs
			if dropped == 0 {
				break
			}
			b = trialRun()
		}
		// candidates lost next to false ones get a second chance on their own
		for b != nil && len(lost) > 0 && len(lost) <= 80 {
			bodyHyps := x.hyps[:len(x.hyps):len(x.hyps)]
			var goals, extra []*Term
			// the candidates kept so far are known to hold in the next state, too
			for _, cd := range cands {
				if cd.spec {
					x.cond = b.st.pc
					bodyHyps = append(bodyHyps, c.Imp(b.st.pc, x.specEval(func() *Term { return cd.build(b) })))
				}
			}
			for _, cd := range lost {
				x.cond = b.st.pc
				goals = append(goals, c.Imp(b.st.pc, x.specEval(func() *Term { return cd.build(b) })))
				extra = append(extra, c.Imp(H.pc, cd.h))
			}
			ok := x.prover.checkAll(bodyHyps, goals, extra, x.candTimeout(), false, true)
			var left []*cand
			for i, cd := range lost {
				if ok[i] {
					cands = append(cands, cd)
					if debugLoops {
						fmt.Fprintf(os.Stderr, "  [%s] rescue %s\n", key, cd.name)
					}
				} else {
					left = append(left, cd)
				}
			}
			if len(left) == len(lost) {
				break
			}
			lost = left
			b = trialRun()
		}
		if b != nil {
			var goals []*Term
			musts = x.mustFinites(H, b, phis, hphis, w)
			for _, m := range musts {
				goals = append(goals, c.Imp(b.st.pc, m.goal))
			}
			bad := false
			for i, ok := range x.prover.CheckAll(x.hyps, goals, nil, x.candTimeout()) {
				if !ok {
					if w.symKind[musts[i].name] {
						unsup("float of unknown kind in a loop")
					}
					w.symKind[musts[i].name] = true
					bad = true
					if debugLoops {
						fmt.Fprintf(os.Stderr, "  [%s] not known finite: %s\n", key, musts[i].name)
					}
				}
			}
			if bad {
				x.hyps = hyps0
				delete(x.loopMemo, key)
				return x.runLoop(fr, L, inc)
			}
		}
		x.hyps = baseHyps
	}
	keep := map[string]bool{}
	for _, cd := range cands {
		keep[cd.name] = true
	}
	x.loopMemo[key] = keep
	if debugLoops {
		fmt.Fprintf(os.Stderr, "loop %s: %d invariants\n", key, len(cands))
		for _, cd := range cands {
			fmt.Fprintf(os.Stderr, "    %s: %.400s\n", cd.name, cd.h)
		}
	}
	x.hyps = baseHyps
	x.cond = H.pc
	x.st = H
	for _, cd := range cands {
		x.assumeT(cd.h)
	}
	if x.trial == 0 {
		x.invProved += 2 * len(cands)
	}
	ex, _ := run()
	return ex
}

var debugLoops = os.Getenv("VCG_LOOPS") != ""

type mustFinite struct {
	name string
	goal *Term
}

// mustFinites lists the floats that are finite at the header by construction
// and carry a kind after the body.
func (x *Exec) mustFinites(H *State, b *view, phis []*ssa.Phi, hphis map[*ssa.Phi]Val, w *widener) []mustFinite {
	var out []mustFinite
	var rec func(h, b Val, name string)
	rec = func(h, b Val, name string) {
		switch hv := h.(type) {
		case VF:
			if bv, ok := b.(VF); ok && hv.kind == nil && bv.kind != nil {
				out = append(out, mustFinite{name, x.isKind(bv, 0)})
			}
		case VStruct:
			if bv, ok := b.(VStruct); ok {
				for i := range hv.fields {
					rec(hv.fields[i], bv.fields[i], name+"."+hv.typ.Underlying().(*types.Struct).Field(i).Name())
				}
			}
		case VTuple:
			if bv, ok := b.(VTuple); ok {
				for i := range hv.vals {
					rec(hv.vals[i], bv.vals[i], fmt.Sprintf("%s.%d", name, i))
				}
			}
		}
	}
	for _, p := range phis {
		rec(hphis[p], b.phis[p], locName(p))
	}
	for _, o := range sortedObjs(H.objs) {
		if bv, ok := b.st.objs[o]; ok {
			rec(H.objs[o], bv, o.name)
		}
	}
	for _, k := range sortedKeys(H.ghost) {
		if bv, ok := b.st.ghost[k]; ok {
			rec(H.ghost[k], bv, k)
		}
	}
	return out
}

// finiteEntry drops the kind of the floats that are finite when the loop is
// entered.
func (x *Exec) finiteEntry(E *State, ev *view, phis []*ssa.Phi) *State {
	c := x.c
	var goals []*Term
	idx := map[*Term]int{}
	var find func(v Val)
	find = func(v Val) {
		switch t := v.(type) {
		case VF:
			if t.kind != nil {
				if _, ok := idx[t.kind]; !ok {
					idx[t.kind] = len(goals)
					goals = append(goals, c.Imp(E.pc, x.isKind(t, 0)))
				}
			}
		case VStruct:
			for _, f := range t.fields {
				find(f)
			}
		}
	}
	for _, p := range phis {
		find(ev.phis[p])
	}
	for _, o := range sortedObjs(E.objs) {
		find(E.objs[o])
	}
	if len(goals) == 0 {
		return E
	}
	ok := x.prover.CheckAll(x.hyps, goals, nil, x.candTimeout())
	var drop func(v Val) Val
	drop = func(v Val) Val {
		switch t := v.(type) {
		case VF:
			if t.kind != nil && ok[idx[t.kind]] {
				t.kind = nil
			}
			return t
		case VStruct:
			n := VStruct{typ: t.typ}
			for _, f := range t.fields {
				n.fields = append(n.fields, drop(f))
			}
			return n
		}
		return v
	}
	E = E.clone()
	ev.st = E
	for _, p := range phis {
		ev.phis[p] = drop(ev.phis[p])
	}
	for _, o := range sortedObjs(E.objs) {
		E.objs[o] = drop(E.objs[o])
	}
	return E
}

func first(a, b []edge) []edge { return a }

func sortedObjs(m map[*Object]Val) []*Object {
	var out []*Object
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (x *Exec) sliceFacts(v Val, w *widener) {
	c := x.c
	switch t := v.(type) {
	case VStruct:
		for _, f := range t.fields {
			x.sliceFacts(f, w)
		}
	case VSlice:
		for _, a := range t.alts {
			if a.reg != nil && (w.hv[a.ln] || w.hv[a.capa] || w.hv[a.off]) {
				// type invariant of slice values
				x.assumeT(c.And(c.Ge(a.ln, c.Int(0)), c.Ge(a.capa, a.ln), c.Ge(a.off, c.Int(0))))
			}
		}
	}
}

func (x *Exec) specEval(f func() *Term) *Term {
	x.spec++
	defer func() { x.spec-- }()
	return f()
}

var candMs, _ = strconv.Atoi(envOr("VCG_CANDMS", "1500"))

func (x *Exec) candTimeout() int { return candMs }

// ---------------------------------------------------------------------------
// candidate invariants

type loopLocs struct {
	ints, floats, bools []loc
	slices       []loc       // slices whose value or content changes
	regSlices    []VSlice    // fixed slice values over modified regions
	regs         []*Region   // modified regions
}

func (x *Exec) loopLocs(fr *frame, L *Loop, H *State, phis []*ssa.Phi, hphis map[*ssa.Phi]Val, w *widener) *loopLocs {
	ll := &loopLocs{}
	var rec func(v Val, l loc)
	rec = func(v Val, l loc) {
		switch t := v.(type) {
		case VT:
			if w.hv[t.t] && t.t.sort == SInt {
				ll.ints = append(ll.ints, l)
			}
			if w.hv[t.t] && t.t.sort == SBool {
				ll.bools = append(ll.bools, l)
			}
		case VF:
			if w.hv[t.v] || t.kind != nil && w.hv[t.kind] {
				ll.floats = append(ll.floats, l)
			}
		case VStruct:
			for i := range t.fields {
				f := t.typ.Underlying().(*types.Struct).Field(i)
				if isTime(f.Type()) {
					continue
				}
				n := l
				n.path = append(append([]int(nil), l.path...), i)
				n.name = l.name + "." + f.Name()
				rec(t.fields[i], n)
			}
		case VSlice:
			if len(t.alts) == 1 && t.alts[0].reg != nil {
				a := t.alts[0]
				ch := w.hr[a.reg] || w.hv[a.ln] || w.hv[a.off]
				if rc := H.regs[a.reg]; rc != nil {
					for _, lf := range rc.leaf {
						if w.hv[lf] {
							ch = true
						}
					}
				}
				if ch {
					ll.slices = append(ll.slices, l)
				}
			}
		}
	}
	for _, p := range phis {
		if !isTime(p.Type()) {
			rec(hphis[p], loc{name: locName(p), phi: p})
		}
	}
	for _, o := range sortedObjs(H.objs) {
		rec(H.objs[o], loc{name: o.name, obj: o})
	}
	// modified regions reachable through fixed slice values (registers)
	have := map[*Region]bool{}
	for f := x.cur; f != nil; f = f.parent {
		for _, v := range sortedVals(f.regs) {
			if p, ok := v.(*ssa.Phi); ok {
				if _, is := hphis[p]; is {
					continue
				}
			}
			if ins, ok := v.(ssa.Instruction); ok && f == fr && L.blocks[ins.Block()] {
				continue
			}
			s, ok := f.regs[v].(VSlice)
			if !ok || len(s.alts) != 1 || s.alts[0].reg == nil || have[s.alts[0].reg] {
				continue
			}
			rc := H.regs[s.alts[0].reg]
			if rc == nil {
				continue
			}
			for _, lf := range rc.leaf {
				if w.hv[lf] {
					have[s.alts[0].reg] = true
					ll.regSlices = append(ll.regSlices, s)
					break
				}
			}
		}
	}
	var rs []*Region
	for r, rc := range H.regs {
		for _, lf := range rc.leaf {
			if w.hv[lf] {
				rs = append(rs, r)
				break
			}
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	ll.regs = rs
	return ll
}

type sliceRef struct {
	name string
	get  func(v *view) VSlice
	elem types.Type
}

func (x *Exec) candidates(fr *frame, L *Loop, ev, hv, bv *view, ll *loopLocs, w *widener, hphis map[*ssa.Phi]Val) []*cand {
	c := x.c
	var out []*cand
	seen := map[*Term]bool{}
	isSpec := false
	add := func(name string, build func(v *view) *Term) {
		h := x.specEval(func() *Term { return build(hv) })
		if h == nil || h == c.True || h == c.False || seen[h] {
			return
		}
		if h.op == OAnd {
			n := 0
			for i := range h.args {
				i := i
				if seen[h.args[i]] {
					continue
				}
				n++
				seen[h.args[i]] = true
				// conjuncts become separate candidates only when the structure is stable
				_ = i
			}
			if n == 0 {
				return
			}
		}
		seen[h] = true
		out = append(out, &cand{name: name, build: build, h: h, spec: isSpec})
	}
	it := func(v *view, l loc) *Term { return v.val(l).(VT).t }
	type counter struct {
		name string
		get  func(v *view) *Term
		dir  int
		init *Term
	}
	var counters []counter
	for _, l := range ll.ints {
		l := l
		d := c.Sub(it(bv, l), it(hv, l))
		dir := 0
		if d.op == ONum {
			dir = d.num.Sign()
		}
		counters = append(counters, counter{l.name, func(v *view) *Term { return it(v, l) }, dir, it(ev, l)})
	}
	for _, l := range ll.slices {
		l := l
		s := hv.val(l).(VSlice)
		if w.hv[s.alts[0].ln] {
			counters = append(counters, counter{"len(" + l.name + ")", func(v *view) *Term { return x.sliceLen(v.val(l).(VSlice)) }, 1, x.sliceLen(ev.val(l).(VSlice))})
		}
	}
	if w.hv[hv.st.alloc] {
		// the number of allocated heap objects
		counters = append(counters, counter{"alloc", func(v *view) *Term { return v.st.alloc }, 1, ev.st.alloc})
	}
	// ghost ints are handled through ints (obj)
	for _, k := range counters {
		k := k
		if k.dir >= 0 {
			add(k.name+">=init", func(v *view) *Term { return c.Ge(k.get(v), k.init) })
		}
		if k.dir <= 0 {
			add(k.name+"<=init", func(v *view) *Term { return c.Le(k.get(v), k.init) })
		}
	}
	for i := range counters {
		for j := i + 1; j < len(counters); j++ {
			a, b := counters[i], counters[j]
			if a.dir == b.dir {
				add(a.name+"-"+b.name, func(v *view) *Term { return c.Eq(c.Sub(a.get(v), b.get(v)), c.Sub(a.init, b.init)) })
			} else {
				add(a.name+"+"+b.name, func(v *view) *Term { return c.Eq(c.Add(a.get(v), b.get(v)), c.Add(a.init, b.init)) })
			}
		}
	}
	// bounds from comparisons occurring in the loop
	for bi, b := range fr.loops.rpo {
		if !L.blocks[b] {
			continue
		}
		for ii, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			var lhs, rhs Val
			func() {
				defer func() { recover() }()
				lhs, rhs = x.val(fr, bo.X), x.val(fr, bo.Y)
			}()
			lt, ok1 := lhs.(VT)
			rt, ok2 := rhs.(VT)
			if !ok1 || !ok2 || lt.t.sort != SInt {
				continue
			}
			m := map[*Term]int{}
			for i, k := range counters {
				m[k.get(hv)] = i
			}
			mk := func(t *Term) func(v *view) *Term {
				return func(v *view) *Term {
					sub := map[*Term]*Term{}
					for _, k := range counters {
						sub[k.get(hv)] = k.get(v)
					}
					return c.Subst(t, sub)
				}
			}
			// only terms over header counters and loop-invariant symbols
			d := c.Sub(lt.t, rt.t)
			okVars := true
			for v := range freeVars(d) {
				if _, is := m[v]; !is && v.id > w.id0 {
					okVars = false
				}
			}
			if !okVars {
				continue
			}
			nm := fmt.Sprintf("cmp%d.%d", bi, ii)
			ds := mk(d)
			add(nm+"<=", func(v *view) *Term { return c.Le(ds(v), c.Int(0)) })
			add(nm+"<", func(v *view) *Term { return c.Lt(ds(v), c.Int(0)) })
			add(nm+"<=1", func(v *view) *Term { return c.Le(ds(v), c.Int(1)) })
			add(nm+">=", func(v *view) *Term { return c.Ge(ds(v), c.Int(0)) })
			add(nm+">", func(v *view) *Term { return c.Gt(ds(v), c.Int(0)) })
			add(nm+">=-1", func(v *view) *Term { return c.Ge(ds(v), c.Int(-1)) })
		}
	}
	// finite floats
	for _, l := range ll.floats {
		l := l
		if f := hv.val(l).(VF); f.kind != nil {
			add(l.name+".finite", func(v *view) *Term { return x.isKind(v.val(l).(VF), 0) })
		}
	}
	// unchanged parts of modified regions
	for _, r := range ll.regs {
		r := r
		if _, ok := ev.st.regs[r]; !ok {
			continue // abstract region
		}
		for i := range hv.st.regs[r].leaf {
			i := i
			if !w.hv[hv.st.regs[r].leaf[i]] {
				continue
			}
			for _, k := range counters {
				k := k
				unch := func(v *view, rng func(b *Term) *Term) *Term {
					b := c.FreshBV("k", SInt)
					return c.Forall(b, c.Imp(rng(b), c.Eq(c.Select(v.st.regs[r].leaf[i], b), c.Select(ev.st.regs[r].leaf[i], b))))
				}
				if k.dir >= 0 {
					add(fmt.Sprintf("unch>=%s %s.%d", k.name, r.name, i), func(v *view) *Term {
						return unch(v, func(b *Term) *Term { return c.Ge(b, k.get(v)) })
					})
					add(fmt.Sprintf("unch>%s %s.%d", k.name, r.name, i), func(v *view) *Term {
						return unch(v, func(b *Term) *Term { return c.Gt(b, k.get(v)) })
					})
					add(fmt.Sprintf("unch<%s0 %s.%d", k.name, r.name, i), func(v *view) *Term {
						return unch(v, func(b *Term) *Term { return c.Lt(b, k.init) })
					})
				}
				if k.dir <= 0 {
					add(fmt.Sprintf("unch<=%s %s.%d", k.name, r.name, i), func(v *view) *Term {
						return unch(v, func(b *Term) *Term { return c.Le(b, k.get(v)) })
					})
					add(fmt.Sprintf("unch>%s0 %s.%d", k.name, r.name, i), func(v *view) *Term {
						return unch(v, func(b *Term) *Term { return c.Gt(b, k.init) })
					})
				}
			}
		}
	}
	// slices usable as metavariables
	var srefs []sliceRef
	for _, l := range ll.slices {
		l := l
		srefs = append(srefs, sliceRef{l.name, func(v *view) VSlice { return v.val(l).(VSlice) }, hv.val(l).(VSlice).elem})
	}
	for i, s := range ll.regSlices {
		s := s
		dup := false
		for _, o := range srefs {
			os := o.get(hv)
			if len(os.alts) == 1 && os.alts[0].reg == s.alts[0].reg {
				dup = true
			}
		}
		if dup {
			continue
		}
		srefs = append(srefs, sliceRef{fmt.Sprintf("r%d.%s", i, s.alts[0].reg.name), func(v *view) VSlice { return s }, s.elem})
	}
	// objects allocated before the loop keep their fields
	type arrRef struct {
		name string
		n    int
		get  func(v *view, i int) *Term
	}
	var arefs []arrRef
	for _, sr := range srefs {
		sr := sr
		arefs = append(arefs, arrRef{sr.name, len(leaves(sr.elem)), func(v *view, i int) (t *Term) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			return x.readArr(v.st, sr.get(v), i)
		}})
	}
	for _, k := range sortedKeys(hv.st.heap) {
		k := k
		if !w.hv[hv.st.heap[k]] {
			continue
		}
		es := hv.st.heap[k].sort.elem
		get := func(v *view, _ int) *Term { return x.heapArr(v.st, k, es) }
		arefs = append(arefs, arrRef{"heap " + k, 1, get})
		add("unch<=alloc0 "+k, func(v *view) *Term {
			b := c.FreshBV("k", SInt)
			return c.Forall(b, c.Imp(c.Le(b, ev.st.alloc), c.Eq(c.Select(get(v, 0), b), c.Select(get(ev, 0), b))))
		})
	}
	// stores of a value that depends on the position only
	for _, sr := range arefs {
		sr := sr
		arr := sr.get
		for i := 0; i < sr.n; i++ {
			i := i
			h, bt, e := arr(hv, i), arr(bv, i), arr(ev, i)
			if h == nil || bt == nil || e == nil {
				continue
			}
			idx, val := storedAt(c, bt, h)
			if debugLoops {
				fmt.Fprintf(os.Stderr, "  stored %s.%d: %v := %.200v   [%.200s]\n", sr.name, i, idx, val, bt)
			}
			if idx == nil {
				continue
			}
			val = c.Subst(val, map[*Term]*Term{c.Select(h, idx): c.Select(e, idx)})
			ctr := map[*Term]int{}
			for k, q := range counters {
				ctr[q.get(hv)] = k
			}
			ok := true
			mentioned := map[*Term]bool{}
			for v := range freeVars(c.And(c.Eq(c.Fresh("t", val.sort), val), c.Eq(c.Fresh("t", idx.sort), idx))) {
				mentioned[v] = true
			}
			for v := range freeVars(c.And(c.Eq(idx, idx), c.Eq(val, val), c.Eq(c.Fresh("t", idx.sort), idx), c.Eq(c.Fresh("t", val.sort), val))) {
				if _, is := ctr[v]; !is && v.id > w.id0 && !strings.HasPrefix(v.name, "t!") && (w.hv[v] || !strings.HasPrefix(v.name, "H.")) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			for k := range counters {
				k := k
				q := counters[k]
				d := c.Sub(idx, q.get(hv))
				if d.op != ONum {
					continue
				}
				st := c.Sub(q.get(bv), q.get(hv))
				if st.op != ONum || st.num.Cmp(oneRat) != 0 && st.num.Cmp(minusOne) != 0 {
					continue
				}
				up := st.num.Sign() > 0
				// position j was written when q was j-d
				add(fmt.Sprintf("map[%s] %s.%d", q.name, sr.name, i), func(v *view) *Term {
					j := c.FreshBV("k", SInt)
					at := c.Sub(j, d)
					sub := map[*Term]*Term{}
					for _, o := range counters {
						s2 := c.Sub(o.get(bv), o.get(hv))
						if s2.op != ONum {
							if mentioned[o.get(hv)] {
								return c.True
							}
							continue
						}
						// o = o.init + s2*(q - q.init)/st
						delta := c.Sub(at, q.init)
						if !up {
							delta = c.Neg(delta)
						}
						sub[o.get(hv)] = c.Add(o.init, c.Scale(delta, s2.num))
					}
					rng := c.And(c.Ge(at, q.init), c.Lt(at, q.get(v)))
					if !up {
						rng = c.And(c.Le(at, q.init), c.Gt(at, q.get(v)))
					}
					return c.Forall(j, c.Imp(rng, c.Eq(c.Select(arr(v, i), j), c.Subst(val, sub))))
				})
				break
			}
		}
	}
	// values carried over from the previous round: l = E(counters) at its end
	// means l = E(counters - steps) at the next header
	{
		ctr := map[*Term]int{}
		for k, q := range counters {
			ctr[q.get(hv)] = k
		}
		lag := func(l loc, name string, e *Term, get func(v *view) *Term) {
			if e == nil || get(hv) == nil || !w.hv[get(hv)] {
				return
			}
			used := false
			for v := range freeVars(c.Eq(c.Fresh("t", e.sort), e)) {
				if strings.HasPrefix(v.name, "t!") {
					continue
				}
				if k, is := ctr[v]; is {
					st := c.Sub(counters[k].get(bv), counters[k].get(hv))
					if st.op != ONum {
						return
					}
					used = true
				} else if w.hv[v] {
					return
				}
			}
			if !used {
				return
			}
			add("lag "+name, func(v *view) *Term {
				sub := map[*Term]*Term{}
				for _, o := range counters {
					if s2 := c.Sub(o.get(bv), o.get(hv)); s2.op == ONum {
						sub[o.get(hv)] = c.Sub(o.get(v), s2)
					}
				}
				return c.Eq(get(v), c.Subst(e, sub))
			})
		}
		for _, l := range ll.floats {
			l := l
			lag(l, l.name, bv.val(l).(VF).v, func(v *view) *Term { return v.val(l).(VF).v })
		}
		for _, l := range ll.bools {
			l := l
			lag(l, l.name, bv.val(l).(VT).t, func(v *view) *Term { return v.val(l).(VT).t })
		}
	}
	if debugLoops {
		fmt.Fprintf(os.Stderr, "loop in %s: ints", fr.fn.Name())
		for _, k := range counters {
			fmt.Fprintf(os.Stderr, " %s(dir %d init %.60s)", k.name, k.dir, k.init)
		}
		fmt.Fprintf(os.Stderr, " floats")
		for _, l := range ll.floats {
			fmt.Fprintf(os.Stderr, " %s", l.name)
		}
		fmt.Fprintf(os.Stderr, " slices")
		for _, s := range srefs {
			fmt.Fprintf(os.Stderr, " %s", s.name)
		}
		fmt.Fprintln(os.Stderr)
	}
	// templates of the task
	tc := &tmplCtx{x: x, ev: ev, hv: hv, bv: bv, add: add, w: w}
	for _, k := range counters {
		tc.counters = append(tc.counters, tmplInt{k.name, k.get, k.dir, k.init})
	}
	for _, l := range ll.floats {
		l := l
		tc.floats = append(tc.floats, tmplFloat{l.name, func(v *view) Val { return v.val(l) }})
	}
	for _, l := range ll.bools {
		l := l
		tc.bools = append(tc.bools, tmplFloat{l.name, func(v *view) Val { return v.val(l) }})
	}
	for f := x.cur; f != nil; f = f.parent {
		for _, v := range sortedVals(f.regs) {
			ph, ok := v.(*ssa.Phi)
			if !ok {
				continue
			}
			if _, is := hphis[ph]; is {
				continue
			}
			if f == fr && L.blocks[ph.Block()] {
				continue
			}
			if t, ok := f.regs[v].(VT); ok && t.t.sort == SInt {
				tt := t.t
				tc.outer = append(tc.outer, tmplInt{"outer." + locName(ph), func(v *view) *Term { return tt }, 0, tt})
			}
		}
	}
	tc.slices = append(tc.slices, srefs...)
	for _, s := range srefs {
		s := s
		if _, ok := s.elem.Underlying().(*types.Struct); !ok || isTime(s.elem) {
			continue
		}
		for i, lf := range leaves(s.elem) {
			i, lf := i, lf
			if isTime(lf.typ) {
				continue
			}
			tc.slices = append(tc.slices, sliceRef{fmt.Sprintf("%s.%d", s.name, i), func(v *view) VSlice {
				q := s.get(v)
				return VSlice{elem: lf.typ, alts: q.alts, lb: i, path: lf.path}
			}, lf.typ})
		}
	}
	isSpec = true
	x.task.templates(tc)
	return out
}

type tmplInt struct {
	name string
	get  func(v *view) *Term
	dir  int
	init *Term
}
type tmplFloat struct {
	name string
	get  func(v *view) Val
}
type tmplCtx struct {
	x          *Exec
	ev, hv, bv *view
	add        func(name string, build func(v *view) *Term)
	counters   []tmplInt
	outer      []tmplInt
	floats     []tmplFloat
	bools      []tmplFloat
	slices     []sliceRef
	w          *widener
}

// unchanged: the loop does not write the slice.
func (tc *tmplCtx) unchanged(s sliceRef) bool {
	a, b := s.get(tc.ev), s.get(tc.hv)
	if tc.x.sliceLen(a) != tc.x.sliceLen(b) {
		return false
	}
	for i := range leaves(s.elem) {
		if tc.x.readArr(tc.ev.st, a, i) != tc.x.readArr(tc.hv.st, b, i) {
			return false
		}
	}
	return true
}

// unrollSpec executes loops in specification code only when they terminate syntactically.
func (x *Exec) unrollSpec(fr *frame, L *Loop, inc []edge) []edge {
	var exits []edge
	for n := 0; n < 40; n++ {
		st := x.mergeEdges(fr, L.header, inc, false)
		ex, backs := x.runRegion(fr, L, []edge{{to: L.header, st: st}})
		exits = append(exits, ex...)
		if len(backs) == 0 {
			return exits
		}
		inc = backs
	}
	unsup("loop in specification code: %s", fr.fn.Name())
	return nil
}

// tryUnroll fully unrolls loops with few, syntactically known iterations.
func (x *Exec) tryUnroll(fr *frame, L *Loop, inc []edge) (res []edge, ok bool) {
	const maxN = 6
	if !x.constHeader(fr, L, inc) {
		return nil, false
	}
	savedH, savedO, savedR, savedD := x.hyps, len(x.obls), len(fr.returns), len(fr.defers)
	var exits []edge
	for n := 0; n <= maxN; n++ {
		st := x.mergeEdges(fr, L.header, inc, false)
		x.unrollDepth++
		ex, backs := x.runRegion(fr, L, []edge{{to: L.header, st: st}})
		x.unrollDepth--
		exits = append(exits, ex...)
		if len(backs) == 0 {
			return exits, true
		}
		// the loop condition did not simplify: give up at once
		if n == 0 && len(ex) > 0 {
			break
		}
		if x.unrollDepth > 1 {
			break
		}
		inc = backs
	}
	x.hyps = savedH
	x.obls = x.obls[:savedO]
	fr.returns = fr.returns[:savedR]
	fr.defers = fr.defers[:savedD]
	return nil, false
}

// constHeader: does the header's own branch condition simplify to a constant?
func (x *Exec) constHeader(fr *frame, L *Loop, inc []edge) bool {
	h := L.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	savedH, savedO, savedCond, savedSt := x.hyps, len(x.obls), x.cond, x.st
	st := x.mergeEdges(fr, h, inc, false)
	n := 0
	x.trial++
	x.execBlock(fr, h, st, func(edge) { n++ })
	x.trial--
	x.hyps, x.cond, x.st = savedH, savedCond, savedSt
	x.obls = x.obls[:savedO]
	return n <= 1
}

var _ = strings.TrimSpace

func sortedVals(m map[ssa.Value]Val) []ssa.Value {
	var vs []ssa.Value
	for v := range m {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Pos() != vs[j].Pos() {
			return vs[i].Pos() < vs[j].Pos()
		}
		return vs[i].Name() < vs[j].Name()
	})
	return vs
}

// storedAt: t is h with one position overwritten.
func storedAt(c *TC, t, h *Term) (idx, val *Term) {
	switch t.op {
	case OStore:
		if t.args[0] == h {
			return t.args[1], t.args[2]
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		i1, v1 := storedAt(c, a, h)
		i2, v2 := storedAt(c, b, h)
		if i1 == nil && a == h {
			i1 = i2
			if i2 != nil {
				v1 = c.Select(h, i2)
			}
		}
		if i2 == nil && b == h {
			i2 = i1
			if i1 != nil {
				v2 = c.Select(h, i1)
			}
		}
		if i1 != nil && i1 == i2 {
			return i1, c.Ite(t.args[0], v1, v2)
		}
	}
	return nil, nil
}

var oneRat = big.NewRat(1, 1)
