package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Task verifies one contract.
type Task struct {
	w        *World
	contract *Contract
	fnSigs   map[string]*types.Signature
	x        *Exec
	args     []Val // entry arguments
	entry    *State
	secs     float64
	err      string // unsupported construct / internal failure
	obls     []*Obligation
	postLocs []string
	vacuous  bool
	tmplSt   *State
	effort   int
}

func newExec(w *World, t *Task) *Exec {
	c := NewTC()
	x := &Exec{t0: time.Now(), known: map[*ssa.Function]bool{}, w: w, c: c, task: t, prover: &Prover{c: c, effort: t.effort, locals: map[*Term][]*Term{}, refArrs: map[*Term]bool{}, refMemo: map[*Term]bool{}, elims: map[string]*elimRes{}, cache: map[string]*Result{}},
		globals: map[*ssa.Global]*Object{}, notes: map[string]bool{}, funcs: map[string]bool{}, usedContracts: map[string]bool{},
		freshRes: map[*Region]bool{}, loopMemo: map[string]map[string]bool{}, symKind: map[string]map[string]bool{}, specDefs: map[string]*specDef{}}
	t.x = x
	return x
}

// Run generates and discharges all obligations of the contract.
func (t *Task) Run() {
	t0 := time.Now()
	defer func() {
		t.secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				t.err = "outside the supported subset: " + u.msg
			} else {
				t.err = fmt.Sprintf("internal: %v", r)
				if os.Getenv("VCG_DEBUG") != "" {
					debug.PrintStack()
				}
			}
			if t.x != nil && t.x.cur != nil {
				t.err += " (in " + t.x.posn() + ")"
			}
		}
		if t.x != nil && t.obls == nil {
			t.obls = t.x.obls
		}
	}()
	// First with quick checks of the candidate invariants; when an obligation is
	// not discharged and candidates were given up, again with thorough ones.
	for t.effort = 1; t.effort <= 2; t.effort++ {
		t.args, t.obls, t.err = nil, nil, ""
		if t.attempt() || t.x.prover.dropped == 0 {
			return
		}
	}
}

func (t *Task) attempt() bool {
	if t.effort == 1 {
		defer func() {
			if r := recover(); r != nil {
				if t.x == nil || t.x.prover.dropped == 0 {
					panic(r)
				}
			}
		}()
	}
	t.generate()
	all := true
	for _, o := range t.obls {
		t.x.prover.Discharge(o)
		if o.status != "proved" {
			all = false
			if failFast || t.effort == 1 && t.x.prover.dropped > 0 {
				if os.Getenv("VCG_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "EFFORT1 %.1fs fails %s (%d dropped): %.300s\n", time.Since(t.x.t0).Seconds(), o.name, t.x.prover.dropped, o.failGoal)
				}
				if os.Getenv("VCG_HYPS") != "" {
					for _, h := range o.hyps {
						fmt.Fprintf(os.Stderr, "    hyp %.300s\n", h)
					}
				}
				return false
			}
		}
	}
	return all
}

var failFast = false

func (t *Task) generate() {
	x := newExec(t.w, t)
	c := x.c
	ct := t.contract
	fn := ct.target
	st := &State{pc: c.True, objs: map[*Object]Val{}, regs: map[*Region]*RegCont{}, heap: map[string]*Term{}, alloc: c.Var("alloc0", SInt), ghost: map[string]Val{}}
	x.st = st
	x.cond = c.True
	x.hyps = append(x.hyps, c.Ge(st.alloc, c.Int(0)))
	t.fnSigs = map[string]*types.Signature{}
	for _, p := range fn.Params {
		if sg, ok := p.Type().Underlying().(*types.Signature); ok {
			t.fnSigs[p.Name()] = sg
		}
		t.args = append(t.args, x.fresh(p.Type(), p.Name(), st))
	}
	for r := range st.regs {
		r.input = true
		r.fullLen = nil
	}
	for _, a := range t.args {
		markFull(a, st)
	}
	t.entry = st.clone()
	x.entry = t.entry
	if ct.pre != nil {
		v, _ := x.specCall(ct.pre, t.args, nil, st)
		x.assumeT(v.(VT).t)
	}
	if ct.use != nil {
		// instances of lemmas proved separately
		for _, b := range ct.use.Blocks {
			for _, ins := range b.Instrs {
				if cl, ok := ins.(*ssa.Call); ok {
					if f := cl.Call.StaticCallee(); f != nil && isFact(f.Name()) {
						x.usedContracts[f.String()] = true
					}
				}
			}
		}
		v, _ := x.specCall(ct.use, t.args, nil, st)
		x.assumeT(v.(VT).t)
	}
	x.prover.inputMark = c.FreshBV("mark", SInt).id
	if ct.fact != nil {
		t.induction()
		return
	}
	args := append([]Val(nil), t.args...)
	res, end := x.runFunc(fn, args, nil, st, "")
	x.st = end
	x.cond = end.pc
	if end.pc == c.False {
		panic(unsupported{"function never returns normally"})
	}
	// frame: inputs unmodified
	for _, r := range sortedRegs(t.entry.regs) {
		a, b := t.entry.regs[r], end.regs[r]
		for i := range a.leaf {
			if a.leaf[i] == b.leaf[i] {
				x.oblige("frame", "input "+r.name+" is not modified", c.True)
				continue
			}
			k := c.FreshBV("k", SInt)
			rng := c.Ge(k, c.Int(0))
			if r.fullLen != nil {
				rng = c.And(rng, c.Lt(k, r.fullLen))
			}
			x.oblige("frame", "input "+r.name+" is not modified", c.Forall(k, c.Imp(rng, c.Eq(c.Select(a.leaf[i], k), c.Select(b.leaf[i], k)))))
		}
	}
	for _, k := range sortedKeys(end.heap) {
		h := end.heap[k]
		h0 := x.heapArr(t.entry, k, h.sort.elem)
		if h == h0 {
			continue
		}
		b := c.FreshBV("k", SInt)
		x.oblige("frame", "field "+k+" of existing objects is not modified", c.Forall(b, c.Imp(c.And(c.Ge(b, c.Int(0)), c.Le(b, t.entry.alloc)), c.Eq(c.Select(h, b), c.Select(h0, b)))))
	}
	// results are finite
	var results []Val
	if tp, ok := res.(VTuple); ok {
		results = tp.vals
	} else if res != nil {
		results = []Val{res}
	}
	for i := range results {
		results[i] = x.finiteVal(results[i], "result is finite")
	}
	pargs := append(append([]Val(nil), t.args...), results...)
	v, _ := x.specCall(ct.post, pargs, nil, end)
	for i, g := range conj(v.(VT).t) {
		x.oblige("post", fmt.Sprintf("postcondition of %s, clause %d", ct.name, i+1), g)
	}
	t.obls = x.obls
	// vacuity: the hypotheses must not be contradictory
	gp := x.prover.buildGround(x.hyps, c.False, 3, 2, false)
	if os.Getenv("VCG_NOVAC") == "" {
		vac := gp.contradiction()
		if !vac {
			vac, _, _ = x.prover.solve(gp.asserts, []attempt{{"z3-new", true, 2000}})
		}
		// after a genuinely failing obligation has been assumed the context may be
		// contradictory; only report when every obligation is proved (see report).
		t.vacuous = vac
	}
}

// induction proves a lemma about a specification function: for a last integer
// parameter of at most 0 outright, and above 0 from the lemma for the value before.
func (t *Task) induction() {
	x, c, ct := t.x, t.x.c, t.contract
	k := -1
	for i, p := range ct.target.Params {
		if scalarSort(p.Type()) == SInt && !isTime(p.Type()) {
			k = i
		}
	}
	call := func(args []Val) *Term {
		v, _ := x.specCall(ct.target, args, nil, x.st)
		return v.(VT).t
	}
	goal := call(t.args)
	if k < 0 {
		x.oblige("lemma", "lemma "+ct.name, goal)
		t.obls = x.obls
		return
	}
	n := t.args[k].(VT).t
	prev := append([]Val(nil), t.args...)
	prev[k] = VT{c.Sub(n, c.Int(1))}
	hyp := call(prev)
	saved := x.hyps
	x.assumeT(c.Le(n, c.Int(0)))
	for _, g := range conj(goal) {
		x.oblige("lemma", "lemma "+ct.name+", base case", g)
	}
	x.hyps = saved
	x.assumeT(c.Gt(n, c.Int(0)))
	x.assumeT(hyp)
	for _, g := range conj(goal) {
		x.oblige("lemma", "lemma "+ct.name+", induction step", g)
	}
	t.obls = x.obls
}

func (x *Exec) finiteVal(v Val, what string) Val {
	switch f := v.(type) {
	case VF:
		if f.kind != nil {
			x.oblige("finite", what, x.c.Eq(f.kind, x.c.Int(0)))
			return VF{v: f.v}
		}
	}
	return v
}

func markFull(v Val, st *State) {
	switch a := v.(type) {
	case VSlice:
		for _, s := range a.alts {
			if s.reg != nil {
				s.reg.fullLen = s.ln
			}
		}
	case VStruct:
		for _, f := range a.fields {
			markFull(f, st)
		}
	case VPtr:
		for _, p := range a.alts {
			if p.kind == PObj {
				markFull(st.objs[p.obj], st)
			}
		}
	}
}

func sortedRegs(m map[*Region]*RegCont) []*Region {
	var out []*Region
	for r := range m {
		out = append(out, r)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].id < out[j-1].id; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(ct *Contract, fn *ssa.Function, args []Val, st *State) (Val, *State) {
	c := x.c
	x.usedContracts[ct.key] = true
	if ct.pre != nil {
		v, _ := x.specCall(ct.pre, args, nil, st)
		for _, g := range conj(v.(VT).t) {
			x.oblige("pre", "precondition of "+ct.name, g)
		}
	}
	for i, p := range fn.Params {
		if f, ok := args[i].(VF); ok && f.kind != nil {
			x.oblige("finite", "argument "+p.Name()+" of "+ct.name+" is finite", c.Eq(f.kind, c.Int(0)))
			args[i] = VF{v: f.v}
		}
	}
	var results []Val
	rs := fn.Signature.Results()
	old := map[*Region]bool{}
	for r := range st.regs {
		old[r] = true
	}
	for i := 0; i < rs.Len(); i++ {
		results = append(results, x.fresh(rs.At(i).Type(), fn.Name()+".ret", st))
	}
	for r := range st.regs {
		if !old[r] {
			x.freshRes[r] = true
		}
	}
	for _, r := range results {
		markFull(r, st)
	}
	s := st.clone()
	s.pc = c.True
	savedA, savedCond, savedSt := x.assume, x.cond, x.st
	x.assume = true
	x.cond = c.True
	x.st = s
	v, ns := x.specCall(ct.post, append(append([]Val(nil), args...), results...), nil, s)
	x.assume, x.cond, x.st = savedA, savedCond, savedSt
	for r := range st.regs {
		if !old[r] {
			delete(x.freshRes, r)
		}
	}
	x.assumeT(v.(VT).t)
	out := st
	for r, rc := range ns.regs {
		out.regs[r] = rc
	}
	for _, r := range results {
		if s, ok := r.(VSlice); ok {
			x.recognise(s, out)
		}
	}
	switch len(results) {
	case 0:
		return nil, out
	case 1:
		return results[0], out
	}
	return VTuple{results}, out
}

// recognise: a slice returned by a contract is compared with the sequences the
// task's contract names (X_seqN); where equality is proved, the rest of the task
// refers to the sequence by that name.
func (x *Exec) recognise(s VSlice, st *State) {
	c := x.c
	t := x.task
	if x.spec > 0 || x.assume || x.discover > 0 || t.contract == nil || len(t.contract.seqs) == 0 || t.args == nil {
		return
	}
	if len(s.alts) != 1 || s.alts[0].reg == nil || scalarSort(s.elem) == nil {
		return
	}
	r := s.alts[0].reg
	tried := 0
	for _, sq := range t.contract.seqs {
		if x.known[sq] || t.effort == 1 && tried == 2 {
			continue
		}
		if !types.Identical(sq.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem(), s.elem) {
			continue
		}
		cs := st.clone()
		for er, rc := range t.entry.regs {
			if _, ok := cs.regs[er]; !ok {
				cs.regs[er] = rc
			}
		}
		v, _ := x.specCall(sq, t.args, nil, cs)
		q := v.(VSlice)
		k := c.FreshBV("k", SInt)
		want := x.readArr(cs, q, 0)
		have := x.readArr(st, s, 0)
		if want == have {
			return
		}
		tried++
		ln := x.sliceLen(q)
		goals := []*Term{c.Imp(st.pc, c.Eq(x.sliceLen(s), ln)),
			c.Imp(st.pc, c.Forall(k, c.Imp(c.And(c.Ge(k, c.Int(0)), c.Lt(k, ln)), c.Eq(c.Select(have, k), c.Select(want, k)))))}
		ok := x.prover.CheckAll(x.hyps, goals[:1], nil, x.candTimeout())
		if !ok[0] {
			continue
		}
		ok = x.prover.checkAll(append(x.hyps[:len(x.hyps):len(x.hyps)], goals[0]), goals[1:], nil, x.candTimeout(), true, false)
		if d := os.Getenv("VCG_DUMPREC"); d == r.name+"/"+sq.Name() {
			gp := x.prover.buildGround(append(x.hyps[:len(x.hyps):len(x.hyps)], goals[0]), goals[1], 3, 2, false)
			os.WriteFile("/tmp/rec.smt2", []byte(smtText(gp.asserts, "", false)), 0o644)
			fmt.Fprintln(os.Stderr, goals[1])
			for _, cs := range x.prover.cases(append(x.hyps[:len(x.hyps):len(x.hyps)], goals[0]), goals[1], 12) {
				fmt.Fprintln(os.Stderr, "CASE", cs.goal)
			}
		}
		if os.Getenv("VCG_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "%.1fs recognise %s as %s: %v\n", time.Since(x.t0).Seconds(), r.name, sq.Name(), ok[0])
		}
		if !ok[0] {
			continue
		}
		x.assumeT(goals[0])
		if have.op == OVar || x.trial > 0 || os.Getenv("G1") != "" {
			x.assumeT(goals[1])
		}
		if x.trial == 0 {
			x.known[sq] = true
		}
		st.regs[r] = &RegCont{leaf: []*Term{c.Ite(st.pc, want, have)}}
		if os.Getenv("VCG_NOPC") == "" {
			st.regs[r] = &RegCont{leaf: []*Term{want}}
		}
		return
	}
}

func (x *Exec) invokeOpaque(fr *frame, cc *ssa.CallCommon, recv VIface, args []Val, st *State) (Val, bool) {
	return nil, false
}

// ---------------------------------------------------------------------------
// candidate templates derived from the contract of the task

type collector struct {
	terms []*Term
}

// templates instantiates the task's invariant templates for one loop.
func (t *Task) templates(tc *tmplCtx) {
	x := tc.x
	ct := t.contract
	n := 0
	limit := 600
	add := func(name string, b func(v *view) *Term) {
		if n < limit {
			n++
			tc.add(name, b)
		}
	}
	t.postTemplates(tc, ct, t.args, add)
	elemOf := func(fn *ssa.Function, i int) types.Type {
		return fn.Signature.Results().At(i).Type()
	}
	call := func(v *view, fn *ssa.Function, args []Val) Val {
		st := v.st.clone()
		for r, rc := range t.entry.regs {
			if _, ok := st.regs[r]; !ok {
				st.regs[r] = rc
			}
		}
		r, _ := x.specCall(fn, args, nil, st)
		t.tmplSt = st
		return r
	}
	for _, sq := range ct.seqs {
		sq := sq
		el := elemOf(sq, 0).Underlying().(*types.Slice).Elem()
		for _, s := range tc.slices {
			s := s
			if !types.Identical(s.elem, el) || tc.unchanged(s) {
				continue
			}
			for _, cn := range tc.counters {
				for d := int64(0); d < 2; d++ {
					cn, d := cn, d
					if d == 1 && cn.dir <= 0 {
						continue
					}
					add(fmt.Sprintf("%s[%s<%s+%d]", sq.Name(), s.name, cn.name, d), func(v *view) *Term {
						c := x.c
						q := call(v, sq, t.args).(VSlice)
						st := t.tmplSt
						k := c.FreshBV("k", SInt)
						rng := c.And(c.Ge(k, c.Int(0)), c.Lt(k, c.AddN(cn.get(v), d)), c.Lt(k, x.sliceLen(q)))
						var eqs []*Term
						for i := range leaves(el) {
							eqs = append(eqs, c.Eq(c.Select(x.readArr(v.st, s.get(v), i), k), c.Select(x.readArr(st, q, i), k)))
						}
						return c.Forall(k, c.Imp(rng, c.And(eqs...)))
					})
				}
			}
			add(fmt.Sprintf("len(%s)=len(%s)", s.name, sq.Name()), func(v *view) *Term {
				q := call(v, sq, t.args).(VSlice)
				return x.c.Eq(x.sliceLen(s.get(v)), x.sliceLen(q))
			})
		}
	}
	for _, ac := range ct.accs {
		ac := ac
		isInt := scalarSort(elemOf(ac, 0)) == SInt
		for _, cn := range tc.counters {
			for _, d := range []int64{0, 1, -1} {
				cn, d := cn, d
				mk := func(v *view) Val {
					return call(v, ac, append(append([]Val(nil), t.args...), VT{x.c.AddN(cn.get(v), d)}))
				}
				if isInt {
					for _, f := range tc.counters {
						f := f
						if f.name == cn.name {
							continue
						}
						add(fmt.Sprintf("%s(%s%+d)=%s", ac.Name(), cn.name, d, f.name), func(v *view) *Term {
							return x.c.Eq(f.get(v), mk(v).(VT).t)
						})
					}
					continue
				}
				for _, f := range tc.floats {
					f := f
					add(fmt.Sprintf("%s(%s%+d)=%s", ac.Name(), cn.name, d, f.name), func(v *view) *Term {
						return x.floatEq(f.get(v).(VF), mk(v).(VF))
					})
				}
			}
		}
	}
	for _, iv := range ct.invs {
		t.invTemplates(tc, iv, add, call)
	}
}


func (t *Task) invTemplates(tc *tmplCtx, iv *ssa.Function, add func(string, func(v *view) *Term), call func(v *view, fn *ssa.Function, args []Val) Val) {
	x := tc.x
	np := len(t.contract.target.Params)
	ps := iv.Params[np:]
	type opt struct {
		name string
		get  func(v *view) Val
	}
	opts := make([][]opt, len(ps))
	for i, p := range ps {
		ty := p.Type()
		var os []opt
		switch {
		case scalarSort(ty) == SInt:
			for _, cn := range tc.counters {
				cn := cn
				os = append(os, opt{cn.name, func(v *view) Val { return VT{cn.get(v)} }})
				if cn.dir > 0 {
					os = append(os, opt{cn.name + "+1", func(v *view) Val { return VT{x.c.AddN(cn.get(v), 1)} }})
				}
			}
			for _, cn := range tc.outer {
				cn := cn
				os = append(os, opt{cn.name, func(v *view) Val { return VT{cn.get(v)} }})
			}
		case isFloat(ty):
			for _, f := range tc.floats {
				f := f
				os = append(os, opt{f.name, func(v *view) Val { return VF{v: f.get(v).(VF).v} }})
			}
		case scalarSort(ty) == SBool:
			for _, f := range tc.bools {
				f := f
				os = append(os, opt{f.name, func(v *view) Val { return f.get(v) }})
			}
		default:
			if sl, ok := ty.Underlying().(*types.Slice); ok {
				for _, s := range tc.slices {
					s := s
					if types.Identical(s.elem, sl.Elem()) {
						os = append(os, opt{s.name, func(v *view) Val { return s.get(v) }})
					}
				}
			}
		}
		if len(os) == 0 {
			return
		}
		opts[i] = os
	}
	total := 1
	for _, o := range opts {
		total *= len(o)
	}
	if total > 400 {
		return
	}
	for n := 0; n < total; n++ {
		m := n
		var sel []opt
		var names []string
		dup := false
		for i := range opts {
			o := opts[i][m%len(opts[i])]
			m /= len(opts[i])
			for _, q := range names {
				if q == o.name {
					dup = true
				}
			}
			sel = append(sel, o)
			names = append(names, o.name)
		}
		if dup {
			continue
		}
		add(iv.Name()+"("+strings.Join(names, ",")+")", func(v *view) *Term {
			args := append([]Val(nil), t.args...)
			for _, o := range sel {
				args = append(args, o.get(v))
			}
			return call(v, iv, args).(VT).t
		})
	}
}

// postTemplates: the quantified parts of the postcondition, with a result slice replaced
// by a local slice and the range capped by a loop counter.
func (t *Task) postTemplates(tc *tmplCtx, ct *Contract, args []Val, add func(string, func(v *view) *Term)) {
	x := tc.x
	c := x.c
	rs := ct.target.Signature.Results()
	// result positions that are slices (possibly fields of a result)
	type rpos struct {
		i    int
		path []int
		el   types.Type
	}
	var pos []rpos
	var find func(i int, t types.Type, path []int)
	find = func(i int, t types.Type, path []int) {
		if isTime(t) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			pos = append(pos, rpos{i, path, u.Elem()})
		case *types.Struct:
			for f := 0; f < u.NumFields(); f++ {
				find(i, u.Field(f).Type(), append(append([]int(nil), path...), f))
			}
		}
	}
	for i := 0; i < rs.Len(); i++ {
		find(i, rs.At(i).Type(), nil)
	}
	for pn, pi := range pos {
		pi, el := pi, pi.el
		for _, s := range tc.slices {
			if !types.Identical(s.elem, el) || tc.unchanged(s) {
				continue
			}
			s := s
			for _, cn := range tc.counters {
				for d := int64(0); d < 2; d++ {
					cn, d := cn, d
					if d == 1 && (cn.dir <= 0 || strings.HasPrefix(cn.name, "len(")) {
						continue
					}
					eval := func(v *view) []*Term {
						st := v.st.clone()
						for r, rc := range t.entry.regs {
							if _, ok := st.regs[r]; !ok {
								st.regs[r] = rc
							}
						}
						pargs := append([]Val(nil), args...)
						for j := 0; j < rs.Len(); j++ {
							if j == pi.i && len(pi.path) > 0 {
								pargs = append(pargs, setPath(x.neutral(rs.At(j).Type(), st), pi.path, s.get(v)))
							} else if j == pi.i {
								pargs = append(pargs, s.get(v))
							} else {
								pargs = append(pargs, x.neutral(rs.At(j).Type(), st))
							}
						}
						limit := c.AddN(cn.get(v), d)
						savedCap, savedCol := x.allCap, x.collect
						x.allCap = func(k *Term) *Term { return c.Lt(k, limit) }
						col := &collector{}
						x.collect = col
						func() {
							defer func() {
								if r := recover(); r != nil {
									if _, ok := r.(unsupported); !ok {
										panic(r)
									}
								}
							}()
							x.specCall(ct.post, pargs, nil, st)
						}()
						x.allCap, x.collect = savedCap, savedCol
						return col.terms
					}
					m := len(eval(tc.hv))
					for i := 0; i < m; i++ {
						i := i
						add(fmt.Sprintf("post%d.%d[%s,%s+%d]", pn, i, s.name, cn.name, d), func(v *view) *Term {
							ts := eval(v)
							if i >= len(ts) {
								return c.False
							}
							return ts[i]
						})
					}
				}
			}
		}
	}
}

// neutral: an arbitrary value used for the results a template does not mention.
func (x *Exec) neutral(t types.Type, st *State) Val {
	return x.zero(t)
}
