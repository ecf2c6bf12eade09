package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec symbolically executes one verification task.
type Exec struct {
	t0 time.Time
	known map[*ssa.Function]bool // sequences of the contract already recognised
	w      *World
	c      *TC
	task   *Task
	prover *Prover

	hyps  []*Term
	obls  []*Obligation
	trial int // >0: no obligations are recorded
	spec  int // >0: evaluating specification code
	assume bool
	freshRes map[*Region]bool

	nreg, nobj int
	cur        *frame
	cond       *Term // current path condition for oblige
	st         *State
	globals    map[*ssa.Global]*Object
	depth      int
	notes      map[string]bool // assumptions used
	funcs      map[string]bool // functions whose body was executed
	usedContracts map[string]bool
	loopCount  int
	invProved  int
	entry      *State
	writesHook func()
	seqMode    bool
	defDepth   int
	chanTask   *chanCtx
	discover int
	loopMemo map[string]map[string]bool
	symKind  map[string]map[string]bool
	unrollDepth int
	specDefs map[string]*specDef
	allCap func(k *Term) *Term
	quantDepth int
	collect *collector
	prov map[*Object][]*prov
}

type Obligation struct {
	name   string
	kind   string
	pos    string
	hyps   []*Term
	goal   *Term
	status string
	engine string
	query  string
	verdict string
	failGoal *Term
	secs   float64
}

type frame struct {
	fn      *ssa.Function
	regs    map[ssa.Value]Val
	parent  *frame
	returns []retEdge
	loops   *loopInfo
	spec    bool
	defers  []func(st *State)
	binds   []Val
	callPos string
}

type retEdge struct {
	st   *State
	vals []Val
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	phis     []Val
}

func (x *Exec) note(s string) { x.notes[s] = true }

// oblige records a proof obligation under the current path condition, then assumes it.
func (x *Exec) oblige(kind, what string, goal *Term) {
	c := x.c
	if x.spec > 0 {
		return
	}
	g := c.Imp(x.cond, goal)
	if g == c.True {
		if x.trial == 0 {
			x.obls = append(x.obls, &Obligation{name: what, kind: kind, pos: x.posn(), goal: g, status: "proved", engine: "simplifier"})
		}
		return
	}
	if x.trial == 0 {
		x.obls = append(x.obls, &Obligation{name: what, kind: kind, pos: x.posn(), hyps: x.hyps[:len(x.hyps):len(x.hyps)], goal: g})
	}
	x.hyps = append(x.hyps[:len(x.hyps):len(x.hyps)], g)
}

func (x *Exec) assumeT(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			x.assumeT(a)
		}
		return
	}
	g := x.c.Imp(x.cond, t)
	if g == x.c.True {
		return
	}
	x.hyps = append(x.hyps[:len(x.hyps):len(x.hyps)], g)
}

var curInstrPos func() string

func (x *Exec) posn() string {
	f := x.cur
	if f == nil {
		return ""
	}
	return f.callPos + f.fn.Name()
}

func (x *Exec) val(fr *frame, v ssa.Value) Val {
	switch k := v.(type) {
	case *ssa.Const:
		return x.constVal(k)
	case *ssa.Function:
		return VFunc{fn: k}
	case *ssa.Global:
		return VPtr{elem: k.Type().Underlying().(*types.Pointer).Elem(), alts: []PtrAlt{{guard: x.c.True, kind: PObj, obj: x.global(k)}}}
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == k {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return k
	}
	r, ok := fr.regs[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn.Name())
	}
	return r
}

func (x *Exec) global(g *ssa.Global) *Object {
	if o, ok := x.globals[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	x.nobj++
	o := &Object{name: "global." + g.Name(), typ: t, id: x.nobj}
	x.globals[g] = o
	// Package-level variables: opaque but fixed values (errors); never assigned by the code under proof.
	var v Val
	if _, ok := t.Underlying().(*types.Interface); ok {
		bv := x.c.App("global:"+g.Pkg.Pkg.Path()+"."+g.Name(), SVal)
		v = VIface{opaque: bv}
		x.hyps = append(x.hyps, x.c.Not(x.c.Eq(bv, x.nilBox())))
		x.note("package-level error values are non-nil and never reassigned")
	} else {
		unsup("global variable %s", g.Name())
	}
	x.st.objs[o] = v
	if x.entry != nil {
		x.entry.objs[o] = v
	}
	return o
}

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	c := x.c
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return VT{c.Bool(constant.BoolVal(k.Value))}
		case b.Info()&types.IsString != 0:
			return VT{x.strLit(constant.StringVal(k.Value))}
		case b.Info()&types.IsInteger != 0:
			r, _ := new(big.Rat).SetString(constant.ToInt(k.Value).ExactString())
			return VT{c.Num(r, SInt)}
		case b.Info()&types.IsFloat != 0:
			v := constant.ToFloat(k.Value)
			r, ok := new(big.Rat).SetString(v.ExactString())
			if !ok {
				f, _ := constant.Float64Val(v)
				r = new(big.Rat).SetFloat64(f)
			}
			return VF{v: c.Num(r, SReal)}
		}
	}
	unsup("constant %s", k)
	return nil
}

// ---------------------------------------------------------------------------
// functions

func (x *Exec) runFunc(fn *ssa.Function, args []Val, binds []Val, st *State, callPos string) (Val, *State) {
	if len(fn.Blocks) == 0 {
		unsup("function without body: %s", fn)
	}
	if x.depth > 60 {
		unsup("call depth exceeded at %s", fn)
	}
	x.depth++
	fr := &frame{fn: fn, regs: map[ssa.Value]Val{}, parent: x.cur, binds: binds, callPos: callPos}
	saved := x.cur
	savedCond := x.cond
	x.cur = fr
	if x.spec == 0 {
		x.funcs[fn.String()] = true
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	fr.loops = x.w.loopsOf(fn)
	x.runRegion(fr, nil, []edge{{to: fn.Blocks[0], st: st}})
	x.cur = saved
	x.cond = savedCond
	x.depth--
	if len(fr.returns) == 0 {
		// no normal return: the path is infeasible afterwards
		s := st.clone()
		s.pc = x.c.False
		return nil, s
	}
	var states []*State
	for _, r := range fr.returns {
		states = append(states, r.st)
	}
	nres := len(fr.returns[0].vals)
	out := make([]Val, nres)
	rel := relGuards(x.c, states)
	for j := 0; j < nres; j++ {
		v := fr.returns[len(fr.returns)-1].vals[j]
		for i := len(fr.returns) - 2; i >= 0; i-- {
			v = x.mergeVal(rel[i], fr.returns[i].vals[j], v)
		}
		out[j] = v
	}
	m := x.merge(states)
	if len(states) > 1 {
		m = m.clone()
	}
	if nres == 0 {
		return nil, m
	}
	if nres == 1 {
		return out[0], m
	}
	return VTuple{out}, m
}

func relGuards(c *TC, states []*State) []*Term {
	common := map[*Term]int{}
	for _, s := range states {
		for _, t := range conj(s.pc) {
			common[t]++
		}
	}
	rel := make([]*Term, len(states))
	for i, s := range states {
		var r []*Term
		for _, t := range conj(s.pc) {
			if common[t] != len(states) {
				r = append(r, t)
			}
		}
		rel[i] = c.And(r...)
	}
	return rel
}

// runRegion executes the blocks of a loop body (L != nil) or of the function.
// It returns exit edges and back edges.
func (x *Exec) runRegion(fr *frame, L *Loop, in []edge) (exits, backs []edge) {
	fn := fr.fn
	pending := map[*ssa.BasicBlock][]edge{}
	var header *ssa.BasicBlock
	if L != nil {
		header = L.header
	} else {
		header = fn.Blocks[0]
	}
	pending[header] = in
	inRegion := func(b *ssa.BasicBlock) bool { return L == nil || L.blocks[b] }
	push := func(e edge) {
		if e.st.pc == x.c.False {
			return
		}
		if L != nil && e.to == L.header {
			backs = append(backs, e)
			return
		}
		if !inRegion(e.to) {
			exits = append(exits, e)
			return
		}
		pending[e.to] = append(pending[e.to], e)
	}
	for _, b := range fr.loops.rpo {
		if !inRegion(b) {
			continue
		}
		inc := pending[b]
		if len(inc) == 0 {
			continue
		}
		delete(pending, b)
		inner := fr.loops.headerOf[b]
		if inner != nil && inner != L {
			// only process loops directly nested here
			ex := x.runLoop(fr, inner, inc)
			for _, e := range ex {
				push(e)
			}
			continue
		}
		if b == header {
			// state already prepared by the caller (phis set)
			st := x.mergeEdges(fr, b, inc, L != nil)
			x.execBlock(fr, b, st, push)
			continue
		}
		st := x.mergeEdges(fr, b, inc, false)
		x.execBlock(fr, b, st, push)
	}
	return
}

// mergeEdges joins incoming edges and defines the phis of b.
func (x *Exec) mergeEdges(fr *frame, b *ssa.BasicBlock, inc []edge, phisDone bool) *State {
	var states []*State
	for _, e := range inc {
		states = append(states, e.st)
	}
	if !phisDone {
		rel := relGuards(x.c, states)
		pi := 0
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			v := inc[len(inc)-1].phis[pi]
			for i := len(inc) - 2; i >= 0; i-- {
				v = x.mergeVal(rel[i], inc[i].phis[pi], v)
			}
			fr.regs[phi] = v
			pi++
		}
	}
	m := x.merge(states)
	if len(states) == 1 {
		m = m.clone()
	}
	return m
}

func (x *Exec) edgeTo(fr *frame, from *ssa.BasicBlock, succ int, st *State) edge {
	to := from.Succs[succ]
	// which predecessor index of `to` is this edge
	pi := -1
	cnt := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			cnt++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if cnt == 0 {
				pi = i
				break
			}
			cnt--
		}
	}
	e := edge{from: from, to: to, st: st}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		e.phis = append(e.phis, x.val(fr, phi.Edges[pi]))
	}
	return e
}

func (x *Exec) execBlock(fr *frame, b *ssa.BasicBlock, st *State, push func(edge)) {
	c := x.c
	x.st = st
	x.cond = st.pc
	for _, ins := range b.Instrs {
		switch t := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			cv := x.val(fr, t.Cond).(VT).t
			a := st.clone()
			a.pc = c.And(st.pc, cv)
			d := st
			d.pc = c.And(st.pc, c.Not(cv))
			if a.pc != c.False {
				push(x.edgeTo(fr, b, 0, a))
			}
			if d.pc != c.False {
				push(x.edgeTo(fr, b, 1, d))
			}
			return
		case *ssa.Jump:
			push(x.edgeTo(fr, b, 0, st))
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range t.Results {
				vals = append(vals, x.val(fr, r))
			}
			fr.returns = append(fr.returns, retEdge{st, vals})
			return
		case *ssa.Panic:
			x.oblige("nopanic", "explicit panic is unreachable", c.False)
			return
		default:
			ns := x.instr(fr, ins, st)
			if ns != st {
				st = ns
				x.st = st
				x.cond = st.pc
				if st.pc == c.False {
					return
				}
			}
			x.cond = st.pc
			x.st = st
		}
	}
}

func tupleGet(v Val, i int) Val {
	return v.(VTuple).vals[i]
}

func (x *Exec) instr(fr *frame, ins ssa.Instruction, st *State) *State {
	c := x.c
	switch t := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.regs[t] = x.alloc(st, t.Type().Underlying().(*types.Pointer).Elem(), t.Comment)
	case *ssa.UnOp:
		fr.regs[t] = x.unop(fr, t, st)
	case *ssa.BinOp:
		fr.regs[t] = x.binop(t.Op, x.val(fr, t.X), x.val(fr, t.Y), t.X.Type(), t.Y.Type())
	case *ssa.Store:
		p := x.val(fr, t.Addr).(VPtr)
		x.oblige("nil", "store through nil pointer", x.nonNil(p))
		x.store(st, p, x.val(fr, t.Val))
	case *ssa.FieldAddr:
		p := x.val(fr, t.X).(VPtr)
		x.oblige("nil", "field of nil pointer", x.nonNil(p))
		r := VPtr{elem: t.Type().Underlying().(*types.Pointer).Elem()}
		for _, a := range p.alts {
			if a.kind == PNil {
				continue
			}
			a.path = append(append([]int(nil), a.path...), t.Field)
			r.alts = append(r.alts, a)
		}
		if len(r.alts) == 0 && x.spec == 0 {
			st.pc = c.False
		}
		fr.regs[t] = r
	case *ssa.Field:
		fr.regs[t] = x.val(fr, t.X).(VStruct).fields[t.Field]
	case *ssa.IndexAddr:
		idx := x.val(fr, t.Index).(VT).t
		fr.regs[t] = x.indexAddr(fr, t.X, idx, t.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Index:
		unsup("index of array value")
	case *ssa.MakeSlice:
		n := x.val(fr, t.Len).(VT).t
		cp := x.val(fr, t.Cap).(VT).t
		elem := t.Type().Underlying().(*types.Slice).Elem()
		x.oblige("makeslice", "make: length is non-negative", c.Ge(n, c.Int(0)))
		if cp != n {
			x.oblige("makeslice", "make: capacity >= length", c.Ge(cp, n))
		}
		r := x.newRegion("make", elem)
		st.regs[r] = x.zeroCont(elem)
		fr.regs[t] = VSlice{elem: elem, alts: []SliceAlt{{guard: c.True, reg: r, off: c.Int(0), ln: n, capa: cp}}}
	case *ssa.Slice:
		fr.regs[t] = x.sliceOp(fr, t, st)
	case *ssa.Convert:
		fr.regs[t] = x.convert(x.val(fr, t.X), t.X.Type(), t.Type())
	case *ssa.ChangeType:
		fr.regs[t] = x.retype(x.val(fr, t.X), t.Type())
	case *ssa.MakeInterface:
		fr.regs[t] = VIface{alts: []IfaceAlt{{guard: c.True, typ: t.X.Type(), v: x.val(fr, t.X)}}}
	case *ssa.ChangeInterface:
		fr.regs[t] = x.val(fr, t.X)
	case *ssa.TypeAssert:
		fr.regs[t] = x.typeAssert(x.val(fr, t.X).(VIface), t)
	case *ssa.MakeClosure:
		f := VFunc{fn: t.Fn.(*ssa.Function)}
		for _, b := range t.Bindings {
			f.binds = append(f.binds, x.val(fr, b))
		}
		fr.regs[t] = f
	case *ssa.Extract:
		fr.regs[t] = tupleGet(x.val(fr, t.Tuple), t.Index)
	case *ssa.Call:
		v, ns := x.call(fr, &t.Call, st, t.Name())
		if v != nil {
			fr.regs[t] = v
		}
		return ns
	case *ssa.Defer:
		cc := t.Call
		args := x.callArgs(fr, &cc)
		fr.defers = append(fr.defers, func(s *State) { x.callWith(fr, &cc, args, s) })
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			fr.defers[i](st)
		}
	case *ssa.Go:
		x.goStmt(fr, &t.Call, st)
	case *ssa.MakeChan:
		fr.regs[t] = x.makeChan(fr, t, st)
	case *ssa.Send:
		x.send(fr, t, st)
	case *ssa.MakeMap, *ssa.MapUpdate, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.Select:
		unsup("instruction %T in %s", ins, fr.fn)
	default:
		unsup("instruction %T", ins)
	}
	return st
}

func (x *Exec) retype(v Val, t types.Type) Val {
	switch w := v.(type) {
	case VStruct:
		w.typ = t
		return w
	case VSlice:
		if s, ok := t.Underlying().(*types.Slice); ok {
			w.elem = s.Elem()
		}
		return w
	}
	return v
}

func (x *Exec) alloc(st *State, t types.Type, name string) Val {
	c := x.c
	if at, ok := t.Underlying().(*types.Array); ok {
		r := x.newRegion("array", at.Elem())
		st.regs[r] = x.zeroCont(at.Elem())
		return VPtr{elem: t, alts: []PtrAlt{{guard: c.True, kind: PElem, reg: r, idx: c.Int(0), whole: true, n: c.Int(at.Len())}}}
	}
	if n := namedStruct(t); n != nil && x.w.isRef(n) {
		ref := c.AddN(st.alloc, 1)
		st.alloc = ref
		p := VPtr{elem: t, alts: []PtrAlt{{guard: c.True, kind: PHeap, ref: ref, htyp: n}}}
		x.heapStore(st, n, ref, nil, x.zero(t), c.True)
		return p
	}
	x.nobj++
	o := &Object{name: fmt.Sprintf("%s#%d", name, x.nobj), typ: t, id: x.nobj}
	st.objs[o] = x.zero(t)
	return VPtr{elem: t, alts: []PtrAlt{{guard: c.True, kind: PObj, obj: o}}}
}

func (x *Exec) indexAddr(fr *frame, base ssa.Value, idx *Term, elem types.Type) Val {
	c := x.c
	switch b := x.val(fr, base).(type) {
	case VSlice:
		x.oblige("bounds", "slice index in range", c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, x.sliceLen(b))))
		r := VPtr{elem: elem}
		for _, a := range b.alts {
			if a.reg == nil {
				continue
			}
			r.alts = append(r.alts, PtrAlt{guard: a.guard, kind: PElem, reg: a.reg, idx: c.Add(a.off, idx), path: b.path})
		}
		if len(r.alts) == 1 {
			r.alts[0].guard = c.True
		}
		return r
	case VPtr:
		a := b.alts[0]
		if !a.whole {
			unsup("index of non-array pointer")
		}
		x.oblige("bounds", "array index in range", c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, a.n)))
		return VPtr{elem: elem, alts: []PtrAlt{{guard: c.True, kind: PElem, reg: a.reg, idx: c.Add(a.idx, idx)}}}
	}
	unsup("indexaddr")
	return nil
}

func (x *Exec) sliceLen(s VSlice) *Term {
	c := x.c
	var r *Term
	for i := len(s.alts) - 1; i >= 0; i-- {
		a := s.alts[i]
		if r == nil {
			r = a.ln
		} else {
			r = c.Ite(a.guard, a.ln, r)
		}
	}
	if r == nil {
		return c.Int(0)
	}
	return r
}

func (x *Exec) sliceOp(fr *frame, t *ssa.Slice, st *State) Val {
	c := x.c
	var lo, hi *Term
	if t.Low != nil {
		lo = x.val(fr, t.Low).(VT).t
	} else {
		lo = c.Int(0)
	}
	if t.High != nil {
		hi = x.val(fr, t.High).(VT).t
	}
	if t.Max != nil {
		unsup("3-index slice")
	}
	switch b := x.val(fr, t.X).(type) {
	case VPtr:
		a := b.alts[0]
		if !a.whole {
			unsup("slice of non-array pointer")
		}
		if hi == nil {
			hi = a.n
		}
		x.oblige("bounds", "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, a.n)))
		return VSlice{elem: a.reg.elem, alts: []SliceAlt{{guard: c.True, reg: a.reg, off: lo, ln: c.Sub(hi, lo), capa: c.Sub(a.n, lo)}}}
	case VSlice:
		r := VSlice{elem: b.elem}
		for _, a := range b.alts {
			h := hi
			if h == nil {
				h = a.ln
			}
			x.oblige("bounds", "slice bounds", c.Imp(a.guard, c.And(c.Le(c.Int(0), lo), c.Le(lo, h), c.Le(h, a.capa))))
			r.alts = append(r.alts, SliceAlt{guard: a.guard, reg: a.reg, off: c.Add(a.off, lo), ln: c.Sub(h, lo), capa: c.Sub(a.capa, lo)})
		}
		return r
	}
	unsup("slice of %s", t.X.Type())
	return nil
}

func (x *Exec) unop(fr *frame, t *ssa.UnOp, st *State) Val {
	c := x.c
	switch t.Op {
	case token.MUL:
		p := x.val(fr, t.X).(VPtr)
		x.oblige("nil", "load through nil pointer", x.nonNil(p))
		return x.load(st, p)
	case token.NOT:
		return VT{c.Not(x.val(fr, t.X).(VT).t)}
	case token.SUB:
		switch v := x.val(fr, t.X).(type) {
		case VT:
			return VT{c.Neg(v.t)}
		case VF:
			r := VF{v: c.Neg(v.v)}
			if v.kind != nil {
				r.kind = c.Ite(c.Eq(v.kind, c.Int(2)), c.Int(3), c.Ite(c.Eq(v.kind, c.Int(3)), c.Int(2), v.kind))
			}
			return r
		}
	case token.ARROW:
		return x.recv(fr, t, st)
	}
	unsup("unop %s", t.Op)
	return nil
}

var (
	kFin = int64(0)
	kNaN = int64(1)
	kPos = int64(2)
	kNeg = int64(3)
)

func (x *Exec) kindOf(f VF) *Term {
	if f.kind == nil {
		return x.c.Int(0)
	}
	return f.kind
}

func (x *Exec) isKind(f VF, k int64) *Term {
	if f.kind == nil {
		return x.c.Bool(k == 0)
	}
	return x.c.Eq(f.kind, x.c.Int(k))
}

// float arithmetic over the reals extended with NaN and infinities.
func (x *Exec) fbin(op token.Token, a, b VF) Val {
	c := x.c
	z := c.Real(0)
	fin := a.kind == nil && b.kind == nil
	switch op {
	case token.ADD, token.SUB:
		if op == token.SUB {
			nb := VF{v: c.Neg(b.v)}
			if b.kind != nil {
				nb.kind = c.Ite(c.Eq(b.kind, c.Int(2)), c.Int(3), c.Ite(c.Eq(b.kind, c.Int(3)), c.Int(2), b.kind))
			}
			b = nb
		}
		r := VF{v: c.Add(a.v, b.v)}
		if !fin {
			ka, kb := x.kindOf(a), x.kindOf(b)
			r.kind = x.normKind(c.Ite(c.Or(c.Eq(ka, c.Int(1)), c.Eq(kb, c.Int(1))), c.Int(1),
				c.Ite(c.Eq(ka, c.Int(0)), kb, c.Ite(c.Eq(kb, c.Int(0)), ka, c.Ite(c.Eq(ka, kb), ka, c.Int(1))))))
		}
		return r
	case token.MUL:
		r := VF{v: c.Mul(a.v, b.v)}
		if !fin {
			ka, kb := x.kindOf(a), x.kindOf(b)
			sa, sb := x.sgn(a), x.sgn(b)
			bothFin := c.And(c.Eq(ka, c.Int(0)), c.Eq(kb, c.Int(0)))
			nan := c.Or(c.Eq(ka, c.Int(1)), c.Eq(kb, c.Int(1)), c.And(c.Eq(sa, c.Int(0)), c.Eq(ka, c.Int(0))), c.And(c.Eq(sb, c.Int(0)), c.Eq(kb, c.Int(0))))
			r.kind = x.normKind(c.Ite(bothFin, c.Int(0), c.Ite(nan, c.Int(1), c.Ite(c.Eq(sa, sb), c.Int(2), c.Int(3)))))
		}
		return r
	case token.QUO:
		if b.v.op == ONum && b.v.num.Sign() != 0 && fin {
			return VF{v: c.Div(a.v, b.v)}
		}
		if fin && x.spec == 0 && x.discover == 0 && b.v.op != ONum && x.cond != nil {
			if !x.prover.feasible(append(append([]*Term(nil), x.hyps...), x.cond, c.Eq(b.v, z))) {
				return VF{v: c.Div(a.v, b.v)}
			}
		}
		ka, kb := x.kindOf(a), x.kindOf(b)
		sa := x.sgn(a)
		// finite/finite
		bz := c.Eq(b.v, z)
		q := c.Div(a.v, b.v)
		k := c.Ite(c.Not(bz), c.Int(0), c.Ite(c.Eq(sa, c.Int(0)), c.Int(1), c.Ite(c.Eq(sa, c.Int(1)), c.Int(2), c.Int(3))))
		if fin {
			return VF{v: q, kind: x.normKind(k)}
		}
		sb := x.sgn(b)
		// inf cases
		aInf := c.Or(c.Eq(ka, c.Int(2)), c.Eq(ka, c.Int(3)))
		bInf := c.Or(c.Eq(kb, c.Int(2)), c.Eq(kb, c.Int(3)))
		nan := c.Or(c.Eq(ka, c.Int(1)), c.Eq(kb, c.Int(1)), c.And(aInf, bInf))
		// a inf / b finite: sign product (b zero: treat +0) ; a finite / b inf = 0
		k2 := c.Ite(nan, c.Int(1), c.Ite(bInf, c.Int(0), c.Ite(aInf, c.Ite(c.Eq(c.Ite(c.Eq(sb, c.Int(-1)), c.Int(-1), c.Int(1)), sa), c.Int(2), c.Int(3)), k)))
		v := c.Ite(bInf, z, q)
		return VF{v: v, kind: x.normKind(k2)}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.NEQ {
			return VT{c.Not(x.fbin(token.EQL, a, b).(VT).t)}
		}
		if op == token.GTR {
			return x.fbin(token.LSS, b, a)
		}
		if op == token.GEQ {
			return x.fbin(token.LEQ, b, a)
		}
		var base *Term
		switch op {
		case token.EQL:
			base = c.Eq(a.v, b.v)
		case token.LSS:
			base = c.Lt(a.v, b.v)
		case token.LEQ:
			base = c.Le(a.v, b.v)
		}
		if fin {
			return VT{base}
		}
		ka, kb := x.kindOf(a), x.kindOf(b)
		nan := c.Or(c.Eq(ka, c.Int(1)), c.Eq(kb, c.Int(1)))
		bothFin := c.And(c.Eq(ka, c.Int(0)), c.Eq(kb, c.Int(0)))
		// rank: -inf=-1, finite=0, +inf=1
		rank := func(k *Term) *Term {
			return c.Ite(c.Eq(k, c.Int(2)), c.Int(1), c.Ite(c.Eq(k, c.Int(3)), c.Int(-1), c.Int(0)))
		}
		var inf *Term
		switch op {
		case token.EQL:
			inf = c.Eq(rank(ka), rank(kb))
		case token.LSS:
			inf = c.Lt(rank(ka), rank(kb))
		case token.LEQ:
			inf = c.Le(rank(ka), rank(kb))
		}
		return VT{c.And(c.Not(nan), c.Ite(bothFin, base, inf))}
	}
	unsup("float op %s", op)
	return nil
}

// sgn: sign of a float as Int (-1,0,1); infinities have the sign of the infinity.
func (x *Exec) sgn(f VF) *Term {
	c := x.c
	z := c.Real(0)
	s := c.Ite(c.Eq(f.v, z), c.Int(0), c.Ite(c.Gt(f.v, z), c.Int(1), c.Int(-1)))
	if f.kind == nil {
		return s
	}
	return c.Ite(c.Eq(f.kind, c.Int(2)), c.Int(1), c.Ite(c.Eq(f.kind, c.Int(3)), c.Int(-1), s))
}

func (x *Exec) binop(op token.Token, a, b Val, ta, tb types.Type) Val {
	c := x.c
	switch av := a.(type) {
	case VF:
		return x.fbin(op, av, b.(VF))
	case VT:
		bt := b.(VT).t
		at := av.t
		switch op {
		case token.EQL:
			return VT{c.Eq(at, bt)}
		case token.NEQ:
			return VT{c.Not(c.Eq(at, bt))}
		}
		if at.sort == SInt {
			switch op {
			case token.ADD:
				return VT{c.Add(at, bt)}
			case token.SUB:
				return VT{c.Sub(at, bt)}
			case token.MUL:
				return VT{c.Mul(at, bt)}
			case token.LSS:
				return VT{c.Lt(at, bt)}
			case token.LEQ:
				return VT{c.Le(at, bt)}
			case token.GTR:
				return VT{c.Gt(at, bt)}
			case token.GEQ:
				return VT{c.Ge(at, bt)}
			case token.QUO, token.REM:
				x.oblige("divzero", "integer division by zero", c.Not(c.Eq(bt, c.Int(0))))
				return VT{x.goDiv(op, at, bt)}
			case token.SHR:
				if bt.op == ONum && bt.num.IsInt() {
					n := bt.num.Num().Int64()
					return VT{c.IDiv(at, c.Num(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))), SInt))}
				}
			case token.SHL:
				if bt.op == ONum {
					n := bt.num.Num().Int64()
					return VT{c.Scale(at, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))))}
				}
			}
		}
		if at.sort == SStr {
			switch op {
			case token.ADD:
				return VT{c.App("strcat!", SStr, at, bt)}
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				r := map[token.Token]string{token.LSS: "strlt!", token.LEQ: "strle!"}
				switch op {
				case token.GTR:
					return VT{c.App("strlt!", SBool, bt, at)}
				case token.GEQ:
					return VT{c.App("strle!", SBool, bt, at)}
				}
				return VT{c.App(r[op], SBool, at, bt)}
			}
		}
		if at.sort == SBool {
			switch op {
			case token.AND, token.LAND:
				return VT{c.And(at, bt)}
			case token.OR, token.LOR:
				return VT{c.Or(at, bt)}
			}
		}
	case VPtr:
		if op == token.EQL || op == token.NEQ {
			e := x.ptrEq(av, b.(VPtr))
			if op == token.NEQ {
				e = c.Not(e)
			}
			return VT{e}
		}
	case VSlice: // comparison with nil
		e := c.False
		for _, s := range av.alts {
			if s.reg == nil {
				e = c.Or(e, s.guard)
			}
		}
		if op == token.NEQ {
			e = c.Not(e)
		}
		return VT{e}
	case VIface:
		bv := b.(VIface)
		e := x.ifaceEq(av, bv)
		if op == token.NEQ {
			e = c.Not(e)
		}
		return VT{e}
	case VStruct:
		bv := b.(VStruct)
		e := c.True
		for i := range av.fields {
			f := av.typ.Underlying().(*types.Struct).Field(i).Type()
			e = c.And(e, x.binop(token.EQL, av.fields[i], bv.fields[i], f, f).(VT).t)
		}
		if op == token.NEQ {
			e = c.Not(e)
		}
		return VT{e}
	case VFunc:
		isNil := av.fn == nil
		if bf, ok := b.(VFunc); ok && bf.fn == nil {
			return VT{c.Bool(isNil == (op == token.EQL))}
		}
	case VChan:
		if bf, ok := b.(VChan); ok && bf.ch == nil {
			return VT{c.Bool((av.ch == nil) == (op == token.EQL))}
		}
	}
	unsup("binop %s on %T", op, a)
	return nil
}

// goDiv: truncated division.
func (x *Exec) goDiv(op token.Token, a, b *Term) *Term {
	c := x.c
	z := c.Int(0)
	if op == token.QUO {
		if b.op == ONum && b.num.Sign() > 0 {
			return c.Ite(c.Ge(a, z), c.IDiv(a, b), c.Neg(c.IDiv(c.Neg(a), b)))
		}
		pp := c.IDiv(a, b)
		return c.Ite(c.And(c.Ge(a, z), c.Gt(b, z)), pp,
			c.Ite(c.And(c.Lt(a, z), c.Gt(b, z)), c.Neg(c.IDiv(c.Neg(a), b)),
				c.Ite(c.Ge(a, z), c.Neg(c.IDiv(a, c.Neg(b))), c.IDiv(c.Neg(a), c.Neg(b)))))
	}
	absb := c.Ite(c.Gt(b, z), b, c.Neg(b))
	return c.Ite(c.Ge(a, z), c.Mod(a, absb), c.Neg(c.Mod(c.Neg(a), absb)))
}

func (x *Exec) ptrEq(a, b VPtr) *Term {
	c := x.c
	r := c.False
	for _, p := range a.alts {
		for _, q := range b.alts {
			g := c.And(p.guard, q.guard)
			if g == c.False {
				continue
			}
			var e *Term
			switch {
			case p.kind == PNil && q.kind == PNil:
				e = c.True
			case p.kind == PHeap && q.kind == PNil:
				e = c.Eq(p.ref, c.Int(0))
			case p.kind == PNil && q.kind == PHeap:
				e = c.Eq(q.ref, c.Int(0))
			case p.kind == PHeap && q.kind == PHeap:
				e = c.Eq(p.ref, q.ref)
			case p.kind == PObj && q.kind == PObj:
				e = c.Bool(p.obj == q.obj && eqPath(p.path, q.path))
			case p.kind == PElem && q.kind == PElem:
				if p.reg == q.reg {
					e = c.Eq(p.idx, q.idx)
				} else {
					e = c.False
				}
			default:
				e = c.False
			}
			r = c.Or(r, c.And(g, e))
		}
	}
	return r
}

func (x *Exec) nilBox() *Term { return x.c.App("nilbox!", SVal) }

func (x *Exec) box(v VIface) *Term {
	c := x.c
	if v.opaque != nil {
		return v.opaque
	}
	var r *Term
	for i := len(v.alts) - 1; i >= 0; i-- {
		a := v.alts[i]
		var t *Term
		if a.typ == nil {
			t = x.nilBox()
		} else {
			switch w := a.v.(type) {
			case VT:
				t = c.App("box:"+typName(a.typ), SVal, w.t)
			case VF:
				if w.kind != nil {
					x.oblige("finite", "boxed value is finite", c.Eq(w.kind, c.Int(0)))
				}
				t = c.App("box:"+typName(a.typ), SVal, w.v)
			default:
				unsup("boxing %T", a.v)
			}
		}
		if r == nil {
			r = t
		} else {
			r = c.Ite(a.guard, t, r)
		}
	}
	return r
}

func (x *Exec) ifaceEq(a, b VIface) *Term {
	c := x.c
	if a.opaque != nil || b.opaque != nil {
		return c.Eq(x.box(a), x.box(b))
	}
	r := c.False
	for _, p := range a.alts {
		for _, q := range b.alts {
			if p.typ == nil && q.typ == nil {
				r = c.Or(r, c.And(p.guard, q.guard))
			} else if p.typ != nil && q.typ != nil && types.Identical(p.typ, q.typ) {
				r = c.Or(r, c.And(p.guard, q.guard, x.binop(token.EQL, p.v, q.v, p.typ, q.typ).(VT).t))
			}
		}
	}
	return r
}

func (x *Exec) typeAssert(v VIface, t *ssa.TypeAssert) Val {
	c := x.c
	if v.opaque != nil {
		// opaque dynamic value: supported for boxed scalars through unbox functions
		s := scalarSort(t.AssertedType)
		if s == nil || s == SVal {
			unsup("type assertion of an opaque interface to %s", t.AssertedType)
		}
		n := typName(t.AssertedType)
		u := x.unbox(n, s, v.opaque)
		ok := c.Eq(c.App("box:"+n, SVal, u), v.opaque)
		r := x.fromScalar(t.AssertedType, u)
		if t.CommaOk {
			return VTuple{[]Val{x.mergeVal(ok, r, x.zero(t.AssertedType)), VT{ok}}}
		}
		x.oblige("typeassert", "type assertion holds", ok)
		return r
	}
	var res Val
	ok := c.False
	_, isI := t.AssertedType.Underlying().(*types.Interface)
	for i := len(v.alts) - 1; i >= 0; i-- {
		a := v.alts[i]
		match := a.typ != nil && (!isI && types.Identical(a.typ, t.AssertedType) || isI && types.Implements(a.typ, t.AssertedType.Underlying().(*types.Interface)))
		if !match {
			continue
		}
		ok = c.Or(ok, a.guard)
		var av Val = a.v
		if isI {
			av = VIface{alts: []IfaceAlt{{guard: c.True, typ: a.typ, v: a.v}}}
		}
		if res == nil {
			res = av
		} else {
			res = x.mergeVal(a.guard, av, res)
		}
	}
	if t.CommaOk {
		if res == nil {
			res = x.zero(t.AssertedType)
		} else {
			res = x.mergeVal(ok, res, x.zero(t.AssertedType))
		}
		return VTuple{[]Val{res, VT{ok}}}
	}
	x.oblige("typeassert", "type assertion holds", ok)
	if res == nil {
		res = x.zero(t.AssertedType)
	}
	return res
}

func (x *Exec) unbox(n string, s *Sort, b *Term) *Term {
	c := x.c
	if b.op == OApp && b.name == "box:"+n {
		return b.args[0]
	}
	if b.op == OIte {
		return c.Ite(b.args[0], x.unbox(n, s, b.args[1]), x.unbox(n, s, b.args[2]))
	}
	return c.App("unbox:"+n, s, b)
}

func (x *Exec) convert(v Val, from, to types.Type) Val {
	c := x.c
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return VF{v: c.ToReal(v.(VT).t)}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return v // mathematical integers
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			f := v.(VF)
			if f.kind != nil {
				x.oblige("finite", "float to int conversion of a finite value", c.Eq(f.kind, c.Int(0)))
			}
			return VT{x.truncReal(f.v)}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		}
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func (x *Exec) floorReal(v *Term) *Term {
	c := x.c
	if v.op == OToReal {
		return v.args[0]
	}
	if v.op == ONum {
		q := new(big.Int).Div(v.num.Num(), v.num.Denom())
		return c.Num(new(big.Rat).SetInt(q), SInt)
	}
	if t := intOf(c, v); t != nil {
		return t
	}
	return c.App("floor!", SInt, v)
}

// intOf: the Int term equal to a real polynomial with integer coefficients over to_real atoms.
func intOf(c *TC, v *Term) *Term {
	r := c.Int(0)
	for _, m := range c.polyOf(v) {
		if !m.coef.IsInt() {
			return nil
		}
		t := c.Num(m.coef, SInt)
		for _, a := range m.atoms {
			if a.op != OToReal {
				return nil
			}
			t = c.Mul(t, a.args[0])
		}
		r = c.Add(r, t)
	}
	return r
}

func (x *Exec) truncReal(v *Term) *Term {
	c := x.c
	if t := intOf(c, v); t != nil {
		return t
	}
	return c.Ite(c.Ge(v, c.Real(0)), x.floorReal(v), c.Neg(x.floorReal(c.Neg(v))))
}

// ---------------------------------------------------------------------------
// calls

func (x *Exec) callArgs(fr *frame, cc *ssa.CallCommon) []Val {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(fr, a))
	}
	return args
}

func (x *Exec) call(fr *frame, cc *ssa.CallCommon, st *State, name string) (Val, *State) {
	return x.callWith(fr, cc, x.callArgs(fr, cc), st)
}

func (x *Exec) callWith(fr *frame, cc *ssa.CallCommon, args []Val, st *State) (Val, *State) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(b, cc, args, st), st
	}
	if cc.IsInvoke() {
		recv := x.val(fr, cc.Value).(VIface)
		return x.invoke(fr, cc, recv, args, st)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var binds []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			binds = x.val(fr, mc).(VFunc).binds
		}
		return x.callFn(fr, fn, args, binds, st)
	}
	f := x.val(fr, cc.Value).(VFunc)
	if f.fn == nil {
		if f.recv != nil {
			// symbolic function value: uninterpreted
			return x.callSymbolic(f, cc, args, st), st
		}
		x.oblige("nil", "call of nil function", x.c.False)
		s := st.clone()
		s.pc = x.c.False
		return nil, s
	}
	return x.callFn(fr, f.fn, args, f.binds, st)
}

// callSymbolic applies an unknown (parameter) function value, modelled as a pure
// uninterpreted function of its arguments.
func (x *Exec) callSymbolic(f VFunc, cc *ssa.CallCommon, args []Val, st *State) Val {
	name := f.recv.(string)
	res := cc.Signature().Results()
	if res.Len() != 1 {
		unsup("symbolic function with %d results", res.Len())
	}
	s := scalarSort(res.At(0).Type())
	if s == nil {
		unsup("symbolic function result %s", res.At(0).Type())
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.scalarTerm(cc.Args[i].Type(), a, "function argument"))
	}
	x.note("function-valued parameters are modelled as pure total functions")
	return x.fromScalar(res.At(0).Type(), x.c.App("fn:"+name, s, ts...))
}

func (x *Exec) invoke(fr *frame, cc *ssa.CallCommon, recv VIface, args []Val, st *State) (Val, *State) {
	if recv.opaque != nil || len(recv.alts) != 1 || recv.alts[0].typ == nil {
		if v, ok := x.invokeOpaque(fr, cc, recv, args, st); ok {
			return v, st
		}
		unsup("dynamic dispatch of %s", cc.Method.Name())
	}
	a := recv.alts[0]
	fn := x.w.prog.LookupMethod(a.typ, cc.Method.Pkg(), cc.Method.Name())
	if fn == nil {
		unsup("method %s not found", cc.Method.Name())
	}
	return x.callFn(fr, fn, append([]Val{a.v}, args...), nil, st)
}

func (x *Exec) callFn(fr *frame, fn *ssa.Function, args, binds []Val, st *State) (Val, *State) {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if in, ok := intrinsics[name]; ok {
		x.st = st
		return in(x, fr, fn, args, st)
	}
	if x.isSpecFn(fn) {
		return x.specCall(fn, args, binds, st)
	}
	if x.spec == 0 || true {
		if ct := x.w.contracts[name]; ct != nil && ct != x.task.contract && x.spec == 0 {
			return x.applyContract(ct, fn, args, st)
		}
		if ct := x.w.contracts[name]; ct != nil && ct == x.task.contract && x.cur != nil && x.activeFn(fn) {
			// recursive call: use own contract (partial correctness of recursion)
			return x.applyContract(ct, fn, args, st)
		}
	}
	if x.spec == 0 {
		if v, ns, ok := x.tryComposite(fn, args, st); ok {
			return v, ns
		}
	}
	if len(fn.Blocks) == 0 {
		unsup("external function %s", name)
	}
	if x.spec == 0 && x.activeFn(fn) {
		unsup("recursion without contract: %s", name)
	}
	cp := ""
	if fr != nil {
		cp = fr.callPos + fr.fn.Name() + "/"
	}
	v, ns := x.runFunc(fn, args, binds, st, cp)
	if x.spec == 0 && x.w.ctors[fn] {
		x.born(fn, args, v, ns)
	}
	return v, ns
}

func (x *Exec) activeFn(fn *ssa.Function) bool {
	for f := x.cur; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (x *Exec) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []Val, st *State) Val {
	c := x.c
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case VSlice:
			return VT{x.sliceLen(v)}
		case VT:
			if v.t.sort == SStr {
				l := c.App("strlen!", SInt, v.t)
				x.assumeT(c.Ge(l, c.Int(0)))
				return VT{l}
			}
		case VChan:
			unsup("len of channel")
		}
	case "cap":
		switch v := args[0].(type) {
		case VSlice:
			var r *Term
			for i := len(v.alts) - 1; i >= 0; i-- {
				a := v.alts[i]
				if r == nil {
					r = a.capa
				} else {
					r = c.Ite(a.guard, a.capa, r)
				}
			}
			return VT{r}
		case VChan:
			return VT{x.chanCap(v)}
		}
	case "append":
		return x.appendOp(args[0].(VSlice), args[1], st)
	case "clear":
		d, ok := args[0].(VSlice)
		if !ok {
			unsup("clear of %T", args[0])
		}
		n := x.sliceLen(d)
		x.copyOp(d, VSlice{elem: d.elem, alts: []SliceAlt{{guard: x.c.True, off: x.c.Int(0), ln: n, capa: n}}}, st)
		return nil
	case "copy":
		return x.copyOp(args[0].(VSlice), args[1].(VSlice), st)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			cnd := x.binop(op, r, a, nil, nil).(VT).t
			r = x.mergeVal(cnd, r, a)
		}
		return r
	case "close":
		x.closeChan(args[0].(VChan), st)
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		x.oblige("nil", "method on nil pointer", x.nonNil(args[0].(VPtr)))
		return args[0]
	}
	unsup("builtin %s", b.Name())
	return nil
}

// readArr returns the content of leaf i of slice s as an array indexed from 0.
func (x *Exec) readArr(st *State, s VSlice, i int) *Term {
	c := x.c
	var r *Term
	for j := len(s.alts) - 1; j >= 0; j-- {
		a := s.alts[j]
		var arr *Term
		if a.reg == nil {
			arr = x.zeroCont(s.elem).leaf[i]
		} else {
			rc := st.regs[a.reg]
			if rc == nil {
				unsup("dangling region %s", a.reg.name)
			}
			arr = x.shift(rc.leaf[s.lb+i], a.off)
		}
		if r == nil {
			r = arr
		} else {
			r = c.Ite(a.guard, arr, r)
		}
	}
	if r == nil {
		r = x.zeroCont(s.elem).leaf[i]
	}
	return r
}

func (x *Exec) shift(arr, off *Term) *Term {
	c := x.c
	if off.op == ONum && off.num.Sign() == 0 {
		return arr
	}
	if arr.op == OConstArr {
		return arr
	}
	name := "shift!" + arr.sort.elem.name
	if c.defs[name] == nil {
		a := c.Var("shift.a."+arr.sort.elem.name, arr.sort)
		o := c.Var("shift.o", SInt)
		k := c.FreshBV("k", SInt)
		c.defs[name] = &FnDef{name: name, params: []*Term{a, o}, res: arr.sort, seqBody: c.mk(&Term{op: OLambda, sort: arr.sort, bound: []*Term{k}, args: []*Term{c.Select(a, c.Add(k, o))}})}
	}
	return c.App(name, arr.sort, arr, off)
}

func (x *Exec) appendOp(s VSlice, more Val, st *State) Val {
	c := x.c
	var t VSlice
	switch m := more.(type) {
	case VSlice:
		t = m
	default:
		unsup("append of %T", more)
	}
	n1 := x.sliceLen(s)
	n2 := x.sliceLen(t)
	if n2.op == ONum && n2.num.Sign() == 0 {
		return s
	}
	r := x.newRegion("append", s.elem)
	rc := &RegCont{}
	for i := range leaves(s.elem) {
		a1 := x.readArr(st, s, i)
		a2 := x.readArr(st, t, i)
		if n2.op == ONum && n2.num.Num().Int64() <= 4 {
			a := a1
			for k := int64(0); k < n2.num.Num().Int64(); k++ {
				a = c.Store(a, c.AddN(n1, k), c.Select(a2, c.Int(k)))
			}
			rc.leaf = append(rc.leaf, a)
		} else if n1.op == ONum && n1.num.Sign() == 0 {
			rc.leaf = append(rc.leaf, a2)
		} else {
			k := c.FreshBV("k", SInt)
			rc.leaf = append(rc.leaf, c.Lambda(k, c.Ite(c.Lt(k, n1), c.Select(a1, k), c.Select(a2, c.Sub(k, n1)))))
		}
	}
	nl := c.Add(n1, n2)
	// memory sharing: when capacity may exceed length the backing array is written in place
	for _, a := range s.alts {
		if a.reg == nil || a.capa == a.ln {
			continue
		}
		link(a.reg, r)
		if _, ok := st.regs[a.reg]; ok {
			// positions >= off+len of the old backing array may have been overwritten
			old := st.regs[a.reg]
			nc := &RegCont{}
			end := c.Add(a.off, a.ln)
			if x.spec == 0 && x.mayObserveBeyond(a) {
				for i, l := range leaves(s.elem) {
					f := c.Fresh("appended", SArr(l.sort))
					k := c.FreshBV("k", SInt)
					nc.leaf = append(nc.leaf, c.Lambda(k, c.Ite(c.Lt(k, end), c.Select(old.leaf[i], k), c.Select(f, k))))
				}
				st.regs[a.reg] = nc
			}
		}
	}
	st.regs[r] = rc
	cp := c.Fresh("cap", SInt)
	x.assumeT(c.Ge(cp, nl))
	return VSlice{elem: s.elem, alts: []SliceAlt{{guard: c.True, reg: r, off: c.Int(0), ln: nl, capa: cp}}}
}

// mayObserveBeyond: is there possibly a longer view of the region?  A region whose
// only slices end at its own length has nothing observable beyond it.
func (x *Exec) mayObserveBeyond(a SliceAlt) bool {
	if a.off.op == ONum && a.off.num.Sign() == 0 && a.reg.fullLen != nil && a.reg.fullLen == a.ln {
		return false
	}
	return true
}

func (x *Exec) copyOp(d, s VSlice, st *State) Val {
	c := x.c
	n1, n2 := x.sliceLen(d), x.sliceLen(s)
	n := c.Ite(c.Lt(n1, n2), n1, n2)
	if n1 == n2 {
		n = n1
	}
	for _, a := range d.alts {
		if a.reg == nil {
			continue
		}
		old := st.regs[a.reg]
		nc := &RegCont{}
		for i := range leaves(d.elem) {
			src := x.readArr(st, s, i)
			k := c.FreshBV("k", SInt)
			in := c.And(c.Ge(k, a.off), c.Lt(k, c.Add(a.off, n)))
			g := c.And(a.guard, in)
			nc.leaf = append(nc.leaf, c.Lambda(k, c.Ite(g, c.Select(src, c.Sub(k, a.off)), c.Select(old.leaf[i], k))))
		}
		st.regs[a.reg] = nc
		x.taint(st, a.reg)
	}
	return VT{n}
}

// fresh builds an arbitrary value of type t.
func (x *Exec) fresh(t types.Type, name string, st *State) Val {
	c := x.c
	if isTime(t) {
		return VT{c.Fresh(name, SInt)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := scalarSort(t)
		if s == nil {
			unsup("fresh %s", t)
		}
		v := c.Fresh(name, s)
		if s == SReal {
			return VF{v: v}
		}
		if u.Info()&types.IsUnsigned != 0 {
			x.assumeT(c.Ge(v, c.Int(0)))
		}
		return VT{v}
	case *types.Struct:
		v := VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.fields = append(v.fields, x.fresh(u.Field(i).Type(), name+"."+u.Field(i).Name(), st))
		}
		return v
	case *types.Slice:
		r := x.newRegion(name, u.Elem())
		st.regs[r] = x.freshCont(name, u.Elem())
		n := c.Fresh(name+".len", SInt)
		x.hyps = append(x.hyps[:len(x.hyps):len(x.hyps)], c.Ge(n, c.Int(0)))
		x.refHyps(st, r, n)
		return VSlice{elem: u.Elem(), alts: []SliceAlt{{guard: c.True, reg: r, off: c.Int(0), ln: n, capa: n}}}
	case *types.Pointer:
		if nm := namedStruct(u.Elem()); nm != nil && x.w.isRef(nm) {
			r := c.Fresh(name, SInt)
			x.assumeT(c.And(c.Ge(r, c.Int(0)), c.Le(r, st.alloc)))
			return VPtr{elem: u.Elem(), alts: []PtrAlt{{guard: c.True, kind: PHeap, ref: r, htyp: nm}}}
		}
		x.nobj++
		o := &Object{name: fmt.Sprintf("%s#%d", name, x.nobj), typ: u.Elem(), id: x.nobj}
		st.objs[o] = x.fresh(u.Elem(), name, st)
		return VPtr{elem: u.Elem(), alts: []PtrAlt{{guard: c.True, kind: PObj, obj: o}}}
	case *types.Interface:
		return VIface{opaque: c.Fresh(name, SVal)}
	case *types.Signature:
		return VFunc{recv: name}
	case *types.Chan:
		return x.freshChan(name, u, st)
	case *types.TypeParam:
		return VT{c.Fresh(name, SVal)}
	}
	unsup("fresh value of %s", t)
	return nil
}

// refHyps: heap references stored in input slices point to allocated objects.
func (x *Exec) refHyps(st *State, r *Region, n *Term) {
	c := x.c
	for i, l := range leaves(r.elem) {
		if _, ok := l.typ.Underlying().(*types.Pointer); ok && !isTime(l.typ) {
			k := c.FreshBV("k", SInt)
			s := c.Select(st.regs[r].leaf[i], k)
			x.prover.refArrs[st.regs[r].leaf[i]] = true
			x.hyps = append(x.hyps[:len(x.hyps):len(x.hyps)], c.Forall(k, c.Or(c.Lt(k, c.Int(0)), c.Ge(k, n), c.And(c.Ge(s, c.Int(0)), c.Le(s, st.alloc)))))
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func short(s string) string {
	return strings.ReplaceAll(s, "github.com/idoall/stockindicator/", "")
}
