package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/idoall/stockindicator"
const specPath = modPath + "/zzverif"

func (x *Exec) isSpecFn(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return strings.HasPrefix(p, specPath) && (x.task == nil || !x.w.clients[fn])
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
	}
	return ""
}

// specCall evaluates specification code.
func (x *Exec) specCall(fn *ssa.Function, args, binds []Val, st *State) (Val, *State) {
	if x.w.named(fn) {
		return x.namedSpec(fn, args, st), st
	}
	if x.assume {
		x.spec++
		v, ns := x.runFunc(fn, args, binds, st, "")
		x.spec--
		return v, ns
	}
	x.spec++
	s := st.clone()
	pc := s.pc
	s.pc = x.c.True
	savedSt, savedCond := x.st, x.cond
	v, ns := x.runFunc(fn, args, binds, s, "")
	x.st, x.cond = savedSt, savedCond
	x.spec--
	// keep regions created by the specification (sequences)
	for r, rc := range ns.regs {
		if _, ok := st.regs[r]; !ok {
			st.regs[r] = rc
		}
	}
	_ = pc
	return v, st
}

// ---- named (opaque or recursive) specification functions

type flatArg struct {
	terms []*Term
}

func (x *Exec) flattenArg(t types.Type, v Val, st *State) []*Term {
	switch u := v.(type) {
	case VT:
		return []*Term{u.t}
	case VF:
		return []*Term{u.v}
	case VStruct:
		var out []*Term
		for i, f := range u.fields {
			out = append(out, x.flattenArg(t.Underlying().(*types.Struct).Field(i).Type(), f, st)...)
		}
		return out
	case VSlice:
		var out []*Term
		for i := range leaves(u.elem) {
			out = append(out, x.readArr(st, u, i))
		}
		return append(out, x.sliceLen(u))
	case VPtr:
		return []*Term{x.ptrRef(u)}
	case VIface:
		return []*Term{x.box(u)}
	}
	unsup("argument of named specification function: %T", v)
	return nil
}

func (x *Exec) namedSpec(fn *ssa.Function, args []Val, st *State) Val {
	c := x.c
	d := x.specDef(fn)
	var ts []*Term
	for i, p := range fn.Params {
		ts = append(ts, x.flattenArg(p.Type(), args[i], st)...)
	}
	for _, h := range d.heap {
		ts = append(ts, x.heapArr(st, h.key, h.sort))
	}
	res := fn.Signature.Results().At(0).Type()
	if sl, ok := res.Underlying().(*types.Slice); ok {
		r := x.newRegion("spec."+fn.Name(), sl.Elem())
		rc := &RegCont{}
		for i := range leaves(sl.Elem()) {
			rc.leaf = append(rc.leaf, c.App(d.leafName(i), SArr(leaves(sl.Elem())[i].sort), ts...))
		}
		st.regs[r] = rc
		m := map[*Term]*Term{}
		for i, p := range d.params {
			m[p] = ts[i]
		}
		n := c.Subst(d.lenBody, m)
		return VSlice{elem: sl.Elem(), alts: []SliceAlt{{guard: c.True, reg: r, off: c.Int(0), ln: n, capa: n}}}
	}
	return x.fromScalar(res, c.App(d.name, scalarSort(res), ts...))
}

type heapUse struct {
	key  string
	sort *Sort
}

type specDef struct {
	name    string
	params  []*Term
	heap    []heapUse
	lenBody *Term
	building bool
}

func (d *specDef) leafName(i int) string {
	if i == 0 {
		return d.name
	}
	return fmt.Sprintf("%s#%d", d.name, i)
}

func (x *Exec) specDef(fn *ssa.Function) *specDef {
	c := x.c
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.RelString(nil)
	}
	if pk := fnPkg(fn); pk != specPath+"/spec" {
		name = pk[strings.LastIndex(pk, "/")+1:] + "." + name
	}
	name = sanitize(name)
	if d, ok := x.specDefs[name]; ok {
		return d
	}
	d := &specDef{name: name, building: true}
	x.specDefs[name] = d
	d.heap = x.w.heapUses(fn)
	st := &State{pc: c.True, objs: map[*Object]Val{}, regs: map[*Region]*RegCont{}, heap: map[string]*Term{}, alloc: c.Var("alloc0", SInt), ghost: map[string]Val{}}
	arrLens := map[int]*Term{}
	var args []Val
	var rec func(t types.Type, nm string) Val
	rec = func(t types.Type, nm string) Val {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			r := x.newRegion(nm, sl.Elem())
			rc := &RegCont{}
			var idx []int
			for i, l := range leaves(sl.Elem()) {
				v := c.Var(fmt.Sprintf("%s.%s.%d", name, nm, i), SArr(l.sort))
				rc.leaf = append(rc.leaf, v)
				idx = append(idx, len(d.params))
				d.params = append(d.params, v)
			}
			n := c.Var(fmt.Sprintf("%s.%s.len", name, nm), SInt)
			d.params = append(d.params, n)
			for _, i := range idx {
				arrLens[i] = n
			}
			st.regs[r] = rc
			return VSlice{elem: sl.Elem(), alts: []SliceAlt{{guard: c.True, reg: r, off: c.Int(0), ln: n, capa: n}}}
		}
		if s, ok := t.Underlying().(*types.Struct); ok && !isTime(t) {
			v := VStruct{typ: t}
			for i := 0; i < s.NumFields(); i++ {
				v.fields = append(v.fields, rec(s.Field(i).Type(), nm+"."+s.Field(i).Name()))
			}
			return v
		}
		s := scalarSort(t)
		if s == nil {
			unsup("parameter of named specification function: %s", t)
		}
		v := c.Var(name+"."+nm, s)
		d.params = append(d.params, v)
		return x.fromScalar(t, v)
	}
	for _, p := range fn.Params {
		args = append(args, rec(p.Type(), p.Name()))
	}
	for _, h := range d.heap {
		v := c.Var(name+".H."+h.key, SArr(h.sort))
		d.params = append(d.params, v)
		st.heap[h.key] = v
	}
	res := fn.Signature.Results().At(0).Type()
	recursive := x.w.recursive(fn)
	_, opaque := directives(fn)["opaque"]
	// register before building the body so recursive applications resolve
	var fds []*FnDef
	if sl, ok := res.Underlying().(*types.Slice); ok {
		for i := range leaves(sl.Elem()) {
			fd := &FnDef{name: d.leafName(i), params: d.params, arrLens: arrLens, opaque: opaque}
			c.defs[fd.name] = fd
			fds = append(fds, fd)
		}
	} else {
		fd := &FnDef{name: d.name, params: d.params, arrLens: arrLens, recursive: recursive}
		c.defs[fd.name] = fd
		fds = append(fds, fd)
	}
	savedSt, savedCond, savedCur, savedAssume, savedCap := x.st, x.cond, x.cur, x.assume, x.allCap
	x.assume = false
	x.allCap = nil
	x.spec++
	x.st = st
	x.cond = c.True
	v, ns := x.runFunc(fn, args, nil, st, "")
	x.spec--
	if sl, ok := res.Underlying().(*types.Slice); ok {
		s := v.(VSlice)
		for i := range leaves(sl.Elem()) {
			fds[i].seqBody = x.readArr(ns, s, i)
		}
		d.lenBody = x.sliceLen(s)
	} else {
		fds[0].body = x.scalarTerm(res, v, "spec")
	}
	d.building = false
	for _, ft := range x.w.facts[fn] {
		if f := x.task.contract.fact; f != nil && f.index <= ft.index {
			continue
		}
		x.usedContracts[ft.ct.key] = true
		x.spec++
		v, _ := x.runFunc(ft.fn, args, nil, st, "")
		x.spec--
		for _, fd := range fds {
			fd.facts = append(fd.facts, v.(VT).t)
		}
	}
	x.st, x.cond, x.cur, x.assume, x.allCap = savedSt, savedCond, savedCur, savedAssume, savedCap
	return d
}

// ---------------------------------------------------------------------------
// intrinsics

type intrinsic func(x *Exec, fr *frame, fn *ssa.Function, args []Val, st *State) (Val, *State)

var intrinsics map[string]intrinsic

func callClosure(x *Exec, f VFunc, args []Val, st *State) Val {
	v, _ := x.specCall2(f, args, st)
	return v
}

func (x *Exec) specCall2(f VFunc, args []Val, st *State) (Val, *State) {
	c := x.c
	if f.fn == nil && f.recv != nil {
		sig := x.task.fnSigs[f.recv.(string)]
		s := scalarSort(sig.Results().At(0).Type())
		var ts []*Term
		for i, a := range args {
			ts = append(ts, x.scalarTerm(sig.Params().At(i).Type(), a, ""))
		}
		return x.fromScalar(sig.Results().At(0).Type(), c.App("fn:"+f.recv.(string), s, ts...)), st
	}
	x.spec++
	s := st.clone()
	s.pc = c.True
	savedSt, savedCond, savedAssume := x.st, x.cond, x.assume
	x.assume = false
	x.st, x.cond = s, c.True
	v, ns := x.runFunc(f.fn, args, f.binds, s, "")
	x.st, x.cond, x.assume = savedSt, savedCond, savedAssume
	x.spec--
	for r, rc := range ns.regs {
		if _, ok := st.regs[r]; !ok {
			st.regs[r] = rc
		}
	}
	return v, st
}

// quantified: All(lo, hi, f)
func (x *Exec) quantAll(lo, hi *Term, f VFunc, st *State) *Term {
	c := x.c
	k := c.FreshBV("k", SInt)
	capf, col := x.allCap, x.collect
	x.allCap, x.collect = nil, nil
	bv := callClosure(x, f, []Val{VT{k}}, st)
	if bv == nil {
		bv = VT{c.Fresh("undef", SBool)}
	}
	body := bv.(VT).t
	x.allCap, x.collect = capf, col
	rng := c.And(c.Ge(k, lo), c.Lt(k, hi))
	if capf != nil && x.quantDepth == 0 {
		rng = c.And(rng, capf(k))
	}
	q := c.Forall(k, c.Imp(rng, body))
	if col != nil {
		col.terms = append(col.terms, q)
	}
	return q
}

func (x *Exec) floatEq(a, b VF) *Term {
	c := x.c
	e := c.Eq(a.v, b.v)
	if a.kind != nil {
		e = c.And(c.Eq(a.kind, c.Int(0)), e)
	}
	if b.kind != nil {
		e = c.And(c.Eq(b.kind, c.Int(0)), e)
	}
	return e
}

func init() {
	intrinsics = map[string]intrinsic{}
	sp := specPath + "/spec."
	reg := func(n string, f func(x *Exec, args []Val, st *State) Val) {
		intrinsics[n] = func(x *Exec, fr *frame, fn *ssa.Function, args []Val, st *State) (Val, *State) {
			return f(x, args, st), st
		}
	}
	reg(sp+"All", func(x *Exec, a []Val, st *State) Val {
		return VT{x.quantAll(a[0].(VT).t, a[1].(VT).t, a[2].(VFunc), st)}
	})
	reg(sp+"Eq", func(x *Exec, a []Val, st *State) Val {
		return VT{x.floatEq(a[0].(VF), a[1].(VF))}
	})
	// Near: unequal by rounding only, which exact arithmetic does not know
	reg(sp+"Near", func(x *Exec, a []Val, st *State) Val {
		return VT{x.c.Bool(false)}
	})
	reg(sp+"Imp", func(x *Exec, a []Val, st *State) Val {
		return VT{x.c.Imp(a[0].(VT).t, a[1].(VT).t)}
	})
	reg(sp+"Iff", func(x *Exec, a []Val, st *State) Val {
		return VT{x.c.Eq(a[0].(VT).t, a[1].(VT).t)}
	})
	reg(sp+"And", func(x *Exec, a []Val, st *State) Val {
		return VT{x.c.And(a[0].(VT).t, a[1].(VT).t)}
	})
	reg(sp+"Or", func(x *Exec, a []Val, st *State) Val {
		return VT{x.c.Or(a[0].(VT).t, a[1].(VT).t)}
	})
	at := func(x *Exec, a []Val, st *State) Val {
		s := a[0].(VSlice)
		t := x.c.Select(x.readArr(st, s, 0), a[1].(VT).t)
		if isFloat(s.elem) {
			return VF{v: t}
		}
		return VT{t}
	}
	reg(sp+"At", at)
	reg(sp+"AtI", at)
	reg(sp+"AtB", at)
	reg(sp+"IfF", func(x *Exec, a []Val, st *State) Val { return x.mergeVal(a[0].(VT).t, a[1], a[2]) })
	reg(sp+"IfI", func(x *Exec, a []Val, st *State) Val { return x.mergeVal(a[0].(VT).t, a[1], a[2]) })
	leq := func(s string) func(x *Exec, a []Val, st *State) Val {
		return func(x *Exec, a []Val, st *State) Val {
			p, q := a[0].(VF), a[1].(VF)
			if s == "Le" {
				return VT{x.c.Le(p.v, q.v)}
			}
			return VT{x.c.Lt(p.v, q.v)}
		}
	}
	reg(sp+"Le", leq("Le"))
	reg(sp+"Lt", leq("Lt"))
	reg(sp+"Finite", func(x *Exec, a []Val, st *State) Val { return VT{x.isKind(a[0].(VF), 0)} })
	eqSeq := func(x *Exec, a []Val, st *State) Val {
		c := x.c
		s, t := a[0].(VSlice), a[1].(VSlice)
		ln, tn := x.sliceLen(s), x.sliceLen(t)
		if x.assume && len(s.alts) == 1 && s.alts[0].reg != nil && x.freshRes[s.alts[0].reg] {
			r := s.alts[0].reg
			old := st.regs[r]
			nc := &RegCont{}
			for i := range old.leaf {
				nc.leaf = append(nc.leaf, c.Ite(st.pc, x.readArr(st, t, i), old.leaf[i]))
			}
			st.regs[r] = nc
			x.hyps = append(x.hyps[:len(x.hyps):len(x.hyps)], c.Imp(st.pc, c.Eq(ln, tn)))
			return VT{c.True}
		}
		out := []*Term{c.Eq(ln, tn)}
		if x.collect != nil {
			out = nil
		}
		for i := range leaves(s.elem) {
			k := c.FreshBV("k", SInt)
			rng := c.And(c.Ge(k, c.Int(0)), c.Lt(k, tn))
			if x.allCap != nil {
				rng = c.And(rng, x.allCap(k))
			}
			out = append(out, c.Forall(k, c.Imp(rng, c.Eq(c.Select(x.readArr(st, s, i), k), c.Select(x.readArr(st, t, i), k)))))
		}
		if x.collect != nil {
			x.collect.terms = append(x.collect.terms, out...)
		}
		return VT{c.And(out...)}
	}
	reg(sp+"EqSeq", eqSeq)
	reg(sp+"EqInts", eqSeq)
	reg(sp+"EqBools", eqSeq)
	seq := func(x *Exec, a []Val, st *State) Val {
		c := x.c
		n := a[0].(VT).t
		k := c.FreshBV("k", SInt)
		f := a[1].(VFunc)
		v := callClosure(x, f, []Val{VT{k}}, st)
		var elem types.Type
		if f.fn != nil {
			elem = f.fn.Signature.Results().At(0).Type()
		} else {
			elem = x.task.fnSigs[f.recv.(string)].Results().At(0).Type()
		}
		r := x.newRegion("seq", elem)
		rc := &RegCont{}
		x.spec++
		for _, t := range x.toLeaves(elem, v, "seq") {
			rc.leaf = append(rc.leaf, c.Lambda(k, t))
		}
		x.spec--
		st.regs[r] = rc
		ln := c.Ite(c.Ge(n, c.Int(0)), n, c.Int(0))
		if x.knownNonNeg(n) {
			ln = n
		}
		return VSlice{elem: elem, alts: []SliceAlt{{guard: c.True, reg: r, off: c.Int(0), ln: ln, capa: ln}}}
	}
	reg(sp+"Seq", seq)
	reg(sp+"SeqI", seq)
	reg(sp+"SeqB", seq)

	f1 := func(g func(x *Exec, a VF) Val) func(x *Exec, a []Val, st *State) Val {
		return func(x *Exec, a []Val, st *State) Val { return g(x, a[0].(VF)) }
	}
	reg("math.Abs", f1(func(x *Exec, a VF) Val {
		c := x.c
		r := VF{v: c.Ite(c.Ge(a.v, c.Real(0)), a.v, c.Neg(a.v))}
		if a.kind != nil {
			r.kind = c.Ite(c.Eq(a.kind, c.Int(3)), c.Int(2), a.kind)
		}
		return r
	}))
	reg("math.IsNaN", f1(func(x *Exec, a VF) Val { return VT{x.isKind(a, 1)} }))
	reg("math.NaN", func(x *Exec, a []Val, st *State) Val { return VF{v: x.c.Real(0), kind: x.c.Int(1)} })
	reg("math.Inf", func(x *Exec, a []Val, st *State) Val {
		return VF{v: x.c.Real(0), kind: x.c.Ite(x.c.Ge(a[0].(VT).t, x.c.Int(0)), x.c.Int(2), x.c.Int(3))}
	})
	reg("math.IsInf", func(x *Exec, a []Val, st *State) Val {
		c := x.c
		f := a[0].(VF)
		s := a[1].(VT).t
		if f.kind == nil {
			return VT{c.False}
		}
		return VT{c.Or(c.And(c.Ge(s, c.Int(0)), c.Eq(f.kind, c.Int(2))), c.And(c.Le(s, c.Int(0)), c.Eq(f.kind, c.Int(3))))}
	})
	minmax := func(isMax bool) func(x *Exec, a []Val, st *State) Val {
		return func(x *Exec, a []Val, st *State) Val {
			c := x.c
			p, q := a[0].(VF), a[1].(VF)
			if p.kind != nil || q.kind != nil {
				if x.spec == 0 {
					k := c.And(x.isKind(p, 0), x.isKind(q, 0))
					x.oblige("finite", "math.Max/Min on finite values", k)
				}
			}
			if isMax {
				return VF{v: c.Ite(c.Ge(p.v, q.v), p.v, q.v)}
			}
			return VF{v: c.Ite(c.Le(p.v, q.v), p.v, q.v)}
		}
	}
	reg("math.Max", minmax(true))
	reg("math.Min", minmax(false))
	reg(sp+"Max", minmax(true))
	reg(sp+"Min", minmax(false))
	reg(sp+"Abs", func(x *Exec, a []Val, st *State) Val {
		f := a[0].(VF)
		return VF{v: x.c.Ite(x.c.Ge(f.v, x.c.Real(0)), f.v, x.c.Neg(f.v))}
	})
	sqrt := f1(func(x *Exec, a VF) Val {
		c := x.c
		r := VF{v: c.App("sqrt!", SReal, a.v)}
		if a.v.op == ONum && a.v.num.Sign() == 0 {
			r.v = c.Real(0)
		}
		if x.spec == 0 {
			neg := c.Lt(a.v, c.Real(0))
			k := c.Ite(neg, c.Int(1), c.Int(0))
			if a.kind != nil {
				k = c.Ite(c.Eq(a.kind, c.Int(0)), k, c.Ite(c.Eq(a.kind, c.Int(2)), c.Int(2), c.Int(1)))
			}
			r.kind = x.normKind(k)
		}
		return r
	})
	reg("math.Sqrt", sqrt)
	reg(sp+"Sqrt", sqrt)
	un := func(name string) func(x *Exec, a []Val, st *State) Val {
		return f1(func(x *Exec, a VF) Val {
			if x.spec == 0 {
				x.note("math." + name + " is an uninterpreted total function")
			}
			return VF{v: x.c.App("math."+name, SReal, a.v), kind: a.kind}
		})
	}
	for _, n := range []string{"Atan", "Exp", "Sin", "Cos", "Tan", "Log", "Log10", "Cbrt"} {
		reg("math."+n, un(n))
	}
	reg("math.Round", f1(func(x *Exec, a VF) Val {
		if t := intOf(x.c, a.v); t != nil {
			return a
		}
		return VF{v: x.c.ToReal(x.c.App("round!", SInt, a.v)), kind: a.kind}
	}))
	reg("math.Floor", f1(func(x *Exec, a VF) Val { return VF{v: x.c.ToReal(x.floorReal(a.v)), kind: a.kind} }))
	reg("math.Ceil", f1(func(x *Exec, a VF) Val {
		return VF{v: x.c.Neg(x.c.ToReal(x.floorReal(x.c.Neg(a.v)))), kind: a.kind}
	}))
	reg("math.Trunc", f1(func(x *Exec, a VF) Val { return VF{v: x.c.ToReal(x.truncReal(a.v)), kind: a.kind} }))
	pow := func(x *Exec, a []Val, st *State) Val {
		c := x.c
		b, e := a[0].(VF), a[1].(VF)
		if b.kind != nil || e.kind != nil {
			x.oblige("finite", "math.Pow on finite values", c.And(x.isKind(b, 0), x.isKind(e, 0)))
		}
		if e.v.op == ONum && e.v.num.IsInt() && e.v.num.Sign() >= 0 && e.v.num.Cmp(big.NewRat(8, 1)) <= 0 {
			r := c.Real(1)
			for i := int64(0); i < e.v.num.Num().Int64(); i++ {
				r = c.Mul(r, b.v)
			}
			return VF{v: r}
		}
		if e.v.op == ONum && e.v.num.Cmp(big.NewRat(-1, 1)) == 0 {
			return x.fbin(token.QUO, VF{v: c.Real(1)}, b)
		}
		if b.v.op == ONum && b.v.num.Sign() > 0 {
			p := c.App("pow!", SReal, b.v, e.v)
			x.assumeT(c.Gt(p, c.Real(0)))
			return VF{v: p}
		}
		p := c.App("pow!", SReal, b.v, e.v)
		x.oblige("finite", "math.Pow inside its real domain", c.Or(c.Gt(b.v, c.Real(0)), c.And(c.Eq(e.v, c.Real(-1)), c.Not(c.Eq(b.v, c.Real(0))))))
		x.note("math.Pow with a symbolic exponent is an uninterpreted function, finite on its real domain")
		return VF{v: p}
	}
	reg("math.Pow", pow)
	reg(sp+"Pow", pow)
	reg("time.Unix", func(x *Exec, a []Val, st *State) Val {
		c := x.c
		return VT{c.Add(c.Scale(a[0].(VT).t, big.NewRat(1000000000, 1)), a[1].(VT).t)}
	})
	tcmp := func(op string) func(x *Exec, a []Val, st *State) Val {
		return func(x *Exec, a []Val, st *State) Val {
			c := x.c
			p, q := a[0].(VT).t, a[1].(VT).t
			switch op {
			case "Equal":
				return VT{c.Eq(p, q)}
			case "Before":
				return VT{c.Lt(p, q)}
			case "After":
				return VT{c.Gt(p, q)}
			case "Sub":
				return VT{c.Sub(p, q)}
			case "Add":
				return VT{c.Add(p, q)}
			}
			return nil
		}
	}
	for _, n := range []string{"Equal", "Before", "After", "Sub", "Add"} {
		reg("(time.Time)."+n, tcmp(n))
	}
	reg("(time.Time).Unix", func(x *Exec, a []Val, st *State) Val {
		return VT{x.c.IDiv(a[0].(VT).t, x.c.Int(1000000000))}
	})
	reg("(time.Time).UnixNano", func(x *Exec, a []Val, st *State) Val { return a[0] })
	reg("(time.Time).UTC", func(x *Exec, a []Val, st *State) Val { return a[0] })
	reg("(time.Time).Local", func(x *Exec, a []Val, st *State) Val { return a[0] })
	reg("(time.Time).IsZero", func(x *Exec, a []Val, st *State) Val {
		return VT{x.c.Eq(a[0].(VT).t, x.c.Var("zeroTime", SInt))}
	})
	reg("errors.New", func(x *Exec, a []Val, st *State) Val {
		c := x.c
		b := c.Fresh("err", SVal)
		x.assumeT(c.Not(c.Eq(b, x.nilBox())))
		return VIface{opaque: b}
	})
	reg("fmt.Errorf", func(x *Exec, a []Val, st *State) Val {
		c := x.c
		b := c.Fresh("err", SVal)
		x.assumeT(c.Not(c.Eq(b, x.nilBox())))
		return VIface{opaque: b}
	})
	reg("fmt.Sprintf", func(x *Exec, a []Val, st *State) Val {
		x.note("fmt.Sprintf returns an unspecified string")
		return VT{x.c.Fresh("sprintf", SStr)}
	})
}

func (x *Exec) knownNonNeg(n *Term) bool {
	if n.op == ONum {
		return n.num.Sign() >= 0
	}
	return n.op == OVar && (strings.Contains(n.name, ".len") || strings.HasSuffix(n.name, ".len"))
}
