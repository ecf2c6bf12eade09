package main

import (
	"fmt"
	"go/types"
	"sync"
)

var leafMu sync.Mutex

// State is the symbolic memory plus the path condition.
type State struct {
	pc    *Term
	objs  map[*Object]Val
	regs  map[*Region]*RegCont
	heap  map[string]*Term // "pkg.Type.path" -> array ref->value
	alloc *Term            // allocation counter for heap refs
	ghost map[string]Val
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, objs: make(map[*Object]Val, len(s.objs)), regs: make(map[*Region]*RegCont, len(s.regs)), heap: make(map[string]*Term, len(s.heap)), ghost: make(map[string]Val, len(s.ghost))}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (x *Exec) zero(t types.Type) Val {
	c := x.c
	if isTime(t) {
		return VT{c.Var("zeroTime", SInt)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VT{c.Int(0)}
		case u.Info()&types.IsFloat != 0:
			return VF{v: c.Real(0)}
		case u.Info()&types.IsBoolean != 0:
			return VT{c.False}
		case u.Info()&types.IsString != 0:
			return VT{x.strLit("")}
		case u.Kind() == types.UntypedNil:
			return VPtr{elem: nil, alts: []PtrAlt{{guard: c.True, kind: PNil}}}
		}
	case *types.Struct:
		v := VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.fields = append(v.fields, x.zero(u.Field(i).Type()))
		}
		return v
	case *types.Slice:
		return VSlice{elem: u.Elem(), alts: []SliceAlt{{guard: c.True, off: c.Int(0), ln: c.Int(0), capa: c.Int(0)}}}
	case *types.Pointer:
		return VPtr{elem: u.Elem(), alts: []PtrAlt{{guard: c.True, kind: PNil}}}
	case *types.Interface:
		return VIface{alts: []IfaceAlt{{guard: c.True}}}
	case *types.Signature:
		return VFunc{}
	case *types.Chan:
		return VChan{}
	case *types.Map:
		return VMap{}
	}
	unsup("zero value of %s", t)
	return nil
}

func (x *Exec) strLit(s string) *Term {
	return x.c.App("str:"+sanitizeStr(s), SStr)
}
func sanitizeStr(s string) string {
	out := ""
	for _, r := range s {
		if r == '|' || r == '\\' || r > 126 || r < 32 {
			out += fmt.Sprintf("_u%x_", r)
		} else {
			out += string(r)
		}
	}
	return out
}

// ---- leaf <-> value conversions

func (x *Exec) toLeaves(t types.Type, v Val, what string) []*Term {
	var out []*Term
	var rec func(t types.Type, v Val)
	rec = func(t types.Type, v Val) {
		if st, ok := t.Underlying().(*types.Struct); ok && !isTime(t) {
			sv := v.(VStruct)
			for i := 0; i < st.NumFields(); i++ {
				rec(st.Field(i).Type(), sv.fields[i])
			}
			return
		}
		out = append(out, x.scalarTerm(t, v, what))
	}
	rec(t, v)
	return out
}

// scalarTerm flattens a scalar value to a term (for storage in arrays).
func (x *Exec) scalarTerm(t types.Type, v Val, what string) *Term {
	switch w := v.(type) {
	case VT:
		return w.t
	case VF:
		if w.kind != nil {
			x.oblige("finite", what, x.c.Eq(w.kind, x.c.Int(0)))
		}
		return w.v
	case VPtr:
		return x.ptrRef(w)
	case VIface:
		return x.box(w)
	}
	unsup("scalar of %s (%T)", t, v)
	return nil
}

func (x *Exec) ptrRef(p VPtr) *Term {
	c := x.c
	var r *Term
	for i := len(p.alts) - 1; i >= 0; i-- {
		a := p.alts[i]
		var t *Term
		switch a.kind {
		case PNil:
			t = c.Int(0)
		case PHeap:
			if len(a.path) != 0 {
				unsup("interior heap pointer stored")
			}
			t = a.ref
		default:
			unsup("pointer to non-heap object stored in an aggregate (%s)", typName(p.elem))
		}
		if r == nil {
			r = t
		} else {
			r = c.Ite(a.guard, t, r)
		}
	}
	return r
}

func (x *Exec) fromScalar(t types.Type, s *Term) Val {
	if isTime(t) {
		return VT{s}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n := namedStruct(u.Elem())
		if n == nil {
			unsup("pointer leaf %s", t)
		}
		return VPtr{elem: u.Elem(), alts: []PtrAlt{{guard: x.c.True, kind: PHeap, ref: s, htyp: n}}}
	case *types.Interface:
		return VIface{opaque: s}
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return VF{v: s}
		}
	}
	return VT{s}
}

// fromLeaves builds a value of type t from a leaf supplier.
func (x *Exec) fromLeaves(t types.Type, get func(i int) *Term) Val {
	i := 0
	var rec func(t types.Type) Val
	rec = func(t types.Type) Val {
		if st, ok := t.Underlying().(*types.Struct); ok && !isTime(t) {
			v := VStruct{typ: t}
			for j := 0; j < st.NumFields(); j++ {
				v.fields = append(v.fields, rec(st.Field(j).Type()))
			}
			return v
		}
		s := get(i)
		i++
		return x.fromScalar(t, s)
	}
	return rec(t)
}

// ---- regions

func (x *Exec) newRegion(name string, elem types.Type) *Region {
	x.nreg++
	return &Region{name: fmt.Sprintf("%s#%d", name, x.nreg), elem: elem, id: x.nreg}
}

func (x *Exec) zeroCont(elem types.Type) *RegCont {
	rc := &RegCont{}
	z := x.toLeaves(elem, x.zero(elem), "zero")
	for _, t := range z {
		rc.leaf = append(rc.leaf, x.c.ConstArr(t))
	}
	return rc
}

func (x *Exec) freshCont(name string, elem types.Type) *RegCont {
	rc := &RegCont{}
	for i, l := range leaves(elem) {
		rc.leaf = append(rc.leaf, x.c.Fresh(fmt.Sprintf("%s.%d", name, i), SArr(l.sort)))
	}
	return rc
}

func (x *Exec) regLoad(st *State, r *Region, idx *Term, path []int) Val {
	rc := st.regs[r]
	if rc == nil {
		unsup("dangling region %s", r.name)
	}
	ls := leaves(r.elem)
	// leaves under path
	var sel []int
	for i, l := range ls {
		if pathPrefix(path, l.path) {
			sel = append(sel, i)
		}
	}
	t := typeAt(r.elem, path)
	return x.fromLeaves(t, func(i int) *Term { return x.c.Select(rc.leaf[sel[i]], idx) })
}

func (x *Exec) regStore(st *State, r *Region, idx *Term, path []int, v Val, guard *Term) {
	c := x.c
	rc := st.regs[r]
	if rc == nil {
		unsup("dangling region %s", r.name)
	}
	ls := leaves(r.elem)
	t := typeAt(r.elem, path)
	vals := x.toLeaves(t, v, "store to "+r.name)
	n := &RegCont{leaf: append([]*Term(nil), rc.leaf...)}
	j := 0
	for i, l := range ls {
		if pathPrefix(path, l.path) {
			nv := vals[j]
			j++
			if guard != c.True {
				nv = c.Ite(guard, nv, c.Select(rc.leaf[i], idx))
			}
			n.leaf[i] = c.Store(rc.leaf[i], idx, nv)
		}
	}
	st.regs[r] = n
	x.taint(st, r)
}

// taint havocs every region that may share memory with r.
func (x *Exec) taint(st *State, r *Region) {
	seen := map[*Region]bool{r: true}
	q := []*Region{r}
	for len(q) > 0 {
		a := q[0]
		q = q[1:]
		for _, b := range a.links {
			if !seen[b] {
				seen[b] = true
				q = append(q, b)
				if _, ok := st.regs[b]; ok {
					st.regs[b] = x.freshCont("tainted."+b.name, b.elem)
				}
			}
		}
	}
}

func link(a, b *Region) {
	if a == b || a == nil || b == nil {
		return
	}
	for _, l := range a.links {
		if l == b {
			return
		}
	}
	a.links = append(a.links, b)
	b.links = append(b.links, a)
}

// ---- heap

func heapKey(n *types.Named, path []int) string {
	s := n.Obj().Pkg().Name() + "." + n.Obj().Name()
	t := types.Type(n)
	for _, i := range path {
		f := t.Underlying().(*types.Struct).Field(i)
		s += "." + f.Name()
		t = f.Type()
	}
	return s
}

func (x *Exec) heapArr(st *State, key string, s *Sort) *Term {
	if a, ok := st.heap[key]; ok {
		return a
	}
	return x.c.Var("H."+key, SArr(s))
}

func (x *Exec) heapLoad(st *State, n *types.Named, ref *Term, path []int) Val {
	t := typeAt(n, path)
	var ls []Leaf
	for _, l := range leaves(n) {
		if pathPrefix(path, l.path) {
			ls = append(ls, l)
		}
	}
	return x.fromLeaves(t, func(i int) *Term {
		return x.c.Select(x.heapArr(st, heapKey(n, ls[i].path), ls[i].sort), ref)
	})
}

func (x *Exec) heapStore(st *State, n *types.Named, ref *Term, path []int, v Val, guard *Term) {
	c := x.c
	t := typeAt(n, path)
	vals := x.toLeaves(t, v, "store to field "+heapKey(n, path))
	j := 0
	for _, l := range leaves(n) {
		if pathPrefix(path, l.path) {
			k := heapKey(n, l.path)
			a := x.heapArr(st, k, l.sort)
			nv := vals[j]
			j++
			if guard != c.True {
				nv = c.Ite(guard, nv, c.Select(a, ref))
			}
			st.heap[k] = c.Store(a, ref, nv)
		}
	}
}

// ---- object paths

func getPath(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(VStruct)
		if !ok {
			unsup("field path into %T", v)
		}
		v = s.fields[i]
	}
	return v
}

func setPath(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	s := v.(VStruct)
	f := append([]Val(nil), s.fields...)
	f[path[0]] = setPath(f[path[0]], path[1:], n)
	return VStruct{typ: s.typ, fields: f}
}

// ---- loads and stores through pointers

func (x *Exec) load(st *State, p VPtr) Val {
	c := x.c
	var res Val
	for i := len(p.alts) - 1; i >= 0; i-- {
		a := p.alts[i]
		var v Val
		switch a.kind {
		case PNil:
			continue
		case PObj:
			v = getPath(x.objVal(st, a.obj), a.path)
		case PElem:
			if a.whole {
				unsup("load of a whole array")
			}
			v = x.regLoad(st, a.reg, a.idx, a.path)
		case PHeap:
			v = x.heapLoad(st, a.htyp, a.ref, a.path)
		}
		if res == nil {
			res = v
		} else {
			res = x.mergeVal(a.guard, v, res)
		}
	}
	if res == nil {
		return x.zero(p.elem)
	}
	_ = c
	return res
}

func (x *Exec) objVal(st *State, o *Object) Val {
	v, ok := st.objs[o]
	if !ok {
		unsup("dangling object %s", o.name)
	}
	return v
}

func (x *Exec) store(st *State, p VPtr, v Val) {
	c := x.c
	single := len(p.alts) == 1
	for _, a := range p.alts {
		g := a.guard
		if single {
			g = c.True
		}
		switch a.kind {
		case PNil:
			continue
		case PObj:
			old := x.objVal(st, a.obj)
			nv := v
			if g != c.True {
				nv = x.mergeVal(g, v, getPath(old, a.path))
			}
			st.objs[a.obj] = setPath(old, a.path, nv)
		case PElem:
			x.regStore(st, a.reg, a.idx, a.path, v, g)
		case PHeap:
			x.heapStore(st, a.htyp, a.ref, a.path, v, g)
		}
	}
}

// nonNil returns the condition under which p is not nil.
func (x *Exec) nonNil(p VPtr) *Term {
	c := x.c
	r := c.True
	for _, a := range p.alts {
		switch a.kind {
		case PNil:
			r = c.And(r, c.Not(a.guard))
		case PHeap:
			r = c.And(r, c.Imp(a.guard, c.Not(c.Eq(a.ref, c.Int(0)))))
		}
	}
	return r
}

// ---- merging

func (x *Exec) mergeVal(g *Term, a, b Val) Val {
	c := x.c
	if g == c.True {
		return a
	}
	if g == c.False {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch av := a.(type) {
	case VT:
		return VT{c.Ite(g, av.t, b.(VT).t)}
	case VF:
		bv := b.(VF)
		r := VF{v: c.Ite(g, av.v, bv.v)}
		if av.kind != nil || bv.kind != nil {
			ka, kb := av.kind, bv.kind
			if ka == nil {
				ka = c.Int(0)
			}
			if kb == nil {
				kb = c.Int(0)
			}
			r.kind = x.normKind(c.Ite(g, ka, kb))
		}
		return r
	case VStruct:
		bv := b.(VStruct)
		r := VStruct{typ: av.typ}
		for i := range av.fields {
			r.fields = append(r.fields, x.mergeVal(g, av.fields[i], bv.fields[i]))
		}
		return r
	case VTuple:
		bv := b.(VTuple)
		r := VTuple{}
		for i := range av.vals {
			r.vals = append(r.vals, x.mergeVal(g, av.vals[i], bv.vals[i]))
		}
		return r
	case VSlice:
		bv := b.(VSlice)
		var alts []SliceAlt
		for _, s := range av.alts {
			s.guard = c.And(g, s.guard)
			alts = append(alts, s)
		}
		for _, s := range bv.alts {
			s.guard = c.And(c.Not(g), s.guard)
			if s.guard == c.False {
				continue
			}
			merged := false
			for i := range alts {
				o := &alts[i]
				if o.reg == s.reg {
					if s.reg == nil {
						o.guard = c.Or(o.guard, s.guard)
					} else {
						// choose by the a-side guard
						o.off = c.Ite(o.guard, o.off, s.off)
						o.ln = c.Ite(o.guard, o.ln, s.ln)
						o.capa = c.Ite(o.guard, o.capa, s.capa)
						o.guard = c.Or(o.guard, s.guard)
					}
					merged = true
					break
				}
			}
			if !merged {
				alts = append(alts, s)
			}
		}
		alts = dropFalse(c, alts)
		if len(alts) == 1 {
			alts[0].guard = c.True
		}
		return VSlice{elem: av.elem, alts: alts}
	case VPtr:
		bv := b.(VPtr)
		var alts []PtrAlt
		for _, s := range av.alts {
			s.guard = c.And(g, s.guard)
			alts = append(alts, s)
		}
		for _, s := range bv.alts {
			s.guard = c.And(c.Not(g), s.guard)
			merged := false
			for i := range alts {
				o := &alts[i]
				if samePtr(*o, s) {
					o.guard = c.Or(o.guard, s.guard)
					merged = true
					break
				}
				// heap refs (and nil) of the same type merge into one ref term
				if o.kind == PHeap && s.kind == PHeap && o.htyp == s.htyp && eqPath(o.path, s.path) {
					o.ref = c.Ite(o.guard, o.ref, s.ref)
					o.guard = c.Or(o.guard, s.guard)
					merged = true
					break
				}
				if len(o.path) == 0 && len(s.path) == 0 && (o.kind == PHeap && s.kind == PNil) {
					o.ref = c.Ite(o.guard, o.ref, c.Int(0))
					o.guard = c.Or(o.guard, s.guard)
					merged = true
					break
				}
				if len(o.path) == 0 && len(s.path) == 0 && (o.kind == PNil && s.kind == PHeap) {
					n := s
					n.ref = c.Ite(o.guard, c.Int(0), s.ref)
					n.guard = c.Or(o.guard, s.guard)
					alts[i] = n
					merged = true
					break
				}
			}
			if !merged {
				alts = append(alts, s)
			}
		}
		var out []PtrAlt
		for _, s := range alts {
			if s.guard != c.False {
				out = append(out, s)
			}
		}
		if len(out) == 1 {
			out[0].guard = c.True
		}
		e := av.elem
		if e == nil {
			e = bv.elem
		}
		return VPtr{elem: e, alts: out}
	case VIface:
		bv := b.(VIface)
		if av.opaque != nil || bv.opaque != nil {
			return VIface{opaque: c.Ite(g, x.box(av), x.box(bv))}
		}
		var alts []IfaceAlt
		for _, s := range av.alts {
			s.guard = c.And(g, s.guard)
			alts = append(alts, s)
		}
		for _, s := range bv.alts {
			s.guard = c.And(c.Not(g), s.guard)
			if s.guard == c.False {
				continue
			}
			merged := false
			for i := range alts {
				o := &alts[i]
				if (o.typ == nil) == (s.typ == nil) && (o.typ == nil || types.Identical(o.typ, s.typ)) {
					if o.typ != nil {
						o.v = x.mergeVal(o.guard, o.v, s.v)
					}
					o.guard = c.Or(o.guard, s.guard)
					merged = true
					break
				}
			}
			if !merged {
				alts = append(alts, s)
			}
		}
		var out []IfaceAlt
		for _, s := range alts {
			if s.guard != c.False {
				out = append(out, s)
			}
		}
		if len(out) == 1 {
			out[0].guard = c.True
		}
		return VIface{alts: out}
	case VFunc:
		bv := b.(VFunc)
		if av.fn == bv.fn {
			r := VFunc{fn: av.fn}
			for i := range av.binds {
				r.binds = append(r.binds, x.mergeVal(g, av.binds[i], bv.binds[i]))
			}
			return r
		}
		unsup("merge of function values")
	case VChan:
		if av == b.(VChan) {
			return a
		}
		unsup("merge of channels")
	case VMap:
		if av == b.(VMap) {
			return a
		}
		unsup("merge of maps")
	}
	unsup("merge %T", a)
	return nil
}

func dropFalse(c *TC, a []SliceAlt) []SliceAlt {
	var out []SliceAlt
	for _, s := range a {
		if s.guard != c.False {
			out = append(out, s)
		}
	}
	return out
}

func eqPath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func samePtr(a, b PtrAlt) bool {
	return a.kind == b.kind && a.obj == b.obj && a.reg == b.reg && a.idx == b.idx && a.ref == b.ref && a.htyp == b.htyp && eqPath(a.path, b.path) && a.whole == b.whole
}

func (x *Exec) normKind(k *Term) *Term {
	if k == nil || (k.op == ONum && k.num.Sign() == 0) {
		return nil
	}
	return k
}

func sameVal(a, b Val) bool {
	switch av := a.(type) {
	case VT:
		bv, ok := b.(VT)
		return ok && av.t == bv.t
	case VF:
		bv, ok := b.(VF)
		return ok && av.v == bv.v && av.kind == bv.kind
	case VStruct:
		bv, ok := b.(VStruct)
		if !ok || len(av.fields) != len(bv.fields) {
			return false
		}
		for i := range av.fields {
			if !sameVal(av.fields[i], bv.fields[i]) {
				return false
			}
		}
		return true
	case VSlice:
		bv, ok := b.(VSlice)
		if !ok || len(av.alts) != len(bv.alts) {
			return false
		}
		for i := range av.alts {
			if av.alts[i] != bv.alts[i] {
				return false
			}
		}
		return true
	case VPtr:
		bv, ok := b.(VPtr)
		if !ok || len(av.alts) != len(bv.alts) {
			return false
		}
		for i := range av.alts {
			if av.alts[i].guard != bv.alts[i].guard || !samePtr(av.alts[i], bv.alts[i]) {
				return false
			}
		}
		return true
	case VIface:
		bv, ok := b.(VIface)
		if !ok || av.opaque != bv.opaque || len(av.alts) != len(bv.alts) {
			return false
		}
		for i := range av.alts {
			if av.alts[i].guard != bv.alts[i].guard || av.alts[i].typ != bv.alts[i].typ || av.alts[i].typ != nil && !sameVal(av.alts[i].v, bv.alts[i].v) {
				return false
			}
		}
		return true
	case VFunc:
		bv, ok := b.(VFunc)
		if !ok || av.fn != bv.fn || len(av.binds) != len(bv.binds) {
			return false
		}
		for i := range av.binds {
			if !sameVal(av.binds[i], bv.binds[i]) {
				return false
			}
		}
		return true
	case VChan:
		bv, ok := b.(VChan)
		return ok && av == bv
	case VMap:
		bv, ok := b.(VMap)
		return ok && av == bv
	case nil:
		return b == nil
	}
	return false
}

// merge joins states with disjoint path conditions.
func (x *Exec) merge(states []*State) *State {
	if len(states) == 1 {
		return states[0]
	}
	c := x.c
	// relative guards: drop conjuncts common to all
	common := map[*Term]int{}
	for _, s := range states {
		for _, t := range conj(s.pc) {
			common[t]++
		}
	}
	rel := make([]*Term, len(states))
	for i, s := range states {
		var r []*Term
		for _, t := range conj(s.pc) {
			if common[t] != len(states) {
				r = append(r, t)
			}
		}
		rel[i] = c.And(r...)
	}
	acc := states[len(states)-1].clone()
	pc := acc.pc
	for i := len(states) - 2; i >= 0; i-- {
		s := states[i]
		g := rel[i]
		for o, v := range s.objs {
			if w, ok := acc.objs[o]; ok {
				if !sameVal(v, w) {
					acc.objs[o] = x.mergeVal(g, v, w)
				}
			} else {
				acc.objs[o] = v
			}
		}
		for r, v := range s.regs {
			if w, ok := acc.regs[r]; ok {
				if v != w {
					n := &RegCont{}
					for j := range v.leaf {
						n.leaf = append(n.leaf, c.Ite(g, v.leaf[j], w.leaf[j]))
					}
					acc.regs[r] = n
				}
			} else {
				acc.regs[r] = v
			}
		}
		keys := map[string]*Sort{}
		for k, v := range s.heap {
			keys[k] = v.sort.elem
		}
		for k, v := range acc.heap {
			keys[k] = v.sort.elem
		}
		for k, so := range keys {
			a, b := x.heapArr(s, k, so), x.heapArr(acc, k, so)
			if a != b {
				acc.heap[k] = c.Ite(g, a, b)
			}
		}
		for k, v := range s.ghost {
			if w, ok := acc.ghost[k]; ok && !sameVal(v, w) {
				acc.ghost[k] = x.mergeVal(g, v, w)
			} else if !ok {
				acc.ghost[k] = v
			}
		}
		if s.alloc != acc.alloc {
			acc.alloc = c.Ite(g, s.alloc, acc.alloc)
		}
		pc = c.orFold(s.pc, pc)
	}
	acc.pc = pc
	return acc
}

func (c *TC) orFold(a, b *Term) *Term {
	if r := c.factorOr(a, b); r != nil {
		return r
	}
	return c.Or(a, b)
}
