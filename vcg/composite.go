package main

// Composite contracts. A client contract whose body is
//     return pkg.NewX(args...).Method(more...)
// is also used to summarise that pair of calls inside other functions: the object
// returned by the constructor is remembered with the constructor's arguments, and a
// call of Method on the still untouched object is replaced by the client's contract.
// Afterwards nothing is known about the object.

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type compArg struct {
	k     *ssa.Const // constant
	param int
}

type composite struct {
	ct           *Contract
	ctor, method *ssa.Function
	cargs, margs []compArg
}

type prov struct {
	ctor *ssa.Function
	args []Val
	self Val
	mark []interface{}
}

func (w *World) findComposites() {
	w.composites = map[*ssa.Function][]*composite{}
	w.ctors = map[*ssa.Function]bool{}
	for _, ct := range w.all {
		if !ct.client || ct.fact != nil || len(ct.target.Blocks) != 1 {
			continue
		}
		var calls []*ssa.Call
		var ret *ssa.Return
		ok := true
		for _, ins := range ct.target.Blocks[0].Instrs {
			switch i := ins.(type) {
			case *ssa.Call:
				calls = append(calls, i)
			case *ssa.Return:
				ret = i
			case *ssa.Extract, *ssa.DebugRef:
			default:
				ok = false
			}
		}
		if !ok || len(calls) != 2 || ret == nil {
			continue
		}
		ctor, method := calls[0].Call.StaticCallee(), calls[1].Call.StaticCallee()
		if ctor == nil || method == nil || method.Signature.Recv() == nil || len(calls[1].Call.Args) == 0 || calls[1].Call.Args[0] != ssa.Value(calls[0]) {
			continue
		}
		if len(ret.Results) == 1 {
			ok = ret.Results[0] == ssa.Value(calls[1])
		} else {
			for i, r := range ret.Results {
				e, is := r.(*ssa.Extract)
				ok = ok && is && e.Index == i && e.Tuple == ssa.Value(calls[1])
			}
		}
		if !ok {
			continue
		}
		cp := &composite{ct: ct, ctor: ctor, method: method}
		conv := func(vs []ssa.Value) (out []compArg) {
			for _, v := range vs {
				switch a := v.(type) {
				case *ssa.Const:
					out = append(out, compArg{k: a})
				case *ssa.Parameter:
					for i, p := range ct.target.Params {
						if p == a {
							out = append(out, compArg{param: i})
						}
					}
				default:
					ok = false
				}
			}
			return
		}
		cp.cargs = conv(calls[0].Call.Args)
		cp.margs = conv(calls[1].Call.Args[1:])
		seen := map[int]bool{}
		for _, a := range append(append([]compArg{}, cp.cargs...), cp.margs...) {
			if a.k == nil {
				seen[a.param] = true
			}
		}
		if !ok || len(seen) != len(ct.target.Params) {
			continue
		}
		w.composites[method] = append(w.composites[method], cp)
		w.ctors[ctor] = true
	}
}

// footprint lists everything reachable from v.
func (x *Exec) footprint(v Val, st *State, out []interface{}, seen map[interface{}]bool) []interface{} {
	switch a := v.(type) {
	case VStruct:
		for _, f := range a.fields {
			out = x.footprint(f, st, out, seen)
		}
	case VTuple:
		for _, f := range a.vals {
			out = x.footprint(f, st, out, seen)
		}
	case VSlice:
		for _, al := range a.alts {
			if al.reg == nil || seen[al.reg] {
				continue
			}
			seen[al.reg] = true
			rc := st.regs[al.reg]
			if rc == nil {
				return append(out, new(int))
			}
			for _, l := range rc.leaf {
				out = append(out, l)
			}
		}
	case VPtr:
		for _, al := range a.alts {
			switch al.kind {
			case PObj:
				if seen[al.obj] {
					continue
				}
				seen[al.obj] = true
				o, ok := st.objs[al.obj]
				if !ok {
					return append(out, new(int))
				}
				out = append(out, o)
				out = x.footprint(o, st, out, seen)
			case PElem:
				return append(out, new(int))
			case PHeap:
			}
		}
	case VIface:
		for _, al := range a.alts {
			out = x.footprint(al.v, st, out, seen)
		}
	case VFunc:
		for _, b := range a.binds {
			out = x.footprint(b, st, out, seen)
		}
	}
	return out
}

func (x *Exec) mark(p *prov, st *State) []interface{} {
	seen := map[interface{}]bool{}
	var out []interface{}
	out = x.footprint(p.self, st, out, seen)
	for _, a := range p.args {
		out = x.footprint(a, st, out, seen)
	}
	for _, k := range sortedKeys(st.heap) {
		out = append(out, k, st.heap[k])
	}
	return out
}

func sameMark(a, b []interface{}) bool {
	// heap arrays read for the first time since the first mark are unchanged ones
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if ka, ok := a[i].(string); ok {
			kb, ok := b[j].(string)
			if !ok {
				return false
			}
			if kb != ka {
				j += 2
				continue
			}
			if a[i+1] != b[j+1] {
				return false
			}
			i, j = i+2, j+2
			continue
		}
		if _, ok := b[j].(string); ok {
			return false
		}
		if ta, ok := a[i].(*Term); ok {
			if tb, ok := b[j].(*Term); !ok || ta != tb {
				return false
			}
		} else if va, ok := a[i].(Val); !ok || !sameVal(va, b[j]) {
			return false
		}
		i, j = i+1, j+1
	}
	return i == len(a)
}

// born remembers an object returned by a constructor.
func (x *Exec) born(ctor *ssa.Function, args []Val, res Val, st *State) {
	p, ok := res.(VPtr)
	if !ok || len(p.alts) != 1 || p.alts[0].kind != PObj || len(p.alts[0].path) != 0 {
		return
	}
	o := p.alts[0].obj
	pr := &prov{ctor: ctor, args: append([]Val(nil), args...), self: res}
	pr.mark = x.mark(pr, st)
	if x.prov == nil {
		x.prov = map[*Object][]*prov{}
	}
	x.prov[o] = append(x.prov[o], pr)
}

// tryComposite applies a composite contract to a method call.
func (x *Exec) tryComposite(fn *ssa.Function, args []Val, st *State) (Val, *State, bool) {
	cps := x.w.composites[fn]
	if len(cps) == 0 || len(args) == 0 {
		return nil, nil, false
	}
	p, ok := args[0].(VPtr)
	if !ok || len(p.alts) != 1 || p.alts[0].kind != PObj || len(p.alts[0].path) != 0 {
		return nil, nil, false
	}
	o := p.alts[0].obj
	for _, cp := range cps {
		if _, no := cp.ct.flags["nosummary"]; no || cp.ct == x.task.contract {
			continue
		}
		for _, pr := range x.prov[o] {
			if pr.ctor != cp.ctor || !sameMark(pr.mark, x.mark(pr, st)) {
				continue
			}
			vals := make([]Val, len(cp.ct.target.Params))
			match := true
			use := func(as []compArg, vs []Val) {
				for i, a := range as {
					if i >= len(vs) {
						match = false
						return
					}
					if a.k != nil {
						match = match && x.isConst(vs[i], a.k)
						continue
					}
					if vals[a.param] != nil && !sameVal(vals[a.param], vs[i]) {
						match = false
					}
					vals[a.param] = vs[i]
				}
			}
			use(cp.cargs, pr.args)
			use(cp.margs, args[1:])
			if !match {
				continue
			}
			res, ns := x.applyContract(cp.ct, cp.ct.target, vals, st)
			ns.objs[o] = x.fresh(o.typ, "used."+o.name, ns)
			return res, ns, true
		}
	}
	return nil, nil, false
}

func (x *Exec) isConst(v Val, k *ssa.Const) bool {
	if k.Value == nil || k.Value.Kind() == constant.Unknown {
		return false
	}
	if _, ok := k.Type().Underlying().(*types.Basic); !ok {
		return false
	}
	return sameVal(v, x.constVal(k))
}

func isFact(name string) bool { return len(name) > 5 && (name[:5] == "fact_" || name[:5] == "Fact_") }
