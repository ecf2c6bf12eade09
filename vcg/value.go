package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values.
type Val interface{}

type VT struct{ t *Term } // ints, bools, strings, time.Time (ns), opaque

type VF struct { // float64: value and special kind (nil = finite)
	v, kind *Term
}

type VStruct struct {
	typ    types.Type
	fields []Val
}
type VTuple struct{ vals []Val }

type SliceAlt struct {
	guard         *Term
	reg           *Region // nil = nil slice
	off, ln, capa *Term
}
type VSlice struct {
	elem types.Type
	alts []SliceAlt
	lb   int   // specification views of one leaf of a slice of structs: leaf index
	path []int // and path of that leaf
}

type PKind int

const (
	PNil PKind = iota
	PObj
	PElem
	PHeap
)

type PtrAlt struct {
	guard *Term
	kind  PKind
	obj   *Object
	reg   *Region
	idx   *Term // element index within region
	ref   *Term // heap ref
	htyp  *types.Named
	path  []int
	whole bool // pointer to a whole array backing (reg, off=idx)
	n     *Term
}
type VPtr struct {
	elem types.Type
	alts []PtrAlt
}

type VFunc struct {
	fn    *ssa.Function
	binds []Val
	recv  Val
}

type IfaceAlt struct {
	guard *Term
	typ   types.Type // nil = nil interface
	v     Val
}
type VIface struct {
	alts   []IfaceAlt
	opaque *Term // SVal: unknown dynamic value when non-nil
}

type VMap struct{ id *MapObj }

type MapObj struct{ name string }

type VChan struct {
	ch *Chan
}

type Object struct {
	name string
	typ  types.Type
	id   int
}

type Region struct {
	name  string
	elem  types.Type
	id    int
	links []*Region // regions that may share memory
	input bool
	fullLen *Term
}

type RegCont struct {
	leaf []*Term // one array per leaf of the element type
}

type Leaf struct {
	path []int
	sort *Sort
	typ  types.Type
}

var leafCache = map[string][]Leaf{}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func scalarSort(t types.Type) *Sort {
	if isTime(t) {
		return SInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		}
	case *types.Pointer:
		return SInt
	case *types.Interface, *types.TypeParam:
		return SVal
	}
	return nil
}

// leaves enumerates the scalar leaves of a type.
func leaves(t types.Type) []Leaf {
	key := types.TypeString(t, nil)
	leafMu.Lock()
	defer leafMu.Unlock()
	if l, ok := leafCache[key]; ok {
		return l
	}
	var out []Leaf
	var rec func(t types.Type, path []int)
	rec = func(t types.Type, path []int) {
		if isTime(t) {
			out = append(out, Leaf{append([]int(nil), path...), SInt, t})
			return
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				rec(st.Field(i).Type(), append(append([]int(nil), path...), i))
			}
			return
		}
		s := scalarSort(t)
		if s == nil {
			unsup("element type with leaf %s", t)
		}
		out = append(out, Leaf{append([]int(nil), path...), s, t})
	}
	rec(t, nil)
	leafCache[key] = out
	return out
}

func pathPrefix(p, q []int) bool { // p is a prefix of q
	if len(p) > len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

func typeAt(t types.Type, path []int) types.Type {
	for _, i := range path {
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

func namedStruct(t types.Type) *types.Named {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

func typName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return s
}

func valString(v Val) string {
	switch x := v.(type) {
	case VT:
		return x.t.String()
	case VF:
		if x.kind != nil {
			return x.v.String() + "?" + x.kind.String()
		}
		return x.v.String()
	case VStruct:
		var s []string
		for _, f := range x.fields {
			s = append(s, valString(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case VSlice:
		s := "slice["
		for _, a := range x.alts {
			rn := "nil"
			if a.reg != nil {
				rn = a.reg.name
			}
			s += fmt.Sprintf("(%s=>%s off=%s len=%s)", a.guard, rn, a.off, a.ln)
		}
		return s + "]"
	case VPtr:
		s := "ptr["
		for _, a := range x.alts {
			switch a.kind {
			case PNil:
				s += "nil "
			case PObj:
				s += a.obj.name + fmt.Sprint(a.path)
			case PElem:
				s += a.reg.name + "@" + a.idx.String()
			case PHeap:
				s += "heap@" + a.ref.String()
			}
		}
		return s + "]"
	}
	return fmt.Sprintf("%T", v)
}
