// Package main: vcg - a deductive verifier for the Go code of stockindicator.
//
// term.go: hash-consed first-order terms with arithmetic normal forms.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort struct {
	name string
	elem *Sort // for arrays Int -> elem
}

var (
	SInt  = &Sort{name: "Int"}
	SReal = &Sort{name: "Real"}
	SBool = &Sort{name: "Bool"}
	SStr  = &Sort{name: "Str"}
	SVal  = &Sort{name: "Val"} // opaque values (generic T, interface boxes)
)

var arrSorts = map[*Sort]*Sort{}

func init() {
	for _, s := range []*Sort{SInt, SReal, SBool, SStr, SVal} {
		arrSorts[s] = &Sort{name: "(Array Int " + s.name + ")", elem: s}
	}
	for _, s := range []*Sort{SInt, SReal, SBool, SStr, SVal} {
		a := arrSorts[s]
		arrSorts[a] = &Sort{name: "(Array Int " + a.name + ")", elem: a}
	}
}

func SArr(e *Sort) *Sort { return arrSorts[e] }
func (s *Sort) isNum() bool {
	return s == SInt || s == SReal
}

type Op uint8

const (
	OVar Op = iota
	ONum
	OTrue
	OFalse
	OPoly
	OIte
	OEq
	OLe // args[0] <= 0 (poly)
	OLt // args[0] < 0 (poly)
	ONot
	OAnd
	OOr
	OSelect
	OStore
	OConstArr
	OApp
	OInv
	OIDiv // floor div args[0] div args[1]
	OMod
	OToReal
	OForall
	OLambda
)

type mono struct {
	coef  *big.Rat
	atoms []*Term // sorted by id, may repeat
}

type Term struct {
	op    Op
	sort  *Sort
	args  []*Term
	name  string
	num   *big.Rat
	poly  []mono
	bound []*Term // for OForall / OLambda
	id    int
	hasBV bool    // a bound variable occurs free
	fbv   []*Term // the bound variables that occur free
	isBV  bool
	size  int
	def   *FnDef // for OApp with definition
}

type TC struct {
	tab   map[string]*Term
	next  int
	fresh map[string]int
	// substitution memo etc. are local
	True, False *Term
	defs        map[string]*FnDef
	betaDepth   int
}

func NewTC() *TC {
	c := &TC{tab: map[string]*Term{}, fresh: map[string]int{}, defs: map[string]*FnDef{}}
	c.True = c.mk(&Term{op: OTrue, sort: SBool})
	c.False = c.mk(&Term{op: OFalse, sort: SBool})
	return c
}

func (c *TC) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(t.sort.name)
	b.WriteByte('|')
	b.WriteString(t.name)
	for _, a := range t.bound {
		b.WriteByte('!')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.num != nil {
		b.WriteByte('#')
		b.WriteString(t.num.RatString())
	}
	for _, m := range t.poly {
		b.WriteByte('+')
		b.WriteString(m.coef.RatString())
		for _, a := range m.atoms {
			b.WriteByte('*')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.next++
	t.id = c.next
	t.size = 1
	if t.isBV {
		t.fbv = []*Term{t}
	}
	for _, a := range t.args {
		t.fbv = mergeSet(t.fbv, a.fbv)
		t.size += a.size
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			t.fbv = mergeSet(t.fbv, a.fbv)
			t.size += a.size
		}
	}
	for _, k := range t.bound {
		var o []*Term
		for _, v := range t.fbv {
			if v != k {
				o = append(o, v)
			}
		}
		t.fbv = o
	}
	t.hasBV = len(t.fbv) > 0
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	c.tab[k] = t
	return t
}

// mergeSet unites two small sets (the arguments are not modified).
func mergeSet(a, b []*Term) []*Term {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	out := a
	for _, x := range b {
		in := false
		for _, y := range out {
			if x == y {
				in = true
				break
			}
		}
		if !in {
			out = append(out[:len(out):len(out)], x)
		}
	}
	return out
}

func (c *TC) Var(name string, s *Sort) *Term {
	return c.mk(&Term{op: OVar, name: name, sort: s})
}

func (c *TC) Fresh(prefix string, s *Sort) *Term {
	prefix = sanitize(prefix)
	c.fresh[prefix]++
	return c.Var(prefix+"!"+strconv.Itoa(c.fresh[prefix]), s)
}
func (c *TC) FreshBV(prefix string, s *Sort) *Term {
	c.fresh["?"+prefix]++
	return c.mk(&Term{op: OVar, name: "?" + prefix + strconv.Itoa(c.fresh["?"+prefix]), sort: s, isBV: true})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *TC) Num(r *big.Rat, s *Sort) *Term {
	return c.mk(&Term{op: ONum, sort: s, num: r})
}
func (c *TC) Int(n int64) *Term  { return c.Num(big.NewRat(n, 1), SInt) }
func (c *TC) Real(n int64) *Term { return c.Num(big.NewRat(n, 1), SReal) }
func (c *TC) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// ---- polynomials

func (c *TC) polyOf(t *Term) []mono {
	switch t.op {
	case ONum:
		if t.num.Sign() == 0 {
			return nil
		}
		return []mono{{coef: t.num}}
	case OPoly:
		return t.poly
	}
	return []mono{{coef: one, atoms: []*Term{t}}}
}

var one = big.NewRat(1, 1)
var minusOne = big.NewRat(-1, 1)

func cmpAtoms(a, b []*Term) int {
	if len(a) != len(b) {
		if len(a) < len(b) {
			return -1
		}
		return 1
	}
	for i := range a {
		if a[i].id != b[i].id {
			if a[i].id < b[i].id {
				return -1
			}
			return 1
		}
	}
	return 0
}

func (c *TC) fromPoly(p []mono, s *Sort) *Term {
	if len(p) == 0 {
		return c.Num(new(big.Rat), s)
	}
	if len(p) == 1 {
		if len(p[0].atoms) == 0 {
			return c.Num(p[0].coef, s)
		}
		if len(p[0].atoms) == 1 && p[0].coef.Cmp(one) == 0 {
			return p[0].atoms[0]
		}
	}
	return c.mk(&Term{op: OPoly, sort: s, poly: p})
}

func addPoly(a, b []mono, k *big.Rat) []mono { // a + k*b
	out := make([]mono, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		var d int
		if i >= len(a) {
			d = 1
		} else if j >= len(b) {
			d = -1
		} else {
			d = cmpAtoms(a[i].atoms, b[j].atoms)
		}
		if d < 0 {
			out = append(out, a[i])
			i++
		} else if d > 0 {
			co := new(big.Rat).Mul(b[j].coef, k)
			if co.Sign() != 0 {
				out = append(out, mono{co, b[j].atoms})
			}
			j++
		} else {
			co := new(big.Rat).Mul(b[j].coef, k)
			co.Add(co, a[i].coef)
			if co.Sign() != 0 {
				out = append(out, mono{co, a[i].atoms})
			}
			i++
			j++
		}
	}
	return out
}

func (c *TC) Add(a, b *Term) *Term {
	checkNum(a, b)
	return c.fromPoly(addPoly(c.polyOf(a), c.polyOf(b), one), a.sort)
}
func checkNum(a, b *Term) {
	if a.sort != b.sort || !a.sort.isNum() {
		panic(fmt.Sprintf("sort mismatch %s:%s %s:%s", a, a.sort.name, b, b.sort.name))
	}
}
func (c *TC) Sub(a, b *Term) *Term {
	checkNum(a, b)
	return c.fromPoly(addPoly(c.polyOf(a), c.polyOf(b), minusOne), a.sort)
}
func (c *TC) Neg(a *Term) *Term { return c.Scale(a, minusOne) }
func (c *TC) Scale(a *Term, k *big.Rat) *Term {
	return c.fromPoly(addPoly(nil, c.polyOf(a), k), a.sort)
}
func (c *TC) AddN(a *Term, n int64) *Term {
	return c.Add(a, c.Num(big.NewRat(n, 1), a.sort))
}

func mergeAtoms(a, b []*Term) []*Term {
	out := make([]*Term, 0, len(a)+len(b))
	out = append(out, a...)
	out = append(out, b...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (c *TC) Mul(a, b *Term) *Term {
	checkNum(a, b)
	if a.op == ONum {
		return c.Scale(b, a.num)
	}
	if b.op == ONum {
		return c.Scale(a, b.num)
	}
	pa, pb := c.polyOf(a), c.polyOf(b)
	if len(pa)*len(pb) > 400 {
		ms := []mono{{one, mergeAtoms([]*Term{a}, []*Term{b})}}
		return c.fromPoly(ms, a.sort)
	}
	acc := map[string]int{}
	var out []mono
	for _, x := range pa {
		for _, y := range pb {
			at := c.normAtoms(mergeAtoms(x.atoms, y.atoms))
			co := new(big.Rat).Mul(x.coef, y.coef)
			key := atomKey(at)
			if i, ok := acc[key]; ok {
				out[i].coef = new(big.Rat).Add(out[i].coef, co)
			} else {
				acc[key] = len(out)
				out = append(out, mono{co, at})
			}
		}
	}
	res := out[:0]
	for _, m := range out {
		if m.coef.Sign() != 0 {
			res = append(res, m)
		}
	}
	sort.SliceStable(res, func(i, j int) bool { return cmpAtoms(res[i].atoms, res[j].atoms) < 0 })
	return c.fromPoly(append([]mono(nil), res...), a.sort)
}

// normAtoms flattens atoms (0/1 ite products are left alone).
func (c *TC) normAtoms(a []*Term) []*Term { return a }

func atomKey(a []*Term) string {
	var b strings.Builder
	for _, t := range a {
		b.WriteString(strconv.Itoa(t.id))
		b.WriteByte('*')
	}
	return b.String()
}

// Div is the real division a/b; meaningful only when b != 0.
func (c *TC) Div(a, b *Term) *Term {
	checkNum(a, b)
	if b.op == ONum {
		if b.num.Sign() == 0 {
			return c.Mul(a, c.mk(&Term{op: OInv, sort: SReal, args: []*Term{b}}))
		}
		return c.Scale(a, new(big.Rat).Inv(b.num))
	}
	return c.Mul(a, c.Inv(b))
}

func (c *TC) Inv(b *Term) *Term {
	p := c.polyOf(b)
	lead := p[0].coef
	for _, m := range p {
		if len(m.atoms) > 0 {
			lead = m.coef
			break
		}
	}
	if len(p) == 1 {
		// inverse of a monomial: product of inverses
		r := c.Num(new(big.Rat).Inv(lead), SReal)
		for _, a := range p[0].atoms {
			if a.op == OInv {
				r = c.Mul(r, a.args[0]) // inv(inv(x)) = x when x != 0; inv(0) arbitrary
				continue
			}
			r = c.Mul(r, c.mk(&Term{op: OInv, sort: SReal, args: []*Term{a}}))
		}
		return r
	}
	nb := c.Scale(b, new(big.Rat).Inv(lead))
	return c.Scale(c.mk(&Term{op: OInv, sort: SReal, args: []*Term{nb}}), new(big.Rat).Inv(lead))
}

func (c *TC) ToReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	switch a.op {
	case ONum:
		return c.Num(a.num, SReal)
	case OPoly:
		r := c.Real(0)
		for _, m := range a.poly {
			t := c.Num(m.coef, SReal)
			for _, at := range m.atoms {
				t = c.Mul(t, c.ToReal(at))
			}
			r = c.Add(r, t)
		}
		return r
	case OIte:
		return c.Ite(a.args[0], c.ToReal(a.args[1]), c.ToReal(a.args[2]))
	}
	return c.mk(&Term{op: OToReal, sort: SReal, args: []*Term{a}})
}

// floor division and modulus (divisor assumed positive by users)
func (c *TC) IDiv(a, b *Term) *Term {
	if a.op == ONum && b.op == ONum && b.num.Sign() > 0 {
		q := new(big.Int).Div(a.num.Num(), b.num.Num())
		return c.Num(new(big.Rat).SetInt(q), SInt)
	}
	if b.op == ONum && b.num.Cmp(one) == 0 {
		return a
	}
	return c.mk(&Term{op: OIDiv, sort: SInt, args: []*Term{a, b}})
}
func (c *TC) Mod(a, b *Term) *Term {
	if a.op == ONum && b.op == ONum && b.num.Sign() > 0 {
		q := new(big.Int).Mod(a.num.Num(), b.num.Num())
		return c.Num(new(big.Rat).SetInt(q), SInt)
	}
	return c.mk(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

// ---- booleans

func (c *TC) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.args[0]
	case OLe: // not (p <= 0) : -p < 0
		return c.lt0(c.Neg(a.args[0]))
	case OLt:
		return c.le0(c.Neg(a.args[0]))
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (c *TC) le0(p *Term) *Term {
	if p.op == ONum {
		return c.Bool(p.num.Sign() <= 0)
	}
	p = c.normIneq(p)
	if p.op == OVar || p.op != OPoly {
		// keep as is
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{p}})
}
func (c *TC) lt0(p *Term) *Term {
	if p.op == ONum {
		return c.Bool(p.num.Sign() < 0)
	}
	if p.sort == SInt {
		return c.le0(c.AddN(c.normIneq(p), 1))
	}
	p = c.normIneq(p)
	return c.mk(&Term{op: OLt, sort: SBool, args: []*Term{p}})
}

// normIneq scales by a positive constant: for Int coefficients become coprime
// integers (the constant is rounded for <=), for Real the lead coef becomes +-1.
func (c *TC) normIneq(p *Term) *Term {
	if p.op != OPoly {
		return p
	}
	if p.sort == SReal {
		// find first non-constant monomial
		for _, m := range p.poly {
			if len(m.atoms) > 0 {
				k := new(big.Rat).Abs(m.coef)
				if k.Cmp(one) == 0 {
					return p
				}
				return c.Scale(p, k.Inv(k))
			}
		}
		return p
	}
	g := new(big.Int)
	for _, m := range p.poly {
		if len(m.atoms) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.coef.Num()))
		}
	}
	if g.Sign() == 0 || g.Cmp(big.NewInt(1)) == 0 {
		return p
	}
	// p = g*q + k <= 0  <=>  q <= floor(-k/g) <=> q - floor(-k/g) <= 0
	var k = new(big.Int)
	var ms []mono
	for _, m := range p.poly {
		if len(m.atoms) == 0 {
			k = m.coef.Num()
		} else {
			ms = append(ms, mono{new(big.Rat).SetFrac(m.coef.Num(), g), m.atoms})
		}
	}
	f := new(big.Int).Div(new(big.Int).Neg(k), g) // Euclidean == floor for g>0
	q := c.fromPoly(ms, SInt)
	return c.Sub(q, c.Num(new(big.Rat).SetInt(f), SInt))
}

func (c *TC) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *TC) Lt(a, b *Term) *Term { return c.lt0(c.Sub(a, b)) }
func (c *TC) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *TC) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *TC) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s:%s vs %s:%s", a, a.sort.name, b, b.sort.name))
	}
	if a.sort.isNum() {
		d := c.Sub(a, b)
		if d.op == ONum {
			return c.Bool(d.num.Sign() == 0)
		}
		// distribute over ite with constant branches: (ite c k1 k2) = k
		if a.op == OIte && b.op == ONum {
			if r := c.eqIteConst(a, b); r != nil {
				return r
			}
		}
		if b.op == OIte && a.op == ONum {
			if r := c.eqIteConst(b, a); r != nil {
				return r
			}
		}
		p := c.polyOf(d)
		// sign normal form
		var lead *big.Rat
		for _, m := range p {
			if len(m.atoms) > 0 {
				lead = m.coef
				break
			}
		}
		d = c.Scale(d, new(big.Rat).Inv(lead))
		if d.sort == SInt {
			// make integral again
			l := big.NewInt(1)
			for _, m := range c.polyOf(d) {
				g := new(big.Int).GCD(nil, nil, l, m.coef.Denom())
				l.Mul(l, new(big.Int).Div(m.coef.Denom(), g))
			}
			d = c.Scale(d, new(big.Rat).SetInt(l))
		}
		return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{d}})
	}
	if a.sort == SBool {
		if a.op == OTrue {
			return b
		}
		if b.op == OTrue {
			return a
		}
		if a.op == OFalse {
			return c.Not(b)
		}
		if b.op == OFalse {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	}
	if a.sort == SStr && a.op == OApp && b.op == OApp && len(a.args) == 0 && len(b.args) == 0 {
		return c.False // distinct string literals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func (c *TC) eqIteConst(a, b *Term) *Term {
	x, y := a.args[1], a.args[2]
	if (x.op == ONum || x.op == OIte) && (y.op == ONum || y.op == OIte) {
		return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
	}
	return nil
}

func (c *TC) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	if r, ch := c.propagate(out, seen, OOr); ch {
		return c.And(r...)
	}
	return c.mk(&Term{op: OAnd, sort: SBool, args: out})
}

// propagate simplifies the operands of kind op (OOr inside a conjunction, OAnd inside a
// disjunction) with the other operands.
func (c *TC) propagate(out []*Term, seen map[*Term]bool, op Op) ([]*Term, bool) {
	truth := func(t *Term) int {
		s, n := seen[t], seen[c.Not(t)]
		switch {
		case s && op == OOr || n && op == OAnd:
			return 1
		case s || n:
			return -1
		}
		return 0
	}
	var reduce func(t *Term, top bool, depth int) *Term
	reduce = func(t *Term, top bool, depth int) *Term {
		if !top {
			switch truth(t) {
			case 1:
				return c.True
			case -1:
				return c.False
			}
		}
		if depth == 0 {
			return t
		}
		switch t.op {
		case OAnd, OOr:
			var as []*Term
			ch := false
			for _, a := range t.args {
				r := reduce(a, false, depth-1)
				ch = ch || r != a
				as = append(as, r)
			}
			if !ch {
				return t
			}
			if t.op == OAnd {
				return c.And(as...)
			}
			return c.Or(as...)
		case ONot:
			if a := t.args[0]; a.op == OAnd || a.op == OOr {
				if r := reduce(a, top, depth); r != a {
					return c.Not(r)
				}
			}
		}
		return t
	}
	changed := false
	res := make([]*Term, 0, len(out))
	for _, t := range out {
		if t.op == op || t.op == ONot {
			if r := reduce(t, true, 3); r != t {
				changed = true
				t = r
			}
		}
		res = append(res, t)
	}
	return res, changed
}

func (c *TC) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OFalse:
			return true
		case OTrue:
			return false
		case OOr:
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts: (p and q) or (p and not q) -> p
	if len(out) == 2 {
		if r := c.factorOr(out[0], out[1]); r != nil {
			return r
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
	if r, ch := c.propagate(out, seen, OAnd); ch {
		return c.Or(r...)
	}
	return c.mk(&Term{op: OOr, sort: SBool, args: out})
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (c *TC) factorOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	inB := map[*Term]bool{}
	for _, t := range cb {
		inB[t] = true
	}
	var common, ra, rb []*Term
	inA := map[*Term]bool{}
	for _, t := range ca {
		inA[t] = true
		if inB[t] {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range cb {
		if !inA[t] {
			rb = append(rb, t)
		}
	}
	if len(common) == 0 {
		// (not p) or (p and q) -> not p or q
		if len(ca) == 1 && len(cb) > 1 && inB[c.Not(ca[0])] {
			var rest []*Term
			for _, t := range cb {
				if t != c.Not(ca[0]) {
					rest = append(rest, t)
				}
			}
			return c.Or(a, c.And(rest...))
		}
		if len(cb) == 1 && len(ca) > 1 && inA[c.Not(cb[0])] {
			var rest []*Term
			for _, t := range ca {
				if t != c.Not(cb[0]) {
					rest = append(rest, t)
				}
			}
			return c.Or(b, c.And(rest...))
		}
		return nil
	}
	return c.And(c.And(common...), c.Or(c.And(ra...), c.And(rb...)))
}

func (c *TC) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TC) Ite(cond, a, b *Term) *Term {
	if cond.op == OTrue {
		return a
	}
	if cond.op == OFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s: %s / %s", a.sort.name, b.sort.name, a, b))
	}
	if a.sort == SBool {
		return c.And(c.Imp(cond, a), c.Or(cond, b))
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	// canonical orientation for inequalities: keep the smaller id of cond / not cond
	if n := c.Not(cond); n.op != ONot && n.id < cond.id {
		return c.Ite(n, b, a)
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// pull out common inner: ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
	if b.op == OIte && b.args[1] == a {
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	if a.op == OStore || b.op == OStore {
		// ite(c, store(a,i,v), a) = store(a,i, ite(c,v,a[i]))
		if a.op == OStore && a.args[0] == b {
			return c.Store(b, a.args[1], c.Ite(cond, a.args[2], c.Select(b, a.args[1])))
		}
		if b.op == OStore && b.args[0] == a {
			return c.Store(a, b.args[1], c.Ite(cond, c.Select(a, b.args[1]), b.args[2]))
		}
		if a.op == OStore && b.op == OStore && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
			return c.Store(a.args[0], a.args[1], c.Ite(cond, a.args[2], b.args[2]))
		}
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{cond, a, b}})
}

// ---- arrays

func (c *TC) ConstArr(v *Term) *Term {
	return c.mk(&Term{op: OConstArr, sort: SArr(v.sort), args: []*Term{v}})
}

func (c *TC) Store(a, i, v *Term) *Term {
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == OStore && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if a.sort.elem != v.sort {
		panic("store sort mismatch " + a.sort.name + " " + v.sort.name + " " + v.String())
	}
	return c.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

func (c *TC) Select(a, i *Term) *Term {
	switch a.op {
	case OStore:
		e := c.Eq(a.args[1], i)
		if e == c.True {
			return a.args[2]
		}
		if e == c.False {
			return c.Select(a.args[0], i)
		}
		return c.Ite(e, a.args[2], c.Select(a.args[0], i))
	case OConstArr:
		return a.args[0]
	case OIte:
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	case OLambda:
		return c.Subst(a.args[0], map[*Term]*Term{a.bound[0]: i})
	case OApp:
		if a.def != nil && a.def.seqBody != nil && !a.def.opaque {
			return c.Select(c.instSeq(a), i)
		}
	}
	if a.sort.elem == nil {
		panic("select from non-array " + a.String() + " " + a.sort.name)
	}
	return c.mk(&Term{op: OSelect, sort: a.sort.elem, args: []*Term{a, i}})
}

func (c *TC) Lambda(k *Term, body *Term) *Term {
	// eta
	if body.op == OSelect && body.args[1] == k && !occurs(body.args[0], k) {
		return body.args[0]
	}
	if !occurs(body, k) {
		return c.ConstArr(body)
	}
	k, body = c.canonBind(k, body)
	return c.mk(&Term{op: OLambda, sort: SArr(body.sort), bound: []*Term{k}, args: []*Term{body}})
}

// canonBind renames the bound variable of a closed binder to a canonical name, so that
// alpha-equivalent closed binders are the same term.
func (c *TC) canonBind(k, body *Term) (*Term, *Term) {
	depth := 1
	closed := true
	seen := map[*Term]bool{}
	bound := map[*Term]bool{k: true}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.hasBV || seen[t] || !closed {
			return
		}
		seen[t] = true
		if t.op == OVar {
			if !bound[t] {
				closed = false
			}
			return
		}
		if t.op == OLambda || t.op == OForall {
			bound[t.bound[0]] = true
			depth++
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				rec(a)
			}
		}
	}
	rec(body)
	if !closed {
		return k, body
	}
	n := "?c" + strconv.Itoa(depth) + k.sort.name
	if k.name == n {
		return k, body
	}
	nk := c.mk(&Term{op: OVar, name: n, sort: k.sort, isBV: true})
	if bound[nk] {
		return k, body
	}
	return nk, c.Subst(body, map[*Term]*Term{k: nk})
}

func (c *TC) Forall(k *Term, body *Term) *Term {
	if body.op == OTrue || body.op == OFalse {
		return body
	}
	if !occurs(body, k) {
		return body
	}
	if body.op == OAnd {
		var out []*Term
		for _, a := range body.args {
			out = append(out, c.Forall(k, a))
		}
		return c.And(out...)
	}
	k, body = c.canonBind(k, body)
	if body.op == OTrue || body.op == OFalse {
		return body
	}
	return c.mk(&Term{op: OForall, sort: SBool, bound: []*Term{k}, args: []*Term{body}})
}

func occurs(t, v *Term) bool {
	if !t.hasBV && v.isBV {
		return false
	}
	if v.isBV {
		return hasFree(t, v)
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if v.isBV && !t.hasBV {
			return false
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// App builds an application of an uninterpreted or defined function.
func (c *TC) App(name string, s *Sort, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, name: name, sort: s, args: args, def: c.defs[name]})
}

// FnDef is the definition of a spec function: either a recursive scalar
// function (body in terms of params) or a sequence (array) function.
type FnDef struct {
	name     string
	params   []*Term
	res      *Sort
	body     *Term // scalar body (for unfolding) or nil
	opaque   bool  // selections are unfolded by the prover only
	seqBody  *Term // array-valued body (usually OLambda)
	arrLens  map[int]*Term // param index of an array -> length term over params (for congruence)
	recursive bool
	facts     []*Term // lemmas over params
	unfoldMemo map[*Term]*Term
}

func (c *TC) instSeq(a *Term) *Term {
	d := a.def
	if d.unfoldMemo == nil {
		d.unfoldMemo = map[*Term]*Term{}
	}
	if r, ok := d.unfoldMemo[a]; ok {
		return r
	}
	m := map[*Term]*Term{}
	for i, p := range d.params {
		m[p] = a.args[i]
	}
	r := c.Subst(d.seqBody, m)
	d.unfoldMemo[a] = r
	return r
}

func (c *TC) unfold(a *Term) *Term {
	d := a.def
	if d == nil || d.body == nil {
		return nil
	}
	if d.unfoldMemo == nil {
		d.unfoldMemo = map[*Term]*Term{}
	}
	if r, ok := d.unfoldMemo[a]; ok {
		return r
	}
	m := map[*Term]*Term{}
	for i, p := range d.params {
		m[p] = a.args[i]
	}
	r := c.Subst(d.body, m)
	d.unfoldMemo[a] = r
	return r
}

// Subst replaces variables; bound variables inside are freshened.
func (c *TC) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	if len(m) == 1 {
		for k := range m {
			if k.isBV && !hasFree(t, k) {
				return t
			}
		}
	}
	return c.subst(t, m, memo)
}

func hasFree(t, k *Term) bool {
	for _, v := range t.fbv {
		if v == k {
			return true
		}
	}
	return false
}

func (c *TC) subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if t.op == OVar || t.op == ONum || t.op == OTrue || t.op == OFalse {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := c.rebuild(t, func(x *Term) *Term { return c.subst(x, m, memo) }, m)
	memo[t] = r
	return r
}

func (c *TC) rebuild(t *Term, f func(*Term) *Term, m map[*Term]*Term) *Term {
	switch t.op {
	case OPoly:
		r := c.Num(new(big.Rat), t.sort)
		for _, mo := range t.poly {
			x := c.Num(mo.coef, t.sort)
			for _, a := range mo.atoms {
				x = c.Mul(x, f(a))
			}
			r = c.Add(r, x)
		}
		return r
	case OIte:
		cd := f(t.args[0])
		if cd == c.True {
			return f(t.args[1])
		}
		if cd == c.False {
			return f(t.args[2])
		}
		return c.Ite(cd, f(t.args[1]), f(t.args[2]))
	case OEq:
		if len(t.args) == 1 {
			x := f(t.args[0])
			return c.Eq(x, c.Num(new(big.Rat), x.sort))
		}
		return c.Eq(f(t.args[0]), f(t.args[1]))
	case OLe:
		return c.le0(f(t.args[0]))
	case OLt:
		return c.lt0(f(t.args[0]))
	case ONot:
		return c.Not(f(t.args[0]))
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
		}
		if t.op == OAnd {
			return c.And(as...)
		}
		return c.Or(as...)
	case OSelect:
		return c.Select(f(t.args[0]), f(t.args[1]))
	case OStore:
		return c.Store(f(t.args[0]), f(t.args[1]), f(t.args[2]))
	case OConstArr:
		return c.ConstArr(f(t.args[0]))
	case OApp:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
		}
		return c.appSimp(t, as)
	case OInv:
		x := f(t.args[0])
		if x.op == ONum && x.num.Sign() != 0 {
			return c.Num(new(big.Rat).Inv(x.num), SReal)
		}
		if x.op == ONum {
			return c.mk(&Term{op: OInv, sort: SReal, args: []*Term{x}})
		}
		return c.Inv(x)
	case OIDiv:
		return c.IDiv(f(t.args[0]), f(t.args[1]))
	case OMod:
		return c.Mod(f(t.args[0]), f(t.args[1]))
	case OToReal:
		return c.ToReal(f(t.args[0]))
	case OForall, OLambda:
		k := t.bound[0]
		nk := c.FreshBV("k", k.sort)
		m2 := map[*Term]*Term{}
		for a, b := range m {
			m2[a] = b
		}
		m2[k] = nk
		body := c.subst(t.args[0], m2, map[*Term]*Term{})
		if t.op == OForall {
			return c.Forall(nk, body)
		}
		return c.Lambda(nk, body)
	}
	panic("rebuild " + t.String())
}

func (c *TC) appSimp(t *Term, as []*Term) *Term {
	return c.App(t.name, t.sort, as...)
}

// ---- printing (debug and SMT share the syntax)

func (t *Term) String() string {
	var b strings.Builder
	printTerm(&b, t, 0)
	return b.String()
}

func ratStr(r *big.Rat, s *Sort) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var x string
	if s == SInt {
		x = a.Num().String()
	} else if a.IsInt() {
		x = a.Num().String() + ".0"
	} else {
		x = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + x + ")"
	}
	return x
}

func printMono(b *strings.Builder, m mono, s *Sort, depth int) {
	if len(m.atoms) == 0 {
		b.WriteString(ratStr(m.coef, s))
		return
	}
	if len(m.atoms) == 1 && m.coef.Cmp(one) == 0 {
		printTerm(b, m.atoms[0], depth+1)
		return
	}
	b.WriteString("(*")
	if m.coef.Cmp(one) != 0 {
		b.WriteByte(' ')
		b.WriteString(ratStr(m.coef, s))
	}
	for _, a := range m.atoms {
		b.WriteByte(' ')
		printTerm(b, a, depth+1)
	}
	b.WriteByte(')')
}

func printSum(b *strings.Builder, ms []mono, s *Sort, depth int) {
	if len(ms) == 0 {
		b.WriteString(ratStr(new(big.Rat), s))
		return
	}
	if len(ms) == 1 {
		printMono(b, ms[0], s, depth)
		return
	}
	b.WriteString("(+")
	for _, m := range ms {
		b.WriteByte(' ')
		printMono(b, m, s, depth)
	}
	b.WriteByte(')')
}

// splitSides writes p ~ 0 as pos ~ neg with positive coefficients.
func splitSides(p *Term, c func(*Term) []mono) (pos, neg []mono) {
	for _, m := range c(p) {
		if m.coef.Sign() > 0 {
			pos = append(pos, m)
		} else {
			neg = append(neg, mono{new(big.Rat).Neg(m.coef), m.atoms})
		}
	}
	return
}

func polyOfStatic(t *Term) []mono { return (*TC)(nil).polyOf(t) }

func printTerm(b *strings.Builder, t *Term, depth int) {
	if depth > 200 {
		b.WriteString("...")
		return
	}
	switch t.op {
	case OVar:
		b.WriteString(smtName(t.name))
	case ONum:
		b.WriteString(ratStr(t.num, t.sort))
	case OTrue:
		b.WriteString("true")
	case OFalse:
		b.WriteString("false")
	case OPoly:
		printSum(b, t.poly, t.sort, depth)
	case OEq:
		if len(t.args) == 1 {
			pos, neg := splitSides(t.args[0], polyOfStatic)
			b.WriteString("(= ")
			printSum(b, pos, t.args[0].sort, depth)
			b.WriteByte(' ')
			printSum(b, neg, t.args[0].sort, depth)
			b.WriteByte(')')
			return
		}
		printOp(b, "=", t, depth)
	case OLe, OLt:
		op := "(<= "
		if t.op == OLt {
			op = "(< "
		}
		pos, neg := splitSides(t.args[0], polyOfStatic)
		b.WriteString(op)
		printSum(b, pos, t.args[0].sort, depth)
		b.WriteByte(' ')
		printSum(b, neg, t.args[0].sort, depth)
		b.WriteByte(')')
	case OIte:
		printOp(b, "ite", t, depth)
	case ONot:
		printOp(b, "not", t, depth)
	case OAnd:
		printOp(b, "and", t, depth)
	case OOr:
		printOp(b, "or", t, depth)
	case OSelect:
		printOp(b, "select", t, depth)
	case OStore:
		printOp(b, "store", t, depth)
	case OConstArr:
		b.WriteString("((as const " + t.sort.name + ") ")
		printTerm(b, t.args[0], depth+1)
		b.WriteByte(')')
	case OApp:
		if len(t.args) == 0 {
			b.WriteString(smtName(t.name))
			return
		}
		printOp(b, smtName(t.name), t, depth)
	case OInv:
		printOp(b, "inv!", t, depth)
	case OIDiv:
		printOp(b, "div", t, depth)
	case OMod:
		printOp(b, "mod", t, depth)
	case OToReal:
		printOp(b, "to_real", t, depth)
	case OForall:
		b.WriteString("(forall ((" + smtName(t.bound[0].name) + " " + t.bound[0].sort.name + ")) ")
		printTerm(b, t.args[0], depth+1)
		b.WriteByte(')')
	case OLambda:
		b.WriteString("(lambda ((" + smtName(t.bound[0].name) + " " + t.bound[0].sort.name + ")) ")
		printTerm(b, t.args[0], depth+1)
		b.WriteByte(')')
	}
}

func smtName(s string) string {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_' || ch == '!' || ch == '.' || ch == '?') {
			return "|" + s + "|"
		}
	}
	if s[0] >= '0' && s[0] <= '9' {
		return "|" + s + "|"
	}
	return s
}

func printOp(b *strings.Builder, op string, t *Term, depth int) {
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range t.args {
		b.WriteByte(' ')
		printTerm(b, a, depth+1)
	}
	b.WriteByte(')')
}

func freeVars(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar && !t.isBV {
			out[t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				rec(a)
			}
		}
	}
	rec(t)
	return out
}
