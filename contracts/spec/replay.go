package spec

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"time"
)

// Replay machinery: when an obligation is not discharged, the contract is executed
// against the real code on generated inputs, smallest first, looking for a failing one.

// Rand is the source of generated arguments.
type Rand struct {
	*rand.Rand
	Size  int // current size bound (lengths of slices)
	Len   int // shared length of this round (-1: independent lengths)
	Mode  int
	Scale float64 // unit of the values
	min   bool
}

// TypeGen holds generators for particular types.
var TypeGen = map[reflect.Type]func(r *Rand) reflect.Value{}

// Case is one executable contract.
type Case struct {
	Name   string
	Target any
	Pre    any // may be nil
	Post   any
	Gen    any // may be nil: func(*Rand) (args...)
}

func (r *Rand) Float() float64 {
	if r.Scale != 0 {
		return r.Scale * r.float()
	}
	return r.float()
}

func (r *Rand) float() float64 {
	switch r.Mode {
	case 0:
		return float64(r.Intn(3)) // 0,1,2
	case 1:
		return float64(r.Intn(9) - 4)
	case 2:
		return float64(r.Intn(65)-32) / 4
	case 3:
		return float64(1+r.Intn(40)) / 2
	case 4:
		return 1
	default:
		return math.Round((r.Float64()*200-100)*64) / 64
	}
}

func (r *Rand) N() int {
	if r.Len >= 0 {
		return r.Len
	}
	return r.Intn(r.Size + 1)
}

func (r *Rand) Int() int {
	switch r.Intn(8) {
	case 0:
		return r.N() + r.Intn(3) - 1
	case 1:
		return r.Intn(4) - 1
	default:
		return 1 + r.Intn(max(1, min(r.Size, 6)))
	}
}

func (r *Rand) Floats(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = r.Float()
	}
	switch r.Intn(8) {
	case 0:
		for i := range out {
			if i > 0 && r.Intn(2) == 0 {
				out[i] = out[i-1]
			}
		}
	case 1:
		for i := 1; i < n; i++ {
			out[i] = out[i-1] + math.Abs(out[i])
		}
	case 2:
		for i := 1; i < n; i++ {
			out[i] = out[i-1] - math.Abs(out[i])
		}
	}
	return out
}

var timeBase = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// Value generates a value of type t.
func (r *Rand) Value(t reflect.Type) reflect.Value {
	if g, ok := TypeGen[t]; ok {
		return g(r)
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		if t == reflect.TypeOf(time.Duration(0)) {
			v.SetInt(int64(time.Duration(1+r.Intn(6)) * time.Minute))
		} else {
			v.SetInt(int64(r.Int()))
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		v.SetUint(uint64(r.Intn(8)))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(r.Float())
	case reflect.String:
		v.SetString([]string{"", "a", "b", "sma", "ema"}[r.Intn(5)])
	case reflect.Slice:
		n := r.N()
		if t.Elem().Kind() == reflect.Float64 {
			fs := r.Floats(n)
			v.Set(reflect.MakeSlice(t, n, n))
			for i := range fs {
				v.Index(i).SetFloat(fs[i])
			}
			break
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(r.Value(t.Elem()))
		}
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		p.Elem().Set(r.Value(t.Elem()))
		return p
	case reflect.Struct:
		if t == reflect.TypeOf(time.Time{}) {
			return reflect.ValueOf(timeBase.Add(time.Duration(r.Intn(600)) * time.Minute))
		}
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				v.Field(i).Set(r.Value(t.Field(i).Type))
			}
		}
	}
	return v
}

func deepCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepCopy(v.Elem()))
		return p
	case reflect.Struct:
		out.Set(v)
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return out
		}
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() && v.Type().Field(i).IsExported() {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

func show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

func showAll(vs []reflect.Value) []string {
	var out []string
	for _, v := range vs {
		if v.Kind() == reflect.Func {
			out = append(out, "func")
			continue
		}
		out = append(out, show(v.Interface()))
	}
	return out
}

func nonFinite(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float64:
		return !Finite(v.Float())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if nonFinite(v.Index(i)) {
				return true
			}
		}
	}
	return false
}

// Failure describes a failing input.
type Failure struct {
	Contract string   `json:"contract"`
	Reason   string   `json:"reason"`
	Args     []string `json:"args"`
	Results  []string `json:"results,omitempty"`
}

type outcome struct {
	reason  string
	results []reflect.Value
	skip    bool
	soft    bool // only the postcondition failed
}

// rescale multiplies every float64 reachable from v by k.
func rescale(v reflect.Value, k float64) {
	switch v.Kind() {
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() * k)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			rescale(v.Index(i), k)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			rescale(v.Elem(), k)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				rescale(v.Field(i), k)
			}
		}
	}
}

// persists tells whether a failure of the postcondition also shows when all values are
// multiplied by factors that round differently.  A failure that comes from the rounding
// of float64 (which the contracts do not describe) does not.
func (c *Case) persists(args, before []reflect.Value) bool {
	for _, k := range []float64{3, 5, 7, 11, 13, 1.1, 0.9, 1.7, 0.6875, 0.8125, 1.1875} {
		var a []reflect.Value
		for i := range before {
			if args[i].Kind() == reflect.Func || args[i].Kind() == reflect.Chan {
				a = append(a, args[i])
				continue
			}
			x := deepCopy(before[i])
			rescale(x, k)
			a = append(a, x)
		}
		ch := make(chan outcome, 1)
		go func() { ch <- c.once(a) }()
		select {
		case o := <-ch:
			if !o.skip && o.reason == "" {
				return false
			}
		case <-time.After(3 * time.Second):
		}
	}
	return true
}

func (c *Case) once(args []reflect.Value) (o outcome) {
	call := func(f any, a []reflect.Value, what string) (res []reflect.Value, err string) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Sprintf("%s panicked: %v", what, r)
			}
		}()
		return reflect.ValueOf(f).Call(a), ""
	}
	if c.Pre != nil {
		r, err := call(c.Pre, args, "precondition")
		if err != "" || !r[0].Bool() {
			return outcome{skip: true}
		}
	}
	var before []reflect.Value
	for _, a := range args {
		before = append(before, deepCopy(a))
	}
	res, err := call(c.Target, args, "call")
	if err != "" {
		return outcome{reason: err}
	}
	for i := range args {
		if args[i].Kind() != reflect.Func && args[i].Kind() != reflect.Chan && !reflect.DeepEqual(args[i].Interface(), before[i].Interface()) {
			return outcome{reason: fmt.Sprintf("argument %d was modified", i), results: res}
		}
	}
	for _, r := range res {
		if nonFinite(r) {
			return outcome{reason: "a result is not finite", results: res}
		}
	}
	r, err := call(c.Post, append(append([]reflect.Value(nil), before...), res...), "postcondition")
	if err != "" {
		return outcome{reason: err, results: res}
	}
	if !r[0].Bool() {
		return outcome{reason: "postcondition does not hold", results: res, soft: true}
	}
	return outcome{}
}

// Replay looks for an input on which the contract fails.  It returns nil and the number
// of inputs that satisfied the precondition when none was found.
func Replay(c Case, seed int64, n int, budget time.Duration) (*Failure, int) {
	r := &Rand{Rand: rand.New(rand.NewSource(seed))}
	ty := reflect.TypeOf(c.Target)
	t0 := time.Now()
	used := 0
	for i := 0; i < n; i++ {
		if time.Since(t0) > budget {
			break
		}
		r.Size = 1 + i*40/n
		if i%10 == 9 {
			r.Size = 12
		}
		r.Mode = r.Intn(6)
		// a unit with many small divisors: averages over short windows come out exact
		r.Scale = 2520. * 36 / (1 << 17)
		if r.Intn(8) == 0 {
			r.Scale /= 1 << 21
		}
		r.Len = -1
		if r.Intn(10) < 8 {
			r.Len = r.Intn(r.Size + 1)
		}
		var args []reflect.Value
		if c.Gen != nil {
			args = reflect.ValueOf(c.Gen).Call([]reflect.Value{reflect.ValueOf(r)})
		} else {
			for j := 0; j < ty.NumIn(); j++ {
				args = append(args, r.Value(ty.In(j)))
			}
		}
		shown := showAll(args)
		var before []reflect.Value
		for _, a := range args {
			before = append(before, deepCopy(a))
		}
		ch := make(chan outcome, 1)
		go func() { ch <- c.once(args) }()
		var o outcome
		select {
		case o = <-ch:
		case <-time.After(3 * time.Second):
			return &Failure{Contract: c.Name, Reason: "the call did not return within 3 s", Args: shown}, used
		}
		if o.skip {
			continue
		}
		used++
		if o.reason != "" && o.soft && !c.persists(args, before) {
			continue // rounding noise: the failure goes away when the values are rescaled
		}
		if o.reason != "" {
			return &Failure{Contract: c.Name, Reason: o.reason, Args: shown, Results: showAll(o.results)}, used
		}
	}
	return nil, used
}
