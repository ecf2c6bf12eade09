// Package spec is the specification language of the verifier: ordinary Go
// functions, read as logic by the prover and executed as they stand when a
// failed obligation is replayed against the real code.
package spec

import "math"

// Tol is the relative tolerance of executable comparisons (the logical reading is exact).
var Tol = 1e-5

// All: f(k) holds for every k with lo <= k < hi.
func All(lo, hi int, f func(k int) bool) bool {
	for k := lo; k < hi; k++ {
		if !f(k) {
			return false
		}
	}
	return true
}

// Eq: equality of finite numbers.
func Eq(a, b float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= Tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// Le, Lt: comparisons (with slack when executed).
func Le(a, b float64) bool { return a <= b || Eq(a, b) }
func Lt(a, b float64) bool { return a < b || Eq(a, b) }

// Near: a and b differ, but only by what the rounding of float64 explains.  Never true in
// the logical reading; it keeps executions of a contract from judging such ties.
func Near(a, b float64) bool { return a != b && Eq(a, b) }

func Finite(a float64) bool { return !math.IsNaN(a) && !math.IsInf(a, 0) }

func EqSeq(a, b []float64) bool {
	return len(a) == len(b) && All(0, len(b), func(k int) bool { return Eq(a[k], b[k]) })
}
func EqInts(a, b []int) bool {
	return len(a) == len(b) && All(0, len(b), func(k int) bool { return a[k] == b[k] })
}
func EqBools(a, b []bool) bool {
	return len(a) == len(b) && All(0, len(b), func(k int) bool { return a[k] == b[k] })
}

// At is v[i]; it is only meaningful for valid indexes.
func At(v []float64, i int) float64 {
	if i < 0 || i >= len(v) {
		return 0
	}
	return v[i]
}
func AtI(v []int, i int) int {
	if i < 0 || i >= len(v) {
		return 0
	}
	return v[i]
}
func AtB(v []bool, i int) bool {
	return i >= 0 && i < len(v) && v[i]
}

// Seq is the sequence f(0), ..., f(n-1).
func Seq(n int, f func(k int) float64) []float64 {
	var out []float64
	for k := 0; k < n; k++ {
		out = append(out, f(k))
	}
	return out
}
func SeqI(n int, f func(k int) int) []int {
	var out []int
	for k := 0; k < n; k++ {
		out = append(out, f(k))
	}
	return out
}
func SeqB(n int, f func(k int) bool) []bool {
	var out []bool
	for k := 0; k < n; k++ {
		out = append(out, f(k))
	}
	return out
}

func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

func IfF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func IfI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func Max(a, b float64) float64 { return math.Max(a, b) }
func Min(a, b float64) float64 { return math.Min(a, b) }
func Abs(a float64) float64    { return math.Abs(a) }
func Sqrt(a float64) float64   { return math.Sqrt(a) }

func MinI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func MaxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func Pow(a, b float64) float64 { return math.Pow(a, b) }
