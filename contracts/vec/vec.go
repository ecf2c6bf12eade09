package vec

import . "github.com/idoall/stockindicator/zzverif/spec"

const Target = "utils/ta"
const Props = "C06"

func MultiplyBy_post(v []float64, m float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return v[i] * m }))
}

func Multiply_pre(a, b []float64) bool { return len(a) <= len(b) }
func Multiply_post(a, b []float64, r []float64) bool {
	return EqSeq(r, Seq(len(a), func(i int) float64 { return a[i] * b[i] }))
}

func DivideBy_pre(v []float64, per float64) bool { return per != 0 }
func DivideBy_post(v []float64, per float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return v[i] / per }))
}

func Divide_pre(a, b []float64) bool { return len(a) <= len(b) }
func Divide_post(a, b []float64, r []float64) bool {
	return EqSeq(r, Seq(len(a), func(i int) float64 { return IfF(b[i] != 0, a[i]/b[i], 0) }))
}

func Add_pre(a, b []float64) bool { return len(a) <= len(b) }
func Add_post(a, b []float64, r []float64) bool {
	return EqSeq(r, Seq(len(a), func(i int) float64 { return a[i] + b[i] }))
}

func AddBy_post(v []float64, x float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return v[i] + x }))
}

func Subtract_pre(a, b []float64) bool { return len(a) <= len(b) }
func Subtract_post(a, b []float64, r []float64) bool {
	return EqSeq(r, Seq(len(a), func(i int) float64 { return a[i] - b[i] }))
}

func Diff_pre(v []float64, before int) bool { return before >= 0 }
func Diff_post(v []float64, before int, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return v[i] - IfF(i >= before, At(v, i-before), 0) }))
}

func PercentDiff_pre(v []float64, before int) bool {
	return before >= 0 && All(0, len(v), func(i int) bool { return v[i] != 0 })
}
func PercentDiff_post(v []float64, before int, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return IfF(i >= before, (v[i]-At(v, i-before))/At(v, i-before), 0) }))
}

func ShiftRightAndFillBy_pre(period int, fill float64, v []float64) bool { return period >= 0 }
func ShiftRightAndFillBy_post(period int, fill float64, v []float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return IfF(i >= period, At(v, i-period), fill) }))
}

func ShiftRight_pre(period int, v []float64) bool { return period >= 0 }
func ShiftRight_post(period int, v []float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return IfF(i >= period, At(v, i-period), 0) }))
}

func ExtractSign_post(v []float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return IfF(v[i] >= 0, 1, -1) }))
}

func KeepPositives_post(v []float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return Max(v[i], 0) }))
}

func KeepNegatives_post(v []float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return Min(v[i], 0) }))
}

func Abs_post(v []float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return Abs(v[i]) }))
}

func Sqrt_pre(v []float64) bool { return All(0, len(v), func(i int) bool { return v[i] >= 0 }) }
func Sqrt_post(v []float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return Sqrt(v[i]) }))
}

func Sum_pre(period int, v []float64) bool { return period >= 1 }
func Sum_post(period int, v []float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return WinSum(period, v, i) })) &&
		Imp(All(0, len(v), func(i int) bool { return v[i] >= 0 }), All(0, len(v), func(i int) bool { return WinSum(period, v, i) >= 0 }))
}
func Sum_inv1(period int, v []float64, n int) bool {
	return Imp(All(0, len(v), func(i int) bool { return v[i] >= 0 }), All(0, n+1, func(j int) bool { return P(v, j) <= P(v, n) }))
}
func Sum_inv2(period int, v []float64, n int) bool {
	return Imp(All(0, len(v), func(i int) bool { return v[i] >= 0 }), All(0, n, func(i int) bool { return WinSum(period, v, i) >= 0 }))
}
func Sum_acc1(period int, v []float64, c int) float64 { return WinSum(period, v, c-1) }

func Cum_post(v []float64, r float64) bool { return Eq(r, P(v, len(v))) }
func Cum_acc1(v []float64, c int) float64  { return P(v, c) }

func Mean_pre(v []float64) bool             { return len(v) >= 1 }
func Mean_post(v []float64, r float64) bool { return Eq(r, P(v, len(v))/float64(len(v))) }
func Mean_acc1(v []float64, c int) float64  { return P(v, c) }

func Pow_pre(v []float64, e float64) bool {
	return All(0, len(v), func(i int) bool { return v[i] > 0 || e == -1 && v[i] != 0 })
}
func Pow_post(v []float64, e float64, r []float64) bool {
	return EqSeq(r, Seq(len(v), func(i int) float64 { return Pow(v[i], e) }))
}
