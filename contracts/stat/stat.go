// Package stat: statistics, regression and true-range functions of utils/ta.
package stat

import (
	"math"

	. "github.com/idoall/stockindicator/zzverif/spec"
)

const Target = "utils/ta"
const Props = "C07"

// Var: population variance of the last p values ending at i.
func Var(p int, v []float64, i int) float64 {
	return (P2(v, i+1)-P2(v, i+1-p))/float64(p) - (P(v, i+1)-P(v, i+1-p))/float64(p)*((P(v, i+1)-P(v, i+1-p))/float64(p))
}

//vcg:opaque
func VarSeq(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return IfF(p >= 1 && i >= p-1, Var(p, v, i), 0) })
}

func Variance_post(inReal []float64, inTimePeriod int, r []float64) bool {
	return EqSeq(r, VarSeq(inTimePeriod, inReal))
}
func Variance_inv1(inReal []float64, inTimePeriod int, periodTotal1, periodTotal2 float64, i int) bool {
	return Eq(periodTotal1, P(inReal, i)-P(inReal, i+1-inTimePeriod)) && Eq(periodTotal2, P2(inReal, i)-P2(inReal, i+1-inTimePeriod))
}
func Variance_inv2(inReal []float64, inTimePeriod int, periodTotal1, periodTotal2 float64, i int) bool {
	return Eq(periodTotal1, P(inReal, i)) && Eq(periodTotal2, P2(inReal, i))
}

func Variance_inv3(inReal []float64, inTimePeriod int, ok bool, i int) bool { return ok == (i < len(inReal)) }

//vcg:opaque
func SdSeq(p int, v []float64, k float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(At(VarSeq(p, v), i) < 0.00000000000001, 0, Sqrt(At(VarSeq(p, v), i))*k)
	})
}
func StdDev_post(inReal []float64, inTimePeriod int, inNbDev float64, r []float64) bool {
	return EqSeq(r, SdSeq(inTimePeriod, inReal, inNbDev))
}

// SumAbs: |v[a]-m| + ... + |v[b-1]-m|.
func SumAbs(v []float64, m float64, a, b int) float64 {
	if b <= a {
		return 0
	}
	return SumAbs(v, m, a, b-1) + Abs(At(v, b-1)-m)
}

// DevSq: sum of squared deviations of the first n values from m.
func DevSq(v []float64, m float64, n int) float64 {
	if n <= 0 {
		return 0
	}
	return DevSq(v, m, n-1) + (At(v, n-1)-m)*(At(v, n-1)-m)
}

func SD_post(values []float64, r float64) bool {
	return Eq(r, IfF(len(values) == 0, 0, Sqrt(DevSq(values, P(values, len(values))/float64(len(values)), len(values))/float64(len(values)))))
}
func SD_acc1(values []float64, c int) float64 { return P(values, c) }
func SD_acc2(values []float64, c int) float64 {
	return DevSq(values, P(values, len(values))/float64(len(values)), c)
}
func fact_DevSq_nonneg(v []float64, m float64, n int) bool { return DevSq(v, m, n) >= 0 }

// DevSeq: mean absolute deviation of the last p values from their mean (0 before bar p-1).
//vcg:opaque
func DevSeq(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(p >= 1 && i >= p-1, SumAbs(v, (P(v, i+1)-P(v, i+1-p))/float64(p), i+1-p, i+1)/float64(p), 0)
	})
}
func Dev_post(source []float64, length int, r []float64) bool {
	return EqSeq(r, DevSeq(length, source))
}
func Dev_inv1(source []float64, length int, sum float64, i, j int) bool {
	return Eq(sum, P(source, j)-P(source, i-length+1))
}
func Dev_inv2(source []float64, length int, devSum float64, i, j int) bool {
	return Eq(devSum, SumAbs(source, (P(source, i+1)-P(source, i+1-length))/float64(length), i+1-length, j))
}

// MeanDev: mean absolute deviation of the last p prices from the given average.
//vcg:opaque
func MeanDev(p int, v, ma []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(i >= p-1, SumAbs(v, At(ma, i), i+1-p, i+1)/float64(p), 0)
	})
}
func MeanDeviation_pre(prices []float64, period int, ma []float64) bool {
	return period >= 1 && len(ma) == len(prices)
}
func MeanDeviation_post(prices []float64, period int, ma []float64, r []float64) bool {
	return EqSeq(r, MeanDev(period, prices, ma))
}
func MeanDeviation_inv1(prices []float64, period int, ma []float64, sum float64, i, j int) bool {
	return Eq(sum, SumAbs(prices, At(ma, i), i+1-period, j))
}

// ---- regression: least squares over the last n values, abscissae 0..n-1

// SX, SXX: sums of the abscissae and of their squares.
func SX(n int) float64  { return float64(n) * (float64(n) - 1) * 0.5 }
func SXX(n int) float64 { return float64(n) * (float64(n) - 1) * (2*float64(n) - 1) / 6 }

// Den: the (negative) denominator of the slope.
func Den(n int) float64           { return SX(n)*SX(n) - float64(n)*SXX(n) }
func fact_Den_negative(n int) bool { return Imp(n >= 2, Den(n) < 0) }

// WY, WXY: window sums of y and of x*y for the n values ending at i, x counted back from the newest (as weights n-1..0).
//vcg:opaque
func WY(n int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return P(v, i+1) - P(v, i+1-n) })
}

//vcg:opaque
func WXY(n int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return float64(i)*(P(v, i+1)-P(v, i+1-n)) - (PJ(v, i+1) - PJ(v, i+1-n))
	})
}

// SlopeSeq: slope of the regression line: with x' = n-1-x the age of a value, m = (n*S(x'y)-S(x')S(y))/(S(x)^2-n*S(xx)).
//vcg:opaque
func SlopeSeq(n int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(i >= n-1, (float64(n)*At(WXY(n, v), i)-SX(n)*At(WY(n, v), i))/Den(n), 0)
	})
}

//vcg:opaque
func InterceptSeq(n int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(i >= n-1, (At(WY(n, v), i)-At(SlopeSeq(n, v), i)*SX(n))/float64(n), 0)
	})
}

//vcg:opaque
func FitSeq(n int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(i >= n-1, At(InterceptSeq(n, v), i)+At(SlopeSeq(n, v), i)*(float64(n)-1), 0)
	})
}

//vcg:opaque
func AngleSeq(n int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(i >= n-1, math.Atan(At(SlopeSeq(n, v), i))*(180.0/math.Pi), 0)
	})
}

// reg1: before bar today the sums cover the window ending at max(today-1, n-1).
func reg1(v []float64, n int, sumY, sumXY float64, today int) bool {
	return Eq(sumY, At(WY(n, v), MaxI(today-1, n-1))) && Eq(sumXY, At(WXY(n, v), MaxI(today-1, n-1)))
}
func reg2(v []float64, n int, sumY, sumXY float64, i, today int) bool {
	return Eq(sumY, P(v, today+1-i)) && Eq(sumXY, float64(today)*P(v, today+1-i)-PJ(v, today+1-i))
}

//vcg:props C08
func LinearRegSlope_pre(inReal []float64, inTimePeriod int) bool { return inTimePeriod >= 2 }
func LinearRegSlope_use(inReal []float64, inTimePeriod int) bool { return fact_Den_negative(inTimePeriod) }
func LinearRegSlope_post(inReal []float64, inTimePeriod int, r []float64) bool {
	return EqSeq(r, SlopeSeq(inTimePeriod, inReal))
}
func LinearRegSlope_inv1(inReal []float64, inTimePeriod int, sumY, sumXY float64, today int) bool {
	return reg1(inReal, inTimePeriod, sumY, sumXY, today)
}
func LinearRegSlope_inv2(inReal []float64, inTimePeriod int, sumY, sumXY float64, i int) bool {
	return reg2(inReal, inTimePeriod, sumY, sumXY, i, inTimePeriod-1)
}

//vcg:props C08
func LinearRegIntercept_pre(inReal []float64, inTimePeriod int) bool { return inTimePeriod >= 2 }
func LinearRegIntercept_use(inReal []float64, inTimePeriod int) bool { return fact_Den_negative(inTimePeriod) }
func LinearRegIntercept_post(inReal []float64, inTimePeriod int, r []float64) bool {
	return EqSeq(r, InterceptSeq(inTimePeriod, inReal))
}
func LinearRegIntercept_inv1(inReal []float64, inTimePeriod int, sumY, sumXY float64, today int) bool {
	return reg1(inReal, inTimePeriod, sumY, sumXY, today)
}
func LinearRegIntercept_inv2(inReal []float64, inTimePeriod int, sumY, sumXY float64, i int) bool {
	return reg2(inReal, inTimePeriod, sumY, sumXY, i, inTimePeriod-1)
}

//vcg:props C08
func LinearReg_pre(inReal []float64, inTimePeriod int) bool { return inTimePeriod >= 2 }
func LinearReg_use(inReal []float64, inTimePeriod int) bool { return fact_Den_negative(inTimePeriod) }
func LinearReg_post(inReal []float64, inTimePeriod int, r []float64) bool {
	return EqSeq(r, FitSeq(inTimePeriod, inReal))
}
func LinearReg_inv1(inReal []float64, inTimePeriod int, sumY, sumXY float64, today int) bool {
	return reg1(inReal, inTimePeriod, sumY, sumXY, today)
}
func LinearReg_inv2(inReal []float64, inTimePeriod int, sumY, sumXY float64, i int) bool {
	return reg2(inReal, inTimePeriod, sumY, sumXY, i, inTimePeriod-1)
}

//vcg:props C08
func LinearRegAngle_pre(inReal []float64, inTimePeriod int) bool { return inTimePeriod >= 2 }
func LinearRegAngle_use(inReal []float64, inTimePeriod int) bool { return fact_Den_negative(inTimePeriod) }
func LinearRegAngle_post(inReal []float64, inTimePeriod int, r []float64) bool {
	return EqSeq(r, AngleSeq(inTimePeriod, inReal))
}
func LinearRegAngle_inv1(inReal []float64, inTimePeriod int, sumY, sumXY float64, today int) bool {
	return reg1(inReal, inTimePeriod, sumY, sumXY, today)
}
func LinearRegAngle_inv2(inReal []float64, inTimePeriod int, sumY, sumXY float64, i int) bool {
	return reg2(inReal, inTimePeriod, sumY, sumXY, i, inTimePeriod-1)
}
