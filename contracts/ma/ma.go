package ma

import . "github.com/idoall/stockindicator/zzverif/spec"

const Target = "utils/ta"
const Props = "C01"

func Sma_pre(period int, values []float64) bool { return period >= 1 }
func Sma_post(period int, values []float64, r []float64) bool {
	return EqSeq(r, Sma(period, values))
}
func Sma_acc1(period int, values []float64, c int) float64 { return WinSum(period, values, c-1) }

func Ema_pre(period int, values []float64) bool { return period >= 1 }
func Ema_post(period int, values []float64, r []float64) bool {
	return EqSeq(r, Ema(period, values))
}

func Rma_pre(period int, values []float64) bool { return period >= 1 }
func Rma_post(period int, values []float64, r []float64) bool {
	return EqSeq(r, Rma(period, values))
}
func Rma_acc1(period int, values []float64, c int) float64 { return P(values, c) - P(values, 1) }
func Rma_acc2(period int, values []float64, c int) float64 {
	return IfF(c <= 1, 0, IfF(c <= period, P(values, c)-P(values, 1), RmaAt(period, values, c-1)*float64(period)))
}

func MA_post(v []float64, length int, r []float64) bool {
	return len(r) == len(v) && All(0, len(v), func(i int) bool {
		return Eq(r[i], IfF(length >= 1 && i >= length-1, (P(v, i+1)-P(v, i+1-length))/float64(length), 0))
	})
}
func MA_acc1(v []float64, length int, c int) float64 { return P(v, c) }
func MA_inv1(v []float64, length int, sum float64, i, j int) bool {
	return Eq(sum, P(v, j)-P(v, i-length+1))
}

func Dema_pre(period int, values []float64) bool { return period >= 1 }
func Dema_post(period int, values []float64, r []float64) bool {
	return len(r) == len(values) && All(0, len(r), func(i int) bool {
		return Eq(r[i], 2*At(Ema(period, values), i)-Ema(period, Ema(period, values))[i])
	})
}

func Wma_pre(period int, values []float64) bool { return period >= 1 }
func Wma_post(period int, values []float64, r []float64) bool {
	return EqSeq(r, Wma(period, values))
}

// before bar i, periodSub is the sum of the p-1 (or i) newest values, periodSum their weighted sum.
func Wma_inv1(p int, v []float64, periodSum, periodSub float64, i int) bool {
	return Eq(periodSub, P(v, i)) && Eq(periodSum, PW(v, i))
}
func Wma_inv2(p int, v []float64, periodSum, periodSub, trailing float64, i int) bool {
	return Eq(trailing, IfF(i <= p-1, 0, At(v, i-p))) && Eq(periodSub-trailing, P(v, i)-P(v, i-p+1)) &&
		Eq(periodSum, PW(v, i)-PW(v, i-p+1)-float64(i-p+1)*(P(v, i)-P(v, i-p+1)))
}
