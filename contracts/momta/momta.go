// Package momta: commodity channel index functions of utils/ta.
package momta

import (
	"github.com/idoall/stockindicator/zzverif/stat"
	. "github.com/idoall/stockindicator/zzverif/spec"
)

const Target = "utils/ta"
const Props = "C17"

// Cci: distance of the price from its average in units of 0.015 mean deviations (0 before a full window and where the deviation is 0).
//vcg:opaque
func Cci(p, sp int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(i >= p-1 && At(stat.MeanDev(p, v, Sma(sp, v)), i) != 0, (At(v, i)-At(Sma(sp, v), i))/(0.015*At(stat.MeanDev(p, v, Sma(sp, v)), i)), 0)
	})
}
func CCI_pre(hlc3 []float64, period, smaPeriod int) bool { return period >= 1 && smaPeriod >= 1 }
func CCI_post(hlc3 []float64, period, smaPeriod int, r []float64) bool {
	return EqSeq(r, Cci(period, smaPeriod, hlc3))
}

// Ma: mean of the last p values (0 before a full window).
//vcg:opaque
func Ma(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return IfF(p >= 1 && i >= p-1, (P(v, i+1)-P(v, i+1-p))/float64(p), 0) })
}

// AiCci: the same over the mean absolute deviation about the window mean.
//vcg:opaque
func AiCci(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(At(stat.DevSeq(p, v), i) != 0, (At(v, i)-At(Ma(p, v), i))/(0.015*At(stat.DevSeq(p, v), i)), 0)
	})
}
func AiCoinCCI_pre(close []float64, period int, factor float64) bool { return period >= 1 }
func AiCoinCCI_seq1(close []float64, period int, factor float64) []float64 { return Ma(period, close) }
func AiCoinCCI_post(close []float64, period int, factor float64, r []float64) bool {
	return EqSeq(r, AiCci(period, close))
}
