// Package ext: contracts of the windowed extremes of utils/ta.
package ext

import . "github.com/idoall/stockindicator/zzverif/spec"

const Target = "utils/ta"
const Props = "C02"

//vcg:bounded
func Max_pre(period int, values []float64) bool { return period >= 1 }
func Max_post(period int, values []float64, r []float64) bool {
	return EqSeq(r, HighestIn(period, values))
}

//vcg:bounded
func Min_pre(period int, values []float64) bool { return period >= 1 }
func Min_post(period int, values []float64, r []float64) bool {
	return EqSeq(r, LowestIn(period, values))
}

// Highest, Lowest: over the last values of the series.
func Highest_inv1(values []float64, lenght int, result float64, i int) bool {
	return Eq(result, IfF(i+1 >= len(values), At(values, len(values)-1), MaxR(values, i+1, len(values))))
}
func Highest_pre(values []float64, lenght int) bool { return len(values) >= 1 && lenght >= 1 }
func Highest_post(values []float64, lenght int, r float64) bool {
	return Eq(r, MaxR(values, MaxI(0, len(values)-lenght), len(values)))
}
func Lowest_inv1(values []float64, lenght int, result float64, i int) bool {
	return Eq(result, IfF(i+1 >= len(values), At(values, len(values)-1), MinR(values, i+1, len(values))))
}
func Lowest_pre(values []float64, lenght int) bool { return len(values) >= 1 && lenght >= 1 }
func Lowest_post(values []float64, lenght int, r float64) bool {
	return Eq(r, MinR(values, MaxI(0, len(values)-lenght), len(values)))
}
