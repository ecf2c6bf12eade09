// Package reg: least-squares helpers of package utils.
package reg

import . "github.com/idoall/stockindicator/zzverif/spec"

const Target = "utils"
const Props = "C08"

func MovingLeastSquare_pre(period int, x, y []float64) bool { return period >= 1 && len(x) == len(y) }
func MovingLeastSquare_seq1(period int, x, y []float64) []float64 { return Slope(period, x, y) }
func MovingLeastSquare_acc1(period int, x, y []float64, c int) float64 { return WinSum(period, x, c-1) }
func MovingLeastSquare_acc2(period int, x, y []float64, c int) float64 { return WinSum(period, y, c-1) }
func MovingLeastSquare_acc3(period int, x, y []float64, c int) float64 {
	return WinSum(period, Prod(x, x), c-1)
}
func MovingLeastSquare_acc4(period int, x, y []float64, c int) float64 {
	return WinSum(period, Prod(x, y), c-1)
}
func MovingLeastSquare_post(period int, x, y []float64, m, b []float64) bool {
	return EqSeq(m, Slope(period, x, y)) && len(b) == len(x)
}

func LeastSquare_pre(x, y []float64) bool                { return len(x) >= 1 && len(x) == len(y) }
func LeastSquare_acc1(x, y []float64, c int) float64     { return P(x, c) }
func LeastSquare_acc2(x, y []float64, c int) float64     { return P(y, c) }
func LeastSquare_acc3(x, y []float64, c int) float64     { return P(Prod(x, x), c) }
func LeastSquare_acc4(x, y []float64, c int) float64     { return P(Prod(x, y), c) }
func LeastSquare_post(x, y []float64, m, b float64) bool { return Eq(m, SlopeAll(x, y)) && Eq(b, IceptAll(x, y)) }

func LinearRegressionUsingLeastSquare_pre(x, y []float64) bool { return len(x) >= 1 && len(x) == len(y) }
func LinearRegressionUsingLeastSquare_post(x, y []float64, r []float64) bool {
	return EqSeq(r, Seq(len(x), func(i int) float64 { return SlopeAll(x, y)*x[i] + IceptAll(x, y) }))
}
