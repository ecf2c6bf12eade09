// Package tr: true-range functions of utils/ta.
package tr

import . "github.com/idoall/stockindicator/zzverif/spec"

const Target = "utils/ta"
const Props = "C09"

func TRange_pre(h, l, c []float64) bool { return len(h) >= len(c) && len(l) >= len(c) }
func TRange_post(h, l, c []float64, r []float64) bool {
	return EqSeq(r, TR(h, l, c))
}
func TrueRange_pre(h, l, c []float64) bool { return len(h) >= len(c) && len(l) >= len(c) }
func TrueRange_post(h, l, c []float64, r []float64) bool {
	return EqSeq(r, TR(h, l, c))
}

func Atr_pre(h, l, c []float64, p int) bool { return len(h) >= len(c) && len(l) >= len(c) }
func Atr_post(h, l, c []float64, p int, r []float64) bool {
	return EqSeq(r, AtrSeq(p, h, l, c))
}
func Atr_seq1(h, l, c []float64, p int) []float64 { return TR(h, l, c) }
func Atr_inv1(h, l, c []float64, p int, prev float64, i int) bool {
	return Eq(prev, At(Rma(p, TR(h, l, c)), i-1))
}

// WilderAt: Wilder smoothing seeded at bar p with the simple average.
func WilderAt(p int, v []float64, i int) float64 {
	if i <= p {
		return At(Sma(p, v), p)
	}
	return (WilderAt(p, v, i-1)*float64(p-1) + At(v, i)) / float64(p)
}

//vcg:opaque
func NatrSeq(p int, h, l, c []float64) []float64 {
	return Seq(len(c), func(i int) float64 {
		return IfF(p >= 1 && i >= p && c[i] != 0, WilderAt(p, TR(h, l, c), i)/c[i]*100, 0)
	})
}
func Natr_pre(h, l, c []float64, p int) bool {
	return len(h) >= len(c) && len(l) >= len(c) && p != 1
}
func Natr_post(h, l, c []float64, p int, r []float64) bool {
	return EqSeq(r, NatrSeq(p, h, l, c))
}
func Natr_seq1(h, l, c []float64, p int) []float64 { return TR(h, l, c) }
func Natr_inv1(h, l, c []float64, p int, prev float64, i int) bool {
	return Eq(prev, WilderAt(p, TR(h, l, c), i-1))
}
