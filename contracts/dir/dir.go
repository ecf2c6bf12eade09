// Package dir: directional and stochastic trend indicators of package trend.
package dir

import (
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	. "github.com/idoall/stockindicator/zzverif/ks"
	. "github.com/idoall/stockindicator/zzverif/spec"
)

const Target = "trend"
const Props = "C20"

func stamped(it *klines.Item, i int, t time.Time) bool {
	return t == time.Unix(it.Candles[i].TimeUnix, 0)
}

// ---- average directional index

// Moves: the part of the bar's rise (fall) that exceeds its fall (rise).
//vcg:opaque
func Up(h, l []float64) []float64 {
	return Seq(len(h), func(i int) float64 {
		return IfF(i >= 1 && At(h, i)-At(h, i-1) > At(l, i-1)-At(l, i) && At(h, i)-At(h, i-1) > 0, At(h, i)-At(h, i-1), 0)
	})
}

//vcg:opaque
func Down(h, l []float64) []float64 {
	return Seq(len(h), func(i int) float64 {
		return IfF(i >= 1 && At(l, i-1)-At(l, i) > At(h, i)-At(h, i-1) && At(l, i-1)-At(l, i) > 0, At(l, i-1)-At(l, i), 0)
	})
}

// SmoothAt: Wilder's running total.
func SmoothAt(p int, v []float64, i int) float64 {
	if i < 1 {
		return 0
	}
	return SmoothAt(p, v, i-1) - SmoothAt(p, v, i-1)/float64(p) + At(v, i)
}

//vcg:opaque
func Smooth(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return SmoothAt(p, v, i) })
}

func AverageDirectionalIndex_smoothValues_pre(e *trend.AverageDirectionalIndex, v []float64, p int) bool {
	return e != nil && p >= 1
}
func AverageDirectionalIndex_smoothValues_post(e *trend.AverageDirectionalIndex, v []float64, p int, r []float64) bool {
	return EqSeq(r, Smooth(p, v))
}

func ratio(a, b float64) float64 { return IfF(b != 0, a/b, 0) }

// Di: share of the directional movement m in the true range t, in percent.
//vcg:opaque
func Di(p, n int, m, t []float64) []float64 {
	return Seq(len(t), func(i int) float64 {
		return IfF(i >= p-1, ratio(At(Smooth(n, m), i), At(Smooth(n, t), i))*100, 0)
	})
}

//vcg:opaque
func Dx(a, b []float64) []float64 {
	return Seq(len(a), func(i int) float64 { return 100 * ratio(Abs(At(a, i)-At(b, i)), At(a, i)+At(b, i)) })
}

func tr(it *klines.Item) []float64 { return TR(High(it.Candles), Low(it.Candles), Close(it.Candles)) }
func diUp(it *klines.Item, p, n int) []float64 {
	return Di(p, n, Up(High(it.Candles), Low(it.Candles)), tr(it))
}
func diDown(it *klines.Item, p, n int) []float64 {
	return Di(p, n, Down(High(it.Candles), Low(it.Candles)), tr(it))
}

func client_Adx(it *klines.Item, p, n int) []trend.AverageDirectionalIndexData {
	return trend.NewAverageDirectionalIndex(it, p, n).GetData()
}
func client_Adx_pre(it *klines.Item, p, n int) bool        { return Ok(it) && p >= 1 && n >= 1 }
func client_Adx_seq1(it *klines.Item, p, n int) []float64 { return tr(it) }
func client_Adx_seq2(it *klines.Item, p, n int) []float64 { return Up(High(it.Candles), Low(it.Candles)) }
func client_Adx_seq3(it *klines.Item, p, n int) []float64 {
	return Down(High(it.Candles), Low(it.Candles))
}
func client_Adx_seq4(it *klines.Item, p, n int) []float64 { return diUp(it, p, n) }
func client_Adx_seq5(it *klines.Item, p, n int) []float64 { return diDown(it, p, n) }
func client_Adx_seq6(it *klines.Item, p, n int) []float64 {
	return Dx(diUp(it, p, n), diDown(it, p, n))
}
func client_Adx_post(it *klines.Item, p, n int, r []trend.AverageDirectionalIndexData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].DIPlus, At(diUp(it, p, n), i)) && Eq(r[i].DIMins, At(diDown(it, p, n), i)) &&
			Eq(r[i].ADX, At(Sma(n, Dx(diUp(it, p, n), diDown(it, p, n))), i)) && stamped(it, i, r[i].Time)
	})
}

// ---- extremes of the window of the stochastic lines

func Kdj_arrayLowest_pre(e *trend.Kdj, v []float64) bool           { return len(v) >= 1 }
func Kdj_arrayLowest_post(e *trend.Kdj, v []float64, r float64) bool { return Eq(r, MinR(v, 0, len(v))) }
func Kdj_arrayHighest_pre(e *trend.Kdj, v []float64) bool          { return len(v) >= 1 }
func Kdj_arrayHighest_post(e *trend.Kdj, v []float64, r float64) bool {
	return Eq(r, MaxR(v, 0, len(v)))
}

func Kdj_arrayLowest_acc1(e *trend.Kdj, v []float64, c int) float64  { return MinR(v, 0, c) }
func Kdj_arrayHighest_acc1(e *trend.Kdj, v []float64, c int) float64 { return MaxR(v, 0, c) }

