// Package st: trailing-stop and regression indicators of package trend.
package st

import (
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	. "github.com/idoall/stockindicator/zzverif/ks"
	. "github.com/idoall/stockindicator/zzverif/spec"
	"github.com/idoall/stockindicator/zzverif/stat"
	"github.com/idoall/stockindicator/zzverif/tr"
)

const Target = "trend"
const Props = "C20"

func stamped(it *klines.Item, i int, t time.Time) bool {
	return t == time.Unix(it.Candles[i].TimeUnix, 0)
}
func atr(it *klines.Item, p int) []float64 {
	return AtrSeq(p, High(it.Candles), Low(it.Candles), Close(it.Candles))
}

// ---- UT bot: trailing stop k true ranges away from the close

// stop: the next stop, given the previous one (s), the close (c), the close before it (b) and the distance (d).
func stop(s, c, b, d float64) float64 {
	return IfF(c > s && b > s, Max(s, c-d), IfF(c < s && b < s, Min(s, c+d), IfF(c > s, c-d, c+d)))
}

// StopAt: the stop is 0 on the first bar.
func StopAt(k int, c, a []float64, i int) float64 {
	if i < 1 {
		return 0
	}
	return stop(StopAt(k, c, a, i-1), At(c, i), At(c, i-1), float64(k)*At(a, i))
}

//vcg:opaque
func Stop(k int, c, a []float64) []float64 {
	return Seq(len(c), func(i int) float64 { return StopAt(k, c, a, i) })
}
func ut(it *klines.Item, k, p int) []float64 { return Stop(k, Close(it.Candles), atr(it, p)) }

func client_UTBot(it *klines.Item, k, p int) []trend.UTBotData { return trend.NewUTBot(it, k, p).GetData() }
func client_UTBot_pre(it *klines.Item, k, p int) bool          { return Ok(it) && p >= 1 }
func client_UTBot_seq1(it *klines.Item, k, p int) []float64    { return ut(it, k, p) }
func client_UTBot_post(it *klines.Item, k, p int, r []trend.UTBotData) bool {
	return len(r) == len(it.Candles) && All(1, len(r), func(i int) bool {
		return Eq(r[i].Value, At(ut(it, k, p), i)) && Eq(r[i].Close, it.Candles[i].Close) && stamped(it, i, r[i].Time)
	}) && Imp(len(r) >= 1, r[0] == trend.UTBotData{})
}

// ---- regression candles

func client_RegCandles(it *klines.Item, s, n int, sma bool) []trend.LinearRegressionCandlesData {
	return trend.NewLinearRegressionCandles(it, s, n, sma).GetData()
}
func client_RegCandles_pre(it *klines.Item, s, n int, sma bool) bool { return Ok(it) && s >= 1 && n >= 2 }
func client_RegCandles_post(it *klines.Item, s, n int, sma bool, r []trend.LinearRegressionCandlesData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Open, At(stat.FitSeq(n, Open(it.Candles)), i)) && Eq(r[i].High, At(stat.FitSeq(n, High(it.Candles)), i)) &&
			Eq(r[i].Low, At(stat.FitSeq(n, Low(it.Candles)), i)) && Eq(r[i].Close, At(stat.FitSeq(n, Close(it.Candles)), i)) &&
			Imp(sma, Eq(r[i].Signal, At(Sma(s, stat.FitSeq(n, Close(it.Candles))), i))) &&
			Imp(!sma, Eq(r[i].Signal, At(Ema(s, stat.FitSeq(n, Close(it.Candles))), i))) && stamped(it, i, r[i].Time)
	})
}

// ---- fast and slow averages of TraderXO

func client_TraderXO(it *klines.Item, f, s int) []trend.TraderXOData {
	return trend.NewTraderXO(it, f, s).GetData()
}
func client_TraderXO_pre(it *klines.Item, f, s int) bool { return Ok(it) && f >= 1 && s >= 1 }
func client_TraderXO_post(it *klines.Item, f, s int, r []trend.TraderXOData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Fast, At(Ema(f, Close(it.Candles)), i)) && Eq(r[i].Slow, At(Ema(s, Close(it.Candles)), i)) &&
			stamped(it, i, r[i].Time)
	})
}
func client_UTBotSides(it *klines.Item, k, p int) utils.SideData {
	return trend.NewUTBot(it, k, p).AnalysisSide()
}

//vcg:props C14
func client_UTBotSides_pre(it *klines.Item, k, p int) bool       { return Ok(it) && p >= 1 }
func client_UTBotSides_seq1(it *klines.Item, k, p int) []float64 { return ut(it, k, p) }
func client_UTBotSides_post(it *klines.Item, k, p int, r utils.SideData) bool {
	return Signals(r, len(it.Candles), func(i int) bool {
		return it.Candles[i].Close > At(ut(it, k, p), i) && before(it, i) < At(ut(it, k, p), i-1)
	}, func(i int) bool {
		return it.Candles[i].Close < At(ut(it, k, p), i) && before(it, i) > At(ut(it, k, p), i-1)
	})
}

// before: the close of the bar before, as the strategy sees it (0 for the first bar, which has no record).
func before(it *klines.Item, i int) float64 {
	if i < 2 {
		return 0
	}
	return it.Candles[i-1].Close
}

// ---- SuperTrend: bands m average true ranges around the middle of the bar

// UpAt (DnAt): the support (resistance), which only rises (falls) while the close before is above (below) it; 0 on the first bar.
func UpAt(m int, c, s, a []float64, i int) float64 {
	if i < 1 {
		return 0
	}
	return IfF(At(c, i-1) > UpAt(m, c, s, a, i-1), Max(At(s, i)-float64(m)*At(a, i), UpAt(m, c, s, a, i-1)), At(s, i)-float64(m)*At(a, i))
}
func DnAt(m int, c, s, a []float64, i int) float64 {
	if i < 1 {
		return 0
	}
	return IfF(At(c, i-1) < DnAt(m, c, s, a, i-1), Min(At(s, i)+float64(m)*At(a, i), DnAt(m, c, s, a, i-1)), At(s, i)+float64(m)*At(a, i))
}

//vcg:opaque
func Ups(m int, c, s, a []float64) []float64 {
	return Seq(len(c), func(i int) float64 { return UpAt(m, c, s, a, i) })
}

//vcg:opaque
func Dns(m int, c, s, a []float64) []float64 {
	return Seq(len(c), func(i int) float64 { return DnAt(m, c, s, a, i) })
}

// TrendAt is 1 while the close has not fallen through the support u, -1 from there until it rises through the resistance d.
func TrendAt(c, u, d []float64, i int) float64 {
	if i < 1 {
		return 1
	}
	return turn(TrendAt(c, u, d, i-1), At(c, i), At(u, i-1), At(d, i-1))
}
func turn(t, c, u, d float64) float64 {
	return IfF(t == -1 && c > d, 1, IfF(t == 1 && c < u, -1, t))
}

//vcg:opaque
func Trend(c, u, d []float64) []float64 {
	return Seq(len(c), func(i int) float64 { return TrendAt(c, u, d, i) })
}
func hl2(it *klines.Item) []float64 {
	return Seq(len(it.Candles), func(i int) float64 { return (it.Candles[i].High + it.Candles[i].Low) / 2 })
}
func ups(it *klines.Item, p, m int) []float64 { return Ups(m, Close(it.Candles), hl2(it), atr(it, p)) }
func dns(it *klines.Item, p, m int) []float64 { return Dns(m, Close(it.Candles), hl2(it), atr(it, p)) }
func tre(it *klines.Item, p, m int) []float64 {
	return Trend(Close(it.Candles), ups(it, p, m), dns(it, p, m))
}

func client_SuperTrend(it *klines.Item, p, m int) []trend.SuperTrendData {
	return trend.NewSuperTrend(it, p, m, true).GetData()
}

//vcg:props C20
func client_SuperTrend_pre(it *klines.Item, p, m int) bool       { return Ok(it) && p >= 1 }
func client_SuperTrend_seq1(it *klines.Item, p, m int) []float64 { return ups(it, p, m) }
func client_SuperTrend_seq2(it *klines.Item, p, m int) []float64 { return dns(it, p, m) }
func client_SuperTrend_seq3(it *klines.Item, p, m int) []float64 { return tre(it, p, m) }
func client_SuperTrend_seq4(it *klines.Item, p, m int) []float64 {
	return Begin(1, tre(it, p, m), ups(it, p, m))
}
func client_SuperTrend_seq5(it *klines.Item, p, m int) []float64 {
	return Begin(-1, tre(it, p, m), dns(it, p, m))
}
func client_SuperTrend_post(it *klines.Item, p, m int, r []trend.SuperTrendData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].UpTrend, At(ups(it, p, m), i)) && Eq(r[i].DownTrend, At(dns(it, p, m), i)) && stamped(it, i, r[i].Time) &&
			Eq(r[i].UpTrendBegin, At(Begin(1, tre(it, p, m), ups(it, p, m)), i)) &&
			Eq(r[i].DownTrendBegin, At(Begin(-1, tre(it, p, m), dns(it, p, m)), i))
	})
}

// Begin: the band b on the bars where the trend t turns to side, 0 elsewhere.
//vcg:opaque
func Begin(side float64, t, b []float64) []float64 {
	return Seq(len(t), func(i int) float64 {
		return IfF(i >= 1 && At(t, i) == side && At(t, i-1) == -side, At(b, i), 0)
	})
}

// the same with the average of the normalized true range for distance
func natr(it *klines.Item, p int) []float64 {
	return Sma(p, tr.NatrSeq(p, High(it.Candles), Low(it.Candles), Close(it.Candles)))
}
func upsN(it *klines.Item, p, m int) []float64 { return Ups(m, Close(it.Candles), hl2(it), natr(it, p)) }
func dnsN(it *klines.Item, p, m int) []float64 { return Dns(m, Close(it.Candles), hl2(it), natr(it, p)) }
func treN(it *klines.Item, p, m int) []float64 {
	return Trend(Close(it.Candles), upsN(it, p, m), dnsN(it, p, m))
}
func client_SuperTrendN(it *klines.Item, p, m int) []trend.SuperTrendData {
	return trend.NewSuperTrend(it, p, m, false).GetData()
}

//vcg:props C20
func client_SuperTrendN_pre(it *klines.Item, p, m int) bool       { return Ok(it) && p >= 2 }
func client_SuperTrendN_seq1(it *klines.Item, p, m int) []float64 { return upsN(it, p, m) }
func client_SuperTrendN_seq2(it *klines.Item, p, m int) []float64 { return dnsN(it, p, m) }
func client_SuperTrendN_seq3(it *klines.Item, p, m int) []float64 { return treN(it, p, m) }
func client_SuperTrendN_seq4(it *klines.Item, p, m int) []float64 {
	return Begin(1, treN(it, p, m), upsN(it, p, m))
}
func client_SuperTrendN_seq5(it *klines.Item, p, m int) []float64 {
	return Begin(-1, treN(it, p, m), dnsN(it, p, m))
}
func client_SuperTrendN_post(it *klines.Item, p, m int, r []trend.SuperTrendData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].UpTrend, At(upsN(it, p, m), i)) && Eq(r[i].DownTrend, At(dnsN(it, p, m), i)) && stamped(it, i, r[i].Time) &&
			Eq(r[i].UpTrendBegin, At(Begin(1, treN(it, p, m), upsN(it, p, m)), i)) &&
			Eq(r[i].DownTrendBegin, At(Begin(-1, treN(it, p, m), dnsN(it, p, m)), i))
	})
}
func client_SuperTrendSides(it *klines.Item, p, m int) utils.SideData {
	return trend.NewSuperTrend(it, p, m, true).AnalysisSide()
}

//vcg:props C14
func client_SuperTrendSides_pre(it *klines.Item, p, m int) bool       { return Ok(it) && p >= 1 }
func client_SuperTrendSides_seq1(it *klines.Item, p, m int) []float64 { return ups(it, p, m) }
func client_SuperTrendSides_seq2(it *klines.Item, p, m int) []float64 { return dns(it, p, m) }
func client_SuperTrendSides_seq3(it *klines.Item, p, m int) []float64 { return tre(it, p, m) }
func client_SuperTrendSides_seq4(it *klines.Item, p, m int) []float64 {
	return Begin(1, tre(it, p, m), ups(it, p, m))
}
func client_SuperTrendSides_seq5(it *klines.Item, p, m int) []float64 {
	return Begin(-1, tre(it, p, m), dns(it, p, m))
}
func client_SuperTrendSides_post(it *klines.Item, p, m int, r utils.SideData) bool {
	return Signals(r, len(it.Candles), func(i int) bool {
		return At(Begin(1, tre(it, p, m), ups(it, p, m)), i) != 0
	}, func(i int) bool {
		return At(Begin(-1, tre(it, p, m), dns(it, p, m)), i) != 0
	})
}

// ---- TraderXO: which average was above last

// LastAt: 1 (-1) when the fast average was above (below) the slow one on the last bar where they differ, bar 0 apart.
func LastAt(f, s []float64, i int) int {
	if i < 1 {
		return 0
	}
	if At(f, i) > At(s, i) {
		return 1
	}
	if At(f, i) < At(s, i) {
		return -1
	}
	return LastAt(f, s, i-1)
}
func fast(it *klines.Item, p int) []float64 { return Ema(p, Close(it.Candles)) }

func client_TraderXOSides(it *klines.Item, f, s int) utils.SideData {
	return trend.NewTraderXO(it, f, s).AnalysisSide()
}

//vcg:props C14
func client_TraderXOSides_pre(it *klines.Item, f, s int) bool { return Ok(it) && f >= 1 && s >= 1 }
func client_TraderXOSides_inv1(it *klines.Item, f, s int, a, b, i int) bool {
	return a >= 0 && b >= 0 && Iff(a > 0, LastAt(fast(it, f), fast(it, s), i-1) == 1) &&
		Iff(b > 0, LastAt(fast(it, f), fast(it, s), i-1) == -1)
}
func client_TraderXOSides_inv2(it *klines.Item, f, s int, v []bool, i int) bool {
	return All(0, MinI(i, len(v)), func(k int) bool { return v[k] == (k >= 1 && At(fast(it, f), k) > At(fast(it, s), k)) })
}
func client_TraderXOSides_inv3(it *klines.Item, f, s int, v []bool, i int) bool {
	return All(0, MinI(i, len(v)), func(k int) bool { return v[k] == (k >= 1 && At(fast(it, f), k) < At(fast(it, s), k)) })
}
func client_TraderXOSides_post(it *klines.Item, f, s int, r utils.SideData) bool {
	return Signals(r, len(it.Candles), func(i int) bool {
		return At(fast(it, f), i) > At(fast(it, s), i) && LastAt(fast(it, f), fast(it, s), i-1) != 1
	}, func(i int) bool {
		return At(fast(it, f), i) < At(fast(it, s), i) && LastAt(fast(it, f), fast(it, s), i-1) != -1
	})
}
