// Package kl: contracts of the kline accessors.
package kl

import (
	"time"

	. "github.com/idoall/stockindicator/zzverif/ks"
	. "github.com/idoall/stockindicator/zzverif/spec"
	"github.com/idoall/stockindicator/utils/klines"
)

const Target = "utils/klines"
const Props = "C11"

func Item_GetOHLC_pre(e *klines.Item) bool { return Ok(e) }
func Item_GetOHLC_post(e *klines.Item, r *klines.OHLC) bool {
	return r != nil && EqSeq(r.Open, Open(e.Candles)) && EqSeq(r.High, High(e.Candles)) && EqSeq(r.Low, Low(e.Candles)) &&
		EqSeq(r.Close, Close(e.Candles)) && EqSeq(r.Volume, Volume(e.Candles)) &&
		len(r.BullMarket) == len(e.Candles) && len(r.TimeUnix) == len(e.Candles) &&
		All(0, len(e.Candles), func(i int) bool {
			return r.BullMarket[i] == e.Candles[i].IsBullMarket && r.TimeUnix[i] == e.Candles[i].TimeUnix
		})
}

func Item_HL2_pre(e *klines.Item) bool { return Ok(e) }
func Item_HL2_post(e *klines.Item, r []float64) bool {
	return EqSeq(r, Seq(len(e.Candles), func(i int) float64 { return (e.Candles[i].High + e.Candles[i].Low) / 2 }))
}

func Item_HLC3_pre(e *klines.Item) bool { return Ok(e) }
func Item_HLC3_post(e *klines.Item, r []float64) bool {
	return EqSeq(r, Seq(len(e.Candles), func(i int) float64 {
		return (e.Candles[i].High + e.Candles[i].Low + e.Candles[i].Close) / 3
	}))
}

func Item_OHLC4_pre(e *klines.Item) bool { return Ok(e) }
func Item_OHLC4_post(e *klines.Item, r []float64) bool {
	return EqSeq(r, Seq(len(e.Candles), func(i int) float64 {
		return (e.Candles[i].Open + e.Candles[i].High + e.Candles[i].Low + e.Candles[i].Close) / 4
	}))
}

// haOpen: the middle of the body of the bar before from the third bar on, of the bar itself before.
func haOpen(cs []*klines.Candle, i int) float64 {
	return IfF(i >= 2, (At(Open(cs), i-1)+At(Close(cs), i-1))/2, (At(Open(cs), i)+At(Close(cs), i))/2)
}
func Item_ToHeikinAshi_pre(e *klines.Item) bool { return Valid(e) }
func Item_ToHeikinAshi_post(e *klines.Item, r *klines.Item) bool {
	return r != nil && r.Interval == e.Interval && len(r.Candles) == len(e.Candles) && heikin(e.Candles, r.Candles, len(r.Candles))
}
func heikin(cs, r []*klines.Candle, n int) bool {
	return All(0, n, func(i int) bool {
		return r[i] != nil && r[i].TimeUnix == cs[i].TimeUnix && Eq(r[i].Open, haOpen(cs, i)) &&
			Eq(r[i].Close, (cs[i].Open+cs[i].High+cs[i].Low+cs[i].Close)/4) &&
			Eq(r[i].High, Max(cs[i].High, Max(haOpen(cs, i), cs[i].Close))) &&
			Eq(r[i].Low, Min(cs[i].Low, Min(haOpen(cs, i), cs[i].Close))) &&
			Eq(r[i].ChangePercent, (cs[i].Close-cs[i].Open)/cs[i].Open) &&
			r[i].IsBullMarket == (cs[i].Close > cs[i].Open)
	})
}
func Item_ToHeikinAshi_inv1(e *klines.Item, r []*klines.Candle, i int) bool {
	return i <= len(r) && i <= len(e.Candles) && heikin(e.Candles, r, i)
}

// ---- candles inside a time range

// inside: at the start, or after it and before the end.
func inside(cs []*klines.Candle, a, b int64, i int) bool {
	return cs[i].TimeUnix == a || cs[i].TimeUnix > a && cs[i].TimeUnix < b
}

// Kept: how many of the first n candles are inside.
func Kept(cs []*klines.Candle, a, b int64, n int) int {
	if n <= 0 {
		return 0
	}
	if inside(cs, a, b, n-1) {
		return Kept(cs, a, b, n-1) + 1
	}
	return Kept(cs, a, b, n-1)
}
func same(x, y *klines.Candle) bool {
	return x != nil && x.TimeUnix == y.TimeUnix && Eq(x.Open, y.Open) && Eq(x.High, y.High) && Eq(x.Low, y.Low) &&
		Eq(x.Close, y.Close) && Eq(x.Volume, y.Volume) && x.IsBullMarket == y.IsBullMarket
}
func client_OutsideCopy(it *klines.Item, a, b int64) *klines.Item {
	return it.RemoveOutsideRangeCopy(time.Unix(a, 0), time.Unix(b, 0))
}
func client_OutsideCopy_pre(it *klines.Item, a, b int64) bool { return Ok(it) }
func client_OutsideCopy_inv1(it *klines.Item, a, b int64, r []*klines.Candle, i int) bool {
	return All(0, MinI(i, len(r)), func(j int) bool { return same(r[j], it.Candles[j]) })
}
func client_OutsideCopy_inv2(it *klines.Item, a, b int64, r []*klines.Candle, i int) bool {
	return i >= 0 && All(i, len(r), func(j int) bool { return same(r[j], it.Candles[j]) })
}
func client_OutsideCopy_inv3(it *klines.Item, a, b int64, r []*klines.Candle, t, i int) bool {
	return t >= 0 && t <= i && t == Kept(it.Candles, a, b, i) && kept(it.Candles, r, a, b, t, i)
}
func kept(cs, r []*klines.Candle, a, b int64, t, n int) bool {
	return All(0, n, func(j int) bool {
		return Imp(inside(cs, a, b, j), Kept(cs, a, b, j) >= 0 && Kept(cs, a, b, j) < t && same(r[Kept(cs, a, b, j)], cs[j]))
	})
}
func client_OutsideCopy_post(it *klines.Item, a, b int64, r *klines.Item) bool {
	return r != nil && len(r.Candles) == Kept(it.Candles, a, b, len(it.Candles)) &&
		kept(it.Candles, r.Candles, a, b, len(r.Candles), len(it.Candles))
}
func client_OutsideCopy_gen(r *Rand) (*klines.Item, int64, int64) {
	it := &klines.Item{Interval: klines.OneMin, Candles: Candles(r, r.N())}
	at := func() int64 {
		if len(it.Candles) == 0 {
			return int64(r.Intn(100))
		}
		return it.Candles[r.Intn(len(it.Candles))].TimeUnix + int64(r.Intn(3)-1)
	}
	return it, at(), at()
}
