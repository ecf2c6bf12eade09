// Package tw: the trend package's averages over candle lists.
package tw

import (
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	. "github.com/idoall/stockindicator/zzverif/ks"
	. "github.com/idoall/stockindicator/zzverif/spec"
)

const Target = "trend"
const Props = "C13"

func stamped(it *klines.Item, i int, t time.Time) bool {
	return t == time.Unix(it.Candles[i].TimeUnix, 0)
}

func client_Sma(it *klines.Item, p int) []trend.SmaData { return trend.NewSma(it, p).GetData() }
func client_Sma_pre(it *klines.Item, p int) bool        { return Ok(it) && p >= 1 }
func client_Sma_post(it *klines.Item, p int, r []trend.SmaData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(Sma(p, Close(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_SmaValues(it *klines.Item, p int) []float64 { return trend.NewSma(it, p).GetValues() }
func client_SmaValues_pre(it *klines.Item, p int) bool  { return Ok(it) && p >= 1 }
func client_SmaValues_post(it *klines.Item, p int, r []float64) bool {
	return EqSeq(r, Sma(p, Close(it.Candles)))
}

func client_Ma(it *klines.Item, p int) []trend.MaData { return trend.NewMa(it, p).GetData() }
func client_Ma_pre(it *klines.Item, p int) bool       { return Ok(it) && p >= 1 }
func client_Ma_post(it *klines.Item, p int, r []trend.MaData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(Sma(p, Close(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}

func client_Ema(it *klines.Item, p int) []trend.EmaData { return trend.NewEma(it, p).GetData() }
func client_Ema_pre(it *klines.Item, p int) bool        { return Ok(it) && p >= 1 }
func client_Ema_post(it *klines.Item, p int, r []trend.EmaData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(Ema(p, Close(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_EmaValues(it *klines.Item, p int) []float64 { return trend.NewEma(it, p).GetValues() }
func client_EmaValues_pre(it *klines.Item, p int) bool  { return Ok(it) && p >= 1 }
func client_EmaValues_post(it *klines.Item, p int, r []float64) bool {
	return EqSeq(r, Ema(p, Close(it.Candles)))
}

func client_Rma(it *klines.Item, p int) []trend.RmaData { return trend.NewRma(it, p).GetData() }
func client_Rma_pre(it *klines.Item, p int) bool        { return Ok(it) && p >= 1 }
func client_Rma_post(it *klines.Item, p int, r []trend.RmaData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(Rma(p, Close(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}

//vcg:opaque
func DemaSeq(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return 2*At(Ema(p, v), i) - At(Ema(p, Ema(p, v)), i) })
}

func client_Dema(it *klines.Item, p int) []*trend.DemaData { return trend.NewDema(it, p).GetData() }
func client_Dema_pre(it *klines.Item, p int) bool          { return Ok(it) && p >= 1 }
func client_Dema_seq1(it *klines.Item, p int) []float64    { return DemaSeq(p, Close(it.Candles)) }
func client_Dema_post(it *klines.Item, p int, r []*trend.DemaData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return r[i] != nil && Eq(r[i].Value, At(DemaSeq(p, Close(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_DemaValues(it *klines.Item, p int) []float64      { return trend.NewDema(it, p).GetValues() }
func client_DemaValues_pre(it *klines.Item, p int) bool       { return Ok(it) && p >= 1 }
func client_DemaValues_seq1(it *klines.Item, p int) []float64 { return DemaSeq(p, Close(it.Candles)) }
func client_DemaValues_post(it *klines.Item, p int, r []float64) bool {
	return EqSeq(r, DemaSeq(p, Close(it.Candles)))
}

func client_Atr(it *klines.Item, p int) []trend.AtrData { return trend.NewAtr(it, p).GetData() }
func client_Atr_pre(it *klines.Item, p int) bool        { return Ok(it) && p >= 1 }
func client_Atr_seq1(it *klines.Item, p int) []float64  { return TR0(it.Candles) }
func client_Atr_post(it *klines.Item, p int, r []trend.AtrData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].TR, At(TR0(it.Candles), i)) && Eq(r[i].Atr, At(Rma(p, TR0(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_AtrValues(it *klines.Item, p int) ([]float64, []float64) {
	return trend.NewAtr(it, p).GetValues()
}
func client_AtrValues_pre(it *klines.Item, p int) bool       { return Ok(it) && p >= 1 }
func client_AtrValues_seq1(it *klines.Item, p int) []float64 { return TR0(it.Candles) }
func client_AtrValues_seq2(it *klines.Item, p int) []float64 { return Rma(p, TR0(it.Candles)) }
func client_AtrValues_post(it *klines.Item, p int, tr, atr []float64) bool {
	return EqSeq(tr, TR0(it.Candles)) && EqSeq(atr, Rma(p, TR0(it.Candles)))
}
func client_ChandelierExit(it *klines.Item, p, n int) ([]float64, []float64) {
	return trend.NewAtr(it, p).ChandelierExit(n)
}
func client_ChandelierExit_pre(it *klines.Item, p, n int) bool       { return Ok(it) && p >= 1 && n >= 1 }
func client_ChandelierExit_seq1(it *klines.Item, p, n int) []float64 { return TR0(it.Candles) }
func client_ChandelierExit_seq2(it *klines.Item, p, n int) []float64 { return Rma(p, TR0(it.Candles)) }
func client_ChandelierExit_post(it *klines.Item, p, n int, long, short []float64) bool {
	return len(long) == len(it.Candles) && len(short) == len(it.Candles) && All(0, len(long), func(i int) bool {
		return Eq(long[i], At(HighestIn(n, High(it.Candles)), i)-3*At(Rma(p, TR0(it.Candles)), i)) &&
			Eq(short[i], At(LowestIn(n, Low(it.Candles)), i)+3*At(Rma(p, TR0(it.Candles)), i))
	})
}

// ---- default parameters

func client_DefaultSma(it *klines.Item) []trend.SmaData { return trend.NewDefaultSma(it).GetData() }
func client_DefaultSma_pre(it *klines.Item) bool { return client_Sma_pre(it, 9) }
func client_DefaultSma_post(it *klines.Item, r []trend.SmaData) bool { return client_Sma_post(it, 9, r) }

func client_DefaultMa(it *klines.Item) []trend.MaData { return trend.NewDefaultMa(it).GetData() }
func client_DefaultMa_pre(it *klines.Item) bool { return client_Ma_pre(it, 20) }
func client_DefaultMa_post(it *klines.Item, r []trend.MaData) bool { return client_Ma_post(it, 20, r) }

func client_DefaultEma(it *klines.Item) []trend.EmaData { return trend.NewDefaultEma(it).GetData() }
func client_DefaultEma_pre(it *klines.Item) bool { return client_Ema_pre(it, 5) }
func client_DefaultEma_post(it *klines.Item, r []trend.EmaData) bool { return client_Ema_post(it, 5, r) }

func client_DefaultRma(it *klines.Item) []trend.RmaData { return trend.NewDefaultRma(it).GetData() }
func client_DefaultRma_pre(it *klines.Item) bool { return client_Rma_pre(it, 13) }
func client_DefaultRma_post(it *klines.Item, r []trend.RmaData) bool { return client_Rma_post(it, 13, r) }

func client_DefaultDema(it *klines.Item) []*trend.DemaData { return trend.NewDefaultDema(it).GetData() }
func client_DefaultDema_pre(it *klines.Item) bool { return client_Dema_pre(it, 20) }
func client_DefaultDema_seq1(it *klines.Item) []float64 { return client_Dema_seq1(it, 20) }
func client_DefaultDema_post(it *klines.Item, r []*trend.DemaData) bool { return client_Dema_post(it, 20, r) }

func client_DefaultAtr(it *klines.Item) []trend.AtrData { return trend.NewDefaultAtr(it).GetData() }
func client_DefaultAtr_pre(it *klines.Item) bool { return client_Atr_pre(it, 14) }
func client_DefaultAtr_seq1(it *klines.Item) []float64 { return client_Atr_seq1(it, 14) }
func client_DefaultAtr_post(it *klines.Item, r []trend.AtrData) bool { return client_Atr_post(it, 14, r) }
