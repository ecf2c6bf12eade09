// Package mom: momentum indicators of package trend.
package mom

import (
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	. "github.com/idoall/stockindicator/zzverif/ks"
	"github.com/idoall/stockindicator/zzverif/momta"
	. "github.com/idoall/stockindicator/zzverif/spec"
)

const Target = "trend"
const Props = "C17"

func stamped(it *klines.Item, i int, t time.Time) bool {
	return t == time.Unix(it.Candles[i].TimeUnix, 0)
}

// Hlc3: typical price.
//vcg:opaque
func Hlc3(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return (cs[i].High + cs[i].Low + cs[i].Close) / 3 })
}

// Dif: gap between the short and the long exponential average.
//vcg:opaque
func Dif(short, long int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return At(Ema(short, v), i) - At(Ema(long, v), i) })
}
func dif(it *klines.Item, short, long int) []float64 { return Dif(short, long, Close(it.Candles)) }
func dea(it *klines.Item, short, signal, long int) []float64 {
	return Ema(signal, dif(it, short, long))
}

func client_Macd(it *klines.Item, short, signal, long int) []trend.MacdData {
	return trend.NewMacd(it, short, signal, long).GetData()
}
func client_Macd_pre(it *klines.Item, short, signal, long int) bool {
	return Ok(it) && short >= 1 && signal >= 1 && long >= 1
}
func client_Macd_seq1(it *klines.Item, short, signal, long int) []float64 { return dif(it, short, long) }
func client_Macd_post(it *klines.Item, short, signal, long int, r []trend.MacdData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].DIF, At(dif(it, short, long), i)) && Eq(r[i].DEA, At(dea(it, short, signal, long), i)) &&
			Eq(r[i].Macd, (At(dif(it, short, long), i)-At(dea(it, short, signal, long), i))*2) && stamped(it, i, r[i].Time)
	})
}
func client_MacdDifs(it *klines.Item, short, signal, long int) []float64 {
	return trend.NewMacd(it, short, signal, long).GetDifs()
}
func client_MacdDifs_pre(it *klines.Item, short, signal, long int) bool {
	return Ok(it) && short >= 1 && signal >= 1 && long >= 1
}
func client_MacdDifs_seq1(it *klines.Item, short, signal, long int) []float64 {
	return dif(it, short, long)
}
func client_MacdDifs_post(it *klines.Item, short, signal, long int, r []float64) bool {
	return EqSeq(r, dif(it, short, long))
}
func client_MacdMACDs(it *klines.Item, short, signal, long int) []float64 {
	return trend.NewMacd(it, short, signal, long).GetMACDs()
}
func client_MacdMACDs_pre(it *klines.Item, short, signal, long int) bool {
	return Ok(it) && short >= 1 && signal >= 1 && long >= 1
}
func client_MacdMACDs_seq1(it *klines.Item, short, signal, long int) []float64 {
	return dif(it, short, long)
}
func client_MacdMACDs_post(it *klines.Item, short, signal, long int, r []float64) bool {
	return EqSeq(r, Seq(len(it.Candles), func(i int) float64 {
		return (At(dif(it, short, long), i) - At(dea(it, short, signal, long), i)) * 2
	}))
}
func client_MacdSides(it *klines.Item, short, signal, long int) utils.SideData {
	return trend.NewMacd(it, short, signal, long).AnalysisSide()
}

//vcg:props C14
func client_MacdSides_pre(it *klines.Item, short, signal, long int) bool {
	return Ok(it) && short >= 1 && signal >= 1 && long >= 1
}
func client_MacdSides_seq1(it *klines.Item, short, signal, long int) []float64 {
	return dif(it, short, long)
}
func client_MacdSides_post(it *klines.Item, short, signal, long int, r utils.SideData) bool {
	return Signals(r, len(it.Candles), func(i int) bool {
		return At(dif(it, short, long), i) > 0 && At(dea(it, short, signal, long), i) > 0 && At(dif(it, short, long), i) > At(dea(it, short, signal, long), i) &&
			At(dif(it, short, long), i-1) < At(dea(it, short, signal, long), i-1)
	}, func(i int) bool {
		return At(dif(it, short, long), i) < 0 && At(dea(it, short, signal, long), i) < 0 && At(dif(it, short, long), i) < At(dea(it, short, signal, long), i) &&
			At(dif(it, short, long), i-1) > At(dea(it, short, signal, long), i-1)
	})
}

// ---- commodity channel index

func client_Cci(it *klines.Item, p, sp int) []trend.CciData { return trend.NewCci(it, p, sp).GetData() }
func client_Cci_pre(it *klines.Item, p, sp int) bool         { return Ok(it) && p >= 1 && sp >= 1 }
func client_Cci_seq1(it *klines.Item, p, sp int) []float64   { return Hlc3(it.Candles) }
func client_Cci_post(it *klines.Item, p, sp int, r []trend.CciData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(momta.Cci(p, sp, Hlc3(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_CciValue(it *klines.Item, p, sp int) []float64      { return trend.NewCci(it, p, sp).GetValue() }
func client_CciValue_pre(it *klines.Item, p, sp int) bool       { return Ok(it) && p >= 1 && sp >= 1 }
func client_CciValue_seq1(it *klines.Item, p, sp int) []float64 { return Hlc3(it.Candles) }
func client_CciValue_post(it *klines.Item, p, sp int, r []float64) bool {
	return EqSeq(r, momta.Cci(p, sp, Hlc3(it.Candles)))
}
func client_CciSides(it *klines.Item, p, sp int) utils.SideData {
	return trend.NewCci(it, p, sp).AnalysisSide()
}

//vcg:props C14
func client_CciSides_pre(it *klines.Item, p, sp int) bool       { return Ok(it) && p >= 1 && sp >= 1 }
func client_CciSides_seq1(it *klines.Item, p, sp int) []float64 { return Hlc3(it.Candles) }
func client_CciSides_post(it *klines.Item, p, sp int, r utils.SideData) bool {
	return outside(r, momta.Cci(p, sp, Hlc3(it.Candles)), -100, 100)
}

// outside: Buy where a falls below lo, Sell where it rises above hi.
func outside(r utils.SideData, a []float64, lo, hi float64) bool {
	return len(r.Data) == len(a) && All(0, len(a), func(i int) bool {
		return i >= 1 && (Near(At(a, i), lo) || Near(At(a, i), hi) || Near(At(a, i-1), lo) || Near(At(a, i-1), hi)) ||
			r.Data[i] == SideOf(i >= 1 && At(a, i) < lo && At(a, i-1) > lo, i >= 1 && At(a, i) > hi && At(a, i-1) < hi)
	})
}

func client_AiCoinCCI(it *klines.Item, p int) []trend.AiCoinCCIData {
	return trend.NewAiCoinCCI(it, p).GetData()
}
func client_AiCoinCCI_pre(it *klines.Item, p int) bool { return Ok(it) && p >= 1 }
func client_AiCoinCCI_post(it *klines.Item, p int, r []trend.AiCoinCCIData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(momta.AiCci(p, Close(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_AiCoinCCIValue(it *klines.Item, p int) []float64 { return trend.NewAiCoinCCI(it, p).GetValue() }
func client_AiCoinCCIValue_pre(it *klines.Item, p int) bool  { return Ok(it) && p >= 1 }
func client_AiCoinCCIValue_post(it *klines.Item, p int, r []float64) bool {
	return EqSeq(r, momta.AiCci(p, Close(it.Candles)))
}
func client_AiCoinCCISides(it *klines.Item, p int) utils.SideData {
	return trend.NewAiCoinCCI(it, p).AnalysisSide()
}

//vcg:props C14
func client_AiCoinCCISides_pre(it *klines.Item, p int) bool { return Ok(it) && p >= 1 }
func client_AiCoinCCISides_post(it *klines.Item, p int, r utils.SideData) bool {
	return outside(r, momta.AiCci(p, Close(it.Candles)), -100, 100)
}

// ---- relative strength

// Gains, Losses: rises and falls of the price against the previous bar.
//vcg:opaque
func Gains(v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return IfF(i >= 1 && At(v, i)-At(v, i-1) > 0, At(v, i)-At(v, i-1), 0) })
}

//vcg:opaque
func Losses(v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return IfF(i >= 1 && At(v, i)-At(v, i-1) < 0, At(v, i-1)-At(v, i), 0) })
}

// Wilder: Wilder's average of g from bar p on, seeded with the mean of the first p changes.
func Wilder(p int, g []float64, i int) float64 {
	if i <= p {
		return P(g, i+1) / float64(p)
	}
	return (Wilder(p, g, i-1)*float64(p-1) + At(g, i)) / float64(p)
}
func strength(g, l float64) float64 {
	return IfF(!(-0.00000000000001 < g+l && g+l < 0.00000000000001), 100*(g/(g+l)), 0)
}

// Rsi: share of the average gain in the average movement, in percent (0 before bar p and for periods below 2).
//vcg:opaque
func Rsi(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(p >= 2 && i >= p, strength(Wilder(p, Gains(v), i), Wilder(p, Losses(v), i)), 0)
	})
}
func rsi(it *klines.Item, p int) []float64 { return Rsi(p, Close(it.Candles)) }

func Rsi_rsi_acc1(e *trend.Rsi, v []float64, p int, c int) float64 { return Wilder(p, Gains(v), c-1) }
func Rsi_rsi_acc2(e *trend.Rsi, v []float64, p int, c int) float64 { return Wilder(p, Losses(v), c-1) }
func Rsi_rsi_acc3(e *trend.Rsi, v []float64, p int, c int) float64 { return P(Gains(v), c) }
func Rsi_rsi_acc4(e *trend.Rsi, v []float64, p int, c int) float64 { return P(Losses(v), c) }
func Rsi_rsi_pre(e *trend.Rsi, v []float64, p int) bool            { return e != nil }
func Rsi_rsi_post(e *trend.Rsi, v []float64, p int, r []float64) bool {
	return EqSeq(r, Rsi(p, v))
}

func client_RsiValue(it *klines.Item, p int) []float64              { return trend.NewRsi(it, p).GetValue() }
func client_RsiValue_pre(it *klines.Item, p int) bool               { return Ok(it) }
func client_RsiValue_seq1(it *klines.Item, p int) []float64         { return rsi(it, p) }
func client_RsiValue_post(it *klines.Item, p int, r []float64) bool { return EqSeq(r, rsi(it, p)) }

func client_Rsi(it *klines.Item, p int) []trend.RsiData      { return trend.NewRsi(it, p).GetData() }
func client_Rsi_pre(it *klines.Item, p int) bool             { return Ok(it) }
func client_Rsi_seq1(it *klines.Item, p int) []float64       { return rsi(it, p) }
func client_Rsi_post(it *klines.Item, p int, r []trend.RsiData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(rsi(it, p), i)) && stamped(it, i, r[i].Time)
	})
}
func client_RsiSides(it *klines.Item, p int) utils.SideData { return trend.NewRsi(it, p).AnalysisSide() }

//vcg:props C14
func client_RsiSides_pre(it *klines.Item, p int) bool            { return Ok(it) }
func client_RsiSides_seq1(it *klines.Item, p int) []float64      { return rsi(it, p) }
func client_RsiSides_post(it *klines.Item, p int, r utils.SideData) bool {
	return Signals(r, len(it.Candles), func(i int) bool { return At(rsi(it, p), i) < 20 && At(rsi(it, p), i-1) > 20 },
		func(i int) bool { return At(rsi(it, p), i) < 80 && At(rsi(it, p), i-1) > 80 })
}

// ---- stochastic relative strength

//vcg:opaque
func Stoch(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(At(HighestIn(p, v), i)-At(LowestIn(p, v), i) != 0, (At(v, i)-At(LowestIn(p, v), i))/(At(HighestIn(p, v), i)-At(LowestIn(p, v), i)), 0) * 100
	})
}
func stoch(it *klines.Item, rl, sl int) []float64 { return Stoch(sl, rsi(it, rl)) }

func client_StochRsi(it *klines.Item, k, d, rl, sl int) []trend.StochRsiData {
	return trend.NewStochRsi(it, k, d, rl, sl).GetData()
}
func client_StochRsi_pre(it *klines.Item, k, d, rl, sl int) bool {
	return Ok(it) && k >= 1 && d >= 1 && sl >= 1
}
func client_StochRsi_seq1(it *klines.Item, k, d, rl, sl int) []float64 { return rsi(it, rl) }
func client_StochRsi_seq2(it *klines.Item, k, d, rl, sl int) []float64 { return stoch(it, rl, sl) }
func client_StochRsi_post(it *klines.Item, k, d, rl, sl int, r []trend.StochRsiData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].K, At(Ema(k, stoch(it, rl, sl)), i)) && Eq(r[i].D, At(Ema(d, Ema(k, stoch(it, rl, sl))), i)) && stamped(it, i, r[i].Time)
	})
}
func client_StochRsiSides(it *klines.Item, k, d, rl, sl int) utils.SideData {
	return trend.NewStochRsi(it, k, d, rl, sl).AnalysisSide()
}

//vcg:props C14
func client_StochRsiSides_pre(it *klines.Item, k, d, rl, sl int) bool {
	return Ok(it) && k >= 1 && d >= 1 && sl >= 1
}
func client_StochRsiSides_seq1(it *klines.Item, k, d, rl, sl int) []float64 { return rsi(it, rl) }
func client_StochRsiSides_seq2(it *klines.Item, k, d, rl, sl int) []float64 {
	return stoch(it, rl, sl)
}
func client_StochRsiSides_post(it *klines.Item, k, d, rl, sl int, r utils.SideData) bool {
	return Crosses(r, Ema(k, stoch(it, rl, sl)), Ema(d, Ema(k, stoch(it, rl, sl))))
}

// ---- Vegas tunnels and regression candles

func client_EMAVegas(it *klines.Item, p, s1, s2, l1, l2 int) []trend.EMAVegasData {
	return trend.NewEMAVegas(it, p, s1, s2, l1, l2).GetData()
}

//vcg:props C13
func client_EMAVegas_pre(it *klines.Item, p, s1, s2, l1, l2 int) bool {
	return Ok(it) && p >= 1 && s1 >= 1 && s2 >= 1 && l1 >= 1 && l2 >= 1
}
func client_EMAVegas_post(it *klines.Item, p, s1, s2, l1, l2 int, r []trend.EMAVegasData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(Ema(p, Close(it.Candles)), i)) &&
			Eq(r[i].Short1Value, At(Ema(s1, Close(it.Candles)), i)) && Eq(r[i].Short2Value, At(Ema(s2, Close(it.Candles)), i)) &&
			Eq(r[i].Long1Value, At(Ema(l1, Close(it.Candles)), i)) && Eq(r[i].Long2Value, At(Ema(l2, Close(it.Candles)), i)) &&
			stamped(it, i, r[i].Time)
	})
}

// ---- default parameters

func client_DefaultMacd(it *klines.Item) []trend.MacdData { return trend.NewDefaultMacd(it).GetData() }
func client_DefaultMacd_pre(it *klines.Item) bool { return client_Macd_pre(it, 12, 9, 26) }
func client_DefaultMacd_seq1(it *klines.Item) []float64 { return client_Macd_seq1(it, 12, 9, 26) }
func client_DefaultMacd_post(it *klines.Item, r []trend.MacdData) bool { return client_Macd_post(it, 12, 9, 26, r) }

func client_DefaultCci(it *klines.Item) []trend.CciData { return trend.NewDefaultCci(it).GetData() }
func client_DefaultCci_pre(it *klines.Item) bool { return client_Cci_pre(it, 20, 20) }
func client_DefaultCci_seq1(it *klines.Item) []float64 { return client_Cci_seq1(it, 20, 20) }
func client_DefaultCci_post(it *klines.Item, r []trend.CciData) bool { return client_Cci_post(it, 20, 20, r) }

func client_DefaultAiCoinCCI(it *klines.Item) []trend.AiCoinCCIData { return trend.NewDefaultAiCoinCCI(it).GetData() }
func client_DefaultAiCoinCCI_pre(it *klines.Item) bool { return client_AiCoinCCI_pre(it, 20) }
func client_DefaultAiCoinCCI_post(it *klines.Item, r []trend.AiCoinCCIData) bool { return client_AiCoinCCI_post(it, 20, r) }

func client_DefaultRsi(it *klines.Item) []trend.RsiData { return trend.NewDefaultRsi(it).GetData() }
func client_DefaultRsi_pre(it *klines.Item) bool { return client_Rsi_pre(it, 14) }
func client_DefaultRsi_seq1(it *klines.Item) []float64 { return client_Rsi_seq1(it, 14) }
func client_DefaultRsi_post(it *klines.Item, r []trend.RsiData) bool { return client_Rsi_post(it, 14, r) }

func client_DefaultStochRsi(it *klines.Item) []trend.StochRsiData { return trend.NewDefaultStochRsi(it).GetData() }
func client_DefaultStochRsi_pre(it *klines.Item) bool { return client_StochRsi_pre(it, 3, 3, 14, 14) }
func client_DefaultStochRsi_seq1(it *klines.Item) []float64 { return client_StochRsi_seq1(it, 3, 3, 14, 14) }
func client_DefaultStochRsi_seq2(it *klines.Item) []float64 { return client_StochRsi_seq2(it, 3, 3, 14, 14) }
func client_DefaultStochRsi_post(it *klines.Item, r []trend.StochRsiData) bool { return client_StochRsi_post(it, 3, 3, 14, 14, r) }

func client_DefaultEMAVegas(it *klines.Item) []trend.EMAVegasData { return trend.NewDefaultEMAVegas(it).GetData() }
//vcg:props C13
func client_DefaultEMAVegas_pre(it *klines.Item) bool { return client_EMAVegas_pre(it, 12, 144, 169, 575, 676) }
func client_DefaultEMAVegas_post(it *klines.Item, r []trend.EMAVegasData) bool { return client_EMAVegas_post(it, 12, 144, 169, 575, 676, r) }
