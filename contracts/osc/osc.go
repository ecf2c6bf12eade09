// Package osc: oscillators.
package osc

import (
	"time"

	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/volume"
	. "github.com/idoall/stockindicator/zzverif/ks"
	. "github.com/idoall/stockindicator/zzverif/spec"
)

const Target = "oscillator"
const Props = "C16"

func stamped(it *klines.Item, i int, t time.Time) bool {
	return t == time.Unix(it.Candles[i].TimeUnix, 0)
}

// Div: division where a zero divisor yields 0.
func Div(a, b float64) float64 { return IfF(b != 0, a/b, 0) }

// Zero: the constant 0 series.
//vcg:named
func Zero(n int) []float64 { return Seq(n, func(i int) float64 { return 0 }) }

//vcg:opaque
func Gap(fast, slow int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return At(Ema(fast, v), i) - At(Ema(slow, v), i) })
}

func client_AbsolutePriceOscillator(it *klines.Item) []oscillator.AbsolutePriceOscillatorData {
	return oscillator.NewAbsolutePriceOscillator(it).GetData()
}
func client_AbsolutePriceOscillator_pre(it *klines.Item) bool { return Ok(it) }
func client_AbsolutePriceOscillator_seq1(it *klines.Item) []float64 {
	return Gap(14, 30, Close(it.Candles))
}
func client_AbsolutePriceOscillator_post(it *klines.Item, r []oscillator.AbsolutePriceOscillatorData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(Gap(14, 30, Close(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_AbsolutePriceOscillatorSides(it *klines.Item) utils.SideData {
	return oscillator.NewAbsolutePriceOscillator(it).AnalysisSide()
}

//vcg:props C14
func client_AbsolutePriceOscillatorSides_pre(it *klines.Item) bool { return Ok(it) }
func client_AbsolutePriceOscillatorSides_seq1(it *klines.Item) []float64 {
	return Gap(14, 30, Close(it.Candles))
}
func client_AbsolutePriceOscillatorSides_post(it *klines.Item, r utils.SideData) bool {
	return zeroCrosses(r, Gap(14, 30, Close(it.Candles)))
}

// zeroCrosses: Buy where a rises above 0, Sell where it falls below.
func zeroCrosses(r utils.SideData, a []float64) bool {
	return Signals(r, len(a), func(i int) bool { return At(a, i) > 0 && At(a, i-1) < 0 }, func(i int) bool { return At(a, i) < 0 && At(a, i-1) > 0 })
}

//vcg:opaque
func Median(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return (At(High(cs), i) + At(Low(cs), i)) / 2 })
}

//vcg:opaque
func Ao(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return At(Sma(5, Median(cs)), i) - At(Sma(34, Median(cs)), i) })
}
func client_AwesomeOscillator(it *klines.Item) []oscillator.AwesomeOscillatorData {
	return oscillator.NewAwesomeOscillator(it).GetData()
}
func client_AwesomeOscillator_pre(it *klines.Item) bool       { return Ok(it) }
func client_AwesomeOscillator_seq1(it *klines.Item) []float64 { return Median(it.Candles) }
func client_AwesomeOscillator_seq2(it *klines.Item) []float64 { return Ao(it.Candles) }
func client_AwesomeOscillator_post(it *klines.Item, r []oscillator.AwesomeOscillatorData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(Ao(it.Candles), i)) && stamped(it, i, r[i].Time)
	})
}
func client_AwesomeOscillatorSides(it *klines.Item) utils.SideData {
	return oscillator.NewAwesomeOscillator(it).AnalysisSide()
}

//vcg:props C14
func client_AwesomeOscillatorSides_pre(it *klines.Item) bool       { return Ok(it) }
func client_AwesomeOscillatorSides_seq1(it *klines.Item) []float64 { return Median(it.Candles) }
func client_AwesomeOscillatorSides_seq2(it *klines.Item) []float64 { return Ao(it.Candles) }
func client_AwesomeOscillatorSides_post(it *klines.Item, r utils.SideData) bool {
	return zeroCrosses(r, Ao(it.Candles))
}

//vcg:opaque
func Mfv(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 {
		return Div((cs[i].Close-cs[i].Low)-(cs[i].High-cs[i].Close), cs[i].High-cs[i].Low) * cs[i].Volume
	})
}

// AD: accumulation/distribution line.
//vcg:opaque
func AD(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return P(Mfv(cs), i+1) })
}
func client_ADValues(it *klines.Item) []float64 { return volume.NewAccumulationDistribution(it).GetValues() }

//vcg:props C18
func client_ADValues_pre(it *klines.Item) bool       { return Valid(it) }
func client_ADValues_seq1(it *klines.Item) []float64 { return AD(it.Candles) }
func client_ADValues_post(it *klines.Item, r []float64) bool {
	return EqSeq(r, AD(it.Candles))
}

func client_ChaikinOscillator(it *klines.Item, fast, slow int) []oscillator.ChaikinOscillatorData {
	return oscillator.NewChaikinOscillator(it, fast, slow).GetData()
}
func client_ChaikinOscillator_pre(it *klines.Item, fast, slow int) bool {
	return Valid(it) && fast >= 1 && slow >= 1
}
func client_ChaikinOscillator_seq1(it *klines.Item, fast, slow int) []float64 { return AD(it.Candles) }
func client_ChaikinOscillator_seq2(it *klines.Item, fast, slow int) []float64 {
	return Gap(fast, slow, AD(it.Candles))
}
func client_ChaikinOscillator_post(it *klines.Item, fast, slow int, r []oscillator.ChaikinOscillatorData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].AD, At(AD(it.Candles), i)) && Eq(r[i].Value, At(Gap(fast, slow, AD(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_ChaikinOscillatorSides(it *klines.Item, fast, slow int) utils.SideData {
	return oscillator.NewChaikinOscillator(it, fast, slow).AnalysisSide()
}

//vcg:props C14
func client_ChaikinOscillatorSides_pre(it *klines.Item, fast, slow int) bool {
	return Valid(it) && fast >= 1 && slow >= 1
}
func client_ChaikinOscillatorSides_seq1(it *klines.Item, fast, slow int) []float64 {
	return AD(it.Candles)
}
func client_ChaikinOscillatorSides_seq2(it *klines.Item, fast, slow int) []float64 {
	return Gap(fast, slow, AD(it.Candles))
}
func client_ChaikinOscillatorSides_post(it *klines.Item, fast, slow int, r utils.SideData) bool {
	return zeroCrosses(r, Gap(fast, slow, AD(it.Candles)))
}

// PctGap: distance of the fast average from the slow one in percent of the slow one.
//vcg:opaque
func PctGap(fast, slow int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return Div(At(Ema(fast, v), i)-At(Ema(slow, v), i), At(Ema(slow, v), i)) * 100 })
}
func client_PercentagePriceOscillator(it *klines.Item, fast, slow, signal int) []oscillator.PercentagePriceOscillatorData {
	return oscillator.NewPercentagePriceOscillator(it, fast, slow, signal).GetData()
}
func client_PercentagePriceOscillator_pre(it *klines.Item, fast, slow, signal int) bool {
	return Ok(it) && fast >= 1 && slow >= 1 && signal >= 1
}
func client_PercentagePriceOscillator_seq1(it *klines.Item, fast, slow, signal int) []float64 {
	return PctGap(fast, slow, Close(it.Candles))
}
func client_PercentagePriceOscillator_post(it *klines.Item, fast, slow, signal int, r []oscillator.PercentagePriceOscillatorData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].PPO, At(PctGap(fast, slow, Close(it.Candles)), i)) &&
			Eq(r[i].Signal, At(Ema(signal, PctGap(fast, slow, Close(it.Candles))), i)) &&
			Eq(r[i].Histogram, At(PctGap(fast, slow, Close(it.Candles)), i)-At(Ema(signal, PctGap(fast, slow, Close(it.Candles))), i)) &&
			stamped(it, i, r[i].Time)
	})
}
func client_PercentagePriceOscillatorSides(it *klines.Item, fast, slow, signal int) utils.SideData {
	return oscillator.NewPercentagePriceOscillator(it, fast, slow, signal).AnalysisSide()
}

//vcg:props C14
func client_PercentagePriceOscillatorSides_pre(it *klines.Item, fast, slow, signal int) bool {
	return Ok(it) && fast >= 1 && slow >= 1 && signal >= 1
}
func client_PercentagePriceOscillatorSides_seq1(it *klines.Item, fast, slow, signal int) []float64 {
	return PctGap(fast, slow, Close(it.Candles))
}
func client_PercentagePriceOscillatorSides_post(it *klines.Item, fast, slow, signal int, r utils.SideData) bool {
	return Crosses(r, PctGap(fast, slow, Close(it.Candles)), Ema(signal, PctGap(fast, slow, Close(it.Candles))))
}

// StochK: position of the close in the range of the last p bars, in percent (0 when the range is empty).
//vcg:opaque
func StochK(p int, c, h, l []float64) []float64 {
	return Seq(len(c), func(i int) float64 {
		return Div(At(c, i)-At(LowestIn(p, l), i), At(HighestIn(p, h), i)-At(LowestIn(p, l), i)) * 100
	})
}
func stochK(it *klines.Item, p int) []float64 {
	return StochK(p, Close(it.Candles), High(it.Candles), Low(it.Candles))
}
func client_StochasticOscillator(it *klines.Item, p int) []oscillator.StochasticOscillatorData {
	return oscillator.NewStochasticOscillator(it, p).GetData()
}
func client_StochasticOscillator_pre(it *klines.Item, p int) bool       { return Ok(it) && p >= 1 }
func client_StochasticOscillator_seq1(it *klines.Item, p int) []float64 { return stochK(it, p) }
func client_StochasticOscillator_post(it *klines.Item, p int, r []oscillator.StochasticOscillatorData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].K, At(stochK(it, p), i)) && Eq(r[i].D, At(Sma(3, stochK(it, p)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_StochasticOscillatorValues(it *klines.Item, p int) ([]float64, []float64) {
	return oscillator.NewStochasticOscillator(it, p).GetValues()
}
func client_StochasticOscillatorValues_pre(it *klines.Item, p int) bool       { return Ok(it) && p >= 1 }
func client_StochasticOscillatorValues_seq1(it *klines.Item, p int) []float64 { return stochK(it, p) }
func client_StochasticOscillatorValues_post(it *klines.Item, p int, k, d []float64) bool {
	return EqSeq(k, stochK(it, p)) && EqSeq(d, Sma(3, stochK(it, p)))
}
func client_StochasticOscillatorSides(it *klines.Item, p int) utils.SideData {
	return oscillator.NewStochasticOscillator(it, p).AnalysisSide()
}

//vcg:props C14
func client_StochasticOscillatorSides_pre(it *klines.Item, p int) bool       { return Ok(it) && p >= 1 }
func client_StochasticOscillatorSides_seq1(it *klines.Item, p int) []float64 { return stochK(it, p) }
func client_StochasticOscillatorSides_post(it *klines.Item, p int, r utils.SideData) bool {
	return Crosses(r, stochK(it, p), Sma(3, stochK(it, p)))
}

func client_VolumeOscillator(it *klines.Item, short, long int) []oscillator.VolumeOscillatorData {
	return oscillator.NewVolumeOscillator(it, short, long).GetData()
}
func client_VolumeOscillator_pre(it *klines.Item, short, long int) bool {
	return Ok(it) && short >= 1 && long >= 1
}
func client_VolumeOscillator_seq1(it *klines.Item, short, long int) []float64 {
	return Volume(it.Candles)
}
func client_VolumeOscillator_seq2(it *klines.Item, short, long int) []float64 {
	return PctGap(short, long, Volume(it.Candles))
}
func client_VolumeOscillator_post(it *klines.Item, short, long int, r []oscillator.VolumeOscillatorData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(PctGap(short, long, Volume(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}
func client_VolumeOscillatorValues(it *klines.Item, short, long int) []float64 {
	return oscillator.NewVolumeOscillator(it, short, long).GetValues()
}
func client_VolumeOscillatorValues_pre(it *klines.Item, short, long int) bool {
	return Ok(it) && short >= 1 && long >= 1
}
func client_VolumeOscillatorValues_seq1(it *klines.Item, short, long int) []float64 {
	return Volume(it.Candles)
}
func client_VolumeOscillatorValues_seq2(it *klines.Item, short, long int) []float64 {
	return PctGap(short, long, Volume(it.Candles))
}
func client_VolumeOscillatorValues_post(it *klines.Item, short, long int, r []float64) bool {
	return EqSeq(r, PctGap(short, long, Volume(it.Candles)))
}

// Wr: distance of the close from the highest high, in percent of the range and negative (0 when the range is empty).
//vcg:opaque
func Wr(p int, c, h, l []float64) []float64 {
	return Seq(len(c), func(i int) float64 {
		return Div(At(HighestIn(p, h), i)-At(c, i), At(HighestIn(p, h), i)-At(LowestIn(p, l), i)) * -100
	})
}
func wr(it *klines.Item, p int) []float64 {
	return Wr(p, Close(it.Candles), High(it.Candles), Low(it.Candles))
}
func client_WilliamsR(it *klines.Item, p int) []oscillator.WilliamsRData {
	return oscillator.NewWilliamsR(it, p).GetData()
}
func client_WilliamsR_pre(it *klines.Item, p int) bool       { return Ok(it) && p >= 1 }
func client_WilliamsR_seq1(it *klines.Item, p int) []float64 { return wr(it, p) }
func client_WilliamsR_post(it *klines.Item, p int, r []oscillator.WilliamsRData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(wr(it, p), i)) && stamped(it, i, r[i].Time)
	})
}
func client_WilliamsRSides(it *klines.Item, p int) utils.SideData {
	return oscillator.NewWilliamsR(it, p).AnalysisSide()
}

//vcg:props C14
func client_WilliamsRSides_pre(it *klines.Item, p int) bool       { return Ok(it) && p >= 1 }
func client_WilliamsRSides_seq1(it *klines.Item, p int) []float64 { return wr(it, p) }
func client_WilliamsRSides_post(it *klines.Item, p int, r utils.SideData) bool {
	return Signals(r, len(it.Candles), func(i int) bool { return At(wr(it, p), i) < -80 && At(wr(it, p), i-1) > -80 },
		func(i int) bool { return At(wr(it, p), i) > -20 && At(wr(it, p), i-1) < -20 })
}

// MidRange: middle of the range of the last p bars.
//vcg:opaque
func MidRange(p int, h, l []float64) []float64 {
	return Seq(len(h), func(i int) float64 { return (At(HighestIn(p, h), i) + At(LowestIn(p, l), i)) / 2 })
}
func midRange(it *klines.Item, p int) []float64 { return MidRange(p, High(it.Candles), Low(it.Candles)) }

//vcg:opaque
func SpanA(conv int, h, l []float64) []float64 {
	return Seq(len(h), func(i int) float64 { return (At(MidRange(conv, h, l), i) + At(MidRange(26, h, l), i)) / 2 })
}
func spanA(it *klines.Item, p int) []float64 { return SpanA(p, High(it.Candles), Low(it.Candles)) }

func client_IchimokuCloud(it *klines.Item, conv, spanB, lag int) []oscillator.IchimokuCloudData {
	return oscillator.NewIchimokuCloud(it, conv, spanB, lag).GetData()
}
func client_IchimokuCloud_pre(it *klines.Item, conv, spanB, lag int) bool {
	return Ok(it) && conv >= 1 && spanB >= 1 && lag >= 0
}
func client_IchimokuCloud_seq1(it *klines.Item, conv, spanB, lag int) []float64 {
	return midRange(it, conv)
}
func client_IchimokuCloud_seq2(it *klines.Item, conv, spanB, lag int) []float64 {
	return midRange(it, 26)
}
func client_IchimokuCloud_seq3(it *klines.Item, conv, spanB, lag int) []float64 {
	return spanA(it, conv)
}
func client_IchimokuCloud_seq4(it *klines.Item, conv, spanB, lag int) []float64 {
	return midRange(it, spanB)
}
func client_IchimokuCloud_post(it *klines.Item, conv, spanB, lag int, r []oscillator.IchimokuCloudData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].ConversionLine, At(midRange(it, conv), i)) && Eq(r[i].BaseLine, At(midRange(it, 26), i)) &&
			Eq(r[i].LeadingSpanA, At(spanA(it, conv), i)) && Eq(r[i].LeadingSpanB, At(midRange(it, spanB), i)) &&
			Eq(r[i].LaggingLine, IfF(i >= lag, At(Close(it.Candles), i-lag), 0)) && stamped(it, i, r[i].Time)
	})
}
func client_IchimokuCloudSides(it *klines.Item, conv, spanB, lag int) utils.SideData {
	return oscillator.NewIchimokuCloud(it, conv, spanB, lag).AnalysisSide()
}

//vcg:props C14
func client_IchimokuCloudSides_pre(it *klines.Item, conv, spanB, lag int) bool {
	return Ok(it) && conv >= 1 && spanB >= 1 && lag >= 0
}
func client_IchimokuCloudSides_seq1(it *klines.Item, conv, spanB, lag int) []float64 {
	return midRange(it, conv)
}
func client_IchimokuCloudSides_seq2(it *klines.Item, conv, spanB, lag int) []float64 {
	return midRange(it, 26)
}
func client_IchimokuCloudSides_seq3(it *klines.Item, conv, spanB, lag int) []float64 {
	return spanA(it, conv)
}
func client_IchimokuCloudSides_seq4(it *klines.Item, conv, spanB, lag int) []float64 {
	return midRange(it, spanB)
}
func client_IchimokuCloudSides_post(it *klines.Item, conv, spanB, lag int, r utils.SideData) bool {
	return Signals(r, len(it.Candles), func(i int) bool {
		return i >= conv && At(Close(it.Candles), i) > At(spanA(it, conv), i) && At(Close(it.Candles), i) > At(midRange(it, spanB), i) &&
			At(Close(it.Candles), i-1) < At(spanA(it, conv), i-1) && At(Close(it.Candles), i-1) < At(midRange(it, spanB), i-1)
	}, func(i int) bool {
		return i >= conv && At(Close(it.Candles), i) < At(spanA(it, conv), i) && At(Close(it.Candles), i) < At(midRange(it, spanB), i) &&
			At(Close(it.Candles), i-1) > At(spanA(it, conv), i-1) && At(Close(it.Candles), i-1) > At(midRange(it, spanB), i-1)
	})
}

func client_Camarilla(it *klines.Item, p int) []*oscillator.CamarillaData {
	return oscillator.NewCamarilla(it, p).GetData()
}
func client_Camarilla_pre(it *klines.Item, p int) bool { return Valid(it) && p >= 1 }
func client_Camarilla_post(it *klines.Item, p int, r []*oscillator.CamarillaData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return r[i] != nil && stamped(it, i, r[i].Time) && Eq(r[i].EMA, At(Ema(p, Close(it.Candles)), i)) &&
			levels(r[i], it.Candles[i].High, it.Candles[i].Low, it.Candles[i].Close)
	})
}
func levels(d *oscillator.CamarillaData, h, l, c float64) bool {
	return Eq(d.Pivot, (h+l+c)/3) &&
		Eq(d.High1, c+(h-l)*1.1/12) && Eq(d.Low1, c-(h-l)*1.1/12) &&
		Eq(d.High2, c+(h-l)*1.1/6) && Eq(d.Low2, c-(h-l)*1.1/6) &&
		Eq(d.High3, c+(h-l)*1.1/4) && Eq(d.Low3, c-(h-l)*1.1/4) &&
		Eq(d.High4, c+(h-l)*1.1/2) && Eq(d.Low4, c-(h-l)*1.1/2) &&
		Eq(d.High5, h/l*c) && Eq(d.Low5, c-(d.High5-c)) &&
		Eq(d.High6, d.High5+1.168*(d.High5-d.High4)) && Eq(d.Low6, c-(d.High6-c))
}

// ---- default parameters

func client_DefaultChaikinOscillator(it *klines.Item) []oscillator.ChaikinOscillatorData { return oscillator.NewDefaultChaikinOscillator(it).GetData() }
func client_DefaultChaikinOscillator_pre(it *klines.Item) bool { return client_ChaikinOscillator_pre(it, 3, 10) }
func client_DefaultChaikinOscillator_seq1(it *klines.Item) []float64 { return client_ChaikinOscillator_seq1(it, 3, 10) }
func client_DefaultChaikinOscillator_seq2(it *klines.Item) []float64 { return client_ChaikinOscillator_seq2(it, 3, 10) }
func client_DefaultChaikinOscillator_post(it *klines.Item, r []oscillator.ChaikinOscillatorData) bool { return client_ChaikinOscillator_post(it, 3, 10, r) }

func client_DefaultStochasticOscillator(it *klines.Item) []oscillator.StochasticOscillatorData { return oscillator.NewDefaultStochasticOscillator(it).GetData() }
func client_DefaultStochasticOscillator_pre(it *klines.Item) bool { return client_StochasticOscillator_pre(it, 14) }
func client_DefaultStochasticOscillator_seq1(it *klines.Item) []float64 { return client_StochasticOscillator_seq1(it, 14) }
func client_DefaultStochasticOscillator_post(it *klines.Item, r []oscillator.StochasticOscillatorData) bool { return client_StochasticOscillator_post(it, 14, r) }

func client_DefaultIchimokuCloud(it *klines.Item) []oscillator.IchimokuCloudData { return oscillator.NewDefaultIchimokuCloud(it).GetData() }
func client_DefaultIchimokuCloud_pre(it *klines.Item) bool { return client_IchimokuCloud_pre(it, 20, 60, 120) }
func client_DefaultIchimokuCloud_seq1(it *klines.Item) []float64 { return client_IchimokuCloud_seq1(it, 20, 60, 120) }
func client_DefaultIchimokuCloud_seq2(it *klines.Item) []float64 { return client_IchimokuCloud_seq2(it, 20, 60, 120) }
func client_DefaultIchimokuCloud_seq3(it *klines.Item) []float64 { return client_IchimokuCloud_seq3(it, 20, 60, 120) }
func client_DefaultIchimokuCloud_seq4(it *klines.Item) []float64 { return client_IchimokuCloud_seq4(it, 20, 60, 120) }
func client_DefaultIchimokuCloud_post(it *klines.Item, r []oscillator.IchimokuCloudData) bool { return client_IchimokuCloud_post(it, 20, 60, 120, r) }

func client_DefaultPercentagePriceOscillator(it *klines.Item) []oscillator.PercentagePriceOscillatorData { return oscillator.NewDefaultPercentagePriceOscillator(it).GetData() }
func client_DefaultPercentagePriceOscillator_pre(it *klines.Item) bool { return client_PercentagePriceOscillator_pre(it, 12, 26, 9) }
func client_DefaultPercentagePriceOscillator_seq1(it *klines.Item) []float64 { return client_PercentagePriceOscillator_seq1(it, 12, 26, 9) }
func client_DefaultPercentagePriceOscillator_post(it *klines.Item, r []oscillator.PercentagePriceOscillatorData) bool { return client_PercentagePriceOscillator_post(it, 12, 26, 9, r) }

func client_DefaultCamarilla(it *klines.Item) []*oscillator.CamarillaData { return oscillator.NewDefaultCamarilla(it).GetData() }
func client_DefaultCamarilla_pre(it *klines.Item) bool { return client_Camarilla_pre(it, 8) }
func client_DefaultCamarilla_post(it *klines.Item, r []*oscillator.CamarillaData) bool { return client_Camarilla_post(it, 8, r) }

func client_DefaultWilliamsR(it *klines.Item) []oscillator.WilliamsRData { return oscillator.NewDefaultWilliamsR(it).GetData() }
func client_DefaultWilliamsR_pre(it *klines.Item) bool { return client_WilliamsR_pre(it, 14) }
func client_DefaultWilliamsR_seq1(it *klines.Item) []float64 { return client_WilliamsR_seq1(it, 14) }
func client_DefaultWilliamsR_post(it *klines.Item, r []oscillator.WilliamsRData) bool { return client_WilliamsR_post(it, 14, r) }

func client_DefaultVolumeOscillator(it *klines.Item) []oscillator.VolumeOscillatorData { return oscillator.NewDefaultVolumeOscillator(it).GetData() }
func client_DefaultVolumeOscillator_pre(it *klines.Item) bool { return client_VolumeOscillator_pre(it, 5, 10) }
func client_DefaultVolumeOscillator_seq1(it *klines.Item) []float64 { return client_VolumeOscillator_seq1(it, 5, 10) }
func client_DefaultVolumeOscillator_seq2(it *klines.Item) []float64 { return client_VolumeOscillator_seq2(it, 5, 10) }
func client_DefaultVolumeOscillator_post(it *klines.Item, r []oscillator.VolumeOscillatorData) bool { return client_VolumeOscillator_post(it, 5, 10, r) }
