package vol

import (
	"time"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/volume"
	. "github.com/idoall/stockindicator/zzverif/ks"
	. "github.com/idoall/stockindicator/zzverif/spec"
)

const Target = "volume"
const Props = "C18"

func ObvAt(c, v []float64, i int) float64 {
	if i <= 0 {
		return 0
	}
	return ObvAt(c, v, i-1) + IfF(At(c, i) > At(c, i-1), At(v, i), IfF(At(c, i) < At(c, i-1), -At(v, i), 0))
}

func client_Obv(it *klines.Item) []volume.ObvData { return volume.NewObv(it).GetData() }
func client_Obv_pre(it *klines.Item) bool { return Ok(it) }
func client_Obv_post(it *klines.Item, r []volume.ObvData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, ObvAt(Close(it.Candles), Volume(it.Candles), i)) && r[i].Time == time.Unix(it.Candles[i].TimeUnix, 0)
	})
}

func stamped(it *klines.Item, i int, t time.Time) bool {
	return t == time.Unix(it.Candles[i].TimeUnix, 0)
}

// Div: division where a zero divisor yields 0.
func Div(a, b float64) float64 { return IfF(b != 0, a/b, 0) }

// Mfv: money flow volume per bar.
//vcg:opaque
func Mfv(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 {
		return Div((cs[i].Close-cs[i].Low)-(cs[i].High-cs[i].Close), cs[i].High-cs[i].Low) * cs[i].Volume
	})
}

func client_AccumulationDistribution(it *klines.Item) []volume.AccumulationDistributionData {
	return volume.NewAccumulationDistribution(it).GetData()
}
func client_AccumulationDistribution_pre(it *klines.Item) bool { return Valid(it) }
func client_AccumulationDistribution_seq1(it *klines.Item) []float64 {
	return Seq(len(it.Candles), func(i int) float64 { return P(Mfv(it.Candles), i+1) })
}
func client_AccumulationDistribution_post(it *klines.Item, r []volume.AccumulationDistributionData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, P(Mfv(it.Candles), i+1)) && stamped(it, i, r[i].Time)
	})
}

func client_AccumulationDistributionValues(it *klines.Item) []float64 {
	return volume.NewAccumulationDistribution(it).GetValues()
}
func client_AccumulationDistributionValues_pre(it *klines.Item) bool { return Valid(it) }
func client_AccumulationDistributionValues_post(it *klines.Item, r []float64) bool {
	return EqSeq(r, client_AccumulationDistribution_seq1(it))
}

//vcg:opaque
func CmfSeq(period int, cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return Div(WinSum(period, Mfv(cs), i), WinSum(period, Volume(cs), i)) })
}

func client_ChaikinMoneyFlow(it *klines.Item, period int) []volume.ChaikinMoneyFlowData {
	return volume.NewChaikinMoneyFlow(it, period).GetData()
}
func client_ChaikinMoneyFlow_pre(it *klines.Item, period int) bool { return Valid(it) && period >= 1 }
func client_ChaikinMoneyFlow_seq1(it *klines.Item, period int) []float64 { return Mfv(it.Candles) }
func client_ChaikinMoneyFlow_seq2(it *klines.Item, period int) []float64 {
	return CmfSeq(period, it.Candles)
}
func client_ChaikinMoneyFlow_post(it *klines.Item, period int, r []volume.ChaikinMoneyFlowData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(CmfSeq(period, it.Candles), i)) && stamped(it, i, r[i].Time)
	})
}

// Emv: ease of movement of one bar: distance moved by the midpoint over volume (in 1e8) per unit of range.
//vcg:opaque
func Emv(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 {
		return Div((cs[i].High+cs[i].Low)/2-IfF(i >= 1, (At(High(cs), i-1)+At(Low(cs), i-1))/2, 0),
			Div(cs[i].Volume/100000000, cs[i].High-cs[i].Low))
	})
}

func client_EaseOfMovement(it *klines.Item, period int) []volume.EaseOfMovementData {
	return volume.NewEaseOfMovement(it, period).GetData()
}
func client_EaseOfMovement_pre(it *klines.Item, period int) bool { return Valid(it) && period >= 1 }
func client_EaseOfMovement_seq1(it *klines.Item, period int) []float64 { return Emv(it.Candles) }
func client_EaseOfMovement_post(it *klines.Item, period int, r []volume.EaseOfMovementData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(Sma(period, Emv(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}

// Force: price change times volume.
//vcg:opaque
func Force(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 {
		return (cs[i].Close - IfF(i >= 1, At(Close(cs), i-1), 0)) * cs[i].Volume
	})
}

func client_ForceIndex(it *klines.Item, period int) []volume.ForceIndexData {
	return volume.NewForceIndex(it, period).GetData()
}
func client_ForceIndex_pre(it *klines.Item, period int) bool { return Ok(it) && period >= 1 }
func client_ForceIndex_seq1(it *klines.Item, period int) []float64 { return Force(it.Candles) }
func client_ForceIndex_post(it *klines.Item, period int, r []volume.ForceIndexData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(Ema(period, Force(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}

func NviAt(c, v []float64, i int) float64 {
	if i <= 0 {
		return 1000
	}
	return NviAt(c, v, i-1) + IfF(At(v, i-1) < At(v, i), 0, (At(c, i)-At(c, i-1))/At(c, i-1)*NviAt(c, v, i-1))
}

func client_NegativeVolumeIndex(it *klines.Item) []volume.NegativeVolumeIndexData {
	return volume.NewNegativeVolumeIndex(it).GetData()
}
func client_NegativeVolumeIndex_pre(it *klines.Item) bool { return Valid(it) }
func client_NegativeVolumeIndex_seq1(it *klines.Item) []float64 {
	return Seq(len(it.Candles), func(i int) float64 { return NviAt(Close(it.Candles), Volume(it.Candles), i) })
}
func client_NegativeVolumeIndex_post(it *klines.Item, r []volume.NegativeVolumeIndexData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, NviAt(Close(it.Candles), Volume(it.Candles), i)) && stamped(it, i, r[i].Time)
	})
}

// Vpt: volume times relative price change over `period` bars (against the first close while fewer exist).
//vcg:opaque
func Vpt(period int, cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 {
		return cs[i].Volume * Div(cs[i].Close-At(Close(cs), IfI(i >= period, i-period, 0)), At(Close(cs), IfI(i >= period, i-period, 0)))
	})
}

func client_VolumePriceTrend(it *klines.Item, period int) []volume.VolumePriceTrendData {
	return volume.NewVolumePriceTrend(it, period).GetData()
}
func client_VolumePriceTrend_pre(it *klines.Item, period int) bool { return Ok(it) && period >= 1 }
func client_VolumePriceTrend_seq1(it *klines.Item, period int) []float64 {
	return Vpt(period, it.Candles)
}
func client_VolumePriceTrend_post(it *klines.Item, period int, r []volume.VolumePriceTrendData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, P(Vpt(period, it.Candles), i+1)) && stamped(it, i, r[i].Time)
	})
}

//vcg:opaque
func PV(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return cs[i].Close * cs[i].Volume })
}

//vcg:opaque
func VwmaSeq(period int, cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return Div(WinSum(period, PV(cs), i), WinSum(period, Volume(cs), i)) })
}

func client_Vwma(it *klines.Item, period int) []volume.VwmaData { return volume.NewVwma(it, period).GetData() }
func client_Vwma_pre(it *klines.Item, period int) bool          { return Ok(it) && period >= 1 }
func client_Vwma_seq1(it *klines.Item, period int) []float64 { return PV(it.Candles) }
func client_Vwma_seq2(it *klines.Item, period int) []float64 { return VwmaSeq(period, it.Candles) }
func client_Vwma_post(it *klines.Item, period int, r []volume.VwmaData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, At(VwmaSeq(period, it.Candles), i)) && stamped(it, i, r[i].Time)
	})
}

// Raw: typical price times volume.
//vcg:opaque
func Raw(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return (cs[i].High + cs[i].Low + cs[i].Close) / 3 * cs[i].Volume })
}

func up(cs []*klines.Candle, i int) bool {
	return At(Raw(cs), i) >= IfF(i >= 1, At(Raw(cs), i-1), 0)
}

// PosFlow, NegFlow: the raw money flow of rising (falling) bars.
//vcg:opaque
func PosFlow(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return IfF(up(cs, i), At(Raw(cs), i), 0) })
}

//vcg:opaque
func NegFlow(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return IfF(up(cs, i), 0, At(Raw(cs), i)) })
}

//vcg:opaque
func MfRatio(period int, cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 {
		return Div(WinSum(period, PosFlow(cs), i), WinSum(period, NegFlow(cs), i))
	})
}

func client_MoneyFlowIndex(it *klines.Item, period int) []volume.MoneyFlowIndexData {
	return volume.NewMoneyFlowIndex(it, period).GetData()
}
func client_MoneyFlowIndex_pre(it *klines.Item, period int) bool { return Valid(it) && period >= 1 }
func client_MoneyFlowIndex_seq1(it *klines.Item, period int) []float64 { return PosFlow(it.Candles) }
func client_MoneyFlowIndex_seq2(it *klines.Item, period int) []float64 { return NegFlow(it.Candles) }
func client_MoneyFlowIndex_seq3(it *klines.Item, period int) []float64 {
	return MfRatio(period, it.Candles)
}
func client_MoneyFlowIndex_seq0(it *klines.Item, period int) []float64 { return Raw(it.Candles) }
func client_MoneyFlowIndex_post(it *klines.Item, period int, r []volume.MoneyFlowIndexData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, 100-100/(1+At(MfRatio(period, it.Candles), i))) && stamped(it, i, r[i].Time)
	})
}

func mfi(period int, cs []*klines.Candle, i int) float64 {
	return 100 - 100/(1+At(MfRatio(period, cs), i))
}
func client_MoneyFlowIndexSides(it *klines.Item, period int) utils.SideData {
	return volume.NewMoneyFlowIndex(it, period).AnalysisSide()
}

//vcg:props C14
func client_MoneyFlowIndexSides_pre(it *klines.Item, period int) bool { return Valid(it) && period >= 1 }
func client_MoneyFlowIndexSides_seq1(it *klines.Item, period int) []float64 { return PosFlow(it.Candles) }
func client_MoneyFlowIndexSides_seq2(it *klines.Item, period int) []float64 { return NegFlow(it.Candles) }
func client_MoneyFlowIndexSides_seq3(it *klines.Item, period int) []float64 {
	return MfRatio(period, it.Candles)
}
func client_MoneyFlowIndexSides_seq0(it *klines.Item, period int) []float64 { return Raw(it.Candles) }
func client_MoneyFlowIndexSides_post(it *klines.Item, period int, r utils.SideData) bool {
	return Signals(r, len(it.Candles), func(i int) bool { return mfi(period, it.Candles, i) < 10 && mfi(period, it.Candles, i-1) > 10 },
		func(i int) bool { return mfi(period, it.Candles, i) > 90 && mfi(period, it.Candles, i-1) < 90 })
}

// ---- default parameters

func client_DefaultChaikinMoneyFlow(it *klines.Item) []volume.ChaikinMoneyFlowData { return volume.NewDefaultChaikinMoneyFlow(it).GetData() }
func client_DefaultChaikinMoneyFlow_pre(it *klines.Item) bool { return client_ChaikinMoneyFlow_pre(it, 20) }
func client_DefaultChaikinMoneyFlow_seq1(it *klines.Item) []float64 { return client_ChaikinMoneyFlow_seq1(it, 20) }
func client_DefaultChaikinMoneyFlow_seq2(it *klines.Item) []float64 { return client_ChaikinMoneyFlow_seq2(it, 20) }
func client_DefaultChaikinMoneyFlow_post(it *klines.Item, r []volume.ChaikinMoneyFlowData) bool { return client_ChaikinMoneyFlow_post(it, 20, r) }

func client_DefaultEaseOfMovement(it *klines.Item) []volume.EaseOfMovementData { return volume.NewDefaultEaseOfMovement(it).GetData() }
func client_DefaultEaseOfMovement_pre(it *klines.Item) bool { return client_EaseOfMovement_pre(it, 14) }
func client_DefaultEaseOfMovement_seq1(it *klines.Item) []float64 { return client_EaseOfMovement_seq1(it, 14) }
func client_DefaultEaseOfMovement_post(it *klines.Item, r []volume.EaseOfMovementData) bool { return client_EaseOfMovement_post(it, 14, r) }

func client_DefaultForceIndex(it *klines.Item) []volume.ForceIndexData { return volume.NewDefaultForceIndex(it).GetData() }
func client_DefaultForceIndex_pre(it *klines.Item) bool { return client_ForceIndex_pre(it, 13) }
func client_DefaultForceIndex_seq1(it *klines.Item) []float64 { return client_ForceIndex_seq1(it, 13) }
func client_DefaultForceIndex_post(it *klines.Item, r []volume.ForceIndexData) bool { return client_ForceIndex_post(it, 13, r) }

func client_DefaultMoneyFlowIndex(it *klines.Item) []volume.MoneyFlowIndexData { return volume.NewDefaultMoneyFlowIndex(it).GetData() }
func client_DefaultMoneyFlowIndex_pre(it *klines.Item) bool { return client_MoneyFlowIndex_pre(it, 14) }
func client_DefaultMoneyFlowIndex_seq1(it *klines.Item) []float64 { return client_MoneyFlowIndex_seq1(it, 14) }
func client_DefaultMoneyFlowIndex_seq2(it *klines.Item) []float64 { return client_MoneyFlowIndex_seq2(it, 14) }
func client_DefaultMoneyFlowIndex_seq3(it *klines.Item) []float64 { return client_MoneyFlowIndex_seq3(it, 14) }
func client_DefaultMoneyFlowIndex_seq0(it *klines.Item) []float64 { return client_MoneyFlowIndex_seq0(it, 14) }
func client_DefaultMoneyFlowIndex_post(it *klines.Item, r []volume.MoneyFlowIndexData) bool { return client_MoneyFlowIndex_post(it, 14, r) }

func client_DefaultVolumePriceTrend(it *klines.Item) []volume.VolumePriceTrendData { return volume.NewDefaultVolumePriceTrend(it).GetData() }
func client_DefaultVolumePriceTrend_pre(it *klines.Item) bool { return client_VolumePriceTrend_pre(it, 14) }
func client_DefaultVolumePriceTrend_seq1(it *klines.Item) []float64 { return client_VolumePriceTrend_seq1(it, 14) }
func client_DefaultVolumePriceTrend_post(it *klines.Item, r []volume.VolumePriceTrendData) bool { return client_VolumePriceTrend_post(it, 14, r) }

func client_DefaultVwma(it *klines.Item) []volume.VwmaData { return volume.NewDefaultVwma(it).GetData() }
func client_DefaultVwma_pre(it *klines.Item) bool { return client_Vwma_pre(it, 5) }
func client_DefaultVwma_seq1(it *klines.Item) []float64 { return client_Vwma_seq1(it, 5) }
func client_DefaultVwma_seq2(it *klines.Item) []float64 { return client_Vwma_seq2(it, 5) }
func client_DefaultVwma_post(it *klines.Item, r []volume.VwmaData) bool { return client_Vwma_post(it, 5, r) }

func client_DefaultAccumulationDistribution(it *klines.Item) []volume.AccumulationDistributionData { return volume.NewDefaultAccumulationDistribution(it).GetData() }
func client_DefaultAccumulationDistribution_pre(it *klines.Item) bool { return client_AccumulationDistribution_pre(it) }
func client_DefaultAccumulationDistribution_seq1(it *klines.Item) []float64 { return client_AccumulationDistribution_seq1(it) }
func client_DefaultAccumulationDistribution_post(it *klines.Item, r []volume.AccumulationDistributionData) bool { return client_AccumulationDistribution_post(it, r) }

func client_DefaultNegativeVolumeIndex(it *klines.Item) []volume.NegativeVolumeIndexData { return volume.NewDefaultNegativeVolumeIndex(it).GetData() }
func client_DefaultNegativeVolumeIndex_pre(it *klines.Item) bool { return client_NegativeVolumeIndex_pre(it) }
func client_DefaultNegativeVolumeIndex_seq1(it *klines.Item) []float64 { return client_NegativeVolumeIndex_seq1(it) }
func client_DefaultNegativeVolumeIndex_post(it *klines.Item, r []volume.NegativeVolumeIndexData) bool { return client_NegativeVolumeIndex_post(it, r) }
