// Package chn: channel indicators.
package chn

import (
	"time"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	. "github.com/idoall/stockindicator/zzverif/ks"
	. "github.com/idoall/stockindicator/zzverif/spec"
)

const Target = "channel"
const Props = "C15"

func stamped(it *klines.Item, i int, t time.Time) bool {
	return t == time.Unix(it.Candles[i].TimeUnix, 0)
}

// Dev: population standard deviation of the last p values, 0 before bar p-1.
//vcg:opaque
func Dev(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(i >= p-1, Sqrt(Max(0, (P2(v, i+1)-P2(v, i+1-p))/float64(p)-At(Sma(p, v), i)*At(Sma(p, v), i))), 0)
	})
}

func client_Boll(it *klines.Item, n, k int) []channel.BollData { return channel.NewBoll(it, n, k).GetData() }
func client_Boll_pre(it *klines.Item, n, k int) bool           { return Ok(it) && n >= 1 }
func client_Boll_seq1(it *klines.Item, n, k int) []float64     { return Sma(n, Close(it.Candles)) }
func client_Boll_seq2(it *klines.Item, n, k int) []float64     { return Dev(n, Close(it.Candles)) }
func client_Boll_acc1(it *klines.Item, n, k int, c int) float64 {
	return P2(Close(it.Candles), c) - P2(Close(it.Candles), c-(n-1))
}
func client_Boll_post(it *klines.Item, n, k int, r []channel.BollData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Middle, At(Sma(n, Close(it.Candles)), i)) && Eq(r[i].MD, At(Dev(n, Close(it.Candles)), i)) &&
			Eq(r[i].Upper, At(Sma(n, Close(it.Candles)), i)+float64(k)*At(Dev(n, Close(it.Candles)), i)) &&
			Eq(r[i].Lower, At(Sma(n, Close(it.Candles)), i)-float64(k)*At(Dev(n, Close(it.Candles)), i)) &&
			stamped(it, i, r[i].Time)
	})
}

func client_DonchianChannel(it *klines.Item, p int) []channel.DonchianChannelData {
	return channel.NewDonchianChannel(it, p).GetData()
}
func client_DonchianChannel_pre(it *klines.Item, p int) bool { return Ok(it) && p >= 1 }
func client_DonchianChannel_seq1(it *klines.Item, p int) []float64 {
	return HighestIn(p, Close(it.Candles))
}
func client_DonchianChannel_seq2(it *klines.Item, p int) []float64 {
	return LowestIn(p, Close(it.Candles))
}
func client_DonchianChannel_post(it *klines.Item, p int, r []channel.DonchianChannelData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Upper, At(HighestIn(p, Close(it.Candles)), i)) && Eq(r[i].Lower, At(LowestIn(p, Close(it.Candles)), i)) &&
			Eq(r[i].Middle, (At(HighestIn(p, Close(it.Candles)), i)+At(LowestIn(p, Close(it.Candles)), i))/2) && stamped(it, i, r[i].Time)
	})
}

func client_KeltnerChannel(it *klines.Item, p int) []channel.KeltnerChannelData {
	return channel.NewKeltnerChannel(it, p).GetData()
}
func client_KeltnerChannel_pre(it *klines.Item, p int) bool { return Ok(it) && p >= 1 }
func client_KeltnerChannel_seq1(it *klines.Item, p int) []float64 {
	return Ema(p, Close(it.Candles))
}
func client_KeltnerChannel_seq2(it *klines.Item, p int) []float64 { return TR0(it.Candles) }
func client_KeltnerChannel_seq3(it *klines.Item, p int) []float64 { return Rma(p, TR0(it.Candles)) }
func client_KeltnerChannel_post(it *klines.Item, p int, r []channel.KeltnerChannelData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Middle, At(Ema(p, Close(it.Candles)), i)) &&
			Eq(r[i].Upper, At(Ema(p, Close(it.Candles)), i)+2*At(Rma(p, TR0(it.Candles)), i)) &&
			Eq(r[i].Lower, At(Ema(p, Close(it.Candles)), i)-2*At(Rma(p, TR0(it.Candles)), i)) && stamped(it, i, r[i].Time)
	})
}

// Draw: squared percentage drawdown from the highest close of the last p bars.
//vcg:opaque
func Draw(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return Pct(p, v, i) * Pct(p, v, i)
	})
}
func Pct(p int, v []float64, i int) float64 {
	return (At(v, i) - At(HighestIn(p, v), i)) / At(HighestIn(p, v), i) * 100
}
func client_UlcerIndex(it *klines.Item, p int) []channel.UlcerIndexData {
	return channel.NewUlcerIndex(it, p).GetData()
}
func client_UlcerIndex_pre(it *klines.Item, p int) bool { return Valid(it) && p >= 1 }
func client_UlcerIndex_seq1(it *klines.Item, p int) []float64 {
	return HighestIn(p, Close(it.Candles))
}
func client_UlcerIndex_seq2(it *klines.Item, p int) []float64 { return Draw(p, Close(it.Candles)) }
func client_UlcerIndex_use(it *klines.Item, p int) bool {
	return Fact_P_mono(Draw(p, Close(it.Candles)), len(it.Candles))
}
func client_UlcerIndex_post(it *klines.Item, p int, r []channel.UlcerIndexData) bool {
	return len(r) == len(it.Candles) && All(0, len(r), func(i int) bool {
		return Eq(r[i].Value, Sqrt(At(Sma(p, Draw(p, Close(it.Candles))), i))) && stamped(it, i, r[i].Time)
	})
}

// ---- signals

//vcg:opaque
func BollUp(n, k int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return At(Sma(n, v), i) + float64(k)*At(Dev(n, v), i) })
}

//vcg:opaque
func BollLow(n, k int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return At(Sma(n, v), i) - float64(k)*At(Dev(n, v), i) })
}

func client_BollSides(it *klines.Item, n, k int) utils.SideData {
	return channel.NewBoll(it, n, k).AnalysisSide()
}

//vcg:props C14
func client_BollSides_pre(it *klines.Item, n, k int) bool       { return Ok(it) && n >= 1 }
func client_BollSides_seq1(it *klines.Item, n, k int) []float64 { return Sma(n, Close(it.Candles)) }
func client_BollSides_seq2(it *klines.Item, n, k int) []float64 { return Dev(n, Close(it.Candles)) }
func client_BollSides_seq3(it *klines.Item, n, k int) []float64 { return BollUp(n, k, Close(it.Candles)) }
func client_BollSides_seq4(it *klines.Item, n, k int) []float64 { return BollLow(n, k, Close(it.Candles)) }
func client_BollSides_acc1(it *klines.Item, n, k int, c int) float64 {
	return P2(Close(it.Candles), c) - P2(Close(it.Candles), c-(n-1))
}
func client_BollSides_post(it *klines.Item, n, k int, r utils.SideData) bool {
	return Signals(r, len(it.Candles), func(i int) bool {
		return At(Close(it.Candles), i) > At(BollUp(n, k, Close(it.Candles)), i) && At(Close(it.Candles), i-1) < At(BollUp(n, k, Close(it.Candles)), i-1)
	}, func(i int) bool {
		return At(Close(it.Candles), i) < At(BollLow(n, k, Close(it.Candles)), i) && At(Close(it.Candles), i-1) > At(BollLow(n, k, Close(it.Candles)), i-1)
	})
}

//vcg:opaque
func Mid(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return (At(HighestIn(p, v), i) + At(LowestIn(p, v), i)) / 2 })
}

func client_DonchianSides(it *klines.Item, p int) utils.SideData {
	return channel.NewDonchianChannel(it, p).AnalysisSide()
}

//vcg:props C14
func client_DonchianSides_pre(it *klines.Item, p int) bool       { return Ok(it) && p >= 1 }
func client_DonchianSides_seq1(it *klines.Item, p int) []float64 { return Mid(p, Close(it.Candles)) }
func client_DonchianSides_post(it *klines.Item, p int, r utils.SideData) bool {
	return Crosses(r, Close(it.Candles), Mid(p, Close(it.Candles)))
}

func client_KeltnerSides(it *klines.Item, p int) utils.SideData {
	return channel.NewKeltnerChannel(it, p).AnalysisSide()
}

//vcg:props C14
func client_KeltnerSides_pre(it *klines.Item, p int) bool { return Ok(it) && p >= 1 }
func client_KeltnerSides_post(it *klines.Item, p int, r utils.SideData) bool {
	return Crosses(r, Close(it.Candles), Ema(p, Close(it.Candles)))
}

// ---- default parameters

func client_DefaultKeltnerChannel(it *klines.Item) []channel.KeltnerChannelData { return channel.NewDefaultKeltnerChannel(it).GetData() }
func client_DefaultKeltnerChannel_pre(it *klines.Item) bool { return client_KeltnerChannel_pre(it, 20) }
func client_DefaultKeltnerChannel_seq1(it *klines.Item) []float64 { return client_KeltnerChannel_seq1(it, 20) }
func client_DefaultKeltnerChannel_seq2(it *klines.Item) []float64 { return client_KeltnerChannel_seq2(it, 20) }
func client_DefaultKeltnerChannel_seq3(it *klines.Item) []float64 { return client_KeltnerChannel_seq3(it, 20) }
func client_DefaultKeltnerChannel_post(it *klines.Item, r []channel.KeltnerChannelData) bool { return client_KeltnerChannel_post(it, 20, r) }

func client_DefaultBoll(it *klines.Item) []channel.BollData { return channel.NewDefaultBoll(it).GetData() }
func client_DefaultBoll_pre(it *klines.Item) bool { return client_Boll_pre(it, 20, 2) }
func client_DefaultBoll_seq1(it *klines.Item) []float64 { return client_Boll_seq1(it, 20, 2) }
func client_DefaultBoll_seq2(it *klines.Item) []float64 { return client_Boll_seq2(it, 20, 2) }
func client_DefaultBoll_post(it *klines.Item, r []channel.BollData) bool { return client_Boll_post(it, 20, 2, r) }

func client_DefaultDonchianChannel(it *klines.Item) []channel.DonchianChannelData { return channel.NewDefaultDonchianChannel(it).GetData() }
func client_DefaultDonchianChannel_pre(it *klines.Item) bool { return client_DonchianChannel_pre(it, 20) }
func client_DefaultDonchianChannel_seq1(it *klines.Item) []float64 { return client_DonchianChannel_seq1(it, 20) }
func client_DefaultDonchianChannel_seq2(it *klines.Item) []float64 { return client_DonchianChannel_seq2(it, 20) }
func client_DefaultDonchianChannel_post(it *klines.Item, r []channel.DonchianChannelData) bool { return client_DonchianChannel_post(it, 20, r) }

func client_DefaultUlcerIndex(it *klines.Item) []channel.UlcerIndexData { return channel.NewDefaultUlcerIndex(it).GetData() }
func client_DefaultUlcerIndex_pre(it *klines.Item) bool { return client_UlcerIndex_pre(it, 14) }
func client_DefaultUlcerIndex_seq1(it *klines.Item) []float64 { return client_UlcerIndex_seq1(it, 14) }
func client_DefaultUlcerIndex_seq2(it *klines.Item) []float64 { return client_UlcerIndex_seq2(it, 14) }
func client_DefaultUlcerIndex_post(it *klines.Item, r []channel.UlcerIndexData) bool { return client_UlcerIndex_post(it, 14, r) }
