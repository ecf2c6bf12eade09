// Package ks: the price series of a candle list.
package ks

import (
	. "github.com/idoall/stockindicator/zzverif/spec"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

// Ok: a candle list without nil entries.
func Ok(it *klines.Item) bool {
	return it != nil && All(0, len(it.Candles), func(i int) bool { return it.Candles[i] != nil })
}

// Valid: additionally every candle has 0 < low <= open, close <= high and volume >= 0.
func Valid(it *klines.Item) bool {
	return Ok(it) && All(0, len(it.Candles), func(i int) bool {
		return it.Candles[i].Low > 0 && it.Candles[i].Low <= it.Candles[i].Open && it.Candles[i].Low <= it.Candles[i].Close &&
			it.Candles[i].Open <= it.Candles[i].High && it.Candles[i].Close <= it.Candles[i].High && it.Candles[i].Volume >= 0
	})
}

//vcg:named
func Open(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return cs[i].Open })
}

//vcg:named
func High(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return cs[i].High })
}

//vcg:named
func Low(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return cs[i].Low })
}

//vcg:named
func Close(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return cs[i].Close })
}

//vcg:named
func Volume(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 { return cs[i].Volume })
}


// TR0: true range per bar against the previous close (against 0 on the first bar).
//vcg:opaque
func TR0(cs []*klines.Candle) []float64 {
	return Seq(len(cs), func(i int) float64 {
		return Max(At(High(cs), i)-At(Low(cs), i), Max(Abs(At(High(cs), i)-IfF(i >= 1, At(Close(cs), i-1), 0)), Abs(At(Low(cs), i)-IfF(i >= 1, At(Close(cs), i-1), 0))))
	})
}

// SideOf: the signal of one bar.
func SideOf(buy, sell bool) utils.Side {
	if buy {
		return utils.Buy
	}
	if sell {
		return utils.Sell
	}
	return utils.Hold
}

// Crosses: one signal per bar; Buy where a crosses above b, Sell where a crosses below b, Hold elsewhere.
func Crosses(s utils.SideData, a, b []float64) bool {
	return len(s.Data) == len(a) && All(0, len(a), func(i int) bool {
		return i >= 1 && (Near(At(a, i), At(b, i)) || Near(At(a, i-1), At(b, i-1))) ||
			s.Data[i] == SideOf(i >= 1 && At(a, i) > At(b, i) && At(a, i-1) < At(b, i-1),
				i >= 1 && At(a, i) < At(b, i) && At(a, i-1) > At(b, i-1))
	})
}

// Signals: one signal per bar, Hold on bar 0 and where neither condition holds.
func Signals(s utils.SideData, n int, buy, sell func(i int) bool) bool {
	return len(s.Data) == n && All(0, n, func(i int) bool {
		return s.Data[i] == SideOf(i >= 1 && buy(i), i >= 1 && sell(i))
	})
}
