package ks

import (
	"math"
	"reflect"

	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/spec"
)

// Generators of candle lists for replays.
func init() {
	spec.TypeGen[reflect.TypeOf(klines.Interval(0))] = func(r *spec.Rand) reflect.Value {
		return reflect.ValueOf(klines.OneMin * klines.Interval(1+r.Intn(4)))
	}
	spec.TypeGen[reflect.TypeOf(&klines.Item{})] = func(r *spec.Rand) reflect.Value {
		return reflect.ValueOf(&klines.Item{Exchange: "x", Interval: klines.OneMin, Symbol: "s", Code: "c", Candles: Candles(r, r.N())})
	}
	spec.TypeGen[reflect.TypeOf([]*klines.Candle{})] = func(r *spec.Rand) reflect.Value {
		return reflect.ValueOf(Candles(r, r.N()))
	}
	spec.TypeGen[reflect.TypeOf(&klines.Candle{})] = func(r *spec.Rand) reflect.Value {
		return reflect.ValueOf(Candles(r, 1)[0])
	}
}

// Candles: n valid candles one minute apart; price walks with flat runs, ties, gaps and trends.
func Candles(r *spec.Rand, n int) []*klines.Candle {
	out := make([]*klines.Candle, n)
	grid := []float64{1, 0.5, 0.25, 1. / 64}[r.Intn(4)]
	style := r.Intn(7)
	amp := 1 + r.Intn(6)
	price := float64(20 + r.Intn(20))
	base := int64(1704067200)
	step := func() float64 { return float64(r.Intn(2*amp+1)-amp) * grid }
	for i := range out {
		open := price
		if style == 1 { // gaps
			open = math.Max(grid, price+step())
		}
		cl := open
		switch style {
		case 2: // flat
		case 3: // up trend
			cl = open + math.Abs(step())
		case 4: // down trend
			cl = math.Max(grid, open-math.Abs(step()))
		case 5: // swings
			if (i/(2+amp))%2 == 0 {
				cl = open + math.Abs(step())
			} else {
				cl = math.Max(grid, open-math.Abs(step()))
			}
		case 6: // mostly flat
			if r.Intn(3) == 0 {
				cl = math.Max(grid, open+step())
			}
		default:
			cl = math.Max(grid, open+step())
		}
		hi, lo := math.Max(open, cl), math.Min(open, cl)
		if style != 2 && r.Intn(4) > 0 {
			hi += float64(r.Intn(3)) * grid
			lo = math.Max(grid, lo-float64(r.Intn(3))*grid)
		}
		vol := float64(r.Intn(5) * r.Intn(4))
		if style == 3 {
			vol = float64(1 + r.Intn(9))
		}
		out[i] = &klines.Candle{Open: open, Close: cl, High: hi, Low: lo, Volume: vol, TimeUnix: base + int64(60*i),
			IsBullMarket: cl > open, ChangePercent: (cl - open) / open, Amount: vol * cl, Count: int64(i)}
		price = cl
	}
	if r.Scale != 0 && r.Scale != 1 {
		for _, c := range out {
			c.Open, c.Close, c.High, c.Low = c.Open*r.Scale, c.Close*r.Scale, c.High*r.Scale, c.Low*r.Scale
		}
	}
	return out
}
