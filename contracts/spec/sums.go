package spec

// P is the prefix sum At(v, 0) + ... + At(v, n-1).
func P(v []float64, n int) float64 {
	if n <= 0 {
		return 0
	}
	return P(v, n-1) + At(v, n-1)
}

// Sums of values that are not negative grow.
//vcg:manual
func Fact_P_mono(v []float64, n int) bool {
	return Imp(n <= len(v) && All(0, len(v), func(k int) bool { return v[k] >= 0 }),
		All(0, n+1, func(a int) bool { return All(a, n+1, func(b int) bool { return P(v, a) <= P(v, b) }) }))
}

// P2 is the prefix sum of squares, PJ of j*v[j].
func P2(v []float64, n int) float64 {
	if n <= 0 {
		return 0
	}
	return P2(v, n-1) + At(v, n-1)*At(v, n-1)
}
func PJ(v []float64, n int) float64 {
	if n <= 0 {
		return 0
	}
	return PJ(v, n-1) + float64(n-1)*At(v, n-1)
}

// WinSum is the sum of the last p values ending at i (of all values when fewer exist).
func WinSum(p int, v []float64, i int) float64 {
	return P(v, i+1) - P(v, MaxI(0, i+1-p))
}

// Sma: simple moving average over the last p values (over all values while fewer exist).
//vcg:opaque
func Sma(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return WinSum(p, v, i) / float64(MinI(i+1, p)) })
}

// EmaAt: exponential moving average with weight 2/(p+1), seeded with At(v, 0).
func EmaAt(p int, v []float64, i int) float64 {
	if i <= 0 {
		return At(v, 0)
	}
	return (2*At(v, i) + float64(p-1)*EmaAt(p, v, i-1)) / float64(p+1)
}

//vcg:opaque
func Ema(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return EmaAt(p, v, i) })
}

// RmaAt: Wilder's average of the values after the first: the running mean of
// v[1..i] over i+1 bars during warm-up, then ((p-1)*previous + At(v, i)) / p.
func RmaAt(p int, v []float64, i int) float64 {
	if i <= 0 {
		return 0
	}
	if i < p {
		return (P(v, i+1) - P(v, 1)) / float64(i+1)
	}
	return (RmaAt(p, v, i-1)*float64(p-1) + At(v, i)) / float64(p)
}

//vcg:opaque
func Rma(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return RmaAt(p, v, i) })
}

// TR: true range: the largest of high-low, |previous close - high|, |previous close - low| (0 on the first bar).
//vcg:opaque
func TR(h, l, c []float64) []float64 {
	return Seq(len(c), func(i int) float64 {
		return IfF(i >= 1, Max(At(h, i)-At(l, i), Max(Abs(At(c, i-1)-At(h, i)), Abs(At(c, i-1)-At(l, i)))), 0)
	})
}

// AtrSeq: Wilder average of the true range, 0 during the first p bars.
//vcg:opaque
func AtrSeq(p int, h, l, c []float64) []float64 {
	return Seq(len(c), func(i int) float64 { return IfF(p >= 1 && i >= p, At(Rma(p, TR(h, l, c)), i), 0) })
}

// PW is the sum of (j+1)*v[j] for j < n.
func PW(v []float64, n int) float64 {
	if n <= 0 {
		return 0
	}
	return PW(v, n-1) + float64(n)*At(v, n-1)
}

// WSum: weighted sum of the last p values (weights 1..p, newest heaviest).
//vcg:opaque
func WSum(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return (PW(v, i+1) - PW(v, i+1-p)) - float64(i+1-p)*(P(v, i+1)-P(v, i+1-p))
	})
}

// Wma: linearly weighted average of the last p values, 0 before bar p-1.
//vcg:opaque
func Wma(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 {
		return IfF(i >= p-1, At(WSum(p, v), i)/float64(p*(p+1)>>1), 0)
	})
}

// Prod: element-wise product.
//vcg:opaque
func Prod(x, y []float64) []float64 {
	return Seq(len(x), func(i int) float64 { return x[i] * At(y, i) })
}

// Win: sum of the last p values (of all values while fewer exist).
//vcg:opaque
func Win(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return WinSum(p, v, i) })
}

// Slope: slope of the least-squares line through the last p points (0 when all x coincide).
//vcg:opaque
func Slope(p int, x, y []float64) []float64 {
	return Seq(len(x), func(i int) float64 {
		return slope(IfF(i >= p, float64(p), float64(i+1)), At(Win(p, x), i), At(Win(p, y), i), At(Win(p, Prod(x, x)), i), At(Win(p, Prod(x, y)), i))
	})
}
func slope(n, sx, sy, sxx, sxy float64) float64 {
	return IfF(n*sxx-sx*sx != 0, (n*sxy-sx*sy)/(n*sxx-sx*sx), 0)
}

// SlopeAll, IceptAll: least-squares line through all points.
func SlopeAll(x, y []float64) float64 {
	return slope(float64(len(x)), P(x, len(x)), P(y, len(x)), P(Prod(x, x), len(x)), P(Prod(x, y), len(x)))
}
func IceptAll(x, y []float64) float64 {
	return (P(y, len(x)) - SlopeAll(x, y)*P(x, len(x))) / float64(len(x))
}
