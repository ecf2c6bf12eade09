package spec

// MaxR, MinR: the largest/smallest of At(v, a), ..., At(v, b-1).
func MaxR(v []float64, a, b int) float64 {
	if b <= a+1 {
		return At(v, a)
	}
	return Max(MaxR(v, a, b-1), At(v, b-1))
}
func MinR(v []float64, a, b int) float64 {
	if b <= a+1 {
		return At(v, a)
	}
	return Min(MinR(v, a, b-1), At(v, b-1))
}

// HighestIn, LowestIn: largest/smallest of the last p values (of all values while fewer exist).
//vcg:opaque
func HighestIn(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return MaxR(v, MaxI(0, i+1-p), i+1) })
}

//vcg:opaque
func LowestIn(p int, v []float64) []float64 {
	return Seq(len(v), func(i int) float64 { return MinR(v, MaxI(0, i+1-p), i+1) })
}

// ArgMaxR, ArgMinR: a position where the extreme is attained.
func ArgMaxR(v []float64, a, b int) int {
	if b <= a+1 {
		return a
	}
	if At(v, b-1) > MaxR(v, a, b-1) {
		return b - 1
	}
	return ArgMaxR(v, a, b-1)
}
func ArgMinR(v []float64, a, b int) int {
	if b <= a+1 {
		return a
	}
	if At(v, b-1) < MinR(v, a, b-1) {
		return b - 1
	}
	return ArgMinR(v, a, b-1)
}

func fact_MaxR_bound(v []float64, a, b int) bool {
	return Imp(0 <= a && a < b, All(a, b, func(j int) bool { return At(v, j) <= MaxR(v, a, b) }))
}
func fact_MaxR_attained(v []float64, a, b int) bool {
	return Imp(0 <= a && a < b, a <= ArgMaxR(v, a, b) && ArgMaxR(v, a, b) < b && At(v, ArgMaxR(v, a, b)) == MaxR(v, a, b))
}
func fact_MaxR_left(v []float64, a, b int) bool {
	return Imp(0 <= a && a+1 < b, MaxR(v, a, b) == Max(At(v, a), MaxR(v, a+1, b)))
}
func fact_MinR_bound(v []float64, a, b int) bool {
	return Imp(0 <= a && a < b, All(a, b, func(j int) bool { return At(v, j) >= MinR(v, a, b) }))
}
func fact_MinR_attained(v []float64, a, b int) bool {
	return Imp(0 <= a && a < b, a <= ArgMinR(v, a, b) && ArgMinR(v, a, b) < b && At(v, ArgMinR(v, a, b)) == MinR(v, a, b))
}
func fact_MinR_left(v []float64, a, b int) bool {
	return Imp(0 <= a && a+1 < b, MinR(v, a, b) == Min(At(v, a), MinR(v, a+1, b)))
}
