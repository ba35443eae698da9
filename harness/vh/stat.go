package vh

import "math"

// PThreshold is the significance below which a statistical test reports a deviation.
// A run makes a few hundred such tests, so a correct sampler fails with probability below 1e-7.
const PThreshold = 1e-10

// GammaQ is the regularised upper incomplete gamma function.
func GammaQ(a, x float64) float64 {
	if x <= 0 {
		return 1
	}
	lg, _ := math.Lgamma(a)
	if x < a+1 {
		sum, term := 1/a, 1/a
		for n := 1; n < 100000; n++ {
			term *= x / (a + float64(n))
			sum += term
			if term < sum*1e-16 {
				break
			}
		}
		return 1 - sum*math.Exp(-x+a*math.Log(x)-lg)
	}
	const tiny = 1e-300
	b := x + 1 - a
	c := 1 / tiny
	d := 1 / b
	h := d
	for i := 1; i < 100000; i++ {
		an := -float64(i) * (float64(i) - a)
		b += 2
		d = an*d + b
		if math.Abs(d) < tiny {
			d = tiny
		}
		c = b + an/c
		if math.Abs(c) < tiny {
			c = tiny
		}
		d = 1 / d
		del := d * c
		h *= del
		if math.Abs(del-1) < 1e-15 {
			break
		}
	}
	return math.Exp(-x+a*math.Log(x)-lg) * h
}

// Chi2P merges neighbouring cells until each expects at least minExp and returns
// the chi-square p-value of the counts, the degrees of freedom and the worst cell.
func Chi2P(counts []int64, probs []float64, n int64, minExp float64) (p float64, dof int, worst string) {
	var chi, wz float64
	cells := 0
	var eAcc float64
	var oAcc int64
	start := 0
	type cell struct {
		o    int64
		e    float64
		from int
	}
	var cs []cell
	for i := range counts {
		eAcc += probs[i] * float64(n)
		oAcc += counts[i]
		if eAcc >= minExp {
			cs = append(cs, cell{oAcc, eAcc, start})
			eAcc, oAcc, start = 0, 0, i+1
		}
	}
	if len(cs) > 0 {
		cs[len(cs)-1].o += oAcc
		cs[len(cs)-1].e += eAcc
	}
	for _, c := range cs {
		d := float64(c.o) - c.e
		z := d * d / c.e
		chi += z
		cells++
		if z > wz {
			wz = z
			worst = sprintf("cells from %d: observed %d, expected %.1f", c.from, c.o, c.e)
		}
	}
	if cells < 2 {
		return 1, 0, ""
	}
	return GammaQ(float64(cells-1)/2, chi/2), cells - 1, worst
}

// Phi is the mass of the standard normal law in (a, b], accurate in both tails.
func Phi(a, b float64) float64 {
	if a > 0 {
		return 0.5 * (math.Erfc(a/math.Sqrt2) - math.Erfc(b/math.Sqrt2))
	}
	return 0.5 * (math.Erfc(-b/math.Sqrt2) - math.Erfc(-a/math.Sqrt2))
}

// NormalP is the two-sided p-value of a z-score.
func NormalP(z float64) float64 { return math.Erfc(math.Abs(z) / math.Sqrt2) }

// PoissonP is the two-sided p-value of m events where mean are expected.
func PoissonP(m int64, mean float64) float64 {
	if float64(m) <= mean {
		return min(1, 2*GammaQ(float64(m)+1, mean)) // P(X <= m)
	}
	return min(1, 2*(1-GammaQ(float64(m), mean))) // P(X >= m)
}
