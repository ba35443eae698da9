package zvmath

import (
	"math"
	"sync"
	"testing"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// lawTest compares n draws with the law on the integers given by mass(lo,hi) = P(lo <= x <= hi).
// center and width only place the histogram.
func lawTest(c *vh.Ctx, what string, n int64, center, width float64, mass func(lo, hi float64) float64, draw func() int64) {
	step := math.Max(1, math.Floor(width/120))
	base := math.Round(center)
	cells := int64(math.Ceil(2*(9.5*width+2)/step)) | 1
	lo := base - float64(cells/2)*step - math.Floor(step/2)
	counts := make([]int64, cells+2)
	probs := make([]float64, cells+2)
	for i := int64(0); i < cells; i++ {
		a := lo + float64(i)*step
		probs[i+1] = mass(a, a+step-1)
	}
	off := int64(lo)
	st := int64(step)
	var s1, s2, lag float64
	prev := 0.0
	for i := int64(0); i < n; i++ {
		x := draw()
		k := x - off
		if k < 0 {
			counts[0]++
		} else if k /= st; k >= cells {
			counts[cells+1]++
		} else {
			counts[k+1]++
		}
		d := (float64(x) - center) / width
		s1 += d
		s2 += d * d
		lag += d * prev
		prev = d
	}
	if out := counts[0] + counts[cells+1]; out > 0 {
		c.Fatalf("%s: %d of %d draws lie more than 9.5 widths from the center", what, out, n)
	}
	if p, dof, w := vh.Chi2P(counts, probs, n, 12); p < vh.PThreshold {
		c.Fatalf("%s: the law is wrong: p=%.2g dof=%d, worst %s (lo=%v step=%v)", what, p, dof, w, lo, step)
	}
	// moments of the law itself
	var m1, m2, m4 float64
	if step == 1 {
		for i := int64(0); i < cells; i++ {
			d := (lo + float64(i) - center) / width
			m1 += probs[i+1] * d
			m2 += probs[i+1] * d * d
			m4 += probs[i+1] * d * d * d * d
		}
	} else {
		m1, m2, m4 = 0, 1+1/(12*width*width), 3
	}
	N := float64(n)
	if z := (s1 - N*m1) / math.Sqrt(N*(m2-m1*m1)); vh.NormalP(z) < vh.PThreshold {
		c.Fatalf("%s: mean is off by %.3g widths (z=%.1f)", what, s1/N-m1, z)
	}
	if z := (s2 - N*m2) / math.Sqrt(N*(m4-m2*m2)); vh.NormalP(z) < vh.PThreshold {
		c.Fatalf("%s: second moment is %.6g, want %.6g (z=%.1f)", what, s2/N, m2, z)
	}
	if z := (lag - N*m1*m1) / (math.Sqrt(N) * m2); vh.NormalP(z) < vh.PThreshold {
		c.Fatalf("%s: successive draws correlate (z=%.1f)", what, z)
	}
}

// roundedMass is the law of round(center + width*Normal).
func roundedMass(center, width float64) func(lo, hi float64) float64 {
	return func(lo, hi float64) float64 {
		return vh.Phi((lo-0.5-center)/width, (hi+0.5-center)/width)
	}
}

// discreteMass is the discrete Gaussian law on the integers.
func discreteMass(center, width float64) func(lo, hi float64) float64 {
	if width > 2000 {
		return roundedMass(center, width) // equal up to a relative 1/(24 width^2)
	}
	norm := 0.0
	base := math.Round(center)
	rho := func(x float64) float64 { return math.Exp(-(x - center) * (x - center) / (2 * width * width)) }
	R := math.Ceil(14*width) + 2
	for x := -R; x <= R; x++ {
		norm += rho(base + x)
	}
	return func(lo, hi float64) float64 {
		s := 0.0
		for x := lo; x <= hi; x++ {
			s += rho(x)
		}
		return s / norm
	}
}

func drawCenter(c *vh.Ctx) float64 {
	r := c.NewRNG("center")
	u := float64(r.U64()>>11) / (1 << 53)
	switch c.Int(0, 8, "center.kind") {
	case 8:
		// so close to zero that center - floor(center) rounds to one
		return math.Ldexp(float64(1-2*r.N(2)), -20-r.N(1000))
	case 0:
		return 0
	case 1:
		return float64(int(r.N(41))-20) / 2
	case 2:
		return u - 0.5
	case 3:
		return -u
	case 4:
		return (u - 0.5) * 2e6
	case 5:
		return float64(r.N(257)-128) / 128
	case 6:
		// next to a grid point of the tables, or next to an integer
		return float64(r.N(9)-4) + float64(r.N(128))/128 + (u-0.5)/64
	default:
		return 0.9922 + u*0.0078 + float64(r.N(7)-3)
	}
}

func drawWidth(c *vh.Ctx, lo, hi float64) float64 {
	r := c.NewRNG("width")
	u := float64(r.U64()>>11) / (1 << 53)
	return lo * math.Exp(u*math.Log(hi/lo))
}

// C08 rule: every case is a histogram test of n draws at a drawn center and width, or a comparison of seeded samplers.
func TestC08_SmallWidths(t *testing.T) {
	vh.Check(t, 60, 600, func(c *vh.Ctx) {
		ce, w := drawCenter(c), drawWidth(c, 0.05, 50)
		if c.Bool("seeded") {
			s := csprng.NewRoundedGaussianSamplerWithSeed(drawSeed(c, "seed"))
			lawTest(c, "rounded Gaussian (seeded)", 400000, ce, math.Max(w, 0.4), roundedMass(ce, w), func() int64 { return s.Sample(ce, w) })
		} else {
			s := csprng.NewRoundedGaussianSampler()
			lawTest(c, "rounded Gaussian", 400000, ce, math.Max(w, 0.4), roundedMass(ce, w), func() int64 { return s.Sample(ce, w) })
		}
		c.Note("center=%v width=%v", ce, w)
		c.NonTrivial()
	})
}

func TestC08_WideLaw(t *testing.T) {
	vh.Check(t, 6, 60, func(c *vh.Ctx) {
		ce, w := drawCenter(c), drawWidth(c, 1e3, 1e14)
		s := csprng.NewRoundedGaussianSampler()
		n := int64(12000000)
		lawTest(c, "rounded Gaussian", n, ce, w, roundedMass(ce, w), func() int64 { return s.Sample(ce, w) })
		c.Note("center=%v width=%v n=%d", ce, w, n)
		c.NonTrivial()
	})
}

// tailTest compares the draws beyond cut widths with the conditional tail law on each side.
func tailTest(c *vh.Ctx, what string, n int64, cut, center, width float64, draw func() int64) {
	const cells = 40
	step := 0.05
	edge := func(k int) float64 { return math.Floor((cut+float64(k)*step)*width) + 0.5 }
	for side := 0; side < 2; side++ {
		counts := make([]int64, cells+1)
		probs := make([]float64, cells+1)
		total := vh.Phi(edge(0)/width, 40)
		for k := 0; k <= cells; k++ {
			hi := 40.0
			if k < cells {
				hi = edge(k+1) / width
			}
			probs[k] = vh.Phi(edge(k)/width, hi) / total
		}
		var m int64
		sum := 0.0
		for i := int64(0); i < n; i++ {
			d := float64(draw()) - center
			if side == 1 {
				d = -d
			}
			if d < edge(0) {
				continue
			}
			m++
			sum += d/width - edge(0)/width
			k := int((d/width - edge(0)/width) / step)
			for k > 0 && k <= cells && d < edge(k) {
				k--
			}
			for k < cells && d > edge(k+1) {
				k++
			}
			counts[min(k, cells)]++
		}
		if z := (float64(m) - float64(n)*total) / math.Sqrt(float64(n)*total); vh.NormalP(z) < vh.PThreshold {
			c.Fatalf("%s: %d of %d draws lie more than %v widths to one side, want %.0f", what, m, n, cut, float64(n)*total)
		}
		if p, dof, w := vh.Chi2P(counts, probs, m, 12); p < vh.PThreshold {
			c.Fatalf("%s: the law beyond %v widths is wrong: p=%.2g dof=%d, worst %s", what, cut, p, dof, w)
		}
		// mean and variance of the excess over the cut
		a := edge(0) / width
		h := math.Exp(-a*a/2) / math.Sqrt(2*math.Pi) / vh.Phi(a, 40)
		mean, vari := h-a, 1+a*h-h*h
		if z := (sum - float64(m)*mean) / math.Sqrt(float64(m)*vari); vh.NormalP(z) < vh.PThreshold {
			c.Fatalf("%s: draws beyond %v widths exceed it by %.5f on average, want %.5f (z=%.1f)", what, cut, sum/float64(m), mean, z)
		}
		c.Note("side=%d: %d draws beyond %v widths", side, m, cut)
	}
}

func TestC08_Tail(t *testing.T) {
	vh.Check(t, 4, 40, func(c *vh.Ctx) {
		w := drawWidth(c, 1e5, 1e12)
		ce := math.Round(drawCenter(c))
		s := csprng.NewRoundedGaussianSampler()
		tailTest(c, "rounded Gaussian", 60000000, 3+0.1*float64(c.Int(0, 5, "cut")), ce, w, func() int64 { return s.Sample(ce, w) })
		c.NonTrivial()
	})
}

// farTail counts the draws beyond 4.4 to 5.6 widths on each side, with samplers of its own per
// goroutine, against the exact mass there: a table cut too early loses them.
func farTail(c *vh.Ctx, what string, n int64, center, width float64, mass func(lo, hi float64) float64, mk func() func() int64) {
	cuts := []float64{4.4, 4.6, 4.8, 5, 5.2, 5.4, 5.6}
	const workers = 8
	var hi, lo [workers][7]int64
	up, down := make([]int64, len(cuts)), make([]int64, len(cuts))
	for i, k := range cuts {
		up[i] = int64(math.Ceil(center + k*width))
		down[i] = int64(math.Floor(center - k*width))
	}
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			draw := mk()
			var h, l [7]int64
			for i := int64(0); i < n/workers; i++ {
				x := draw()
				if x < up[0] && x > down[0] {
					continue
				}
				for k := range cuts {
					if x >= up[k] {
						h[k]++
					}
					if x <= down[k] {
						l[k]++
					}
				}
			}
			hi[g], lo[g] = h, l
		}()
	}
	wg.Wait()
	far := 40*width + 10
	for k := range cuts {
		for side := 0; side < 2; side++ {
			var m int64
			for g := 0; g < workers; g++ {
				if side == 0 {
					m += hi[g][k]
				} else {
					m += lo[g][k]
				}
			}
			p := mass(float64(up[k]), math.Ceil(center+far))
			if side == 1 {
				p = mass(math.Floor(center-far), float64(down[k]))
			}
			if pv := vh.PoissonP(m, float64(n)*p); pv < vh.PThreshold {
				c.Fatalf("%s: %d of %d draws lie at or beyond %v widths on side %d, want %.1f (p=%.2g)", what, m, n, cuts[k], side, float64(n)*p, pv)
			}
		}
	}
}

func TestC08_SeededReproducible(t *testing.T) {
	vh.Check(t, 1500, 20000, func(c *vh.Ctx) {
		seed := drawSeed(c, "seed")
		a, b := csprng.NewRoundedGaussianSamplerWithSeed(seed), csprng.NewRoundedGaussianSamplerWithSeed(seed)
		d := csprng.NewRoundedGaussianSamplerWithSeed(append(append([]byte{}, seed...), 1))
		same, n := 0, c.Int(50, 600, "n")
		r := c.NewRNG("calls")
		for i := 0; i < n; i++ {
			ce := float64(r.N(2000)-1000) / 16
			w := float64(1+r.N(1<<20)) * 1000
			x, y, z := a.Sample(ce, w), b.Sample(ce, w), d.Sample(ce, w)
			if x != y {
				c.Fatalf("draw %d differs between samplers of one seed: %d %d", i, x, y)
			}
			if x == z {
				same++
			}
		}
		if same > 10 {
			c.Fatalf("samplers of different seeds agree on %d of %d draws", same, n)
		}
		for _, w := range []float64{0, -1, -1e-9, math.Inf(-1)} {
			if p, _ := vh.MustPanic(func() { a.Sample(0, w) }); !p {
				c.Fatalf("width %v accepted", w)
			}
		}
		c.Note("seed=%d bytes n=%d", len(seed), n)
		c.NonTrivial()
	})
}
