package zvmath

import (
	"math"
	"testing"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// C10 rule: every case is a histogram test of n draws at a drawn center and width.
func TestC10_Law(t *testing.T) {
	vh.Check(t, 40, 500, func(c *vh.Ctx) {
		w := drawWidth(c, 1.2, 40)
		s := csprng.NewTwinCDTGaussianSampler(w)
		if s.StdDev() != w {
			c.Fatalf("StdDev() = %v, want %v", s.StdDev(), w)
		}
		if c.Bool("copy") {
			s = s.SafeCopy()
			if s.StdDev() != w {
				c.Fatalf("StdDev() of the copy = %v, want %v", s.StdDev(), w)
			}
			c.Label("copy")
		}
		ce := drawCenter(c)
		c.Note("center=%v width=%v", ce, w)
		lawTest(c, "Twin-CDT", 1200000, ce, w, discreteMass(ce, w), func() int64 { return s.Sample(ce) })
		c.NonTrivial()
	})
}

// Deep: many draws at one center between two table entries, where the twin lookup decides.
func TestC10_BetweenTables(t *testing.T) {
	vh.Check(t, 4, 60, func(c *vh.Ctx) {
		w := drawWidth(c, 1.2, 2.5)
		s := csprng.NewTwinCDTGaussianSampler(w)
		r := c.NewRNG("c")
		ce := (float64(r.N(128)) + 0.3 + 0.6*float64(r.N(100))/100) / 128
		if c.Bool("last") {
			ce = (127 + 0.3 + 0.6*float64(r.N(100))/100) / 128
		}
		c.Note("center=%v width=%v", ce, w)
		lawTest(c, "Twin-CDT", 12000000, ce, w, discreteMass(ce, w), func() int64 { return s.Sample(ce) })
		c.NonTrivial()
	})
}

func TestC10_Coset(t *testing.T) {
	vh.Check(t, 24, 300, func(c *vh.Ctx) {
		w := drawWidth(c, 1.2, 40)
		s := csprng.NewTwinCDTGaussianSampler(w)
		ce := drawCenter(c)
		c.Note("coset=%v width=%v", ce, w)
		// y in ce+Z with the Gaussian law around zero, so y-ce is a discrete Gaussian around -ce
		lawTest(c, "Twin-CDT coset", 800000, -ce, w, discreteMass(-ce, w), func() int64 {
			y := s.SampleCoset(ce)
			k := math.Round(y - ce)
			if math.Abs(y-ce-k) > 1e-9*math.Max(1, math.Abs(ce)) {
				c.Fatalf("SampleCoset(%v) = %v is not in the coset", ce, y)
			}
			return int64(k)
		})
		c.NonTrivial()
	})
}

func TestC10_CopiesIndependent(t *testing.T) {
	vh.Check(t, 60, 600, func(c *vh.Ctx) {
		w := drawWidth(c, 20, 400)
		s := csprng.NewTwinCDTGaussianSampler(w)
		warm := c.SmallInt(0, 2000, "warm")
		for i := 0; i < warm; i++ {
			s.Sample(0.3)
		}
		ss := []*csprng.TwinCDTGaussianSampler{s, s.SafeCopy(), s.SafeCopy()}
		ss = append(ss, ss[1].SafeCopy())
		const n = 4000
		draws := make([][n]float64, len(ss))
		for i := 0; i < n; i++ {
			for k := range ss {
				draws[k][i] = (float64(ss[k].Sample(0.25)) - 0.25) / w
			}
		}
		for a := range ss {
			for b := 0; b < a; b++ {
				dot := 0.0
				for i := 0; i < n; i++ {
					dot += draws[a][i] * draws[b][i]
				}
				if z := dot / math.Sqrt(n); vh.NormalP(z) < vh.PThreshold {
					c.Fatalf("samplers %d and %d correlate: z=%.1f", a, b, z)
				}
			}
		}
		c.Note("width=%v warm=%d", w, warm)
		c.NonTrivial()
	})
}

func TestC10_FarTail(t *testing.T) {
	vh.Check(t, 3, 30, func(c *vh.Ctx) {
		ce, w := drawCenter(c), drawWidth(c, 1.2, 40)
		c.Note("center=%v width=%v", ce, w)
		base := csprng.NewTwinCDTGaussianSampler(w)
		farTail(c, "Twin-CDT", 300000000, ce, w, discreteMass(ce, w), func() func() int64 {
			s := base.SafeCopy()
			return func() int64 { return s.Sample(ce) }
		})
		c.NonTrivial()
	})
}
