package zvmath

import (
	"testing"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// C09 rule: every case is a histogram test of n draws at a drawn center and width.
func cosacCase(c *vh.Ctx, lo, hi float64, n int64) {
	ce, w := drawCenter(c), drawWidth(c, lo, hi)
	s := csprng.NewCOSACSampler()
	c.Note("center=%v width=%v n=%d", ce, w, n)
	lawTest(c, "COSAC", n, ce, w, discreteMass(ce, w), func() int64 { return s.Sample(ce, w) })
	c.NonTrivial()
}

func TestC09_NarrowWidths(t *testing.T) {
	vh.Check(t, 30, 400, func(c *vh.Ctx) { cosacCase(c, 1.2, 6, 1000000) })
}

func TestC09_MediumWidths(t *testing.T) {
	vh.Check(t, 20, 250, func(c *vh.Ctx) { cosacCase(c, 6, 300, 1500000) })
}

func TestC09_WideLaw(t *testing.T) {
	vh.Check(t, 6, 60, func(c *vh.Ctx) { cosacCase(c, 300, 1e12, 5000000) })
}

// The parameters may change from call to call: alternating two laws on one sampler keeps each law.
func TestC09_Interleaved(t *testing.T) {
	vh.Check(t, 8, 100, func(c *vh.Ctx) {
		ce, w := drawCenter(c), drawWidth(c, 1.2, 100)
		ce2, w2 := drawCenter(c), drawWidth(c, 1.2, 1e6)
		s := csprng.NewCOSACSampler()
		c.Note("center=%v width=%v with center=%v width=%v", ce, w, ce2, w2)
		lawTest(c, "COSAC interleaved", 1000000, ce, w, discreteMass(ce, w), func() int64 {
			s.Sample(ce2, w2)
			return s.Sample(ce, w)
		})
		c.NonTrivial()
	})
}

func TestC09_FarTail(t *testing.T) {
	vh.Check(t, 3, 30, func(c *vh.Ctx) {
		ce, w := drawCenter(c), drawWidth(c, 1.2, 12)
		c.Note("center=%v width=%v", ce, w)
		farTail(c, "COSAC", 160000000, ce, w, discreteMass(ce, w), func() func() int64 {
			s := csprng.NewCOSACSampler()
			return func() int64 { return s.Sample(ce, w) }
		})
		c.NonTrivial()
	})
}
