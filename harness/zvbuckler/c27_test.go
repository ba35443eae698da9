package zvbuckler

import (
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

func sums[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n := c.Int(1, 5, "constraints")
	g := newGen[E](c, f, drawRank(c), c.Int(1, 4, "npw"), c.Int(2, 6, "nw"))
	g.maxDeg = c.Int(1, 3, "deg")
	g.repeat = c.Bool("repeat")
	for i := g.r.N(2); i >= 0; i-- {
		g.free(false)
		g.freePW()
	}
	if g.repeat {
		g.add(kArith)
	}
	for i := 0; i < n; i++ {
		g.add(kSum)
	}
	if len(g.sp.cons) == 0 {
		c.Skip()
	}
	g.finish()
	iff(g, 5)
}

func TestC27_SumCheck(t *testing.T) {
	vh.Check(t, 25, 800, func(c *vh.Ctx) {
		pick(c, sums[e110], sums[e220], sums[e440], sums[e880], sums[ebfv], sums[emult])
	})
}

func sumMask[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { maskChallenges[E](c, f, kSum) }

func TestC27_Mask(t *testing.T) {
	vh.Check(t, 8, 200, func(c *vh.Ctx) {
		pick(c, sumMask[s110], sumMask[s220], sumMask[s440], sumMask[s880], sumMask[sbfv], sumMask[smul])
	})
}
