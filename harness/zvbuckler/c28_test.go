package zvbuckler

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

func mixed[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n := c.Int(2, 7, "constraints")
	g := newGen[E](c, f, []int{2, 4, 8, 16, 32, 64}[c.Int(0, 5, "rank")], c.Int(1, 4, "npw"), c.Int(3, 7, "nw"))
	g.maxDeg = c.Int(1, 3, "deg")
	g.maxInf = 1 + c.Int(0, min(6, g.sp.N/2), "inf")
	g.repeat = c.Bool("repeat")
	g.free(false)
	g.freePW()
	kinds := map[int]bool{}
	for i := 0; i < n; i++ {
		k := []int{kArith, kLin, kInf, kTwo, kSum}[g.r.N(5)]
		if g.add(k) {
			kinds[k] = true
		}
	}
	if len(g.sp.cons) == 0 {
		c.Skip()
	}
	c.Label("kinds:%d", len(kinds))
	g.finish()
	iff(g, 4)
}

func TestC28_Mixed(t *testing.T) {
	vh.Check(t, 25, 800, func(c *vh.Ctx) {
		pick(c, mixed[e110], mixed[e220], mixed[e440], mixed[e880], mixed[ebfv], mixed[emult])
	})
}

// withApprox mixes approximate norm constraints with constraints of the other kinds and breaks
// one of the others, or an approximate one beyond its slack.
func withApprox[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := newGen[E](c, f, 2048, c.Int(1, 3, "npw"), c.Int(4, 7, "nw"))
	g.maxDeg = c.Int(1, 3, "deg")
	g.maxInf = 3
	g.free(false)
	g.freePW()
	kinds := []int{kApprox, kArith, kLin, kInf, kTwo, kSum, kApprox}
	g.add(kApprox)
	for i := c.Int(1, 4, "constraints"); i > 0; i-- {
		g.add(kinds[g.r.N(len(kinds))])
	}
	shuffleCons(g)
	approx := 0
	for _, k := range g.sp.cons {
		if k.kind == kApprox {
			approx++
			if k.bound.BitLen() > 5 {
				c.Skip() // the digits of the projection do not fit
			}
		}
	}
	if approx == 0 {
		c.Skip()
	}
	c.Label("approx:%d others:%d", approx, len(g.sp.cons)-approx)
	g.finish()
	pr := compile(c, g.sp, "Buckler!")
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	for t := 0; t < 4; t++ {
		a, what := g.violate()
		sure, unsure := false, false
		for _, i := range g.sp.failing(a) {
			k := g.sp.cons[i]
			if k.kind == kApprox && infNorm(a.w[k.w], f.P).Cmp(new(big.Int).Mul(k.bound, big.NewInt(4096))) <= 0 {
				unsure = true
			} else {
				sure = true
			}
		}
		if unsure && !sure {
			continue
		}
		if _, ok := pr.run(a); ok == sure {
			c.Fatalf("verdict %v with constraints %v violated (%s): %v", ok, g.sp.failing(a), what, g.sp)
		}
		if sure {
			c.NonTrivial()
		}
	}
}

func TestC28_Approx(t *testing.T) {
	vh.Check(t, 8, 200, func(c *vh.Ctx) {
		pick(c, withApprox[e110], withApprox[e220], withApprox[e440], withApprox[e880], withApprox[ebfv], withApprox[emult])
	})
}
