package zvbuckler

import (
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// iff compares verdicts with the direct evaluation of the constraints: on the satisfying
// assignment and on generated violations.
func iff[E bignum.Uint[E]](g *gen[E], tries int) {
	c := g.c
	if bad := g.sp.failing(g.a); len(bad) > 0 {
		c.Fatalf("VERIF-INTERNAL: generated assignment fails %v of %v", bad, g.sp)
	}
	pr := compile(c, g.sp, "Buckler!")
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	rejected := 0
	for t := 0; t < tries; t++ {
		a, what := g.violate()
		bad := g.sp.failing(a)
		_, ok := pr.run(a)
		if ok != (len(bad) == 0) {
			c.Fatalf("verdict %v with constraints %v violated (%s): %v", ok, bad, what, g.sp)
		}
		c.Label("%s", what)
		if len(bad) == 1 {
			c.Label("exactly one %s violated", kindName[g.sp.cons[bad[0]].kind])
		}
		if len(bad) > 0 {
			rejected++
		}
	}
	if rejected > 0 {
		c.NonTrivial()
	}
}

var ranks = []int{1, 2, 4, 8, 8, 16, 16, 32, 64, 128}

func drawRank(c *vh.Ctx) int { return ranks[c.Int(0, len(ranks)-1, "rank")] }

func arithmetic[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n := c.Int(1, 5, "constraints")
	g := newGen[E](c, f, drawRank(c), c.Int(1, 4, "npw"), c.Int(2, 6, "nw"))
	g.maxDeg = c.Int(1, 4, "deg")
	g.repeat = c.Bool("repeat")
	for i := g.r.N(3); i >= 0; i-- {
		g.free(false)
		g.freePW()
	}
	for i := 0; i < n; i++ {
		g.add(kArith)
	}
	if len(g.sp.cons) == 0 {
		c.Skip()
	}
	g.finish()
	iff(g, 5)
}

func TestC21_Arithmetic(t *testing.T) {
	vh.Check(t, 100, 4000, func(c *vh.Ctx) {
		pick(c, arithmetic[e110], arithmetic[e220], arithmetic[e440], arithmetic[e880], arithmetic[ebfv], arithmetic[emult])
	})
}
