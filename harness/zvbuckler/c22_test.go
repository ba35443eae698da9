package zvbuckler

import (
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

func linear[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n := c.Int(1, 5, "constraints")
	g := newGen[E](c, f, drawRank(c), 1, c.Int(4, 8, "nw"))
	g.repeat = c.Bool("repeat")
	g.free(false)
	for i := 0; i < n; i++ {
		g.add(kLin)
	}
	if c.Bool("arith too") {
		g.add(kArith)
	}
	if len(g.closable(kLin)) == 0 {
		c.Skip()
	}
	g.finish()
	iff(g, 4)
}

func TestC22_Linear(t *testing.T) {
	vh.Check(t, 25, 800, func(c *vh.Ctx) {
		pick(c, linear[e110], linear[e220], linear[e440], linear[e880], linear[ebfv], linear[emult])
	})
}

// repeated relates the same few witnesses over and over.
func repeated[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := newGen[E](c, f, []int{2, 4, 8}[c.Int(0, 2, "rank")], 0, 0)
	g.repeat = true
	for i := c.Int(0, 1, "others"); i >= 0; i-- {
		g.free(false)
	}
	if c.Int(0, 2, "first") > 0 {
		for i := 0; i < 5 && !g.add(kLin); i++ {
		}
	}
	tied := 0
	for i := 1 + g.r.N(2); i > 0; i-- {
		k := &con[E]{kind: kLin, closeW: -1, closePW: -1}
		if g.tie(k) {
			g.done(k)
			tied++
		}
	}
	if tied == 0 {
		c.Skip()
	}
	if c.Bool("shuffle") {
		shuffleCons(g)
	}
	g.finish()
	iff(g, 4)
}

func TestC22_Repeated(t *testing.T) {
	vh.Check(t, 32, 800, func(c *vh.Ctx) {
		pickLight(c, repeated[e110], repeated[e220], repeated[ebfv], repeated[emult])
	})
}

// diagonal relates a few pairs by one map, or two, and breaks two of them by opposite residuals.
func diagonal[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n := c.Int(2, 3, "constraints")
	g := newGen[E](c, f, []int{2, 4, 8}[c.Int(0, 2, "rank")], 0, 2*n)
	g.diag = true
	g.free(false)
	for range n {
		k := &con[E]{kind: kLin, closeW: -1, closePW: -1}
		if len(g.mapPool) == 0 || c.Int(0, 5, "another map") == 0 {
			g.mapPool = append(g.mapPool, drawMap[E](c, g.r, g.sp.N, f.P))
		}
		k.m = g.mapPool[len(g.mapPool)-1]
		if c.Bool("chained") {
			k.w = g.anyW()
		} else if k.w = g.free(false); k.w < 0 {
			k.w = g.anyW()
		}
		k.out = pop(&g.wU)
		if k.out < 0 {
			break
		}
		k.closeW = k.out
		g.done(k)
	}
	if len(g.sp.cons) < 2 {
		c.Skip()
	}
	g.finish()
	iff(g, 12)
}

func TestC22_Diagonal(t *testing.T) {
	vh.Check(t, 16, 400, func(c *vh.Ctx) {
		pickLight(c, diagonal[e110], diagonal[e220], diagonal[ebfv], diagonal[emult])
	})
}

func linMask[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { maskChallenges[E](c, f, kLin) }

func TestC22_Mask(t *testing.T) {
	vh.Check(t, 8, 200, func(c *vh.Ctx) {
		pick(c, linMask[s110], linMask[s220], linMask[s440], linMask[s880], linMask[sbfv], linMask[smul])
	})
}
