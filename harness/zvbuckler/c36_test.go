package zvbuckler

import (
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/sp301415/ringo-snark/zverif/vj"
)

// circuitSizes compares the sizes that a compiled prover states with those of its proofs.
func circuitSizes[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := newGen[E](c, f, 1<<c.Int(0, 10, "log rank"), c.Int(0, 3, "npw"), c.Int(1, 6, "nw"))
	g.free(false)
	g.freePW()
	for i := c.Int(1, 4, "constraints"); i > 0; i-- {
		g.add([]int{kArith, kLin, kInf, kTwo, kSum}[g.r.N(5)])
	}
	if len(g.sp.cons) == 0 {
		c.Skip()
	}
	g.finish()
	pr := compile(c, g.sp, "Buckler!")
	pf, ok := pr.run(g.a)
	if !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	p := pr.prv.JindoParams
	if p.Batch() != len(pf.Witness) {
		c.Fatalf("the stated sizes are for %d commitments, the proof has %d", p.Batch(), len(pf.Witness))
	}
	if err := vj.CheckSizes(p, pf.Witness, pf.EvalProof); err != "" {
		c.Fatalf("%s: %v", err, g.sp)
	}
	c.NonTrivial()
}

func TestC36_Circuits(t *testing.T) {
	vh.Check(t, 12, 400, func(c *vh.Ctx) {
		pick(c, circuitSizes[e110], circuitSizes[e220], circuitSizes[e440], circuitSizes[e880], circuitSizes[ebfv], circuitSizes[emult])
	})
}
