package zvjindo

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/sp301415/ringo-snark/zverif/vj"
)

func sizeEstimate[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	r := c.NewRNG("size")
	batch := 1
	if r.N(2) == 0 {
		batch = 2 + r.N(9)
	}
	N := 1 + int(r.U64()%(1<<uint(1+r.N(14))))
	if batch > 1 {
		N = min(N, 4000)
	}
	c.Note("N=%d batch=%d", N, batch)
	in := newInst[E](f, N, batch, []byte("Jindo!"))
	s := &statement[E]{xBig: r.Big(f.P)}
	s.x = vh.FromBig[E](s.xBig)
	for range batch { // polynomials of full length: rows past the end of a shorter one are left out
		v := make([]*big.Int, in.params.Rank())
		for i := range v {
			v[i] = r.Big(f.P)
		}
		s.vals = append(s.vals, v)
		s.v = append(s.v, vh.Vec[E](v))
	}
	s.commit(in.prv)
	s.y, s.pf = in.prv.Evaluate(s.x, s.v, s.com, s.open)
	if err := vj.CheckSizes(in.params, s.com, s.pf); err != "" {
		c.Fatalf("%s", err)
	}
	c.NonTrivial()
}

func TestC36_Evaluations(t *testing.T) {
	vh.Check(t, 100, 3000, func(c *vh.Ctx) {
		pick(c, sizeEstimate[e110], sizeEstimate[e220], sizeEstimate[e440], sizeEstimate[e880], sizeEstimate[ebfv], sizeEstimate[emult], sizeEstimate[ejin])
	})
}
