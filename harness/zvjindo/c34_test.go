package zvjindo

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/buckler/zverif/vb"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// C34 rule: the malformation changes a part of a proof that would otherwise be accepted.
func malformed[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{5, 64, 300, 1024}[c.Int(0, 3, "N")]
	N, batch := scaled(c, N, c.Int(1, 3, "batch"))
	in := getInst[E](f, N, batch, "Jindo!")
	c.Note("N=%d batch=%d", N, in.batch)
	s := prove(c, in, in.prv)
	r := c.NewRNG("mut")
	try := func(what string, com []*jindo.Commitment, y []E, pf *jindo.Proof) {
		var ok bool
		if p, v := vh.MustPanic(func() { ok = in.vrf.Verify(s.x, com, y, pf) }); p {
			c.Fatalf("verification panics: %s: %v", what, v)
		}
		if ok {
			c.Fatalf("accepted: %s", what)
		}
	}
	for k := 0; k < 12; k++ {
		com, y, pf := cloneComs(s.com), vh.Clone(s.y), cloneProof(s.pf)
		i := r.N(in.batch)
		var what string
		part := []string{"InCommit", "Partial", "PartialMask", "Encode", "MLWE", "commitment", "nil commitment", "values", "nil value", "nil proof", "empty proof", "commitments"}[k]
		var z E
		switch part {
		case "InCommit":
			what = vb.Damage(r, &pf.InCommit)
		case "Partial":
			what = vb.Damage(r, &pf.Partial)
		case "PartialMask":
			what = vb.DamagePoly(r, &pf.PartialMask)
		case "Encode":
			what = vb.Damage(r, &pf.Encode)
		case "MLWE":
			what = vb.Damage(r, &pf.MLWE)
		case "commitment":
			what = vb.Damage(r, &com[i].Value)
		case "nil commitment":
			com[i] = nil
		case "values":
			if r.N(2) == 0 {
				y = y[:r.N(in.batch)]
				what = "short"
			} else {
				y = append(y, vh.FromBig[E](big.NewInt(int64(r.N(3)))))
				what = "long"
			}
		case "nil value":
			y[i] = z
		case "nil proof":
			pf = nil
		case "empty proof":
			pf = &jindo.Proof{}
		case "commitments":
			if r.N(2) == 0 {
				com = com[:r.N(in.batch)]
				what = "short"
			} else {
				com = append(com, com[r.N(in.batch)])
				what = "long"
			}
		}
		c.Label("%s", part)
		try(part+" "+what, com, y, pf)
	}
	mustAccept(c, in, "the honest proof afterwards", s.x, s.com, s.y, s.pf)
	c.NonTrivial()
}

func TestC34_EvaluationProofs(t *testing.T) {
	vh.Check(t, 90, 4000, func(c *vh.Ctx) {
		pick(c, malformed[e110], malformed[e220], malformed[e440], malformed[e880], malformed[ebfv], malformed[emult], malformed[ejin])
	})
}
