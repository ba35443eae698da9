package zvbuckler

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func cpPolys(v []ring.Poly) []ring.Poly {
	out := make([]ring.Poly, len(v))
	for i := range v {
		out[i] = *v[i].CopyNew()
	}
	return out
}

// deepProof copies a proof completely.
func deepProof[E bignum.Uint[E]](pf *buckler.Proof[E]) *buckler.Proof[E] {
	q := &buckler.Proof[E]{Evals: vh.Clone(pf.Evals)}
	for _, cm := range pf.Witness {
		q.Witness = append(q.Witness, &jindo.Commitment{Value: cpPolys(cm.Value)})
	}
	var z E
	if any(pf.LinCheckMaskSum) != any(z) {
		q.LinCheckMaskSum = z.New().Set(pf.LinCheckMaskSum)
	}
	if any(pf.SumCheckMaskSum) != any(z) {
		q.SumCheckMaskSum = z.New().Set(pf.SumCheckMaskSum)
	}
	e := pf.EvalProof
	q.EvalProof = &jindo.Proof{InCommit: cpPolys(e.InCommit), Partial: cpPolys(e.Partial), PartialMask: *e.PartialMask.CopyNew(), Encode: cpPolys(e.Encode), MLWE: cpPolys(e.MLWE)}
	return q
}

func polyBytes(b *bytes.Buffer, v ...ring.Poly) {
	for i := range v {
		fmt.Fprint(b, v[i].Coeffs)
	}
}

// proofBytes identifies a proof.
func proofBytes[E bignum.Uint[E]](pf *buckler.Proof[E]) string {
	var b bytes.Buffer
	for _, cm := range pf.Witness {
		polyBytes(&b, cm.Value...)
		b.WriteByte('|')
	}
	var z E
	for _, e := range append(append([]E{}, pf.Evals...), pf.LinCheckMaskSum, pf.SumCheckMaskSum) {
		if any(e) != any(z) {
			b.Write(e.Marshal())
		}
		b.WriteByte('|')
	}
	e := pf.EvalProof
	for _, v := range [][]ring.Poly{e.InCommit, e.Partial, {e.PartialMask}, e.Encode, e.MLWE} {
		polyBytes(&b, v...)
		b.WriteByte('|')
	}
	return b.String()
}

// bump changes one residue of one element of the vector.
func bumpPoly(r *vh.RNG, rg *ring.Ring, v []ring.Poly) string {
	i := r.N(len(v))
	l := r.N(len(v[i].Coeffs))
	k := r.N(len(v[i].Coeffs[l]))
	q := rg.SubRings[l].Modulus
	if r.N(4) == 0 { // the same element written differently
		v[i].Coeffs[l][k] += q
		return fmt.Sprintf("[%d] residue %d/%d not reduced", i, l, k)
	}
	v[i].Coeffs[l][k] = (v[i].Coeffs[l][k] + 1 + r.U64()%(q-1)) % q
	return fmt.Sprintf("[%d] residue %d/%d", i, l, k)
}

// alter changes a copy of a proof; o is another accepted proof for the same circuit.
func alter[E bignum.Uint[E]](r *vh.RNG, params jindo.Parameters, p *big.Int, pf, o *buckler.Proof[E]) (*buckler.Proof[E], string) {
	q := deepProof(pf)
	n := len(q.Witness)
	i := r.N(n)
	var z E
	d := z.New().SetUint64(1)
	if r.N(2) == 0 {
		d = vh.FromBig[E](r.Interesting(p))
	}
	bumpE := func(x E) { x.Add(x, d) }
	op := r.N(18)
	what := ""
	switch op {
	case 0:
		what = "commitment" + bumpPoly(r, params.RingQOut(), q.Witness[i].Value)
	case 1:
		q.Witness[i] = o.Witness[i]
		what = fmt.Sprintf("commitment %d of another proof", i)
	case 2:
		j := r.N(n)
		q.Witness[i], q.Witness[j] = q.Witness[j], q.Witness[i]
		what = fmt.Sprintf("commitments %d and %d swapped", i, j)
	case 3:
		bumpE(q.Evals[i])
		what = fmt.Sprintf("evaluation %d changed", i)
	case 4:
		j := r.N(n)
		q.Evals[i], q.Evals[j] = q.Evals[j], q.Evals[i]
		what = fmt.Sprintf("evaluations %d and %d swapped", i, j)
	case 5:
		q.Evals[i] = o.Evals[i]
		what = fmt.Sprintf("evaluation %d of another proof", i)
	case 6:
		q.EvalProof = o.EvalProof
		what = "evaluation proof of another proof"
	case 7:
		what = "InCommit" + bumpPoly(r, params.RingQOut(), q.EvalProof.InCommit)
	case 8:
		what = "Partial" + bumpPoly(r, params.RingQ(), q.EvalProof.Partial)
	case 9:
		what = "PartialMask" + bumpPoly(r, params.RingQ(), []ring.Poly{q.EvalProof.PartialMask})
	case 10:
		what = "Encode" + bumpPoly(r, params.RingQ(), q.EvalProof.Encode)
	case 11:
		what = "MLWE" + bumpPoly(r, params.RingQ(), q.EvalProof.MLWE)
	case 12: // the mask sums, alone or together with an evaluation
		if any(q.LinCheckMaskSum) != any(z) {
			bumpE(q.LinCheckMaskSum)
		} else if any(q.SumCheckMaskSum) != any(z) {
			bumpE(q.SumCheckMaskSum)
		}
		what = "first mask sum changed"
	case 13:
		if any(q.SumCheckMaskSum) != any(z) {
			bumpE(q.SumCheckMaskSum)
		}
		what = "second mask sum changed"
	case 14:
		if any(q.SumCheckMaskSum) != any(z) && any(q.LinCheckMaskSum) != any(z) {
			q.SumCheckMaskSum, q.LinCheckMaskSum = q.LinCheckMaskSum, q.SumCheckMaskSum
		}
		what = "mask sums swapped"
	case 15:
		for _, s := range []E{q.LinCheckMaskSum, q.SumCheckMaskSum} {
			if any(s) != any(z) {
				bumpE(s)
				bumpE(q.Evals[i])
				what = fmt.Sprintf("a mask sum and evaluation %d changed alike", i)
				break
			}
		}
	case 16:
		q.LinCheckMaskSum, q.SumCheckMaskSum = o.LinCheckMaskSum, o.SumCheckMaskSum
		what = "mask sums of another proof"
	case 17: // everything but one part from the other proof
		q2 := deepProof(o)
		switch r.N(4) {
		case 0:
			q2.Witness[i] = q.Witness[i]
		case 1:
			q2.Evals[i] = q.Evals[i]
		case 2:
			q2.EvalProof = q.EvalProof
		case 3:
			q2.Witness, q2.Evals = q.Witness, q.Evals
		}
		q = q2
		what = "two proofs spliced"
	}
	return q, what
}

func altered[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := everything[E](c, f, []int{kArith, kLin, kSum}[c.Int(0, 2, "must")], []int{kLin, kSum}[c.Int(0, 1, "must2")])
	pr := compile(c, g.sp, "Buckler!")
	pf, ok := pr.run(g.a)
	pf2, ok2 := pr.run(g.a)
	if !ok || !ok2 {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	orig, orig2 := proofBytes(pf), proofBytes(pf2)
	pub := g.sp.fill(g.a, true)
	n := 0
	for t := 0; t < 24; t++ {
		q, what := alter(g.r, pr.prv.JindoParams, f.P, pf, pf2)
		if s := proofBytes(q); s == orig || s == orig2 {
			continue
		}
		if pr.vrf.Verify(pub, q) {
			c.Fatalf("an altered proof is accepted (%s): %v", what, g.sp)
		}
		n++
	}
	if !pr.vrf.Verify(pub, pf) || !pr.vrf.Verify(pub, pf2) {
		c.Fatalf("the unaltered proof is rejected afterwards: %v", g.sp)
	}
	if n > 10 {
		c.NonTrivial()
	}
}

func TestC31_Altered(t *testing.T) {
	vh.Check(t, 30, 1500, func(c *vh.Ctx) {
		pick(c, altered[e110], altered[e220], altered[e440], altered[e880], altered[ebfv], altered[emult])
	})
}

// messageChallenges: a challenge after each message depends on it.
func messageChallenges[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	var g *gen[E]
	if c.Int(0, 5, "approx") == 0 {
		g = approxSpec[E](c, f, true)
	} else {
		g = everything[E](c, f, []int{kLin, kSum}[c.Int(0, 1, "must")], []int{kInf, kTwo, kArith}[c.Int(0, 2, "must2")])
	}
	pr := compile(c, g.sp, "Buckler!")
	pf, err := pr.prv.Prove(g.sp.fill(g.a, false))
	pf2, err2 := pr.prv.Prove(g.sp.fill(g.a, false))
	if err != nil || err2 != nil {
		c.Fatalf("%v %v", err, err2)
	}
	pub := g.sp.fill(g.a, true)
	base := watch(func() {
		if !pr.vrf.Verify(pub, pf) {
			c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
		}
	})
	if len(base) == 0 {
		c.Label("no challenge seen")
		return
	}
	try := func(what string, q *buckler.Proof[E], first bool) {
		ok := false
		seen := watch(func() { ok = pr.vrf.Verify(pub, q) })
		if ok {
			c.Fatalf("an altered proof is accepted (%s): %v", what, g.sp)
		}
		if len(seen) == 0 {
			return
		}
		some, all := shares(seen, base)
		if all || first && some {
			c.Fatalf("challenges do not depend on %s: %v", what, g.sp)
		}
		c.NonTrivial()
	}
	nw := len(g.a.w)
	for i := range pf.Witness {
		q := cloneProof(pf)
		q.Witness[i] = pf2.Witness[i]
		try(fmt.Sprintf("commitment %d of %d", i, len(pf.Witness)), q, i < nw)
		// in every residue
		q = deepProof(pf)
		w := bumpPoly(g.r, pr.prv.JindoParams.RingQOut(), q.Witness[i].Value)
		try(fmt.Sprintf("commitment %d%s", i, w), q, i < nw)
	}
	var z E
	if any(pf.LinCheckMaskSum) != any(z) {
		q := cloneProof(pf)
		q.LinCheckMaskSum = pf2.LinCheckMaskSum
		try("the mask sum of the linear check", q, true)
	}
	if any(pf.SumCheckMaskSum) != any(z) {
		q := cloneProof(pf)
		q.SumCheckMaskSum = pf2.SumCheckMaskSum
		try("the mask sum of the sum check", q, true)
	}
}

func TestC31_Challenges(t *testing.T) {
	vh.Check(t, 12, 400, func(c *vh.Ctx) {
		pick(c, messageChallenges[s110], messageChallenges[s220], messageChallenges[s440], messageChallenges[s880], messageChallenges[sbfv], messageChallenges[smul])
	})
}
