package zvjindo

import (
	"math"
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// norms recomputes, from the protocol and with the challenges of the transcript, the squared
// norms the verifier bounds: of the response with its rounding remainders, and of the
// decomposed inner commitments with theirs.
func norms[E bignum.Uint[E]](in *inst[E], ck *jindo.CommitKey, com []*jindo.Commitment, pf *jindo.Proof, tr *transcript) (inner, outer *big.Int) {
	p := in.params
	rq, ro := p.RingQ(), p.RingQOut()
	inner, outer = new(big.Int), new(big.Int)
	for i := range pf.Encode {
		inner.Add(inner, sqNorm(coeffsOf(rq, pf.Encode[i])))
	}
	for i := range pf.MLWE {
		inner.Add(inner, sqNorm(coeffsOf(rq, pf.MLWE[i])))
	}
	cut := new(big.Int).Lsh(big.NewInt(1), uint(p.LogInCutOff()))
	for i := 0; i < p.InMSISRank(); i++ {
		acc := rq.NewPoly()
		for j := 0; j <= p.Cols(); j++ {
			t := fromCoeffs(rq, coeffsOf(ro, pf.InCommit[j*p.InMSISRank()+i]))
			if j < p.Cols() {
				rq.MulCoeffsMontgomeryThenAdd(t, tr.chals[j], acc)
			} else {
				rq.Add(acc, t, acc)
			}
		}
		co := coeffsOf(rq, acc)
		for k := range co {
			co[k].Mul(co[k], cut)
		}
		acc = fromCoeffs(rq, co)
		rq.Sub(acc, matrixProduct(rq, ck.In[i], pf.Encode), acc)
		rq.Sub(acc, matrixProduct(rq, ck.MLWE[i], pf.MLWE[:p.MLWERank()]), acc)
		rq.Sub(acc, pf.MLWE[p.MLWERank()+i], acc)
		inner.Add(inner, sqNorm(coeffsOf(rq, acc)))
	}
	cut.Lsh(big.NewInt(1), uint(p.OutCutOff()))
	for j := range pf.InCommit {
		outer.Add(outer, sqNorm(coeffsOf(ro, limbs(ro, pf.InCommit[j]))))
	}
	for i := 0; i < p.OutMSISRank(); i++ {
		acc := ro.NewPoly()
		if in.batch == 1 {
			for l := range ro.SubRings {
				copy(acc.Coeffs[l], com[0].Value[i].Coeffs[l])
			}
		} else {
			for b := range com {
				ro.MulCoeffsMontgomeryThenAdd(limbs(ro, com[b].Value[i]), tr.batchOut[b], acc)
			}
		}
		co := coeffsOf(ro, acc)
		for k := range co {
			co[k].Mul(co[k], cut)
		}
		acc = fromCoeffs(ro, co)
		ro.Sub(acc, matrixProduct(ro, ck.Out[i], pf.InCommit), acc)
		outer.Add(outer, sqNorm(coeffsOf(ro, acc)))
	}
	return
}

func root(x *big.Int) float64 {
	f := new(big.Float).SetPrec(200).SetInt(x)
	f.Sqrt(f)
	v, _ := f.Float64()
	return v
}

// decide compares the verdict with the norms; near the bound either verdict is fine.
func decide[E bignum.Uint[E]](c *vh.Ctx, in *inst[E], what string, x E, y []E, com []*jindo.Commitment, pf *jindo.Proof, inner, outer *big.Int) (ratioIn, ratioOut float64) {
	p := in.params
	ratioIn, ratioOut = root(inner)/p.ResTwoNm(), root(outer)/p.InComDcmpTwoNm()
	if math.Abs(ratioIn-1) < 1e-9 || math.Abs(ratioOut-1) < 1e-9 {
		return
	}
	want := ratioIn < 1 && ratioOut < 1
	if got := in.vrf.Verify(x, com, y, pf); got != want {
		c.Fatalf("verdict %v with norms at %.9f and %.9f of the bounds (%s)", got, ratioIn, ratioOut, what)
	}
	c.Label("verdict:%v", want)
	return
}

// solve returns the largest-magnitude d of the given sign with (a+d)^2 + (r-d)^2 + rest = t2, rounded.
func solve(a, r, rest, t2 *big.Int, neg bool) *big.Int {
	// 2d^2 + 2(a-r)d + a^2+r^2+rest-t2 = 0
	k := new(big.Int).Sub(a, r)
	q := new(big.Int).Mul(a, a)
	q.Add(q, new(big.Int).Mul(r, r))
	q.Add(q, rest)
	q.Sub(q, t2)
	disc := new(big.Int).Mul(k, k)
	disc.Sub(disc, new(big.Int).Mul(big.NewInt(2), q))
	if disc.Sign() < 0 {
		return new(big.Int)
	}
	disc.Sqrt(disc)
	if neg {
		disc.Neg(disc)
	}
	disc.Sub(disc, k)
	return disc.Rsh(disc, 1)
}

// C16 rule: some response was judged within 1% of a bound.
func responseBound[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := drawInst[E](c, f, 2)
	p := in.params
	rq := p.RingQ()
	s := prove(c, in, in.prv)
	r := c.NewRNG("mut")
	ck := jindo.NewCommitKey(p, in.crs)
	tr := probe(in, s.x, s.v, s.com, s.pf.Partial, s.pf.PartialMask)
	if !tr.faithful {
		c.Label("probe failed")
		return
	}
	inner, outer := norms(in, ck, s.com, s.pf, tr)
	a, b := decide(c, in, "honest", s.x, s.y, s.com, s.pf, inner, outer)
	if a >= 1 || b >= 1 {
		c.Fatalf("an honest response is at %.3f and %.3f of the bounds", a, b)
	}
	t2 := bigF(p.ResTwoNm())
	t2.Mul(t2, t2)
	for k := 0; k < 4; k++ {
		i := r.N(p.InMSISRank())
		at := r.N(rq.N())
		noise := coeffsOf(rq, s.pf.MLWE[p.MLWERank()+i])[at]
		// the remainder at the same place, from a unit change
		pf := cloneProof(s.pf)
		addTo(rq, pf.MLWE[p.MLWERank()+i], monomial(rq, big.NewInt(1), at))
		n1, _ := norms(in, ck, s.com, pf, tr)
		// n1 - inner = 2(noise - rem) + 2
		rem := new(big.Int).Sub(n1, inner)
		rem.Sub(rem, big.NewInt(2)).Rsh(rem, 1)
		rem.Sub(noise, rem)
		rest := new(big.Int).Sub(inner, new(big.Int).Mul(noise, noise))
		rest.Sub(rest, new(big.Int).Mul(rem, rem))
		goal := new(big.Int).Set(t2)
		eps := []float64{1e-8, 1e-6, 1e-3, 1e-2, 0.05}[r.N(5)]
		above := r.N(2) == 0
		if !above {
			eps = -eps
		}
		g := new(big.Float).SetPrec(300).SetInt(goal)
		g.Mul(g, new(big.Float).SetFloat64((1+eps)*(1+eps)))
		g.Int(goal)
		d := solve(noise, rem, rest, goal, r.N(2) == 0)
		if n := len(rq.SubRings); n > 1 && r.N(4) == 0 { // nothing to see in some of the limbs
			d.SetInt64(int64(1 + r.N(3)))
			skip := r.N(n)
			for l := range rq.SubRings {
				if l != skip {
					d.Mul(d, new(big.Int).SetUint64(rq.SubRings[l].Modulus))
				}
			}
			if r.N(2) == 0 {
				d.Neg(d)
			}
		}
		pf = cloneProof(s.pf)
		addTo(rq, pf.MLWE[p.MLWERank()+i], monomial(rq, d, at))
		n2, _ := norms(in, ck, s.com, pf, tr)
		ratio, _ := decide(c, in, "noise moved into the response", s.x, s.y, s.com, pf, n2, outer)
		if math.Abs(ratio-1) < 0.01 {
			c.NonTrivial()
		}
	}
}

func TestC16_ResponseBound(t *testing.T) {
	vh.Check(t, 70, 3000, func(c *vh.Ctx) {
		pick(c, responseBound[e110], responseBound[e220], responseBound[e440], responseBound[e880], responseBound[ebfv], responseBound[emult], responseBound[ejin])
	})
}

// reCommit recomputes the inner and outer commitments of a crafted opening.
func reCommit(p jindo.Parameters, ck *jindo.CommitKey, o *jindo.Opening, cols ...int) {
	rq, ro := p.RingQ(), p.RingQOut()
	for _, j := range cols {
		for i := 0; i < p.InMSISRank(); i++ {
			t := matrixProduct(rq, ck.In[i], o.Encode[j])
			rq.Add(t, matrixProduct(rq, ck.MLWE[i], o.MLWE[j][:p.MLWERank()]), t)
			rq.Add(t, o.MLWE[j][p.MLWERank()+i], t)
			co := coeffsOf(rq, t)
			for k := range co {
				co[k].Rsh(co[k], uint(p.LogInCutOff()))
			}
			o.InCommit[j*p.InMSISRank()+i] = fromCoeffs(ro, co)
		}
	}
}

func outerCommit(p jindo.Parameters, ck *jindo.CommitKey, o *jindo.Opening) *jindo.Commitment {
	ro := p.RingQOut()
	com := jindo.NewCommitment(p)
	for i := range com.Value {
		co := coeffsOf(ro, matrixProduct(ro, ck.Out[i], o.InCommit))
		for k := range co {
			co[k].Rsh(co[k], uint(p.OutCutOff()))
		}
		t := fromCoeffs(ro, co)
		for l := range t.Coeffs {
			copy(com.Value[i].Coeffs[l], t.Coeffs[l])
		}
	}
	return com
}

// A committer that commits to oversized openings satisfying every linear relation.
func oversized[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := drawInst[E](c, f, 2)
	p := in.params
	rq, ro := p.RingQ(), p.RingQOut()
	s := prove(c, in, in.prv)
	r := c.NewRNG("mut")
	ck := jindo.NewCommitKey(p, in.crs)
	kind := vh.Pick(c, "kind", "mask row", "mask hiding", "column hiding", "inner commitment", "dense")
	c.Note("kind=%s", kind)
	c.Label("kind:%s", kind)
	scale := []float64{0.5, 0.9, 0.97, 1.03, 1.1, 2, 8}[r.N(7)]
	pos := r.N(in.batch)
	o := cloneOpen(s.open[pos])
	b := float64(p.Base())
	B := float64(p.ChallengeBound())
	one := math.Sqrt(float64(p.Exp()) * B * (B + 1) / 3) // typical challenge norm
	amp := scale * p.ResTwoNm()
	if in.batch > 1 {
		amp /= one
	}
	switch kind {
	case "mask row", "dense": // multiples of X^slots - base encode zero
		k := bigF(amp / b)
		if kind == "dense" {
			k = bigF(amp / b / math.Sqrt(float64(p.Rows()*rq.N())))
		}
		if k.Sign() == 0 {
			return
		}
		kb := new(big.Int).Mul(k, new(big.Int).SetUint64(p.Base()))
		add := func(row, at int) {
			co := make([]*big.Int, rq.N())
			for i := range co {
				co[i] = new(big.Int)
			}
			co[at].Sub(co[at], kb)
			if t := at + p.Slots(); t < rq.N() {
				co[t].Add(co[t], k)
			} else {
				co[t-rq.N()].Sub(co[t-rq.N()], k)
			}
			addTo(rq, o.Encode[p.Cols()][row], fromCoeffs(rq, co))
		}
		if kind == "mask row" {
			add(r.N(p.Rows()), r.N(rq.N()))
		} else {
			for i := 0; i < p.Rows(); i++ {
				co := make([]*big.Int, rq.N())
				for j := range co {
					co[j] = new(big.Int).Set(kb)
					if r.N(2) == 0 {
						co[j].Neg(co[j])
					}
				}
				// (X^slots - b) * (co / -b) as a whole
				h := make([]*big.Int, rq.N())
				for j := range h {
					h[j] = new(big.Int).Set(co[j])
					q := new(big.Int).Quo(co[(j-p.Slots()+rq.N())%rq.N()], new(big.Int).SetUint64(p.Base()))
					if j-p.Slots() < 0 {
						h[j].Add(h[j], q)
					} else {
						h[j].Sub(h[j], q)
					}
				}
				addTo(rq, o.Encode[p.Cols()][i], fromCoeffs(rq, h))
			}
		}
		reCommit(p, ck, o, p.Cols())
	case "mask hiding":
		addTo(rq, o.MLWE[p.Cols()][r.N(p.MLWERank())], monomial(rq, bigF(amp), r.N(rq.N())))
		reCommit(p, ck, o, p.Cols())
	case "column hiding":
		j := r.N(p.Cols())
		addTo(rq, o.MLWE[j][r.N(p.MLWERank())], monomial(rq, bigF(amp/one), r.N(rq.N())))
		reCommit(p, ck, o, j)
	case "inner commitment": // multiples of the inner modulus vanish in the inner relation
		amp = scale * p.InComDcmpTwoNm()
		if in.batch > 1 {
			amp /= one
		}
		q, cut := rq.Modulus(), math.Exp2(float64(p.LogInCutOff()))
		qf, _ := new(big.Float).SetInt(q).Float64()
		n := 1 + r.N(8)
		m := int64(math.Round(amp / (qf / cut) / math.Sqrt(float64(n))))
		roHalf := new(big.Int).Rsh(ro.Modulus(), 1)
		for k := 0; k < n; k++ {
			d := new(big.Int).Mul(q, big.NewInt(m))
			d.Add(d, new(big.Int).Lsh(big.NewInt(1), uint(p.LogInCutOff()-1)))
			d.Rsh(d, uint(p.LogInCutOff()))
			if d.CmpAbs(roHalf) >= 0 {
				return
			}
			if r.N(2) == 0 {
				d.Neg(d)
			}
			addTo(ro, limbs(ro, o.InCommit[p.Cols()*p.InMSISRank()+r.N(p.InMSISRank())]), monomial(ro, d, r.N(ro.N())))
		}
	}
	com := append([]*jindo.Commitment{}, s.com...)
	open := append([]*jindo.Opening{}, s.open...)
	com[pos], open[pos] = outerCommit(p, ck, o), o
	y, pf := in.prv.Evaluate(s.x, s.v, com, open)
	tr := probe(in, s.x, s.v, com, pf.Partial, pf.PartialMask)
	if !tr.faithful {
		c.Label("probe failed")
		return
	}
	inner, outer := norms(in, ck, com, pf, tr)
	a, bb := decide(c, in, kind, s.x, y, com, pf, inner, outer)
	if math.Abs(a-1) < 0.2 || math.Abs(bb-1) < 0.2 {
		c.NonTrivial()
	}
	if a > 1 {
		c.Label("inner above")
	}
	if bb > 1 {
		c.Label("outer above")
	}
}

func TestC16_OversizedOpenings(t *testing.T) {
	vh.Check(t, 150, 5000, func(c *vh.Ctx) {
		pick(c, oversized[e110], oversized[e220], oversized[e440], oversized[e880], oversized[ebfv], oversized[emult], oversized[ejin])
	})
}

var _ ring.Poly
