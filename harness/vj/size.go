// Package vj measures the messages of the evaluation protocol.
package vj

import (
	"fmt"
	"math"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// span returns the number of coefficients of the elements and the range they cover.
func span(r *ring.Ring, ps []ring.Poly) (int, *big.Int) {
	Q := r.Modulus()
	half := new(big.Int).Rsh(Q, 1)
	var gad []*big.Int
	for _, s := range r.SubRings {
		q := new(big.Int).SetUint64(s.Modulus)
		d := new(big.Int).Div(Q, q)
		gad = append(gad, d.Mul(d, new(big.Int).ModInverse(d, q)))
	}
	n := 0
	lo, hi := new(big.Int), new(big.Int)
	x, m := new(big.Int), new(big.Int)
	for _, p := range ps {
		t := r.NewPoly()
		for l := range r.SubRings {
			copy(t.Coeffs[l], p.Coeffs[l])
		}
		r.IMForm(t, t)
		r.INTT(t, t)
		for i := range t.Coeffs[0] {
			x.SetUint64(0)
			for l := range r.SubRings {
				m.SetUint64(t.Coeffs[l][i])
				x.Add(x, m.Mul(m, gad[l]))
			}
			if x.Mod(x, Q).Cmp(half) > 0 {
				x.Sub(x, Q)
			}
			if x.Cmp(lo) < 0 {
				lo.Set(x)
			}
			if x.Cmp(hi) > 0 {
				hi.Set(x)
			}
			n++
		}
	}
	return n, hi.Sub(hi, lo)
}

// bits counts every polynomial at the width of its own range.
func bits(r *ring.Ring, ps []ring.Poly) (sum float64) {
	for i := range ps {
		sum += polyBits(r, ps[i:i+1])
	}
	return
}

func polyBits(r *ring.Ring, ps []ring.Poly) float64 {
	n, w := span(r, ps)
	f, e := new(big.Float), 0
	e = f.SetInt(w.Add(w, big.NewInt(1))).MantExp(f)
	v, _ := f.Float64()
	return float64(n) * (math.Log2(v) + float64(e))
}

// Bits returns the bits needed to write the commitments, respectively the proof, when every polynomial
// has its coefficients written with as many bits as their range needs.
func Bits(p jindo.Parameters, coms []*jindo.Commitment, pf *jindo.Proof) (com, proof float64) {
	for _, c := range coms {
		com += bits(p.RingQOut(), c.Value)
	}
	r := p.RingQ()
	proof = bits(r, pf.Partial) + bits(r, []ring.Poly{pf.PartialMask}) + bits(r, pf.Encode) +
		bits(r, pf.MLWE) + bits(p.RingQOut(), pf.InCommit)
	return com, proof
}

// CheckSizes compares the stated sizes with those of an honest commitment and proof.
// The commitment's is exact up to the rounding of the cut-off to a power of two; the proof's
// rests on tail bounds for the responses and is some 3 to 12% too large for polynomials of full length.
func CheckSizes(p jindo.Parameters, coms []*jindo.Commitment, pf *jindo.Proof) string {
	com, proof := Bits(p, coms, pf)
	if q := com / p.CommitmentSize(); q < 0.98 || q > 1.15 {
		return fmt.Sprintf("the commitments take %.0f bits, stated are %.0f", com, p.CommitmentSize())
	}
	if q := proof / p.ProofSize(); q < 0.82 || q > 1 {
		return fmt.Sprintf("the proof takes %.0f bits, stated are %.0f", proof, p.ProofSize())
	}
	return ""
}
