package zvjindo

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// slotRef names one ring element of a proof.
type slotRef struct {
	name string
	ring *ring.Ring
	poly *ring.Poly
	// noise elements only enter norms: small changes are within the tolerance
	noise bool
}

func elements(p jindo.Parameters, pf *jindo.Proof) []slotRef {
	var out []slotRef
	for i := range pf.InCommit {
		out = append(out, slotRef{fmt.Sprintf("InCommit[%d]", i), p.RingQOut(), &pf.InCommit[i], false})
	}
	for i := range pf.Partial {
		out = append(out, slotRef{fmt.Sprintf("Partial[%d]", i), p.RingQ(), &pf.Partial[i], false})
	}
	out = append(out, slotRef{"PartialMask", p.RingQ(), &pf.PartialMask, false})
	for i := range pf.Encode {
		out = append(out, slotRef{fmt.Sprintf("Encode[%d]", i), p.RingQ(), &pf.Encode[i], false})
	}
	for i := range pf.MLWE {
		out = append(out, slotRef{fmt.Sprintf("MLWE[%d]", i), p.RingQ(), &pf.MLWE[i], i >= p.MLWERank()})
	}
	return out
}

func groupOf(r slotRef) string { return string(bytes.SplitN([]byte(r.name), []byte("["), 2)[0]) }

func same(r *ring.Ring, a, b ring.Poly) bool {
	return bytes.Equal(polyBytes(limbs(r, a)), polyBytes(limbs(r, b)))
}

func zeroPoly(p *ring.Poly) {
	for l := range p.Coeffs {
		clear(p.Coeffs[l])
	}
}

// C15 rule: at least ten alterations of an accepted proof were tried.
func alteredProofs[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := drawInst[E](c, f, 3)
	p := in.params
	s := prove(c, in, in.prv)
	r := c.NewRNG("mut")
	mustAccept(c, in, "honest evaluation", s.x, s.com, s.y, s.pf)
	orig := proofBytes(s.pf)
	n := len(elements(p, s.pf))
	// one element of each group, and further ones at random
	byGroup := map[string][]int{}
	var groups []string
	for i, e := range elements(p, s.pf) {
		g := groupOf(e)
		if e.noise {
			g = "MLWE-noise"
		}
		if byGroup[g] == nil {
			groups = append(groups, g)
		}
		byGroup[g] = append(byGroup[g], i)
	}
	x2 := other(r, f.P, s.x)
	_, pf2 := in.prv.Evaluate(x2, s.v, s.com, s.open)
	s3 := &statement[E]{v: s.v, x: s.x}
	s3.commit(in.prv)
	_, pf3 := in.prv.Evaluate(s.x, s.v, s3.com, s3.open)
	tried := 0
	for k := 0; k < len(groups)*3; k++ {
		idx := byGroup[groups[k%len(groups)]][r.N(len(byGroup[groups[k%len(groups)]]))]
		pf := cloneProof(s.pf)
		e := elements(p, pf)[idx]
		q := e.ring.Modulus()
		var what string
		kind := r.N(8)
		switch kind {
		case 0, 1: // one residue of one limb in the transform domain
			bumpResidue(r, e.ring, *e.poly)
			what = "one residue changed"
		case 7: // the same element written differently
			l, i := r.N(len(e.ring.SubRings)), r.N(e.ring.N())
			m := e.ring.SubRings[l].Modulus
			e.poly.Coeffs[l][i] += m * (1 + r.U64()%(math.MaxUint64/m-1))
			what = "one residue not reduced"
		case 2: // one coefficient by a small amount or, for noise, by a large one
			d := big.NewInt(int64(1 + r.N(3)))
			if e.noise {
				d = new(big.Int).Add(bigF(3*p.ResTwoNm()), r.Big(new(big.Int).Rsh(q, 3)))
			}
			if r.N(2) == 0 {
				d.Neg(d)
			}
			i := r.N(e.ring.N())
			addTo(e.ring, limbs(e.ring, *e.poly), monomial(e.ring, d, i))
			what = fmt.Sprintf("coefficient %d changed by %v", i, d)
		case 3:
			if e.noise {
				continue
			}
			before := e.poly.CopyNew()
			zeroPoly(e.poly)
			if same(e.ring, *before, *e.poly) {
				continue
			}
			what = "zeroed"
		case 4, 5: // from another valid proof
			src := pf2
			what = "taken from the proof at another point"
			if kind == 5 {
				src = pf3
				what = "taken from a proof for other commitments to the same polynomials"
			}
			o := elements(p, src)[idx]
			if e.noise || same(e.ring, *o.poly, *e.poly) {
				continue
			}
			*e.poly = *o.poly.CopyNew()
		case 6: // swapped with another element of the same ring
			j := r.N(n)
			o := elements(p, pf)[j]
			if o.ring != e.ring || (e.noise && o.noise) || same(e.ring, *e.poly, *o.poly) || len(o.poly.Coeffs) != len(e.poly.Coeffs) {
				continue
			}
			*e.poly, *o.poly = *o.poly, *e.poly
			what = "swapped with " + o.name
		}
		c.Label("%s kind %d", groups[k%len(groups)], kind)
		tried++
		mustReject(c, in, e.name+" "+what, s.x, s.com, s.y, pf)
	}
	// whole groups from other proofs
	for g := 0; g < 5; g++ {
		for w, src := range []*jindo.Proof{pf2, pf3} {
			pf, o := cloneProof(s.pf), cloneProof(src)
			switch g {
			case 0:
				pf.InCommit = o.InCommit
			case 1:
				pf.Partial = o.Partial
			case 2:
				pf.PartialMask = o.PartialMask
			case 3:
				pf.Encode = o.Encode
			case 4:
				pf.MLWE = o.MLWE
			}
			if proofBytes(pf) == orig {
				continue
			}
			mustReject(c, in, fmt.Sprintf("part %d from another valid proof (%d)", g, w), s.x, s.com, s.y, pf)
		}
	}
	mustReject(c, in, "proof at another point", s.x, s.com, s.y, pf2)
	mustReject(c, in, "proof for other commitments to the same polynomials", s.x, s.com, s.y, pf3)
	mustAccept(c, in, "the unaltered proof", s.x, s.com, s.y, s.pf)
	if proofBytes(s.pf) != orig {
		c.Fatalf("verification modified the proof")
	}
	if tried >= 10 {
		c.NonTrivial()
	}
}

func TestC15_AlteredProofs(t *testing.T) {
	vh.Check(t, 50, 4000, func(c *vh.Ctx) {
		pick(c, alteredProofs[e110], alteredProofs[e220], alteredProofs[e440], alteredProofs[e880], alteredProofs[ebfv], alteredProofs[emult], alteredProofs[ejin])
	})
}

// Every element of one proof in turn, at a drawn coefficient and limb.
func everyElement[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := getInst[E](f, vh.Pick(c, "N", 33, 300), c.Int(1, 2, "batch"), "Jindo!")
	c.Note("N=%d batch=%d", in.N, in.batch)
	p := in.params
	s := prove(c, in, in.prv)
	r := c.NewRNG("mut")
	mustAccept(c, in, "honest evaluation", s.x, s.com, s.y, s.pf)
	n := len(elements(p, s.pf))
	for i := 0; i < n; i++ {
		pf := cloneProof(s.pf)
		e := elements(p, pf)[i]
		if r.N(2) == 0 {
			bumpResidue(r, e.ring, *e.poly)
		} else {
			l, k := r.N(len(e.ring.SubRings)), r.N(e.ring.N())
			e.poly.Coeffs[l][k] += e.ring.SubRings[l].Modulus
		}
		mustReject(c, in, e.name+" one residue changed", s.x, s.com, s.y, pf)
	}
	c.NonTrivial()
}

func TestC15_EveryElement(t *testing.T) {
	vh.Check(t, 16, 1000, func(c *vh.Ctx) {
		pick(c, everyElement[e110], everyElement[e220], everyElement[e440], everyElement[e880], everyElement[ebfv], everyElement[emult], everyElement[ejin])
	})
}
