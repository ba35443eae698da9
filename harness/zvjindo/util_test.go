package zvjindo

import (
	"bytes"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// Ring elements travel in Montgomery and NTT form; the helpers below convert
// them to and from signed integer coefficients.

func crt(r *ring.Ring) (gad []*big.Int) {
	Q := r.Modulus()
	for _, s := range r.SubRings {
		q := new(big.Int).SetUint64(s.Modulus)
		d := new(big.Int).Div(Q, q)
		i := new(big.Int).ModInverse(d, q)
		gad = append(gad, d.Mul(d, i))
	}
	return gad
}

// coeffsOf returns the balanced integer coefficients of an element in Montgomery-NTT form.
func coeffsOf(r *ring.Ring, p ring.Poly) []*big.Int {
	t := r.NewPoly()
	for l := range r.SubRings {
		copy(t.Coeffs[l], p.Coeffs[l])
	}
	r.IMForm(t, t)
	r.INTT(t, t)
	return balanced(r, t)
}

func balanced(r *ring.Ring, t ring.Poly) []*big.Int {
	gad := crt(r)
	Q := r.Modulus()
	half := new(big.Int).Rsh(Q, 1)
	out := make([]*big.Int, r.N())
	m := new(big.Int)
	for i := range out {
		out[i] = new(big.Int)
		for l := range r.SubRings {
			m.SetUint64(t.Coeffs[l][i])
			out[i].Add(out[i], m.Mul(m, gad[l]))
		}
		out[i].Mod(out[i], Q)
		if out[i].Cmp(half) > 0 {
			out[i].Sub(out[i], Q)
		}
	}
	return out
}

// fromCoeffs is the inverse of coeffsOf.
func fromCoeffs(r *ring.Ring, v []*big.Int) ring.Poly {
	t := r.NewPoly()
	m := new(big.Int)
	for l, s := range r.SubRings {
		q := new(big.Int).SetUint64(s.Modulus)
		for i := range v {
			t.Coeffs[l][i] = m.Mod(v[i], q).Uint64()
		}
	}
	r.MForm(t, t)
	r.NTT(t, t)
	return t
}

// monomial returns c*X^i in Montgomery-NTT form.
func monomial(r *ring.Ring, c *big.Int, i int) ring.Poly {
	v := make([]*big.Int, r.N())
	for k := range v {
		v[k] = new(big.Int)
	}
	v[i].Set(c)
	return fromCoeffs(r, v)
}

// addTo adds a (in ring r) to the used limbs of p.
func addTo(r *ring.Ring, p, a ring.Poly) {
	for l, s := range r.SubRings {
		for i := range p.Coeffs[l] {
			p.Coeffs[l][i] = (p.Coeffs[l][i] + a.Coeffs[l][i]) % s.Modulus
		}
	}
}

func sqNorm(vs ...[]*big.Int) *big.Int {
	s, m := new(big.Int), new(big.Int)
	for _, v := range vs {
		for _, x := range v {
			s.Add(s, m.Mul(x, x))
		}
	}
	return s
}

func cloneProof(pf *jindo.Proof) *jindo.Proof {
	cp := func(v []ring.Poly) []ring.Poly {
		out := make([]ring.Poly, len(v))
		for i := range v {
			out[i] = *v[i].CopyNew()
		}
		return out
	}
	return &jindo.Proof{InCommit: cp(pf.InCommit), Partial: cp(pf.Partial), PartialMask: *pf.PartialMask.CopyNew(), Encode: cp(pf.Encode), MLWE: cp(pf.MLWE)}
}

func cloneCom(cm *jindo.Commitment) *jindo.Commitment {
	out := &jindo.Commitment{}
	for i := range cm.Value {
		out.Value = append(out.Value, *cm.Value[i].CopyNew())
	}
	return out
}

func cloneComs(c []*jindo.Commitment) []*jindo.Commitment {
	out := make([]*jindo.Commitment, len(c))
	for i := range c {
		out[i] = cloneCom(c[i])
	}
	return out
}

func cloneOpen(o *jindo.Opening) *jindo.Opening {
	out := &jindo.Opening{}
	for i := range o.InCommit {
		out.InCommit = append(out.InCommit, *o.InCommit[i].CopyNew())
	}
	cp := func(v [][]ring.Poly) [][]ring.Poly {
		var w [][]ring.Poly
		for i := range v {
			var u []ring.Poly
			for j := range v[i] {
				u = append(u, *v[i][j].CopyNew())
			}
			w = append(w, u)
		}
		return w
	}
	out.Encode = cp(o.Encode)
	out.MLWE = cp(o.MLWE)
	return out
}

func polyBytes(ps ...ring.Poly) []byte {
	var b bytes.Buffer
	for i := range ps {
		ps[i].WriteTo(&b)
	}
	return b.Bytes()
}

func comBytes(cm *jindo.Commitment) string { return string(polyBytes(cm.Value...)) }

func openBytes(o *jindo.Opening) string {
	var b bytes.Buffer
	b.Write(polyBytes(o.InCommit...))
	for i := range o.Encode {
		b.Write(polyBytes(o.Encode[i]...))
	}
	for i := range o.MLWE {
		b.Write(polyBytes(o.MLWE[i]...))
	}
	return b.String()
}

func proofBytes(pf *jindo.Proof) string {
	var b bytes.Buffer
	b.Write(polyBytes(pf.InCommit...))
	b.Write(polyBytes(pf.Partial...))
	b.Write(polyBytes(pf.PartialMask))
	b.Write(polyBytes(pf.Encode...))
	b.Write(polyBytes(pf.MLWE...))
	return b.String()
}

// decode reads the slots of an encoding: X^slots stands for the base.
func decode(params jindo.Parameters, coeffs []*big.Int, p *big.Int) []*big.Int {
	s, k := params.Slots(), params.Exp()
	b := new(big.Int).SetUint64(params.Base())
	out := make([]*big.Int, s)
	for i := range out {
		z := new(big.Int)
		for j := k - 1; j >= 0; j-- {
			z.Mul(z, b)
			z.Add(z, coeffs[j*s+i])
		}
		out[i] = z.Mod(z, p)
	}
	return out
}

// matrixProduct computes sum_k ck[k]*v[k] in Montgomery-NTT form.
func matrixProduct(r *ring.Ring, ck, v []ring.Poly) ring.Poly {
	acc := r.NewPoly()
	for k := range v {
		r.MulCoeffsMontgomeryThenAdd(ck[k], limbs(r, v[k]), acc)
	}
	return acc
}

// limbs views the limbs of p that ring r uses.
func limbs(r *ring.Ring, p ring.Poly) ring.Poly {
	return ring.Poly{Coeffs: p.Coeffs[:len(r.SubRings)]}
}

// transcript is what a prover or verifier derives from its messages.
type transcript struct {
	batch    []ring.Poly // batching challenges over ringQ (nil for batch size 1)
	batchOut []ring.Poly // the same over ringQOut
	chals    []ring.Poly // column challenges
	faithful bool        // the recovery reproduced the chosen messages
}

// probe recovers the challenges that belong to the given commitments, point, values
// and first-round messages, using only the public prover: Evaluate is a deterministic
// function of the openings it is handed, so crafted openings make it send chosen
// messages and reveal the challenges in its responses.
func probe[E bignum.Uint[E]](in *inst[E], x E, v [][]E, com []*jindo.Commitment, partial []ring.Poly, mask ring.Poly) *transcript {
	p := in.params
	tr := &transcript{}
	rq, ro := p.RingQ(), p.RingQOut()
	one := monomial(rq, big.NewInt(1), 0)
	inv := one
	if in.batch > 1 {
		oneOut := monomial(ro, big.NewInt(1), 0)
		for at := 0; at < in.batch; {
			ops := make([]*jindo.Opening, in.batch)
			for i := range ops {
				ops[i] = jindo.NewOpening(p)
			}
			w := min(len(ops[0].InCommit), p.Rows())
			k := 0
			for ; k < w && at+k < in.batch; k++ {
				ops[at+k].InCommit[k] = oneOut
				for j := 0; j <= p.Cols(); j++ {
					ops[at+k].MLWE[j][0] = rq.NewPoly()
				}
				ops[at+k].Encode[p.Cols()][k] = one // shows up in the response of row k
			}
			_, got := in.prv.Evaluate(x, v, com, ops)
			for l := 0; l < k; l++ {
				tr.batchOut = append(tr.batchOut, *got.InCommit[l].CopyNew())
				tr.batch = append(tr.batch, *got.Encode[l].CopyNew())
			}
			at += k
		}
		var ok bool
		if inv, ok = inverse(rq, tr.batch[0]); !ok {
			return tr
		}
	}
	craft := func() []*jindo.Opening {
		ops := make([]*jindo.Opening, in.batch)
		for i := range ops {
			ops[i] = jindo.NewOpening(p)
		}
		for i := range partial { // the left vector starts with 1
			rq.MulCoeffsMontgomery(partial[i], inv, ops[0].Encode[i][0])
		}
		rq.MulCoeffsMontgomery(mask, inv, ops[0].Encode[p.Cols()][0])
		return ops
	}
	tr.faithful = true
	for at := 0; at < p.Cols(); {
		ops := craft()
		w := len(ops[0].MLWE[0])
		k := 0
		for ; k < w && at+k < p.Cols(); k++ {
			ops[0].MLWE[at+k][k] = inv
		}
		_, got := in.prv.Evaluate(x, v, com, ops)
		for l := 0; l < k; l++ {
			tr.chals = append(tr.chals, *got.MLWE[l].CopyNew())
		}
		tr.faithful = tr.faithful && bytes.Equal(polyBytes(partial...), polyBytes(got.Partial...)) && bytes.Equal(polyBytes(mask), polyBytes(got.PartialMask))
		at += k
	}
	return tr
}

// inverse inverts an element in Montgomery-NTT form.
func inverse(r *ring.Ring, a ring.Poly) (ring.Poly, bool) {
	t := r.NewPoly()
	r.IMForm(a, t)
	for l, s := range r.SubRings {
		q := new(big.Int).SetUint64(s.Modulus)
		for i := range t.Coeffs[l] {
			if t.Coeffs[l][i] == 0 {
				return t, false
			}
			t.Coeffs[l][i] = new(big.Int).ModInverse(new(big.Int).SetUint64(t.Coeffs[l][i]), q).Uint64()
		}
	}
	r.MForm(t, t)
	return t, true
}

func mustReject[E bignum.Uint[E]](c *vh.Ctx, in *inst[E], what string, x E, com []*jindo.Commitment, y []E, pf *jindo.Proof) {
	if in.vrf.Verify(x, com, y, pf) {
		c.Fatalf("accepted: %s", what)
	}
}

func mustAccept[E bignum.Uint[E]](c *vh.Ctx, in *inst[E], what string, x E, com []*jindo.Commitment, y []E, pf *jindo.Proof) {
	if !in.vrf.Verify(x, com, y, pf) {
		c.Fatalf("rejected: %s", what)
	}
}
