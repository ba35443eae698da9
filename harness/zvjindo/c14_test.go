package zvjindo

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func cloneVals[E bignum.Uint[E]](y []E) []E { return vh.Clone(y) }

// other draws an element different from a.
func other[E bignum.Uint[E]](r *vh.RNG, p *big.Int, a E) E {
	d := big.NewInt(1)
	switch r.N(3) {
	case 0:
		d.Sub(p, d)
	case 1:
		d.Add(d, r.Big(new(big.Int).Sub(p, big.NewInt(1))))
	}
	return vh.FromBig[E](d.Add(d, vh.Big(a)))
}

func bumpResidue(r *vh.RNG, rq *ring.Ring, pl ring.Poly) {
	l, i := r.N(len(rq.SubRings)), r.N(rq.N())
	q := rq.SubRings[l].Modulus
	d := uint64(1)
	switch r.N(3) {
	case 0:
		d = q - 1
	case 1:
		d = 1 + r.U64()%(q-1)
	}
	pl.Coeffs[l][i] = (pl.Coeffs[l][i] + d) % q
}

// C14 rule: at least one statement with wrong values, point, commitments or reference string was tried.
func otherStatement[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := drawInst[E](c, f, 4)
	s := prove(c, in, in.prv)
	r := c.NewRNG("mut")
	mustAccept(c, in, "honest evaluation", s.x, s.com, s.y, s.pf)
	for i := range s.y { // a wrong value in each position
		y := cloneVals(s.y)
		y[i] = other(r, f.P, y[i])
		mustReject(c, in, fmt.Sprintf("wrong value %d", i), s.x, s.com, y, s.pf)
	}
	for k := 0; k < 2; k++ {
		x := other(r, f.P, s.x)
		mustReject(c, in, "another point", x, s.com, s.y, s.pf)
		var y []E
		for i := range s.vals {
			y = append(y, vh.FromBig[E](vh.PolyEval(s.vals[i], vh.Big(x), f.P)))
		}
		mustReject(c, in, "another point with its true values", x, s.com, y, s.pf)
		com := cloneComs(s.com)
		i := r.N(in.batch)
		bumpResidue(r, in.params.RingQOut(), com[i].Value[r.N(len(com[i].Value))])
		mustReject(c, in, fmt.Sprintf("commitment %d changed", i), s.x, com, s.y, s.pf)
	}
	com := cloneComs(s.com)
	i := r.N(in.batch)
	com[i], _ = in.prv.Commit(s.v[i])
	mustReject(c, in, fmt.Sprintf("commitment %d replaced by another one to the same polynomial", i), s.x, com, s.y, s.pf)
	com[i] = jindo.NewCommitment(in.params)
	mustReject(c, in, fmt.Sprintf("commitment %d zeroed", i), s.x, com, s.y, s.pf)
	if in.batch > 1 {
		j := (i + 1 + r.N(in.batch-1)) % in.batch
		com = append([]*jindo.Commitment{}, s.com...)
		com[i], com[j] = com[j], com[i]
		mustReject(c, in, "commitments swapped", s.x, com, s.y, s.pf)
		y := cloneVals(s.y)
		y[i], y[j] = y[j], y[i]
		mustReject(c, in, "commitments and values swapped", s.x, com, y, s.pf)
		if y[i].Cmp(y[j]) != 0 {
			mustReject(c, in, "values swapped", s.x, s.com, y, s.pf)
		}
		com[j] = s.com[i]
		com[i] = s.com[i]
		mustReject(c, in, "a commitment repeated", s.x, com, s.y, s.pf)
	}
	crs := append([]byte{}, in.crs...)
	if len(crs) > 0 && r.N(2) == 0 {
		crs[r.N(len(crs))] ^= 1 << r.N(8)
	} else {
		crs = append(crs, byte(r.N(256)))
	}
	if vf := jindo.NewVerifier[E](in.params, crs); vf.Verify(s.x, s.com, s.y, s.pf) {
		c.Fatalf("accepted under reference string %q", crs)
	}
	mustAccept(c, in, "honest evaluation after all attempts", s.x, s.com, s.y, s.pf)
	c.NonTrivial()
}

func TestC14_OtherStatement(t *testing.T) {
	vh.Check(t, 75, 4000, func(c *vh.Ctx) {
		pick(c, otherStatement[e110], otherStatement[e220], otherStatement[e440], otherStatement[e880], otherStatement[ebfv], otherStatement[emult], otherStatement[ejin])
	})
}

// wrongPolys returns polynomials of which at least one evaluates to something else.
func wrongPolys[E bignum.Uint[E]](c *vh.Ctx, in *inst[E], s *statement[E], r *vh.RNG) (v [][]E, pos int) {
	for i := range s.v {
		v = append(v, vh.Clone(s.v[i]))
	}
	pos = r.N(in.batch)
	if len(v[pos]) == 0 {
		v[pos] = []E{vh.FromBig[E](big.NewInt(0))}
	}
	v[pos][0] = other(r, in.f.P, v[pos][0]) // the constant term shifts the value at every point
	return v, pos
}

// A prover that claims other values than the committed polynomials have.
func wrongValues[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := drawInst[E](c, f, 4)
	s := prove(c, in, in.prv)
	r := c.NewRNG("mut")
	p := in.params
	rq := p.RingQ()
	var z E

	w, pos := wrongPolys(c, in, s, r)
	y, pf := in.prv.Evaluate(s.x, w, s.com, s.open)
	mustReject(c, in, fmt.Sprintf("value %d of another polynomial", pos), s.x, s.com, y, pf)

	// openings and commitments of different polynomials
	wCom, wOpen := append([]*jindo.Commitment{}, s.com...), append([]*jindo.Opening{}, s.open...)
	wCom[pos], wOpen[pos] = in.prv.Commit(w[pos])
	y, pf = in.prv.Evaluate(s.x, w, s.com, wOpen)
	mustReject(c, in, "opening of another polynomial", s.x, s.com, y, pf)
	pf2 := cloneProof(pf)
	_, honest := in.prv.Evaluate(s.x, w, s.com, s.open)
	pf2.InCommit = cloneProof(honest).InCommit
	mustReject(c, in, "inner commitment of the committed, responses of another polynomial", s.x, s.com, y, pf2)
	y, pf = in.prv.Evaluate(s.x, s.v, wCom, s.open)
	mustReject(c, in, "commitment to another polynomial", s.x, wCom, y, pf)

	// values chosen after the batching challenges
	tr := probe(in, s.x, s.v, s.com, s.pf.Partial, s.pf.PartialMask)
	if !tr.faithful {
		c.Label("probe failed")
		return
	}
	if in.batch > 1 {
		c.Label("batch cancellation")
		var ch []E
		for i := range tr.batch {
			ch = append(ch, vh.FromBig[E](decode(p, coeffsOf(rq, tr.batch[i]), f.P)[0]))
		}
		i := r.N(in.batch)
		j := (i + 1 + r.N(in.batch-1)) % in.batch
		if vh.Big(ch[j]).Sign() != 0 {
			d := other(r, f.P, z.New())
			y := cloneVals(s.y)
			y[i].Add(y[i], d)
			e := z.New().Mul(d, ch[i])
			e.Mul(e, z.New().Inverse(ch[j]))
			y[j].Sub(y[j], e)
			mustReject(c, in, fmt.Sprintf("values %d and %d cancelling under the batching challenges", i, j), s.x, s.com, y, s.pf)
			// the same with the claims fed through the prover
			w := [][]E{}
			for k := range s.v {
				u := vh.Clone(s.v[k])
				if len(u) == 0 {
					u = []E{z.New()}
				}
				u[0].Add(u[0], z.New().Sub(y[k], s.y[k]))
				w = append(w, u)
			}
			y2, pf2 := in.prv.Evaluate(s.x, w, s.com, s.open)
			mustReject(c, in, "values cancelling under the batching challenges of the true values", s.x, s.com, y2, pf2)
		}
	}

	equalChallenges(c, in, s, r)

	// first-round messages chosen after the column challenges
	right := make([]*big.Int, p.Cols()*p.Slots())
	right[0] = big.NewInt(1)
	for i := 1; i < len(right); i++ {
		right[i] = new(big.Int).Mul(right[i-1], s.xBig)
		right[i].Mod(right[i], f.P)
	}
	claim := func(partial []ring.Poly) *big.Int { // the (batched) value that the partial evaluations amount to
		v := new(big.Int)
		for i := range partial {
			for j, d := range decode(p, coeffsOf(rq, partial[i]), f.P) {
				v.Add(v, d.Mul(d, right[i*p.Slots()+j]))
			}
		}
		return v.Mod(v, f.P)
	}
	setClaim := func(partial []ring.Poly) ([]E, bool) { // values with which these messages would be consistent
		y := cloneVals(s.y)
		d := new(big.Int).Sub(claim(partial), claim(s.pf.Partial))
		if d.Mod(d, f.P).Sign() == 0 {
			return nil, false
		}
		if in.batch > 1 {
			c0 := decode(p, coeffsOf(rq, tr.batch[0]), f.P)[0]
			if c0.Sign() == 0 {
				return nil, false
			}
			d.Mul(d, c0.ModInverse(c0, f.P))
		}
		y[0].Add(y[0], vh.FromBig[E](d))
		return y, true
	}
	e := monomial(rq, new(big.Int).Add(big.NewInt(1), r.Big(big.NewInt(1000))), 0)
	prod := rq.NewPoly()
	if k := p.Cols(); k >= 2 {
		pf := cloneProof(s.pf)
		a := r.N(k)
		b := (a + 1 + r.N(k-1)) % k
		rq.MulCoeffsMontgomery(tr.chals[b], e, prod)
		addTo(rq, pf.Partial[a], prod)
		rq.MulCoeffsMontgomery(tr.chals[a], e, prod)
		rq.Neg(prod, prod)
		addTo(rq, pf.Partial[b], prod)
		if y, ok := setClaim(pf.Partial); ok {
			c.Label("late partial evaluations")
			mustReject(c, in, "partial evaluations chosen after the challenges", s.x, s.com, y, pf)
		}
	}
	pf = cloneProof(s.pf)
	a := r.N(p.Cols())
	addTo(rq, pf.Partial[a], e)
	if y, ok := setClaim(pf.Partial); ok {
		mustReject(c, in, "partial evaluation shifted", s.x, s.com, y, pf)
		rq.MulCoeffsMontgomery(tr.chals[a], e, prod)
		rq.Neg(prod, prod)
		addTo(rq, pf.PartialMask, prod)
		c.Label("late mask")
		mustReject(c, in, "mask chosen after the challenges", s.x, s.com, y, pf)
	}

	// every linear relation satisfied for wrong values: all messages, challenges and responses
	// as the protocol has them, except for a shift of the first partial evaluation that is
	// compensated in the responses
	w, _ = wrongPolys(c, in, s, r)
	y = nil
	for i := range w {
		y = append(y, vh.FromBig[E](vh.PolyEval(vh.Bigs(w[i]), s.xBig, f.P)))
	}
	if pf, _, _ := cheatAt(in, s, s.v, 0, nil); pf == nil || !in.vrf.Verify(s.x, s.com, s.y, pf) {
		c.Label("reference prover not accepted") // the protocol changed: the attack below says nothing
		return
	}
	// a claim made before, partial evaluations that fit it made after the column challenges
	if k := p.Cols(); k >= 2 {
		a := r.N(k)
		b := (a + 1 + r.N(k-1)) % k
		if pf, _, chals := cheatAt(in, s, w, 0, func(*big.Int) ring.Poly { return rq.NewPoly() }); pf != nil {
			slot := func(j int, v *big.Int) *big.Int { // what a value in the first slot of column j adds to the claim
				return new(big.Int).Mul(v, right[j*p.Slots()])
			}
			ga, gb := decode(p, coeffsOf(rq, chals[a]), f.P)[0], decode(p, coeffsOf(rq, chals[b]), f.P)[0]
			t := new(big.Int).Sub(slot(a, gb), slot(b, ga))
			if t.Mod(t, f.P).Sign() != 0 {
				goal := new(big.Int)
				for i := range y {
					d := new(big.Int).Sub(vh.Big(y[i]), vh.Big(s.y[i]))
					if in.batch > 1 {
						d.Mul(d, decode(p, coeffsOf(rq, probeBatch(in, s, w)[i]), f.P)[0])
					}
					goal.Add(goal, d)
				}
				goal.Mul(goal, t.ModInverse(t, f.P)).Mod(goal, f.P)
				e := encoding(p, goal)
				rq.MulCoeffsMontgomery(chals[b], e, prod)
				addTo(rq, pf.Partial[a], prod)
				rq.MulCoeffsMontgomery(chals[a], e, prod)
				addTo(rq, pf.Partial[b], negated(rq, prod))
				if got := claim(pf.Partial); in.batch == 1 && got.Cmp(vh.Big(y[0])) != 0 {
					c.Fatalf("harness: the late messages amount to %v, not %v", got, vh.Big(y[0]))
				}
				c.Label("late partial evaluations for an early claim")
				mustReject(c, in, fmt.Sprintf("partial evaluations %d and %d fitted to the claim after the challenges", a, b), s.x, s.com, y, pf)
			}
		}
	}
	ck := jindo.NewCommitKey(p, in.crs)
	for n := 0; n < 3; n++ {
		col := r.N(p.Cols())
		if s.xBig.Sign() == 0 {
			col = 0
		}
		how := "small shift"
		mk := func(d *big.Int) ring.Poly { return encoding(p, d) }
		if n > 0 { // a shift that vanishes modulo all limbs but one
			l := r.N(len(rq.SubRings))
			how = fmt.Sprintf("shift seen by residue %d of %d only", l, len(rq.SubRings))
			mk = func(d *big.Int) ring.Poly {
				m := new(big.Int).Div(rq.Modulus(), new(big.Int).SetUint64(rq.SubRings[l].Modulus))
				e := encoding(p, new(big.Int).Mod(new(big.Int).Mul(d, new(big.Int).ModInverse(m, f.P)), f.P))
				rq.MulScalarBigint(e, m, e)
				return e
			}
		}
		if n == 2 && in.batch == 1 { // a shift in a single position of the transform; the claim follows it
			l, i := r.N(len(rq.SubRings)), r.N(rq.N())
			how = fmt.Sprintf("shift in residue %d, position %d only", l, i)
			sh := rq.NewPoly()
			sh.Coeffs[l][i] = 1 + r.U64()%(rq.SubRings[l].Modulus-1)
			d := new(big.Int)
			for j, e := range decode(p, coeffsOf(rq, sh), f.P) {
				d.Add(d, e.Mul(e, right[col*p.Slots()+j]))
			}
			if d.Mod(d, f.P).Sign() == 0 {
				continue
			}
			w = [][]E{vh.Clone(s.v[0])}
			if len(w[0]) == 0 {
				w[0] = []E{z.New()}
			}
			w[0][0].Add(w[0][0], vh.FromBig[E](d))
			y = []E{z.New().Add(s.y[0], vh.FromBig[E](d))}
			mk = func(*big.Int) ring.Poly { return sh }
		}
		pf, shift, chals := cheatAt(in, s, w, col, mk)
		if pf == nil {
			continue
		}
		if got := claim(pf.Partial); in.batch == 1 && got.Cmp(vh.Big(y[0])) != 0 {
			c.Fatalf("harness: the forged messages amount to %v, not %v", got, vh.Big(y[0]))
		}
		c.Label("compensated")
		c.Label("%s", []string{"small shift", "one-residue shift", "one-position shift"}[n])
		mustReject(c, in, how+": forged partial evaluation with honest responses", s.x, s.com, y, pf)
		prod := rq.NewPoly()
		rq.MulCoeffsMontgomery(chals[col], shift, prod)
		pf2 := cloneProof(pf)
		addTo(rq, pf2.Encode[0], prod)
		mustReject(c, in, how+": forged partial evaluation, compensated in the encoded response", s.x, s.com, y, pf2)
		for i := range ck.In {
			t := rq.NewPoly()
			rq.MulCoeffsMontgomery(ck.In[i][0], prod, t)
			rq.Neg(t, t)
			addTo(rq, pf2.MLWE[p.MLWERank()+i], t)
		}
		mustReject(c, in, how+": forged partial evaluation, compensated in the encoded and hiding responses", s.x, s.com, y, pf2)
		pf3 := cloneProof(pf)
		addTo(rq, pf3.PartialMask, negated(rq, prod))
		mustReject(c, in, how+": forged partial evaluation, compensated in the mask", s.x, s.com, y, pf3)
	}
	c.NonTrivial()
}

func negated(rq *ring.Ring, a ring.Poly) ring.Poly {
	t := rq.NewPoly()
	rq.Neg(limbs(rq, a), t)
	return t
}

// batched folds the openings with the batching challenges.
func batched[E bignum.Uint[E]](in *inst[E], open []*jindo.Opening, tr *transcript) *jindo.Opening {
	if in.batch == 1 {
		return open[0]
	}
	p := in.params
	o := jindo.NewOpening(p)
	for i := range open {
		for j := range o.InCommit {
			p.RingQOut().MulCoeffsMontgomeryThenAdd(open[i].InCommit[j], tr.batchOut[i], o.InCommit[j])
		}
		for j := range o.Encode {
			for k := range o.Encode[j] {
				p.RingQ().MulCoeffsMontgomeryThenAdd(open[i].Encode[j][k], tr.batch[i], o.Encode[j][k])
			}
			for k := range o.MLWE[j] {
				p.RingQ().MulCoeffsMontgomeryThenAdd(open[i].MLWE[j][k], tr.batch[i], o.MLWE[j][k])
			}
		}
	}
	return o
}

// encoding returns the encoding of one value in the first slot.
func encoding(p jindo.Parameters, v *big.Int) ring.Poly {
	co := make([]*big.Int, p.RingQ().N())
	for i := range co {
		co[i] = new(big.Int)
	}
	rest, b := new(big.Int).Set(v), new(big.Int).SetUint64(p.Base())
	for j := 0; j < p.Exp(); j++ {
		if j < p.Exp()-1 {
			rest.DivMod(rest, b, co[j*p.Slots()])
		} else {
			co[j*p.Slots()].Set(rest)
		}
	}
	return fromCoeffs(p.RingQ(), co)
}

// respond computes the messages of the protocol for a batched opening: the partial
// evaluations, and, given column challenges, the responses.
func firstMessages[E bignum.Uint[E]](in *inst[E], x *big.Int, o *jindo.Opening) (partial []ring.Poly, mask ring.Poly) {
	p := in.params
	rq := p.RingQ()
	left := make([]ring.Poly, p.Rows())
	skip := new(big.Int).Exp(x, big.NewInt(int64(p.Cols()*p.Slots())), in.f.P)
	cur := big.NewInt(1)
	for i := range left {
		if i == p.Rows()-1 {
			cur = x
		}
		left[i] = encoding(p, cur)
		cur = new(big.Int).Mul(cur, skip)
		cur.Mod(cur, in.f.P)
	}
	for i := 0; i <= p.Cols(); i++ {
		t := rq.NewPoly()
		for j := range left {
			rq.MulCoeffsMontgomeryThenAdd(left[j], o.Encode[i][j], t)
		}
		if i < p.Cols() {
			partial = append(partial, t)
		} else {
			mask = t
		}
	}
	return
}

func responses[E bignum.Uint[E]](in *inst[E], o *jindo.Opening, chals []ring.Poly, pf *jindo.Proof) {
	p := in.params
	rq := p.RingQ()
	for i := range pf.Encode {
		pf.Encode[i] = *o.Encode[p.Cols()][i].CopyNew()
		for j := range chals {
			rq.MulCoeffsMontgomeryThenAdd(chals[j], o.Encode[j][i], pf.Encode[i])
		}
	}
	for i := range pf.MLWE {
		pf.MLWE[i] = *o.MLWE[p.Cols()][i].CopyNew()
		for j := range chals {
			rq.MulCoeffsMontgomeryThenAdd(chals[j], o.MLWE[j][i], pf.MLWE[i])
		}
	}
	for i := range pf.InCommit {
		for l := range p.RingQOut().SubRings {
			copy(pf.InCommit[i].Coeffs[l], o.InCommit[i].Coeffs[l])
		}
	}
}

// cheatAt runs the protocol for the values of w on the commitments of s: the partial
// evaluation of a column is shifted so that the claimed values add up.
func cheatAt[E bignum.Uint[E]](in *inst[E], s *statement[E], w [][]E, col int, mk func(*big.Int) ring.Poly) (pf *jindo.Proof, shift ring.Poly, chals []ring.Poly) {
	p := in.params
	rq := p.RingQ()
	d := new(big.Int)
	tr := probe(in, s.x, w, s.com, s.pf.Partial, s.pf.PartialMask)
	if !tr.faithful {
		return nil, shift, nil
	}
	for i := range w {
		e := new(big.Int).Sub(vh.PolyEval(vh.Bigs(w[i]), s.xBig, in.f.P), vh.Big(s.y[i]))
		if in.batch > 1 {
			e.Mul(e, decode(p, coeffsOf(rq, tr.batch[i]), in.f.P)[0])
		}
		d.Add(d, e)
	}
	if col > 0 {
		e := new(big.Int).Exp(s.xBig, big.NewInt(int64(col*p.Slots())), in.f.P)
		d.Mul(d, e.ModInverse(e, in.f.P))
	}
	d.Mod(d, in.f.P)
	o := batched(in, s.open, tr)
	pf = jindo.NewProof(p)
	pf.Partial, pf.PartialMask = firstMessages(in, s.xBig, o)
	shift = rq.NewPoly()
	if mk != nil {
		shift = mk(d)
	}
	addTo(rq, pf.Partial[col], shift)
	tr = probe(in, s.x, w, s.com, pf.Partial, pf.PartialMask)
	responses(in, o, tr.chals, pf)
	return pf, shift, tr.chals
}

// probeBatch returns the batching challenges for the claims of w.
func probeBatch[E bignum.Uint[E]](in *inst[E], s *statement[E], w [][]E) []ring.Poly {
	return probe(in, s.x, w, s.com, s.pf.Partial, s.pf.PartialMask).batch
}

func TestC14_WrongValues(t *testing.T) {
	vh.Check(t, 65, 4000, func(c *vh.Ctx) {
		pick(c, wrongValues[e110], wrongValues[e220], wrongValues[e440], wrongValues[e880], wrongValues[ebfv], wrongValues[emult], wrongValues[ejin])
	})
}

// equalChallenges claims values, fixed before the challenges, that cancel if some
// batching challenges are equal or opposite.
func equalChallenges[E bignum.Uint[E]](c *vh.Ctx, in *inst[E], s *statement[E], r *vh.RNG) {
	f := in.f
	var z E
	if n := in.batch; n > 1 {
		i := r.N(n)
		sets := [][][2]int{{{i, (i + 1 + r.N(n-1)) % n}}, {{n - 2, n - 1}}}
		if n > 4 {
			for _, d := range []int{1, 2, 4, 8, 16, 1 + r.N(n-1)} {
				var set [][2]int
				for i := 0; i < d && i+d < n; i++ {
					set = append(set, [2]int{i, i + d})
				}
				if len(set) > 0 {
					sets = append(sets, set, set[len(set)-1:])
				}
			}
		}
		for _, set := range sets {
			w := make([][]E, n)
			for k := range w {
				w[k] = vh.Clone(s.v[k])
				if len(w[k]) == 0 {
					w[k] = []E{z.New()}
				}
			}
			opp := r.N(4) == 0
			for _, ij := range set {
				d := other(r, f.P, z.New())
				w[ij[0]][0].Add(w[ij[0]][0], d)
				if opp {
					w[ij[1]][0].Add(w[ij[1]][0], d)
				} else {
					w[ij[1]][0].Sub(w[ij[1]][0], d)
				}
			}
			y2, pf2 := in.prv.Evaluate(s.x, w, s.com, s.open)
			mustReject(c, in, fmt.Sprintf("values %v that would cancel under equal challenges", set), s.x, s.com, y2, pf2)
		}
	}
}

// C14 rule: at least two claims are wrong, and their errors add up to zero.
func manyClaims[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	batch := vh.Pick(c, "batch.many", 5, 6, 8, 9, 12, 17, 20, 33)
	in := getInst[E](f, vh.Pick(c, "N.short", 1, 5, 33, 70), batch, "Jindo!")
	c.Note("N=%d batch=%d", in.N, batch)
	s := prove(c, in, in.prv)
	mustAccept(c, in, "honest evaluation", s.x, s.com, s.y, s.pf)
	equalChallenges(c, in, s, c.NewRNG("mut"))
	c.NonTrivial()
}

func TestC14_ManyClaims(t *testing.T) {
	vh.Check(t, 25, 2000, func(c *vh.Ctx) {
		pick(c, manyClaims[e110], manyClaims[e220], manyClaims[e440], manyClaims[e880], manyClaims[ebfv], manyClaims[emult], manyClaims[ejin])
	})
}
