package zvjindo

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func infNorm(v []*big.Int) *big.Int {
	m := new(big.Int)
	for i := range v {
		if v[i].CmpAbs(m) > 0 {
			m.Abs(v[i])
		}
	}
	return m
}

func bigF(x float64) *big.Int {
	z, _ := new(big.Float).SetFloat64(x).Int(nil)
	return z
}

// rounded checks that hi*2^cut is exact up to less than 2^cut, modulo q.
func rounded(exact, hi []*big.Int, cut uint64, q *big.Int) (int, bool) {
	lim := new(big.Int).Lsh(big.NewInt(1), uint(cut))
	half := new(big.Int).Rsh(q, 1)
	d := new(big.Int)
	for i := range exact {
		d.Lsh(hi[i], uint(cut))
		d.Sub(exact[i], d)
		d.Mod(d, q)
		if d.Cmp(half) > 0 {
			d.Sub(d, q)
		}
		if d.CmpAbs(lim) >= 0 {
			return i, false
		}
	}
	return 0, true
}

// checkOpening checks one commitment and its opening against the public key and the input.
func checkOpening[E bignum.Uint[E]](c *vh.Ctx, in *inst[E], ck *jindo.CommitKey, vals []*big.Int, com *jindo.Commitment, open *jindo.Opening) {
	p := in.params
	rq, ro := p.RingQ(), p.RingQOut()
	nu := p.MLWERank()
	if len(open.Encode) != p.Cols()+1 || len(open.MLWE) != p.Cols()+1 || len(open.InCommit) != p.InCommitDecomposeLen() || len(com.Value) != p.OutMSISRank() {
		c.Fatalf("opening has the wrong shape")
	}
	for j := 0; j <= p.Cols(); j++ {
		for i := 0; i < p.InMSISRank(); i++ {
			t := matrixProduct(rq, ck.In[i], open.Encode[j])
			rq.Add(t, matrixProduct(rq, ck.MLWE[i], open.MLWE[j][:nu]), t)
			rq.Add(t, open.MLWE[j][nu+i], t)
			hi := coeffsOf(ro, open.InCommit[j*p.InMSISRank()+i])
			if k, ok := rounded(coeffsOf(rq, t), hi, p.LogInCutOff(), rq.Modulus()); !ok {
				c.Fatalf("inner commitment %d of column %d is not the rounded product, at coefficient %d", i, j, k)
			}
		}
	}
	for i := 0; i < p.OutMSISRank(); i++ {
		t := matrixProduct(ro, ck.Out[i], open.InCommit)
		if k, ok := rounded(coeffsOf(ro, t), coeffsOf(ro, com.Value[i]), p.OutCutOff(), ro.Modulus()); !ok {
			c.Fatalf("commitment %d is not the rounded product, at coefficient %d", i, k)
		}
	}
	// encodings: short and of the right values
	b := float64(p.Base())
	sdOf := func(j, i int) float64 {
		switch {
		case j == p.Cols() && i == 0:
			return p.MaskBlindStdDev()
		case j == p.Cols():
			return p.MaskStdDev()
		case i == 0:
			return p.EcdBlindStdDev()
		}
		return p.EcdStdDev()
	}
	n := p.Cols() * p.Slots()
	at := func(i int) *big.Int {
		if i < len(vals) {
			return vals[i]
		}
		return new(big.Int)
	}
	first, last := make([]*big.Int, n), make([]*big.Int, n)
	for j := 0; j <= p.Cols(); j++ {
		for i := 0; i < p.Rows(); i++ {
			co := coeffsOf(rq, open.Encode[j][i])
			if m := infNorm(co); m.Cmp(bigF(10*(b+1)*sdOf(j, i)+b)) > 0 {
				c.Fatalf("encoding in row %d, column %d has a coefficient of 2^%.1f (width %.4g, base %.0f)", i, j, log2Big(m), sdOf(j, i), b)
			}
			if j == p.Cols() {
				continue
			}
			d := decode(p, co, in.f.P)
			for s := range d {
				idx := j*p.Slots() + s
				switch {
				case i == 0:
					first[idx] = d[s]
				case i == p.Rows()-1:
					last[idx] = d[s]
				default:
					if d[s].Cmp(at(i*n+idx)) != 0 {
						c.Fatalf("row %d, column %d, slot %d decodes to %v instead of coefficient %d", i, j, s, d[s], i*n+idx)
					}
				}
			}
		}
		for i := range open.MLWE[j] {
			sd := p.MLWEStdDev()
			if j == p.Cols() {
				sd = p.MaskMLWEStdDev()
			}
			if m := infNorm(coeffsOf(rq, open.MLWE[j][i])); m.Cmp(bigF(10*sd+2)) > 0 {
				c.Fatalf("hiding term %d of column %d has a coefficient of 2^%.1f", i, j, log2Big(m))
			}
		}
	}
	// the last row, shifted by one place, cancels out of the first
	t := new(big.Int)
	for idx := 0; idx < n; idx++ {
		t.Set(first[idx])
		if idx > 0 {
			t.Add(t, last[idx-1])
		}
		if t.Mod(t, in.f.P).Cmp(at(idx)) != 0 {
			c.Fatalf("first row decodes to %v instead of %v at %d", t, at(idx), idx)
		}
	}
	want := new(big.Int)
	if last[n-1].Cmp(want) != 0 {
		c.Fatalf("the blinding row spills over: its last slot is %v", last[n-1])
	}
}

// C13 rule: the committed polynomial has at least two nonzero coefficients.
func openings[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := drawInst[E](c, f, 2)
	v := drawPoly(c, in, f.P, "v")
	ck := jindo.NewCommitKey(in.params, in.crs)
	prv := in.prv
	if c.Int(0, 3, "copy") == 0 {
		prv = prv.SafeCopy()
		c.Label("safe copy")
	}
	reps := c.Int(1, 2, "reps")
	for k := 0; k < reps; k++ {
		w := vh.Vec[E](v)
		com, open := prv.Commit(w)
		if !vh.EqBigs(vh.Bigs(w), v) {
			c.Fatalf("input modified")
		}
		checkOpening(c, in, ck, v, com, open)
	}
	nz := 0
	for i := range v {
		if v[i].Sign() != 0 {
			nz++
		}
	}
	if nz > 1 {
		c.NonTrivial()
	}
}

func TestC13_Openings(t *testing.T) {
	vh.Check(t, 130, 4000, func(c *vh.Ctx) {
		pick(c, openings[e110], openings[e220], openings[e440], openings[e880], openings[ebfv], openings[emult], openings[ejin])
	})
}

// Every length at the smaller sizes.
func openingLengths[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := getInst[E](f, vh.Pick(c, "N", 5, 70, 300), 1, "Jindo!")
	n := c.Int(0, in.params.Rank(), "len")
	c.Note("N=%d len=%d", in.N, n)
	v := c.VecStyle(n, f.P, "v")
	com, open := in.prv.Commit(vh.Vec[E](v))
	checkOpening(c, in, jindo.NewCommitKey(in.params, in.crs), v, com, open)
	if n > 1 {
		c.NonTrivial()
	}
}

func TestC13_Lengths(t *testing.T) {
	vh.Check(t, 200, 6000, func(c *vh.Ctx) {
		pick(c, openingLengths[e110], openingLengths[e220], openingLengths[e440], openingLengths[e880], openingLengths[ebfv], openingLengths[emult], openingLengths[ejin])
	})
}

var _ ring.Poly
