package zvjindo

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func summary(p jindo.Parameters) string {
	mod := func(r *ring.Ring) []uint64 {
		var m []uint64
		for _, s := range r.SubRings {
			m = append(m, s.Modulus)
		}
		return m
	}
	return fmt.Sprint(p.Batch(), p.Rank(), p.Rows(), p.Cols(), p.Base(), p.Exp(), p.Slots(), p.ChallengeBound(), p.InMSISRank(), p.OutMSISRank(),
		p.MLWERank(), p.LogInCutOff(), p.OutCutOff(), p.InCommitDecomposeLen(), mod(p.RingQ()), mod(p.RingQOut()), p.EcdStdDev(), p.EcdBlindStdDev(),
		p.MaskStdDev(), p.MaskBlindStdDev(), p.MLWEStdDev(), p.MaskMLWEStdDev(), p.ResTwoNm(), p.InComDcmpTwoNm(), p.CommitmentSize(), p.ProofSize(), p.Size())
}

func log2Big(x *big.Int) float64 {
	s := max(0, x.BitLen()-60)
	f, _ := new(big.Float).SetInt(new(big.Int).Rsh(x, uint(s))).Float64()
	return math.Log2(f) + float64(s)
}

// C11 rule: the length is above 1 or the batch above 1.
func paramsProp[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	r := c.NewRNG("size")
	var N, batch int
	switch c.Int(0, 3, "N.kind") {
	case 0:
		N = 1 + r.N(64)
	case 1:
		N = 1<<r.N(21) + r.N(3) - 1
	default:
		N = 1 + int(r.U64()%(1<<uint(1+r.N(20))))
	}
	N = max(N, 1)
	switch c.Int(0, 3, "batch.kind") {
	case 0:
		batch = 1
	case 1:
		batch = 1 + r.N(16)
	default:
		batch = 1 + int(r.U64()%(1<<uint(1+r.N(12))))
	}
	c.Note("N=%d batch=%d", N, batch)
	c.Label("batch>1:%v", batch > 1)
	p := jindo.NewParameters[E](N, batch)
	if s, t := summary(p), summary(jindo.NewParameters[E](N, batch)); s != t {
		c.Fatalf("two selections differ:\n%s\n%s", s, t)
	}
	d := p.RingQ().N()
	k, b := float64(p.Exp()), float64(p.Base())
	cols, rows := float64(p.Cols()), float64(p.Rows())
	B := float64(p.ChallengeBound())
	pb := new(big.Int).Exp(new(big.Int).SetUint64(p.Base()), big.NewInt(int64(p.Exp())), nil)
	need := func(ok bool, format string, a ...any) {
		if !ok {
			c.Fatalf("%s\n(%s)", fmt.Sprintf(format, a...), summary(p))
		}
	}
	need(pb.Add(pb, big.NewInt(1)).Cmp(f.P) == 0, "base^exp+1 is not the modulus")
	need(p.Batch() == batch, "batch %d", p.Batch())
	need(p.Rank() >= N, "rank %d below the requested length", p.Rank())
	need(p.Rows() >= 2 && p.Cols() >= 1 && p.Rank() == (p.Rows()-1)*p.Cols()*p.Slots(), "matrix shape does not hold the rank")
	need(p.Slots()*p.Exp() == d && d == p.RingQOut().N(), "slots*exp differs from the ring degree")
	need(d >= 256 && d&(d-1) == 0, "ring degree %d", d)
	need(p.InCommitDecomposeLen() == (p.Cols()+1)*p.InMSISRank(), "decomposed commitment length %d", p.InCommitDecomposeLen())
	need(p.InMSISRank() >= 1 && p.OutMSISRank() >= 1 && p.MLWERank() >= 1, "a commitment rank is zero")
	need(p.MLWERank()*d >= 8192, "hiding dimension %d below 8192", p.MLWERank()*d)
	for name, rq := range map[string]*ring.Ring{"inner": p.RingQ(), "outer": p.RingQOut()} {
		seen := map[uint64]bool{}
		for _, s := range rq.SubRings {
			q := s.Modulus
			need(!seen[q], "%s moduli repeat", name)
			seen[q] = true
			need(new(big.Int).SetUint64(q).ProbablyPrime(20), "%s modulus %d is not prime", name, q)
			need(q%uint64(2*d) == 1, "%s modulus %d is not NTT-friendly", name, q)
			need(q < 1<<62, "%s modulus %d too large for the ring arithmetic", name, q)
		}
		need(log2Big(rq.Modulus()) <= 240.01, "%s modulus has %.2f bits, above the hardness limit", name, log2Big(rq.Modulus()))
	}
	// challenge norms the widths are meant for
	one := math.Sqrt(k) * B
	xOne := math.Sqrt(k) * b
	need(B >= 1 && B <= b, "challenge bound %v", B)
	near := func(x float64) float64 { return x * (1 - 1e-9) }
	sm := 2 * (b + 1) / (b - 1) * 6 / math.Sqrt(2*math.Pi)
	need(p.EcdStdDev() >= near(sm), "encoding width %v below %v", p.EcdStdDev(), sm)
	need(p.EcdBlindStdDev() >= near(sm*xOne), "blinding width %v below %v", p.EcdBlindStdDev(), sm*xOne)
	need(p.MaskStdDev() >= near(sm*one), "mask width %v below %v", p.MaskStdDev(), sm*one)
	need(p.MaskBlindStdDev() >= near(sm*one*xOne), "mask blinding width %v below %v", p.MaskBlindStdDev(), sm*one*xOne)
	mw := 2 * math.Sqrt2 * 6 / math.Sqrt(2*math.Pi)
	need(p.MLWEStdDev() >= near(mw), "hiding width %v below %v", p.MLWEStdDev(), mw)
	need(p.MaskMLWEStdDev() >= near(mw*one), "hiding mask width %v below %v", p.MaskMLWEStdDev(), mw*one)
	// ... and not larger than the bounds provide for
	need(p.EcdStdDev() <= sm*1.01 && p.MLWEStdDev() <= mw*1.01, "widths larger than prescribed")

	// extraction: challenge differences and their products enter the short-integer bounds
	dExt, cExt, ext := 1.0, 2*one, 2*p.ResTwoNm()
	if batch > 1 {
		dExt, cExt, ext = 2*one, 4*one*one, 2*2*one*p.ResTwoNm()
	}
	rhf := func(what string, beta float64, rank int, q *big.Int) {
		lb, lq := math.Log2(beta), log2Big(q)
		need(lb < lq, "%s: norm bound 2^%.2f is not below the modulus 2^%.2f", what, lb, lq)
		delta := math.Exp2(lb * lb / (4 * float64(d) * float64(rank) * lq))
		need(delta <= 1.00501, "%s: root Hermite factor %.6f above 1.005", what, delta)
	}
	rhf("inner", 2*dExt*cExt*ext, p.InMSISRank(), p.RingQ().Modulus())
	rhf("outer", 2*dExt*2*p.InComDcmpTwoNm(), p.OutMSISRank(), p.RingQOut().Modulus())

	// an honest response stays within the published norm: expected squared norm of one
	dd := float64(d)
	t := float64(batch)
	bm := 1.0
	if batch > 1 {
		bm = t * k * B * B / 3
	}
	cm := cols * k * B * B / 3
	m := rows - 1
	sq := dd * (b*b + 1) * bm * (m*(cm*p.EcdStdDev()*p.EcdStdDev()+p.MaskStdDev()*p.MaskStdDev()) +
		(cm*p.EcdBlindStdDev()*p.EcdBlindStdDev() + p.MaskBlindStdDev()*p.MaskBlindStdDev()))
	need(math.Sqrt(sq) < p.ResTwoNm(), "the response bound %.4g is below the expected norm %.4g of an honest response", p.ResTwoNm(), math.Sqrt(sq))
	need(float64(p.LogInCutOff()) < log2Big(p.RingQ().Modulus()) && float64(p.OutCutOff()) < log2Big(p.RingQOut().Modulus()), "cut-off above the modulus")
	// what the verifier's tolerance hides must not swallow the rounding itself
	need(math.Exp2(float64(p.LogInCutOff()))*math.Sqrt(float64(p.InMSISRank())*dd) <= p.ResTwoNm(), "inner cut-off exceeds the norm bound")
	need(math.Exp2(float64(p.OutCutOff()))*math.Sqrt(float64(p.OutMSISRank())*dd) <= p.InComDcmpTwoNm(), "outer cut-off exceeds the norm bound")
	for _, s := range []float64{p.CommitmentSize(), p.ProofSize(), p.Size()} {
		need(s > 0 && !math.IsInf(s, 0) && !math.IsNaN(s), "size estimate %v", s)
	}
	need(math.Abs(p.Size()-p.CommitmentSize()-p.ProofSize()) <= 1e-9*p.Size(), "size is not the sum")
	if N > 1 || batch > 1 {
		c.NonTrivial()
	}
}

func TestC11_Parameters(t *testing.T) {
	vh.Check(t, 700, 12000, func(c *vh.Ctx) {
		pick(c, paramsProp[e110], paramsProp[e220], paramsProp[e440], paramsProp[e880], paramsProp[ebfv], paramsProp[emult], paramsProp[ejin])
	})
}

func badParams[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N, batch := c.SmallInt(-3, 8, "N"), c.SmallInt(-3, 3, "batch")
	c.Note("N=%d batch=%d", N, batch)
	p, _ := vh.MustPanic(func() { jindo.NewParameters[E](N, batch) })
	if bad := N < 1 || batch < 1; bad != p {
		c.Fatalf("NewParameters(%d, %d) panicked=%v", N, batch, p)
	}
	if p {
		c.NonTrivial()
	}
}

func TestC11_BadSizesRefused(t *testing.T) {
	vh.Check(t, 100, 1000, func(c *vh.Ctx) {
		pick(c, badParams[e110], badParams[e220], badParams[e440], badParams[e880], badParams[ebfv], badParams[emult], badParams[ejin])
	})
}
