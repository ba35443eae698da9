package zvmath

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// C05 rule: the divided polynomial has degree >= N, or the evaluated one has degree >= 1 and the point is not 0 or 1.
func divProp[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n := drawRank(c, 14)
	ev := cached("cyc/"+f.Name+fmt.Sprint(n), func() *bigpoly.CyclicEvaluator[E] { return bigpoly.NewCyclicEvaluator[E](n) })
	v := c.VecStyle(n, f.P, "p")
	var N int
	switch c.Int(0, 3, "divisor kind") {
	case 0:
		N = 1 << c.Int(0, 14, "logN")
	case 1:
		N = c.Int(1, n, "N")
	case 2:
		N = n
	default:
		N = max(1, n/(1<<c.Int(1, 3, "shift")))
	}
	N = min(N, n)
	c.Note("N=%d", N)
	p := &bigpoly.Poly[E]{Coeffs: newGuarded[E](v, false).v}
	quo, rem := ev.QuoRemByVanishing(p, N)
	eqAt(c, "input changed", vh.Bigs(p.Coeffs), v)
	if quo.Rank() != n || rem.Rank() != n || quo.IsNTT || rem.IsNTT || p.IsNTT {
		c.Fatalf("quotient or remainder has the wrong shape")
	}
	q, r := vh.Bigs(quo.Coeffs), vh.Bigs(rem.Coeffs)
	// p = q*(X^N-1) + r over the polynomials, not only modulo X^n-1
	acc := zeros(n + N)
	for i := range q {
		acc[i+N].Add(acc[i+N], q[i])
		acc[i].Sub(acc[i], q[i])
		acc[i].Add(acc[i], r[i])
	}
	for i := range acc {
		acc[i].Mod(acc[i], f.P)
		want := new(big.Int)
		if i < n {
			want = v[i]
		}
		if acc[i].Cmp(want) != 0 {
			c.Fatalf("q*(X^%d-1)+r differs from p at X^%d", N, i)
		}
	}
	deg := -1
	for i := range r {
		if i >= N && r[i].Sign() != 0 {
			c.Fatalf("remainder has degree %d >= %d", i, N)
		}
		if v[i].Sign() != 0 {
			deg = i
		}
	}
	for i := range q {
		for _, w := range [][]E{rem.Coeffs, p.Coeffs} {
			if any(quo.Coeffs[i]) == any(w[i]) {
				c.Fatalf("quotient shares storage")
			}
		}
	}
	if p, _ := vh.MustPanic(func() { ev.QuoRemByVanishing(bigpoly.NewPoly[E](2*n, false), N) }); !p {
		c.Fatalf("wrong rank accepted")
	}
	if p, _ := vh.MustPanic(func() { ev.QuoRemByVanishing(bigpoly.NewPoly[E](n, true), N) }); !p {
		c.Fatalf("transformed input accepted")
	}
	if deg >= N {
		c.NonTrivial()
	}
}

func TestC05_DivisionByVanishing(t *testing.T) {
	vh.Check(t, 8000, 60000, func(c *vh.Ctx) {
		pick(c, divProp[e110], divProp[e220], divProp[e440], divProp[e880], divProp[ebfv], divProp[emult], divProp[ejin])
	})
}

func evalProp[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n := c.SmallInt(0, 300, "len")
	if c.Int(0, 29, "long") == 0 {
		n = c.Int(301, 1<<c.Int(9, 15, "logLen"), "len")
	}
	v := c.VecStyle(n, f.P, "p")
	x := c.NewRNG("x").Interesting(f.P)
	p := &bigpoly.Poly[E]{Coeffs: newGuarded[E](v, true).v}
	xe := vh.FromBig[E](x)
	got := p.Evaluate(xe)
	if want := vh.PolyEval(v, x, f.P); vh.Big(got).Cmp(want) != 0 {
		c.Fatalf("Evaluate(len %d) at %v = %v, want %v", n, x, vh.Big(got), want)
	}
	eqAt(c, "polynomial changed", vh.Bigs(p.Coeffs), v)
	if vh.Big(xe).Cmp(x) != 0 {
		c.Fatalf("point changed")
	}
	if n > 0 {
		// the point may be one of the coefficients
		got = p.Evaluate(p.Coeffs[n-1])
		if want := vh.PolyEval(v, v[n-1], f.P); vh.Big(got).Cmp(want) != 0 {
			c.Fatalf("Evaluate at an aliased point = %v, want %v", vh.Big(got), want)
		}
		p.IsNTT = true
		if pan, _ := vh.MustPanic(func() { p.Evaluate(xe) }); !pan {
			c.Fatalf("evaluated a transformed polynomial")
		}
		p.IsNTT = false
	}
	// marshalling: fixed width per coefficient, injective, readable back by Unmarshal
	b := p.Marshal()
	if n > 0 {
		w := len(b) / n
		if w*n != len(b) {
			c.Fatalf("marshalled length %d is not a multiple of %d", len(b), n)
		}
		for i := range v {
			var z E
			z = z.New()
			z.Unmarshal(b[i*w : (i+1)*w])
			if vh.Big(z).Cmp(v[i]) != 0 {
				c.Fatalf("coefficient %d does not survive marshalling", i)
			}
		}
		r := c.NewRNG("other")
		i := r.N(n)
		d := new(big.Int).Add(r.Big(new(big.Int).Sub(f.P, big.NewInt(1))), big.NewInt(1))
		o := &bigpoly.Poly[E]{Coeffs: vh.Vec[E](v)}
		o.Coeffs[i].SetBigInt(new(big.Int).Add(v[i], d))
		if string(o.Marshal()) == string(b) {
			c.Fatalf("polynomials differing at %d marshal alike", i)
		}
	} else if len(b) != 0 {
		c.Fatalf("empty polynomial marshals to %d bytes", len(b))
	}
	c.Note("len=%d x=%v", n, x)
	if n > 1 && x.Sign() != 0 && x.Cmp(big.NewInt(1)) != 0 {
		c.NonTrivial()
	}
}

func TestC05_EvaluateAndMarshal(t *testing.T) {
	vh.Check(t, 3000, 50000, func(c *vh.Ctx) {
		pick(c, evalProp[e110], evalProp[e220], evalProp[e440], evalProp[e880], evalProp[ebfv], evalProp[emult], evalProp[ejin])
	})
}
