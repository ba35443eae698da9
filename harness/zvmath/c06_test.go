package zvmath

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// C06 rule: Q > 1 and some coefficient does not scale to an exact integer.
func modSwitch[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n := 1 << c.SmallInt(0, 6, "logRank")
	if c.Int(0, 99, "long") == 0 {
		n = 1 << c.Int(7, 13, "logRank")
	}
	ev := cached("cyclo/"+f.Name+fmt.Sprint(n), func() *bigpoly.CyclotomicEvaluator[E] { return bigpoly.NewCyclotomicEvaluator[E](n) })
	r := c.NewRNG("q")
	Q := new(big.Int)
	switch c.Int(0, 6, "qkind") {
	case 0:
		Q.SetInt64(int64(1 + r.N(16)))
	case 1:
		Q.Set(f.P)
	case 2:
		Q.Lsh(big.NewInt(1), uint(r.N(f.P.BitLen()+70)))
	case 3:
		Q.Add(r.Big(new(big.Int).Lsh(big.NewInt(1), uint(1+r.N(2*f.P.BitLen())))), big.NewInt(1))
	case 4:
		Q.Mul(f.P, new(big.Int).SetUint64(1+r.U64()%7))
	case 5:
		Q.Add(f.P, big.NewInt(int64(r.N(5))-2))
	default:
		Q.SetUint64(r.U64() | 1)
	}
	c.Note("rank=%d Q=%v", n, Q)
	in := make([]*big.Int, n)
	for i := range in {
		in[i] = new(big.Int)
		switch r.N(6) {
		case 0:
			in[i].Set(r.Interesting(Q))
		case 1: // an exact multiple or next to a tie
			in[i].Mul(Q, big.NewInt(int64(r.N(9))-4))
			in[i].Rsh(in[i], uint(r.N(3)))
			in[i].Add(in[i], big.NewInt(int64(r.N(3))-1))
		case 2:
			in[i].Neg(r.Big(Q))
		case 3: // far outside [0,Q)
			in[i].Sub(r.Big(new(big.Int).Lsh(Q, 40)), new(big.Int).Lsh(Q, 39))
		case 4: // c*p/Q close to a half-integer
			h := new(big.Int).Lsh(r.Big(Q), 1)
			h.Add(h, big.NewInt(1)).Mul(h, Q)
			h.Div(h, new(big.Int).Lsh(f.P, 1))
			in[i].Add(h, big.NewInt(int64(r.N(3))-1))
		default:
			in[i].Set(r.Big(Q))
		}
	}
	keep := make([]*big.Int, n)
	for i := range in {
		keep[i] = new(big.Int).Set(in[i])
	}
	q0 := new(big.Int).Set(Q)
	var out *bigpoly.Poly[E]
	if c.Bool("to") {
		out = ev.NewPoly(true)
		for i := range out.Coeffs {
			out.Coeffs[i].SetUint64(uint64(i) + 3)
		}
		ev.ModSwitchTo(out, in, Q)
	} else {
		out = ev.ModSwitch(in, Q)
	}
	if out.IsNTT {
		c.Fatalf("result flagged as transformed")
	}
	eqAt(c, "input changed", in, keep)
	if Q.Cmp(q0) != 0 {
		c.Fatalf("modulus changed")
	}
	inexact := false
	for i := range in {
		// nearest integers to c*p/Q: floor((2cp+Q)/2Q) and, on ties, also ceil((2cp-Q)/2Q)
		num := new(big.Int).Mul(in[i], f.P)
		num.Lsh(num, 1)
		den := new(big.Int).Lsh(Q, 1)
		hi := new(big.Int).Add(num, Q)
		hi.Div(hi, den)
		lo := new(big.Int).Sub(num, Q)
		lo.Neg(lo).Div(lo, den).Neg(lo)
		got := vh.Big(out.Coeffs[i])
		okHi := new(big.Int).Mod(hi, f.P).Cmp(got) == 0
		okLo := new(big.Int).Mod(lo, f.P).Cmp(got) == 0
		if !okHi && !okLo {
			c.Fatalf("ModSwitch(%v, Q=%v) = %v, want %v", in[i], Q, got, new(big.Int).Mod(hi, f.P))
		}
		if new(big.Int).Mod(num, den).Sign() != 0 {
			inexact = true
		}
	}
	if p, _ := vh.MustPanic(func() { ev.ModSwitch(append(in, new(big.Int)), Q) }); !p {
		c.Fatalf("wrong input length accepted")
	}
	if Q.Cmp(big.NewInt(1)) > 0 && inexact {
		c.NonTrivial()
	}
}

func TestC06_ModSwitch(t *testing.T) {
	vh.Check(t, 12000, 200000, func(c *vh.Ctx) {
		pick(c, modSwitch[e110], modSwitch[e220], modSwitch[e440], modSwitch[e880], modSwitch[ebfv], modSwitch[emult], modSwitch[ejin])
	})
}
