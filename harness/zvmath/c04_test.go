package zvmath

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// autModel maps X to X^k modulo X^n+1.
func autModel(v []*big.Int, k int64, p *big.Int) []*big.Int {
	n := int64(len(v))
	kk := new(big.Int).Mod(big.NewInt(k), big.NewInt(2*n)).Int64()
	out := zeros(int(n))
	for i := range v {
		j := int64(i) * kk % (2 * n)
		if j < n {
			out[j].Add(out[j], v[i])
		} else {
			out[j-n].Sub(out[j-n], v[i])
		}
	}
	for i := range out {
		out[i].Mod(out[i], p)
	}
	return out
}

func drawOdd(c *vh.Ctx, n int, l string) int {
	var k int
	switch c.Int(0, 5, l+".kind") {
	case 0:
		k = c.Int(0, 2*n, l)
	case 1:
		k = -c.Int(0, 2*n, l)
	case 2:
		k = 5
		for e := c.Int(0, 40, l); e > 0; e-- {
			k = k * 5 % (1 << 40)
		}
	case 3:
		k = int(int64(c.U64(l)))
	case 4:
		k = []int{1, -1, 2*n - 1, 2*n + 1, 3, -3, 1<<63 - 1, -1 << 63, n + 1, n - 1}[c.Int(0, 9, l)]
	default:
		k = int(int32(c.U64(l)))
	}
	return k | 1
}

// C04 rule: rank >= 4, index not 1 modulo 2N, polynomial not constant.
func autProp[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n := drawRank(c, 14)
	ev := cached("cyclo/"+f.Name+big.NewInt(int64(n)).String(), func() *bigpoly.CyclotomicEvaluator[E] { return bigpoly.NewCyclotomicEvaluator[E](n) })
	v := c.VecStyle(n, f.P, "p")
	k := drawOdd(c, n, "k")
	k2 := drawOdd(c, n, "k2")
	// the output: a polynomial of its own, the input itself, another polynomial over the
	// coefficient slice of the input, or over another slice of the same coefficients
	alias := c.Int(0, 3, "alias")
	c.Note("k=%d k2=%d alias=%d", k, k2, alias)
	want := autModel(v, int64(k), f.P)

	for _, ntt := range []bool{false, true} {
		src := &bigpoly.Poly[E]{Coeffs: newGuarded[E](v, false).v}
		if ntt {
			ev.NTTTo(src, src)
		}
		before := vh.Bigs(src.Coeffs)
		coeffs := func(p *bigpoly.Poly[E], what string) []*big.Int {
			if p.IsNTT != ntt {
				c.Fatalf("%s: domain flag is %v, want %v", what, p.IsNTT, ntt)
			}
			q := ev.NewPoly(false)
			q.CopyFrom(p)
			if ntt {
				ev.InvNTTTo(q, q)
			}
			return vh.Bigs(q.Coeffs)
		}
		name := "Aut (coefficients)"
		if ntt {
			name = "Aut (transformed)"
		}
		out := ev.Aut(src, k)
		eqAt(c, name, coeffs(out, name), want)
		eqAt(c, name+": input changed", vh.Bigs(src.Coeffs), before)

		dst := ev.NewPoly(!ntt)
		for i := range dst.Coeffs {
			dst.Coeffs[i].SetUint64(uint64(i) + 77)
		}
		switch alias {
		case 1:
			dst.CopyFrom(src)
			ev.AutTo(dst, dst, k)
		case 2:
			dst.CopyFrom(src)
			other := &bigpoly.Poly[E]{Coeffs: dst.Coeffs, IsNTT: c.Bool("flag")}
			ev.AutTo(other, dst, k)
			dst.IsNTT = other.IsNTT
		case 3:
			dst.CopyFrom(src)
			other := &bigpoly.Poly[E]{Coeffs: append([]E(nil), dst.Coeffs...)}
			ev.AutTo(other, dst, k)
			dst = other
		default:
			ev.AutTo(dst, src, k)
			eqAt(c, name+"To: input changed", vh.Bigs(src.Coeffs), before)
		}
		eqAt(c, name+"To", coeffs(dst, name+"To"), want)

		// composition
		ev.AutTo(dst, dst, k2)
		eqAt(c, name+": composition", coeffs(dst, name), autModel(want, int64(k2), f.P))

		// even indices and wrong ranks are refused without effect
		snap := vh.Bigs(dst.Coeffs)
		if p, _ := vh.MustPanic(func() { ev.AutTo(dst, src, k-1) }); !p {
			c.Fatalf("%s: even index %d accepted", name, k-1)
		}
		w := bigpoly.NewPoly[E](2*n, ntt)
		if p, _ := vh.MustPanic(func() { ev.AutTo(dst, w, k) }); !p {
			c.Fatalf("%s: wrong input rank accepted", name)
		}
		if p, _ := vh.MustPanic(func() { ev.AutTo(w, src, k) }); !p {
			c.Fatalf("%s: wrong output rank accepted", name)
		}
		eqAt(c, name+": refused call changed the output", vh.Bigs(dst.Coeffs), snap)
		eqAt(c, name+": refused call changed the input", vh.Bigs(src.Coeffs), before)
	}
	kk := ((k % (2 * n)) + 2*n) % (2 * n)
	if n >= 4 && kk != 1 {
		for _, x := range v[1:] {
			if x.Sign() != 0 {
				c.NonTrivial()
				break
			}
		}
	}
	c.Label("index sign:%v", k > 0)
}

func TestC04_Automorphisms(t *testing.T) {
	vh.Check(t, 5000, 60000, func(c *vh.Ctx) {
		pick(c, autProp[e110], autProp[e220], autProp[e440], autProp[e880], autProp[ebfv], autProp[emult], autProp[ejin])
	})
}
