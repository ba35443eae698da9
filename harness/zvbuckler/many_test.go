package zvbuckler

import (
	"math/big"
	"math/bits"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// many builds circuits of very many constraints, each of which fails by an amount of its own, and
// violates some of them by amounts that add up to zero: however the verifier combines the
// constraints, no fixed combination of them may be blind to that.
func many[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, kind int) {
	N := []int{1, 2, 4, 8, 16}[c.Int(0, 4, "rank")]
	K := []int{2, 3, 4, 7, 9, 16, 17, 20, 32, 33, 40}[c.Int(0, 10, "constraints")]
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: 1, wl: K}
	g = fixed(g)
	// witness i has to be zero, to map to zero, or to sum to zero
	for i := 0; i < K; i++ {
		k := &con[E]{kind: kind, w: g.sp.sh.nw() - 1, out: i, closeW: -1, closePW: -1}
		switch kind {
		case kLin:
			s := int64(1 + g.r.N(1+c.Int(0, 3, "maps")))
			k.m = &lmap[E]{name: "scale", chk: scaleMap[E]{s}, apply: func(v []*big.Int) []*big.Int { return scaled(v, s, f.P) }}
		case kSum:
			k.sum = new(big.Int)
			fallthrough
		default:
			k.terms = []term{{c: big.NewInt(1), pw: -1, w: []int{i}}}
		}
		g.sp.cons = append(g.sp.cons, k)
	}
	if kind != kArith && c.Bool("arith too") {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(g.sp.sh.nw()-1, 0), closeW: -1, closePW: -1})
	}
	pr := compile(c, g.sp, "Buckler!")
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	at := g.r.N(N)
	for t := 0; t < 4; t++ {
		a := g.a.clone()
		add := func(i int, x *big.Int) {
			v := a.w[i][at]
			v.Mod(v.Add(v, x), f.P)
		}
		d := g.r.Big(new(big.Int).Sub(f.P, big.NewInt(1)))
		d.Add(d, big.NewInt(1))
		if g.r.N(3) == 0 {
			d.SetInt64(1)
		}
		neg := new(big.Int).Neg(d)
		what := ""
		switch {
		case t == 0:
			i := g.r.N(K)
			add(i, d)
			what = "one constraint"
		case t == 1:
			i := g.r.N(K - 1)
			j := i + 1 + g.r.N(K-1-i)
			add(i, d)
			add(j, neg)
			what = "two constraints"
		case t == 2: // the signs of Thue and Morse cancel under any weights that repeat with a
			// period of a power of two, are constant on blocks of one, or are a polynomial of
			// small degree of the position
			m := 1
			for 2*m <= K {
				m *= 2
			}
			at0 := 0
			if g.r.N(3) == 0 {
				at0 = g.r.N(K - m + 1)
			}
			for i := 0; i < m; i++ {
				add(at0+i, []*big.Int{d, neg}[bits.OnesCount(uint(i))%2])
			}
			what = "alternating at every scale"
		default: // one block of constraints against the next
			T := 1 + g.r.N(K/2)
			at0 := g.r.N(K - 2*T + 1)
			if g.r.N(2) == 0 {
				at0 = 0
			}
			for i := at0; i < at0+T; i++ {
				x := g.r.Big(f.P)
				if i == at0 {
					x = d
				}
				add(i, x)
				add(i+T, new(big.Int).Neg(x))
			}
			what = "a block of constraints against the next"
		}
		if len(g.sp.failing(a)) == 0 {
			c.Fatalf("VERIF-INTERNAL: %s: nothing fails", what)
		}
		if _, ok := pr.run(a); ok {
			c.Fatalf("accepted with constraints %v of %d violated (%s): %v", g.sp.failing(a), K, what, g.sp)
		}
		c.Label("many: %s", what)
		c.NonTrivial()
	}
	c.Label("constraints:%d0s", K/10)
}

func scaled(v []*big.Int, s int64, p *big.Int) []*big.Int {
	out := make([]*big.Int, len(v))
	for i := range v {
		out[i] = new(big.Int).Mul(v[i], big.NewInt(s))
		out[i].Mod(out[i], p)
	}
	return out
}

func manyArith[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { many[E](c, f, kArith) }
func manyLin[E bignum.Uint[E]](c *vh.Ctx, f vh.Field)   { many[E](c, f, kLin) }
func manySum[E bignum.Uint[E]](c *vh.Ctx, f vh.Field)   { many[E](c, f, kSum) }

func TestC21_Many(t *testing.T) {
	vh.Check(t, 16, 800, func(c *vh.Ctx) {
		pick(c, manyArith[e110], manyArith[e220], manyArith[e440], manyArith[e880], manyArith[ebfv], manyArith[emult])
	})
}

func TestC22_Many(t *testing.T) {
	vh.Check(t, 12, 800, func(c *vh.Ctx) {
		pick(c, manyLin[e110], manyLin[e220], manyLin[e440], manyLin[e880], manyLin[ebfv], manyLin[emult])
	})
}

func TestC27_Many(t *testing.T) {
	vh.Check(t, 12, 800, func(c *vh.Ctx) {
		pick(c, manySum[e110], manySum[e220], manySum[e440], manySum[e880], manySum[ebfv], manySum[emult])
	})
}
