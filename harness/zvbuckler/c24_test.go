package zvbuckler

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// normCases tries assignments on, just inside and just outside every bound of the circuit.
func normCases[E bignum.Uint[E]](g *gen[E], tries int) {
	c := g.c
	p := g.sp.f.P
	pr := compile(c, g.sp, "Buckler!")
	if bad := g.sp.failing(g.a); len(bad) > 0 {
		c.Fatalf("VERIF-INTERNAL: generated assignment fails %v of %v", bad, g.sp)
	}
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	acc, rej := 0, 0
	for t := 0; t < tries; t++ {
		a := g.a.clone()
		k := g.sp.cons[g.r.N(len(g.sp.cons))]
		for _, o := range g.sp.cons { // rather the tighter of two
			if o.kind == k.kind && o.w == k.w && o.bound.Cmp(k.bound) < 0 {
				k = o
				c.Label("tighter of two")
			}
		}
		v := a.w[k.w]
		at := g.r.N(g.sp.N)
		x := new(big.Int).Set(k.bound)
		what := ""
		if k.kind == kInf {
			switch g.r.N(7) {
			case 0:
				what = "at the bound"
			case 1, 2:
				x.Add(x, big.NewInt(1))
				what = "one above"
			case 3:
				x.Add(x, big.NewInt(2+int64(g.r.N(5))))
				what = "just above"
			case 4:
				x.Lsh(x, 1)
				x.Add(x, big.NewInt(int64(g.r.N(3))))
				what = "twice the bound"
			case 5:
				x = g.r.Interesting(p)
				what = "anything"
			case 6:
				for i := range v {
					y := new(big.Int).Set(k.bound)
					if g.r.N(2) == 0 {
						y.Neg(y)
					}
					v[i].Mod(y, p)
				}
				what = "at the bound everywhere"
			}
			if g.r.N(2) == 0 {
				x.Neg(x)
			}
			v[at].Mod(x, p)
		} else {
			// set entry at so that the norm becomes a chosen value, as nearly as squares allow
			v[at].SetUint64(0)
			rest := sqNorm(v, p)
			want := new(big.Int).Set(k.bound)
			what = "at the bound"
			switch g.r.N(4) {
			case 0:
			case 1, 2:
				want.Add(want, big.NewInt(1))
				what = "one above"
			case 3:
				want = g.r.Interesting(p)
				what = "anything"
			}
			want.Sub(want, rest)
			want.Mod(want, p)
			if y := new(big.Int).ModSqrt(want, p); y != nil { // the norm is exact, modulo the field
				v[at].Set(y)
				what += ", exactly"
			} else {
				want.Sqrt(want)
				v[at].Mod(want.Add(want, big.NewInt(int64(g.r.N(2)))), p)
				what += ", nearly"
			}
		}
		g.sp.solve(a, nil)
		bad := g.sp.failing(a)
		_, ok := pr.run(a)
		if ok != (len(bad) == 0) {
			c.Fatalf("verdict %v with constraints %v violated (%s of %v): %v", ok, bad, what, k, g.sp)
		}
		if ok {
			acc++
		} else {
			rej++
		}
		c.Label("%s: %v", what, ok)
	}
	if rej > 0 {
		c.NonTrivial()
	}
}

func infNorms[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := newGen[E](c, f, drawRank(c), 1, 3)
	g.sp.sh.small = true
	n := c.Int(1, 3, "constraints")
	if c.Int(0, 4, "wide") == 0 { // one bound of any size
		w := g.free(true)
		k := &con[E]{kind: kInf, w: w, closeW: -1, closePW: -1, style: g.r.N(8)}
		half := new(big.Int).Rsh(f.P, 1)
		k.bound = new(big.Int).Rsh(half, uint(g.r.N(f.P.BitLen()-12)))
		switch g.r.N(3) {
		case 0:
			k.bound.Sub(half, big.NewInt(1+int64(g.r.N(3))))
		case 1:
			t := k.bound.BitLen()
			k.bound.Lsh(big.NewInt(1), uint(t-2))
		}
		lim := 70 // keep the number of digits affordable
		if vh.Thorough() || g.r.N(8) == 0 {
			lim = 230
		}
		if k.bound.BitLen() > lim {
			k.bound.Rsh(k.bound, uint(k.bound.BitLen()-lim))
		}
		if g.r.N(2) == 0 { // around the ends of machine words, given as one if possible
			k.bound = new(big.Int).SetUint64([]uint64{1<<63 - 1, 1 << 63, 1<<63 + 1 + g.r.U64()>>1, 1<<64 - 1, 1 << 32, 1<<31 + g.r.U64()>>33, g.r.U64()}[g.r.N(7)])
			k.style |= 4
		}
		for i := range g.a.w[w] {
			x := g.r.Big(new(big.Int).Add(k.bound, big.NewInt(1)))
			if g.r.N(2) == 0 {
				x.Neg(x)
			}
			g.a.w[w][i].Mod(x, f.P)
		}
		g.done(k)
		c.Label("wide bound")
	} else {
		if c.Bool("large") {
			g.maxInf = 12
		} else {
			g.maxInf = 3
		}
		g.repeat = n > 1
		for i := 0; i < n; i++ {
			g.add(kInf)
		}
	}
	for _, k := range g.sp.cons {
		if k.bound.BitLen() < 20 {
			c.Label("bound:%d bits", k.bound.BitLen())
		}
		if k.bound.TrailingZeroBits() == uint(max(k.bound.BitLen(), 1)-1) {
			c.Label("bound a power of two")
		}
	}
	g.finish()
	normCases(g, 4)
}

// severalNorms puts several bounds of one kind on one witness.
func severalNorms[E bignum.Uint[E]](kind int) func(c *vh.Ctx, f vh.Field) {
	return func(c *vh.Ctx, f vh.Field) {
		g := newGen[E](c, f, []int{4, 8, 16}[c.Int(0, 2, "rank")], 0, 0)
		g.repeat = true
		g.maxInf = 3
		w := g.free(true)
		v := g.a.w[w]
		for i := range v {
			v[i].SetUint64(g.r.U64() % 5)
		}
		v[g.r.N(len(v))].SetUint64(uint64(4 + g.r.N(2)))
		n := infNorm(v, f.P)
		if kind == kTwo {
			for sqNorm(v, f.P).BitLen() > g.sp.N-1 {
				v[g.r.N(g.sp.N)].SetUint64(0)
			}
			n = sqNorm(v, f.P)
		}
		for i := 2 + g.r.N(2); i > 0; i-- { // often of one size
			k := &con[E]{kind: kind, w: w, closeW: -1, closePW: -1, style: g.r.N(8)}
			lim := new(big.Int).Lsh(big.NewInt(1), uint(n.BitLen()))
			k.bound = new(big.Int).Add(n, g.r.Big(lim.Sub(lim, n)))
			if g.r.N(4) == 0 {
				k.bound.Add(n, vh.U(g.r.U64()%(1<<uint(n.BitLen()))))
			}
			g.done(k)
		}
		g.finish()
		normCases(g, 3)
	}
}

func TestC24_Several(t *testing.T) {
	vh.Check(t, 16, 400, func(c *vh.Ctx) {
		pickLight(c, severalNorms[e110](kInf), severalNorms[e220](kInf), severalNorms[ebfv](kInf), severalNorms[emult](kInf))
	})
}

func TestC25_Several(t *testing.T) {
	vh.Check(t, 16, 400, func(c *vh.Ctx) {
		pickLight(c, severalNorms[e110](kTwo), severalNorms[e220](kTwo), severalNorms[ebfv](kTwo), severalNorms[emult](kTwo))
	})
}

func TestC24_InfNorm(t *testing.T) {
	vh.Check(t, 22, 700, func(c *vh.Ctx) {
		pick(c, infNorms[e110], infNorms[e220], infNorms[e440], infNorms[e880], infNorms[ebfv], infNorms[emult])
	})
}

func twoNorms[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := newGen[E](c, f, drawRank(c), 1, 3)
	n := c.Int(1, 3, "constraints")
	g.maxInf = 1 + c.Int(0, min(10, g.sp.N), "inf")
	g.repeat = n > 1
	for i := 0; i < n; i++ {
		if c.Int(0, 2, "wide") == 0 { // any bound the rank allows
			w := g.free(false)
			if w < 0 {
				continue
			}
			k := &con[E]{kind: kTwo, w: w, closeW: -1, closePW: -1, style: g.r.N(8)}
			bits := 1 + g.r.N(g.sp.N)
			if g.r.N(3) == 0 {
				bits = g.sp.N
			}
			bits = min(bits, f.P.BitLen()+1)
			k.bound = g.r.Big(new(big.Int).Lsh(big.NewInt(1), uint(bits)))
			switch g.r.N(4) {
			case 0:
				k.bound.Lsh(big.NewInt(1), uint(bits-1))
			case 1:
				k.bound.Sub(k.bound.Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
			case 2: // around the ends of machine words, given as one
				if g.sp.N >= 64 {
					k.bound = new(big.Int).SetUint64([]uint64{1<<63 - 1, 1 << 63, 1<<63 + 1 + g.r.U64()>>1, 1<<64 - 1, 1 << 32, g.r.U64()}[g.r.N(6)])
					k.style |= 4
				}
			}
			v := g.a.w[w]
			if sqNorm(v, f.P).Cmp(k.bound) > 0 {
				for i := range v {
					v[i].SetUint64(0)
				}
				v[g.r.N(len(v))].Mod(new(big.Int).Sqrt(k.bound), f.P)
				if sqNorm(v, f.P).Cmp(k.bound) > 0 {
					v[0].SetUint64(0)
				}
			}
			if sqNorm(v, f.P).Cmp(k.bound) > 0 {
				continue
			}
			g.done(k)
			c.Label("wide bound")
		} else {
			g.add(kTwo)
		}
	}
	if len(g.sp.cons) == 0 {
		c.Skip()
	}
	for _, k := range g.sp.cons {
		if k.bound.TrailingZeroBits() == uint(max(k.bound.BitLen(), 1)-1) {
			c.Label("bound a power of two")
		}
	}
	g.finish()
	normCases(g, 5)
}

func TestC25_TwoNorm(t *testing.T) {
	vh.Check(t, 25, 800, func(c *vh.Ctx) {
		pick(c, twoNorms[e110], twoNorms[e220], twoNorms[e440], twoNorms[e880], twoNorms[ebfv], twoNorms[emult])
	})
}
