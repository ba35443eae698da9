package zvmath

import (
	"fmt"
	"math/big"
	"math/bits"
	"sync"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

type transformer[E bignum.Uint[E]] interface {
	FwdNTTTo(vOut, v []E)
	InvNTTTo(vOut, v []E)
	Rank() int
}

var cache sync.Map

// cached keeps transformers and evaluators across cases (they are stateless by contract).
func cached[T any](key string, mk func() T) T {
	if v, ok := cache.Load(key); ok {
		return v.(T)
	}
	v := mk()
	cache.Store(key, v)
	return v
}

func getTransformer[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, cyclic bool, rank int) transformer[E] {
	key := fmt.Sprintf("tr/%s/%v/%d", f.Name, cyclic, rank)
	return cached(key, func() transformer[E] {
		if cyclic {
			return bigpoly.NewCyclicTransformer[E](rank)
		}
		return bigpoly.NewCyclotomicTransformer[E](rank)
	})
}

// drawRank draws a power of two, biased to the small ranks where special code paths meet.
func drawRank(c *vh.Ctx, maxLog int) int {
	l := c.Int(0, 9, "logRank")
	if l > 8 {
		l = c.Int(8, maxLog, "logRankBig")
	} else if l > 7 {
		l = c.Int(5, min(maxLog, 9), "logRankMid")
	}
	c.Label("rank:2^%d", l)
	c.Note("rank=%d", 1<<l)
	return 1 << l
}

// guarded is a vector with foreign memory right behind it: sentinels that must not change,
// or nil elements that must not be read.
type guarded[E bignum.Uint[E]] struct {
	back []E
	v    []E
	n    int
}

const guardLen = 9

func newGuarded[E bignum.Uint[E]](vals []*big.Int, nilGuard bool) *guarded[E] {
	n := len(vals)
	g := &guarded[E]{back: make([]E, n+guardLen), n: n}
	for i := range vals {
		g.back[i] = vh.FromBig[E](vals[i])
	}
	if !nilGuard {
		for i := 0; i < guardLen; i++ {
			g.back[n+i] = vh.FromBig[E](big.NewInt(int64(1000 + i)))
		}
	}
	g.v = g.back[:n:n]
	return g
}

func (g *guarded[E]) intact(c *vh.Ctx, what string) {
	var zero E
	for i := 0; i < guardLen; i++ {
		e := g.back[g.n+i]
		if any(e) == any(zero) {
			continue
		}
		if vh.Big(e).Cmp(big.NewInt(int64(1000+i))) != 0 {
			c.Fatalf("%s: memory behind the vector was modified (element %d past the end)", what, i)
		}
	}
}

func eqAt(c *vh.Ctx, what string, got []*big.Int, want []*big.Int) {
	if len(got) != len(want) {
		c.Fatalf("%s: length %d, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i].Cmp(want[i]) != 0 {
			c.Fatalf("%s: index %d is %v, want %v", what, i, got[i], want[i])
		}
	}
}

func zeros(n int) []*big.Int {
	v := make([]*big.Int, n)
	for i := range v {
		v[i] = new(big.Int)
	}
	return v
}

// C02 rule: the vectors multiplied are both nonzero and the rank is at least 2.
func nttProp[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	cyclic := c.Bool("cyclic")
	sign := -1
	if cyclic {
		sign = 1
	}
	c.Note("cyclic=%v", cyclic)
	maxLog := 11
	if vh.Thorough() {
		maxLog = 14
	}
	n := drawRank(c, maxLog)
	tr := getTransformer[E](c, f, cyclic, n)
	if tr.Rank() != n {
		c.Fatalf("Rank() = %d, want %d", tr.Rank(), n)
	}
	x := c.VecStyle(n, f.P, "x")
	y := c.VecStyle(n, f.P, "y")
	alias := c.Bool("alias")
	c.Note("alias=%v", alias)

	apply := func(what string, in []*big.Int, run func(out, v []E)) []*big.Int {
		if alias {
			g := newGuarded[E](in, false)
			run(g.v, g.v)
			g.intact(c, what)
			return vh.Bigs(g.v)
		}
		gi := newGuarded[E](in, true)
		r := vh.RNGFrom(uint64(len(what)))
		junk := zeros(n)
		for i := range junk {
			junk[i] = r.Big(f.P)
		}
		go_ := newGuarded[E](junk, false)
		run(go_.v, gi.v)
		eqAt(c, what+": input changed", vh.Bigs(gi.v), in)
		go_.intact(c, what)
		return vh.Bigs(go_.v)
	}
	fwd := func(in []*big.Int) []*big.Int { return apply("FwdNTTTo", in, tr.FwdNTTTo) }
	inv := func(in []*big.Int) []*big.Int { return apply("InvNTTTo", in, tr.InvNTTTo) }

	fx, fy := fwd(x), fwd(y)
	eqAt(c, "InvNTT(NTT(x)) != x", inv(fx), x)
	eqAt(c, "NTT(InvNTT(y)) != y", fwd(inv(y)), y)

	// linearity
	a := c.NewRNG("a").Interesting(f.P)
	lin, linF := zeros(n), zeros(n)
	for i := range lin {
		lin[i].Mul(a, x[i])
		lin[i].Add(lin[i], y[i]).Mod(lin[i], f.P)
		linF[i].Mul(a, fx[i])
		linF[i].Add(linF[i], fy[i]).Mod(linF[i], f.P)
	}
	eqAt(c, "NTT(a*x+y) != a*NTT(x)+NTT(y)", fwd(lin), linF)

	// isomorphism
	pw := zeros(n)
	for i := range pw {
		pw[i].Mul(fx[i], fy[i]).Mod(pw[i], f.P)
	}
	eqAt(c, "InvNTT(NTT(x)*NTT(y)) is not the ring product", inv(pw), vh.RingMul(x, y, sign, f.P))

	nz := func(v []*big.Int) bool {
		for _, e := range v {
			if e.Sign() != 0 {
				return true
			}
		}
		return false
	}
	if n >= 2 && nz(x) && nz(y) {
		c.NonTrivial()
	}
}

func TestC02_TransformRingIsomorphism(t *testing.T) {
	vh.Check(t, 1500, 20000, func(c *vh.Ctx) {
		pick(c, nttProp[e110], nttProp[e220], nttProp[e440], nttProp[e880], nttProp[ebfv], nttProp[emult], nttProp[ejin])
	})
}

// Every basis vector has to be mapped consistently: X^i * X^j = ±X^(i+j mod n) pointwise, exhaustively in i for a drawn rank.
func nttMonomials[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	cyclic := c.Bool("cyclic")
	n := 1 << c.Int(0, 6, "logRank")
	c.Note("cyclic=%v rank=%d", cyclic, n)
	tr := getTransformer[E](c, f, cyclic, n)
	mono := func(i int) []E {
		v := zeros(n)
		v[i].SetInt64(1)
		g := newGuarded[E](v, false)
		tr.FwdNTTTo(g.v, g.v)
		g.intact(c, "FwdNTTTo")
		return g.v
	}
	xs := make([][]E, n)
	for i := range xs {
		xs[i] = mono(i)
	}
	one := make([]E, n)
	for k := range one {
		one[k] = vh.FromBig[E](big.NewInt(1))
		if xs[0][k].Cmp(one[k]) != 0 {
			c.Fatalf("NTT(1) is not the all-ones vector at %d", k)
		}
	}
	seen := map[string]bool{}
	for k := 0; k < n && n > 1; k++ {
		root := vh.Big(xs[1][k])
		if seen[root.String()] {
			c.Fatalf("slots share the root %v", root)
		}
		seen[root.String()] = true
		want := big.NewInt(1)
		if !cyclic {
			want.Sub(f.P, want)
		}
		if new(big.Int).Exp(root, big.NewInt(int64(n)), f.P).Cmp(want) != 0 {
			c.Fatalf("slot %d: %v is not a root of the modulus polynomial", k, root)
		}
		for i := range xs {
			if vh.Big(xs[i][k]).Cmp(new(big.Int).Exp(root, big.NewInt(int64(i)), f.P)) != 0 {
				c.Fatalf("slot %d: NTT(X^%d) is not the power of the root", k, i)
			}
		}
	}
	for i := range xs {
		g := make([]E, n)
		for k := range g {
			g[k] = g[k].New()
		}
		tr.InvNTTTo(g, xs[i])
		for k := range g {
			want := int64(0)
			if k == i {
				want = 1
			}
			if vh.Big(g[k]).Cmp(big.NewInt(want)) != 0 {
				c.Fatalf("InvNTT(NTT(X^%d)) wrong at %d", i, k)
			}
		}
	}
	c.NonTrivial()
}

func TestC02_Monomials(t *testing.T) {
	vh.Check(t, 150, 1500, func(c *vh.Ctx) {
		pick(c, nttMonomials[e110], nttMonomials[e220], nttMonomials[e440], nttMonomials[e880], nttMonomials[ebfv], nttMonomials[emult], nttMonomials[ejin])
	})
}

// High ranks, up to what the field supports (2^17, thorough 2^19): a dense vector times a sparse one is a sum of
// shifted multiples, so the product needs no big multiplication.
func nttHigh[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	cyclic := c.Bool("cyclic")
	top := 0 // the two-adicity of p-1
	for pm := new(big.Int).Sub(f.P, big.NewInt(1)); pm.Bit(top) == 0; {
		top++
	}
	top-- // cyclic transforms, too, are offered up to half of it
	lo, hi := 12, 14
	if c.Int(0, 7, "top") == 0 {
		// past the ends of half words
		lo, hi = 15, 17
	}
	if vh.Thorough() {
		hi += 2
	}
	top = min(top, hi)
	n := 1 << c.Int(min(lo, top), top, "logRank")
	c.Label("rank:2^%d", bits.Len(uint(n))-1)
	c.Note("cyclic=%v rank=%d", cyclic, n)
	var tr transformer[E]
	if n <= 1<<14 {
		tr = getTransformer[E](c, f, cyclic, n)
	} else if cyclic {
		tr = bigpoly.NewCyclicTransformer[E](n)
	} else {
		tr = bigpoly.NewCyclotomicTransformer[E](n)
	}
	x := c.VecStyle(n, f.P, "x")
	r := c.NewRNG("sparse")
	y, want := zeros(n), zeros(n)
	terms := 1 + r.N(6)
	t := new(big.Int)
	for k := 0; k < terms; k++ {
		at, v := r.N(n), r.Interesting(f.P)
		y[at].Add(y[at], v).Mod(y[at], f.P)
		for i := range x {
			t.Mul(x[i], v)
			if j := i + at; j < n {
				want[j].Add(want[j], t)
			} else if cyclic {
				want[j-n].Add(want[j-n], t)
			} else {
				want[j-n].Sub(want[j-n], t)
			}
		}
	}
	for i := range want {
		want[i].Mod(want[i], f.P)
	}
	gx, gy := newGuarded[E](x, false), newGuarded[E](y, false)
	fx, fy := newGuarded[E](zeros(n), false), newGuarded[E](zeros(n), false)
	tr.FwdNTTTo(fx.v, gx.v)
	tr.FwdNTTTo(fy.v, gy.v)
	back := newGuarded[E](zeros(n), false)
	tr.InvNTTTo(back.v, fx.v)
	eqAt(c, "InvNTT(NTT(x)) != x", vh.Bigs(back.v), x)
	for i := range fx.v {
		fx.v[i].Mul(fx.v[i], fy.v[i])
	}
	tr.InvNTTTo(fx.v, fx.v)
	eqAt(c, "InvNTT(NTT(x)*NTT(y)) is not the ring product", vh.Bigs(fx.v), want)
	eqAt(c, "input changed", vh.Bigs(gx.v), x)
	eqAt(c, "input changed", vh.Bigs(gy.v), y)
	for _, g := range []*guarded[E]{gx, gy, fx, fy, back} {
		g.intact(c, "transforms")
	}
	c.NonTrivial()
}

func TestC02_HighRanks(t *testing.T) {
	vh.Check(t, 40, 300, func(c *vh.Ctx) {
		pick(c, nttHigh[e110], nttHigh[e220], nttHigh[e440], nttHigh[e880], nttHigh[ebfv], nttHigh[emult], nttHigh[ejin])
	})
}

// Ranks that are not powers of two, or that the field does not support, are refused.
func TestC02_UnsupportedRanks(t *testing.T) {
	vh.Check(t, 200, 2000, func(c *vh.Ctx) {
		if c.Bool("just above") {
			pick(c, aboveTop[e110], aboveTop[e220], aboveTop[e440], aboveTop[e880], aboveTop[ebfv], aboveTop[emult], aboveTop[ejin])
			return
		}
		n := Pick0(c)
		c.Note("rank=%d", n)
		for _, cyclic := range []bool{true, false} {
			ok, _ := vh.MustPanic(func() {
				if cyclic {
					bigpoly.NewCyclicTransformer[e110](n)
				} else {
					bigpoly.NewCyclotomicTransformer[e110](n)
				}
			})
			if !ok {
				c.Fatalf("rank %d (cyclic=%v) accepted", n, cyclic)
			}
		}
		c.NonTrivial()
	})
}

// aboveTop asks for ranks one or a few powers above the field's largest.
func aboveTop[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	top := 0
	for pm := new(big.Int).Sub(f.P, big.NewInt(1)); pm.Bit(top) == 0; {
		top++
	}
	n := 1 << (top + c.Int(0, 3, "above"))
	c.Note("rank=%d", n)
	if top > 24 {
		return // a wrong answer would exhaust the memory
	}
	if ok, _ := vh.MustPanic(func() { bigpoly.NewCyclotomicTransformer[E](n) }); !ok {
		c.Fatalf("cyclotomic rank %d accepted", n)
	}
	if ok, _ := vh.MustPanic(func() { bigpoly.NewCyclicTransformer[E](n << 1) }); !ok {
		c.Fatalf("cyclic rank %d accepted", 2*n)
	}
	c.NonTrivial()
}

// Pick0 draws a rank that no transformer can have.
func Pick0(c *vh.Ctx) int {
	switch c.Int(0, 2, "kind") {
	case 0:
		return -c.SmallInt(0, 1<<40, "neg")
	case 1:
		n := c.Int(3, 1<<20, "n")
		if n&(n-1) == 0 {
			n++
		}
		return n
	default:
		return 1 << c.Int(60, 62, "huge")
	}
}
