package zvbuckler

import (
	"math/big"
	"math/bits"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// spread draws what to add to the entries of a vector: amounts that a weighing of the entries
// that ignores some of them, or repeats, or is constant on blocks, cannot see.
func spread(r *vh.RNG, N int, p *big.Int) ([]*big.Int, string) {
	v := make([]*big.Int, N)
	for i := range v {
		v[i] = new(big.Int)
	}
	d := r.Big(new(big.Int).Sub(p, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	if r.N(3) == 0 {
		d.SetInt64(1)
	}
	neg := new(big.Int).Sub(p, d)
	add := func(i int, x *big.Int) { v[i].Mod(v[i].Add(v[i], x), p) }
	switch k := r.N(8); {
	case k == 1 && N > 1: // two entries at a distance of a power of two
		s := 1 << uint(r.N(bits.Len(uint(N))-1))
		i := r.N(N - s)
		add(i, d)
		add(i+s, neg)
		return v, "two entries"
	case k == 2 && N > 1: // mirror images
		i := r.N(N / 2)
		add(i, d)
		add(N-1-i, neg)
		return v, "two mirrored entries"
	case k == 3 && N > 1: // the signs of Thue and Morse
		m := 2 << uint(r.N(bits.Len(uint(N))-1))
		at := m * r.N(N/m)
		for i := 0; i < m; i++ {
			add(at+i, []*big.Int{d, neg}[bits.OnesCount(uint(i))%2])
		}
		return v, "alternating at every scale"
	case k == 4 && N > 1: // a block against the next
		m := 1 << uint(r.N(bits.Len(uint(N))-1))
		at := r.N(N - 2*m + 1)
		if r.N(2) == 0 {
			at = 2 * m * r.N(N/(2*m))
		}
		for i := at; i < at+m; i++ {
			x := r.Big(p)
			if i == at {
				x = d
			}
			add(i, x)
			add(i+m, new(big.Int).Neg(x))
		}
		return v, "a block against the next"
	case k == 5: // the last entries
		m := 1 << uint(r.N(bits.Len(uint(N))))
		for i := N - m; i < N; i++ {
			add(i, d)
		}
		return v, "the last entries"
	case k == 6:
		for i := range v {
			v[i].Set(r.Big(p))
		}
		v[r.N(N)].Set(d)
		return v, "all entries"
	}
	i := r.N(N)
	switch r.N(6) {
	case 0:
		i = N - 1
	case 1:
		i = N / 2
	case 2:
		i = 1<<uint(r.N(bits.Len(uint(N)))) - 1
	case 3:
		i = 0
	}
	add(i, d)
	return v, "one entry"
}

var largeRanks = []int{16, 64, 128, 256, 256, 256, 512, 512, 1024, 2048}

// indices violates a constraint over long vectors at chosen entries: the amounts may add up to
// zero over the entries in every way, and there is none that does not count.
func indices[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, kind int) {
	N := largeRanks[c.Int(0, len(largeRanks)-1, "rank")]
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: 1}
	g = fixed(g)
	r, p := g.r, f.P
	for i := 0; i < N; i++ {
		for s := 0; s < 2; s++ {
			g.a.w[s][i].Set(r.Interesting(p))
			g.a.pw[s][i].Set(r.Interesting(p))
		}
	}
	one, m1 := big.NewInt(1), big.NewInt(-1)
	prod := []term{{c: one, pw: -1, w: []int{0, 1}}, {c: m1, pw: -1, w: []int{2}}}
	if r.N(2) == 0 {
		prod = append(prod, term{c: r.Interesting(p), pw: 0, w: []int{0}}, term{c: one, pw: 1})
	}
	k := &con[E]{kind: kind, closeW: -1, closePW: -1, style: r.N(8)}
	at := 2 // where to add
	switch kind {
	case kArith, kSum:
		k.terms = prod
		for i := 0; i < N; i++ {
			g.a.w[2][i] = new(big.Int).Mod(g.sp.evalTerms(prod, g.a, i), p)
		}
		if kind == kSum {
			at = []int{2, 0}[r.N(2)]
			if r.N(2) == 0 {
				g.a.w[2][r.N(N)] = r.Interesting(p)
			}
		}
	case kLin:
		k.m = drawMap[E](c, r, N, p)
		k.w, k.out = 0, 2
		for i, x := range k.m.apply(g.a.w[0]) {
			g.a.w[2][i].Mod(x, p)
		}
		at = []int{2, 2, 2, 0}[r.N(4)]
	}
	g.sp.cons = append(g.sp.cons, k)
	if kind != kArith {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(1, 0), closeW: -1, closePW: -1})
		g.a.pw[0] = cloneBig(g.a.w[1])
		if kind == kSum {
			s := new(big.Int)
			for i := 0; i < N; i++ {
				s.Add(s, g.sp.evalTerms(prod, g.a, i))
			}
			k.sum = s.Mod(s, p)
		}
		if r.N(2) == 0 {
			g.sp.cons[0], g.sp.cons[1] = g.sp.cons[1], g.sp.cons[0]
		}
	}
	if bad := g.sp.failing(g.a); len(bad) > 0 {
		c.Fatalf("VERIF-INTERNAL: generated assignment fails %v of %v", bad, g.sp)
	}
	pr := compile(c, g.sp, "Buckler!")
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	for t := 0; t < max(3, min(8, 2048/N)); t++ {
		a := g.a.clone()
		d, what := spread(r, N, p)
		for i := range d {
			a.w[at][i].Mod(d[i].Add(d[i], a.w[at][i]), p)
		}
		bad := g.sp.failing(a)
		if _, ok := pr.run(a); ok != (len(bad) == 0) {
			c.Fatalf("verdict %v with constraints %v violated (%s of a witness of %d): %v", ok, bad, what, N, g.sp)
		}
		c.Label("large: %s", what)
		if len(bad) > 0 {
			c.NonTrivial()
		}
	}
}

func indArith[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { indices[E](c, f, kArith) }
func indLin[E bignum.Uint[E]](c *vh.Ctx, f vh.Field)   { indices[E](c, f, kLin) }
func indSum[E bignum.Uint[E]](c *vh.Ctx, f vh.Field)   { indices[E](c, f, kSum) }

func TestC21_Indices(t *testing.T) {
	vh.Check(t, 16, 500, func(c *vh.Ctx) {
		pick(c, indArith[e110], indArith[e220], indArith[e440], indArith[e880], indArith[ebfv], indArith[emult])
	})
}

func TestC22_Indices(t *testing.T) {
	vh.Check(t, 16, 800, func(c *vh.Ctx) {
		pick(c, indLin[e110], indLin[e220], indLin[e440], indLin[e880], indLin[ebfv], indLin[emult])
	})
}

func TestC27_Indices(t *testing.T) {
	vh.Check(t, 12, 500, func(c *vh.Ctx) {
		pick(c, indSum[e110], indSum[e220], indSum[e440], indSum[e880], indSum[ebfv], indSum[emult])
	})
}

// wide enters constraints of many terms and of terms of many factors, over witnesses of their
// own, and changes one of them at a time: every term and every factor counts.
func wide[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, kind int) {
	N := []int{1, 2, 4, 8, 16}[c.Int(0, 4, "rank")]
	T := []int{1, 3, 5, 8, 9, 9, 12, 16, 17, 24, 33}[c.Int(0, 10, "terms")]
	D := c.Int(1, 12, "factors")
	K := T + D - 1
	P := []int{1, 1, 6, 12, 20}[c.Int(0, 4, "public")]
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: P, wl: K}
	g = fixed(g)
	r, p := g.r, f.P
	nonzero := func() *big.Int {
		x := r.Big(new(big.Int).Sub(p, big.NewInt(1)))
		return x.Add(x, big.NewInt(1))
	}
	for i := 0; i < N; i++ {
		for s := range g.a.w {
			g.a.w[s][i] = nonzero()
		}
		for s := range g.a.pw {
			g.a.pw[s][i] = nonzero()
		}
	}
	// witness 0 closes; the factors of one term and the other terms are 1, ..., K
	long := term{c: nonzero(), pw: r.N(P+2) - 1}
	for s := 1; s <= D; s++ {
		long.w = append(long.w, s)
	}
	k := &con[E]{kind: kind, closeW: -1, closePW: -1, style: r.N(8), terms: []term{long}, sum: new(big.Int)}
	for s := D + 1; s <= K; s++ {
		t := term{c: nonzero(), pw: r.N(P+2) - 1, w: []int{s}}
		if r.N(3) == 0 {
			t.c = big.NewInt(int64(1 - 2*r.N(2)))
		}
		if r.N(4) == 0 {
			t.w = append(t.w, 1+r.N(K))
		}
		k.terms = append(k.terms, t)
	}
	if r.N(4) == 0 {
		k.terms = append(k.terms, term{c: nonzero(), pw: -1}, term{c: nonzero(), pw: r.N(P + 1)})
	}
	for i := 0; i < N; i++ {
		x := g.sp.evalTerms(k.terms, g.a, i)
		g.a.w[0][i].Mod(x.Neg(x), p)
	}
	k.terms = append(k.terms, term{c: big.NewInt(1), pw: -1, w: []int{0}})
	shuffleTerms(r, k.terms)
	if kind == kSum {
		k.sum = r.Interesting(p)
		x := g.a.w[0][r.N(N)]
		x.Mod(x.Add(x, k.sum), p)
	}
	g.sp.cons = append(g.sp.cons, k)
	if kind != kArith {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(len(g.a.w)-1, 0), closeW: -1, closePW: -1})
		g.a.pw[0] = cloneBig(g.a.w[len(g.a.w)-1])
		fix := new(big.Int)
		for i := 0; i < N; i++ {
			fix.Add(fix, g.sp.evalTerms(k.terms, g.a, i))
		}
		k.sum = fix.Mod(fix, p)
	}
	if bad := g.sp.failing(g.a); len(bad) > 0 {
		c.Fatalf("VERIF-INTERNAL: generated assignment fails %v of %v", bad, g.sp)
	}
	pr := compile(c, g.sp, "Buckler!")
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	for t := 0; t < 6; t++ {
		a := g.a.clone()
		v, what := a.w[r.N(K+1)], "a term"
		switch {
		case t < 3:
			v, what = a.w[[]int{D, 1 + r.N(D), max(1, D-1)}[t]], "a factor"
		case t < 5:
			if u := k.terms[len(k.terms)-1-r.N(min(3, len(k.terms)))].w; len(u) > 0 {
				v, what = a.w[u[0]], "a late term"
			}
		case t == 5:
			v, what = a.pw[1+r.N(P+1)], "a public input"
		}
		bumpAt(r, p, v)
		bad := g.sp.failing(a)
		if _, ok := pr.run(a); ok != (len(bad) == 0) {
			c.Fatalf("verdict %v with constraints %v violated (%s of %d terms, %d factors): %v", ok, bad, what, T, D, g.sp)
		}
		c.Label("wide: %s", what)
		if len(bad) > 0 {
			c.NonTrivial()
		}
	}
	c.Label("terms:%d0s", len(k.terms)/10)
	c.Label("factors:%d", D)
}

func wideArith[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { wide[E](c, f, kArith) }
func wideSum[E bignum.Uint[E]](c *vh.Ctx, f vh.Field)   { wide[E](c, f, kSum) }

func TestC21_Wide(t *testing.T) {
	vh.Check(t, 12, 1000, func(c *vh.Ctx) {
		pick(c, wideArith[e110], wideArith[e220], wideArith[e440], wideArith[e880], wideArith[ebfv], wideArith[emult])
	})
}

func TestC27_Wide(t *testing.T) {
	vh.Check(t, 10, 800, func(c *vh.Ctx) {
		pick(c, wideSum[e110], wideSum[e220], wideSum[e440], wideSum[e880], wideSum[ebfv], wideSum[emult])
	})
}

// large norms: one entry of a long witness beyond the bound, or as large as it may be.
func largeNorm[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, kind int) {
	N := largeRanks[c.Int(0, len(largeRanks)-1, "rank")]
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: 1}
	g = fixed(g)
	r, p := g.r, f.P
	b := int64([]int{1, 2, 3, 5, 7, 8, 100}[r.N(7)])
	for i := 0; i < N; i++ {
		g.a.w[0][i].Mod(big.NewInt(int64(r.N(int(2*b+1)))-b), p)
	}
	k := &con[E]{kind: kind, w: 0, closeW: -1, closePW: -1, style: r.N(8), bound: big.NewInt(b)}
	if kind == kTwo {
		k.bound = sqNorm(g.a.w[0], p)
	}
	g.sp.cons = append(g.sp.cons, k)
	if r.N(2) == 0 {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(1, 0), closeW: -1, closePW: -1})
	}
	pr := compile(c, g.sp, "Buckler!")
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	for t := 0; t < 4; t++ {
		a := g.a.clone()
		i := r.N(N)
		switch r.N(4) {
		case 0:
			i = N - 1 - r.N(2)
		case 1:
			i = N/2 - 1 + r.N(2)
		}
		x := signed(a.w[0][i], p)
		what := "beyond"
		switch {
		case kind == kTwo: // by a little more than there was
			x = new(big.Int).Add(new(big.Int).Abs(x), big.NewInt(1))
		case r.N(3) == 0:
			x, what = big.NewInt(b), "at the bound"
		default:
			x = big.NewInt(b + 1 + int64(r.N(2))*int64(r.N(1<<20)))
		}
		if r.N(2) == 0 {
			x = new(big.Int).Neg(x)
		}
		a.w[0][i] = new(big.Int).Mod(x, p)
		bad := g.sp.failing(a)
		if _, ok := pr.run(a); ok != (len(bad) == 0) {
			c.Fatalf("verdict %v with constraints %v violated (entry %d of %d %s): %v", ok, bad, i, N, what, g.sp)
		}
		c.Label("large: %s", what)
		if len(bad) > 0 {
			c.NonTrivial()
		}
	}
}

func largeInf[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { largeNorm[E](c, f, kInf) }
func largeTwo[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { largeNorm[E](c, f, kTwo) }

func TestC24_Large(t *testing.T) {
	vh.Check(t, 8, 300, func(c *vh.Ctx) {
		pick(c, largeInf[e110], largeInf[e220], largeInf[e440], largeInf[e880], largeInf[ebfv], largeInf[emult])
	})
}

func TestC25_Large(t *testing.T) {
	vh.Check(t, 8, 300, func(c *vh.Ctx) {
		pick(c, largeTwo[e110], largeTwo[e220], largeTwo[e440], largeTwo[e880], largeTwo[ebfv], largeTwo[emult])
	})
}

// commitments: the verifier's challenges depend on the commitment of every witness, however
// many there are.
func allCommitments[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{1, 2, 4, 8, 16}[c.Int(0, 4, "rank")]
	K := []int{1, 2, 4, 5, 9, 13, 17, 30}[c.Int(0, 7, "witnesses")]
	kind := []int{kArith, kLin, kSum, kApprox}[c.Int(0, 3, "kind")]
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: 1, wl: K}
	g = fixed(g)
	for i := range g.a.w {
		k := &con[E]{kind: kind, w: i, out: (i + 1) % len(g.a.w), closeW: -1, closePW: -1, sum: new(big.Int), bound: big.NewInt(0)}
		switch {
		case i == 0:
			k.kind = kArith
			fallthrough
		case kind == kArith || kind == kSum:
			k.terms = []term{{c: big.NewInt(1), pw: -1, w: []int{i}}}
		case kind == kLin:
			s := int64(1 + g.r.N(2))
			k.m = &lmap[E]{name: "scale", chk: scaleMap[E]{s}, apply: func(v []*big.Int) []*big.Int { return scaled(v, s, f.P) }}
		case i > 3: // approximate
			continue
		}
		g.sp.cons = append(g.sp.cons, k)
	}
	pr := compile(c, g.sp, "Buckler!")
	pf, err := pr.prv.Prove(g.sp.fill(g.a, false))
	if err != nil {
		c.Fatalf("%v", err)
	}
	base := watch(func() {
		if !pr.vrf.Verify(g.sp.fill(g.a, true), pf) {
			c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
		}
	})
	if len(base) == 0 {
		c.Label("no challenge seen")
		return
	}
	nw := len(g.a.w)
	for i := range pf.Witness {
		q := deepProof(pf)
		what := bumpPoly(g.r, pr.prv.JindoParams.RingQOut(), q.Witness[i].Value)
		ok := false
		seen := watch(func() { ok = pr.vrf.Verify(g.sp.fill(g.a, true), q) })
		if ok {
			c.Fatalf("a proof verifies with another commitment %d: %v", i, g.sp)
		}
		if len(seen) == 0 {
			continue
		}
		if some, all := shares(seen, base); all || i < nw && some {
			c.Fatalf("challenges do not depend on commitment %d of %d (%s): %v", i, len(pf.Witness), what, g.sp)
		}
		c.NonTrivial()
	}
	c.Label("commitments:%d0s", len(pf.Witness)/10)
}

func TestC31_Many(t *testing.T) {
	vh.Check(t, 12, 400, func(c *vh.Ctx) {
		pick(c, allCommitments[s110], allCommitments[s220], allCommitments[s440], allCommitments[s880], allCommitments[sbfv], allCommitments[smul])
	})
}

// largePublic changes single entries of many and of long public inputs under a proof: the proof
// falls, and there is no challenge that stays the same.
func largePublic[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{1, 4, 16, 64, 128, 256, 512, 1024}[c.Int(0, 7, "rank")]
	P := []int{1, 2, 3, 5, 8, 9, 16, 17, 33}[c.Int(0, 8, "public")]
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: P}
	g = fixed(g)
	r, p := g.r, f.P
	k := &con[E]{kind: []int{kArith, kSum}[r.N(2)], closeW: -1, closePW: -1, sum: new(big.Int), style: r.N(8)}
	for i := range g.a.pw {
		for j := range g.a.pw[i] {
			g.a.pw[i][j].Set(r.Interesting(p))
		}
		k.terms = append(k.terms, term{c: big.NewInt(1), pw: i, w: [][]int{nil, {1}}[r.N(2)]})
	}
	for i := 0; i < N; i++ {
		g.a.w[1][i].Set(r.Interesting(p))
		x := g.sp.evalTerms(k.terms, g.a, i)
		g.a.w[0][i].Mod(x.Neg(x), p)
	}
	k.terms = append(k.terms, term{c: big.NewInt(1), pw: -1, w: []int{0}})
	g.sp.cons = append(g.sp.cons, k, &con[E]{kind: kArith, terms: pinned(2, 0), closeW: -1, closePW: -1})
	g.a.w[2] = cloneBig(g.a.pw[0])
	pr := compile(c, g.sp, "Buckler!")
	pf, err := pr.prv.Prove(g.sp.fill(g.a, false))
	if err != nil {
		c.Fatalf("%v", err)
	}
	base := watch(func() {
		if !pr.vrf.Verify(g.sp.fill(g.a, true), pf) {
			c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
		}
	})
	for t := 0; t < 6; t++ {
		i, j := r.N(len(g.a.pw)), r.N(N)
		if t%3 == 1 {
			i, j = len(g.a.pw)-1-r.N(min(2, len(g.a.pw))), N-1-r.N(min(N, 3))
		}
		a := g.a.clone()
		a.pw[i][j].Mod(new(big.Int).Add(a.pw[i][j], g.residual()), p)
		ok := false
		seen := watch(func() { ok = pr.vrf.Verify(g.sp.fill(a, true), pf) })
		if ok {
			c.Fatalf("a proof verifies for another entry %d of public input %d: %v", j, i, g.sp)
		}
		if some, _ := shares(seen, base); some {
			c.Fatalf("a challenge does not depend on entry %d of %d of public input %d of %d: %v", j, N, i, len(g.a.pw), g.sp)
		}
		if len(seen) > 0 {
			c.NonTrivial()
		}
	}
	c.Label("public inputs:%d", len(g.a.pw))
}

func TestC29_Large(t *testing.T) {
	vh.Check(t, 16, 500, func(c *vh.Ctx) {
		pick(c, largePublic[s110], largePublic[s220], largePublic[s440], largePublic[s880], largePublic[sbfv], largePublic[smul])
	})
}

// manyNorms bounds many witnesses at once and breaks the bound of one of them.
func manyNorms[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, kind int) {
	N := []int{4, 8, 16}[c.Int(0, 2, "rank")]
	K := []int{4, 5, 7, 8, 9, 12, 17}[c.Int(0, 6, "constraints")]
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: 1, wl: K}
	g = fixed(g)
	r, p := g.r, f.P
	for i := 0; i < K; i++ {
		k := &con[E]{kind: kind, w: i, closeW: -1, closePW: -1, style: r.N(8), bound: big.NewInt(int64(r.N(8)))}
		if kind == kTwo {
			k.bound.SetInt64(int64(r.N(1 << min(N, 6))))
		}
		if r.N(2) == 0 { // something inside
			g.a.w[i][r.N(N)].Mod(big.NewInt(int64(r.N(2)*2-1)*int64(sqrtIf(kind == kTwo, k.bound))), p)
		}
		g.sp.cons = append(g.sp.cons, k)
	}
	pr := compile(c, g.sp, "Buckler!")
	if bad := g.sp.failing(g.a); len(bad) > 0 {
		c.Fatalf("VERIF-INTERNAL: generated assignment fails %v of %v", bad, g.sp)
	}
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	for t := 0; t < 5; t++ {
		a := g.a.clone()
		i := r.N(K)
		if t < 2 {
			i = K - 1 - r.N(2)
		}
		k := g.sp.cons[i]
		x := int64(sqrtIf(kind == kTwo, k.bound)) + 1
		if r.N(4) == 0 {
			x *= int64(1 + r.N(9))
		}
		for j := range a.w[i] {
			a.w[i][j] = new(big.Int)
		}
		a.w[i][r.N(N)].Mod(big.NewInt(x*int64(r.N(2)*2-1)), p)
		bad := g.sp.failing(a)
		if _, ok := pr.run(a); ok != (len(bad) == 0) {
			c.Fatalf("verdict %v with constraints %v of %d violated: %v", ok, bad, K, g.sp)
		}
		c.NonTrivial()
	}
	c.Label("bounds:%d", K)
}

// sqrtIf is x or its integer square root.
func sqrtIf(root bool, x *big.Int) int64 {
	if root {
		return new(big.Int).Sqrt(x).Int64()
	}
	return x.Int64()
}

func manyInf[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { manyNorms[E](c, f, kInf) }
func manyTwo[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { manyNorms[E](c, f, kTwo) }

func TestC24_Many(t *testing.T) {
	vh.Check(t, 12, 400, func(c *vh.Ctx) {
		pick(c, manyInf[e110], manyInf[e220], manyInf[e440], manyInf[e880], manyInf[ebfv], manyInf[emult])
	})
}

func TestC25_Many(t *testing.T) {
	vh.Check(t, 12, 400, func(c *vh.Ctx) {
		pick(c, manyTwo[e110], manyTwo[e220], manyTwo[e440], manyTwo[e880], manyTwo[ebfv], manyTwo[emult])
	})
}

// manyApprox bounds many witnesses approximately and puts one of them far out.
func manyApprox[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	K := c.Int(4, 9, "constraints")
	g := newGen[E](c, f, 2048, 1, 4)
	g.sp.sh = shape{small: true, pl: K, wl: K}
	g = fixed(g)
	for i := 0; i < K; i++ {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kApprox, w: i, closeW: -1, closePW: -1, style: g.r.N(8), bound: vh.U(1 + g.r.U64()%31)})
		g.within(i, g.sp.cons[i].bound)
	}
	pr := compile(c, g.sp, "Buckler!")
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("witnesses within the bounds are rejected: %v", g.sp)
	}
	for _, i := range []int{K - 1, g.r.N(K)} {
		a := g.a.clone()
		what := farOut(g.r, a, i, g.sp.N, g.sp.cons[i].bound, f.P)
		a.pw[i] = cloneBig(g.a.pw[i])
		if _, ok := pr.run(a); ok {
			c.Fatalf("witness %d of %d far out of the bound is accepted (%s): %v", i, K, what, g.sp)
		}
		c.NonTrivial()
	}
}

func TestC26_Many(t *testing.T) {
	vh.Check(t, 3, 100, func(c *vh.Ctx) {
		pick(c, manyApprox[e110], manyApprox[e220], manyApprox[e440], manyApprox[e880], manyApprox[ebfv], manyApprox[emult])
	})
}
