package zvbuckler

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// approxSpec draws a circuit with approximate norm constraints on witnesses that the public
// inputs pin.
func approxSpec[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, many bool) *gen[E] {
	N := 2048
	if c.Int(0, 4, "rank") == 0 {
		N = 4096
	}
	n := 1
	if many {
		n = c.Int(1, 3, "constraints")
	}
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: 1, wl: 0}
	g = fixed(g)
	for i := 0; i < n; i++ {
		k := &con[E]{kind: kApprox, w: g.r.N(2), closeW: -1, closePW: -1, style: g.r.N(8)}
		if i == 0 {
			k.w = 0
		}
		lim := uint64(31)
		if N == 4096 {
			lim = 1<<20 - 1
		}
		switch g.r.N(4) {
		case 0:
			k.bound = vh.U(lim)
		case 1:
			k.bound = vh.U(1 << uint(g.r.N(5)))
		case 2:
			k.bound = vh.U(1 + g.r.U64()%4)
		default:
			k.bound = vh.U(1 + g.r.U64()%lim)
		}
		if i > 0 && g.r.N(5) == 0 {
			k.bound = new(big.Int)
			k.w = 2
		}
		g.sp.cons = append(g.sp.cons, k)
	}
	for s := 0; s < 2; s++ {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(s, s), closeW: -1, closePW: -1})
	}
	if many && c.Bool("more") {
		g.sp.cons = append(g.sp.cons,
			&con[E]{kind: kInf, w: 3, bound: vh.U(uint64(1 + g.r.N(4))), closeW: -1, closePW: -1},
			&con[E]{kind: kSum, terms: []term{{c: big.NewInt(1), pw: -1, w: []int{2}}}, sum: new(big.Int), closeW: -1, closePW: -1},
			&con[E]{kind: kLin, m: drawMap[E](c, vh.RNGFrom(1), N, f.P), w: 2, out: 2, closeW: -1, closePW: -1})
		g.sp.cons[len(g.sp.cons)-1].m.chk = scaleMap[E]{1}
		g.sp.cons[len(g.sp.cons)-1].m.name = "scale(1)"
	}
	shuffleCons(g)
	c.Note("%v", g.sp.cons)
	return g
}

func shuffleCons[E bignum.Uint[E]](g *gen[E]) {
	cs := g.sp.cons
	for i := len(cs) - 1; i > 0; i-- {
		j := g.r.N(i + 1)
		cs[i], cs[j] = cs[j], cs[i]
	}
}

// bounds gives the tightest approximate bound on each witness.
func bounds[E bignum.Uint[E]](sp *spec[E]) map[int]*big.Int {
	out := map[int]*big.Int{}
	for _, k := range sp.cons {
		if k.kind == kApprox && (out[k.w] == nil || k.bound.Cmp(out[k.w]) < 0) {
			out[k.w] = k.bound
		}
	}
	return out
}

// within fills the witness with values inside of the bound.
func (g *gen[E]) within(w int, b *big.Int) string {
	v := g.a.w[w]
	p := g.sp.f.P
	k := g.r.N(5)
	for i := range v {
		x := new(big.Int).Set(b)
		switch k {
		case 0: // all at the bound
		case 1:
			x.Neg(x)
		case 2:
			if g.r.N(2) == 0 {
				x.Neg(x)
			}
		case 3:
			x = g.r.Big(new(big.Int).Add(b, big.NewInt(1)))
			if g.r.N(2) == 0 {
				x.Neg(x)
			}
		default:
			if i != 5 {
				x.SetUint64(0)
			}
		}
		v[i] = x.Mod(x, p)
	}
	g.a.pw[w] = cloneBig(v)
	return []string{"all at the bound", "all at minus the bound", "at the bound, random signs", "random", "one at the bound"}[k]
}

// farOut puts a witness beyond every slack.
func farOut(r *vh.RNG, a *assign, w int, N int, bound, p *big.Int) string {
	slack := new(big.Int).Mul(bound, big.NewInt(int64(N)))
	v := a.w[w]
	at := r.N(N)
	what := ""
	x := new(big.Int)
	if r.N(2) == 0 {
		return cancelling(r, a, w, N, p)
	}
	switch r.N(4) {
	case 0: // one entry just beyond the slack among zeros
		for i := range v {
			v[i] = new(big.Int)
		}
		x.Add(slack, big.NewInt(1))
		what = "one entry just beyond the slack"
	case 1: // one entry beyond twice the slack among anything inside
		x.Lsh(slack, 1)
		x.Add(x, big.NewInt(1))
		what = "one entry beyond twice the slack"
	case 2: // many
		for i := range v {
			v[i] = r.Big(p)
		}
		x.Rsh(p, 1)
		what = "random field elements"
	default:
		x.Rsh(p, uint(1+r.N(3)))
		what = "one huge entry"
	}
	if r.N(2) == 0 {
		x.Neg(x)
	}
	v[at] = x.Mod(x, p)
	a.pw[w] = cloneBig(v)
	return what
}

// cancelling puts huge entries into a witness that add up to zero over a regular set of
// positions; a projection in which these positions are not independent would not see them.
func cancelling(r *vh.RNG, a *assign, w int, N int, p *big.Int) string {
	v := a.w[w]
	big1 := new(big.Int).Rsh(p, uint(1+r.N(8)))
	neg := new(big.Int).Sub(p, big1)
	for i := range v {
		v[i] = new(big.Int)
	}
	what := ""
	switch r.N(5) {
	case 0:
		for i := range v {
			v[i].Set([]*big.Int{big1, neg}[i%2])
		}
		what = "alternating"
	case 1:
		for i := range v {
			v[i].Set([]*big.Int{big1, neg}[2*i/N])
		}
		what = "halves"
	case 2:
		d := 1 << uint(r.N(11))
		for i := range v {
			v[i].Set([]*big.Int{big1, neg}[i/d%2])
		}
		what = "blocks of a power of two"
	case 3: // two places, a regular distance apart
		d := 1 << uint(r.N(11))
		if r.N(4) == 0 {
			d = 1 + r.N(N-1)
		}
		at := r.N(N - d)
		v[at].Set(big1)
		v[at+d].Set(neg)
		what = "two places"
	default: // mirrored
		for i := 0; i < N/2; i++ {
			x := r.Big(p)
			v[i].Set(x)
			v[N-1-i].Mod(v[N-1-i].Neg(x), p)
		}
		what = "mirrored"
	}
	a.pw[w] = cloneBig(v)
	return "cancelling: " + what
}

func approxNorms[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := approxSpec[E](c, f, true)
	pr := compile(c, g.sp, "Buckler!")
	bs := bounds(g.sp)
	for t := 0; t < 2; t++ {
		for _, w := range []int{0, 1} {
			if bs[w] != nil {
				c.Label("%s", g.within(w, bs[w]))
			}
		}
		if bad := g.sp.failing(g.a); len(bad) > 0 {
			c.Fatalf("VERIF-INTERNAL: %v", bad)
		}
		if _, ok := pr.run(g.a); !ok {
			c.Fatalf("a witness within the bound is rejected: %v", g.sp)
		}
	}
	for t := 0; t < 3; t++ {
		a := g.a.clone()
		w := g.r.N(2)
		if bs[w] == nil {
			w = 0
		}
		what := farOut(g.r, a, w, g.sp.N, bs[w], f.P)
		if _, ok := pr.run(a); ok {
			c.Fatalf("a witness far out of the bound is accepted (%s): %v", what, g.sp)
		}
		c.Label("%s", what)
		c.NonTrivial()
	}
}

func TestC26_Approx(t *testing.T) {
	vh.Check(t, 8, 300, func(c *vh.Ctx) {
		pick(c, approxNorms[e110], approxNorms[e220], approxNorms[e440], approxNorms[e880], approxNorms[ebfv], approxNorms[emult])
	})
}

// approxZero: the bound zero means zero, at any rank.
func approxZero[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := newGen[E](c, f, drawRank(c), 1, 4)
	g.sp.sh = shape{small: true}
	g = fixed(g)
	g.sp.cons = []*con[E]{{kind: kApprox, w: 0, bound: new(big.Int), closeW: -1, closePW: -1, style: g.r.N(8)}}
	pr := compile(c, g.sp, "Buckler!")
	if _, ok := pr.run(g.a); !ok {
		c.Fatalf("the zero witness is rejected")
	}
	bumpAt(g.r, f.P, g.a.w[0])
	if _, ok := pr.run(g.a); ok {
		c.Fatalf("a nonzero witness is accepted for the bound zero")
	}
	c.NonTrivial()
}

func TestC26_Zero(t *testing.T) {
	vh.Check(t, 3, 60, func(c *vh.Ctx) {
		pick(c, approxZero[e110], approxZero[e220], approxZero[e440], approxZero[e880], approxZero[ebfv], approxZero[emult])
	})
}

// attackApprox lets the prover choose the projection and its digits.
func attackApprox[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := approxSpec[E](c, f, false)
	n := 0
	if c.Bool("many") { // after some others
		n = []int{1, 1, 2, 3, 5}[c.Int(0, 4, "others")]
		for i := 0; i < n; i++ {
			o := &con[E]{kind: kApprox, w: 1 + g.r.N(3), closeW: -1, closePW: -1, bound: vh.U(1 + g.r.U64()%31)}
			g.sp.cons = append([]*con[E]{o}, g.sp.cons...)
		}
	}
	pr := compile(c, g.sp, "Buckler!")
	newMirror(pr).live(c, g.a)
	p := f.P
	bs := bounds(g.sp)
	for t := 0; t < 3; t++ {
		a := g.a.clone()
		what := farOut(g.r, a, 0, g.sp.N, bs[0], p)
		name := []string{"digits that are not ternary", "unconstrained digits", "unrelated projection"}[t]
		va := variant{freeProj: t == 1, noProj: t == 2}
		m := newMirror(pr, va)
		x := m.apps[len(m.apps)-1] // the one on witness 0
		switch g.r.N(4) {
		case 0, 1:
			va.from = 1 + x.con
		case 2:
			va.from = 1 + g.r.N(x.con+1)
		}
		m = newMirror(pr, va)
		x = m.apps[len(m.apps)-1]
		m.attack(c, name, a, &cheat[E]{then: func(proj [][]bool, w [][]E) {
			l := len(x.base)
			for i := 0; i < 128; i++ {
				if t == 2 {
					w[x.pj][i].SetUint64(0)
					for j := 0; j < l; j++ {
						w[x.dig][i*l+j].SetUint64(0)
					}
					continue
				}
				dg, rest := digits(signed(vh.Big(w[x.pj][i]), p), x.base)
				j := []int{0, l - 1, g.r.N(l)}[g.r.N(3)]
				y := new(big.Int).ModInverse(x.base[j], p)
				y.Mul(y, rest)
				y.Add(y, big.NewInt(dg[j]))
				w[x.dig][i*l+j] = vh.FromBig[E](y.Mod(y, p))
			}
		}})
		c.Label("%s", what)
		c.NonTrivial()
	}
}

func TestC26_Adversary(t *testing.T) {
	vh.Check(t, 8, 200, func(c *vh.Ctx) {
		pick(c, attackApprox[e110], attackApprox[e220], attackApprox[e440], attackApprox[e880], attackApprox[ebfv], attackApprox[emult])
	})
}

// projection watches the prover project a witness whose nonzero entries are powers of two, so that
// the projections show the projection's coefficients at these entries: rows are independent fair
// bits, so hardly any two of the 128 agree, columns are not related, and both values are about
// as frequent. A prover that does not turn the projections into integers is not judged.
func projection[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	const N, K = 4096, 20
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: 1, wl: 0}
	g = fixed(g)
	g.sp.cons = []*con[E]{{kind: kApprox, w: 0, bound: vh.U(1<<K - 1), closeW: -1, closePW: -1, style: g.r.N(8)}}
	at := map[int]bool{}
	start, step := g.r.N(N), 1+2*g.r.N(8)
	what := vh.Pick(c, "places", "anywhere", "in a row", "a power of two apart")
	if what == "a power of two apart" {
		step = 1 << (3 + g.r.N(5))
	}
	var pos []int
	for len(pos) < K {
		j := g.r.N(N)
		if what != "anywhere" {
			j = (start + step*len(pos)) % N
		}
		if !at[j] {
			at[j] = true
			pos = append(pos, j)
		}
	}
	for t, j := range pos {
		g.a.w[0][j].SetUint64(1 << uint(t))
	}
	pr := compile(c, g.sp, "Buckler!")
	in := g.sp.fill(g.a, false)
	ints := watchInts(func() {
		if _, err := pr.prv.Prove(in); err != nil {
			c.Fatalf("%v", err)
		}
	})
	var rows []uint64 // the distinct projections, with one value negated ones included
	seen := map[uint64]bool{}
	n := 0
	for _, x := range ints {
		if x.Sign() == 0 || x.BitLen() > K {
			continue
		}
		n++
		if v := x.Uint64(); !seen[v] {
			seen[v] = true
			rows = append(rows, v)
		}
	}
	if n < 120 {
		c.Label("projection not seen")
		return
	}
	c.NonTrivial()
	c.Label("%s", what)
	if len(rows) < 110 {
		c.Fatalf("only %d of the random projections differ", len(rows))
	}
	anti := 0
	for _, v := range rows {
		if seen[v^(1<<K-1)] {
			anti++
		}
	}
	if anti > 30 {
		c.Fatalf("%d of the random projections are opposites of others", anti)
	}
	col := func(t int) (o [4]uint64) {
		for i, v := range rows {
			o[i/64] |= (v >> uint(t) & 1) << uint(i%64)
		}
		return
	}
	weight := func(o [4]uint64) (w int) {
		for _, x := range o {
			for ; x != 0; x &= x - 1 {
				w++
			}
		}
		return
	}
	m := min(len(rows), 256)
	rows = rows[:m]
	// the weight of any sum of at most two columns deviates from the half by more than 6.5 standard deviations
	// with a probability of less than 2^-33
	far := func(w int) bool { d := 2*w - m; return d*d > 43*m }
	for t := 0; t < K; t++ {
		if far(weight(col(t))) {
			c.Fatalf("column %d of the projection has %d ones in %d rows", pos[t], weight(col(t)), m)
		}
		for s := 0; s < t; s++ {
			a, b := col(t), col(s)
			for i := range a {
				a[i] ^= b[i]
			}
			if far(weight(a)) {
				c.Fatalf("columns %d and %d of the projection differ in %d of %d rows", pos[s], pos[t], weight(a), m)
			}
		}
	}
}

func TestC26_Projection(t *testing.T) {
	vh.Check(t, 3, 100, func(c *vh.Ctx) {
		pick(c, projection[s110], projection[s220], projection[s440], projection[s880], projection[sbfv], projection[smul])
	})
}
