package zvbuckler

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// remCheats are the deviations tried in a linear or sum check.
var remCheats = []struct {
	name string
	rc   remCheat
}{
	{"honest messages", remCheat{}},
	{"remainder of too high degree", remCheat{degree: 1}},
	{"remainder of too high degree, shifted by one less", remCheat{degree: 2}},
	{"remainder of too high degree, shifted remainder zero", remCheat{degree: 3}},
	{"remainder of too high degree, not shifted", remCheat{degree: 4}},
	{"late quotient", remCheat{late: "quo"}},
	{"late remainders", remCheat{late: "rem"}},
	{"late shifted remainder", remCheat{degree: 1, late: "hi"}},
	{"late mask", remCheat{late: "mask"}},
	{"late mask sum", remCheat{late: "masksum"}},
	{"mask sum bound before the quotients", remCheat{late: "masksum first"}},
	{"mask sum bound after the quotients", remCheat{late: "masksum last"}},
}

func drawRemCheat(g *vh.RNG) (string, remCheat) {
	x := remCheats[g.N(len(remCheats))]
	return x.name, x.rc
}

// pinned returns a spec whose single witness values are forced by public inputs.
func pinned(w, pw int) []term {
	return []term{{c: big.NewInt(1), pw: -1, w: []int{w}}, {c: big.NewInt(-1), pw: pw}}
}

func attackLinear[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{2, 4, 8, 16, 64}[c.Int(0, 4, "rank")]
	n := c.Int(1, 3, "constraints")
	g := newGen[E](c, f, N, 2, 2+n)
	g.sp.sh = shape{small: true, pl: 2, wl: 2 + n}
	g = fixed(g)
	r := g.r
	// w0 is pinned by p0, w[i] = M_i w0, w[i] pinned for the first
	for i := 0; i < n; i++ {
		m := drawMap[E](c, r, N, f.P)
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kLin, m: m, out: 1 + i, w: 0, closeW: -1, closePW: -1})
	}
	g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(0, 0), closeW: -1, closePW: -1})
	for i := range g.a.w[0] {
		g.a.w[0][i].Set(r.Interesting(f.P))
		g.a.pw[0][i].Set(g.a.w[0][i])
	}
	for i := 0; i < n; i++ {
		g.a.w[1+i] = g.sp.cons[i].m.apply(g.a.w[0])
	}
	last := g.sp.cons[n-1]
	if c.Bool("pin output") {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(last.out, 1), closeW: -1, closePW: -1})
		g.a.pw[1] = cloneBig(g.a.w[last.out])
	}
	runAttacks(g, func(a *assign) {
		bumpAt(r, f.P, a.w[last.out], a.pw[1])
	}, func(name string, rc remCheat) *cheat[E] { return &cheat[E]{lin: rc} })
}

// bumpAt adds the same nonzero value at one index of the vectors.
func bumpAt(r *vh.RNG, p *big.Int, vs ...[]*big.Int) {
	i := r.N(len(vs[0]))
	d := r.Interesting(p)
	if d.Sign() == 0 {
		d.SetUint64(1)
	}
	for _, v := range vs {
		v[i] = new(big.Int).Add(v[i], d)
		v[i].Mod(v[i], p)
	}
}

// fixed resets the slots after the shape was replaced.
func fixed[E bignum.Uint[E]](g *gen[E]) *gen[E] {
	g.a = &assign{}
	for i := 0; i < g.sp.sh.npw(); i++ {
		g.a.pw = append(g.a.pw, g.zeros())
	}
	for i := 0; i < g.sp.sh.nw(); i++ {
		g.a.w = append(g.a.w, g.zeros())
	}
	g.pwU, g.wU, g.pwD, g.wD = nil, nil, nil, nil
	return g
}

// runAttacks tries cheating provers on an assignment broken by spoil.
func runAttacks[E bignum.Uint[E]](g *gen[E], spoil func(*assign), mk func(string, remCheat) *cheat[E]) {
	c := g.c
	if bad := g.sp.failing(g.a); len(bad) > 0 {
		c.Fatalf("VERIF-INTERNAL: generated assignment fails %v of %v", bad, g.sp)
	}
	pr := compile(c, g.sp, "Buckler!")
	m := newMirror(pr)
	m.live(c, g.a)
	for t := 0; t < 4; t++ {
		a := g.a.clone()
		spoil(a)
		if len(g.sp.failing(a)) == 0 {
			continue
		}
		name, rc := drawRemCheat(g.r)
		m.attack(c, name, a, mk(name, rc))
		c.NonTrivial()
	}
}

func TestC22_Adversary(t *testing.T) {
	vh.Check(t, 12, 400, func(c *vh.Ctx) {
		pick(c, attackLinear[e110], attackLinear[e220], attackLinear[e440], attackLinear[e880], attackLinear[ebfv], attackLinear[emult])
	})
}

func attackSum[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{1, 2, 4, 8, 16, 64}[c.Int(0, 5, "rank")]
	n := c.Int(1, 3, "constraints")
	g := newGen[E](c, f, N, 2, 4)
	g.sp.sh = shape{small: true, pl: 1, wl: 0} // w0, w1 are pinned by p0, p1
	g = fixed(g)
	r, p := g.r, f.P
	for s := 0; s < 2; s++ {
		for i := 0; i < N; i++ {
			g.a.w[s][i].Set(r.Interesting(p))
			g.a.pw[s][i].Set(g.a.w[s][i])
		}
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(s, s), closeW: -1, closePW: -1})
	}
	var ks []*con[E]
	for i := 0; i < n; i++ {
		k := &con[E]{kind: kSum, closeW: -1, closePW: -1}
		for t := r.N(3); t >= 0; t-- {
			x := term{c: r.Interesting(p), pw: r.N(3) - 1}
			for d := r.N(3); d >= 0; d-- {
				x.w = append(x.w, r.N(2))
			}
			k.terms = append(k.terms, x)
		}
		s := new(big.Int)
		for j := 0; j < N; j++ {
			s.Add(s, g.sp.evalTerms(k.terms, g.a, j))
		}
		k.sum = s.Mod(s, p)
		ks = append(ks, k)
		g.sp.cons = append(g.sp.cons, k)
	}
	last := ks[n-1]
	// the declared sums are wrong: one, or two that cancel
	d := g.residual()
	last.sum = new(big.Int).Add(last.sum, d)
	flat := n > 1 && c.Bool("cancel")
	if flat {
		ks[0].sum = new(big.Int).Sub(ks[0].sum, d)
	}
	pr := compile(c, g.sp, "Buckler!")
	m := newMirror(pr)
	for t := 0; t < 4; t++ {
		name, rc := drawRemCheat(r)
		if t == 3 {
			// a mask sum that makes up for the last sum unless a challenge separates them
			name = "early mask sum"
			e := new(big.Int).ModInverse(big.NewInt(int64(N)), p)
			e.Mul(e, d)
			rc = remCheat{unscaled: true, earlySum: e.Neg(e)}
		} else if flat && t == 2 {
			name, rc = "equal weights", remCheat{flat: true}
		}
		m.attack(c, name, g.a, &cheat[E]{sum: rc})
	}
	c.NonTrivial()
}

func TestC27_Adversary(t *testing.T) {
	vh.Check(t, 12, 400, func(c *vh.Ctx) {
		pick(c, attackSum[e110], attackSum[e220], attackSum[e440], attackSum[e880], attackSum[ebfv], attackSum[emult])
	})
}

func attackArith[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{1, 2, 4, 8, 16, 64}[c.Int(0, 5, "rank")]
	g := newGen[E](c, f, N, 2, 4)
	g.sp.sh = shape{small: true, pl: 1, wl: 0}
	g = fixed(g)
	r, p := g.r, f.P
	which := r.N(4) // the witness both equations are about
	for s := 0; s < 2; s++ {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(which, s), closeW: -1, closePW: -1})
		for i := 0; i < N; i++ {
			if s == 0 {
				g.a.w[which][i].Set(r.Interesting(p))
			}
			g.a.pw[s][i].Set(g.a.w[which][i])
		}
	}
	if c.Bool("degree") { // make room in the quotient
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, closeW: -1, closePW: -1, terms: []term{
			{c: big.NewInt(1), pw: -1, w: []int{(which + 1) % 4, (which + 1) % 4}},
			{c: big.NewInt(-1), pw: -1, w: []int{(which + 1) % 4}}}})
	}
	pr := compile(c, g.sp, "Buckler!")
	m := newMirror(pr)
	m.live(c, g.a)
	a := g.a.clone()
	bumpAt(r, p, a.pw[r.N(2)])
	m.attack(c, "late quotient", a, &cheat[E]{arithLate: true})
	m.attack(c, "late witness", a, &cheat[E]{lateW: which + 1})
	m.attack(c, "honest messages", a, &cheat[E]{})
	// equal weights: the two residuals cancel
	b := g.a.clone()
	d := g.residual()
	i := r.N(N)
	b.pw[0][i].Mod(new(big.Int).Add(b.pw[0][i], d), p)
	b.pw[1][i].Mod(new(big.Int).Sub(b.pw[1][i], d), p)
	m.attack(c, "equal weights", b, &cheat[E]{arithFlat: true})
	c.NonTrivial()
}

func TestC21_Adversary(t *testing.T) {
	vh.Check(t, 12, 400, func(c *vh.Ctx) {
		pick(c, attackArith[e110], attackArith[e220], attackArith[e440], attackArith[e880], attackArith[ebfv], attackArith[emult])
	})
}

// attackNorm lets the prover choose the decomposition of a witness that a public input pins
// outside of the bound.
func attackNorm[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, kind int) {
	N := []int{8, 16, 64}[c.Int(0, 2, "rank")]
	g := newGen[E](c, f, N, 1, 4)
	g.sp.sh = shape{small: true, pl: 0, wl: 0}
	g = fixed(g)
	r, p := g.r, f.P
	var bound *big.Int
	if kind == kInf {
		bound = vh.U(r.U64() % (1 << uint(1+r.N(10))))
	} else {
		bound = r.Big(new(big.Int).Lsh(big.NewInt(1), uint(1+r.N(min(N, f.P.BitLen())-1))))
	}
	k := &con[E]{kind: kind, w: 0, bound: bound, closeW: -1, closePW: -1}
	pin := &con[E]{kind: kArith, terms: pinned(0, 0), closeW: -1, closePW: -1}
	g.sp.cons = []*con[E]{k, pin}
	n := c.Int(0, 2, "others")
	if c.Int(0, 3, "many") == 0 {
		n = c.Int(4, 12, "many others")
	}
	for i := 0; i < n; i++ {
		o := &con[E]{kind: []int{kInf, kTwo}[r.N(2)], w: 1 + r.N(3), bound: vh.U(r.U64() % 100), closeW: -1, closePW: -1}
		g.sp.cons = append(g.sp.cons, o)
	}
	for i := len(g.sp.cons) - 1; i > 0; i-- {
		j := r.N(i + 1)
		g.sp.cons[i], g.sp.cons[j] = g.sp.cons[j], g.sp.cons[i]
	}
	if r.N(3) == 0 { // the attacked one last
		for i := range g.sp.cons {
			if g.sp.cons[i] == k {
				g.sp.cons[i], g.sp.cons[len(g.sp.cons)-1] = g.sp.cons[len(g.sp.cons)-1], k
				break
			}
		}
	}
	ki := 0
	for i := range g.sp.cons {
		if g.sp.cons[i] == k {
			ki = i
		}
	}
	pr := compile(c, g.sp, "Buckler!")
	newMirror(pr).live(c, g.a)
	nd := len(digitBase(bound))
	for t := 0; t < 8; t++ {
		a := g.a.clone()
		at := r.N(N)
		excess := []*big.Int{big.NewInt(1), big.NewInt(2), new(big.Int).Add(bound, big.NewInt(1)), r.Big(p)}[r.N(4)]
		x := new(big.Int).Add(bound, excess)
		if kind == kTwo {
			x.Sqrt(bound)
			x.Add(x, excess)
		} else if r.N(2) == 0 {
			x.Neg(x)
		}
		a.w[0][at].Mod(x, p)
		// which digit carries the excess, and which protocol it is played in
		j := 0
		if nd > 0 {
			j = []int{0, nd - 1, r.N(nd)}[r.N(3)]
		}
		name := "excess in one digit"
		va := variant{}
		switch how := r.N(6); {
		case how == 0:
		case kind == kInf:
			name = "excess in one unconstrained digit"
			va.freeDigit = func(i, n int) bool {
				switch {
				case how == 1:
					return true
				case how < 4 && j == nd-1:
					return i == n-1
				case how < 4 && j == 0:
					return i == 0
				}
				return i == j && n == nd
			}
		case how == 1:
			name = "excess behind the digits"
		case how == 2:
			name = "excess in one unconstrained digit"
			va.twoDigits = 3
		default: // a norm that is a small negative number
			s := r.Big(new(big.Int).Add(bound, big.NewInt(1)))
			if q := new(big.Int).ModSqrt(s.Sub(p, s), p); q != nil {
				a.w[0][at].Set(q)
				name = "negative digits"
				va.twoDigits = r.N(3)
			}
		}
		switch r.N(4) {
		case 0, 1:
			va.from = 1 + ki
		case 2:
			va.from = 1 + r.N(ki+1)
		}
		a.pw[0] = cloneBig(a.w[0])
		if g.sp.holds(k, a) || nd == 0 || kind == kInf && nd == 1 {
			continue
		}
		m := newMirror(pr, va)
		m.attack(c, name, a, &cheat[E]{first: func(pw, w [][]E) {
			if kind == kInf {
				for _, d := range m.infs {
					if d.con != ki {
						continue
					}
					dg, rest := digits(signed(a.w[0][at], p), d.base)
					// value = sum base*digit: digit j takes the rest
					y := new(big.Int).ModInverse(d.base[j], p)
					y.Mul(y, rest)
					y.Add(y, big.NewInt(dg[j]))
					w[d.d[j]][at] = vh.FromBig[E](y.Mod(y, p))
				}
				return
			}
			for _, d := range m.twos {
				if d.con != ki {
					continue
				}
				dg, rest := digits(sqNorm(a.w[0], p), d.base)
				switch name {
				case "negative digits":
					dg, _ = digits(signed(sqNorm(a.w[0], p), p), d.base)
					for i := range dg {
						w[d.d[0]][i] = vh.FromBig[E](new(big.Int).Mod(big.NewInt(dg[i]), p))
					}
				case "excess behind the digits": // through an altered base and mask
					w[d.d[0]][N-1].SetUint64(1)
					pw[d.pwBase][N-1] = vh.FromBig[E](rest.Mod(rest, p))
					pw[d.mask][N-1].SetUint64(1)
				default:
					y := new(big.Int).ModInverse(d.base[j], p)
					y.Mul(y, rest)
					y.Add(y, big.NewInt(dg[j]))
					w[d.d[0]][j] = vh.FromBig[E](y.Mod(y, p))
				}
			}
		}})
		c.Label("excess: %d bits", min(excess.BitLen(), 20))
		c.NonTrivial()
	}
}

func attackInf[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { attackNorm[E](c, f, kInf) }
func attackTwo[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) { attackNorm[E](c, f, kTwo) }

func TestC24_Adversary(t *testing.T) {
	vh.Check(t, 14, 300, func(c *vh.Ctx) {
		pick(c, attackInf[e110], attackInf[e220], attackInf[e440], attackInf[e880], attackInf[ebfv], attackInf[emult])
	})
}

func TestC25_Adversary(t *testing.T) {
	vh.Check(t, 10, 300, func(c *vh.Ctx) {
		pick(c, attackTwo[e110], attackTwo[e220], attackTwo[e440], attackTwo[e880], attackTwo[ebfv], attackTwo[emult])
	})
}
