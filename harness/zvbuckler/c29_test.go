package zvbuckler

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// changePW changes public inputs and says how.
func (g *gen[E]) changePW() (*assign, string) {
	a := g.a.clone()
	p := g.sp.f.P
	v := a.pw[g.r.N(len(a.pw))]
	i := g.r.N(g.sp.N)
	switch g.r.N(5) {
	case 0: // swap two entries or inputs
		u := a.pw[g.r.N(len(a.pw))]
		j := g.r.N(g.sp.N)
		if v[i].Cmp(u[j]) != 0 {
			v[i], u[j] = u[j], v[i]
			return a, "entries swapped"
		}
	case 1: // entries that cancel in sums
		if g.sp.N > 1 {
			d := g.residual()
			v[i].Mod(new(big.Int).Add(v[i], d), p)
			j := (i + 1 + g.r.N(g.sp.N-1)) % g.sp.N
			v[j].Mod(new(big.Int).Sub(v[j], d), p)
			return a, "entries changed by opposite amounts"
		}
	case 2:
		for j := range v {
			v[j].Mod(new(big.Int).Add(v[j], big.NewInt(1)), p)
		}
		return a, "an input shifted"
	case 3:
		v[i].Mod(new(big.Int).Neg(v[i]), p)
		if v[i].Cmp(g.a.pw[0][0]) != 0 && v[i].Sign() != 0 {
			return a, "an entry negated"
		}
	}
	v[i].Mod(new(big.Int).Add(v[i], g.residual()), p)
	return a, "one entry changed"
}

func samePW(a, b *assign) bool {
	for i := range a.pw {
		if !vh.EqBigs(a.pw[i], b.pw[i]) {
			return false
		}
	}
	return true
}

// solid tells that a constraint does not vanish identically in the witnesses for the public
// inputs at hand: such a constraint says nothing about the witnesses.
func (g *gen[E]) solid(k *con[E]) bool {
	if k.kind != kArith && k.kind != kSum {
		return true
	}
	groups := map[string][]*big.Int{}
	for _, t := range k.terms {
		if len(t.w) == 0 {
			continue
		}
		w := append([]int(nil), t.w...)
		sort.Ints(w)
		key := fmt.Sprint(w)
		if groups[key] == nil {
			groups[key] = g.zeros()
		}
		for i, x := range groups[key] {
			y := new(big.Int).Set(t.c)
			if t.pw >= 0 {
				y.Mul(y, g.a.pw[t.pw][i])
			}
			x.Mod(x.Add(x, y), g.sp.f.P)
		}
	}
	for _, v := range groups {
		if infNorm(v, g.sp.f.P).Sign() != 0 {
			return true
		}
	}
	return false
}

// changeCircuit returns a different circuit of the same inputs that the assignment satisfies
// too, whenever the change allows it.
func (g *gen[E]) changeCircuit() (*spec[E], string) {
	sp := *g.sp
	sp.cons = append([]*con[E](nil), g.sp.cons...)
	p := sp.f.P
	i := g.r.N(len(sp.cons))
	k := *sp.cons[i]
	sp.cons[i] = &k
	switch op := g.r.N(6); {
	case op == 0: // a constraint more: true, but not proved
		w := g.r.N(len(g.a.w))
		sp.cons = append(sp.cons, &con[E]{kind: kArith, closeW: -1, closePW: -1, terms: []term{
			{c: big.NewInt(1), pw: -1, w: []int{w}}, {c: big.NewInt(-1), pw: -1, w: []int{w}}, {c: big.NewInt(1), pw: -1, w: []int{w, w}}}})
		return &sp, "a constraint more"
	case op == 1 && len(sp.cons) > 1 && g.solid(&k):
		sp.cons = append(sp.cons[:i:i], sp.cons[i+1:]...)
		return &sp, "a constraint less"
	}
	switch k.kind {
	case kSum:
		if g.r.N(2) == 0 {
			k.sum = new(big.Int).Add(k.sum, g.residual())
			return &sp, "another declared sum"
		}
		fallthrough
	case kArith:
		// another coefficient of a term that depends on a witness
		k.terms = append([]term(nil), k.terms...)
		for _, j := range []int{g.r.N(len(k.terms)), 0} {
			if t := &k.terms[j]; len(t.w) > 0 && (t.pw < 0 || infNorm(g.a.pw[t.pw], p).Sign() != 0) {
				t.c = new(big.Int).Add(t.c, g.residual())
				return &sp, "another coefficient"
			}
		}
		// another witness in a new term
		w := g.r.N(len(g.a.w))
		k.terms = append(k.terms, term{c: big.NewInt(1), pw: -1, w: []int{w}})
		return &sp, "another term"
	case kLin:
		m := *k.m
		m.name, m.chk = "another", &matMap[E]{[]entry[E]{{0, 0, vh.FromBig[E](big.NewInt(7))}, {sp.N - 1, 0, vh.FromBig[E](big.NewInt(3))}}}
		k.m = &m
		return &sp, "another map"
	case kInf, kTwo:
		k.bound = new(big.Int).Add(k.bound, big.NewInt(1+int64(g.r.N(3))))
		if k.kind == kTwo && k.bound.BitLen() > sp.N {
			k.bound = new(big.Int).Sub(k.bound, big.NewInt(1+int64(g.r.N(3))))
			if k.bound.Sign() < 0 || k.bound.Cmp(g.sp.cons[i].bound) == 0 {
				return nil, ""
			}
			if k.bound.BitLen() > sp.N {
				return nil, ""
			}
		}
		return &sp, "another bound"
	}
	return nil, ""
}

func bound[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := everything[E](c, f)
	pr := compile(c, g.sp, "Buckler!")
	pf, ok := pr.run(g.a)
	if !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	for t := 0; t < 6; t++ {
		a, what := g.changePW()
		if samePW(a, g.a) {
			continue
		}
		if pr.vrf.Verify(g.sp.fill(a, true), pf) {
			c.Fatalf("a proof verifies for other public inputs (%s): %v", what, g.sp)
		}
		c.Label("%s", what)
		c.NonTrivial()
	}
	for t := 0; t < 3; t++ {
		sp, what := g.changeCircuit()
		if sp == nil {
			continue
		}
		other := compile(c, sp, "Buckler!")
		if other.vrf.Verify(sp.fill(g.a, true), pf) {
			c.Fatalf("a proof of %v verifies for %v (%s)", g.sp, sp, what)
		}
		c.Label("%s", what)
	}
	crs := []string{"Buckler?", "", "Buckler!\x00", "buckler!", "Buckler"}[g.r.N(5)]
	if compile(c, g.sp, crs).vrf.Verify(g.sp.fill(g.a, true), pf) {
		c.Fatalf("a proof for the reference string %q verifies for %q: %v", "Buckler!", crs, g.sp)
	}
	if !compile(c, g.sp, "Buckler!").vrf.Verify(g.sp.fill(g.a, true), pf) {
		c.Fatalf("a proof is rejected by another verifier of the same circuit: %v", g.sp)
	}
}

func TestC29_Statement(t *testing.T) {
	vh.Check(t, 20, 600, func(c *vh.Ctx) {
		pick(c, bound[e110], bound[e220], bound[e440], bound[e880], bound[ebfv], bound[emult])
	})
}

// publicChallenges: every challenge depends on every entry of every public input.
func publicChallenges[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := everything[E](c, f)
	pr := compile(c, g.sp, "Buckler!")
	pf, err := pr.prv.Prove(g.sp.fill(g.a, false))
	if err != nil {
		c.Fatalf("%v", err)
	}
	base := watch(func() {
		if !pr.vrf.Verify(g.sp.fill(g.a, true), pf) {
			c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
		}
	})
	if len(base) == 0 {
		c.Label("no challenge seen")
		return
	}
	for i := range g.a.pw {
		for t := 0; t < 4; t++ {
			j := []int{0, g.sp.N - 1, g.r.N(g.sp.N), g.r.N(g.sp.N)}[t]
			a := g.a.clone()
			a.pw[i][j].Mod(new(big.Int).Add(a.pw[i][j], g.residual()), f.P)
			ok := false
			seen := watch(func() { ok = pr.vrf.Verify(g.sp.fill(a, true), pf) })
			if ok {
				c.Fatalf("a proof verifies for another entry %d of public input %d: %v", j, i, g.sp)
			}
			if some, _ := shares(seen, base); some {
				c.Fatalf("a challenge does not depend on entry %d of public input %d: %v", j, i, g.sp)
			}
			c.NonTrivial()
		}
	}
}

func TestC29_PublicChallenges(t *testing.T) {
	vh.Check(t, 10, 300, func(c *vh.Ctx) {
		pick(c, publicChallenges[s110], publicChallenges[s220], publicChallenges[s440], publicChallenges[s880], publicChallenges[sbfv], publicChallenges[smul])
	})
}

// adaptivePW chooses the public inputs after the proof: along a direction that vanishes at
// the evaluation point.
func adaptivePW[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{2, 4, 8, 16, 64}[c.Int(0, 4, "rank")]
	g := newGen[E](c, f, N, 2, 4)
	g.sp.sh = shape{small: true, pl: 1, wl: 0}
	g = fixed(g)
	r, p := g.r, f.P
	for s := 0; s < 2; s++ {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, terms: pinned(s, s), closeW: -1, closePW: -1})
		for i := 0; i < N; i++ {
			g.a.w[s][i].Set(r.Interesting(p))
			g.a.pw[s][i].Set(g.a.w[s][i])
		}
	}
	pr := compile(c, g.sp, "Buckler!")
	m := newMirror(pr)
	m.live(c, g.a)
	tr := bigpoly.NewCyclicTransformer[E](N)
	lag := func(i int, x E) *big.Int { // the basis polynomial of index i at x
		e := make([]E, N)
		for j := range e {
			e[j] = x.New()
		}
		e[i].SetUint64(1)
		tr.InvNTTTo(e, e)
		return vh.Big(evalPoly(e, x))
	}
	for t := 0; t < 4; t++ {
		var pf *buckler.Proof[E]
		var x E
		if t < 2 { // made without looking at the public inputs
			pf, x = m.prove(g.a, &cheat[E]{noPW: true})
		} else {
			pf, x = m.prove(g.a, &cheat[E]{})
		}
		i := r.N(N)
		j := (i + 1 + r.N(N-1)) % N
		a := g.a.clone()
		v := a.pw[t%2]
		v[i].Mod(new(big.Int).Add(v[i], lag(j, x)), p)
		v[j].Mod(new(big.Int).Sub(v[j], lag(i, x)), p)
		if pr.vrf.Verify(g.sp.fill(a, true), pf) {
			c.Fatalf("a proof verifies for public inputs chosen after it: %v", g.sp)
		}
		c.NonTrivial()
	}
}

func TestC29_Adaptive(t *testing.T) {
	vh.Check(t, 8, 300, func(c *vh.Ctx) {
		pick(c, adaptivePW[e110], adaptivePW[e220], adaptivePW[e440], adaptivePW[e880], adaptivePW[ebfv], adaptivePW[emult])
	})
}
