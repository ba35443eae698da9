package zvbuckler

import (
	"math/big"
	"strings"
	"testing"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// another is another satisfying assignment, if one is found.
func (g *gen[E]) another() *assign {
	old := g.a
	defer func() { g.a = old }()
	p := g.sp.f.P
	for t := 0; t < 4; t++ {
		g.a = old.clone()
		for w := range g.a.w {
			if !g.fre[w] {
				continue
			}
			for i := range g.a.w[w] { // norms stay
				j := g.r.N(i + 1)
				g.a.w[w][i], g.a.w[w][j] = g.a.w[w][j], g.a.w[w][i]
				if g.r.N(2) == 0 {
					g.a.w[w][i].Mod(g.a.w[w][i].Neg(g.a.w[w][i]), p)
				}
			}
		}
		for v := range g.a.pw {
			if g.r.N(2) == 0 {
				for i := range g.a.pw[v] {
					g.a.pw[v][i].Set(g.r.Interesting(p))
				}
			}
		}
		g.sp.solve(g.a, nil)
		if len(g.sp.failing(g.a)) == 0 {
			return g.a
		}
	}
	return old
}

// circBytes writes out everything in a circuit.
func circBytes[E bignum.Uint[E]](c *circ[E]) string {
	var sb strings.Builder
	sl := inputs(c)
	for _, v := range sl.pw {
		for _, x := range *v {
			sb.Write(x.Marshal())
		}
		sb.WriteByte('|')
	}
	sb.WriteByte('#')
	for _, v := range sl.w {
		if *v == nil {
			sb.WriteByte('-')
		}
		for _, x := range *v {
			sb.Write(x.Marshal())
		}
		sb.WriteByte('|')
	}
	return sb.String()
}

// refill gives a vector new values, in place or by a new vector.
func refill[E bignum.Uint[E], V ~[]E](v *V, x []*big.Int, inPlace bool) {
	if *v == nil || !inPlace {
		*v = vh.Vec[E](x)
		return
	}
	for j := range x {
		(*v)[j].SetBigInt(x[j])
	}
}

type shown[E bignum.Uint[E]] struct {
	a     *assign
	pf    *buckler.Proof[E]
	bytes string
	good  bool
}

func histories[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	var g *gen[E]
	steps := 14
	approx := c.Int(0, 9, "approx") == 0
	if approx {
		g = approxSpec[E](c, f, true)
		steps = 6
	} else {
		g = everything[E](c, f, []int{kArith, kLin, kSum, kTwo, kInf}[c.Int(0, 4, "must")], []int{kLin, kSum, kTwo, kArith}[c.Int(0, 3, "must2")])
	}
	if g.sp.N <= 64 && len(g.sp.cons) < 10 && c.Int(0, 2, "long life") == 0 {
		steps = 80
		c.Label("long life")
	}
	prs := []*pair[E]{compile(c, g.sp, "Buckler!"), compile(c, g.sp, "Buckler!")}
	bs := bounds(g.sp)
	var past []shown[E]
	// one public and one full assignment object that the caller keeps and fills anew
	kept, keptSl := newCirc[E](g.sp.sh)
	keptFull, keptFullSl := newCirc[E](g.sp.sh)
	var story []string
	say := func(s string) { story = append(story, s) }
	die := func(format string, args ...any) {
		c.Fatalf(format+" after %v: %v", append(args, story, g.sp)...)
	}
	verify := func(pr *pair[E], s shown[E], a *assign, want bool, what string) {
		say(what)
		pub := g.sp.fill(a, true)
		if g.r.N(4) == 0 {
			pub = g.sp.fill(a, false)
		}
		switch g.r.N(4) {
		case 0: // the caller's object again, with new vectors
			for i := range keptSl.pw {
				refill(keptSl.pw[i], a.pw[i], false)
			}
			pub = kept
		case 1: // the caller's object again, with new values in the same vectors
			for i := range keptSl.pw {
				refill(keptSl.pw[i], a.pw[i], true)
			}
			pub = kept
		}
		before := circBytes(pub)
		got := pr.vrf.Verify(pub, s.pf)
		if got != want {
			die("verdict %v instead of %v", got, want)
		}
		if circBytes(pub) != before {
			die("verification changed its inputs")
		}
		if s.bytes != "" && proofBytes(s.pf) != s.bytes {
			die("verification changed the proof")
		}
	}
	good, bad := 0, 0
	for t := 0; t < steps; t++ {
		pr, pv := prs[g.r.N(len(prs))], prs[g.r.N(len(prs))]
		op := g.r.N(10)
		if len(past) == 0 {
			op = g.r.N(5)
		}
		switch op {
		case 0, 1, 2, 3: // prove something
			a := g.another()
			what := "honest proof"
			switch {
			case op < 2 && approx:
				if w := g.r.N(2); bs[w] != nil && g.r.N(2) == 0 {
					g.within(w, bs[w])
					a = g.a
				}
			case op == 3 && approx:
				a = g.a.clone()
				w := g.r.N(2)
				if bs[w] == nil {
					w = 0
				}
				what = "proof of " + farOut(g.r, a, w, g.sp.N, bs[w], f.P)
			case op >= 2 && !approx:
				old := g.a
				g.a = a
				a, what = g.violate()
				g.a = old
			}
			want := len(g.sp.failing(a)) == 0
			say("prove: " + what)
			in := g.sp.fill(a, false)
			if g.r.N(2) == 0 {
				again := g.r.N(2) == 0
				for i := range keptFullSl.pw {
					refill(keptFullSl.pw[i], a.pw[i], again)
				}
				for i := range keptFullSl.w {
					refill(keptFullSl.w[i], a.w[i], again)
				}
				in = keptFull
			}
			before := circBytes(in)
			pf, err := pr.prv.Prove(in)
			if circBytes(in) != before {
				die("proving changed its inputs")
			}
			if err != nil {
				if want {
					die("an honest assignment is not proved (%v)", err)
				}
				bad++
				continue
			}
			s := shown[E]{a.clone(), pf, proofBytes(pf), want}
			past = append(past, s)
			verify(pv, s, a, want, "verify it")
			if want {
				good++
			} else {
				bad++
			}
		case 4: // a malformed assignment
			cc, sl := newCirc[E](g.sp.sh)
			for i := range sl.pw {
				*sl.pw[i] = vh.Vec[E](g.a.pw[i])
			}
			for i := range sl.w {
				*sl.w[i] = vh.Vec[E](g.a.w[i])
			}
			q, what := malform(g.r, g.sp.sh, cc, sl, false)
			say("prove: " + what)
			if _, err := pr.prv.Prove(q); err == nil {
				die("a malformed assignment is proved")
			}
			bad++
		case 5, 6: // an old proof again
			s := past[g.r.N(len(past))]
			verify(pv, s, s.a, s.good, "verify an old proof")
		case 7: // for other public inputs
			s := past[g.r.N(len(past))]
			b := s.a.clone()
			v := b.pw[g.r.N(len(b.pw))]
			i := g.r.N(len(v))
			v[i].Mod(v[i].Add(v[i], g.residual()), f.P)
			verify(pv, s, b, false, "verify an old proof for other public inputs")
			bad++
		case 8: // altered or spliced
			s := past[g.r.N(len(past))]
			o := past[g.r.N(len(past))]
			q, what := alter(g.r, pr.prv.JindoParams, f.P, s.pf, o.pf)
			qs := proofBytes(q)
			if qs == s.bytes || qs == o.bytes {
				continue
			}
			verify(pv, shown[E]{s.a, q, qs, false}, s.a, false, "verify an altered proof: "+what)
			bad++
		case 9: // of the wrong structure
			s := past[g.r.N(len(past))]
			q, what := broken(g.r, deepProof(s.pf), g.r.N(18))
			verify(pv, shown[E]{s.a, q, "", false}, s.a, false, "verify a malformed proof: "+what)
			bad++
		}
	}
	fresh := compile(c, g.sp, "Buckler!")
	for i, s := range past {
		verify(prs[i%2], s, s.a, s.good, "verify every proof at the end")
		if i%3 == 0 {
			verify(fresh, s, s.a, s.good, "verify every proof at the end by a fresh verifier")
		}
		if proofBytes(s.pf) != s.bytes {
			die("a proof has changed")
		}
	}
	for _, x := range []struct{ p, v *pair[E] }{{prs[0], fresh}, {fresh, prs[1]}, {prs[1], prs[0]}} {
		pf, err := x.p.prv.Prove(g.sp.fill(g.a, false))
		if err != nil {
			die("an honest assignment is not proved in the end (%v)", err)
		}
		verify(x.v, shown[E]{g.a, pf, proofBytes(pf), true}, g.a, true, "prove and verify in the end")
	}
	c.Label("good steps:%d", min(good, 5))
	if bad > 1 {
		c.NonTrivial()
	}
}

func TestC33_Histories(t *testing.T) {
	vh.Check(t, 24, 1000, func(c *vh.Ctx) {
		pick(c, histories[e110], histories[e220], histories[e440], histories[e880], histories[ebfv], histories[emult])
	})
}

// sharedCircuit: circuits of one type, compiled for different constraints and ranks, do not
// influence each other, and the circuit given to Compile may be compiled again.
func sharedCircuit[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	type one struct {
		g  *gen[E]
		pr *pair[E]
	}
	var all []one
	for i := 0; i < 3; i++ {
		g := everything[E](c, f, []int{kArith, kLin, kSum, kTwo, kInf}[c.Int(0, 4, "must")])
		cc, sl := newCirc[E](g.sp.sh)
		cc.fn = g.sp.define(sl)
		var prv *buckler.Prover[E]
		var vrf *buckler.Verifier[E]
		var err error
		for k := c.Int(1, 3, "times"); k > 0; k-- { // the same circuit value
			p, v, e := buckler.Compile(g.sp.N, cc, []byte("Buckler!"))
			if prv == nil || c.Bool("keep the last") {
				prv, err = p, e
			}
			vrf = v
		}
		if err != nil {
			c.Fatalf("%v", err)
		}
		all = append(all, one{g, &pair[E]{g.sp, []byte("Buckler!"), prv, vrf}})
	}
	r := c.NewRNG("order")
	for t := 0; t < 6; t++ {
		x := all[r.N(len(all))]
		a := x.g.a
		what := "honest"
		if r.N(2) == 0 {
			a, what = x.g.violate()
		}
		want := len(x.g.sp.failing(a)) == 0
		if _, ok := x.pr.run(a); ok != want {
			c.Fatalf("verdict %v instead of %v (%s) beside other circuits: %v", ok, want, what, x.g.sp)
		}
	}
	c.NonTrivial()
}

func TestC33_Shared(t *testing.T) {
	vh.Check(t, 16, 600, func(c *vh.Ctx) {
		pick(c, sharedCircuit[e110], sharedCircuit[e220], sharedCircuit[e440], sharedCircuit[e880], sharedCircuit[ebfv], sharedCircuit[emult])
	})
}
