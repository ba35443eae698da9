package zvjindo

import (
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// snapshot is everything a call must leave alone.
func (s *statement[E]) snapshot() string {
	out := fmt.Sprint(vh.Big(s.x))
	for i := range s.v {
		out += fmt.Sprint(vh.Bigs(s.v[i]))
	}
	for i := range s.com {
		out += comBytes(s.com[i]) + openBytes(s.open[i])
	}
	if s.pf != nil {
		out += proofBytes(s.pf) + fmt.Sprint(vh.Bigs(s.y))
	}
	return out
}

// C20 rule: the history has an accepted and a rejected verification and an evaluation after one.
func histories[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{5, 64, 300}[c.Int(0, 2, "N")]
	batch := c.Int(1, 2, "batch")
	N, batch = scaled(c, N, batch)
	in := newInst[E](f, N, batch, []byte("Jindo!")) // the pair under test
	c.Note("N=%d batch=%d", N, batch)
	r := c.NewRNG("ops")
	prvs := []*jindo.Prover[E]{in.prv}
	var pool []*statement[E]
	var ops []string
	acc, rej := 0, 0
	lateEval := false
	steps := 4 + r.N(10)
	if N < 1000 && batch < 3 && r.N(6) == 0 { // a long life
		steps = 100
		c.Label("long life")
	}
	for k := 0; k < steps; k++ {
		op := r.N(7)
		if len(pool) == 0 {
			op = 0
		}
		prv := prvs[r.N(len(prvs))]
		switch op {
		case 0: // commit
			s := &statement[E]{xBig: r.Big(f.P)}
			s.x = vh.FromBig[E](s.xBig)
			for i := 0; i < batch; i++ {
				n := r.N(in.params.Rank() + 1)
				b := make([]*big.Int, n)
				for j := range b {
					b[j] = r.Interesting(f.P)
				}
				s.vals = append(s.vals, b)
				s.v = append(s.v, vh.Vec[E](b))
			}
			before := s.snapshot()
			s.commit(prv)
			com, open := s.com, s.open
			s.com, s.open = nil, nil
			if s.snapshot() != before {
				c.Fatalf("commit modified its input (%v)", ops)
			}
			s.com, s.open = com, open
			pool = append(pool, s)
			ops = append(ops, "commit")
		case 1, 2: // evaluate, possibly again at another point
			s := pool[r.N(len(pool))]
			if r.N(2) == 0 {
				s.xBig = r.Big(f.P)
				s.x = vh.FromBig[E](s.xBig)
			}
			s.y, s.pf = nil, nil
			before := s.snapshot()
			y, pf := prv.Evaluate(s.x, s.v, s.com, s.open)
			if s.snapshot() != before {
				c.Fatalf("evaluate modified its input (%v)", ops)
			}
			fresh := jindo.NewProver[E](in.params, in.crs)
			y2, pf2 := fresh.Evaluate(s.x, s.v, s.com, s.open)
			if proofBytes(pf) != proofBytes(pf2) || !vh.EqVec(y, y2) {
				c.Fatalf("a used and a fresh prover evaluate differently (%v)", ops)
			}
			for i := range y {
				if vh.Big(y[i]).Cmp(vh.PolyEval(s.vals[i], s.xBig, f.P)) != 0 {
					c.Fatalf("wrong value after %v", ops)
				}
			}
			s.y, s.pf = y, pf
			lateEval = lateEval || acc+rej > 0
			ops = append(ops, "evaluate")
		case 3, 4: // verify, possibly something wrong
			s := pool[r.N(len(pool))]
			if s.pf == nil {
				continue
			}
			t := *s
			what := "honest"
			switch r.N(4) {
			case 0:
				t.y = vh.Clone(s.y)
				i := r.N(batch)
				t.y[i] = other(r, f.P, t.y[i])
				what = "wrong value"
			case 1:
				t.pf = cloneProof(s.pf)
				es := elements(in.params, t.pf)
				e := es[r.N(len(es))]
				bumpResidue(r, e.ring, *e.poly)
				what = "altered proof"
			}
			before := t.snapshot()
			got := in.vrf.Verify(t.x, t.com, t.y, t.pf)
			if t.snapshot() != before {
				c.Fatalf("verify modified its input (%v)", ops)
			}
			want := jindo.NewVerifier[E](in.params, in.crs).Verify(t.x, t.com, t.y, t.pf)
			if got != want || got != (what == "honest") {
				c.Fatalf("verdict %v for %s, %v on a fresh verifier, after %v", got, what, want, ops)
			}
			if got {
				acc++
			} else {
				rej++
			}
			ops = append(ops, "verify "+what)
		case 6: // the caller overwrites a proof and the values it no longer needs
			s := pool[r.N(len(pool))]
			if s.pf == nil {
				continue
			}
			pf, y := s.pf, s.y
			s.pf, s.y = nil, nil
			all := func() (out string) {
				for _, t := range pool {
					out += t.snapshot()
				}
				return
			}
			before := all()
			for _, e := range elements(in.params, pf) {
				for l := range e.poly.Coeffs {
					for i := range e.poly.Coeffs[l] {
						e.poly.Coeffs[l][i] = r.U64() % e.ring.SubRings[l].Modulus
					}
				}
			}
			for i := range y {
				y[i].SetBigInt(r.Big(f.P))
			}
			if all() != before {
				c.Fatalf("overwriting a proof changed inputs or openings: they share memory (%v)", ops)
			}
			ops = append(ops, "overwrite")
		case 5:
			if len(prvs) < 4 {
				prvs = append(prvs, prv.SafeCopy())
				ops = append(ops, "copy")
			}
		}
	}
	for _, s := range pool {
		s.y, s.pf = in.prv.Evaluate(s.x, s.v, s.com, s.open)
		if !in.vrf.Verify(s.x, s.com, s.y, s.pf) {
			c.Fatalf("honest proof rejected after %v", ops)
		}
	}
	if acc > 0 && rej > 0 && lateEval {
		c.NonTrivial()
	}
}

func TestC20_Histories(t *testing.T) {
	vh.Check(t, 70, 2500, func(c *vh.Ctx) {
		pick(c, histories[e110], histories[e220], histories[e440], histories[e880], histories[ebfv], histories[emult], histories[ejin])
	})
}

// Safe copies at work at the same time (run with and without the race detector).
func concurrent[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{5, 64, 300}[c.Int(0, 2, "N")]
	batch := c.Int(1, 2, "batch")
	if raceOn && N > 64 {
		batch = 1
	}
	c.Note("N=%d batch=%d", N, batch)
	in := newInst[E](f, N, batch, []byte("Jindo!"))
	n := c.Int(2, 6, "goroutines")
	rounds := c.Int(1, 3, "rounds")
	if raceOn {
		n, rounds = c.Int(2, 3, "goroutines"), 1
	}
	prvs := []*jindo.Prover[E]{in.prv}
	for len(prvs) < n {
		prvs = append(prvs, prvs[c.Int(0, len(prvs)-1, "of")].SafeCopy())
	}
	// the copies also share a statement of their common origin
	shared := &statement[E]{xBig: big.NewInt(7)}
	r := c.NewRNG("vals")
	vec := func(r *vh.RNG) []*big.Int {
		b := make([]*big.Int, r.N(in.params.Rank()+1))
		for j := range b {
			b[j] = r.Big(f.P)
		}
		return b
	}
	shared.x = vh.FromBig[E](shared.xBig)
	for i := 0; i < batch; i++ {
		shared.vals = append(shared.vals, vec(r))
		shared.v = append(shared.v, vh.Vec[E](shared.vals[i]))
	}
	shared.commit(in.prv)
	before := shared.snapshot()
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = r.U64()
	}
	out := make([][]*statement[E], n)
	var wg sync.WaitGroup
	for g := range prvs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := vh.RNGFrom(seeds[g])
			for k := 0; k < rounds; k++ {
				s := &statement[E]{xBig: r.Big(f.P)}
				s.x = vh.FromBig[E](s.xBig)
				for i := 0; i < batch; i++ {
					s.vals = append(s.vals, vec(r))
					s.v = append(s.v, vh.Vec[E](s.vals[i]))
				}
				s.commit(prvs[g])
				s.y, s.pf = prvs[g].Evaluate(s.x, s.v, s.com, s.open)
				out[g] = append(out[g], s)
				t := *shared
				t.y, t.pf = prvs[g].Evaluate(t.x, t.v, t.com, t.open)
				out[g] = append(out[g], &t)
				u := *shared // the same vectors are committed to anew
				u.commit(prvs[g])
				u.y, u.pf = prvs[g].Evaluate(u.x, u.v, u.com, u.open)
				out[g] = append(out[g], &u)
			}
		}()
	}
	wg.Wait()
	if shared.snapshot() != before {
		c.Fatalf("concurrent evaluations modified their common input")
	}
	seen := map[string]bool{}
	for g := range out {
		for k, s := range out[g] {
			for i := range s.y {
				if vh.Big(s.y[i]).Cmp(vh.PolyEval(s.vals[i], s.xBig, f.P)) != 0 {
					c.Fatalf("goroutine %d: wrong value", g)
				}
			}
			if !in.vrf.Verify(s.x, s.com, s.y, s.pf) {
				c.Fatalf("goroutine %d: proof %d rejected", g, k)
			}
			if k%3 != 1 && !raceOn {
				for i := range s.open {
					for j := range s.open[i].MLWE {
						for l := range s.open[i].MLWE[j] {
							key := string(polyBytes(s.open[i].MLWE[j][l]))
							if seen[key] {
								c.Fatalf("two commitments share a hiding term")
							}
							seen[key] = true
						}
					}
				}
				ck := jindo.NewCommitKey(in.params, in.crs)
				for i := range s.open {
					checkOpening(c, in, ck, s.vals[i], s.com[i], s.open[i])
				}
			}
		}
	}
	c.NonTrivial()
}

func TestC20_Concurrent(t *testing.T) {
	quick, thorough := 14, 600
	if raceOn {
		quick, thorough = 20, 100
	}
	vh.Check(t, quick, thorough, func(c *vh.Ctx) {
		pick(c, concurrent[e110], concurrent[e220], concurrent[e440], concurrent[e880], concurrent[ebfv], concurrent[emult], concurrent[ejin])
	})
}
