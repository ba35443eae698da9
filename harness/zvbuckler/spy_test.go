package zvbuckler

import (
	"math/big"
	"sync"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// spy is a field that behaves as E and records the byte strings that are turned into
// elements: the challenges.
type spy[E bignum.Uint[E]] struct{ v E }

var (
	spyMu  sync.Mutex
	spyLog []string
	// draws made so far, and the one to be changed (-1: none)
	spyDraws, spyTwist int = 0, -1
	// the integers that elements are turned into, while spyInts is set
	spyInts   bool
	spyIntLog []*big.Int
)

// watchInts returns the integers that elements are turned into by f.
func watchInts(f func()) []*big.Int {
	spyMu.Lock()
	spyInts, spyIntLog = true, nil
	spyMu.Unlock()
	f()
	spyMu.Lock()
	defer spyMu.Unlock()
	out := spyIntLog
	spyInts, spyIntLog = false, nil
	return out
}

// watchDraws is watch for a prover, counting the random draws (marked by an empty string in
// the log) and adding one to the twisted draw.
func watchDraws(twist int, f func()) []string {
	spyMu.Lock()
	spyDraws, spyTwist = 0, twist
	spyMu.Unlock()
	defer func() { spyTwist = -1 }()
	return watch(f)
}

// watch returns the challenges used by f.
func watch(f func()) []string {
	spyMu.Lock()
	spyLog = nil
	spyMu.Unlock()
	f()
	spyMu.Lock()
	defer spyMu.Unlock()
	out := spyLog
	spyLog = nil
	return out
}

type (
	s110 = *spy[e110]
	s220 = *spy[e220]
	s440 = *spy[e440]
	s880 = *spy[e880]
	sbfv = *spy[ebfv]
	smul = *spy[emult]
)

func (s *spy[E]) New() *spy[E] {
	var z E
	return &spy[E]{z.New()}
}
func (s *spy[E]) Set(x *spy[E]) *spy[E]      { s.v.Set(x.v); return s }
func (s *spy[E]) SetInt64(x int64) *spy[E]   { s.v.SetInt64(x); return s }
func (s *spy[E]) SetUint64(x uint64) *spy[E] { s.v.SetUint64(x); return s }
func (s *spy[E]) Slice(b []uint64)           { s.v.Slice(b) }
func (s *spy[E]) BigInt(r *big.Int) *big.Int {
	s.v.BigInt(r)
	if spyInts {
		spyMu.Lock()
		spyIntLog = append(spyIntLog, new(big.Int).Set(r))
		spyMu.Unlock()
	}
	return r
}
func (s *spy[E]) SetBigInt(v *big.Int) *spy[E] { s.v.SetBigInt(v); return s }
func (s *spy[E]) Marshal() []byte              { return s.v.Marshal() }
func (s *spy[E]) Unmarshal(b []byte)           { s.v.Unmarshal(b) }
func (s *spy[E]) Add(x, y *spy[E]) *spy[E]     { s.v.Add(x.v, y.v); return s }
func (s *spy[E]) Sub(x, y *spy[E]) *spy[E]     { s.v.Sub(x.v, y.v); return s }
func (s *spy[E]) Neg(x *spy[E]) *spy[E]        { s.v.Neg(x.v); return s }
func (s *spy[E]) Mul(x, y *spy[E]) *spy[E]     { s.v.Mul(x.v, y.v); return s }
func (s *spy[E]) Inverse(x *spy[E]) *spy[E]    { s.v.Inverse(x.v); return s }
func (s *spy[E]) Cmp(x *spy[E]) int            { return s.v.Cmp(x.v) }
func (s *spy[E]) Limb() int {
	var z E
	return z.New().Limb()
}
func (s *spy[E]) MustSetRandom() *spy[E] {
	s.v.MustSetRandom()
	spyMu.Lock()
	defer spyMu.Unlock()
	if spyDraws == spyTwist {
		var z E
		s.v.Add(s.v, z.New().SetUint64(1))
	}
	spyDraws++
	spyLog = append(spyLog, "")
	return s
}
func (s *spy[E]) SetBytes(b []byte) *spy[E] {
	s.v.SetBytes(b)
	if len(b) >= 16 {
		spyMu.Lock()
		spyLog = append(spyLog, string(b))
		spyMu.Unlock()
	}
	return s
}

// everything draws a circuit with constraints of many kinds and its assignment.
func everything[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, must ...int) *gen[E] {
	N, npw, nw, most := []int{2, 4, 8, 16, 32}[c.Int(0, 4, "rank")], c.Int(1, 4, "npw"), c.Int(4, 7, "nw"), 3
	switch c.Int(0, 9, "scale") {
	case 0: // long vectors
		N = []int{64, 128, 256, 512}[c.Int(0, 3, "large rank")]
	case 1: // many constraints
		npw, nw, most = c.Int(5, 12, "many pw"), c.Int(10, 20, "many w"), 14
	}
	g := newGen[E](c, f, N, npw, nw)
	g.maxDeg = c.Int(1, 3, "deg")
	g.maxInf = 1 + c.Int(0, min(6, g.sp.N/2), "inf")
	g.free(false)
	g.freePW()
	for _, k := range must {
		g.add(k)
	}
	for i := g.r.N(most + 1); i > 0; i-- {
		g.add([]int{kArith, kLin, kInf, kTwo, kSum}[g.r.N(5)])
	}
	if len(g.sp.cons) == 0 {
		c.Skip()
	}
	g.finish()
	return g
}

func has[E bignum.Uint[E]](sp *spec[E], kinds ...int) bool {
	for _, k := range sp.cons {
		for _, x := range kinds {
			if k.kind == x {
				return true
			}
		}
	}
	return false
}

func cloneProof[E bignum.Uint[E]](pf *buckler.Proof[E]) *buckler.Proof[E] {
	q := *pf
	q.Witness = append(q.Witness[:0:0], pf.Witness...)
	q.Evals = append(q.Evals[:0:0], pf.Evals...)
	return &q
}

// shares tells whether the lists have an element in common, within whether all of a is in b.
func shares(a, b []string) (some, all bool) {
	in := map[string]bool{}
	for _, x := range b {
		in[x] = x != ""
	}
	all = true
	for _, x := range a {
		if x == "" {
			continue
		}
		if in[x] {
			some = true
		} else {
			all = false
		}
	}
	return
}

// maskChallenges: a random draw made before the first challenge (the randomness of witnesses,
// masks and their commitments) matters for every challenge if it does for any: nothing that
// has to precede a challenge is bound to a later one only. What is drawn later is not judged:
// the quotients of one check need not precede the challenges of another.
func maskChallenges[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, kind int) {
	g := newGen[E](c, f, []int{1, 2, 4, 8, 16}[c.Int(0, 4, "rank")], 1, c.Int(3, 5, "nw"))
	g.maxDeg = c.Int(1, 3, "deg")
	g.free(false)
	g.add(kArith) // so that the first challenge is seen
	g.add(kind)
	if !has(g.sp, kArith) || !has(g.sp, kind) {
		c.Skip()
	}
	g.finish()
	in := g.sp.fill(g.a, false)
	seed := c.U64("prover")
	prove := func(twist int) []string {
		c.Reseed(seed) // samplers are seeded when the prover is made
		pr := compile(c, g.sp, "Buckler!")
		return watchDraws(twist, func() {
			if _, err := pr.prv.Prove(in); err != nil {
				c.Fatalf("%v", err)
			}
		})
	}
	base := prove(-1)
	again := prove(-1)
	if len(base) != len(again) {
		return
	}
	draws := 0
	for i := range base {
		if base[i] != again[i] {
			c.Label("prover not reproducible")
			return
		}
		if base[i] == "" && draws == i {
			draws++
		}
	}
	if draws == 0 || draws == len(base) {
		c.Label("nothing seen")
		return
	}
	for t := 0; t < 6; t++ {
		k := g.r.N(draws)
		if t < 3 {
			k = draws*(t+1)/4 + g.r.N(g.sp.N)
		}
		if k >= draws {
			continue
		}
		twisted := prove(k)
		if len(twisted) != len(base) {
			c.Fatalf("a prover makes %d or %d draws and challenges: %v", len(base), len(twisted), g.sp)
		}
		moved := false
		for i := range base {
			moved = moved || twisted[i] != base[i]
		}
		if !moved {
			c.Label("draw without effect")
			continue
		}
		for i := range base {
			if base[i] != "" && twisted[i] == base[i] {
				c.Fatalf("a challenge does not depend on random draw %d of %d made before: %v", k, draws, g.sp)
			}
		}
		c.NonTrivial()
	}
}
