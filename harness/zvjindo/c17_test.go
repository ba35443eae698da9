package zvjindo

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func randomPoly(r *vh.RNG, rq *ring.Ring) ring.Poly {
	p := rq.NewPoly()
	for l, s := range rq.SubRings {
		for i := range p.Coeffs[l] {
			p.Coeffs[l][i] = r.U64() % s.Modulus
		}
	}
	return p
}

func randomMessages[E bignum.Uint[E]](r *vh.RNG, in *inst[E]) (partial []ring.Poly, mask ring.Poly) {
	rq := in.params.RingQ()
	for i := 0; i < in.params.Cols(); i++ {
		partial = append(partial, randomPoly(r, rq))
	}
	return partial, randomPoly(r, rq)
}

func randomComs[E bignum.Uint[E]](r *vh.RNG, in *inst[E]) []*jindo.Commitment {
	var out []*jindo.Commitment
	for i := 0; i < in.batch; i++ {
		cm := jindo.NewCommitment(in.params)
		for j := range cm.Value {
			pl := randomPoly(r, in.params.RingQOut())
			for l := range pl.Coeffs {
				copy(cm.Value[j].Coeffs[l], pl.Coeffs[l])
			}
		}
		out = append(out, cm)
	}
	return out
}

// signed returns the coefficients of a challenge at the multiples of the slot count and
// fails if any other coefficient is set.
func signed(c *vh.Ctx, p jindo.Parameters, rq *ring.Ring, ch ring.Poly) []int64 {
	v := coeffsOf(rq, ch)
	out := make([]int64, p.Exp())
	for i := range v {
		if i%p.Slots() != 0 {
			if v[i].Sign() != 0 {
				c.Fatalf("challenge has a coefficient outside the constants of the encoding, at %d", i)
			}
			continue
		}
		if !v[i].IsInt64() {
			c.Fatalf("challenge coefficient %v", v[i])
		}
		out[i/p.Slots()] = v[i].Int64()
	}
	return out
}

// structure looks for relations that shrink the space of challenges although every digit is
// spread evenly: it reads each challenge as the digits of the 128-bit numbers that may have
// produced it and reports a relation between 32-bit words that all of them could satisfy.
// A relation holds by chance for one challenge with probability about 2^-14 or less.
func structure(chals [][]int64, B int64) string {
	if len(chals) < 8 || len(chals[0])*bits.Len64(uint64(2*B+1)) < 100 {
		return ""
	}
	base := new(big.Int).SetInt64(2*B + 1)
	top := new(big.Int).Lsh(big.NewInt(1), 128)
	M := new(big.Int).Exp(base, big.NewInt(int64(len(chals[0]))), nil)
	if M.Cmp(top) >= 0 || new(big.Int).Div(top, M).BitLen() > 19 {
		return ""
	}
	mask := new(big.Int).SetUint64(math.MaxUint64)
	split := func(v *big.Int) (hi, lo uint64) {
		return new(big.Int).Rsh(v, 64).Uint64(), new(big.Int).And(v, mask).Uint64()
	}
	mh, ml := split(M)
	alive := uint32(1<<10 - 1)
	for _, ch := range chals[:8] {
		v := new(big.Int)
		for i := len(ch) - 1; i >= 0; i-- {
			d := big.NewInt(ch[i])
			v.Mul(v, base).Add(v, d.Mod(d, base))
		}
		hi, lo := split(v)
		found := uint32(0)
		for {
			w := [4]uint32{uint32(lo), uint32(lo >> 32), uint32(hi), uint32(hi >> 32)}
			k := 0
			for i := range w {
				if w[i] == 0 {
					found |= 1 << k
				}
				k++
				for j := range i {
					if w[i] == w[j] {
						found |= 1 << k
					}
					k++
				}
			}
			var carry uint64
			lo, carry = bits.Add64(lo, ml, 0)
			if hi, carry = bits.Add64(hi, mh, carry); carry != 0 {
				break
			}
		}
		if alive &= found; alive == 0 {
			return ""
		}
	}
	k := 0
	for i := range 4 {
		if alive>>k&1 != 0 {
			return fmt.Sprintf("word %d zero", i)
		}
		k++
		for j := range i {
			if alive>>k&1 != 0 {
				return fmt.Sprintf("words %d and %d equal", i, j)
			}
			k++
		}
	}
	return ""
}

// C17 rule: at least 256 challenges were recovered.
func challengeRange[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	big1 := c.Int(0, 1, "many") == 1
	N, batch := 64, 1
	if big1 {
		N = 300
		batch = c.Int(2, 3, "batch")
	}
	in := getInst[E](f, N, batch, "Jindo!")
	r := c.NewRNG("msgs")
	p := in.params
	B := int64(p.ChallengeBound())
	c.Note("N=%d batch=%d cols=%d", N, batch, p.Cols())
	want := 300
	if vh.Thorough() {
		want = 3000
	}
	vals := make([][]int64, p.Exp())
	seen := map[string]bool{}
	v := make([][]E, batch)
	for i := range v {
		v[i] = vh.Vec[E]([]*big.Int{big.NewInt(3)})
	}
	n := 0
	var cols, batches [][]int64
	for n < want {
		partial, mask := randomMessages(r, in)
		tr := probe(in, vh.FromBig[E](r.Big(f.P)), v, randomComs(r, in), partial, mask)
		if !tr.faithful {
			c.Fatalf("the prover does not reproduce the messages its openings determine")
		}
		var cs [][]int64
		for i := range tr.chals {
			cs = append(cs, signed(c, p, p.RingQ(), tr.chals[i]))
		}
		cols = append(cols, cs...)
		for i := range tr.batch {
			a, b := signed(c, p, p.RingQ(), tr.batch[i]), signed(c, p, p.RingQOut(), tr.batchOut[i])
			if fmt.Sprint(a) != fmt.Sprint(b) {
				c.Fatalf("the batching challenge differs between the two rings: %v, %v", a, b)
			}
			cs = append(cs, a)
			batches = append(batches, a)
		}
		for _, a := range cs {
			k := fmt.Sprint(a)
			if seen[k] {
				c.Fatalf("a challenge repeats: %s", k)
			}
			seen[k] = true
			for i := range a {
				if a[i] > B || a[i] < -B {
					c.Fatalf("challenge coefficient %d outside [-%d, %d]", a[i], B, B)
				}
				vals[i] = append(vals[i], a[i])
			}
			n++
		}
	}
	if s := structure(cols, B); s != "" {
		c.Fatalf("all column challenges come from 128-bit numbers with %s: far fewer than 2^100 values", s)
	}
	if s := structure(batches, B); s != "" {
		c.Fatalf("all batching challenges come from 128-bit numbers with %s: far fewer than 2^100 values", s)
	}
	space := 0.0
	for i := range vals {
		lo, hi := vals[i][0], vals[i][0]
		for _, x := range vals[i] {
			lo, hi = min(lo, x), max(hi, x)
		}
		if lo >= 0 || hi <= 0 {
			c.Fatalf("coefficient %d of %d challenges only takes values in [%d, %d]", i, n, lo, hi)
		}
		// 300 uniform draws leave out the top 10%% with probability 2e-14
		if float64(hi) < 0.8*float64(B) || float64(lo) > -0.8*float64(B) {
			c.Fatalf("coefficient %d of %d challenges spans [%d, %d] of [-%d, %d]", i, n, lo, hi, B, B)
		}
		space += math.Log2(float64(hi-lo) + 1)
		// even spread over the range it takes
		bins := int(min(2*B+1, 9))
		w := float64(2*B+1) / float64(bins)
		obs, exp := make([]int64, bins), make([]float64, bins)
		for _, x := range vals[i] {
			obs[min(bins-1, int(float64(x+B)/w))]++
		}
		for k := range exp {
			lo, hi := math.Ceil(float64(k)*w), math.Ceil(float64(k+1)*w)
			if k == bins-1 {
				hi = float64(2*B + 1)
			}
			exp[k] = (hi - lo) / float64(2*B+1)
		}
		if pv, _, _ := vh.Chi2P(obs, exp, int64(n), 5); pv < vh.PThreshold {
			c.Fatalf("coefficient %d is not spread evenly over [-%d, %d]: %v (p=%g)", i, B, B, obs, pv)
		}
	}
	if space < 100 {
		c.Fatalf("challenges range over only 2^%.1f values", space)
	}
	// coefficients of one challenge are not tied to one another
	for i := 0; i+1 < len(vals); i++ {
		s := 0.0
		for k := range vals[i] {
			s += float64(vals[i][k]) * float64(vals[i+1][k])
		}
		m := float64(B) * float64(B+1) / 3
		if z := s / (m * math.Sqrt(float64(n))); math.Abs(z) > 7 {
			c.Fatalf("coefficients %d and %d are correlated (z=%.1f)", i, i+1, z)
		}
	}
	c.NonTrivial()
}

func TestC17_Range(t *testing.T) {
	vh.Check(t, 18, 200, func(c *vh.Ctx) {
		pick(c, challengeRange[e110], challengeRange[e220], challengeRange[e440], challengeRange[e880], challengeRange[ebfv], challengeRange[emult], challengeRange[ejin])
	})
}

// C17 rule: the change is to one coefficient or one value.
func challengeBinding[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	bindsTo(c, f, drawInst[E](c, f, 3), "com", "x", "y", "crs", "partial", "mask", "com-order", "partial-order")
}

// bindsTo changes one message of a transcript and looks at the challenges.
func bindsTo[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, in *inst[E], changes ...string) {
	p := in.params
	r := c.NewRNG("msgs")
	// some come with an emphasis on the last
	at := func(n int) int {
		if r.N(3) == 0 {
			return n - 1
		}
		return r.N(n)
	}
	partial, mask := randomMessages(r, in)
	com := randomComs(r, in)
	v := make([][]E, in.batch)
	for i := range v {
		v[i] = vh.Vec[E]([]*big.Int{r.Big(f.P), r.Big(f.P)})
	}
	x := vh.FromBig[E](r.Big(f.P))
	base := probe(in, x, v, com, partial, mask)
	if !base.faithful {
		c.Fatalf("the prover does not reproduce the messages its openings determine")
	}
	again := probe(in, x, v, com, partial, mask)
	show := func(ps []ring.Poly) string { return string(polyBytes(ps...)) }
	if show(base.chals) != show(again.chals) || show(base.batch) != show(again.batch) {
		c.Fatalf("challenges are not a function of the transcript")
	}
	bump := func(rq *ring.Ring, pl ring.Poly) {
		l := r.N(len(rq.SubRings))
		i := r.N(rq.N())
		q := rq.SubRings[l].Modulus
		d := 1 + r.U64()%(q-1)
		if r.N(2) == 0 { // a change confined to one byte, up to a carry
			if d = (1 + r.U64()%255) << (8 * r.N(8)); d == 0 || d >= q {
				d = 1
			}
		}
		pl.Coeffs[l][i] = (pl.Coeffs[l][i] + d) % q
	}
	// byteOf returns a number below the modulus with one byte set.
	byteOf := func() *big.Int {
		d := new(big.Int).Lsh(big.NewInt(int64(1+r.N(255))), uint(8*r.N((f.P.BitLen()+7)/8)))
		if d.Cmp(f.P) >= 0 {
			d.SetInt64(1)
		}
		return d
	}
	what := vh.Pick(c, "change", changes...)
	c.Label("change:%s", what)
	c.Note("change=%s", what)
	in2, x2, v2, com2, partial2, mask2 := in, x, v, cloneComs(com), partial, *mask.CopyNew()
	early := true // affects the batching challenges, too
	switch what {
	case "com":
		i := at(in.batch)
		bump(p.RingQOut(), com2[i].Value[r.N(len(com2[i].Value))])
	case "com-order":
		if in.batch == 1 {
			return
		}
		com2[0], com2[in.batch-1] = com2[in.batch-1], com2[0]
	case "x":
		// another point at which the values agree: only the point differs
		nx := r.Big(f.P)
		if r.N(4) > 0 {
			nx = byteOf()
			nx.Mod(nx.Add(nx, vh.Big(x)), f.P)
		}
		x2 = vh.FromBig[E](nx)
		v2 = nil
		for i := range v {
			y := vh.PolyEval(vh.Bigs(v[i]), vh.Big(x), f.P)
			v2 = append(v2, vh.Vec[E]([]*big.Int{y}))
		}
		v = v2
		base = probe(in, x, v, com, partial, mask)
	case "y":
		v2 = nil
		for i := range v {
			v2 = append(v2, vh.Clone(v[i]))
		}
		w := v2[at(in.batch)]
		d := new(big.Int).Add(big.NewInt(1), r.Big(new(big.Int).Sub(f.P, big.NewInt(1))))
		if r.N(4) > 0 {
			d = byteOf()
		}
		w[0].Add(w[0], vh.FromBig[E](d))
	case "crs":
		crs := append([]byte{}, in.crs...)
		switch k := r.N(3); {
		case k == 0 && len(crs) > 0:
			crs[r.N(len(crs))] ^= 1 << r.N(8)
		case k == 1 && len(crs) > 0:
			crs = crs[:len(crs)-1]
		default:
			crs = append(crs, byte(r.N(256)))
		}
		in2 = newInst[E](f, in.N, in.batch, crs)
	case "partial":
		partial2 = nil
		for i := range partial {
			partial2 = append(partial2, *partial[i].CopyNew())
		}
		bump(p.RingQ(), partial2[at(len(partial2))])
		early = false
	case "partial-order":
		if len(partial) == 1 {
			return
		}
		partial2 = append([]ring.Poly{}, partial...)
		k := r.N(len(partial) - 1)
		partial2[k], partial2[k+1] = partial2[k+1], partial2[k]
		early = false
	case "mask":
		bump(p.RingQ(), mask2)
		early = false
	}
	unrelated(c, in, base)
	got := probe(in2, x2, v2, com2, partial2, mask2)
	for i := range base.chals {
		if show(base.chals[i:i+1]) == show(got.chals[i:i+1]) {
			c.Fatalf("column challenge %d does not depend on the %s", i, what)
		}
	}
	if early {
		for i := range base.batch {
			if show(base.batch[i:i+1]) == show(got.batch[i:i+1]) {
				c.Fatalf("batching challenge %d does not depend on the %s", i, what)
			}
		}
	}
	c.NonTrivial()
}

func TestC17_Binding(t *testing.T) {
	vh.Check(t, 200, 4000, func(c *vh.Ctx) {
		pick(c, challengeBinding[e110], challengeBinding[e220], challengeBinding[e440], challengeBinding[e880], challengeBinding[ebfv], challengeBinding[emult], challengeBinding[ejin])
	})
}

// unrelated checks that no two challenges of a transcript share more coefficients, up to
// sign, than independent ones would.
func unrelated[E bignum.Uint[E]](c *vh.Ctx, in *inst[E], tr *transcript) {
	p := in.params
	B := int64(p.ChallengeBound())
	var cs [][]int64
	for i := range tr.chals {
		cs = append(cs, signed(c, p, p.RingQ(), tr.chals[i]))
	}
	for i := range tr.batch {
		cs = append(cs, signed(c, p, p.RingQ(), tr.batch[i]))
	}
	name := func(i int) string {
		if i < len(tr.chals) {
			return fmt.Sprintf("column challenge %d", i)
		}
		return fmt.Sprintf("batching challenge %d", i-len(tr.chals))
	}
	for j := range cs {
		for i := range j {
			for _, s := range []int64{1, -1} {
				k := 0
				for l := range cs[i] {
					if cs[i][l] == s*cs[j][l] {
						k++
					}
				}
				// at least k of n coincidences: at most binom(n, k)/(2B+1)^k
				n := len(cs[i])
				lg := -float64(k) * math.Log2(float64(2*B+1))
				for l := range k {
					lg += math.Log2(float64(n-l) / float64(l+1))
				}
				if lg < -50 {
					c.Fatalf("%s and %s of one proof share %d of %d coefficients (sign %d)", name(i), name(j), k, n, s)
				}
			}
		}
	}
}

// Many challenges of a kind, and many messages they depend on.
func manyChallenges[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N, batch := 5, 1
	if c.Int(0, 1, "kind") == 0 {
		N, batch = vh.Pick(c, "N.long", 4096, 8192, 16384, 32768), c.Int(1, 2, "batch")
	} else {
		N, batch = vh.Pick(c, "N.short", 1, 5, 70), vh.Pick(c, "batch.many", 6, 9, 12, 17, 20, 33, 40)
	}
	in := getInst[E](f, N, batch, "Jindo!")
	c.Note("N=%d batch=%d cols=%d", N, batch, in.params.Cols())
	changes := []string{"com", "y"}
	if in.params.Cols() > 2 {
		changes = []string{"partial", "partial", "mask"}
	}
	bindsTo(c, f, in, changes...)
}

func TestC17_Many(t *testing.T) {
	vh.Check(t, 40, 1500, func(c *vh.Ctx) {
		pick(c, manyChallenges[e110], manyChallenges[e220], manyChallenges[e440], manyChallenges[e880], manyChallenges[ebfv], manyChallenges[emult], manyChallenges[ejin])
	})
}
