package zvbuckler

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math"
	"math/big"
	"testing"

	fiatshamir "github.com/consensys/gnark-crypto/fiat-shamir"
	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// mask is a random value recovered from a proof by somebody who knows the witnesses.
type mask struct {
	what string
	v    *big.Int
}

// unmask recovers the randomness of an honest proof from its evaluations. It needs the
// transcript of the protocol; ok is false if that does not explain the proof.
func (m *mirror[E]) unmask(a *assign, pf *buckler.Proof[E]) (out []mask, ok bool) {
	var z E
	N := m.N
	R := m.pr.prv.JindoParams.Rank()
	pw, w := m.expand(a)
	oracle := fiatshamir.NewTranscript(sha256.New(), "projConst", "arithBatchConst", "linCheckBatchConst", "linCheckConst", "sumCheckBatchConst", "evalPoint")
	bind := func(at string, c *jindo.Commitment) {
		var b bytes.Buffer
		c.WriteRawTo(&b)
		oracle.Bind(at, b.Bytes())
	}
	chal := func(at string) []byte {
		b, err := oracle.ComputeChallenge(at)
		if err != nil {
			panic(err)
		}
		return b
	}
	at := m.nw
	if len(m.lins) > 0 {
		at++
	}
	if len(m.sums) > 0 {
		at++
	}
	last := at
	if len(m.arith) > 0 {
		last++
	}
	if len(m.lins) > 0 {
		last += 3
	}
	if len(m.sums) > 0 {
		last += 3
	}
	if len(pf.Evals) != last || len(pf.Witness) != last {
		return nil, false
	}
	pwN, wN := make([]*bigpoly.Poly[E], m.npw), make([]*bigpoly.Poly[E], m.nw)
	for i := range pw {
		pwN[i] = m.ev.NTT(m.encode(pw[i], false))
		var b []byte
		for j := range pw[i] {
			b = append(b, pw[i][j].Marshal()...)
		}
		oracle.Bind("projConst", b)
	}
	second := map[int]bool{}
	for _, i := range m.second {
		second[i] = true
	}
	for i := range w {
		if !second[i] {
			bind("projConst", pf.Witness[i])
		}
	}
	pc := chal("projConst")
	if len(m.apps) > 0 {
		m.project(pc, w)
	}
	for _, i := range m.second {
		bind("arithBatchConst", pf.Witness[i])
	}
	k := m.nw
	if len(m.lins) > 0 {
		if any(pf.LinCheckMaskSum) == any(z) {
			return nil, false
		}
		bind("arithBatchConst", pf.Witness[k])
		oracle.Bind("arithBatchConst", pf.LinCheckMaskSum.Marshal())
		k++
	}
	if len(m.sums) > 0 {
		if any(pf.SumCheckMaskSum) == any(z) {
			return nil, false
		}
		bind("arithBatchConst", pf.Witness[k])
		oracle.Bind("arithBatchConst", pf.SumCheckMaskSum.Marshal())
		k++
	}
	ab, lb, lc, sb := chal("arithBatchConst"), chal("linCheckBatchConst"), chal("linCheckConst"), chal("sumCheckBatchConst")
	for ; k < len(pf.Witness); k++ {
		bind("evalPoint", pf.Witness[k])
	}
	x := z.New().SetBytes(chal("evalPoint"))
	van := bignum.Exp(x, uint64(N))
	van.Sub(van, z.New().SetUint64(1))
	inv := z.New()
	inv.Inverse(van)

	for i := range w {
		q := m.encode(w[i], false)
		r := q.Evaluate(x)
		r.Sub(pf.Evals[i], r)
		r.Mul(r, inv)
		q.Coeffs[N].Set(r)
		q.Coeffs[0].Sub(q.Coeffs[0], r)
		wN[i] = m.ev.NTT(q)
		out = append(out, mask{fmt.Sprintf("witness %d", i), vh.Big(r)})
	}
	explained := func(what bool) { ok = ok && what }
	ok = true
	if len(m.arith) > 0 {
		f := m.batch(z.New().SetBytes(ab), m.arith, pwN, wN, false)
		m.ev.InvNTTTo(f, f)
		y := f.Evaluate(x)
		explained(y.Mul(y, inv).Cmp(pf.Evals[at]) == 0)
		at++
	}
	check := func(what string, f *bigpoly.Poly[E], sum, maskEval E) {
		quo, rem := m.ev.QuoRemByVanishing(f, N)
		lo, hi := pf.Evals[at+1], pf.Evals[at+2]
		y := bignum.Exp(x, uint64(R-(N-1)))
		explained(y.Mul(y, lo).Cmp(hi) == 0)
		s := quo.Evaluate(x)
		s.Sub(pf.Evals[at], s)
		out = append(out, mask{"sum of the mask of the " + what, vh.Big(sum)}, mask{"quotient of the mask of the " + what, vh.Big(s)})
		// remainder of the mask without its constant, divided by x
		t := rem.Evaluate(x)
		t.Sub(t, rem.Coeffs[0])
		u := z.New().Inverse(x)
		t.Mul(t, u)
		t.Sub(lo, t)
		if N > 1 {
			out = append(out, mask{"remainder of the mask of the " + what, vh.Big(t)})
		}
		// mask = quotient * vanishing + x * remainder + sum
		y.Mul(s, van)
		y.Add(y, u.Mul(x, t))
		y.Add(y, sum)
		explained(y.Cmp(maskEval) == 0)
		at += 3
	}
	k = m.nw
	if len(m.lins) > 0 {
		check("linear check", m.linPoly(lb, lc, wN, remCheat{}), pf.LinCheckMaskSum, pf.Evals[k])
		k++
	}
	if len(m.sums) > 0 {
		f, _ := m.sumPoly(sb, pwN, wN, remCheat{})
		check("sum check", f, pf.SumCheckMaskSum, pf.Evals[k])
	}
	return
}

// still gives the witnesses values that are easy to guess, where the constraints allow.
func (g *gen[E]) still() {
	v := g.c.Int(0, 3, "still")
	if v == 0 {
		return
	}
	for w := range g.a.w {
		if g.fre[w] {
			for i := range g.a.w[w] {
				g.a.w[w][i].SetUint64(uint64(v - 1))
			}
		}
	}
	g.sp.solve(g.a, nil)
}

func masked[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	var g *gen[E]
	if c.Int(0, 9, "approx") == 0 {
		g = approxSpec[E](c, f, true)
	} else {
		g = everything[E](c, f, []int{kArith, kLin, kSum}[c.Int(0, 2, "must")], []int{kLin, kSum, kInf, kTwo}[c.Int(0, 3, "must2")])
		old := g.a.clone()
		if g.still(); len(g.sp.failing(g.a)) > 0 {
			g.a = old
		}
	}
	pr := compile(c, g.sp, "Buckler!")
	m := newMirror(pr)
	const T = 3
	var pfs []*buckler.Proof[E]
	var ms [][]mask
	for t := 0; t < T; t++ {
		if t == T-1 { // another prover
			pr.prv = compile(c, g.sp, "Buckler!").prv
		}
		pf, ok := pr.run(g.a)
		if !ok {
			c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
		}
		pfs = append(pfs, pf)
		if v, ok := m.unmask(g.a, pf); ok {
			ms = append(ms, v)
		}
	}
	// what two proofs show is different
	exempt := map[int]bool{}
	solid := false
	for _, k := range g.sp.cons {
		if k.kind != kLin && k.kind != kSum && g.solid(k) {
			solid = true
		}
	}
	at := m.nw
	for _, has := range []bool{len(m.lins) > 0, len(m.sums) > 0} {
		if has {
			at++
		}
	}
	if len(m.arith) > 0 {
		exempt[at] = !solid
		at++
	}
	for _, has := range []bool{len(m.lins) > 0, len(m.sums) > 0} {
		if has {
			exempt[at+1], exempt[at+2] = g.sp.N == 1, g.sp.N == 1 // no remainder
			at += 3
		}
	}
	if at == len(pfs[0].Evals) {
		for s := 0; s < T; s++ {
			for t := 0; t < s; t++ {
				for i := range pfs[s].Evals {
					if !exempt[i] && pfs[s].Evals[i].Cmp(pfs[t].Evals[i]) == 0 {
						c.Fatalf("claimed value %d of %d is the same in two proofs: %v", i, at, g.sp)
					}
				}
			}
		}
	}
	for s := 0; s < T; s++ {
		for t := 0; t < s; t++ {
			for i := range pfs[s].Witness {
				var a, b bytes.Buffer
				polyBytes(&a, pfs[s].Witness[i].Value...)
				polyBytes(&b, pfs[t].Witness[i].Value...)
				if a.String() == b.String() {
					c.Fatalf("commitment %d of %d is the same in two proofs: %v", i, at, g.sp)
				}
			}
		}
	}
	if len(ms) != T {
		c.Label("proofs not understood")
		return
	}
	c.Label("masks: %d", len(ms[0]))
	// the masks are nothing simple, and unrelated
	p := f.P
	seen := map[string]string{}
	for t, v := range ms {
		for _, x := range v {
			name := fmt.Sprintf("%s (proof %d)", x.what, t)
			if s := signed(x.v, p); s.BitLen() < p.BitLen()-40 {
				c.Fatalf("%s is masked by %v: %v", name, s, g.sp)
			}
			for _, y := range []*big.Int{x.v, new(big.Int).Sub(p, x.v)} {
				if o := seen[y.String()]; o != "" {
					c.Fatalf("%s and %s have the same mask up to sign: %v", name, o, g.sp)
				}
			}
			seen[x.v.String()] = name
		}
	}
	mod := func(x *big.Int) string { return x.Mod(x, p).String() }
	// no relation of two masks holds in two proofs, and no relation of two proofs for two masks
	for s := 0; s < T; s++ {
		for t := 0; t < s; t++ {
			for i, x := range ms[s] {
				y := ms[t][i]
				for j := 0; j < i; j++ {
					x2, y2 := ms[s][j], ms[t][j]
					if mod(new(big.Int).Sub(x.v, x2.v)) == mod(new(big.Int).Sub(y.v, y2.v)) ||
						mod(new(big.Int).Add(x.v, x2.v)) == mod(new(big.Int).Add(y.v, y2.v)) ||
						mod(new(big.Int).Mul(x.v, y2.v)) == mod(new(big.Int).Mul(y.v, x2.v)) ||
						mod(new(big.Int).Mul(x.v, x2.v)) == mod(new(big.Int).Mul(y.v, y2.v)) {
						c.Fatalf("the masks of %s and %s are related: %v", x.what, x2.what, g.sp)
					}
				}
			}
		}
	}
	c.NonTrivial()
}

func TestC32_Masked(t *testing.T) {
	vh.Check(t, 30, 1000, func(c *vh.Ctx) {
		pick(c, masked[e110], masked[e220], masked[e440], masked[e880], masked[ebfv], masked[emult])
	})
}

// uniformMasks proves one small statement many times and tests the law of every mask.
func uniformMasks[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := newGen[E](c, f, []int{2, 4}[c.Int(0, 1, "rank")], 1, 1)
	g.sp.sh = shape{small: true, pl: 1, wl: 0}
	g = fixed(g)
	g.sp.cons = append(g.sp.cons,
		&con[E]{kind: kArith, terms: []term{{c: big.NewInt(1), pw: -1, w: []int{0, 1}}}, closeW: -1, closePW: -1},
		&con[E]{kind: kLin, m: &lmap[E]{name: "one", chk: scaleMap[E]{1}, apply: cloneBig}, out: 1, w: 0, closeW: -1, closePW: -1},
		&con[E]{kind: kSum, terms: []term{{c: big.NewInt(1), pw: -1, w: []int{0, 2}}}, sum: new(big.Int), closeW: -1, closePW: -1})
	pr := compile(c, g.sp, "Buckler!")
	m := newMirror(pr)
	const B = 8
	n := 80
	var hist [][B]int
	var names []string
	used := map[string]int{}
	for t := 0; t < n; t++ {
		pf, err := pr.prv.Prove(g.sp.fill(g.a, false))
		if err != nil {
			c.Fatalf("%v", err)
		}
		for i, x := range []E{pf.LinCheckMaskSum, pf.SumCheckMaskSum} {
			what := []string{"linear", "sum"}[i] + " check"
			if s, again := used[what+vh.Big(x).String()]; again {
				c.Fatalf("proof %d masks the %s by a polynomial whose sum is that of proof %d", t, what, s)
			}
			used[what+vh.Big(x).String()] = t
		}
		v, ok := m.unmask(g.a, pf)
		if !ok {
			c.Label("proofs not understood")
			return
		}
		for i, x := range v {
			if t == 0 {
				hist, names = append(hist, [B]int{}), append(names, x.what)
			}
			if s, again := used[x.v.String()]; again {
				c.Fatalf("proof %d masks %s by a value of proof %d", t, x.what, s)
			}
			used[x.v.String()] = t
			y := new(big.Int).Mul(x.v, big.NewInt(B))
			hist[i][y.Div(y, f.P).Int64()]++
		}
	}
	for i, h := range hist {
		x2 := 0.0
		for _, k := range h {
			d := float64(k) - float64(n)/B
			x2 += d * d / (float64(n) / B)
		}
		// Wilson-Hilferty
		k := float64(B - 1)
		zz := (math.Pow(x2/k, 1.0/3) - (1 - 2/(9*k))) / math.Sqrt(2/(9*k))
		if zz > 7 {
			c.Fatalf("the mask of %s is not uniform: %v", names[i], h)
		}
	}
	c.NonTrivial()
}

func TestC32_Uniform(t *testing.T) {
	vh.Check(t, 8, 200, func(c *vh.Ctx) {
		pick(c, uniformMasks[e110], uniformMasks[e220], uniformMasks[e440], uniformMasks[e880], uniformMasks[ebfv], uniformMasks[emult])
	})
}
