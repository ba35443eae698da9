package zvbuckler

import (
	"testing"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/buckler/zverif/vb"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// broken makes a proof of the wrong structure. The proof is a deep copy of an accepted one.
func broken[E bignum.Uint[E]](r *vh.RNG, q *buckler.Proof[E], k int) (*buckler.Proof[E], string) {
	var z E
	n := len(q.Witness)
	i := r.N(n)
	switch k {
	case 0:
		return nil, "no proof"
	case 1:
		return &buckler.Proof[E]{}, "an empty proof"
	case 2:
		q.Witness[i] = nil
		return q, "a nil commitment"
	case 3:
		return q, "commitment " + vb.Damage(r, &q.Witness[i].Value)
	case 4:
		switch r.N(4) {
		case 0:
			q.Witness = nil
		case 1:
			q.Witness = q.Witness[:r.N(n)]
		case 2:
			q.Witness = append(q.Witness[:i:i], q.Witness[i+1:]...)
		default:
			q.Witness = append(q.Witness, q.Witness[i])
		}
		return q, "the number of commitments"
	case 5:
		switch r.N(5) {
		case 0:
			q.Evals = nil
		case 1:
			q.Evals = q.Evals[:r.N(n)]
		case 2:
			q.Evals = append(q.Evals[:i:i], q.Evals[i+1:]...)
		case 3:
			q.Evals = append(q.Evals, z.New())
		default:
			q.Evals = append(q.Evals, z)
		}
		return q, "the number of values"
	case 6:
		q.Evals[i] = z
		return q, "a nil value"
	case 7: // consistently
		if r.N(2) == 0 {
			q.Witness, q.Evals = q.Witness[:n-1], q.Evals[:n-1]
			return q, "one commitment and value less"
		}
		q.Witness, q.Evals = append(q.Witness, q.Witness[i]), append(q.Evals, q.Evals[i])
		return q, "one commitment and value more"
	case 8:
		if any(q.LinCheckMaskSum) == any(z) {
			q.LinCheckMaskSum = z.New()
			return q, "a mask sum for no linear check"
		}
		q.LinCheckMaskSum = z
		return q, "no mask sum for the linear check"
	case 9:
		if any(q.SumCheckMaskSum) == any(z) {
			q.SumCheckMaskSum = z.New()
			return q, "a mask sum for no sum check"
		}
		q.SumCheckMaskSum = z
		return q, "no mask sum for the sum check"
	case 10:
		q.EvalProof = nil
		return q, "no evaluation proof"
	case 11:
		q.EvalProof = &jindo.Proof{}
		return q, "an empty evaluation proof"
	case 12:
		return q, "InCommit " + vb.Damage(r, &q.EvalProof.InCommit)
	case 13:
		return q, "Partial " + vb.Damage(r, &q.EvalProof.Partial)
	case 14:
		return q, "PartialMask " + vb.DamagePoly(r, &q.EvalProof.PartialMask)
	case 15:
		return q, "Encode " + vb.Damage(r, &q.EvalProof.Encode)
	case 16:
		return q, "MLWE " + vb.Damage(r, &q.EvalProof.MLWE)
	default: // parts of another, empty or shorter commitment
		q.Witness[i] = &jindo.Commitment{}
		return q, "an empty commitment"
	}
}

func brokenProofs[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	var g *gen[E]
	if c.Int(0, 11, "approx") == 0 {
		g = approxSpec[E](c, f, true)
	} else {
		g = everything[E](c, f, []int{kArith, kLin, kSum}[c.Int(0, 2, "must")], []int{kLin, kSum, kInf, kTwo, kArith}[c.Int(0, 4, "must2")])
	}
	pr := compile(c, g.sp, "Buckler!")
	pf, ok := pr.run(g.a)
	if !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	pub := g.sp.fill(g.a, true)
	for k := 0; k < 18; k++ {
		q, what := broken(g.r, deepProof(pf), k)
		c.Label("%s", what)
		if p, v := vh.MustPanic(func() { ok = pr.vrf.Verify(pub, q) }); p {
			c.Fatalf("verification panics: %s: %v (%v)", what, v, g.sp)
		}
		if ok {
			c.Fatalf("a malformed proof is accepted: %s (%v)", what, g.sp)
		}
		c.NonTrivial()
	}
	if !pr.vrf.Verify(pub, pf) {
		c.Fatalf("the honest proof is rejected afterwards: %v", g.sp)
	}
}

func TestC34_Circuit(t *testing.T) {
	vh.Check(t, 40, 1500, func(c *vh.Ctx) {
		pick(c, brokenProofs[e110], brokenProofs[e220], brokenProofs[e440], brokenProofs[e880], brokenProofs[ebfv], brokenProofs[emult])
	})
}

// quiet is a circuit with constraints on public inputs only, whose quotients vanish.
type quiet[E bignum.Uint[E]] struct {
	P   []buckler.PublicWitness[E]
	W   []buckler.Witness[E]
	def func(*buckler.Context[E], *quiet[E])
}

func (q *quiet[E]) Define(ctx *buckler.Context[E]) { q.def(ctx, q) }

// quietProofs: honest proofs may well contain zero values, which must still be there.
func quietProofs[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	var z E
	N := 1 << c.Int(2, 7, "log rank")
	np, nw := c.Int(1, 3, "np"), c.Int(0, 2, "nw")
	sum, lin := c.Int(0, 3, "sum") == 0, nw > 1 && c.Int(0, 3, "lin") == 0
	r := c.NewRNG("quiet")
	def := func(ctx *buckler.Context[E], q *quiet[E]) {
		var k buckler.ArithmeticConstraint[E]
		for i := range q.P {
			k.AddTermWithConst(z.New().SetInt64(int64(i+1)), q.P[i])
		}
		ctx.AddArithmeticConstraint(k)
		if sum {
			ctx.AddSumCheckConstraint(k, 0)
		}
		if lin {
			ctx.AddLinearConstraint(q.W[1], q.W[0], scaleMap[E]{k: 1})
		}
	}
	zeroVec := func() []E {
		v := make([]E, N)
		for i := range v {
			v[i] = z.New()
		}
		return v
	}
	mk := func(w bool) *quiet[E] {
		q := &quiet[E]{P: make([]buckler.PublicWitness[E], np), W: make([]buckler.Witness[E], nw)}
		for i := range q.P {
			q.P[i] = zeroVec()
		}
		for i := range q.W {
			if w {
				q.W[i] = zeroVec()
			}
		}
		return q
	}
	cc := mk(false)
	cc.P, cc.def = make([]buckler.PublicWitness[E], np), def
	prv, vrf, err := buckler.Compile(N, cc, []byte("quiet"))
	if err != nil {
		c.Fatalf("the circuit does not compile: %v", err)
	}
	pf, err := prv.Prove(mk(true))
	if err != nil {
		c.Fatalf("cannot prove: %v", err)
	}
	pub := mk(false)
	judge := func(q *buckler.Proof[E], what string) {
		ok := false
		if p, v := vh.MustPanic(func() { ok = vrf.Verify(pub, q) }); p {
			c.Fatalf("verification panics: %s: %v", what, v)
		}
		if ok {
			c.Fatalf("a malformed proof is accepted: %s (N=%d, %d public, %d secret, sum=%v lin=%v)", what, N, np, nw, sum, lin)
		}
	}
	if !vrf.Verify(pub, pf) {
		c.Fatalf("the honest proof is rejected (N=%d, %d public, %d secret, sum=%v lin=%v)", N, np, nw, sum, lin)
	}
	n := len(pf.Evals)
	for i := range pf.Evals {
		if vh.Big(pf.Evals[i]).Sign() == 0 {
			c.NonTrivial()
		}
		q := deepProof(pf)
		q.Evals[i] = z
		judge(q, "a nil value")
		q = deepProof(pf)
		q.Evals = q.Evals[:i]
		judge(q, "values cut off")
		q = deepProof(pf)
		q.Evals = append(q.Evals[:i:i], q.Evals[i+1:]...)
		judge(q, "a value left out")
		q = deepProof(pf)
		q.Witness[i] = nil
		judge(q, "a nil commitment")
		q = deepProof(pf)
		q.Witness[i] = &jindo.Commitment{}
		judge(q, "an empty commitment")
		q = deepProof(pf)
		q.Witness = q.Witness[:i]
		judge(q, "commitments cut off")
	}
	for i := 1; i < 4; i++ {
		q := deepProof(pf)
		for range i {
			q.Evals = append(q.Evals, z.New())
		}
		judge(q, "zero values appended")
		for range i {
			q.Witness = append(q.Witness, q.Witness[r.N(n)])
		}
		judge(q, "commitments and zero values appended")
	}
	if !vrf.Verify(pub, pf) {
		c.Fatalf("the honest proof is rejected afterwards")
	}
}

func TestC34_Quiet(t *testing.T) {
	vh.Check(t, 16, 600, func(c *vh.Ctx) {
		pick(c, quietProofs[e110], quietProofs[e220], quietProofs[e440], quietProofs[e880], quietProofs[ebfv], quietProofs[emult])
	})
}
