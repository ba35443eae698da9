package zvmath

import (
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// evaluator is what the cyclic and the cyclotomic evaluators share.
type evaluator[E bignum.Uint[E]] interface {
	NewPoly(isNTT bool) *bigpoly.Poly[E]
	Rank() int
	Add(p0, p1 *bigpoly.Poly[E]) *bigpoly.Poly[E]
	AddTo(pOut, p0, p1 *bigpoly.Poly[E])
	Sub(p0, p1 *bigpoly.Poly[E]) *bigpoly.Poly[E]
	SubTo(pOut, p0, p1 *bigpoly.Poly[E])
	Neg(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NegTo(pOut, p *bigpoly.Poly[E])
	ScalarMul(p *bigpoly.Poly[E], c E) *bigpoly.Poly[E]
	ScalarMulTo(pOut, p *bigpoly.Poly[E], c E)
	ScalarMulAddTo(pOut, p *bigpoly.Poly[E], c E)
	ScalarMulSubTo(pOut, p *bigpoly.Poly[E], c E)
	Mul(p0, p1 *bigpoly.Poly[E]) *bigpoly.Poly[E]
	MulTo(pOut, p0, p1 *bigpoly.Poly[E])
	MulAddTo(pOut, p0, p1 *bigpoly.Poly[E])
	MulSubTo(pOut, p0, p1 *bigpoly.Poly[E])
	NTT(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NTTTo(pOut, p *bigpoly.Poly[E])
	InvNTT(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	InvNTTTo(pOut, p *bigpoly.Poly[E])
}

func getEvaluator[E bignum.Uint[E]](f vh.Field, cyclic bool, rank int) evaluator[E] {
	return cached(fmt.Sprintf("ev/%s/%v/%d", f.Name, cyclic, rank), func() evaluator[E] {
		if cyclic {
			return bigpoly.NewCyclicEvaluator[E](rank)
		}
		return bigpoly.NewCyclotomicEvaluator[E](rank)
	})
}

// mpoly is the model of a polynomial: the ring element and the domain it is stored in.
type mpoly struct {
	c   []*big.Int
	ntt bool
}

func (m *mpoly) copy() *mpoly {
	out := &mpoly{c: zeros(len(m.c)), ntt: m.ntt}
	for i := range m.c {
		out.c[i].Set(m.c[i])
	}
	return out
}

// C03 rule: the history has a product or transform and at least one aliased or refused call.
func polyHistory[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	cyclic := c.Bool("cyclic")
	sign := -1
	if cyclic {
		sign = 1
	}
	n := 1 << c.Int(0, 6, "logRank")
	c.Note("cyclic=%v rank=%d", cyclic, n)
	ev := getEvaluator[E](f, cyclic, n)
	tr := getTransformer[E](c, f, cyclic, n)
	if ev.Rank() != n {
		c.Fatalf("Rank() = %d, want %d", ev.Rank(), n)
	}
	fwd := func(v []*big.Int) []*big.Int {
		w := vh.Vec[E](v)
		o := vh.Vec[E](v)
		tr.FwdNTTTo(o, w)
		return vh.Bigs(o)
	}

	const np = 4
	pool := make([]*bigpoly.Poly[E], np+1)
	model := make([]*mpoly, np+1)
	for i := 0; i < np; i++ {
		v := c.VecStyle(n, f.P, fmt.Sprintf("p%d", i))
		ntt := c.Bool("ntt")
		model[i] = &mpoly{c: v, ntt: ntt}
		vals := v
		if ntt {
			vals = fwd(v)
		}
		g := newGuarded[E](vals, false)
		pool[i] = &bigpoly.Poly[E]{Coeffs: g.v, IsNTT: ntt}
	}
	// one polynomial of a wrong rank
	wn := n * 2
	if c.Bool("shortWrong") && n > 1 {
		wn = n / 2
	}
	pool[np] = bigpoly.NewPoly[E](wn, c.Bool("wrongNTT"))
	model[np] = &mpoly{c: zeros(wn), ntt: pool[np].IsNTT}
	wr := c.NewRNG("wrong")
	raw := zeros(wn)
	for i := range raw {
		raw[i] = wr.Big(f.P)
		pool[np].Coeffs[i].SetBigInt(raw[i])
	}

	verify := func(what string) {
		for i := 0; i < np; i++ {
			if pool[i].Rank() != n || len(pool[i].Coeffs) != n {
				c.Fatalf("%s: polynomial %d has rank %d", what, i, pool[i].Rank())
			}
			if pool[i].IsNTT != model[i].ntt {
				c.Fatalf("%s: polynomial %d has IsNTT=%v, want %v", what, i, pool[i].IsNTT, model[i].ntt)
			}
			want := model[i].c
			if model[i].ntt {
				want = fwd(want)
			}
			eqAt(c, fmt.Sprintf("%s: polynomial %d", what, i), vh.Bigs(pool[i].Coeffs), want)
		}
		eqAt(c, what+": wrong-rank polynomial changed", vh.Bigs(pool[np].Coeffs), raw)
		if pool[np].IsNTT != model[np].ntt {
			c.Fatalf("%s: flag of the wrong-rank polynomial changed", what)
		}
	}
	verify("initial")

	mod := func(v []*big.Int) []*big.Int {
		for i := range v {
			v[i].Mod(v[i], f.P)
		}
		return v
	}
	comb := func(a []*big.Int, k *big.Int, b []*big.Int) []*big.Int { // a + k*b
		out := zeros(n)
		for i := range out {
			out[i].Mul(k, b[i])
			out[i].Add(out[i], a[i])
		}
		return mod(out)
	}
	one, neg := big.NewInt(1), big.NewInt(-1)

	steps := c.SmallInt(1, 14, "steps")
	strong, special := false, false
	for s := 0; s < steps; s++ {
		op := c.Int(0, 17, "op")
		idx := func(l string) int {
			if c.Int(0, 19, l+"?") == 0 {
				return np
			}
			return c.Int(0, np-1, l)
		}
		o, a, b := idx("out"), idx("a"), idx("b")
		k := c.NewRNG("k").Interesting(f.P)
		ke := vh.FromBig[E](k)
		kIn := false // the scalar is a coefficient of one of the operands
		if op >= 6 && op <= 9 && c.Int(0, 2, "scalarIn") == 0 {
			src := pool[a]
			if c.Bool("scalarFromOut") {
				src = pool[o]
			}
			ke = src.Coeffs[c.Int(0, src.Rank()-1, "scalarAt")]
			k = vh.Big(ke)
			kIn = true
			c.Label("scalar is a coefficient")
		}
		names := []string{"Add", "AddTo", "Sub", "SubTo", "Neg", "NegTo", "ScalarMul", "ScalarMulTo", "ScalarMulAddTo", "ScalarMulSubTo",
			"Mul", "MulTo", "MulAddTo", "MulSubTo", "NTT/InvNTT", "NTTTo/InvNTTTo", "CopyFrom", "Clear"}
		what := fmt.Sprintf("step %d %s(out=%d,a=%d,b=%d)", s, names[op], o, a, b)

		unary := op >= 4 && op <= 9 || op == 14 || op == 15
		binary := op <= 3 || op >= 10 && op <= 13
		returns := op == 0 || op == 2 || op == 4 || op == 6 || op == 10 || op == 14
		mul := op >= 10 && op <= 13
		acc := op == 8 || op == 9 || op == 12 || op == 13
		transform := op == 14 || op == 15
		inverse := false
		if transform {
			inverse = c.Bool("inverse")
		}
		if op == 16 || op == 17 {
			if o == np || a == np {
				continue
			}
		}
		if returns && o == np {
			continue // there is no destination to refuse
		}
		refused := false
		if unary && (a == np || o == np) || binary && (a == np || b == np || o == np) {
			refused = true
		} else if binary && model[a].ntt != model[b].ntt {
			refused = true
		} else if mul && (!model[a].ntt || !model[b].ntt) {
			refused = true
		} else if transform && model[a].ntt != inverse {
			refused = true
		} else if acc && model[o].ntt != model[a].ntt {
			continue // what a destination in the other domain means is unspecified
		}

		var res *bigpoly.Poly[E]
		P, A, B := pool[o], pool[a], pool[b]
		// An operand may be another view of the same coefficients.
		if c.Int(0, 3, "view") == 0 {
			A = &bigpoly.Poly[E]{Coeffs: A.Coeffs, IsNTT: A.IsNTT}
			B = &bigpoly.Poly[E]{Coeffs: append([]E{}, B.Coeffs...), IsNTT: B.IsNTT}
		}
		call := func() {
			switch op {
			case 0:
				res = ev.Add(A, B)
			case 1:
				ev.AddTo(P, A, B)
			case 2:
				res = ev.Sub(A, B)
			case 3:
				ev.SubTo(P, A, B)
			case 4:
				res = ev.Neg(A)
			case 5:
				ev.NegTo(P, A)
			case 6:
				res = ev.ScalarMul(A, ke)
			case 7:
				ev.ScalarMulTo(P, A, ke)
			case 8:
				ev.ScalarMulAddTo(P, A, ke)
			case 9:
				ev.ScalarMulSubTo(P, A, ke)
			case 10:
				res = ev.Mul(A, B)
			case 11:
				ev.MulTo(P, A, B)
			case 12:
				ev.MulAddTo(P, A, B)
			case 13:
				ev.MulSubTo(P, A, B)
			case 14:
				if inverse {
					res = ev.InvNTT(A)
				} else {
					res = ev.NTT(A)
				}
			case 15:
				if inverse {
					ev.InvNTTTo(P, A)
				} else {
					ev.NTTTo(P, A)
				}
			case 16:
				P.CopyFrom(A)
			case 17:
				P.Clear()
			}
		}
		panicked, msg := vh.MustPanic(call)
		if refused {
			if !panicked {
				c.Fatalf("%s: accepted inconsistent operands (a.ntt=%v b.ntt=%v)", what, model[a].ntt, model[b].ntt)
			}
			special = true
			c.Label("refused")
			verify(what + " (refused)")
			continue
		}
		if panicked {
			c.Fatalf("%s: panicked: %s", what, msg)
		}
		c.Label("op:%s", names[op])
		if !returns && (o == a || binary && (o == b || a == b)) {
			special = true
			c.Label("aliased")
		}
		var out *mpoly
		switch op {
		case 0, 1:
			out = &mpoly{comb(model[a].c, one, model[b].c), model[a].ntt}
		case 2, 3:
			out = &mpoly{comb(model[a].c, neg, model[b].c), model[a].ntt}
		case 4, 5:
			out = &mpoly{comb(zeros(n), neg, model[a].c), model[a].ntt}
		case 6, 7:
			out = &mpoly{comb(zeros(n), k, model[a].c), model[a].ntt}
		case 8:
			out = &mpoly{comb(model[o].c, k, model[a].c), model[a].ntt}
		case 9:
			out = &mpoly{comb(model[o].c, new(big.Int).Neg(k), model[a].c), model[a].ntt}
		case 10, 11:
			out = &mpoly{vh.RingMul(model[a].c, model[b].c, sign, f.P), true}
		case 12:
			out = &mpoly{comb(model[o].c, one, vh.RingMul(model[a].c, model[b].c, sign, f.P)), true}
		case 13:
			out = &mpoly{comb(model[o].c, neg, vh.RingMul(model[a].c, model[b].c, sign, f.P)), true}
		case 14, 15:
			out = &mpoly{model[a].copy().c, !inverse}
		case 16:
			out = model[a].copy()
		case 17:
			out = &mpoly{zeros(n), model[o].ntt}
		}
		if mul || transform {
			strong = true
		}
		model[o] = out
		if res != nil {
			pool[o] = res
		}
		if !kIn && vh.Big(ke).Cmp(k) != 0 {
			c.Fatalf("%s: the scalar was modified", what)
		}
		verify(what)
		c.Note("%s", what)
	}
	if strong && special {
		c.NonTrivial()
	}
}

func TestC03_PolynomialHistories(t *testing.T) {
	vh.Check(t, 8000, 80000, func(c *vh.Ctx) {
		pick(c, polyHistory[e110], polyHistory[e220], polyHistory[e440], polyHistory[e880], polyHistory[ebfv], polyHistory[emult], polyHistory[ejin])
	})
}

// Long vectors exercise the unrolled kernels: the same laws at ranks up to 2^11.
func polyBulk[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	cyclic := c.Bool("cyclic")
	n := 1 << c.Int(0, 11, "logRank")
	ev := getEvaluator[E](f, cyclic, n)
	c.Note("cyclic=%v rank=%d", cyclic, n)
	mk := func(l string) ([]*big.Int, *bigpoly.Poly[E]) {
		v := c.VecStyle(n, f.P, l)
		return v, &bigpoly.Poly[E]{Coeffs: newGuarded[E](v, false).v, IsNTT: true}
	}
	av, a := mk("a")
	bv, b := mk("b")
	ov, o := mk("o")
	k := c.NewRNG("k").Interesting(f.P)
	ke := vh.FromBig[E](k)
	check := func(what string, p *bigpoly.Poly[E], fn func(i int) *big.Int) {
		w := zeros(n)
		for i := range w {
			w[i].Mod(fn(i), f.P)
		}
		eqAt(c, what, vh.Bigs(p.Coeffs), w)
	}
	B := func() *big.Int { return new(big.Int) }
	check("Add", ev.Add(a, b), func(i int) *big.Int { return B().Add(av[i], bv[i]) })
	check("Sub", ev.Sub(a, b), func(i int) *big.Int { return B().Sub(av[i], bv[i]) })
	check("Neg", ev.Neg(a), func(i int) *big.Int { return B().Neg(av[i]) })
	check("Mul", ev.Mul(a, b), func(i int) *big.Int { return B().Mul(av[i], bv[i]) })
	check("ScalarMul", ev.ScalarMul(a, ke), func(i int) *big.Int { return B().Mul(av[i], k) })
	cp := ev.NewPoly(false)
	cp.CopyFrom(o)
	ev.MulAddTo(cp, a, b)
	check("MulAddTo", cp, func(i int) *big.Int { return B().Add(ov[i], B().Mul(av[i], bv[i])) })
	cp.CopyFrom(o)
	ev.MulSubTo(cp, a, b)
	check("MulSubTo", cp, func(i int) *big.Int { return B().Sub(ov[i], B().Mul(av[i], bv[i])) })
	cp.CopyFrom(o)
	ev.ScalarMulAddTo(cp, a, ke)
	check("ScalarMulAddTo", cp, func(i int) *big.Int { return B().Add(ov[i], B().Mul(av[i], k)) })
	cp.CopyFrom(o)
	ev.ScalarMulSubTo(cp, a, ke)
	check("ScalarMulSubTo", cp, func(i int) *big.Int { return B().Sub(ov[i], B().Mul(av[i], k)) })
	if !cp.IsNTT {
		c.Fatalf("accumulated polynomial lost its domain")
	}
	eqAt(c, "a changed", vh.Bigs(a.Coeffs), av)
	eqAt(c, "b changed", vh.Bigs(b.Coeffs), bv)
	eqAt(c, "o changed", vh.Bigs(o.Coeffs), ov)
	if n > 1 {
		c.NonTrivial()
	}
}

func TestC03_BulkKernels(t *testing.T) {
	vh.Check(t, 400, 6000, func(c *vh.Ctx) {
		pick(c, polyBulk[e110], polyBulk[e220], polyBulk[e440], polyBulk[e880], polyBulk[ebfv], polyBulk[emult], polyBulk[ejin])
	})
}

// Copies between different ranks must not read or write memory that belongs to neither.
func copyRanks[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	n, m := c.Int(0, 20, "n"), c.Int(0, 20, "m")
	c.Note("to=%d from=%d", n, m)
	v := c.VecStyle(m, f.P, "src")
	src := newGuarded[E](v, true)
	dst := newGuarded[E](zeros(n), false)
	p := &bigpoly.Poly[E]{Coeffs: dst.v}
	panicked, msg := vh.MustPanic(func() { p.CopyFrom(&bigpoly.Poly[E]{Coeffs: src.v, IsNTT: true}) })
	dst.intact(c, "CopyFrom")
	eqAt(c, "source", vh.Bigs(src.v), v)
	switch {
	case n == m && panicked:
		c.Fatalf("CopyFrom of equal ranks panicked: %s", msg)
	case n > m && !panicked:
		c.Fatalf("CopyFrom of a shorter polynomial accepted")
	case !panicked && n <= m:
		eqAt(c, "copy", vh.Bigs(dst.v), v[:n])
		if !p.IsNTT {
			c.Fatalf("domain not copied")
		}
	}
	if n != m {
		c.NonTrivial()
	}
}

func TestC03_CopyBetweenRanks(t *testing.T) {
	vh.Check(t, 600, 6000, func(c *vh.Ctx) {
		pick(c, copyRanks[e110], copyRanks[e220], copyRanks[e440], copyRanks[e880], copyRanks[ebfv], copyRanks[emult], copyRanks[ejin])
	})
}

// An evaluator keeps scratch polynomials in a pool, so that goroutines can share it: several
// goroutines work on polynomials of their own through one evaluator, with common read-only
// operands, and get what the same calls give one after another through another evaluator.
func sharedEval[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	cyclic := c.Bool("cyclic")
	n := 1 << c.Int(0, 9, "logRank")
	k := c.Int(2, 6, "goroutines")
	steps := c.Int(1, 60, "steps")
	c.Note("cyclic=%v rank=%d goroutines=%d steps=%d", cyclic, n, k, steps)
	mk := func() evaluator[E] {
		if cyclic {
			return bigpoly.NewCyclicEvaluator[E](n)
		}
		return bigpoly.NewCyclotomicEvaluator[E](n)
	}
	ev, ref := mk(), mk()
	r := c.NewRNG("ops")
	poly := func(ntt bool) *bigpoly.Poly[E] {
		v := make([]*big.Int, n)
		for i := range v {
			v[i] = r.Big(f.P)
		}
		return &bigpoly.Poly[E]{Coeffs: vh.Vec[E](v), IsNTT: ntt}
	}
	clone := func(p *bigpoly.Poly[E]) *bigpoly.Poly[E] {
		q := bigpoly.NewPoly[E](n, p.IsNTT)
		for i := range q.Coeffs {
			q.Coeffs[i].Set(p.Coeffs[i])
		}
		return q
	}
	common := []*bigpoly.Poly[E]{poly(true), poly(true)}
	kept := []*bigpoly.Poly[E]{clone(common[0]), clone(common[1])}
	z := vh.FromBig[E](r.Interesting(f.P))
	type op struct{ what, a, b, o, idx int }
	plan := make([][]op, k)
	own := make([][]*bigpoly.Poly[E], k)
	want := make([][]*bigpoly.Poly[E], k)
	for g := range plan {
		for i := 0; i < steps; i++ {
			plan[g] = append(plan[g], op{r.N(11), r.N(5), r.N(5), r.N(3), 2*r.N(2*n) + 1})
		}
		own[g] = []*bigpoly.Poly[E]{poly(true), poly(true), poly(true)}
		for _, p := range own[g] {
			want[g] = append(want[g], clone(p))
		}
	}
	work := func(ev evaluator[E], ps []*bigpoly.Poly[E], ops []op) {
		all := append(append([]*bigpoly.Poly[E]{}, ps...), common...)
		for _, o := range ops {
			out, a, b := ps[o.o], all[o.a], all[o.b]
			switch o.what {
			case 0:
				ev.AddTo(out, a, b)
			case 1:
				ev.SubTo(out, a, b)
			case 2:
				ev.MulTo(out, a, b)
			case 3:
				ev.MulAddTo(out, a, b)
			case 4:
				ev.MulSubTo(out, a, b)
			case 5:
				ev.ScalarMulAddTo(out, a, z)
			case 6:
				ev.ScalarMulSubTo(out, a, z)
			case 7:
				ev.ScalarMulTo(out, a, z)
			case 8: // through the other domain
				t := ev.InvNTT(a)
				if e, ok := ev.(*bigpoly.CyclotomicEvaluator[E]); ok {
					e.AutTo(t, t, o.idx)
				}
				ev.NTTTo(out, t)
			case 9:
				if e, ok := ev.(*bigpoly.CyclotomicEvaluator[E]); ok {
					e.AutTo(out, a, o.idx)
				} else {
					ev.NegTo(out, a)
				}
			case 10:
				out.CopyFrom(ev.Add(ev.Mul(a, b), ev.Neg(b)))
			}
		}
	}
	for g := range plan {
		work(ref, want[g], plan[g])
	}
	var wg sync.WaitGroup
	fail := make([]string, k)
	start := make(chan struct{})
	for g := range plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fail[g] = fmt.Sprint(p)
				}
			}()
			<-start
			work(ev, own[g], plan[g])
		}()
	}
	close(start)
	wg.Wait()
	for g := range plan {
		if fail[g] != "" {
			c.Fatalf("goroutine %d: %s", g, fail[g])
		}
		for i := range own[g] {
			eqAt(c, fmt.Sprintf("goroutine %d, polynomial %d", g, i), vh.Bigs(own[g][i].Coeffs), vh.Bigs(want[g][i].Coeffs))
			if !own[g][i].IsNTT {
				c.Fatalf("goroutine %d, polynomial %d: domain lost", g, i)
			}
		}
	}
	for i := range common {
		eqAt(c, "common operand changed", vh.Bigs(common[i].Coeffs), vh.Bigs(kept[i].Coeffs))
	}
	if n > 1 && steps > 5 {
		c.NonTrivial()
	}
}

func TestC03_Shared(t *testing.T) {
	vh.Check(t, 120, 4000, func(c *vh.Ctx) {
		pick(c, sharedEval[e110], sharedEval[e220], sharedEval[e440], sharedEval[e880], sharedEval[ebfv], sharedEval[emult], sharedEval[ejin])
	})
}
