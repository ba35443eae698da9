package zvjindo

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// C12 rule: some committed polynomial has at least two coefficients and the point is neither 0 nor 1.
func completeness[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := drawInst[E](c, f, 4)
	s := prove(c, in, in.prv)
	for i := range s.v {
		if vh.EqBigs(vh.Bigs(s.v[i]), s.vals[i]) == false {
			c.Fatalf("committed polynomial %d modified", i)
		}
	}
	if vh.Big(s.x).Cmp(s.xBig) != 0 {
		c.Fatalf("point modified")
	}
	if len(s.y) != in.batch {
		c.Fatalf("%d values for batch %d", len(s.y), in.batch)
	}
	for i := range s.y {
		if want := vh.PolyEval(s.vals[i], s.xBig, f.P); vh.Big(s.y[i]).Cmp(want) != 0 {
			c.Fatalf("value %d is %v, want %v", i, vh.Big(s.y[i]), want)
		}
	}
	mustAccept(c, in, "honest evaluation", s.x, s.com, s.y, s.pf)
	mustAccept(c, in, "honest evaluation, verified again", s.x, s.com, s.y, s.pf)
	if in.batch > 1 { // the same polynomial, commitment and opening in several places
		r := c.NewRNG("repeat")
		v, com, open := append([][]E{}, s.v...), append([]*jindo.Commitment{}, s.com...), append([]*jindo.Opening{}, s.open...)
		vals := append([][]*big.Int{}, s.vals...)
		for k := 1 + r.N(in.batch); k > 0; k-- {
			i, j := r.N(in.batch), r.N(in.batch)
			v[i], com[i], open[i], vals[i] = v[j], com[j], open[j], vals[j]
		}
		y, pf := in.prv.Evaluate(s.x, v, com, open)
		for i := range y {
			if want := vh.PolyEval(vals[i], s.xBig, f.P); vh.Big(y[i]).Cmp(want) != 0 {
				c.Fatalf("value %d of a batch with repeated polynomials is %v, want %v", i, vh.Big(y[i]), want)
			}
		}
		mustAccept(c, in, "a batch with repeated polynomials", s.x, com, y, pf)
		mustAccept(c, in, "honest evaluation, after one of its parts", s.x, s.com, s.y, s.pf)
	}
	long := false
	for i := range s.vals {
		long = long || len(s.vals[i]) > 1
	}
	if long && s.xBig.Cmp(big.NewInt(1)) > 0 {
		c.NonTrivial()
	}
}

func TestC12_Completeness(t *testing.T) {
	vh.Check(t, 140, 8000, func(c *vh.Ctx) {
		pick(c, completeness[e110], completeness[e220], completeness[e440], completeness[e880], completeness[ebfv], completeness[emult], completeness[ejin])
	})
}

// Many lengths and batches: fresh parameters per case.
func freshSizes[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	r := c.NewRNG("size")
	N := 1 + int(r.U64()%(1<<uint(1+r.N(12))))
	batch := 1
	if r.N(2) == 0 {
		batch = 2 + r.N(9)
	}
	if batch > 1 {
		N = min(N, 1500)
	}
	crs := c.Bytes(0, 40, "crs")
	c.Note("N=%d batch=%d crs=%x", N, batch, crs)
	in := newInst[E](f, N, batch, crs)
	s := prove(c, in, in.prv)
	for i := range s.y {
		if want := vh.PolyEval(s.vals[i], s.xBig, f.P); vh.Big(s.y[i]).Cmp(want) != 0 {
			c.Fatalf("value %d is %v, want %v", i, vh.Big(s.y[i]), want)
		}
	}
	mustAccept(c, in, "honest evaluation", s.x, s.com, s.y, s.pf)
	if N > 1 {
		c.NonTrivial()
	}
}

func TestC12_FreshSizes(t *testing.T) {
	vh.Check(t, 60, 4000, func(c *vh.Ctx) {
		pick(c, freshSizes[e110], freshSizes[e220], freshSizes[e440], freshSizes[e880], freshSizes[ebfv], freshSizes[emult], freshSizes[ejin])
	})
}

// Every length from empty to full, one by one.
func allLengths[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := getInst[E](f, vh.Pick(c, "N", 5, 70, 300), 1, "Jindo!")
	n := c.Int(0, in.params.Rank(), "len")
	c.Note("N=%d len=%d", in.N, n)
	c.Label("len mod row:%d", n%(in.params.Cols()*in.params.Slots()))
	v := c.VecStyle(n, f.P, "v")
	s := &statement[E]{vals: [][]*big.Int{v}, v: [][]E{vh.Vec[E](v)}}
	s.xBig = drawPoint(c, f.P)
	s.x = vh.FromBig[E](s.xBig)
	s.commit(in.prv)
	s.y, s.pf = in.prv.Evaluate(s.x, s.v, s.com, s.open)
	if want := vh.PolyEval(v, s.xBig, f.P); vh.Big(s.y[0]).Cmp(want) != 0 {
		c.Fatalf("value is %v, want %v", vh.Big(s.y[0]), want)
	}
	mustAccept(c, in, "honest evaluation", s.x, s.com, s.y, s.pf)
	c.NonTrivial()
}

func TestC12_AllLengths(t *testing.T) {
	vh.Check(t, 300, 12000, func(c *vh.Ctx) {
		pick(c, allLengths[e110], allLengths[e220], allLengths[e440], allLengths[e880], allLengths[ebfv], allLengths[emult], allLengths[ejin])
	})
}

// Oversized polynomials and wrong batch sizes are refused.
func refuseSizes[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	in := drawInst[E](c, f, 3)
	s := prove(c, in, in.prv)
	long := vh.Vec[E](make2(in.params.Rank() + 1 + c.SmallInt(0, 100, "extra")))
	if p, _ := vh.MustPanic(func() { in.prv.Commit(long) }); !p {
		c.Fatalf("committed to a polynomial longer than the rank")
	}
	v := append([][]E{}, s.v...)
	v[c.Int(0, in.batch-1, "i")] = long
	if p, _ := vh.MustPanic(func() { in.prv.Evaluate(s.x, v, s.com, s.open) }); !p {
		c.Fatalf("evaluated a polynomial longer than the rank")
	}
	for _, d := range []int{-1, 1} {
		w := append([][]E{}, s.v...)
		cm := append([]*jindo.Commitment{}, s.com...)
		op := append([]*jindo.Opening{}, s.open...)
		if d < 0 {
			w, cm, op = w[1:], cm[1:], op[1:]
		} else {
			w, cm, op = append(w, w[0]), append(cm, cm[0]), append(op, op[0])
		}
		if p, _ := vh.MustPanic(func() { in.prv.Evaluate(s.x, w, cm, op) }); !p {
			c.Fatalf("evaluated a batch of %d with parameters for %d", len(w), in.batch)
		}
		if p, _ := vh.MustPanic(func() { in.prv.Evaluate(s.x, w, s.com, s.open) }); !p {
			c.Fatalf("evaluated %d polynomials with %d commitments", len(w), in.batch)
		}
	}
	mustAccept(c, in, "honest evaluation after refused calls", s.x, s.com, s.y, s.pf)
	c.NonTrivial()
}

func make2(n int) []*big.Int {
	v := make([]*big.Int, n)
	for i := range v {
		v[i] = big.NewInt(int64(i))
	}
	return v
}

func TestC12_SizesRefused(t *testing.T) {
	vh.Check(t, 60, 1000, func(c *vh.Ctx) {
		pick(c, refuseSizes[e110], refuseSizes[e220], refuseSizes[e440], refuseSizes[e880], refuseSizes[ebfv], refuseSizes[emult], refuseSizes[ejin])
	})
}
