// Package zvjindo holds the checks of the polynomial commitment scheme.
package zvjindo

import (
	"fmt"
	"math/big"
	"os"
	"sync"
	"testing"

	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/buckler/internal/zp220"
	"github.com/sp301415/ringo-snark/buckler/internal/zp440"
	"github.com/sp301415/ringo-snark/buckler/internal/zp880"
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/jindo/zverif/jf"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

func TestMain(m *testing.M) { os.Exit(vh.Main(m)) }

type prop func(*vh.Ctx, vh.Field)

type (
	e110  = *zp110.Uint
	e220  = *zp220.Uint
	e440  = *zp440.Uint
	e880  = *zp880.Uint
	ebfv  = *bfvzp.Uint
	emult = *multzp.Uint
	ejin  = *jf.Uint
)

// pick draws one of the shipped moduli and runs the property on it.
func pick(c *vh.Ctx, p110, p220, p440, p880, pbfv, pmult, pjin prop) {
	i := c.Int(0, 6, "field")
	f := []vh.Field{vh.F110, vh.F220, vh.F440, vh.F880, vh.FBFV, vh.FMult, vh.FJin}[i]
	c.Note("field=%s", f.Name)
	c.Label("field:%s", f.Name)
	[]prop{p110, p220, p440, p880, pbfv, pmult, pjin}[i](c, f)
}

// inst is a parameter set with a prover and an independently built verifier.
type inst[E bignum.Uint[E]] struct {
	f      vh.Field
	N      int // requested length
	batch  int
	crs    []byte
	params jindo.Parameters
	prv    *jindo.Prover[E]
	vrf    *jindo.Verifier[E]
}

var cache sync.Map

func getParams[E bignum.Uint[E]](f vh.Field, N, batch int) jindo.Parameters {
	key := fmt.Sprintf("p/%s/%d/%d", f.Name, N, batch)
	if v, ok := cache.Load(key); ok {
		return v.(jindo.Parameters)
	}
	p := jindo.NewParameters[E](N, batch)
	cache.Store(key, p)
	return p
}

func getInst[E bignum.Uint[E]](f vh.Field, N, batch int, crs string) *inst[E] {
	key := fmt.Sprintf("i/%s/%d/%d/%s", f.Name, N, batch, crs)
	if v, ok := cache.Load(key); ok {
		return v.(*inst[E])
	}
	in := newInst[E](f, N, batch, []byte(crs))
	cache.Store(key, in)
	return in
}

func newInst[E bignum.Uint[E]](f vh.Field, N, batch int, crs []byte) *inst[E] {
	in := &inst[E]{f: f, N: N, batch: batch, crs: crs}
	in.params = getParams[E](f, N, batch)
	in.prv = jindo.NewProver[E](in.params, append([]byte{}, crs...))
	in.vrf = jindo.NewVerifier[E](in.params, append([]byte{}, crs...))
	return in
}

// sizes are the requested lengths most properties draw from.
var sizes = []int{1, 5, 33, 64, 300, 1024, 1024, 2048}

// scaled makes some cases ones of long or of many polynomials.
func scaled(c *vh.Ctx, N, batch int) (int, int) {
	switch c.Int(0, 11, "scale") {
	case 0: // long polynomials
		N, batch = vh.Pick(c, "N.long", 4096, 6000, 8192, 10000, 16384), min(batch, 2)
		if vh.Thorough() && c.Int(0, 7, "N.longest") == 0 {
			N, batch = vh.Pick(c, "N.long", 30000, 65536), 1
		}
	case 1: // many polynomials
		N, batch = vh.Pick(c, "N.short", 1, 5, 33, 70), vh.Pick(c, "batch.many", 5, 6, 7, 8, 9, 12, 16, 17, 24, 33)
	}
	return N, batch
}

func drawInst[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, maxBatch int) *inst[E] {
	N := sizes[c.Int(0, len(sizes)-1, "N")]
	batch := c.Int(1, maxBatch, "batch")
	N, batch = scaled(c, N, batch)
	crs := vh.Pick(c, "crs", "Jindo!", "", "another reference string")
	c.Note("N=%d batch=%d crs=%q", N, batch, crs)
	c.Label("batch:%d", batch)
	return getInst[E](f, N, batch, crs)
}

// statement is an honestly made proof with everything it is about.
type statement[E bignum.Uint[E]] struct {
	vals [][]*big.Int
	v    [][]E
	com  []*jindo.Commitment
	open []*jindo.Opening
	xBig *big.Int
	x    E
	y    []E
	pf   *jindo.Proof
}

func drawPoly(c *vh.Ctx, in interface{ maxLen() int }, p *big.Int, l string) []*big.Int {
	m := in.maxLen()
	n := m
	switch c.Int(0, 4, l+".len") {
	case 0:
		n = c.Int(0, m, l+".n")
	case 1:
		n = c.Int(0, min(m, 40), l+".n")
	case 2:
		n = max(0, m-c.Int(0, 3, l+".n"))
	case 3:
		n = c.Int(1, m, l+".n")
	}
	c.Note("%s: len %d/%d", l, n, m)
	return c.VecStyle(n, p, l)
}

func (in *inst[E]) maxLen() int { return in.params.Rank() }

func drawPoint(c *vh.Ctx, p *big.Int) *big.Int {
	r := c.NewRNG("x")
	var x *big.Int
	switch c.Int(0, 3, "x.kind") {
	case 0:
		x = r.Interesting(p)
	default:
		x = r.Big(p)
	}
	return x
}

// prove commits to drawn polynomials and evaluates them.
func prove[E bignum.Uint[E]](c *vh.Ctx, in *inst[E], prv *jindo.Prover[E]) *statement[E] {
	s := &statement[E]{}
	for i := 0; i < in.batch; i++ {
		b := drawPoly(c, in, in.f.P, fmt.Sprintf("v%d", i))
		s.vals = append(s.vals, b)
		s.v = append(s.v, vh.Vec[E](b))
	}
	s.xBig = drawPoint(c, in.f.P)
	s.x = vh.FromBig[E](s.xBig)
	s.commit(prv)
	s.y, s.pf = prv.Evaluate(s.x, s.v, s.com, s.open)
	return s
}

func (s *statement[E]) commit(prv *jindo.Prover[E]) {
	s.com, s.open = nil, nil
	for i := range s.v {
		cm, op := prv.Commit(s.v[i])
		s.com = append(s.com, cm)
		s.open = append(s.open, op)
	}
}
