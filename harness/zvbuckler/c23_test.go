package zvbuckler

import (
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

var (
	cacheMu  sync.Mutex
	cacheMap = map[string]any{}
)

func cached[T any](key string, mk func() T) T {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	if v, ok := cacheMap[key]; ok {
		return v.(T)
	}
	v := mk()
	cacheMap[key] = v
	return v
}

func inner2(u, v []*big.Int, p *big.Int) *big.Int {
	s := new(big.Int)
	for i := range u {
		s.Add(s, new(big.Int).Mul(u[i], v[i]))
	}
	return s.Mod(s, p)
}

// shippedMaps checks one of the shipped maps at a drawn rank.
func shippedMaps[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := 1 << c.Int(0, 9, "logRank")
	if c.Int(0, 39, "long") == 0 {
		N = 1 << c.Int(10, 13, "logRank")
	}
	p := f.P
	r := c.NewRNG("data")
	tr := cached(fmt.Sprintf("tr/%s/%d", f.Name, N), func() *bigpoly.CyclotomicTransformer[E] { return bigpoly.NewCyclotomicTransformer[E](N) })
	ev := cached(fmt.Sprintf("ev/%s/%d", f.Name, N), func() *bigpoly.CyclotomicEvaluator[E] { return bigpoly.NewCyclotomicEvaluator[E](N) })
	fwd := func(v []*big.Int) []*big.Int {
		x := vh.Vec[E](v)
		tr.FwdNTTTo(x, x)
		return vh.Bigs(x)
	}
	inv := func(v []*big.Int) []*big.Int {
		x := vh.Vec[E](v)
		tr.InvNTTTo(x, x)
		return vh.Bigs(x)
	}
	var m buckler.LinearChecker[E]
	var ref func(v []*big.Int) []*big.Int
	kind := c.Int(0, 2, "map")
	idx := 2*c.Int(-2*N, 3*N, "idx") + 1
	name := []string{"ntt", "aut", "aut in the NTT domain"}[kind]
	switch kind {
	case 0:
		m = cached(fmt.Sprintf("nc/%s/%d", f.Name, N), func() buckler.LinearChecker[E] { return buckler.NewNTTChecker[E](N) })
		ref = fwd
	case 1:
		m = buckler.NewAutChecker(ev, idx, false)
		ref = func(v []*big.Int) []*big.Int { return autRef(N, idx, v, p) }
	case 2:
		m = buckler.NewAutChecker(ev, idx, true)
		ref = func(v []*big.Int) []*big.Int { return fwd(autRef(N, idx, inv(v), p)) }
	}
	if kind > 0 {
		c.Note("%s idx=%d N=%d", name, idx, N)
	} else {
		c.Note("%s N=%d", name, N)
	}
	c.Label("%s", name)
	// the same object serves a history of calls
	for t := 0; t < 4; t++ {
		u, v := c.VecStyle(N, p, "u"), c.VecStyle(N, p, "v")
		uE, vE := vh.Vec[E](u), vh.Vec[E](v)
		dst := vh.Vec[E](c.VecStyle(N, p, "dirt"))
		m.TransformTo(dst, vE)
		Mv := vh.Bigs(dst)
		if !vh.EqBigs(Mv, ref(v)) {
			c.Fatalf("%s (idx %d, rank %d) maps %v to %v, want %v", name, idx, N, v, Mv, ref(v))
		}
		if r.N(2) == 0 { // not always the same destination
			dst = vh.Vec[E](c.VecStyle(N, p, "dirt"))
		}
		m.TransposeTo(dst, uE)
		Tu := vh.Bigs(dst)
		if inner2(u, Mv, p).Cmp(inner2(Tu, v, p)) != 0 {
			c.Fatalf("%s (idx %d, rank %d): <u,Mv> = %v but <M^T u,v> = %v for u=%v v=%v", name, idx, N, inner2(u, Mv, p), inner2(Tu, v, p), u, v)
		}
		if !vh.EqBigs(vh.Bigs(uE), u) || !vh.EqBigs(vh.Bigs(vE), v) {
			c.Fatalf("%s (idx %d, rank %d) modifies its input", name, idx, N)
		}
		// every entry of the transpose, on the unit vectors of some index
		j := r.N(N)
		e := make([]*big.Int, N)
		for i := range e {
			e[i] = new(big.Int)
		}
		e[j].SetUint64(1)
		if inner2(u, ref(e), p).Cmp(Tu[j]) != 0 {
			c.Fatalf("%s (idx %d, rank %d): entry %d of the transpose is %v", name, idx, N, j, Tu[j])
		}
		if N > 1 {
			c.NonTrivial()
		}
	}
}

func TestC23_LinearMaps(t *testing.T) {
	vh.Check(t, 3000, 60000, func(c *vh.Ctx) {
		pick(c, shippedMaps[e110], shippedMaps[e220], shippedMaps[e440], shippedMaps[e880], shippedMaps[ebfv], shippedMaps[emult])
	})
}
