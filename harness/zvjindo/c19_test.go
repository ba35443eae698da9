package zvjindo

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func keyPolys(ck *jindo.CommitKey) (q, out []ring.Poly) {
	for i := range ck.In {
		q = append(q, ck.In[i]...)
	}
	for i := range ck.MLWE {
		q = append(q, ck.MLWE[i]...)
	}
	for i := range ck.Out {
		out = append(out, ck.Out[i]...)
	}
	return
}

func drawCRS(c *vh.Ctx, l string) []byte {
	r := c.NewRNG(l)
	n := []int{0, 1, 6, 16, 32, 33, 64, 200}[r.N(8)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// C19 rule: two different reference strings were compared.
func keys[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{5, 64, 300, 1024}[c.Int(0, 3, "N")]
	batch := c.Int(1, 2, "batch")
	N, batch = scaled(c, N, batch)
	p := getParams[E](f, N, batch)
	crs := drawCRS(c, "crs")
	r := c.NewRNG("mut")
	c.Note("N=%d batch=%d crs=%x", N, batch, crs)
	buf := append(make([]byte, 0, len(crs)+8), crs...)
	ck := jindo.NewCommitKey(p, buf)
	for i := range buf {
		buf[i] ^= 0xA5
	}
	_ = append(buf, 1, 2, 3)
	ck2 := jindo.NewCommitKey(jindo.NewParameters[E](N, batch), append([]byte{}, crs...))
	var w1, w2 bytes.Buffer
	ck.WriteRawTo(&w1)
	ck2.WriteRawTo(&w2)
	if !bytes.Equal(w1.Bytes(), w2.Bytes()) {
		c.Fatalf("the key's serialisation depends on the caller's buffer")
	}
	q1, o1 := keyPolys(ck)
	q2, o2 := keyPolys(ck2)
	if len(ck.In) != p.InMSISRank() || len(ck.MLWE) != p.InMSISRank() || len(ck.Out) != p.OutMSISRank() ||
		len(ck.In[0]) != p.Rows() || len(ck.MLWE[0]) != p.MLWERank() || len(ck.Out[0]) != p.InCommitDecomposeLen() {
		c.Fatalf("the key has the wrong shape")
	}
	for i := range q1 {
		if !same(p.RingQ(), q1[i], q2[i]) {
			c.Fatalf("two keys for one reference string differ, at inner element %d", i)
		}
	}
	for i := range o1 {
		if !same(p.RingQOut(), o1[i], o2[i]) {
			c.Fatalf("two keys for one reference string differ, at outer element %d", i)
		}
	}
	other := append([]byte{}, crs...)
	switch k := r.N(4); {
	case k == 0 && len(other) > 0:
		other[r.N(len(other))] ^= 1 << r.N(8)
	case k == 1 && len(other) > 0:
		other = other[:len(other)-1]
	case k == 2:
		other = append(other, 0)
	default:
		other = append(other, byte(r.U64()))
	}
	ck3 := jindo.NewCommitKey(p, other)
	q3, o3 := keyPolys(ck3)
	w2.Reset()
	ck3.WriteRawTo(&w2)
	if bytes.Equal(w1.Bytes(), w2.Bytes()) {
		c.Fatalf("the transcript does not tell reference strings %x and %x apart", crs, other)
	}
	seen := map[string]string{}
	var unif bins16
	var low [16]int64
	nLow := int64(0)
	note := func(what string, rg *ring.Ring, pl ring.Poly) {
		for l, s := range rg.SubRings {
			k := fmt.Sprint(pl.Coeffs[l])
			if o, ok := seen[k]; ok {
				c.Fatalf("%s limb %d equals %s", what, l, o)
			}
			seen[k] = fmt.Sprintf("%s limb %d", what, l)
			q := vh.U(s.Modulus)
			for _, x := range pl.Coeffs[l] {
				if x >= s.Modulus {
					c.Fatalf("%s has an unreduced residue", what)
				}
				unif.add(vh.U(x), q)
				low[x&15]++
				nLow++
			}
		}
	}
	for i := range q1 {
		if i%7 == int(crsPick(crs))%7 || len(q1) < 40 {
			note(fmt.Sprintf("inner element %d", i), p.RingQ(), q1[i])
			note(fmt.Sprintf("inner element %d of the other string", i), p.RingQ(), q3[i])
		} else if same(p.RingQ(), q1[i], q3[i]) {
			c.Fatalf("inner element %d does not depend on the reference string", i)
		}
	}
	for i := range o1 {
		note(fmt.Sprintf("outer element %d", i), p.RingQOut(), o1[i])
		note(fmt.Sprintf("outer element %d of the other string", i), p.RingQOut(), o3[i])
	}
	unif.check(c, "key residues")
	pr := make([]float64, 16)
	for i := range pr {
		pr[i] = 1.0 / 16
	}
	if pv, _, wst := vh.Chi2P(low[:], pr, nLow, 8); pv < vh.PThreshold {
		c.Fatalf("low bits of key residues are uneven: %v (%s)", low, wst)
	}
	c.NonTrivial()
}

func crsPick(b []byte) byte {
	if len(b) == 0 {
		return 0
	}
	return b[0]
}

func TestC19_Keys(t *testing.T) {
	vh.Check(t, 60, 1500, func(c *vh.Ctx) {
		pick(c, keys[e110], keys[e220], keys[e440], keys[e880], keys[ebfv], keys[emult], keys[ejin])
	})
}

// C19 rule: parties built from separate copies of the inputs exchanged a proof.
func interop[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{5, 64, 300, 1024}[c.Int(0, 3, "N")]
	batch := c.Int(1, 2, "batch")
	N, batch = scaled(c, N, batch)
	crs := drawCRS(c, "crs")
	c.Note("N=%d batch=%d crs=%x", N, batch, crs)
	r := c.NewRNG("order")
	var prvs []*jindo.Prover[E]
	var vrfs []*jindo.Verifier[E]
	build := r.N(4)
	mk := func(what int) {
		buf := append([]byte{}, crs...)
		p := jindo.NewParameters[E](N, batch)
		if what == 0 {
			prvs = append(prvs, jindo.NewProver[E](p, buf))
		} else {
			vrfs = append(vrfs, jindo.NewVerifier[E](p, buf))
		}
		for i := range buf {
			buf[i] = ^buf[i]
		}
	}
	for _, w := range [][]int{{0, 1, 0, 1}, {1, 0, 0, 1}, {1, 1, 0, 0}, {0, 0, 1, 1}}[build] {
		mk(w)
	}
	in := &inst[E]{f: f, N: N, batch: batch, crs: crs, params: getParams[E](f, N, batch), prv: prvs[0], vrf: vrfs[0]}
	s := &statement[E]{}
	for i := 0; i < batch; i++ {
		s.vals = append(s.vals, drawPoly(c, in, f.P, fmt.Sprintf("v%d", i)))
		s.v = append(s.v, vh.Vec[E](s.vals[i]))
	}
	s.xBig = drawPoint(c, f.P)
	s.x = vh.FromBig[E](s.xBig)
	for i := range s.v { // each commitment by another prover
		cm, op := prvs[(i+r.N(2))%2].Commit(s.v[i])
		s.com, s.open = append(s.com, cm), append(s.open, op)
	}
	var proofs []string
	for k := range prvs {
		s.y, s.pf = prvs[k].Evaluate(s.x, s.v, s.com, s.open)
		proofs = append(proofs, proofBytes(s.pf))
		for i := range s.y {
			if vh.Big(s.y[i]).Cmp(vh.PolyEval(s.vals[i], s.xBig, f.P)) != 0 {
				c.Fatalf("prover %d: wrong value %d", k, i)
			}
		}
		for l := range vrfs {
			if !vrfs[l].Verify(s.x, s.com, s.y, s.pf) {
				c.Fatalf("verifier %d rejects a proof of prover %d", l, k)
			}
		}
	}
	if proofs[0] != proofs[1] {
		c.Fatalf("two provers evaluate the same openings differently")
	}
	c.NonTrivial()
}

func TestC19_Interop(t *testing.T) {
	vh.Check(t, 60, 2000, func(c *vh.Ctx) {
		pick(c, interop[e110], interop[e220], interop[e440], interop[e880], interop[ebfv], interop[emult], interop[ejin])
	})
}
