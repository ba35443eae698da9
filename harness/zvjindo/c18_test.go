package zvjindo

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// moments accumulates normalised samples of a centered law.
type moments struct {
	n              int
	s1, s2, s4, mx float64
	zeros          int
}

func (m *moments) add(x float64) {
	m.n++
	m.s1 += x
	m.s2 += x * x
	m.s4 += x * x * x * x
	m.mx = math.Max(m.mx, math.Abs(x))
}

// check fails unless the samples look like n draws of a normal law of unit width.
// corr is the variance inflation of the sum caused by known dependence between samples.
func (m *moments) check(c *vh.Ctx, what string) {
	if m.n < 250 {
		return
	}
	n := float64(m.n)
	if z := m.s1 / math.Sqrt(n); vh.NormalP(z/1.5) < vh.PThreshold {
		c.Fatalf("%s: mean %.4f widths over %d coefficients", what, m.s1/n, m.n)
	}
	v := m.s2 / n
	// neighbouring coefficients are weakly dependent; 1.5 covers it
	if z := (v - 1) / math.Sqrt(2/n); vh.NormalP(z/1.5) < vh.PThreshold {
		c.Fatalf("%s: the standard deviation is %.4f of the prescribed one over %d coefficients", what, math.Sqrt(v), m.n)
	}
	if k := m.s4 / n; vh.NormalP((k-3)/math.Sqrt(96/n)/2) < vh.PThreshold {
		c.Fatalf("%s: fourth moment %.3f over %d coefficients", what, k, m.n)
	}
	if m.mx > 10 {
		c.Fatalf("%s: a coefficient of %.1f widths", what, m.mx)
	}
}

// bins16 collects residues by their leading bits.
type bins16 struct {
	o [16]int64
	n int64
}

func (b *bins16) add(x, p *big.Int) {
	k := new(big.Int).Lsh(x, 4)
	b.o[k.Div(k, p).Int64()]++
	b.n++
}

func (b *bins16) check(c *vh.Ctx, what string) {
	if b.n < 160 {
		return
	}
	pr := make([]float64, 16)
	for i := range pr {
		pr[i] = 1.0 / 16
	}
	if pv, _, w := vh.Chi2P(b.o[:], pr, b.n, 8); pv < vh.PThreshold {
		c.Fatalf("%s: %d residues are not spread evenly: %v (%s, p=%g)", what, b.n, b.o, w, pv)
	}
}

func floats(v []*big.Int, scale float64) []float64 {
	out := make([]float64, len(v))
	for i := range v {
		f, _ := new(big.Float).SetInt(v[i]).Float64()
		out[i] = f / scale
	}
	return out
}

func correlation(a, b []float64) float64 {
	var s, x, y float64
	for i := range a {
		s += a[i] * b[i]
		x += a[i] * a[i]
		y += b[i] * b[i]
	}
	if x == 0 || y == 0 {
		return 1
	}
	return s / math.Sqrt(x*y) * math.Sqrt(float64(len(a)))
}

// C18 rule: two commitments to one polynomial were compared and their widths measured.
func randomised[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{5, 64, 300, 1024}[c.Int(0, 3, "N")]
	if c.Int(0, 15, "long") == 0 {
		N = vh.Pick(c, "N.long", 4096, 8192, 16384)
	}
	in := getInst[E](f, N, 1, "Jindo!")
	p := in.params
	rq, ro := p.RingQ(), p.RingQOut()
	n := p.Cols() * p.Slots()
	full := c.Int(0, 3, "full") > 0
	ln := p.Rank()
	if !full {
		ln = c.Int(0, p.Rank(), "len")
	}
	vals := c.VecStyle(ln, f.P, "v")
	c.Note("N=%d len=%d rows=%d cols=%d", N, ln, p.Rows(), p.Cols())
	v := vh.Vec[E](vals)
	used := func(i int) bool { return i == 0 || i == p.Rows()-1 || i*n < ln }

	const reps = 3
	var coms []*jindo.Commitment
	var opens []*jindo.Opening
	prv := in.prv
	for k := 0; k < reps; k++ {
		if k == 2 {
			prv = prv.SafeCopy()
		}
		cm, op := prv.Commit(v)
		coms, opens = append(coms, cm), append(opens, op)
	}
	// freshness: nothing repeats, within and across
	seen := map[string]string{}
	fresh := func(what string, r *ring.Ring, a ring.Poly) {
		k := fmt.Sprint(len(r.SubRings)) + string(polyBytes(limbs(r, a)))
		if o, ok := seen[k]; ok {
			c.Fatalf("%s equals %s", what, o)
		}
		seen[k] = what
	}
	for k := range opens {
		for i := range coms[k].Value {
			fresh(fmt.Sprintf("commitment %d value %d", k, i), ro, coms[k].Value[i])
		}
		for i := range opens[k].InCommit {
			fresh(fmt.Sprintf("commitment %d inner %d", k, i), ro, opens[k].InCommit[i])
		}
		for j := range opens[k].Encode {
			for i := range opens[k].Encode[j] {
				if used(i) && (j == p.Cols() || i == 0 || i == p.Rows()-1 || i*n+j*p.Slots() < ln) {
					fresh(fmt.Sprintf("commitment %d row %d column %d", k, i, j), rq, opens[k].Encode[j][i])
				}
			}
			for i := range opens[k].MLWE[j] {
				fresh(fmt.Sprintf("commitment %d hiding term %d column %d", k, i, j), rq, opens[k].MLWE[j][i])
			}
		}
	}
	// widths
	b := float64(p.Base())
	type class struct {
		name string
		sd   float64
	}
	m := map[string]*moments{}
	get := func(name string) *moments {
		if m[name] == nil {
			m[name] = &moments{}
		}
		return m[name]
	}
	var maskDec, lastDec, firstDec bins16
	var hid [][]float64
	for k := range opens {
		for j := range opens[k].Encode {
			for i := range opens[k].Encode[j] {
				if !used(i) || (j < p.Cols() && i > 0 && i < p.Rows()-1 && i*n+j*p.Slots() >= ln) {
					continue
				}
				sd, name := p.EcdStdDev(), "encodings"
				switch {
				case j == p.Cols() && i == 0:
					sd, name = p.MaskBlindStdDev(), "blinding row of the mask"
				case j == p.Cols():
					sd, name = p.MaskStdDev(), "mask encodings"
				case i == 0:
					sd, name = p.EcdBlindStdDev(), "blinding row"
				case i == p.Rows()-1:
					name = "last row"
				}
				co := coeffsOf(rq, opens[k].Encode[j][i])
				for _, x := range floats(co, sd*math.Sqrt(b*b+1)) {
					get(name).add(x)
				}
				d := decode(p, co, f.P)
				for s := range d {
					switch {
					case j == p.Cols():
						maskDec.add(d[s], f.P)
					case i == p.Rows()-1 && j*p.Slots()+s < n-1:
						lastDec.add(d[s], f.P)
					case i == 0 && j*p.Slots()+s > 0:
						firstDec.add(d[s], f.P)
					}
				}
			}
			sd, name := p.MLWEStdDev(), "hiding terms"
			if j == p.Cols() {
				sd, name = math.Sqrt(p.MaskMLWEStdDev()*p.MaskMLWEStdDev()+1.0/12), "hiding mask"
			}
			for i := range opens[k].MLWE[j] {
				x := floats(coeffsOf(rq, opens[k].MLWE[j][i]), sd)
				for _, y := range x {
					get(name).add(y)
				}
				if i < 4 {
					hid = append(hid, x)
				}
			}
		}
	}
	for name, mm := range m {
		mm.check(c, name)
	}
	for i := range hid {
		for j := 0; j < i; j++ {
			if z := correlation(hid[i], hid[j]); math.Abs(z) > 8 {
				c.Fatalf("hiding terms are correlated (z=%.1f)", z)
			}
		}
	}
	maskDec.check(c, "values of the mask column")
	lastDec.check(c, "values of the blinding row")
	firstDec.check(c, "values of the blinded first row")
	c.NonTrivial()
}

func TestC18_Randomised(t *testing.T) {
	vh.Check(t, 130, 4000, func(c *vh.Ctx) {
		pick(c, randomised[e110], randomised[e220], randomised[e440], randomised[e880], randomised[ebfv], randomised[emult], randomised[ejin])
	})
}

// Responses to one point reveal nothing: their values are uniform and their noise masked,
// however the committed polynomial looks.
func maskedResponses[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	N := []int{64, 300, 1024}[c.Int(0, 2, "N")]
	batch := c.Int(1, 2, "batch")
	switch c.Int(0, 15, "scale") {
	case 0:
		N, batch = vh.Pick(c, "N.long", 4096, 8192, 16384), 1
	case 1:
		N, batch = 5, vh.Pick(c, "batch.many", 5, 9, 17, 33)
	}
	in := getInst[E](f, N, batch, "Jindo!")
	p := in.params
	rq := p.RingQ()
	c.Note("N=%d batch=%d", N, batch)
	var v [][]E
	for i := 0; i < batch; i++ {
		v = append(v, vh.Vec[E](c.VecStyle(p.Rank(), f.P, "v")))
	}
	x := drawPoint(c, f.P)
	if x.Sign() == 0 {
		x.SetInt64(1)
	}
	var encDec, partDec bins16
	rows := make([]moments, p.Rows())
	var hid moments
	b := float64(p.Base())
	for k := 0; k < 3; k++ {
		s := &statement[E]{v: v}
		s.commit(in.prv)
		_, pf := in.prv.Evaluate(vh.FromBig[E](x), v, s.com, s.open)
		for i := range pf.Encode {
			co := coeffsOf(rq, pf.Encode[i])
			for _, d := range decode(p, co, f.P) {
				encDec.add(d, f.P)
			}
			sd := p.MaskStdDev()
			if i == 0 {
				sd = p.MaskBlindStdDev()
			}
			for _, y := range floats(co, sd*math.Sqrt(b*b+1)) {
				rows[i].add(y)
			}
		}
		for i := range pf.MLWE {
			for _, y := range floats(coeffsOf(rq, pf.MLWE[i]), p.MaskMLWEStdDev()) {
				hid.add(y)
			}
		}
		for i := range pf.Partial {
			for _, d := range decode(p, coeffsOf(rq, pf.Partial[i]), f.P) {
				partDec.add(d, f.P)
			}
		}
		for _, d := range decode(p, coeffsOf(rq, pf.PartialMask), f.P) {
			partDec.add(d, f.P)
		}
	}
	encDec.check(c, "values of the responses")
	partDec.check(c, "values of the partial evaluations")
	for i := range rows {
		// at least the width of the mask (for batches: of a multiple of it)
		if n := float64(rows[i].n); rows[i].s2/n < 1-10*math.Sqrt(2/n) {
			c.Fatalf("response of row %d has width %.3f of its mask", i, math.Sqrt(rows[i].s2/n))
		}
	}
	if n := float64(hid.n); hid.s2/n < 1-10*math.Sqrt(2/n) {
		c.Fatalf("hiding responses have width %.3f of their mask", math.Sqrt(hid.s2/n))
	}
	c.NonTrivial()
}

func TestC18_MaskedResponses(t *testing.T) {
	vh.Check(t, 120, 4000, func(c *vh.Ctx) {
		pick(c, maskedResponses[e110], maskedResponses[e220], maskedResponses[e440], maskedResponses[e880], maskedResponses[ebfv], maskedResponses[emult], maskedResponses[ejin])
	})
}
