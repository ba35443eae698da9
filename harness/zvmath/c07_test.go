package zvmath

import (
	"bytes"
	"math"
	"math/bits"
	"testing"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

func drawSeed(c *vh.Ctx, l string) []byte {
	switch c.Int(0, 4, l+".kind") {
	case 0:
		return c.Bytes(0, 4, l)
	case 1:
		return c.Bytes(16, 64, l)
	case 2:
		return make([]byte, c.Int(0, 200, l))
	case 3:
		r := c.NewRNG(l)
		b := make([]byte, c.Int(65, 3000, l+".len"))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	default:
		return nil
	}
}

// C07 rule: the history mixes at least two kinds of calls or crosses the internal buffer several times.
func TestC07_SeedDetermined(t *testing.T) {
	vh.Check(t, 4000, 60000, func(c *vh.Ctx) {
		seed := drawSeed(c, "seed")
		keep := bytes.Clone(seed)
		mut := bytes.Clone(seed)
		a := csprng.NewUniformSamplerWithSeed(seed)
		b := csprng.NewUniformSamplerWithSeed(mut)
		for i := range mut {
			mut[i] ^= 0x5A // a later change of the caller's buffer has no effect
		}
		steps := c.SmallInt(1, 40, "steps")
		kinds := map[int]bool{}
		total := 0
		r := c.NewRNG("hist")
		for s := 0; s < steps; s++ {
			k := r.N(5)
			kinds[k] = true
			switch k {
			case 0:
				m := 1 + r.N(1200)
				total += 8 * m
				for i := 0; i < m; i++ {
					if x, y := a.Sample(), b.Sample(); x != y {
						c.Fatalf("step %d: Sample %d differs: %x %x", s, i, x, y)
					}
				}
			case 1:
				n := r.U64() >> uint(r.N(64))
				if n == 0 {
					n = 1
				}
				x, y := a.SampleN(n), b.SampleN(n)
				if x != y || x >= n {
					c.Fatalf("step %d: SampleN(%d) = %d, %d", s, n, x, y)
				}
			case 2:
				x, y := a.SampleFloat(), b.SampleFloat()
				if x != y || !(x >= 0 && x < 1) {
					c.Fatalf("step %d: SampleFloat = %v, %v", s, x, y)
				}
			default:
				m := r.N(400)
				if r.N(5) == 0 {
					m = r.N(20000)
				}
				total += m
				p, q := make([]byte, m), make([]byte, m)
				for i := range q {
					q[i] = byte(r.U64()) // the destination's previous contents must not matter
				}
				np, e1 := a.Read(p)
				nq, e2 := b.Read(q)
				if np != m || nq != m || e1 != nil || e2 != nil {
					c.Fatalf("Read returned %d,%v %d,%v for %d bytes", np, e1, nq, e2, m)
				}
				if !bytes.Equal(p, q) {
					c.Fatalf("step %d: Read(%d bytes) depends on the buffer's previous contents", s, m)
				}
			}
		}
		if !bytes.Equal(seed, keep) {
			c.Fatalf("seed modified")
		}
		c.Note("seed=%d bytes, steps=%d, kinds=%d, bytes=%d", len(seed), steps, len(kinds), total)
		if len(kinds) >= 2 || total > 20000 {
			c.NonTrivial()
		}
	})
}

func TestC07_ReadChunking(t *testing.T) {
	vh.Check(t, 1500, 20000, func(c *vh.Ctx) {
		seed := drawSeed(c, "seed")
		total := c.Int(1, 30000, "total")
		whole := make([]byte, total)
		csprng.NewUniformSamplerWithSeed(seed).Read(whole)
		s := csprng.NewUniformSamplerWithSeed(seed)
		got := make([]byte, 0, total)
		r := c.NewRNG("chunks")
		n := 0
		for len(got) < total {
			m := r.N(1 + r.N(5000))
			m = min(m, total-len(got))
			p := make([]byte, m)
			for i := range p {
				p[i] = byte(i)
			}
			s.Read(p)
			got = append(got, p...)
			n++
		}
		if !bytes.Equal(got, whole) {
			c.Fatalf("%d bytes read in %d chunks differ from one read", total, n)
		}
		c.Note("seed=%d bytes total=%d chunks=%d", len(seed), total, n)
		if n > 2 {
			c.NonTrivial()
		}
	})
}

func hamming(a, b []byte) int {
	d := 0
	for i := range a {
		d += bits.OnesCount8(a[i] ^ b[i])
	}
	return d
}

func TestC07_SeedsSeparate(t *testing.T) {
	vh.Check(t, 3000, 40000, func(c *vh.Ctx) {
		seed := drawSeed(c, "seed")
		other := bytes.Clone(seed)
		kind := c.Int(0, 4, "kind")
		if len(seed) == 0 && kind > 1 {
			kind = c.Int(0, 1, "kind0")
		}
		switch kind {
		case 0:
			other = append(other, 0)
		case 1:
			other = append(make([]byte, 1), other...)
			if bytes.Equal(other[1:], seed) && len(bytes.Trim(seed, "\x00")) == 0 {
				other = append(other, 1)
			}
		case 2:
			i := c.Int(0, len(seed)-1, "i")
			other[i] ^= 1 << c.Int(0, 7, "bit")
		case 3:
			other[len(seed)-1] ^= 0x80
		case 4:
			other = other[:len(seed)-1]
		}
		c.Note("seed=%d bytes kind=%d", len(seed), kind)
		const m = 16384
		p, q := make([]byte, m), make([]byte, m)
		a, b := csprng.NewUniformSamplerWithSeed(seed), csprng.NewUniformSamplerWithSeed(other)
		if c.Bool("read") {
			a.Read(p)
			b.Read(q)
		} else {
			for i := 0; i < m; i += 8 {
				x, y := a.Sample(), b.Sample()
				for k := 0; k < 8; k++ {
					p[i+k], q[i+k] = byte(x>>(8*k)), byte(y>>(8*k))
				}
			}
		}
		n := float64(8 * m)
		z := (float64(hamming(p, q)) - n/2) / math.Sqrt(n/4)
		if pv := vh.NormalP(z); pv < vh.PThreshold {
			c.Fatalf("streams of different seeds are related: z=%.1f", z)
		}
		// within one stream: shifted against itself
		half := m / 2
		z = (float64(hamming(p[:half], p[half:])) - n/4) / math.Sqrt(n/8)
		if pv := vh.NormalP(z); pv < vh.PThreshold {
			c.Fatalf("stream halves are related: z=%.1f", z)
		}
		c.NonTrivial()
	})
}

func TestC07_UnseededIndependent(t *testing.T) {
	vh.Check(t, 300, 3000, func(c *vh.Ctx) {
		a, b := csprng.NewUniformSampler(), csprng.NewUniformSampler()
		seen := map[uint64]bool{}
		n := c.Int(1100, 6000, "n")
		for i := 0; i < n; i++ {
			for _, x := range []uint64{a.Sample(), b.Sample()} {
				if seen[x] {
					c.Fatalf("64-bit value repeated within %d samples of two samplers", i)
				}
				seen[x] = true
			}
		}
		c.Note("n=%d", n)
		c.NonTrivial()
	})
}

func TestC07_BoundedUniform(t *testing.T) {
	vh.Check(t, 160, 2500, func(c *vh.Ctx) {
		s := csprng.NewUniformSamplerWithSeed(drawSeed(c, "seed"))
		r := c.NewRNG("n")
		var n uint64
		switch c.Int(0, 5, "kind") {
		case 0:
			n = uint64(1 + r.N(300))
		case 1:
			n = 1<<63 + r.U64()>>uint(1+r.N(60))
		case 2:
			n = math.MaxUint64 - uint64(r.N(3))
		case 3:
			n = 1 << uint(r.N(64))
		case 4:
			n = 3 << uint(r.N(63))
		default:
			n = r.U64()>>uint(r.N(40)) | 1
		}
		c.Note("n=%d", n)
		const N = 60000
		cells := uint64(48)
		if n < cells {
			cells = n
		}
		counts := make([]int64, cells)
		probs := make([]float64, cells)
		low := make([]int64, 2)
		// small residues, and the position of x*2^64 modulo n, in which a scaled word is biased
		mods := [...]uint64{3, 5, 7, 16, 31}
		res := make([][]int64, len(mods))
		for i, m := range mods {
			res[i] = make([]int64, m)
		}
		scaled := make([]int64, 48)
		for i := 0; i < N; i++ {
			x := s.SampleN(n)
			if x >= n {
				c.Fatalf("SampleN(%d) = %d", n, x)
			}
			hi, lo := bits.Mul64(x, cells)
			k, _ := bits.Div64(hi%n, lo, n)
			counts[k]++
			low[x&1]++
			for i, m := range mods {
				res[i][x%m]++
			}
			_, rem := bits.Div64(x, 0, n)
			hi, lo = bits.Mul64(rem, 48)
			k, _ = bits.Div64(hi%n, lo, n)
			scaled[k]++
		}
		for i := range probs {
			probs[i] = 1 / float64(cells)
			if n < 1<<20 { // exact cell sizes
				lo, hi := (uint64(i)*n+cells-1)/cells, (uint64(i+1)*n+cells-1)/cells
				probs[i] = float64(hi-lo) / float64(n)
			}
		}
		if p, dof, w := vh.Chi2P(counts, probs, N, 20); p < vh.PThreshold {
			c.Fatalf("SampleN(%d) is not uniform: p=%.2g dof=%d %s", n, p, dof, w)
		}
		if n > 1<<20 || n%2 == 0 {
			if p, _, w := vh.Chi2P(low, []float64{0.5, 0.5}, N, 20); p < vh.PThreshold {
				c.Fatalf("SampleN(%d): low bit biased: %s", n, w)
			}
		}
		for i, m := range mods {
			if n < 1<<40 && n%m != 0 {
				continue
			}
			u := make([]float64, m)
			for j := range u {
				u[j] = 1 / float64(m)
			}
			if p, dof, w := vh.Chi2P(res[i], u, N, 20); p < vh.PThreshold {
				c.Fatalf("SampleN(%d) is not uniform modulo %d: p=%.2g dof=%d %s", n, m, p, dof, w)
			}
		}
		if n>>uint(bits.TrailingZeros64(n)) > 1<<24 {
			u := make([]float64, 48)
			for j := range u {
				u[j] = 1.0 / 48
			}
			if p, dof, w := vh.Chi2P(scaled, u, N, 20); p < vh.PThreshold {
				c.Fatalf("SampleN(%d) favours some values (position of x*2^64 modulo n): p=%.2g dof=%d %s", n, p, dof, w)
			}
		}
		if n > 1 {
			c.NonTrivial()
		}
	})
}

func TestC07_WordsAndFloatsUniform(t *testing.T) {
	vh.Check(t, 40, 600, func(c *vh.Ctx) {
		s := csprng.NewUniformSamplerWithSeed(drawSeed(c, "seed"))
		const N = 150000
		var ones [64]int64
		var fones [52]int64
		bytesHist := make([]int64, 256)
		fhist := make([]int64, 256)
		var prev uint64
		var trans int64
		for i := 0; i < N; i++ {
			x := s.Sample()
			for b := 0; b < 64; b++ {
				ones[b] += int64(x >> b & 1)
			}
			for b := 0; b < 64; b += 8 {
				bytesHist[byte(x>>b)]++
			}
			trans += int64(bits.OnesCount64(x ^ prev))
			prev = x
			f := s.SampleFloat()
			if !(f >= 0 && f < 1) {
				c.Fatalf("SampleFloat = %v", f)
			}
			fhist[int(f*256)]++
			m := uint64(f * (1 << 52))
			for b := 0; b < 52; b++ {
				fones[b] += int64(m >> b & 1)
			}
		}
		u := make([]float64, 256)
		for i := range u {
			u[i] = 1.0 / 256
		}
		if p, _, w := vh.Chi2P(bytesHist, u, 8*N, 20); p < vh.PThreshold {
			c.Fatalf("bytes of Sample are not uniform: %s", w)
		}
		if p, _, w := vh.Chi2P(fhist, u, N, 20); p < vh.PThreshold {
			c.Fatalf("SampleFloat is not uniform: %s", w)
		}
		sd := math.Sqrt(N) / 2
		for b, o := range ones {
			if vh.NormalP((float64(o)-N/2)/sd) < vh.PThreshold {
				c.Fatalf("bit %d of Sample is set in %d of %d samples", b, o, N)
			}
		}
		for b, o := range fones {
			if vh.NormalP((float64(o)-N/2)/sd) < vh.PThreshold {
				c.Fatalf("bit %d of SampleFloat is set in %d of %d samples", b, o, N)
			}
		}
		if z := (float64(trans) - 32*N) / (math.Sqrt(64*N) / 2); vh.NormalP(z) < vh.PThreshold {
			c.Fatalf("successive samples correlate: z=%.1f", z)
		}
		c.Note("N=%d", N)
		c.NonTrivial()
	})
}
