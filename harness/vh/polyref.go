package vh

import "math/big"

// PolyMulInt multiplies two integer polynomials with coefficients in [0, p) by
// Kronecker substitution; the result has len(a)+len(b)-1 coefficients.
func PolyMulInt(a, b []*big.Int, p *big.Int) []*big.Int {
	n := len(a) + len(b) - 1
	words := (2*p.BitLen()+64+63)/64 + 1
	pack := func(v []*big.Int) *big.Int {
		bits := make([]big.Word, words*len(v))
		for i, x := range v {
			copy(bits[i*words:], x.Bits())
		}
		return new(big.Int).SetBits(bits)
	}
	prod := new(big.Int).Mul(pack(a), pack(b)).Bits()
	out := make([]*big.Int, n)
	for i := range out {
		lo, hi := i*words, (i+1)*words
		w := make([]big.Word, words)
		if lo < len(prod) {
			copy(w, prod[lo:min(hi, len(prod))])
		}
		out[i] = new(big.Int).SetBits(w)
	}
	return out
}

// RingMul multiplies modulo X^n - 1 (sign=+1) or X^n + 1 (sign=-1) and p.
func RingMul(a, b []*big.Int, sign int, p *big.Int) []*big.Int {
	n := len(a)
	full := PolyMulInt(a, b, p)
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int).Set(full[i])
		if i+n < len(full) {
			if sign > 0 {
				out[i].Add(out[i], full[i+n])
			} else {
				out[i].Sub(out[i], full[i+n])
			}
		}
		out[i].Mod(out[i], p)
	}
	return out
}

// PolyEval evaluates a coefficient vector at x modulo p (Horner).
func PolyEval(a []*big.Int, x, p *big.Int) *big.Int {
	z := new(big.Int)
	for i := len(a) - 1; i >= 0; i-- {
		z.Mul(z, x)
		z.Add(z, a[i])
		z.Mod(z, p)
	}
	return z
}

// U makes a big integer of a word.
func U(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
