package vh

import (
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
)

// Field describes a shipped modulus b^k+1, independently of the code under test.
type Field struct {
	Name string
	B    uint64
	K    int
	P    *big.Int
}

func mkField(name string, b uint64, k int) Field {
	p := new(big.Int).Exp(new(big.Int).SetUint64(b), big.NewInt(int64(k)), nil)
	p.Add(p, big.NewInt(1))
	return Field{name, b, k, p}
}

// The shipped moduli.
var (
	F110  = mkField("zp110", 12640, 8)
	F220  = mkField("zp220", 13216, 16)
	F440  = mkField("zp440", 13512, 32)
	F880  = mkField("zp880", 13694, 64)
	FBFV  = mkField("bfv", 31432, 16)
	FMult = mkField("mult", 60256, 8)
	FJin  = mkField("jindo", 60272, 16)
)

// FromBig makes a new element from an integer.
func FromBig[E bignum.Uint[E]](x *big.Int) E {
	var z E
	return z.New().SetBigInt(x)
}

// Big returns the canonical residue of e.
func Big[E bignum.Uint[E]](e E) *big.Int { return e.BigInt(new(big.Int)) }

// Vec converts integers to elements.
func Vec[E bignum.Uint[E]](v []*big.Int) []E {
	out := make([]E, len(v))
	for i := range v {
		out[i] = FromBig[E](v[i])
	}
	return out
}

// Bigs converts elements to integers.
func Bigs[E bignum.Uint[E]](v []E) []*big.Int {
	out := make([]*big.Int, len(v))
	for i := range v {
		out[i] = Big(v[i])
	}
	return out
}

// Clone copies a vector of elements.
func Clone[E bignum.Uint[E]](v []E) []E {
	out := make([]E, len(v))
	for i := range v {
		out[i] = v[i].New().Set(v[i])
	}
	return out
}

// EqBigs compares two integer vectors.
func EqBigs(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// EqVec compares two element vectors as residues.
func EqVec[E bignum.Uint[E]](a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// VecStyle draws how a residue vector is filled and returns the filler's result.
func (c *Ctx) VecStyle(n int, p *big.Int, label string) []*big.Int {
	r := c.NewRNG(label + ".seed")
	style := Pick(c, label+".style", "zero", "const", "unit", "sparse", "interesting", "random", "max", "small")
	c.Note("%s=%s", label, style)
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	switch style {
	case "const":
		x := r.Interesting(p)
		for i := range out {
			out[i].Set(x)
		}
	case "unit":
		if n > 0 {
			out[r.N(n)].Set(r.Interesting(p))
		}
	case "sparse":
		for i := range out {
			if r.N(4) == 0 {
				out[i].Set(r.Interesting(p))
			}
		}
	case "interesting":
		for i := range out {
			out[i].Set(r.Interesting(p))
		}
	case "random":
		for i := range out {
			out[i].Set(r.Big(p))
		}
	case "max":
		for i := range out {
			out[i].Sub(p, big.NewInt(1))
		}
	case "small":
		for i := range out {
			out[i].Mod(big.NewInt(int64(r.N(7))-3), p)
		}
	}
	return out
}
