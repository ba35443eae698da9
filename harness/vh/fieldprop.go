package vh

import (
	"bytes"
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
)

// limbsToBig reads little-endian limbs.
func limbsToBig(l []uint64) *big.Int {
	x := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Add(x, new(big.Int).SetUint64(l[i]))
	}
	return x
}

// sameEverywhere checks that all representations of e agree with want.
func sameEverywhere[E bignum.Uint[E]](c *Ctx, f Field, e E, want *big.Int, what string) {
	if got := Big(e); got.Cmp(want) != 0 {
		c.Fatalf("%s: %s: BigInt gives %v, want %v", f.Name, what, got, want)
	}
	limbs := make([]uint64, e.Limb())
	for i := range limbs {
		limbs[i] = 0xDEADBEEFDEADBEEF
	}
	e.Slice(limbs)
	if got := limbsToBig(limbs); got.Cmp(want) != 0 {
		c.Fatalf("%s: %s: Slice gives %v, want %v", f.Name, what, got, want)
	}
	m := e.Marshal()
	if got := new(big.Int).SetBytes(m); got.Cmp(want) != 0 || len(m) != 8*e.Limb() {
		c.Fatalf("%s: %s: Marshal gives %v (%d bytes), want %v", f.Name, what, got, len(m), want)
	}
	if got := Big(e); got.Cmp(want) != 0 {
		c.Fatalf("%s: %s: element changed by being read: %v, want %v", f.Name, what, got, want)
	}
}

// FieldProp is the field-arithmetic property: a history of operations on a few
// registers, mirrored in big integers, with random aliasing.
func FieldProp[E bignum.Uint[E]](c *Ctx, f Field) {
	var z E
	p := f.P

	// The modulus itself, as seen through the API.
	m1 := Big(z.New().SetInt64(-1))
	if m1.Add(m1, big.NewInt(1)).Cmp(p) != 0 {
		c.Fatalf("%s: modulus seen through SetInt64(-1) is %v, want %d^%d+1", f.Name, m1, f.B, f.K)
	}
	m1 = Big(z.New().SetBigInt(big.NewInt(-1)))
	if m1.Add(m1, big.NewInt(1)).Cmp(p) != 0 {
		c.Fatalf("%s: modulus seen through SetBigInt(-1) is %v, want %d^%d+1", f.Name, m1, f.B, f.K)
	}
	if l := z.New().Limb(); l != (p.BitLen()+63)/64 {
		c.Fatalf("%s: Limb()=%d for a %d-bit modulus", f.Name, l, p.BitLen())
	}
	if Big(z.New()).Sign() != 0 {
		c.Fatalf("%s: New() is not zero", f.Name)
	}

	const regs = 4
	r := c.NewRNG("regs")
	e := make([]E, regs)
	x := make([]*big.Int, regs)
	for i := range e {
		x[i] = r.Interesting(p)
		e[i] = z.New().SetBigInt(x[i])
	}

	one := big.NewInt(1)
	steps := c.Int(1, 24, "steps")
	nonzeroMul := false
	ops := ""
	for s := 0; s < steps; s++ {
		op := c.Int(0, 16, "op")
		d, a, b := c.Int(0, regs-1, "d"), c.Int(0, regs-1, "a"), c.Int(0, regs-1, "b")
		ops += string(rune('a' + op))
		want := new(big.Int)
		var ret E
		switch op {
		case 0:
			want.Add(x[a], x[b])
			ret = e[d].Add(e[a], e[b])
		case 1:
			want.Sub(x[a], x[b])
			ret = e[d].Sub(e[a], e[b])
		case 2, 3:
			want.Mul(x[a], x[b])
			nonzeroMul = nonzeroMul || want.Sign() != 0
			ret = e[d].Mul(e[a], e[b])
		case 4:
			want.Neg(x[a])
			ret = e[d].Neg(e[a])
		case 5:
			if x[a].Sign() != 0 {
				want.ModInverse(x[a], p)
			}
			ret = e[d].Inverse(e[a])
		case 6:
			want.Set(x[a])
			ret = e[d].Set(e[a])
		case 7:
			v := Pick(c, "i64", int64(0), 1, -1, 2, -2, 1<<31, -1<<31, 1<<62, -1<<62, 1<<63-1, -1<<63, int64(c.U64("iv")))
			want.SetInt64(v)
			ret = e[d].SetInt64(v)
		case 8:
			v := Pick(c, "u64", uint64(0), 1, 1<<63, 1<<64-1, c.U64("uv"))
			want.SetUint64(v)
			ret = e[d].SetUint64(v)
		case 9:
			v := r.Big(new(big.Int).Lsh(one, uint(1+r.N(3*p.BitLen()))))
			switch r.N(4) {
			case 0:
				v.Neg(v)
			case 1:
				v.Mul(p, big.NewInt(int64(r.N(7))-3))
				v.Add(v, big.NewInt(int64(r.N(3))-1))
			}
			keep := new(big.Int).Set(v)
			ret = e[d].SetBigInt(v)
			if keep.Cmp(v) != 0 {
				c.Fatalf("%s: SetBigInt modified its argument %v -> %v", f.Name, keep, v)
			}
			want.Set(v)
		case 10:
			n := Pick(c, "blen", 0, 1, 8, 16, 32, 8*z.New().Limb()-1, 8*z.New().Limb(), 8*z.New().Limb()+1, 200)
			bs := make([]byte, n)
			if r.N(3) == 0 {
				for i := range bs {
					bs[i] = 0xff
				}
			} else {
				for i := range bs {
					bs[i] = byte(r.U64())
				}
			}
			keep := bytes.Clone(bs)
			ret = e[d].SetBytes(bs)
			if !bytes.Equal(keep, bs) {
				c.Fatalf("%s: SetBytes modified its argument", f.Name)
			}
			want.SetBytes(bs)
		case 11:
			want.Set(x[a])
			m := e[a].Marshal()
			e[d].Unmarshal(m)
			ret = e[d]
		case 12:
			k := Pick(c, "exp", uint64(0), 1, 2, 3, 1<<63, 1<<64-1, c.U64("ev")%1024, c.U64("ev2"))
			want.Exp(x[a], new(big.Int).SetUint64(k), p)
			if k == 0 {
				want.SetUint64(1)
			}
			keep := new(big.Int).Set(x[a])
			q := bignum.Exp(e[a], k)
			if Big(e[a]).Cmp(keep) != 0 {
				c.Fatalf("%s: Exp modified its base", f.Name)
			}
			ret = e[d].Set(q)
			// the result must be detached from the base
			q.SetUint64(12345)
			if Big(e[a]).Cmp(keep) != 0 && a != d {
				c.Fatalf("%s: Exp result aliases its base", f.Name)
			}
		case 13:
			ret = e[d].MustSetRandom()
			want.Set(Big(e[d]))
			if want.Sign() < 0 || want.Cmp(p) >= 0 {
				c.Fatalf("%s: random element %v out of range", f.Name, want)
			}
		case 14:
			// compare two registers
			if got, w := e[a].Cmp(e[b]), x[a].Cmp(x[b]); got != w {
				c.Fatalf("%s: Cmp(%v,%v)=%d", f.Name, x[a], x[b], got)
			}
			if got := e[a].Cmp(e[a].New().Set(e[a])); got != 0 {
				c.Fatalf("%s: Cmp of equal values is %d", f.Name, got)
			}
			want.Set(x[d])
			ret = e[d]
		case 15:
			// replace by a fresh copy: later writes must not leak back
			old := e[d]
			e[d] = z.New().Set(old)
			old.SetInt64(-7)
			want.Set(x[d])
			ret = e[d]
		case 16:
			// distributivity as an independent identity: (a+b)*a = a*a + b*a
			l := z.New().Add(e[a], e[b])
			l.Mul(l, e[a])
			rr := z.New().Mul(e[a], e[a])
			t := z.New().Mul(e[b], e[a])
			rr.Add(rr, t)
			if l.Cmp(rr) != 0 {
				c.Fatalf("%s: distributivity fails for %v, %v", f.Name, x[a], x[b])
			}
			want.Set(Big(l))
			ret = e[d].Set(l)
		}
		want.Mod(want, p)
		x[d] = want
		if Big(ret).Cmp(want) != 0 {
			c.Fatalf("%s: op %d: returned element is %v, want %v", f.Name, op, Big(ret), want)
		}
		for i := range e {
			sameEverywhere(c, f, e[i], x[i], "after op "+string(rune('a'+op)))
		}
	}
	c.Note("ops=%s", ops)
	if nonzeroMul {
		c.NonTrivial()
	}
}
