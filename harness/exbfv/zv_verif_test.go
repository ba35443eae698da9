package main

import (
	"io"
	"math/big"
	"os"
	"strings"
	"testing"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/examples/bfv/zp"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

func TestMain(m *testing.M) { os.Exit(vh.Main(m)) }

type zvU = *zp.Uint

func TestC37_BFVProgram(t *testing.T) {
	vh.Check(t, 1, 20, func(c *vh.Ctx) {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		old := os.Stdout
		os.Stdout = w
		out := make(chan string)
		go func() { b, _ := io.ReadAll(r); out <- string(b) }()
		func() {
			defer func() { os.Stdout = old; w.Close() }()
			main()
		}()
		if s := <-out; !strings.Contains(s, "Verification result: true") {
			c.Fatalf("the example prints:\n%s", s)
		}
		c.NonTrivial()
	})
}

// The relation of the example: c0 = -c1*s + delta*m + e with |m| < t and |e| bounded by N+t, for
// ciphertexts that were encrypted under some larger Q and switched to the field.
func TestC37_BFV(t *testing.T) {
	p := zp.Modulus()
	one := big.NewInt(1)
	vh.Check(t, 14, 500, func(c *vh.Ctx) {
		maxLog := 9
		if vh.Thorough() {
			maxLog = 13
		}
		N := 1 << c.Int(1, maxLog, "log rank")
		r := c.NewRNG("case")
		pt := []uint64{2, 3, 17, 256, 257, 65537, 2 + r.U64()%(1<<20)}[c.Int(0, 6, "t")]
		T := new(big.Int).SetUint64(pt)
		Q := new(big.Int).Lsh(one, uint(p.BitLen()+c.Int(8, 80, "log Q/p")))
		Q.Add(Q, r.Big(Q))
		for new(big.Int).GCD(nil, nil, Q, T).Cmp(one) != 0 {
			Q.Add(Q, one)
		}
		c.Note("N=%d t=%d Q=%v", N, pt, Q)
		ev := bigpoly.NewCyclotomicEvaluator[zvU](N)

		// encrypt modulo Q
		sk, msg, c1 := make([]*big.Int, N), make([]*big.Int, N), make([]*big.Int, N)
		for i := range sk {
			sk[i] = big.NewInt(int64(r.N(3) - 1))
			msg[i] = new(big.Int).SetUint64(r.U64() % pt)
			if msg[i].Uint64() > pt/2 {
				msg[i].Sub(msg[i], T)
			}
			c1[i] = r.Big(Q)
		}
		tInv := new(big.Int).ModInverse(T, Q)
		c0 := zvMul(c1, sk, Q)
		for i := range c0 {
			c0[i].Neg(c0[i])
			c0[i].Add(c0[i], new(big.Int).Mul(tInv, msg[i]))
			c0[i].Add(c0[i], big.NewInt(int64(r.N(41)-20)))
			c0[i].Mod(c0[i], Q)
			if r.N(2) == 0 && c0[i].Cmp(new(big.Int).Rsh(Q, 1)) > 0 { // centred or not
				c0[i].Sub(c0[i], Q)
			}
		}
		ct := [2]*bigpoly.Poly[zvU]{ev.ModSwitch(c0, Q), ev.ModSwitch(c1, Q)}
		delta := new(big.Int).Mul(tInv, p)
		delta.Div(delta, Q)
		bound := uint64(N) + pt

		poly := func(v []*big.Int) *bigpoly.Poly[zvU] {
			q := ev.NewPoly(false)
			copy(q.Coeffs, vh.Vec[zvU](v))
			return q
		}
		b0, b1 := vh.Bigs(ct[0].Coeffs), vh.Bigs(ct[1].Coeffs)
		// errOf recomputes the error that makes the equation true
		errOf := func(m []*big.Int) []*big.Int {
			e := zvMul(b1, sk, p)
			for i := range e {
				e[i].Add(e[i], b0[i])
				e[i].Sub(e[i], new(big.Int).Mul(delta, m[i]))
				e[i].Mod(e[i], p)
				if e[i].Cmp(new(big.Int).Rsh(p, 1)) > 0 {
					e[i].Sub(e[i], p)
				}
			}
			return e
		}
		// the ciphertext part that makes the equation true
		bodyOf := func(m, e []*big.Int) []*big.Int {
			b := zvMul(b1, sk, p)
			for i := range b {
				b[i].Sub(new(big.Int).Add(new(big.Int).Mul(delta, m[i]), e[i]), b[i])
				b[i].Mod(b[i], p)
			}
			return b
		}
		e := errOf(msg)
		for i := range e {
			if new(big.Int).Abs(e[i]).Cmp(new(big.Int).SetUint64(bound)) > 0 {
				c.Fatalf("after modulus switching, the error %v is above the bound %d of the example", e[i], bound)
			}
		}
		crs := c.Bytes(0, 40, "crs")
		cc := func() *CiphertextCircuit[zvU] {
			return &CiphertextCircuit[zvU]{NTTChecker: buckler.NewNTTChecker[zvU](N), Degree: N, PlaintextModulus: pt, Delta: new(big.Int).Set(delta), ErrBound: bound}
		}
		prv, _, err := buckler.Compile(N, cc(), crs)
		if err != nil {
			c.Fatalf("the circuit does not compile: %v", err)
		}
		_, vrf, err := buckler.Compile(N, cc(), crs)
		if err != nil {
			c.Fatalf("the circuit does not compile: %v", err)
		}
		type asg struct{ c0, c1, sk, mn, m, en, e []zvU }
		ntt := func(v []*big.Int) []zvU { return ev.NTT(poly(v)).Coeffs }
		mk := func(body, m, e []*big.Int) asg {
			return asg{ntt(body), ntt(b1), ntt(sk), ntt(m), poly(m).Coeffs, ntt(e), poly(e).Coeffs}
		}
		run := func(a asg, pub [2]buckler.PublicWitness[zvU]) bool {
			pf, err := prv.Prove(&CiphertextCircuit[zvU]{CiphertextNTT: [2]buckler.PublicWitness[zvU]{a.c0, a.c1},
				SecretKeyNTT: a.sk, MessageNTT: a.mn, MessageCoeffs: a.m, ErrorNTT: a.en, ErrorCoeffs: a.e})
			return err == nil && vrf.Verify(&CiphertextCircuit[zvU]{CiphertextNTT: pub}, pf)
		}
		try := func(what string, a asg, want bool) {
			if got := run(a, [2]buckler.PublicWitness[zvU]{a.c0, a.c1}); got != want {
				c.Fatalf("%s: verification gives %v", what, got)
			}
		}
		ok := mk(b0, msg, e)
		try("a fresh ciphertext", ok, true)

		i := r.N(N)
		with := func(v []*big.Int, x *big.Int) []*big.Int {
			w := append([]*big.Int{}, v...)
			w[i] = x
			return w
		}
		bump := func(v []zvU) []zvU {
			w := vh.Clone(v)
			d := r.Interesting(p)
			if d.Sign() == 0 {
				d.SetInt64(1)
			}
			j := r.N(N)
			w[j].Add(w[j], vh.FromBig[zvU](d))
			return w
		}
		sgn := big.NewInt(int64(1 - 2*r.N(2)))
		lim := new(big.Int).SetUint64(bound)
		top := new(big.Int).Sub(T, one)
		mul := func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
		switch c.Int(0, 6, "variant") {
		case 0:
			m := with(msg, mul(sgn, top))
			try("the largest message", mk(bodyOf(m, e), m, e), true)
			m = with(msg, mul(sgn, T))
			try("a message of norm t", mk(bodyOf(m, e), m, e), false)
		case 1:
			x := with(e, mul(sgn, lim))
			try("the largest error", mk(bodyOf(msg, x), msg, x), true)
			x = with(e, mul(sgn, new(big.Int).Add(lim, one)))
			try("an error beyond the bound", mk(bodyOf(msg, x), msg, x), false)
		case 2: // another message for the same ciphertext
			d := mul(sgn, one)
			m := with(msg, new(big.Int).Add(msg[i], d))
			if new(big.Int).Abs(m[i]).Cmp(T) >= 0 {
				m[i].Sub(msg[i], d)
			}
			x := errOf(m)
			far := new(big.Int).Abs(x[i]).Cmp(lim) > 0
			try("another message for a ciphertext", mk(b0, m, x), !far)
			x = e
			try("another message and the same error", mk(b0, m, x), false)
		case 3:
			a := ok
			a.sk = bump(a.sk)
			try("another secret key", a, allZeroAt(a.c1, a.sk, ok.sk))
		case 4:
			a := ok
			a.mn = bump(a.mn)
			for j := range a.en { // the equation still holds
				d := vh.FromBig[zvU](new(big.Int))
				d.Sub(ok.mn[j], a.mn[j])
				d.Mul(d, vh.FromBig[zvU](delta))
				a.en[j] = vh.FromBig[zvU](new(big.Int)).Add(a.en[j], d)
			}
			x := ev.NewPoly(true)
			copy(x.Coeffs, a.en)
			a.e = ev.InvNTT(x).Coeffs
			try("another transform of the message", a, false)
		case 5:
			a := ok
			a.e = bump(a.e)
			try("coefficients of another error", a, false)
		case 6:
			pub := [2]buckler.PublicWitness[zvU]{ok.c0, ok.c1}
			k := r.N(2)
			pub[k] = bump(pub[k])
			if run(ok, pub) {
				c.Fatalf("proved for another ciphertext (part %d)", k)
			}
		}
		c.NonTrivial()
	})
}

// allZeroAt reports that the two keys differ only where the mask is zero.
func allZeroAt(mask, a, b []zvU) bool {
	for i := range mask {
		if vh.Big(mask[i]).Sign() != 0 && vh.Big(a[i]).Cmp(vh.Big(b[i])) != 0 {
			return false
		}
	}
	return true
}

// zvMul multiplies modulo X^N+1 and q.
func zvMul(a, b []*big.Int, q *big.Int) []*big.Int {
	red := func(v []*big.Int) []*big.Int {
		w := make([]*big.Int, len(v))
		for i := range v {
			w[i] = new(big.Int).Mod(v[i], q)
		}
		return w
	}
	return vh.RingMul(red(a), red(b), -1, q)
}
