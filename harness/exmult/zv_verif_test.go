//go:debug randseednop=0

package main

import (
	"io"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"testing"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/examples/mult/zp"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

func TestMain(m *testing.M) { os.Exit(vh.Main(m)) }

type zvU = *zp.Uint

// zvMain runs the program as shipped and returns what it prints.
func zvMain(c *vh.Ctx) string {
	rand.Seed(int64(c.U64("math/rand")))
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	out := make(chan string)
	go func() { b, _ := io.ReadAll(r); out <- string(b) }()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		main()
	}()
	return <-out
}

func TestC37_MultProgram(t *testing.T) {
	vh.Check(t, 3, 40, func(c *vh.Ctx) {
		if out := zvMain(c); !strings.Contains(out, "Verification result: true") {
			c.Fatalf("the example prints:\n%s", out)
		}
		c.NonTrivial()
	})
}

// The relation of the example: X*Y = Z in the ring, X of norm at most 5, Y public.
func TestC37_Mult(t *testing.T) {
	p := zp.Modulus()
	vh.Check(t, 30, 1000, func(c *vh.Ctx) {
		maxLog := 9
		if vh.Thorough() {
			maxLog = 13
		}
		N := 1 << c.Int(0, maxLog, "log rank")
		crs := c.Bytes(0, 40, "crs")
		c.Note("N=%d crs=%x", N, crs)
		r := c.NewRNG("case")
		ev := bigpoly.NewCyclotomicEvaluator[zvU](N)
		ntt := func(v []*big.Int) []zvU {
			q := ev.NewPoly(false)
			copy(q.Coeffs, vh.Vec[zvU](v))
			return ev.NTT(q).Coeffs
		}
		X, Y := make([]*big.Int, N), make([]*big.Int, N)
		style := c.Int(0, 3, "style")
		for i := range X {
			X[i] = big.NewInt(int64(r.N(11) - 5))
			switch style {
			case 0:
				Y[i] = new(big.Int).SetUint64(r.U64() >> 1) // as the example
			case 1:
				Y[i] = r.Big(p)
			case 2:
				Y[i] = r.Interesting(p)
			default:
				X[i], Y[i] = big.NewInt(int64(5-10*r.N(2))), new(big.Int).Sub(p, big.NewInt(1))
			}
		}
		cc := func() *MultCircuit[zvU] {
			return &MultCircuit[zvU]{NTTChecker: buckler.NewNTTChecker[zvU](N)}
		}
		prv, _, err := buckler.Compile(N, cc(), crs)
		if err != nil {
			c.Fatalf("the circuit does not compile: %v", err)
		}
		_, vrf, err := buckler.Compile(N, cc(), crs) // the verifier's own
		if err != nil {
			c.Fatalf("the circuit does not compile: %v", err)
		}
		type asg struct{ x, y, z, xn, yn, zn []zvU }
		mk := func(x, y []*big.Int) asg {
			z := zvMul(x, y, p)
			return asg{vh.Vec[zvU](x), vh.Vec[zvU](y), vh.Vec[zvU](z), ntt(x), ntt(y), ntt(z)}
		}
		run := func(a asg, pub []zvU) bool {
			pf, err := prv.Prove(&MultCircuit[zvU]{YNTT: a.yn, XCoeffs: a.x, ZCoeffs: a.z, XNTT: a.xn, ZNTT: a.zn})
			return err == nil && vrf.Verify(&MultCircuit[zvU]{YNTT: pub}, pf)
		}
		ok := mk(X, Y)
		if !run(ok, ok.yn) {
			c.Fatalf("a true statement is rejected")
		}
		bump := func(v []zvU) []zvU {
			w := vh.Clone(v)
			d := r.Interesting(p)
			if d.Sign() == 0 {
				d.SetInt64(1)
			}
			i := r.N(N)
			w[i].Add(w[i], vh.FromBig[zvU](d))
			return w
		}
		false1 := func(what string, a asg, pub []zvU) {
			if run(a, pub) {
				c.Fatalf("a false statement is accepted: %s", what)
			}
		}
		i := r.N(N)
		switch k := c.Int(0, 5, "lie"); k {
		case 0:
			big5 := append([]*big.Int{}, X...)
			big5[i] = []*big.Int{big.NewInt(6), big.NewInt(-6), big.NewInt(7), r.Big(p)}[r.N(4)]
			if m := new(big.Int).Mod(new(big.Int).Add(big5[i], big.NewInt(5)), p); m.Cmp(big.NewInt(10)) <= 0 {
				c.Skip()
			}
			a := mk(big5, Y)
			false1("X out of bounds", a, a.yn)
		case 1:
			a := ok
			a.z = bump(a.z)
			q := ev.NewPoly(false)
			copy(q.Coeffs, a.z)
			a.zn = ev.NTT(q).Coeffs
			false1("another product", a, a.yn)
		case 2:
			a := ok
			a.z = bump(a.z)
			false1("another product, the right transform", a, a.yn)
		case 3:
			a := ok
			a.zn = bump(a.zn)
			false1("another transform of the product", a, a.yn)
		case 4:
			a := ok
			a.xn = bump(a.xn)
			for j := range a.zn {
				a.zn[j] = ev.NewPoly(true).Coeffs[0].Mul(a.xn[j], a.yn[j])
			}
			false1("another transform of X", a, a.yn)
		case 5:
			zero := true
			for j := range X {
				zero = zero && X[j].Sign() == 0
			}
			if zero {
				c.Skip()
			}
			false1("proved for another Y", ok, bump(ok.yn))
		}
		c.NonTrivial()
	})
}

// zvMul multiplies modulo X^N+1 and q.
func zvMul(a, b []*big.Int, q *big.Int) []*big.Int {
	red := func(v []*big.Int) []*big.Int {
		w := make([]*big.Int, len(v))
		for i := range v {
			w[i] = new(big.Int).Mod(v[i], q)
		}
		return w
	}
	return vh.RingMul(red(a), red(b), -1, q)
}
