package zvmodulus

// driverSrc is the test program compiled against a generated package. @IMPORT@ is its import path.
const driverSrc = `package drv

import (
	"fmt"
	"math/big"
	"os"
	"testing"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
	zp "@IMPORT@"
)

var f vh.Field

func TestMain(m *testing.M) {
	var z *zp.Uint
	p := vh.Big(z.New().SetInt64(-1))
	p.Add(p, big.NewInt(1))
	fmt.Println("VERIF-MODULUS", p)
	f = vh.Field{Name: "generated", P: p}
	os.Exit(vh.Main(m))
}

func TestGen_Field(t *testing.T) {
	vh.Check(t, 60, 200, func(c *vh.Ctx) {
		c.NonTrivial()
		vh.FieldProp[*zp.Uint](c, f)
	})
}

func TestGen_Distinct(t *testing.T) {
	vh.Check(t, 10, 10, func(c *vh.Ctx) {
		c.NonTrivial()
		var z *zp.Uint
		a := z.New()
		b := a.New()
		a.SetInt64(1)
		if vh.Big(b).Sign() != 0 || vh.Big(a.New()).Sign() != 0 || vh.Big(a).Cmp(big.NewInt(1)) != 0 {
			c.Fatalf("New gives an element that is not a fresh zero")
		}
	})
}

func TestGen_Ring(t *testing.T) {
	vh.Check(t, 12, 40, func(c *vh.Ctx) {
		c.NonTrivial()
		n := 1 << c.Int(1, 7, "logN")
		a, b := c.VecStyle(n, f.P, "a"), c.VecStyle(n, f.P, "b")
		ev := bigpoly.NewCyclotomicEvaluator[*zp.Uint](n)
		x, y := ev.NewPoly(false), ev.NewPoly(false)
		copy(x.Coeffs, vh.Vec[*zp.Uint](a))
		copy(y.Coeffs, vh.Vec[*zp.Uint](b))
		z := ev.InvNTT(ev.Mul(ev.NTT(x), ev.NTT(y)))
		if want := vh.RingMul(a, b, -1, f.P); !vh.EqBigs(vh.Bigs(z.Coeffs), want) {
			c.Fatalf("product of rank %d is wrong", n)
		}
	})
}

func TestGen_Jindo(t *testing.T) {
	vh.Check(t, 3, 10, func(c *vh.Ctx) {
		c.NonTrivial()
		n, batch := 1<<c.Int(0, 10, "logN"), c.Int(1, 2, "batch")
		params := jindo.NewParameters[*zp.Uint](n, batch)
		prv, vrf := jindo.NewProver[*zp.Uint](params, []byte("gen")), jindo.NewVerifier[*zp.Uint](params, []byte("gen"))
		var v [][]*zp.Uint
		var vals [][]*big.Int
		for i := 0; i < batch; i++ {
			vals = append(vals, c.VecStyle(n, f.P, "v"))
			v = append(v, vh.Vec[*zp.Uint](vals[i]))
		}
		xb := c.NewRNG("x").Big(f.P)
		x := vh.FromBig[*zp.Uint](xb)
		com, opn := make([]*jindo.Commitment, batch), make([]*jindo.Opening, batch)
		for i := range v {
			com[i], opn[i] = prv.Commit(v[i])
		}
		y, pf := prv.Evaluate(x, v, com, opn)
		for i := range y {
			if vh.Big(y[i]).Cmp(vh.PolyEval(vals[i], xb, f.P)) != 0 {
				c.Fatalf("wrong value")
			}
		}
		if !vrf.Verify(x, com, y, pf) {
			c.Fatalf("honest evaluation of length %d, batch %d rejected", n, batch)
		}
		y[0].Add(y[0], y[0].New().SetInt64(1))
		if vrf.Verify(x, com, y, pf) {
			c.Fatalf("false evaluation accepted")
		}
	})
}
`
