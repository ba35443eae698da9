package zvmath

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/zverif/vh"
)

// C01: rule: a history of register operations containing a product of nonzero elements.
func TestC01_FieldHistories(t *testing.T) {
	vh.Check(t, 6000, 150000, func(c *vh.Ctx) {
		pick(c, vh.FieldProp[e110], vh.FieldProp[e220], vh.FieldProp[e440], vh.FieldProp[e880], vh.FieldProp[ebfv], vh.FieldProp[emult], vh.FieldProp[ejin])
	})
}

func TestC01_ModuliPrime(t *testing.T) {
	fs := []vh.Field{vh.F110, vh.F220, vh.F440, vh.F880, vh.FBFV, vh.FMult, vh.FJin}
	vh.Check(t, 14, 14, func(c *vh.Ctx) {
		f := fs[c.Int(0, len(fs)-1, "field")]
		if !f.P.ProbablyPrime(32) {
			c.Fatalf("%s is not prime", f.Name)
		}
		m := new(big.Int).Sub(f.P, big.NewInt(1))
		if m.Mod(m, big.NewInt(1<<31)).Sign() != 0 {
			c.Fatalf("%s does not support rank 2^30", f.Name)
		}
		c.Note("%s", f.Name)
		c.NonTrivial()
	})
}

func TestC01_Shared(t *testing.T) {
	vh.Check(t, 150, 6000, func(c *vh.Ctx) {
		pick(c, vh.SharedProp[e110], vh.SharedProp[e220], vh.SharedProp[e440], vh.SharedProp[e880], vh.SharedProp[ebfv], vh.SharedProp[emult], vh.SharedProp[ejin])
	})
}
