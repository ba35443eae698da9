// Package zvmath holds the checks of the math layer (fields, polynomials, samplers).
package zvmath

import (
	"os"
	"testing"

	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/buckler/internal/zp220"
	"github.com/sp301415/ringo-snark/buckler/internal/zp440"
	"github.com/sp301415/ringo-snark/buckler/internal/zp880"
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
	"github.com/sp301415/ringo-snark/jindo/zverif/jf"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

func TestMain(m *testing.M) { os.Exit(vh.Main(m)) }

type prop func(*vh.Ctx, vh.Field)

// pick draws one of the shipped moduli and runs the property on it.
func pick(c *vh.Ctx, p110, p220, p440, p880, pbfv, pmult, pjin prop) {
	i := c.Int(0, 6, "field")
	f := []vh.Field{vh.F110, vh.F220, vh.F440, vh.F880, vh.FBFV, vh.FMult, vh.FJin}[i]
	c.Note("field=%s", f.Name)
	c.Label("field:%s", f.Name)
	[]prop{p110, p220, p440, p880, pbfv, pmult, pjin}[i](c, f)
}

type (
	e110  = *zp110.Uint
	e220  = *zp220.Uint
	e440  = *zp440.Uint
	e880  = *zp880.Uint
	ebfv  = *bfvzp.Uint
	emult = *multzp.Uint
	ejin  = *jf.Uint
)
