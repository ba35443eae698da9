// Package zvfield checks the field that lives under jindo/internal.
package zvfield

import (
	"os"
	"testing"

	"github.com/sp301415/ringo-snark/jindo/internal/zp"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

func TestMain(m *testing.M) { os.Exit(vh.Main(m)) }

func TestC01_JindoField(t *testing.T) {
	vh.Check(t, 1200, 30000, func(c *vh.Ctx) {
		c.Note("field=%s", vh.FJin.Name)
		vh.FieldProp[*zp.Uint](c, vh.FJin)
	})
}

func TestC01_JindoFullInterface(t *testing.T) {
	vh.Check(t, 1000, 30000, func(c *vh.Ctx) { fullJindo(c, vh.FJin) })
}

func fullJindo(c *vh.Ctx, f vh.Field) {
	vh.FullProp[zp.Uint, *zp.Uint, zp.Vector, *zp.Vector](c, f, vh.FullKit[zp.Uint]{
		Modulus: zp.Modulus, BatchInvert: zp.BatchInvert, Butterfly: zp.Butterfly, One: zp.One, NewUint: zp.NewUint, Hash: zp.Hash, Bytes: zp.Bytes,
		MulBy:      map[int64]func(*zp.Uint){3: zp.MulBy3, 5: zp.MulBy5, 13: zp.MulBy13},
		BigElement: func(b []byte) (zp.Uint, error) { return zp.BigEndian.Element((*[zp.Bytes]byte)(b)) },
		LittleElem: func(b []byte) (zp.Uint, error) { return zp.LittleEndian.Element((*[zp.Bytes]byte)(b)) },
		BigPut:     func(b []byte, e zp.Uint) { zp.BigEndian.PutElement((*[zp.Bytes]byte)(b), e) },
		LittlePut:  func(b []byte, e zp.Uint) { zp.LittleEndian.PutElement((*[zp.Bytes]byte)(b), e) },
	})
}
