package zvmath

import (
	"testing"

	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/buckler/internal/zp220"
	"github.com/sp301415/ringo-snark/buckler/internal/zp440"
	"github.com/sp301415/ringo-snark/buckler/internal/zp880"
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// The rest of the interface of the generated packages: quotients, roots, text and byte forms, vectors.
func TestC01_FullInterface(t *testing.T) {
	vh.Check(t, 4000, 100000, func(c *vh.Ctx) {
		i := c.Int(0, 5, "field")
		f := []vh.Field{vh.F110, vh.F220, vh.F440, vh.F880, vh.FBFV, vh.FMult}[i]
		[]prop{full110, full220, full440, full880, fullBFV, fullMult}[i](c, f)
	})
}

func full110(c *vh.Ctx, f vh.Field) {
	vh.FullProp[zp110.Uint, *zp110.Uint, zp110.Vector, *zp110.Vector](c, f, vh.FullKit[zp110.Uint]{
		Modulus: zp110.Modulus, BatchInvert: zp110.BatchInvert, Butterfly: zp110.Butterfly, One: zp110.One, NewUint: zp110.NewUint, Hash: zp110.Hash, Bytes: zp110.Bytes,
		MulBy:      map[int64]func(*zp110.Uint){3: zp110.MulBy3, 5: zp110.MulBy5, 13: zp110.MulBy13},
		BigElement: func(b []byte) (zp110.Uint, error) { return zp110.BigEndian.Element((*[zp110.Bytes]byte)(b)) },
		LittleElem: func(b []byte) (zp110.Uint, error) { return zp110.LittleEndian.Element((*[zp110.Bytes]byte)(b)) },
		BigPut:     func(b []byte, e zp110.Uint) { zp110.BigEndian.PutElement((*[zp110.Bytes]byte)(b), e) },
		LittlePut:  func(b []byte, e zp110.Uint) { zp110.LittleEndian.PutElement((*[zp110.Bytes]byte)(b), e) },
	})
}

func full220(c *vh.Ctx, f vh.Field) {
	vh.FullProp[zp220.Uint, *zp220.Uint, zp220.Vector, *zp220.Vector](c, f, vh.FullKit[zp220.Uint]{
		Modulus: zp220.Modulus, BatchInvert: zp220.BatchInvert, Butterfly: zp220.Butterfly, One: zp220.One, NewUint: zp220.NewUint, Hash: zp220.Hash, Bytes: zp220.Bytes,
		MulBy:      map[int64]func(*zp220.Uint){3: zp220.MulBy3, 5: zp220.MulBy5, 13: zp220.MulBy13},
		BigElement: func(b []byte) (zp220.Uint, error) { return zp220.BigEndian.Element((*[zp220.Bytes]byte)(b)) },
		LittleElem: func(b []byte) (zp220.Uint, error) { return zp220.LittleEndian.Element((*[zp220.Bytes]byte)(b)) },
		BigPut:     func(b []byte, e zp220.Uint) { zp220.BigEndian.PutElement((*[zp220.Bytes]byte)(b), e) },
		LittlePut:  func(b []byte, e zp220.Uint) { zp220.LittleEndian.PutElement((*[zp220.Bytes]byte)(b), e) },
	})
}

func full440(c *vh.Ctx, f vh.Field) {
	vh.FullProp[zp440.Uint, *zp440.Uint, zp440.Vector, *zp440.Vector](c, f, vh.FullKit[zp440.Uint]{
		Modulus: zp440.Modulus, BatchInvert: zp440.BatchInvert, Butterfly: zp440.Butterfly, One: zp440.One, NewUint: zp440.NewUint, Hash: zp440.Hash, Bytes: zp440.Bytes,
		MulBy:      map[int64]func(*zp440.Uint){3: zp440.MulBy3, 5: zp440.MulBy5, 13: zp440.MulBy13},
		BigElement: func(b []byte) (zp440.Uint, error) { return zp440.BigEndian.Element((*[zp440.Bytes]byte)(b)) },
		LittleElem: func(b []byte) (zp440.Uint, error) { return zp440.LittleEndian.Element((*[zp440.Bytes]byte)(b)) },
		BigPut:     func(b []byte, e zp440.Uint) { zp440.BigEndian.PutElement((*[zp440.Bytes]byte)(b), e) },
		LittlePut:  func(b []byte, e zp440.Uint) { zp440.LittleEndian.PutElement((*[zp440.Bytes]byte)(b), e) },
	})
}

func full880(c *vh.Ctx, f vh.Field) {
	vh.FullProp[zp880.Uint, *zp880.Uint, zp880.Vector, *zp880.Vector](c, f, vh.FullKit[zp880.Uint]{
		Modulus: zp880.Modulus, BatchInvert: zp880.BatchInvert, Butterfly: zp880.Butterfly, One: zp880.One, NewUint: zp880.NewUint, Hash: zp880.Hash, Bytes: zp880.Bytes,
		MulBy:      map[int64]func(*zp880.Uint){3: zp880.MulBy3, 5: zp880.MulBy5, 13: zp880.MulBy13},
		BigElement: func(b []byte) (zp880.Uint, error) { return zp880.BigEndian.Element((*[zp880.Bytes]byte)(b)) },
		LittleElem: func(b []byte) (zp880.Uint, error) { return zp880.LittleEndian.Element((*[zp880.Bytes]byte)(b)) },
		BigPut:     func(b []byte, e zp880.Uint) { zp880.BigEndian.PutElement((*[zp880.Bytes]byte)(b), e) },
		LittlePut:  func(b []byte, e zp880.Uint) { zp880.LittleEndian.PutElement((*[zp880.Bytes]byte)(b), e) },
	})
}

func fullBFV(c *vh.Ctx, f vh.Field) {
	vh.FullProp[bfvzp.Uint, *bfvzp.Uint, bfvzp.Vector, *bfvzp.Vector](c, f, vh.FullKit[bfvzp.Uint]{
		Modulus: bfvzp.Modulus, BatchInvert: bfvzp.BatchInvert, Butterfly: bfvzp.Butterfly, One: bfvzp.One, NewUint: bfvzp.NewUint, Hash: bfvzp.Hash, Bytes: bfvzp.Bytes,
		MulBy:      map[int64]func(*bfvzp.Uint){3: bfvzp.MulBy3, 5: bfvzp.MulBy5, 13: bfvzp.MulBy13},
		BigElement: func(b []byte) (bfvzp.Uint, error) { return bfvzp.BigEndian.Element((*[bfvzp.Bytes]byte)(b)) },
		LittleElem: func(b []byte) (bfvzp.Uint, error) { return bfvzp.LittleEndian.Element((*[bfvzp.Bytes]byte)(b)) },
		BigPut:     func(b []byte, e bfvzp.Uint) { bfvzp.BigEndian.PutElement((*[bfvzp.Bytes]byte)(b), e) },
		LittlePut:  func(b []byte, e bfvzp.Uint) { bfvzp.LittleEndian.PutElement((*[bfvzp.Bytes]byte)(b), e) },
	})
}

func fullMult(c *vh.Ctx, f vh.Field) {
	vh.FullProp[multzp.Uint, *multzp.Uint, multzp.Vector, *multzp.Vector](c, f, vh.FullKit[multzp.Uint]{
		Modulus: multzp.Modulus, BatchInvert: multzp.BatchInvert, Butterfly: multzp.Butterfly, One: multzp.One, NewUint: multzp.NewUint, Hash: multzp.Hash, Bytes: multzp.Bytes,
		MulBy:      map[int64]func(*multzp.Uint){3: multzp.MulBy3, 5: multzp.MulBy5, 13: multzp.MulBy13},
		BigElement: func(b []byte) (multzp.Uint, error) { return multzp.BigEndian.Element((*[multzp.Bytes]byte)(b)) },
		LittleElem: func(b []byte) (multzp.Uint, error) { return multzp.LittleEndian.Element((*[multzp.Bytes]byte)(b)) },
		BigPut:     func(b []byte, e multzp.Uint) { multzp.BigEndian.PutElement((*[multzp.Bytes]byte)(b), e) },
		LittlePut:  func(b []byte, e multzp.Uint) { multzp.LittleEndian.PutElement((*[multzp.Bytes]byte)(b), e) },
	})
}
