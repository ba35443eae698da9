package vh

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/sp301415/ringo-snark/math/bignum"
)

// SharedProp: elements that are only operands may be used from several goroutines at once.
func SharedProp[E bignum.Uint[E]](c *Ctx, f Field) {
	var z E
	r := c.NewRNG("shared")
	n := c.Int(1, 6, "operands")
	k := c.Int(2, 6, "goroutines")
	rounds := []int{1, 20, 300}[c.Int(0, 2, "rounds")]
	c.Note("%d operands, %d goroutines, %d rounds", n, k, rounds)
	x := make([]*big.Int, n)
	e := make([]E, n)
	for i := range e {
		x[i] = r.Interesting(f.P)
		e[i] = z.New().SetBigInt(x[i])
	}
	type op struct{ what, a, b int }
	plan := make([][]op, k)
	for g := range plan {
		for i := 0; i < 12; i++ {
			plan[g] = append(plan[g], op{r.N(11), r.N(n), r.N(n)})
		}
	}
	bad := make([]string, k)
	var wg sync.WaitGroup
	for g := range plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := z.New()
			limbs := make([]uint64, z.New().Limb())
			want, got := new(big.Int), new(big.Int)
			for t := 0; t < rounds; t++ {
				for _, o := range plan[g] {
					a, b, xa, xb := e[o.a], e[o.b], x[o.a], x[o.b]
					want.Set(xa)
					switch o.what {
					case 0:
						d.Add(a, b)
						want.Add(xa, xb)
					case 1:
						d.Sub(a, b)
						want.Sub(xa, xb)
					case 2:
						d.Mul(a, b)
						want.Mul(xa, xb)
					case 3:
						d.Neg(a)
						want.Neg(xa)
					case 4:
						if xa.Sign() == 0 {
							continue
						}
						d.Inverse(a)
						want.ModInverse(xa, f.P)
					case 5:
						d.Set(a)
					case 6:
						a.Slice(limbs)
						d.SetBigInt(limbsToBig(limbs))
					case 7:
						d.SetBytes(a.Marshal())
					case 8:
						d.SetBigInt(a.BigInt(got))
					case 9:
						if a.Cmp(b) != xa.Cmp(xb) {
							bad[g] = fmt.Sprintf("wrong order of %v and %v", xa, xb)
						}
						continue
					case 10:
						d.Set(bignum.Exp(a, 5))
						want.Exp(xa, big.NewInt(5), f.P)
					}
					want.Mod(want, f.P)
					if d.BigInt(got).Cmp(want) != 0 {
						bad[g] = fmt.Sprintf("operation %d on %v and %v gives %v", o.what, xa, xb, got)
					}
				}
			}
		}()
	}
	wg.Wait()
	for g := range bad {
		if bad[g] != "" {
			c.Fatalf("%s: goroutines with common operands: %s", f.Name, bad[g])
		}
	}
	for i := range e {
		if Big(e[i]).Cmp(x[i]) != 0 {
			c.Fatalf("%s: an operand has changed", f.Name)
		}
	}
	c.NonTrivial()
}
