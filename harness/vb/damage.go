// Package vb breaks the structure of proofs.
package vb

import (
	"fmt"

	"github.com/sp301415/ringo-snark/zverif/vh"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// Damage breaks the structure of a list of ring elements; it reports what it did ("" for nothing).
func Damage(r *vh.RNG, v *[]ring.Poly) string {
	n := len(*v)
	switch r.N(10) {
	case 0:
		*v = nil
		return "missing"
	case 1:
		*v = (*v)[:r.N(n)]
		return "truncated"
	case 2:
		*v = append(append([]ring.Poly{}, *v...), *(*v)[r.N(n)].CopyNew())
		return "extended by a copy"
	case 3:
		*v = append(append([]ring.Poly{}, *v...), ring.Poly{})
		return "extended by an empty element"
	case 4:
		i := r.N(n)
		*v = append(append([]ring.Poly{}, (*v)[:i]...), (*v)[i+1:]...)
		return fmt.Sprintf("without element %d", i)
	case 5:
		for len(*v) < 3*n+5 {
			*v = append(*v, *(*v)[r.N(n)].CopyNew())
		}
		return "several times as long"
	}
	return DamagePoly(r, &(*v)[r.N(n)])
}

// DamagePoly does the same to one ring element.
func DamagePoly(r *vh.RNG, p *ring.Poly) string {
	l := r.N(len(p.Coeffs))
	n := len(p.Coeffs[l])
	switch r.N(8) {
	case 0:
		*p = ring.Poly{}
		return "element empty"
	case 1:
		p.Coeffs = p.Coeffs[:l]
		return "element without some limbs"
	case 2:
		p.Coeffs = append(append([][]uint64{}, p.Coeffs...), append([]uint64{}, p.Coeffs[l]...))
		return "element with an extra limb"
	case 3:
		p.Coeffs[l] = nil
		return "element with a nil limb"
	case 4:
		p.Coeffs[l] = p.Coeffs[l][:r.N(n)]
		return "element with a short limb"
	case 5:
		p.Coeffs[l] = p.Coeffs[l][:n/2]
		return "element with half a limb"
	case 6:
		p.Coeffs[l] = append(append([]uint64{}, p.Coeffs[l]...), make([]uint64, 1+r.N(n))...)
		return "element with a long limb"
	}
	for k := range p.Coeffs {
		p.Coeffs[k] = p.Coeffs[k][:n-1]
	}
	return "element one short in all limbs"
}
