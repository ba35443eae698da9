package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
)

// FullElem is the rest of the interface of the generated elements.
type FullElem[U any] interface {
	*U
	bignum.Uint[*U]

	SetZero() *U
	SetOne() *U
	Div(x, y *U) *U
	Equal(x *U) bool
	NotEqual(x *U) uint64
	IsZero() bool
	IsOne() bool
	IsUint64() bool
	Uint64() uint64
	FitsOnOneWord() bool
	LexicographicallyLargest() bool
	Halve()
	Double(x *U) *U
	Square(x *U) *U
	Select(c int, x0, x1 *U) *U
	BitLen() int
	Exp(x U, k *big.Int) *U
	String() string
	Text(base int) string
	SetBytesCanonical(b []byte) error
	SetString(s string) (*U, error)
	SetInterface(i any) (*U, error)
	MarshalJSON() ([]byte, error)
	UnmarshalJSON(b []byte) error
	Legendre() int
	Sqrt(x *U) *U
	SetRandom() (*U, error)
}

// FullVec is the interface of the generated vectors.
type FullVec[U any, V ~[]U] interface {
	*V
	Add(a, b V)
	Sub(a, b V)
	Mul(a, b V)
	ScalarMul(a V, b *U)
	Sum() U
	InnerProduct(b V) U
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
	WriteTo(io.Writer) (int64, error)
	ReadFrom(io.Reader) (int64, error)
	Equal(V) bool
	Swap(i, j int)
	Less(i, j int) bool
	Len() int
}

// FullKit holds the functions of a generated package.
type FullKit[U any] struct {
	Modulus     func() *big.Int
	BatchInvert func([]U) []U
	Butterfly   func(a, b *U)
	MulBy       map[int64]func(*U)
	One         func() U
	NewUint     func(uint64) U
	BigElement  func([]byte) (U, error)
	LittleElem  func([]byte) (U, error)
	BigPut      func([]byte, U)
	LittlePut   func([]byte, U)
	Hash        func(msg, dst []byte, n int) ([]U, error)
	Bytes       int
}

func reverse(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// FullProp compares the rest of the interface with big integers.
func FullProp[U any, P FullElem[U], V ~[]U, PV FullVec[U, V]](c *Ctx, f Field, k FullKit[U]) {
	p := f.P
	r := c.NewRNG("full")
	half := new(big.Int).Rsh(p, 1)
	one := big.NewInt(1)
	el := func(x *big.Int) *U { var e U; return P(&e).SetBigInt(x) }
	val := func(e *U) *big.Int { return P(e).BigInt(new(big.Int)) }
	mod := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, p) }
	want := func(what string, e *U, w *big.Int) {
		w = mod(w)
		if g := val(e); g.Cmp(w) != 0 {
			c.Fatalf("%s: %s gives %v, want %v", f.Name, what, g, w)
		}
		m := P(e).Marshal()
		if new(big.Int).SetBytes(m).Cmp(w) != 0 {
			c.Fatalf("%s: %s: bytes %x are not those of %v", f.Name, what, m, w)
		}
	}
	is := func(what string, got, w any) {
		if got != w {
			c.Fatalf("%s: %s is %v, want %v", f.Name, what, got, w)
		}
	}
	if k.Modulus().Cmp(p) != 0 {
		c.Fatalf("%s: Modulus() is %v", f.Name, k.Modulus())
	}
	x, y := r.Interesting(p), r.Interesting(p)
	switch r.N(8) {
	case 0:
		y.Set(x)
	case 1:
		y = mod(new(big.Int).Neg(x))
	case 2:
		x = big.NewInt(int64(r.N(70000) - 35000))
		x = mod(x)
	case 3:
		x.SetUint64(r.U64())
	}
	a, b := el(x), el(y)
	c.Note("field=%s x=%v y=%v", f.Name, x, y)
	// aliasing: the result goes to a fresh element, to a, or to b
	dst := func() (*U, *U, *U) {
		a, b := el(x), el(y)
		switch r.N(3) {
		case 0:
			return a, a, b
		case 1:
			return b, a, b
		}
		return el(big.NewInt(-3)), a, b
	}
	d, u, v := dst()
	q := new(big.Int)
	if y.Sign() != 0 {
		q.Mul(x, q.ModInverse(y, p))
	}
	want("Div", P(d).Div(u, v), q)
	want("Div (destination)", d, q)
	d, u, _ = dst()
	want("Double", P(d).Double(u), q.Lsh(x, 1))
	d, u, _ = dst()
	want("Square", P(d).Square(u), q.Mul(x, x))
	d = el(x)
	P(d).Halve()
	want("twice Halve", P(d).Add(d, d), x)
	for _, s := range []int{0, 1, -1, 2, int(int32(r.U64()))} {
		d, u, v = dst()
		w := y
		if s == 0 {
			w = x
		}
		want(fmt.Sprintf("Select(%d)", s), P(d).Select(s, u, v), w)
	}
	// powers with exponents of any sign and size
	e := r.Big(new(big.Int).Lsh(one, uint(1+r.N(p.BitLen()+70))))
	switch r.N(6) {
	case 0:
		e.SetInt64(int64(r.N(9)))
	case 1:
		e.Add(p, big.NewInt(int64(r.N(7)-3)))
	}
	if r.N(2) == 0 {
		e.Neg(e)
	}
	if x.Sign() != 0 {
		keep := new(big.Int).Set(e)
		d = el(y)
		want(fmt.Sprintf("Exp(%v)", e), P(d).Exp(*a, e), q.Exp(x, e, p))
		if keep.Cmp(e) != 0 {
			c.Fatalf("%s: Exp changes its exponent", f.Name)
		}
		want("the base of Exp", a, x)
		d = el(x)
		want("Exp in place", P(d).Exp(*d, e), q.Exp(x, e, p))
	}
	// predicates
	is("Equal", P(a).Equal(b), x.Cmp(y) == 0)
	is("NotEqual", P(a).NotEqual(b) == 0, x.Cmp(y) == 0)
	is("IsZero", P(a).IsZero(), x.Sign() == 0)
	is("IsOne", P(a).IsOne(), x.Cmp(one) == 0)
	is("IsUint64", P(a).IsUint64(), x.IsUint64())
	is("Uint64", P(a).Uint64(), x.Uint64())
	is("LexicographicallyLargest", P(a).LexicographicallyLargest(), x.Cmp(half) > 0)
	is("Legendre", P(a).Legendre(), big.Jacobi(x, p))
	// roots
	d = el(y)
	s := P(d).Sqrt(a)
	if big.Jacobi(x, p) == -1 {
		if s != nil {
			c.Fatalf("%s: a root of the non-residue %v", f.Name, x)
		}
	} else {
		if s == nil {
			c.Fatalf("%s: no root of the residue %v", f.Name, x)
		}
		g := val(s)
		want("the square of Sqrt", a, g.Mul(g, g))
	}
	// text
	base := Pick(c, "base", 2, 8, 10, 16, 36)
	if t, ok := new(big.Int).SetString(P(a).Text(base), base); !ok {
		c.Fatalf("%s: Text(%d) of %v is %q", f.Name, base, x, P(a).Text(base))
	} else {
		want("Text", a, t)
	}
	if t, err := P(el(y)).SetString(P(a).String()); err != nil {
		c.Fatalf("%s: String of %v cannot be read: %v", f.Name, x, err)
	} else {
		want("SetString(String)", t, x)
	}
	long := r.Big(new(big.Int).Lsh(one, uint(1+r.N(2*p.BitLen()))))
	if r.N(2) == 0 {
		long.Neg(long)
	}
	for _, str := range []string{long.String(), fmt.Sprintf("%#x", long), fmt.Sprintf("%#b", long), fmt.Sprintf("%#o", long)} {
		t, err := P(el(y)).SetString(str)
		if err != nil {
			c.Fatalf("%s: SetString(%q): %v", f.Name, str, err)
		}
		want("SetString", t, long)
	}
	j, err := json.Marshal(a)
	if err != nil {
		c.Fatalf("%s: JSON of %v: %v", f.Name, x, err)
	}
	d = el(y)
	if err := json.Unmarshal(j, d); err != nil {
		c.Fatalf("%s: JSON %s of %v cannot be read: %v", f.Name, j, x, err)
	}
	want("JSON", d, x)
	// other sources
	i64 := int64(r.U64())
	for _, src := range []struct {
		v any
		w *big.Int
	}{{*a, x}, {a, x}, {uint8(r.N(256)), nil}, {uint16(i64), nil}, {uint32(i64), nil}, {uint(i64), nil}, {uint64(i64), nil}, {int8(i64), nil},
		{int16(i64), nil}, {int32(i64), nil}, {int64(i64), nil}, {int(i64), nil}, {long.String(), long}, {long, long}, {*long, long}, {new(big.Int).Abs(long).Bytes(), new(big.Int).Abs(long)}} {
		if src.w == nil {
			src.w, _ = new(big.Int).SetString(fmt.Sprint(src.v), 10)
		}
		t, err := P(el(y)).SetInterface(src.v)
		if err != nil {
			c.Fatalf("%s: SetInterface(%T): %v", f.Name, src.v, err)
		}
		want(fmt.Sprintf("SetInterface(%T)", src.v), t, src.w)
	}
	for _, bad := range []any{nil, 1.5, struct{}{}, (*big.Int)(nil), (*U)(nil), "no number"} {
		if _, err := P(el(y)).SetInterface(bad); err == nil {
			c.Fatalf("%s: SetInterface(%T) does not fail", f.Name, bad)
		}
	}
	// canonical byte forms
	z := new(big.Int).Set(x)
	switch r.N(4) {
	case 0: // around the modulus
		z.Add(p, big.NewInt(int64(r.N(5)-3)))
	case 1:
		z = r.Big(new(big.Int).Lsh(one, uint(8*k.Bytes)))
	}
	raw := z.FillBytes(make([]byte, k.Bytes))
	d = el(y)
	if err := P(d).SetBytesCanonical(raw); (err == nil) != (z.Cmp(p) < 0) {
		c.Fatalf("%s: SetBytesCanonical of %v: error %v", f.Name, z, err)
	} else if err == nil {
		want("SetBytesCanonical", d, z)
	}
	if n := r.N(2 * k.Bytes); n != k.Bytes {
		if P(d).SetBytesCanonical(make([]byte, n)) == nil {
			c.Fatalf("%s: SetBytesCanonical of %d bytes does not fail", f.Name, n)
		}
	}
	for _, o := range []struct {
		name string
		raw  []byte
		elem func([]byte) (U, error)
		put  func([]byte, U)
	}{{"BigEndian", raw, k.BigElement, k.BigPut}, {"LittleEndian", reverse(raw), k.LittleElem, k.LittlePut}} {
		g, err := o.elem(bytes.Clone(o.raw))
		if (err == nil) != (z.Cmp(p) < 0) {
			c.Fatalf("%s: %s.Element of %v: error %v", f.Name, o.name, z, err)
		}
		if err == nil {
			want(o.name, &g, z)
			buf := make([]byte, k.Bytes)
			o.put(buf, g)
			if !bytes.Equal(buf, o.raw) {
				c.Fatalf("%s: %s.PutElement of %v gives %x", f.Name, o.name, z, buf)
			}
		}
	}
	// functions
	o, nu := k.One(), k.NewUint(uint64(i64))
	want("One", &o, one)
	want("NewUint", &nu, q.SetUint64(uint64(i64)))
	want("SetOne", P(el(y)).SetOne(), one)
	want("SetZero", P(el(y)).SetZero(), new(big.Int))
	for m, fn := range k.MulBy {
		d = el(x)
		fn(d)
		want(fmt.Sprintf("MulBy%d", m), d, q.Mul(x, big.NewInt(m)))
	}
	u, v = el(x), el(y)
	k.Butterfly(u, v)
	want("Butterfly sum", u, q.Add(x, y))
	want("Butterfly difference", v, q.Sub(x, y))

	vectors[U, P, V, PV](c, f, k, r)
	c.NonTrivial()
}

// vectors compares the vector operations with the single ones.
func vectors[U any, P FullElem[U], V ~[]U, PV FullVec[U, V]](c *Ctx, f Field, k FullKit[U], r *RNG) {
	p := f.P
	n := r.N(40)
	switch r.N(4) {
	case 0:
		n = r.N(4)
	case 1:
		n = 16*r.N(9) + r.N(3)
	}
	draw := func() (V, []*big.Int) {
		v, x := make(V, n), make([]*big.Int, n)
		style := r.N(4)
		for i := range v {
			switch style {
			case 0:
				x[i] = new(big.Int).Sub(p, big.NewInt(int64(1+r.N(2))))
			case 1:
				x[i] = big.NewInt(int64(r.N(3)))
			default:
				x[i] = r.Interesting(p)
			}
			P(&v[i]).SetBigInt(x[i])
		}
		return v, x
	}
	same := func(what string, v V, w []*big.Int) {
		for i := range v {
			if g := P(&v[i]).BigInt(new(big.Int)); g.Cmp(new(big.Int).Mod(w[i], p)) != 0 {
				c.Fatalf("%s: %s: entry %d of %d is %v, want %v", f.Name, what, i, n, g, new(big.Int).Mod(w[i], p))
			}
			m := P(&v[i]).Marshal()
			if new(big.Int).SetBytes(m).Cmp(new(big.Int).Mod(w[i], p)) != 0 {
				c.Fatalf("%s: %s: entry %d of %d has the bytes %x", f.Name, what, i, n, m)
			}
		}
	}
	for _, op := range []string{"Add", "Sub", "Mul", "ScalarMul"} {
		if n == 0 { // the assembly takes the first entry's address
			break
		}
		a, x := draw()
		b, y := draw()
		s := r.Interesting(p)
		var es U
		P(&es).SetBigInt(s)
		w := make([]*big.Int, n)
		for i := range w {
			switch op {
			case "Add":
				w[i] = new(big.Int).Add(x[i], y[i])
			case "Sub":
				w[i] = new(big.Int).Sub(x[i], y[i])
			case "Mul":
				w[i] = new(big.Int).Mul(x[i], y[i])
			default:
				w[i] = new(big.Int).Mul(x[i], s)
			}
		}
		d, _ := draw()
		alias := r.N(3)
		switch alias {
		case 0:
			d = a
		case 1:
			if op != "ScalarMul" {
				d = b
			}
		}
		switch op {
		case "Add":
			PV(&d).Add(a, b)
		case "Sub":
			PV(&d).Sub(a, b)
		case "Mul":
			PV(&d).Mul(a, b)
		default:
			PV(&d).ScalarMul(a, &es)
		}
		same("Vector."+op, d, w)
		if alias != 0 {
			same("operand of Vector."+op, a, x)
		}
		if alias != 1 {
			same("operand of Vector."+op, b, y)
		}
	}
	a, x := draw()
	b, y := draw()
	sum, in := new(big.Int), new(big.Int)
	for i := range x {
		sum.Add(sum, x[i])
		in.Add(in, new(big.Int).Mul(x[i], y[i]))
	}
	gs, gi := PV(&a).Sum(), PV(&a).InnerProduct(b)
	same2 := func(what string, e U, w *big.Int) {
		if g := P(&e).BigInt(new(big.Int)); g.Cmp(new(big.Int).Mod(w, p)) != 0 {
			c.Fatalf("%s: %s over %d entries is %v, want %v", f.Name, what, n, g, new(big.Int).Mod(w, p))
		}
	}
	same2("Vector.Sum", gs, sum)
	same2("Vector.InnerProduct", gi, in)
	// inverses
	inv := make([]*big.Int, n)
	for i := range inv {
		inv[i] = new(big.Int)
		if x[i].Sign() != 0 {
			inv[i].ModInverse(x[i], p)
		}
	}
	if n > 0 && r.N(2) == 0 {
		i := r.N(n)
		P(&a[i]).SetUint64(0)
		x[i], inv[i] = new(big.Int), new(big.Int)
	}
	same("BatchInvert", V(k.BatchInvert(a)), inv)
	same("operand of BatchInvert", a, x)
	// marshalling
	enc, err := PV(&a).MarshalBinary()
	if err != nil || len(enc) != 4+n*k.Bytes {
		c.Fatalf("%s: a vector of %d is marshalled to %d bytes (%v)", f.Name, n, len(enc), err)
	}
	for i := range x {
		if new(big.Int).SetBytes(enc[4+i*k.Bytes:4+(i+1)*k.Bytes]).Cmp(x[i]) != 0 {
			c.Fatalf("%s: entry %d of a marshalled vector is not its value", f.Name, i)
		}
	}
	back := make(V, r.N(2*n+1))
	if err := PV(&back).UnmarshalBinary(enc); err != nil || len(back) != n {
		c.Fatalf("%s: a marshalled vector of %d is read as %d entries (%v)", f.Name, n, len(back), err)
	}
	same("unmarshalled vector", back, x)
	var buf bytes.Buffer
	if _, err := PV(&a).WriteTo(&buf); err != nil || !bytes.Equal(buf.Bytes(), enc) {
		c.Fatalf("%s: WriteTo and MarshalBinary disagree (%v)", f.Name, err)
	}
	var back2 V
	if m, err := PV(&back2).ReadFrom(&buf); err != nil || m != int64(len(enc)) || len(back2) != n {
		c.Fatalf("%s: ReadFrom reads %d bytes and %d entries (%v)", f.Name, m, len(back2), err)
	}
	same("vector read", back2, x)
	if n > 0 {
		i, j := r.N(n), r.N(n)
		// entries at or above the modulus are refused
		bad := bytes.Clone(enc)
		new(big.Int).Add(p, big.NewInt(int64(r.N(3)))).FillBytes(bad[4+i*k.Bytes : 4+(i+1)*k.Bytes])
		if err := PV(&back).UnmarshalBinary(bad); err == nil {
			c.Fatalf("%s: an entry above the modulus is read", f.Name)
		}
		if err := PV(&back).UnmarshalBinary(enc[:len(enc)-1-r.N(k.Bytes)]); err == nil {
			c.Fatalf("%s: a truncated vector is read", f.Name)
		}
		if got := PV(&a).Less(i, j); got != (x[i].Cmp(x[j]) < 0) {
			c.Fatalf("%s: Less(%v, %v) is %v", f.Name, x[i], x[j], got)
		}
		if !PV(&a).Equal(back2) {
			c.Fatalf("%s: equal vectors are unequal", f.Name)
		}
		PV(&a).Swap(i, j)
		x[i], x[j] = x[j], x[i]
		same("Swap", a, x)
		P(&back2[i]).Add(&back2[i], func() *U { var e U; return P(&e).SetOne() }())
		P(&a[i]).Set(&back2[i])
		PV(&a).Swap(i, i)
		P(&a[i]).Add(&a[i], func() *U { var e U; return P(&e).SetOne() }())
		if PV(&a).Equal(back2) {
			c.Fatalf("%s: unequal vectors are equal", f.Name)
		}
	}
	if PV(&a).Len() != n {
		c.Fatalf("%s: Len() of %d entries is %d", f.Name, n, PV(&a).Len())
	}
}
