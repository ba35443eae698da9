package zvbuckler

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// ---- the circuit type -----------------------------------------------------

type inner[E bignum.Uint[E]] struct {
	A    buckler.Witness[E]
	P    buckler.PublicWitness[E]
	Note string
	L    []buckler.Witness[E]
}

// circ nests its inputs in every way the compiler walks; fn defines the constraints.
type circ[E bignum.Uint[E]] struct {
	P0   buckler.PublicWitness[E]
	W0   buckler.Witness[E]
	fn   func(*buckler.Context[E], *circ[E])
	Arr  [2]buckler.Witness[E]
	In   inner[E]
	Data []uint64
	Ptr  *inner[E]
	Nil  *inner[E]
	List []inner[E]
	PL   []buckler.PublicWitness[E]
	WL   []buckler.Witness[E]
	Deep [][]buckler.Witness[E]
	PW   *buckler.Witness[E]
	Any  any
}

func (c *circ[E]) Define(ctx *buckler.Context[E]) { c.fn(ctx, c) }

// shape says how long the parts of a circ are.
type shape struct {
	small              bool // only WL and PL are used
	list, pl, wl, deep int
	inL                int
	ptr, pw, any       bool
}

func drawShape(c *vh.Ctx, npw, nw int) shape {
	s := shape{}
	if c.Int(0, 3, "shape") != 0 {
		s.small = true
		s.pl, s.wl = npw, nw
		return s
	}
	s.list, s.deep, s.inL = c.Int(0, 2, "list"), c.Int(0, 2, "deep"), c.Int(0, 1, "inL")
	s.ptr, s.pw, s.any = c.Bool("ptr"), c.Bool("pw"), c.Bool("any")
	for ; s.npw() < npw; s.pl++ {
	}
	for ; s.nw() < nw; s.wl++ {
	}
	return s
}

func (s shape) inners() int {
	n := 1 + s.list
	if s.ptr {
		n++
	}
	if s.any {
		n++
	}
	return n
}

func (s shape) npw() int {
	if s.small {
		return 1 + 1 + s.pl
	}
	return 1 + s.inners() + s.pl
}

func (s shape) nw() int {
	if s.small {
		return 1 + 2 + 1 + s.wl
	}
	n := 3 + s.inners()*(1+s.inL) + s.wl + 2*s.deep
	if s.pw {
		n++
	}
	return n
}

// slots lists the inputs in the order of the fields.
type slots[E bignum.Uint[E]] struct {
	pw []*buckler.PublicWitness[E]
	w  []*buckler.Witness[E]
}

// newCirc builds an empty circuit of the shape.
func newCirc[E bignum.Uint[E]](s shape) (*circ[E], *slots[E]) {
	c := &circ[E]{}
	sl := &slots[E]{}
	in := func(i *inner[E]) {
		sl.w = append(sl.w, &i.A)
		sl.pw = append(sl.pw, &i.P)
		i.L = make([]buckler.Witness[E], s.inL)
		for k := range i.L {
			sl.w = append(sl.w, &i.L[k])
		}
	}
	sl.pw = append(sl.pw, &c.P0)
	sl.w = append(sl.w, &c.W0, &c.Arr[0], &c.Arr[1])
	in(&c.In)
	c.Data = []uint64{1, 2, 3}
	if s.ptr {
		c.Ptr = &inner[E]{}
		in(c.Ptr)
	}
	c.List = make([]inner[E], s.list)
	for i := range c.List {
		in(&c.List[i])
	}
	c.PL = make([]buckler.PublicWitness[E], s.pl)
	for i := range c.PL {
		sl.pw = append(sl.pw, &c.PL[i])
	}
	c.WL = make([]buckler.Witness[E], s.wl)
	for i := range c.WL {
		sl.w = append(sl.w, &c.WL[i])
	}
	for i := 0; i < s.deep; i++ {
		d := make([]buckler.Witness[E], 1+i%2+(1-i%2))
		for k := range d {
			sl.w = append(sl.w, &d[k])
		}
		c.Deep = append(c.Deep, d)
	}
	if s.pw {
		c.PW = new(buckler.Witness[E])
		sl.w = append(sl.w, c.PW)
	}
	if s.any {
		i := &inner[E]{}
		in(i)
		c.Any = i
	}
	return c, sl
}

// ---- linear maps ----------------------------------------------------------

type lmap[E bignum.Uint[E]] struct {
	name  string
	apply func(v []*big.Int) []*big.Int // reference
	chk   buckler.LinearChecker[E]
}

type entry[E bignum.Uint[E]] struct {
	i, j int
	a    E
}

// matMap is a user-defined map given by the nonzero entries of its matrix.
type matMap[E bignum.Uint[E]] struct{ ents []entry[E] }

func (m *matMap[E]) run(vOut, v []E, tr bool) {
	out := make([]E, len(vOut))
	for i := range out {
		out[i] = out[i].New()
	}
	t := v[0].New()
	for _, e := range m.ents {
		i, j := e.i, e.j
		if tr {
			i, j = j, i
		}
		t.Mul(e.a, v[j])
		out[i].Add(out[i], t)
	}
	for i := range out {
		vOut[i].Set(out[i])
	}
}
func (m *matMap[E]) TransformTo(vOut, v []E) { m.run(vOut, v, false) }
func (m *matMap[E]) TransposeTo(vOut, v []E) { m.run(vOut, v, true) }

// scaleMap is a user-defined map passed by value.
type scaleMap[E bignum.Uint[E]] struct{ k int64 }

func (m scaleMap[E]) TransformTo(vOut, v []E) {
	t := v[0].New().SetInt64(m.k)
	for i := range vOut {
		vOut[i].Mul(v[i], t)
	}
}
func (m scaleMap[E]) TransposeTo(vOut, v []E) { m.TransformTo(vOut, v) }

func autRef(N, idx int, v []*big.Int, p *big.Int) []*big.Int {
	out := make([]*big.Int, N)
	for i := range v {
		k := (i*idx%(2*N) + 2*N) % (2 * N)
		x := new(big.Int).Set(v[i])
		if k >= N {
			k -= N
			x.Neg(x)
		}
		out[k] = x.Mod(x, p)
	}
	return out
}

func drawMap[E bignum.Uint[E]](c *vh.Ctx, r *vh.RNG, N int, p *big.Int) *lmap[E] {
	m := &lmap[E]{}
	bigs := func(f func(vOut, v []E)) func(v []*big.Int) []*big.Int {
		return func(v []*big.Int) []*big.Int {
			out := vh.Vec[E](v)
			f(out, vh.Vec[E](v))
			return vh.Bigs(out)
		}
	}
	switch k := r.N(10); k {
	case 0, 1, 2:
		tr := bigpoly.NewCyclotomicTransformer[E](N)
		m.name, m.chk = "ntt", buckler.NewNTTChecker[E](N)
		m.apply = bigs(func(vOut, v []E) { tr.FwdNTTTo(vOut, v) })
	case 3, 4:
		idx := 2*r.N(2*N) + 1
		ev := bigpoly.NewCyclotomicEvaluator[E](N)
		m.name, m.chk = fmt.Sprintf("aut(%d)", idx), buckler.NewAutChecker(ev, idx, false)
		m.apply = func(v []*big.Int) []*big.Int { return autRef(N, idx, v, p) }
	case 5:
		idx := 2*r.N(2*N) + 1
		ev := bigpoly.NewCyclotomicEvaluator[E](N)
		tr := bigpoly.NewCyclotomicTransformer[E](N)
		m.name, m.chk = fmt.Sprintf("autNTT(%d)", idx), buckler.NewAutChecker(ev, idx, true)
		m.apply = func(v []*big.Int) []*big.Int {
			t := vh.Vec[E](v)
			tr.InvNTTTo(t, t)
			u := vh.Vec[E](autRef(N, idx, vh.Bigs(t), p))
			tr.FwdNTTTo(u, u)
			return vh.Bigs(u)
		}
	case 6:
		kk := int64(r.N(5)) - 2
		m.name, m.chk = fmt.Sprintf("scale(%d)", kk), scaleMap[E]{kk}
		m.apply = func(v []*big.Int) []*big.Int {
			out := make([]*big.Int, len(v))
			for i := range out {
				out[i] = new(big.Int).Mul(v[i], big.NewInt(kk))
				out[i].Mod(out[i], p)
			}
			return out
		}
	default:
		mm := &matMap[E]{}
		type bent struct {
			i, j int
			a    *big.Int
		}
		var ents []bent
		switch r.N(5) {
		case 0:
			m.name = "shift"
			s := r.N(N)
			for i := 0; i < N; i++ {
				ents = append(ents, bent{i, (i + s) % N, big.NewInt(1)})
			}
		case 1:
			m.name = "zero"
		case 2:
			m.name = "row" // one row reading everything
			i := r.N(N)
			for j := 0; j < N; j++ {
				ents = append(ents, bent{i, j, r.Interesting(p)})
			}
		default:
			m.name = "sparse"
			for k := 0; k < 1+2*N; k++ {
				ents = append(ents, bent{r.N(N), r.N(N), r.Interesting(p)})
			}
		}
		for _, e := range ents {
			mm.ents = append(mm.ents, entry[E]{e.i, e.j, vh.FromBig[E](e.a)})
		}
		m.chk = mm
		m.apply = func(v []*big.Int) []*big.Int {
			out := make([]*big.Int, len(v))
			for i := range out {
				out[i] = new(big.Int)
			}
			for _, e := range ents {
				out[e.i].Add(out[e.i], new(big.Int).Mul(e.a, v[e.j]))
			}
			for i := range out {
				out[i].Mod(out[i], p)
			}
			return out
		}
	}
	return m
}

// ---- constraints ------------------------------------------------------------

const (
	kArith = iota
	kLin
	kInf
	kTwo
	kApprox
	kSum
)

var kindName = []string{"arith", "lin", "inf", "two", "approx", "sum"}

type term struct {
	c  *big.Int
	pw int // -1: none
	w  []int
}

type con[E bignum.Uint[E]] struct {
	kind   int
	terms  []term
	sum    *big.Int
	out, w int
	bound  *big.Int
	m      *lmap[E]
	tied   []int // entries of the input that the map was made for

	// close is the slot that makes the constraint hold: a term kappa*slot (arith, sum) or the output (lin).
	closeW, closePW int // -1: none
	kappa           *big.Int
	closeAt         int // sum: the solved index
	style           int // how it is entered into the context
}

func (k *con[E]) String() string {
	switch k.kind {
	case kArith, kSum:
		s := kindName[k.kind]
		for _, t := range k.terms {
			s += fmt.Sprintf("+%s*p%d*w%v", short(t.c), t.pw, t.w)
		}
		if k.kind == kSum {
			s += "=" + short(k.sum)
		}
		return s
	case kLin:
		return fmt.Sprintf("w%d=%s(w%d)", k.out, k.m.name, k.w)
	}
	return fmt.Sprintf("%s(w%d)<=%s", kindName[k.kind], k.w, short(k.bound))
}

func short(x *big.Int) string {
	if x.BitLen() > 40 {
		return fmt.Sprintf("[%d bits]", x.BitLen())
	}
	return x.String()
}

// assign is an assignment in big integers.
type assign struct{ pw, w [][]*big.Int }

func cloneBig(v []*big.Int) []*big.Int {
	out := make([]*big.Int, len(v))
	for i := range v {
		out[i] = new(big.Int).Set(v[i])
	}
	return out
}

func (a *assign) clone() *assign {
	b := &assign{}
	for _, v := range a.pw {
		b.pw = append(b.pw, cloneBig(v))
	}
	for _, v := range a.w {
		b.w = append(b.w, cloneBig(v))
	}
	return b
}

type spec[E bignum.Uint[E]] struct {
	f    vh.Field
	N    int
	sh   shape
	cons []*con[E]

	share int // equal inputs are one slice (1), equal entries one element (2)
}

func (sp *spec[E]) String() string {
	return fmt.Sprintf("N=%d shape=%+v share=%d %v", sp.N, sp.sh, sp.share, sp.cons)
}

// evalTerms is the value of a sum of terms at one index.
func (sp *spec[E]) evalTerms(ts []term, a *assign, i int) *big.Int {
	out := new(big.Int)
	for _, t := range ts {
		x := new(big.Int).Set(t.c)
		if t.pw >= 0 {
			x.Mul(x, a.pw[t.pw][i])
		}
		for _, w := range t.w {
			x.Mul(x, a.w[w][i])
			x.Mod(x, sp.f.P)
		}
		out.Add(out, x)
	}
	return out.Mod(out, sp.f.P)
}

func signed(x, p *big.Int) *big.Int {
	h := new(big.Int).Rsh(p, 1)
	y := new(big.Int).Set(x)
	if y.Cmp(h) > 0 {
		y.Sub(y, p)
	}
	return y
}

func infNorm(v []*big.Int, p *big.Int) *big.Int {
	m := new(big.Int)
	for i := range v {
		s := signed(v[i], p)
		s.Abs(s)
		if s.Cmp(m) > 0 {
			m.Set(s)
		}
	}
	return m
}

func sqNorm(v []*big.Int, p *big.Int) *big.Int {
	m, t := new(big.Int), new(big.Int)
	for i := range v {
		m.Add(m, t.Mul(v[i], v[i]))
	}
	return m.Mod(m, p)
}

// holds decides one constraint (approximate norms: within the bound).
func (sp *spec[E]) holds(k *con[E], a *assign) bool {
	switch k.kind {
	case kArith:
		for i := 0; i < sp.N; i++ {
			if sp.evalTerms(k.terms, a, i).Sign() != 0 {
				return false
			}
		}
		return true
	case kSum:
		s := new(big.Int)
		for i := 0; i < sp.N; i++ {
			s.Add(s, sp.evalTerms(k.terms, a, i))
		}
		s.Sub(s, k.sum)
		return s.Mod(s, sp.f.P).Sign() == 0
	case kLin:
		return vh.EqBigs(k.m.apply(a.w[k.w]), a.w[k.out])
	case kInf, kApprox:
		return infNorm(a.w[k.w], sp.f.P).Cmp(k.bound) <= 0
	case kTwo:
		return sqNorm(a.w[k.w], sp.f.P).Cmp(k.bound) <= 0
	}
	panic("kind")
}

func (sp *spec[E]) failing(a *assign) (bad []int) {
	for i, k := range sp.cons {
		if !sp.holds(k, a) {
			bad = append(bad, i)
		}
	}
	return
}

// solve recomputes every closing slot in order; delta gives the residual to leave in a constraint.
func (sp *spec[E]) solve(a *assign, delta map[int][]*big.Int) {
	p := sp.f.P
	for ci, k := range sp.cons {
		d := func(i int) *big.Int {
			if v := delta[ci]; v != nil {
				return v[i]
			}
			return new(big.Int)
		}
		switch k.kind {
		case kLin:
			if k.closeW >= 0 {
				out := k.m.apply(a.w[k.w])
				for i := range out {
					out[i].Add(out[i], d(i))
					out[i].Mod(out[i], p)
				}
				a.w[k.out] = out
			}
		case kArith, kSum:
			slot := k.slot(a)
			if slot == nil {
				continue
			}
			inv := new(big.Int).ModInverse(k.kappa, p)
			if k.kind == kArith {
				for i := 0; i < sp.N; i++ {
					slot[i].SetUint64(0)
					x := sp.evalTerms(k.terms, a, i)
					x.Sub(d(i), x)
					x.Mul(x, inv)
					slot[i].Mod(x, p)
				}
			} else {
				slot[k.closeAt].SetUint64(0)
				x := new(big.Int).Neg(k.sum)
				for i := 0; i < sp.N; i++ {
					x.Add(x, sp.evalTerms(k.terms, a, i))
				}
				x.Sub(d(0), x)
				x.Mul(x, inv)
				slot[k.closeAt].Mod(x, p)
			}
		}
	}
}

func (k *con[E]) slot(a *assign) []*big.Int {
	if k.closeW >= 0 {
		return a.w[k.closeW]
	}
	if k.closePW >= 0 {
		return a.pw[k.closePW]
	}
	return nil
}

// define enters the constraints into the context.
func (sp *spec[E]) define(sl *slots[E]) func(*buckler.Context[E], *circ[E]) {
	return func(ctx *buckler.Context[E], _ *circ[E]) {
		for _, k := range sp.cons {
			enter(ctx, sl, k)
		}
	}
}

func enter[E bignum.Uint[E]](ctx *buckler.Context[E], sl *slots[E], k *con[E]) {
	var z E
	switch k.kind {
	case kArith, kSum:
		var ac buckler.ArithmeticConstraint[E]
		one, m1 := big.NewInt(1), big.NewInt(-1)
		scratch := z.New()
		for _, t := range k.terms {
			var pw buckler.PublicWitness[E]
			if t.pw >= 0 {
				pw = *sl.pw[t.pw]
			}
			var ws []buckler.Witness[E]
			for _, w := range t.w {
				ws = append(ws, *sl.w[w])
			}
			switch {
			case k.style&1 == 1 && t.c.Cmp(one) == 0:
				ac.AddTerm(pw, ws...)
			case k.style&1 == 1 && t.c.Cmp(m1) == 0:
				ac.SubTerm(pw, ws...)
			case k.style&2 == 2:
				ac.AddTermWithConst(scratch.SetBigInt(t.c), pw, ws...)
			default:
				ac.AddTermWithConst(vh.FromBig[E](new(big.Int).Mod(t.c, modOf[E]())), pw, ws...)
			}
		}
		if k.kind == kArith {
			if k.style&4 == 4 { // extend a copy afterwards; the entered constraint must not notice
				ctx.AddArithmeticConstraint(ac)
				other := ac
				other.AddTermWithConst(z.New().SetUint64(5), nil)
				return
			}
			ctx.AddArithmeticConstraint(ac)
			return
		}
		if k.style&4 == 4 && k.sum.IsUint64() {
			ctx.AddSumCheckConstraint(ac, k.sum.Uint64())
		} else {
			b := new(big.Int).Set(k.sum)
			ctx.AddSumCheckConstraintBig(ac, b)
			b.SetUint64(12345)
		}
	case kLin:
		ctx.AddLinearConstraint(*sl.w[k.out], *sl.w[k.w], k.m.chk)
	case kInf, kTwo, kApprox:
		w := *sl.w[k.w]
		if k.style&4 == 4 && k.bound.IsUint64() {
			b := k.bound.Uint64()
			switch k.kind {
			case kInf:
				ctx.AddInfNormConstraint(w, b)
			case kTwo:
				ctx.AddSqTwoNormConstraint(w, b)
			default:
				ctx.AddApproxInfNormConstraint(w, b)
			}
			return
		}
		b := new(big.Int).Set(k.bound)
		switch k.kind {
		case kInf:
			ctx.AddInfNormConstraintBig(w, b)
		case kTwo:
			ctx.AddSqNormConstraintBig(w, b)
		default:
			ctx.AddApproxInfNormConstraintBig(w, b)
		}
		b.SetUint64(12345)
	}
}

func modOf[E bignum.Uint[E]]() *big.Int {
	var z E
	m := z.New().SetInt64(-1).BigInt(new(big.Int))
	return m.Add(m, big.NewInt(1))
}

// ---- compiled circuits --------------------------------------------------------

type pair[E bignum.Uint[E]] struct {
	sp  *spec[E]
	crs []byte
	prv *buckler.Prover[E]
	vrf *buckler.Verifier[E]
}

func compile[E bignum.Uint[E]](c *vh.Ctx, sp *spec[E], crs string) *pair[E] {
	cc, sl := newCirc[E](sp.sh)
	cc.fn = sp.define(sl)
	prv, vrf, err := buckler.Compile(sp.N, cc, []byte(crs))
	if err != nil {
		c.Fatalf("circuit does not compile: %v (%v)", err, sp)
	}
	return &pair[E]{sp, []byte(crs), prv, vrf}
}

// fill turns an assignment into a circuit; without the witnesses if public is set.
func (sp *spec[E]) fill(a *assign, public bool) *circ[E] {
	cc, sl := newCirc[E](sp.sh)
	slices, elems := map[string][]E{}, map[string]E{}
	vec := func(x []*big.Int) []E {
		switch sp.share {
		case 1:
			k := fmt.Sprint(x)
			if slices[k] == nil {
				slices[k] = vh.Vec[E](x)
			}
			return slices[k]
		case 2:
			out := make([]E, len(x))
			for i := range x {
				k := x[i].String()
				if _, ok := elems[k]; !ok {
					elems[k] = vh.FromBig[E](x[i])
				}
				out[i] = elems[k]
			}
			return out
		}
		return vh.Vec[E](x)
	}
	for i := range sl.pw {
		*sl.pw[i] = vec(a.pw[i])
	}
	if !public {
		for i := range sl.w {
			*sl.w[i] = vec(a.w[i])
		}
	}
	return cc
}

// run proves and verifies; it returns nil if there is no proof.
func (pr *pair[E]) run(a *assign) (*buckler.Proof[E], bool) {
	pf, err := pr.prv.Prove(pr.sp.fill(a, false))
	if err != nil {
		return nil, false
	}
	return pf, pr.vrf.Verify(pr.sp.fill(a, true), pf)
}
