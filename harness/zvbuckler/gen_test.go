package zvbuckler

import (
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// gen grows a circuit together with an assignment that satisfies it.
type gen[E bignum.Uint[E]] struct {
	c   *vh.Ctx
	r   *vh.RNG
	sp  *spec[E]
	a   *assign
	pwU []int // unused slots
	wU  []int
	pwD []int // usable in terms
	wD  []int
	low map[int]*big.Int // witnesses with small signed values: their infinity norm
	fre map[int]bool     // witnesses no constraint solves for

	maxDeg  int
	maxInf  int // bits of the largest infinity bound
	mapPool []*lmap[E]
	repeat  bool // constraints over operands that others already relate
	diag    bool // violations cancel between an index of one constraint and the next of another
}

func newGen[E bignum.Uint[E]](c *vh.Ctx, f vh.Field, N, npw, nw int) *gen[E] {
	sp := &spec[E]{f: f, N: N, sh: drawShape(c, npw, nw)}
	g := &gen[E]{c: c, r: c.NewRNG("circuit"), sp: sp, a: &assign{}, low: map[int]*big.Int{}, fre: map[int]bool{}, maxDeg: 3, maxInf: 12}
	zero := func() []*big.Int {
		v := make([]*big.Int, N)
		for i := range v {
			v[i] = new(big.Int)
		}
		return v
	}
	for i := 0; i < sp.sh.npw(); i++ {
		g.a.pw = append(g.a.pw, zero())
		g.pwU = append(g.pwU, i)
	}
	for i := 0; i < sp.sh.nw(); i++ {
		g.a.w = append(g.a.w, zero())
		g.wU = append(g.wU, i)
	}
	shuffle(g.r, g.pwU)
	shuffle(g.r, g.wU)
	if s := c.Int(0, 5, "share"); s < 3 {
		sp.share = s
		c.Label("share:%d", s)
	}
	c.Note("N=%d", N)
	c.Label("N:%d", N)
	return g
}

func shuffle(r *vh.RNG, v []int) {
	for i := len(v) - 1; i > 0; i-- {
		j := r.N(i + 1)
		v[i], v[j] = v[j], v[i]
	}
}

func pop(v *[]int) int {
	if len(*v) == 0 {
		return -1
	}
	x := (*v)[len(*v)-1]
	*v = (*v)[:len(*v)-1]
	return x
}

// free defines an unused witness; it returns -1 if there is none.
func (g *gen[E]) free(lowOnly bool) int {
	s := pop(&g.wU)
	if s < 0 {
		return -1
	}
	p := g.sp.f.P
	k := g.r.N(8)
	if lowOnly {
		k = g.r.N(5)
	}
	v := g.a.w[s]
	set := func(i int, x int64) { v[i].Mod(big.NewInt(x), p) }
	switch k {
	case 0: // zero
	case 1:
		for i := range v {
			set(i, int64(g.r.N(3))-1)
		}
	case 2:
		b := int64(1) << uint(1+g.r.N(g.maxInf))
		for i := range v {
			set(i, int64(g.r.N(int(2*b+1)))-b)
		}
	case 3: // one large entry among small ones
		for i := range v {
			set(i, int64(g.r.N(2)))
		}
		b := int64(1) << uint(1+g.r.N(g.maxInf))
		set(g.r.N(g.sp.N), b-2*b*int64(g.r.N(2)))
	case 4:
		for i := range v {
			set(i, 1)
		}
	case 5:
		x := g.r.Interesting(p)
		for i := range v {
			v[i].Set(x)
		}
	case 6:
		for i := range v {
			v[i].Set(g.r.Interesting(p))
		}
	default:
		for i := range v {
			v[i].Set(g.r.Big(p))
		}
	}
	g.wD = append(g.wD, s)
	g.fre[s] = true
	if n := infNorm(v, p); n.BitLen() <= g.maxInf+1 {
		g.low[s] = n
	}
	return s
}

func (g *gen[E]) freePW() int {
	s := pop(&g.pwU)
	if s < 0 {
		return -1
	}
	v := g.a.pw[s]
	k := g.r.N(4)
	for i := range v {
		switch k {
		case 0:
			v[i].SetUint64(g.r.U64() % 3)
		case 1:
			v[i].Set(g.r.Interesting(g.sp.f.P))
		default:
			v[i].Set(g.r.Big(g.sp.f.P))
		}
	}
	g.pwD = append(g.pwD, s)
	return s
}

func (g *gen[E]) anyW() int {
	if len(g.wD) == 0 {
		return g.free(false)
	}
	return g.wD[g.r.N(len(g.wD))]
}

// terms draws up to n terms over the defined slots.
func (g *gen[E]) terms(n int) (ts []term) {
	p := g.sp.f.P
	for k := 0; k < n; k++ {
		t := term{c: g.r.Interesting(p), pw: -1}
		switch g.r.N(4) {
		case 0:
			t.c = big.NewInt(1)
		case 1:
			t.c = big.NewInt(-1)
		}
		if len(g.pwD) > 0 && g.r.N(3) == 0 {
			t.pw = g.pwD[g.r.N(len(g.pwD))]
		}
		deg := g.r.N(g.maxDeg + 1)
		for d := 0; d < deg; d++ {
			t.w = append(t.w, g.anyW())
		}
		ts = append(ts, t)
	}
	return
}

func (g *gen[E]) kap() *big.Int {
	switch g.r.N(3) {
	case 0:
		return big.NewInt(1)
	case 1:
		return big.NewInt(-1)
	}
	x := g.r.Interesting(g.sp.f.P)
	if x.Sign() == 0 {
		x.SetUint64(1)
	}
	return x
}

// closer reserves a slot for the closing term.
func (g *gen[E]) closer(k *con[E]) {
	k.closeW, k.closePW = -1, -1
	k.kappa = g.kap()
	if g.r.N(2) == 0 && len(g.pwU) > 0 {
		k.closePW = pop(&g.pwU)
	} else if k.closeW = pop(&g.wU); k.closeW < 0 {
		k.closePW = pop(&g.pwU)
	}
	switch {
	case k.closePW >= 0:
		k.terms = append(k.terms, term{c: k.kappa, pw: k.closePW})
	case k.closeW >= 0:
		k.terms = append(k.terms, term{c: k.kappa, pw: -1, w: []int{k.closeW}})
	}
	// the closing term need not come last
	i, n := g.r.N(len(k.terms)), len(k.terms)-1
	k.terms[i], k.terms[n] = k.terms[n], k.terms[i]
}

func (g *gen[E]) done(k *con[E]) {
	if k.closePW >= 0 {
		g.pwD = append(g.pwD, k.closePW)
	}
	if k.closeW >= 0 {
		g.wD = append(g.wD, k.closeW)
	}
	g.sp.cons = append(g.sp.cons, k)
	// solve only what is new
	one := *g.sp
	one.cons = g.sp.cons[len(g.sp.cons)-1:]
	one.solve(g.a, nil)
}

// add appends a constraint of the kind; it reports whether there was room for it.
func (g *gen[E]) add(kind int) bool {
	p := g.sp.f.P
	k := &con[E]{kind: kind, closeW: -1, closePW: -1, style: g.r.N(8)}
	if g.repeat && g.r.N(8) == 0 {
		for _, o := range g.sp.cons {
			if o.kind == kind && g.r.N(2) == 0 { // once more
				*k = *o
				k.style, k.closeW, k.closePW = g.r.N(8), -1, -1
				g.c.Label("entered twice")
				g.done(k)
				return true
			}
			if o.kind == kArith && kind == kSum { // its sum
				k.terms, k.sum = append([]term{}, o.terms...), new(big.Int)
				shuffleTerms(g.r, k.terms)
				g.c.Label("sum of an arithmetic constraint")
				g.done(k)
				return true
			}
		}
	}
	switch kind {
	case kArith:
		if g.r.N(4) == 0 { // binary or ternary constraint on a fresh witness
			w := pop(&g.wU)
			if w < 0 {
				return false
			}
			tern := g.r.N(2)
			for i := range g.a.w[w] {
				g.a.w[w][i].Mod(big.NewInt(int64(g.r.N(2+tern))-int64(tern)), p)
			}
			sq := []int{w, w}
			if tern == 1 {
				sq = []int{w, w, w}
			}
			k.terms = []term{{c: big.NewInt(1), pw: -1, w: sq}, {c: big.NewInt(-1), pw: -1, w: []int{w}}}
			g.wD = append(g.wD, w)
			g.fre[w] = true
			g.low[w] = infNorm(g.a.w[w], p)
			break
		}
		if len(g.wU)+len(g.pwU) == 0 {
			return false
		}
		k.terms = g.terms(g.r.N(4))
		if len(g.wU)+len(g.pwU) == 0 {
			return false
		}
		g.closer(k)
	case kSum:
		k.sum = g.r.Interesting(p)
		switch g.r.N(4) {
		case 0:
			k.sum = new(big.Int)
		case 1:
			k.sum = new(big.Int).Add(k.sum, new(big.Int).Mul(p, big.NewInt(int64(g.r.N(4))-1)))
		case 2:
			k.sum = vh.U(g.r.U64() % 1000)
			if g.r.N(2) == 0 { // around the ends of machine words
				k.sum = vh.U([]uint64{1<<63 - 1, 1 << 63, 1<<63 + g.r.U64()>>1, 1<<64 - 1, 1 << 32, 1<<31 + g.r.U64()>>33}[g.r.N(6)])
				k.style |= 4
			}
		}
		k.closeAt = g.r.N(g.sp.N)
		if g.r.N(3) == 0 && len(g.wD) > 0 { // no closer: declare the actual sum
			k.terms = g.terms(1 + g.r.N(3))
			s := new(big.Int)
			for i := 0; i < g.sp.N; i++ {
				s.Add(s, g.sp.evalTerms(k.terms, g.a, i))
			}
			k.sum = s.Mod(s, p)
			if g.r.N(4) == 0 {
				k.sum.Add(k.sum, p)
			}
			break
		}
		k.terms = g.terms(g.r.N(3))
		if len(g.wU)+len(g.pwU) == 0 {
			return false
		}
		g.closer(k)
		slot := k.slot(g.a)
		for i := range slot {
			slot[i].Set(g.r.Interesting(p))
		}
	case kLin:
		if g.repeat && g.sp.N > 1 && g.r.N(2) == 0 && g.tie(k) {
			break
		}
		if len(g.mapPool) > 0 && g.r.N(3) == 0 {
			k.m = g.mapPool[g.r.N(len(g.mapPool))]
		} else {
			k.m = drawMap[E](g.c, g.r, g.sp.N, p)
			g.mapPool = append(g.mapPool, k.m)
		}
		k.w = g.anyW()
		k.out = pop(&g.wU)
		if k.out < 0 || k.w < 0 {
			return false
		}
		k.closeW = k.out
		g.c.Label("map:%.4s", k.m.name)
	case kInf, kTwo, kApprox:
		w := -1
		reused := false
		if g.repeat && g.r.N(3) > 0 || g.r.N(2) == 0 {
			for _, s := range g.wD { // several constraints on one witness
				if g.low[s] != nil && g.fre[s] {
					w, reused = s, true
				}
			}
		}
		if w < 0 {
			if w = g.free(true); w < 0 {
				return false
			}
		}
		k.w = w
		n := infNorm(g.a.w[w], p)
		if kind == kTwo {
			n = sqNorm(g.a.w[w], p)
		}
		b := new(big.Int).Set(n)
		op := g.r.N(5)
		if prev := g.bounded(kind, w); prev != nil && g.r.N(3) > 0 { // near the bound that is there
			b.Set(prev)
			switch g.r.N(4) {
			case 0:
				b.Add(b, big.NewInt(1))
			case 1:
				b.Sub(b, big.NewInt(1))
			case 2:
				b.Add(n, g.r.Big(new(big.Int).Add(new(big.Int).Sub(b, n), big.NewInt(1))))
			}
			if b.Cmp(n) < 0 {
				b.Set(n)
			}
			op = 0
		}
		switch op {
		case 0, 1:
		case 2:
			b.Add(b, vh.U(g.r.U64()%4))
		case 4:
			b.Add(b, vh.U(g.r.U64()%(1<<uint(b.BitLen()))))
		case 3: // the next power of two
			t := big.NewInt(1)
			for t.Cmp(b) < 0 {
				t.Lsh(t, 1)
			}
			b = t
		}
		if kind == kTwo && b.BitLen() > g.sp.N && n.BitLen() <= g.sp.N {
			b.Set(n)
		}
		if kind == kTwo && b.BitLen() > g.sp.N { // more digits than entries
			if reused {
				return false
			}
			for i := range g.a.w[w] {
				g.a.w[w][i].SetUint64(0)
			}
			g.a.w[w][g.r.N(g.sp.N)].SetUint64(uint64(g.r.N(2)))
			b.SetUint64(1)
			g.low[w] = big.NewInt(1)
		}
		k.bound = b
	}
	g.done(k)
	return true
}

// bounded gives the last bound of the kind on the witness.
func (g *gen[E]) bounded(kind, w int) (b *big.Int) {
	for _, k := range g.sp.cons {
		if k.kind == kind && k.w == w {
			b = k.bound
		}
	}
	return
}

// tie makes k relate two witnesses that are already there, often a pair that another map relates or
// a witness with itself, by a map that holds for the present contents only.
func (g *gen[E]) tie(k *con[E]) bool {
	in, out := -1, -1
	var pairs []*con[E]
	for _, o := range g.sp.cons {
		if o.kind == kLin {
			pairs = append(pairs, o)
		}
	}
	if len(g.wD) == 0 {
		return false
	}
	in, out = g.wD[g.r.N(len(g.wD))], g.wD[g.r.N(len(g.wD))]
	what := "tied"
	switch op := g.r.N(4); {
	case op <= 1 && len(pairs) > 0:
		o := pairs[g.r.N(len(pairs))]
		in, out = o.w, o.out
		what = "tied pair"
		if op == 0 && g.r.N(2) == 0 {
			in, out = out, in
			what = "tied back"
		}
	case op == 2:
		out = in
		what = "tied to itself"
	}
	p := g.sp.f.P
	v, u := g.a.w[in], g.a.w[out]
	N := g.sp.N
	type bent struct {
		i, j int
		a    *big.Int
	}
	var es []bent
	j := -1
	for t, at := 0, g.r.N(N); t < N; t++ {
		if x := (at + t) % N; v[x].Sign() != 0 {
			j = x
		}
	}
	switch {
	case in == out:
		for i := 0; i < N; i++ {
			es = append(es, bent{i, i, big.NewInt(1)})
		}
	case j < 0: // of zero; the map does not matter
		if !vh.EqBigs(u, v) {
			return false
		}
	default:
		inv := new(big.Int).ModInverse(v[j], p)
		for i := 0; i < N; i++ {
			if u[i].Sign() != 0 {
				x := new(big.Int).Mul(u[i], inv)
				es = append(es, bent{i, j, x.Mod(x, p)})
			}
		}
		k.tied = append(k.tied, j)
	}
	// a functional that vanishes on the present contents
	s, t := g.r.N(N), g.r.N(N)
	if s != t {
		k.tied = append(k.tied, s, t)
		ls, lt := new(big.Int).Set(v[t]), new(big.Int).Neg(v[s])
		if v[t].Sign() == 0 && v[s].Sign() == 0 {
			ls, lt = big.NewInt(1), g.residual()
		}
		for n := 1 + g.r.N(3); n > 0; n-- {
			i, y := g.r.N(N), g.residual()
			es = append(es, bent{i, s, new(big.Int).Mod(new(big.Int).Mul(y, ls), p)}, bent{i, t, new(big.Int).Mod(new(big.Int).Mul(y, lt), p)})
		}
	}
	mm := &matMap[E]{}
	for _, e := range es {
		mm.ents = append(mm.ents, entry[E]{e.i, e.j, vh.FromBig[E](e.a)})
	}
	k.w, k.out = in, out
	k.m = &lmap[E]{name: what, chk: mm, apply: func(v []*big.Int) []*big.Int {
		o := make([]*big.Int, len(v))
		for i := range o {
			o[i] = new(big.Int)
		}
		for _, e := range es {
			o[e.i].Add(o[e.i], new(big.Int).Mul(e.a, v[e.j]))
		}
		for i := range o {
			o[i].Mod(o[i], p)
		}
		return o
	}}
	g.c.Label("map:%s", what)
	return true
}

func shuffleTerms(r *vh.RNG, v []term) {
	for i := len(v) - 1; i > 0; i-- {
		j := r.N(i + 1)
		v[i], v[j] = v[j], v[i]
	}
}

// finish gives leftover slots random contents.
func (g *gen[E]) finish() {
	for len(g.wU) > 0 {
		g.free(false)
	}
	for len(g.pwU) > 0 {
		g.freePW()
	}
	g.c.Note("%v", g.sp.cons)
}

// residual draws a nonzero value, small or large.
func (g *gen[E]) residual() *big.Int {
	x := g.r.Interesting(g.sp.f.P)
	if x.Sign() == 0 {
		x.SetUint64(1)
	}
	return x
}

func (g *gen[E]) zeros() []*big.Int {
	v := make([]*big.Int, g.sp.N)
	for i := range v {
		v[i] = new(big.Int)
	}
	return v
}

// closable lists the constraints (of the kind, or all for -1) that can be left with a chosen residual.
func (g *gen[E]) closable(kind int) (out []int) {
	for i, k := range g.sp.cons {
		if (kind < 0 || k.kind == kind) && (k.closeW >= 0 || k.closePW >= 0) {
			out = append(out, i)
		}
	}
	return
}

// violate returns an assignment that breaks some constraints in a patterned way, and what it did.
func (g *gen[E]) violate() (*assign, string) {
	p := g.sp.f.P
	a := g.a.clone()
	N := g.sp.N
	delta := map[int][]*big.Int{}
	put := func(ci, i int, x *big.Int) {
		if delta[ci] == nil {
			delta[ci] = g.zeros()
		}
		delta[ci][i].Add(delta[ci][i], x)
		delta[ci][i].Mod(delta[ci][i], p)
	}
	cl := g.closable(-1)
	what := ""
	if g.repeat && g.r.N(2) == 0 { // other contents under which most of the relations still hold
		var ts []*con[E]
		for _, k := range g.sp.cons {
			if len(k.tied) > 0 {
				ts = append(ts, k)
			}
		}
		if len(ts) > 0 {
			k := ts[g.r.N(len(ts))]
			i := k.tied[g.r.N(len(k.tied))]
			a.w[k.w][i].Add(a.w[k.w][i], g.residual())
			a.w[k.w][i].Mod(a.w[k.w][i], p)
			g.sp.solve(a, nil)
			return a, "tie"
		}
	}
	op := g.r.N(8)
	if g.diag {
		op = 2
	}
	switch {
	case op <= 1 && len(cl) > 0: // one index of one constraint
		put(cl[g.r.N(len(cl))], g.r.N(N), g.residual())
		what = "one index"
	case op == 2 && len(cl) > 1: // cancelling across constraints of one kind
		i := cl[g.r.N(len(cl))]
		var js []int
		for _, j := range g.closable(g.sp.cons[i].kind) {
			if j != i {
				js = append(js, j)
			}
		}
		if len(js) == 0 {
			put(i, 0, g.residual())
			what = "one index"
			break
		}
		j := js[g.r.N(len(js))]
		d := g.residual()
		at := g.r.N(N)
		put(i, at, d)
		what = "cancelling across constraints"
		if g.diag || N > 1 && g.r.N(2) == 0 { // at one index and the next
			at = (at + 1 + (N-2)*g.r.N(2)) % N
			what = "cancelling across constraints and indices"
		}
		put(j, at, new(big.Int).Neg(d))
	case op == 3 && len(cl) > 0 && N > 1: // cancelling across indices
		ci := cl[g.r.N(len(cl))]
		d := g.residual()
		i := g.r.N(N)
		put(ci, i, d)
		put(ci, (i+1+g.r.N(N-1))%N, new(big.Int).Neg(d))
		what = "cancelling across indices"
	case op == 4 && len(cl) > 0: // the same residual everywhere
		ci := cl[g.r.N(len(cl))]
		d := g.residual()
		for i := 0; i < N; i++ {
			put(ci, i, d)
		}
		what = "constant residual"
	case op == 5: // a bound exceeded by one, either sign
		var ns []int
		for i, k := range g.sp.cons {
			if k.kind == kInf || k.kind == kTwo {
				ns = append(ns, i)
			}
		}
		if len(ns) == 0 {
			what = "bump"
			g.bump(a)
			return a, what
		}
		k := g.sp.cons[ns[g.r.N(len(ns))]]
		x := new(big.Int).Add(k.bound, big.NewInt(1+int64(g.r.N(2))))
		if k.kind == kTwo {
			x.Sqrt(k.bound)
			x.Add(x, big.NewInt(1))
		}
		if g.r.N(2) == 0 {
			x.Neg(x)
		}
		a.w[k.w][g.r.N(N)].Mod(x, p)
		what = "bound exceeded"
	default:
		g.bump(a)
		return a, "bump"
	}
	g.sp.solve(a, delta)
	return a, what
}

// bump changes one entry of one input without repairing anything.
func (g *gen[E]) bump(a *assign) {
	p := g.sp.f.P
	i := g.r.N(g.sp.N)
	var v []*big.Int
	if n := len(a.w) + len(a.pw); g.r.N(n) < len(a.w) {
		v = a.w[g.r.N(len(a.w))]
	} else {
		v = a.pw[g.r.N(len(a.pw))]
	}
	v[i].Add(v[i], g.residual())
	v[i].Mod(v[i], p)
}
