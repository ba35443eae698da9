package zvbuckler

import (
	"math/big"
	"testing"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// badVec makes a vector that is no assignment for rank N.
func badVec[E bignum.Uint[E]](r *vh.RNG, v []E) ([]E, string) {
	var z E
	N := len(v)
	w := vh.Clone(v)
	switch r.N(8) {
	case 0:
		return nil, "missing"
	case 1:
		return w[:0], "empty"
	case 2:
		return w[:N-1], "one short"
	case 3:
		return append(w, z.New()), "one long"
	case 4:
		return append(w, vh.Clone(v)...), "twice as long"
	case 5:
		return append(w, make([]E, N)...)[: N+1+r.N(N) : 2*N], "long with nil elements"
	case 6:
		if N > 1 {
			return w[:N/2], "half as long"
		}
		fallthrough
	default:
		i := r.N(N)
		w[i] = z
		return w, "a nil element"
	}
}

// otherInner has its inputs in other places than inner.
type otherInner[E bignum.Uint[E]] struct {
	Note string
	A    buckler.Witness[E]
	L    []buckler.Witness[E]
	P    buckler.PublicWitness[E]
}

// otherCirc is another circuit type with the same inputs.
type otherCirc[E bignum.Uint[E]] struct{ circ[E] }

func (c *otherCirc[E]) Define(ctx *buckler.Context[E]) { c.fn(ctx, &c.circ) }

// twinCirc is another circuit type with its inputs in the same places.
type twinCirc[E bignum.Uint[E]] circ[E]

func (c *twinCirc[E]) Define(ctx *buckler.Context[E]) { c.fn(ctx, (*circ[E])(c)) }

// inputs lists the inputs of a circuit, however malformed, in the order of the fields.
func inputs[E bignum.Uint[E]](c *circ[E]) *slots[E] {
	sl := &slots[E]{}
	in := func(i *inner[E]) {
		if i == nil {
			return
		}
		sl.w = append(sl.w, &i.A)
		sl.pw = append(sl.pw, &i.P)
		for k := range i.L {
			sl.w = append(sl.w, &i.L[k])
		}
	}
	sl.pw = append(sl.pw, &c.P0)
	sl.w = append(sl.w, &c.W0, &c.Arr[0], &c.Arr[1])
	in(&c.In)
	in(c.Ptr)
	in(c.Nil)
	for i := range c.List {
		in(&c.List[i])
	}
	for i := range c.PL {
		sl.pw = append(sl.pw, &c.PL[i])
	}
	for i := range c.WL {
		sl.w = append(sl.w, &c.WL[i])
	}
	for _, d := range c.Deep {
		for k := range d {
			sl.w = append(sl.w, &d[k])
		}
	}
	if c.PW != nil {
		sl.w = append(sl.w, c.PW)
	}
	switch x := c.Any.(type) {
	case *inner[E]:
		in(x)
	case *[]inner[E]:
		for i := range *x {
			in(&(*x)[i])
		}
	}
	return sl
}

// malform breaks a well-formed assignment: inputs are damaged, or they are in the wrong places,
// sometimes so that the list of all their values stays the same.
func malform[E bignum.Uint[E]](r *vh.RNG, sh shape, cc *circ[E], sl *slots[E], public bool) (c buckler.Circuit[E], what string) {
	var pws, ws [][]E
	for _, v := range sl.pw {
		pws = append(pws, *v)
	}
	for _, v := range sl.w {
		ws = append(ws, *v)
	}
	bad, what, moved := malform1(r, sh, cc, sl, public)
	if q, ok := bad.(*circ[E]); ok && q != nil && moved && r.N(4) != 0 {
		at := inputs(q)
		for i := 0; i < len(pws) && i < len(at.pw); i++ {
			*at.pw[i] = pws[i]
		}
		for i := 0; i < len(ws) && i < len(at.w); i++ {
			*at.w[i] = ws[i]
		}
		if len(pws) == len(at.pw) && len(ws) == len(at.w) {
			what += ", same values"
		}
	}
	return bad, what
}

// malform1 affects the public inputs if public is set.
func malform1[E bignum.Uint[E]](r *vh.RNG, sh shape, cc *circ[E], sl *slots[E], public bool) (c buckler.Circuit[E], what string, moved bool) {
	N := len(*sl.pw[0])
	vec := func() []E {
		var z E
		v := make([]E, N)
		for i := range v {
			v[i] = z.New().SetUint64(uint64(r.N(3)))
		}
		return v
	}
	inn := func() inner[E] {
		x := inner[E]{A: vec(), P: vec()}
		for i := 0; i < sh.inL; i++ {
			x.L = append(x.L, vec())
		}
		return x
	}
	for {
		switch op := r.N(16); {
		case op < 5 && !public:
			i := r.N(len(sl.w))
			v, w := badVec(r, *sl.w[i])
			*sl.w[i] = v
			return cc, "witness " + w, false
		case op < 5:
			i := r.N(len(sl.pw))
			v, w := badVec(r, *sl.pw[i])
			*sl.pw[i] = v
			return cc, "public input " + w, false
		case op == 5 && len(cc.PL) > 0:
			k := r.N(len(cc.PL))
			cc.PL = append(cc.PL[:k:k], cc.PL[k+1:]...)
			return cc, "a public input less in a list", true
		case op == 6:
			cc.PL = append(cc.PL[:len(cc.PL):len(cc.PL)], vec())
			return cc, "a public input more in a list", true
		case op == 7 && !public && len(cc.WL) > 0:
			k := r.N(len(cc.WL))
			cc.WL = append(cc.WL[:k:k], cc.WL[k+1:]...)
			if len(cc.Deep) > 0 && r.N(2) == 0 {
				cc.Deep[0] = append(cc.Deep[0], vec())
				return cc, "a witness moved to a later list", true
			}
			if sh.pw {
				return cc, "a witness less in a list", true
			}
			if r.N(2) == 0 {
				cc.PW = new(buckler.Witness[E])
				*cc.PW = vec()
				return cc, "a witness moved behind a pointer", true
			}
			return cc, "a witness less in a list", true
		case op == 8 && !public:
			cc.WL = append(cc.WL[:len(cc.WL):len(cc.WL)], vec())
			if sh.pw && r.N(2) == 0 {
				cc.PW = nil
				return cc, "a witness moved to an earlier list", true
			}
			return cc, "a witness more in a list", true
		case op == 9 && sh.list > 0:
			cc.List = cc.List[:len(cc.List)-1]
			if r.N(2) == 0 {
				cc.PL = append([]buckler.PublicWitness[E]{vec()}, cc.PL...)
				cc.WL = append(make([]buckler.Witness[E], 0), cc.WL...)
				for i := 0; i <= sh.inL; i++ {
					cc.WL = append(cc.WL, vec())
				}
				return cc, "a struct of a list moved into other lists", true
			}
			return cc, "a struct less in a list", true
		case op == 10:
			cc.List = append(cc.List[:len(cc.List):len(cc.List)], inn())
			return cc, "a struct more in a list", true
		case op == 11:
			x := inn()
			if cc.Ptr != nil {
				cc.Ptr = nil
				if r.N(2) == 0 {
					cc.Nil = &x
					return cc, "a struct behind another pointer", true
				}
				return cc, "a nil pointer", true
			}
			cc.Nil = &x
			return cc, "a struct behind a pointer that was nil", true
		case op == 12:
			x := inn()
			if cc.Any == nil {
				cc.Any = &x
				return cc, "an interface that was nil", true
			}
			switch r.N(5) {
			case 0:
				cc.Any = nil
				return cc, "a nil interface", true
			case 1:
				cc.Any = (*inner[E])(nil)
				return cc, "a nil pointer in an interface", true
			case 2:
				cc.Any = &otherInner[E]{A: x.A, P: x.P, L: x.L}
				return cc, "another type in an interface", true
			case 3:
				cc.Any = []uint64{1}
				return cc, "data in an interface", true
			default:
				cc.Any = &[]inner[E]{x, inn()}
				return cc, "a list in an interface", true
			}
		case op == 13 && !public && len(cc.Deep) > 0:
			switch r.N(3) {
			case 0:
				cc.Deep = cc.Deep[:len(cc.Deep)-1]
				return cc, "a list less in a list", true
			case 1:
				cc.Deep[0] = cc.Deep[0][:0]
				return cc, "an empty list in a list", true
			default:
				cc.Deep = append(cc.Deep, []buckler.Witness[E]{vec()})
				return cc, "a list more in a list", true
			}
		case op == 14 && !public && sh.inL > 0:
			cc.In.L = nil
			return cc, "a nil list", true
		case op == 15:
			switch r.N(5) {
			case 4:
				return (*twinCirc[E])(cc), "a twin circuit type", false
			case 0:
				return nil, "no circuit", true
			case 1:
				return (*circ[E])(nil), "a nil circuit", true
			case 2:
				return &otherCirc[E]{*cc}, "another circuit type", true
			default:
				return &valueCirc[E]{A: cc.W0, P: cc.P0}, "a small circuit type", true
			}
		}
	}
}

func malformedUse[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	g := newGen[E](c, f, []int{1, 2, 4, 8, 16, 32}[c.Int(0, 5, "rank")], c.Int(1, 4, "npw"), c.Int(3, 9, "nw"))
	g.maxDeg = c.Int(1, 3, "deg")
	g.maxInf = 1
	g.free(false)
	g.freePW()
	if r := c.Int(0, 3, "zero"); r == 0 { // an all-zero assignment is what a dropped input would look like
		for _, v := range append(append([][]*big.Int{}, g.a.w...), g.a.pw...) {
			for i := range v {
				v[i].SetUint64(0)
			}
		}
	} else {
		for i := r; i > 0; i-- {
			g.add([]int{kArith, kLin, kInf, kTwo, kSum}[g.r.N(5)])
		}
	}
	if len(g.sp.cons) == 0 {
		g.sp.cons = append(g.sp.cons, &con[E]{kind: kArith, closeW: -1, closePW: -1, terms: []term{{c: big.NewInt(0), pw: 0, w: []int{0, 1}}}})
	}
	g.finish()
	pr := compile(c, g.sp, "Buckler!")
	pf, ok := pr.run(g.a)
	if !ok {
		c.Fatalf("a satisfying assignment is rejected: %v", g.sp)
	}
	build := func(public bool) (*circ[E], *slots[E]) {
		cc, sl := newCirc[E](g.sp.sh)
		for i := range sl.pw {
			*sl.pw[i] = vh.Vec[E](g.a.pw[i])
		}
		for i := range sl.w {
			if !public || g.r.N(2) == 0 { // the verifier may be given witnesses as well
				*sl.w[i] = vh.Vec[E](g.a.w[i])
			}
		}
		return cc, sl
	}
	for t := 0; t < 8; t++ {
		cc, sl := build(false)
		bad, what := malform(g.r, g.sp.sh, cc, sl, g.r.N(2) == 0)
		c.Label("prove: %s", what)
		var err error
		var q *buckler.Proof[E]
		if p, v := vh.MustPanic(func() { q, err = pr.prv.Prove(bad) }); p {
			c.Fatalf("proving panics on %s: %v (%v)", what, v, g.sp)
		}
		if err == nil {
			c.Fatalf("a malformed assignment is proved: %s (%v, verdict %v)", what, g.sp, pr.vrf.Verify(g.sp.fill(g.a, true), q))
		}

		cc, sl = build(true)
		bad, what = malform(g.r, g.sp.sh, cc, sl, true)
		c.Label("verify: %s", what)
		if p, v := vh.MustPanic(func() { ok = pr.vrf.Verify(bad, pf) }); p {
			c.Fatalf("verification panics on %s: %v (%v)", what, v, g.sp)
		}
		if ok {
			c.Fatalf("a proof is accepted for malformed public inputs: %s (%v)", what, g.sp)
		}
		// whatever the witnesses are, verification does not crash
		cc, sl = build(false)
		bad, what = malform(g.r, g.sp.sh, cc, sl, false)
		if p, v := vh.MustPanic(func() { pr.vrf.Verify(bad, pf) }); p {
			c.Fatalf("verification panics on %s: %v (%v)", what, v, g.sp)
		}
		c.NonTrivial()
	}
	if _, ok := pr.run(g.a); !ok || !pr.vrf.Verify(g.sp.fill(g.a, true), pf) {
		c.Fatalf("after malformed uses an honest proof is rejected: %v", g.sp)
	}
}

func TestC30_Use(t *testing.T) {
	vh.Check(t, 60, 2500, func(c *vh.Ctx) {
		pick(c, malformedUse[e110], malformedUse[e220], malformedUse[e440], malformedUse[e880], malformedUse[ebfv], malformedUse[emult])
	})
}

// ---- circuits that cannot be compiled ---------------------------------------------

// valueCirc is defined on values.
type valueCirc[E bignum.Uint[E]] struct {
	A buckler.Witness[E]
	P buckler.PublicWitness[E]
}

func (c valueCirc[E]) Define(ctx *buckler.Context[E]) {}

type node[E bignum.Uint[E]] struct {
	W    buckler.Witness[E]
	P    buckler.PublicWitness[E]
	Next *node[E]
	Many []node[E]
	Any  any
	Anys []any
	note any
}

type secret[E bignum.Uint[E]] struct {
	Data int
	w    buckler.Witness[E]
}
type secretP[E bignum.Uint[E]] struct {
	p buckler.PublicWitness[E]
}
type secretIn[E bignum.Uint[E]] struct{ in node[E] }
type secretPtr[E bignum.Uint[E]] struct{ in *node[E] }
type secretList[E bignum.Uint[E]] struct {
	Data []uint64
	l    []buckler.Witness[E]
}
type secretArr[E bignum.Uint[E]] struct{ l [2]buckler.PublicWitness[E] }
type secretAny[E bignum.Uint[E]] struct{ x any }

// tree is a circuit of any depth.
type tree[E bignum.Uint[E]] struct {
	Root node[E]
	Map  map[string]int
	Func func()
	Chan chan int
	priv struct {
		a, b int
		p    *int
		x    any
		s    [][]string
	}
	Blank error
	want  int // witnesses of the tree
	seen  func(ctx *buckler.Context[E], t *tree[E])
}

func (t *tree[E]) Define(ctx *buckler.Context[E]) { t.seen(ctx, t) }

// secrets are values that hold an input nothing outside can set.
func secrets[E bignum.Uint[E]](r *vh.RNG) (any, string) {
	switch r.N(12) {
	case 0:
		return &secret[E]{}, "unexported witness"
	case 1:
		return &secretP[E]{}, "unexported public input"
	case 2:
		return &secretIn[E]{}, "unexported struct"
	case 3:
		return &secretPtr[E]{&node[E]{}}, "unexported pointer"
	case 4:
		return &secretList[E]{l: make([]buckler.Witness[E], 1)}, "unexported list"
	case 5:
		return &secretArr[E]{}, "unexported array"
	case 6:
		return &secretAny[E]{&node[E]{}}, "unexported interface"
	case 7:
		return node[E]{}, "struct by value in an interface"
	case 8:
		return [1]node[E]{}, "array by value in an interface"
	case 9:
		return buckler.Witness[E](nil), "witness by value in an interface"
	case 10:
		return buckler.PublicWitness[E](nil), "public input by value in an interface"
	default:
		return []any{1, node[E]{}}, "struct by value in a list of interfaces"
	}
}

// harmless are values without inputs or with inputs that can be set.
func harmless[E bignum.Uint[E]](r *vh.RNG) any {
	switch r.N(8) {
	case 0:
		return nil
	case 1:
		return (*node[E])(nil)
	case 2:
		return []node[E]{{}, {}}
	case 3:
		return (*secret[E])(nil)
	case 4:
		return &secretList[E]{Data: []uint64{1}}
	case 5:
		return map[string]buckler.Witness[E]{}
	case 6:
		return "text"
	default:
		return &secretAny[E]{3}
	}
}

// grow makes a random tree and plants x in one of its nodes.
func grow[E bignum.Uint[E]](r *vh.RNG, x any) *tree[E] {
	t := &tree[E]{Map: map[string]int{"a": 1}, Func: func() {}, Chan: make(chan int)}
	t.priv.p, t.priv.x, t.priv.s = new(int), "x", [][]string{{"a"}}
	nodes := []*node[E]{&t.Root}
	at := &t.Root
	for i := r.N(6); i >= 0; i-- {
		switch at = nodes[r.N(len(nodes))]; r.N(4) {
		case 0:
			if at.Next == nil {
				at.Next = &node[E]{}
				nodes = append(nodes, at.Next)
			}
		case 1:
			if at.Many == nil {
				at.Many = make([]node[E], 1+r.N(2))
				for k := range at.Many {
					nodes = append(nodes, &at.Many[k])
				}
			}
		case 2:
			if at.Any == nil {
				n := &node[E]{}
				at.Any = n
				nodes = append(nodes, n)
			}
		case 3:
			n := &node[E]{}
			at.Anys = append(at.Anys, harmless[E](r), n)
			nodes = append(nodes, n)
		}
	}
	at = nodes[r.N(len(nodes))]
	if at.Any == nil && r.N(2) == 0 {
		at.Any = x
	} else {
		at.Anys = append(at.Anys, x, harmless[E](r))
	}
	return t
}

func malformedCircuit[E bignum.Uint[E]](c *vh.Ctx, f vh.Field) {
	r := c.NewRNG("tree")
	N := 1 << r.N(5)
	try := func(cc buckler.Circuit[E]) (err error) {
		if p, v := vh.MustPanic(func() { _, _, err = buckler.Compile(N, cc, []byte("x")) }); p {
			c.Fatalf("compiling panics: %v", v)
		}
		return
	}
	if c.Int(0, 7, "kind") == 0 {
		for what, cc := range map[string]buckler.Circuit[E]{"no circuit": nil, "nil circuit": (*circ[E])(nil),
			"a circuit by value": valueCirc[E]{}, "another nil circuit": (*valueCirc[E])(nil)} {
			if try(cc) == nil {
				c.Fatalf("%s compiles", what)
			}
		}
		c.NonTrivial()
		return
	}
	x, what := secrets[E](r)
	bad := grow[E](r, x)
	bad.seen = func(*buckler.Context[E], *tree[E]) {}
	if try(bad) == nil {
		c.Fatalf("a circuit with an input that cannot be set compiles: %s", what)
	}
	c.Label("%s", what)
	// the same without the offending value compiles
	good := grow[E](r, harmless[E](r))
	ok := false
	good.seen = func(ctx *buckler.Context[E], t *tree[E]) {
		var ac buckler.ArithmeticConstraint[E]
		ac.AddTerm(t.Root.P, t.Root.W)
		ac.SubTerm(nil, t.Root.W)
		ctx.AddArithmeticConstraint(ac)
		ok = true
	}
	if err := try(good); err != nil || !ok {
		c.Fatalf("a circuit with inputs that can all be set does not compile: %v", err)
	}
	c.NonTrivial()
}

func TestC30_Compile(t *testing.T) {
	vh.Check(t, 40, 1500, func(c *vh.Ctx) {
		pick(c, malformedCircuit[e110], malformedCircuit[e220], malformedCircuit[e440], malformedCircuit[e880], malformedCircuit[ebfv], malformedCircuit[emult])
	})
}
