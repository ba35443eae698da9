package zvbuckler

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"math/big"
	"strings"

	fiatshamir "github.com/consensys/gnark-crypto/fiat-shamir"
	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zverif/vh"
)

// mirror is a reference prover of the circuit protocol, written against the exported
// packages, whose messages can be replaced by those of a cheating prover. It only serves to
// attack the verifier: if its honest proofs are not accepted, it is out of date, and
// only attacks that succeed say anything.
type mirror[E bignum.Uint[E]] struct {
	sp  *spec[E]
	pr  *pair[E]
	N   int
	emb int
	p   *big.Int
	ecd *bigpoly.CyclicTransformer[E]
	ev  *bigpoly.CyclicEvaluator[E]
	jp  *jindo.Prover[E]

	npw, nw int
	arith   [][]mterm[E]
	sums    [][]mterm[E]
	sumVals []*big.Int
	lins    []*mlin[E]
	infs    []*mdig
	twos    []*mdig
	apps    []*mapp
	aMax    int
	sMax    int
	second  []int
	projBuf [][]bool
}

type mterm[E bignum.Uint[E]] struct {
	c  E
	pw int
	w  []int
}

type mlin[E bignum.Uint[E]] struct {
	chk   buckler.LinearChecker[E]
	pairs [][2]int // out, in
}

type mdig struct {
	con          int
	w            int
	d            []int // inf: a witness per digit; two: the one holding the digits
	base         []*big.Int
	pwBase, mask int
}

type mapp struct {
	con        int
	w, pj, dig int
	base       []*big.Int
	bound      *big.Int
}

// digitBase is the mixed base of digits for values up to x.
func digitBase(x *big.Int) (base []*big.Int) {
	rest := new(big.Int).Set(x)
	for rest.Sign() > 0 {
		b := new(big.Int).Add(rest, big.NewInt(1))
		b.Rsh(b, 1)
		base = append(base, b)
		rest = new(big.Int).Sub(rest, b)
	}
	return
}

// digits decomposes a signed number greedily; the rest is what does not fit.
func digits(x *big.Int, base []*big.Int) (d []int64, rest *big.Int) {
	rest = new(big.Int).Set(x)
	for _, b := range base {
		switch {
		case rest.Cmp(b) >= 0:
			d = append(d, 1)
			rest.Sub(rest, b)
		case rest.Cmp(new(big.Int).Neg(b)) <= 0:
			d = append(d, -1)
			rest.Add(rest, b)
		default:
			d = append(d, 0)
		}
	}
	return
}

// projMap is the 0/1 projection, recompMap the recomposition of its digits.
type projMap[E bignum.Uint[E]] struct{ m *[][]bool }

func (c *projMap[E]) TransformTo(vOut, v []E) {
	for i := range vOut {
		vOut[i].SetUint64(0)
	}
	for i, row := range *c.m {
		for j, b := range row {
			if b {
				vOut[i].Add(vOut[i], v[j])
			}
		}
	}
}
func (c *projMap[E]) TransposeTo(vOut, v []E) {
	for i := range vOut {
		vOut[i].SetUint64(0)
	}
	for i, row := range *c.m {
		for j, b := range row {
			if b {
				vOut[j].Add(vOut[j], v[i])
			}
		}
	}
}

type recompMap[E bignum.Uint[E]] struct{ base []E }

func (c *recompMap[E]) TransformTo(vOut, v []E) { panic("unused") }
func (c *recompMap[E]) TransposeTo(vOut, v []E) {
	l := len(c.base)
	for i := range vOut {
		if i/l < len(vOut)/l {
			vOut[i].Mul(c.base[i%l], v[i/l])
		} else {
			vOut[i].SetUint64(0)
		}
	}
}

// variant is a protocol that lacks some of the constraints on auxiliary witnesses: what a
// verifier that forgot them would agree with.
type variant struct {
	freeDigit func(j, n int) bool // infinity norm: digit j of n need not be ternary
	twoDigits int                 // two-norm digits: 0 binary, 1 ternary, 2 binary or masked, 3 anything
	noProj    bool                // approximate norm: the projection need not be one
	freeProj  bool                // approximate norm: its digits need not be ternary
	from      int                 // all this from constraint from-1 on only
}

func newMirror[E bignum.Uint[E]](pr *pair[E], vs ...variant) *mirror[E] {
	var vall, va variant
	if len(vs) > 0 {
		vall = vs[0]
	}
	sp := pr.sp
	m := &mirror[E]{sp: sp, pr: pr, N: sp.N, p: sp.f.P, npw: sp.sh.npw(), nw: sp.sh.nw()}
	N := m.N
	deg := func(ts []mterm[E]) int {
		d := N
		for _, t := range ts {
			k := len(t.w) * N
			if t.pw >= 0 {
				k += N - 1
			}
			d = max(d, k)
		}
		return d + 1
	}
	addA := func(ts ...mterm[E]) {
		m.arith = append(m.arith, ts)
		m.aMax = max(m.aMax, deg(ts))
	}
	addS := func(sum *big.Int, ts ...mterm[E]) {
		m.sums = append(m.sums, ts)
		m.sumVals = append(m.sumVals, sum)
		m.sMax = max(m.sMax, deg(ts))
	}
	e := func(x *big.Int) E { return vh.FromBig[E](new(big.Int).Mod(x, m.p)) }
	i64 := func(x int64) E { return e(big.NewInt(x)) }
	addL := func(chk buckler.LinearChecker[E], out, in int) {
		m.aMax = max(m.aMax, 2*N-1)
		for _, l := range m.lins {
			if l.chk == chk {
				l.pairs = append(l.pairs, [2]int{out, in})
				return
			}
		}
		m.lins = append(m.lins, &mlin[E]{chk, [][2]int{{out, in}}})
	}
	inf := func(ci, w int, bound *big.Int) {
		switch {
		case bound.Sign() == 0:
			addA(mterm[E]{i64(1), -1, []int{w}})
			return
		case bound.Cmp(big.NewInt(1)) == 0:
			addA(mterm[E]{i64(1), -1, []int{w, w, w}}, mterm[E]{i64(-1), -1, []int{w}})
			return
		}
		d := &mdig{con: ci, w: w, base: digitBase(bound)}
		re := []mterm[E]{{i64(1), -1, []int{w}}}
		for _, b := range d.base {
			x := m.nw
			d.d = append(d.d, x)
			m.nw++
			if va.freeDigit == nil || !va.freeDigit(len(re)-1, len(d.base)) {
				addA(mterm[E]{i64(1), -1, []int{x, x, x}}, mterm[E]{i64(-1), -1, []int{x}})
			}
			re = append(re, mterm[E]{e(new(big.Int).Neg(b)), -1, []int{x}})
		}
		addA(re...)
		m.infs = append(m.infs, d)
	}
	var pm *projMap[E]
	for ci, k := range sp.cons {
		if va = vall; va.from > 1+ci {
			va = variant{}
		}
		switch k.kind {
		case kArith, kSum:
			var ts []mterm[E]
			for _, t := range k.terms {
				ts = append(ts, mterm[E]{e(t.c), t.pw, t.w})
			}
			if k.kind == kArith {
				addA(ts...)
			} else {
				addS(k.sum, ts...)
			}
		case kLin:
			addL(k.m.chk, k.out, k.w)
		case kInf:
			inf(ci, k.w, k.bound)
		case kTwo:
			d := &mdig{con: ci, w: k.w, base: digitBase(k.bound), d: []int{m.nw}, pwBase: m.npw, mask: m.npw + 1}
			m.nw++
			m.npw += 2
			x := d.d[0]
			switch va.twoDigits {
			case 0:
				addA(mterm[E]{i64(1), -1, []int{x, x}}, mterm[E]{i64(-1), d.mask, []int{x}})
			case 1:
				addA(mterm[E]{i64(1), -1, []int{x, x, x}}, mterm[E]{i64(-1), d.mask, []int{x}})
			case 2:
				addA(mterm[E]{i64(1), -1, []int{x, x, x}}, mterm[E]{i64(-1), -1, []int{x}})
			}
			addS(new(big.Int), mterm[E]{i64(1), -1, []int{k.w, k.w}}, mterm[E]{i64(-1), d.pwBase, []int{x}})
			m.twos = append(m.twos, d)
		case kApprox:
			if k.bound.Sign() == 0 {
				inf(ci, k.w, k.bound)
				continue
			}
			if pm == nil {
				m.projBuf = make([][]bool, 128)
				for i := range m.projBuf {
					m.projBuf[i] = make([]bool, N)
				}
				pm = &projMap[E]{&m.projBuf}
			}
			a := &mapp{con: ci, w: k.w, pj: m.nw, dig: m.nw + 1}
			m.nw += 2
			a.bound = new(big.Int).Mul(k.bound, big.NewInt(int64(N)))
			a.base = digitBase(a.bound)
			if !va.noProj {
				addL(pm, a.pj, a.w)
			}
			rm := &recompMap[E]{}
			for _, b := range a.base {
				rm.base = append(rm.base, e(b))
			}
			addL(rm, a.pj, a.dig)
			if !va.freeProj {
				inf(ci, a.dig, big.NewInt(1))
			}
			m.apps = append(m.apps, a)
			m.second = append(m.second, a.pj, a.dig)
		}
	}
	m.emb = 1
	for m.emb < max(m.aMax, m.sMax, N+1) {
		m.emb *= 2
	}
	m.emb *= 2 // headroom for cheating
	m.ev = bigpoly.NewCyclicEvaluator[E](m.emb)
	m.ecd = bigpoly.NewCyclicTransformer[E](N)
	m.jp = jindo.NewProver[E](pr.prv.JindoParams, pr.crs)
	return m
}

// remCheat replaces the messages of a linear or sum check.
type remCheat struct {
	degree   int      // 1..: hide the violation in the degree of the remainder; the value picks the shifted remainder sent
	late     string   // element left out of the transcript and chosen last: "quo", "rem", "hi", "mask", "masksum"; or bound to the last challenge only: "masksum first", "masksum last"
	earlySum *big.Int // added to the declared mask sum from the start
	unscaled bool     // plays against a check that does not separate the mask by the challenge
	flat     bool     // plays against a check that gives all constraints the same weight
}

type cheat[E bignum.Uint[E]] struct {
	lateW     int  // 1+i: witness i, linear in the arithmetic constraints, left out of the transcript and chosen last
	noPW      bool // public inputs left out of the transcript
	arithLate bool // quotient left out of the transcript and chosen last
	arithFlat bool // plays against equal weights
	lin, sum  remCheat
	first     func(pw, w [][]E)            // adjusts the auxiliary witnesses of the first round
	then      func(proj [][]bool, w [][]E) // the same for the second round
}

func (m *mirror[E]) zero() []E {
	v := make([]E, m.N)
	for i := range v {
		v[i] = v[i].New()
	}
	return v
}

func (m *mirror[E]) encode(v []E, random bool) *bigpoly.Poly[E] {
	q := m.ev.NewPoly(false)
	m.ecd.InvNTTTo(q.Coeffs[:m.N], v)
	if random {
		q.Coeffs[m.N].MustSetRandom()
		q.Coeffs[0].Sub(q.Coeffs[0], q.Coeffs[m.N])
	}
	return q
}

// batch combines constraint polynomials: the powers of b, or all with weight b.
func (m *mirror[E]) batch(b E, cs [][]mterm[E], pwN, wN []*bigpoly.Poly[E], flat bool) *bigpoly.Poly[E] {
	out := m.ev.NewPoly(true)
	ev, t := m.ev.NewPoly(true), m.ev.NewPoly(true)
	for _, c := range cs {
		ev.Clear()
		for _, x := range c {
			for j := range t.Coeffs {
				t.Coeffs[j].Set(x.c)
			}
			if x.pw >= 0 {
				m.ev.MulTo(t, t, pwN[x.pw])
			}
			for _, w := range x.w {
				m.ev.MulTo(t, t, wN[w])
			}
			m.ev.AddTo(ev, ev, t)
		}
		if !flat {
			m.ev.ScalarMulTo(out, out, b)
		}
		m.ev.AddTo(out, out, ev)
	}
	if flat {
		m.ev.ScalarMulTo(out, out, b)
	}
	return out
}

// expand adds the auxiliary inputs of the first round to an assignment.
func (m *mirror[E]) expand(a *assign) (pw, w [][]E) {
	N := m.N
	for _, v := range a.pw {
		pw = append(pw, vh.Vec[E](v))
	}
	for _, v := range a.w {
		w = append(w, vh.Vec[E](v))
	}
	for len(pw) < m.npw {
		pw = append(pw, m.zero())
	}
	for len(w) < m.nw {
		w = append(w, m.zero())
	}
	for _, d := range m.infs {
		for i := 0; i < N; i++ {
			dg, _ := digits(signed(vh.Big(w[d.w][i]), m.p), d.base)
			for j := range dg {
				w[d.d[j]][i].SetInt64(dg[j])
			}
		}
	}
	for _, d := range m.twos {
		dg, _ := digits(sqNorm(vh.Bigs(w[d.w]), m.p), d.base)
		for j := range dg {
			w[d.d[0]][j].SetInt64(dg[j])
			pw[d.pwBase][j].SetBigInt(d.base[j])
			pw[d.mask][j].SetUint64(1)
		}
	}
	return
}

// project fills in the auxiliary witnesses of the second round.
func (m *mirror[E]) project(pc []byte, w [][]E) {
	N := m.N
	xof := sha3.NewSHAKE128()
	xof.Write(pc)
	var buf [32]byte
	for j := 0; j < N; j++ {
		xof.Read(buf[:])
		for i := range m.projBuf {
			m.projBuf[i][j] = (buf[i/8]>>(i%8))&1 == 0
		}
	}
	for _, x := range m.apps {
		(&projMap[E]{&m.projBuf}).TransformTo(w[x.pj], w[x.w])
		for i := range m.projBuf {
			dg, _ := digits(signed(vh.Big(w[x.pj][i]), m.p), x.base)
			for j := range dg {
				w[x.dig][i*len(dg)+j].SetInt64(dg[j])
			}
		}
	}
}

// linPoly is the polynomial of the linear check without its mask.
func (m *mirror[E]) linPoly(lb, lc []byte, wN []*bigpoly.Poly[E], rc remCheat) *bigpoly.Poly[E] {
	var z E
	N := m.N
	bc, lcc := z.New().SetBytes(lb), z.New().SetBytes(lc)
	vec := make([]E, N)
	vec[0] = z.New().SetUint64(1)
	for i := 1; i < N; i++ {
		vec[i] = z.New().Mul(vec[i-1], lcc)
	}
	vecN := m.ev.NTT(m.encode(vec, false))
	f, t := m.ev.NewPoly(true), m.ev.NewPoly(true)
	for _, l := range m.lins {
		tr := m.zero()
		l.chk.TransposeTo(tr, vec)
		trN := m.ev.NTT(m.encode(tr, false))
		for _, pr := range l.pairs {
			m.ev.MulTo(t, trN, wN[pr[1]])
			m.ev.MulSubTo(t, vecN, wN[pr[0]])
			if !rc.flat {
				m.ev.ScalarMulTo(f, f, bc)
			}
			m.ev.AddTo(f, f, t)
		}
	}
	if !rc.unscaled {
		m.ev.ScalarMulTo(f, f, bc)
	}
	m.ev.InvNTTTo(f, f)
	return f
}

// sumPoly is the polynomial of the sum check without its mask, and the constant it should have.
func (m *mirror[E]) sumPoly(sb []byte, pwN, wN []*bigpoly.Poly[E], rc remCheat) (*bigpoly.Poly[E], E) {
	var z E
	N := m.N
	bc := z.New().SetBytes(sb)
	f := m.batch(bc, m.sums, pwN, wN, rc.flat)
	mean := z.New()
	for _, s := range m.sumVals {
		if !rc.flat {
			mean.Mul(mean, bc)
		}
		mean.Add(mean, vh.FromBig[E](new(big.Int).Mod(s, m.p)))
	}
	if rc.flat {
		mean.Mul(mean, bc)
	}
	if !rc.unscaled {
		m.ev.ScalarMulTo(f, f, bc)
		mean.Mul(mean, bc)
	}
	inv := z.New().SetUint64(uint64(N))
	mean.Mul(mean, inv.Inverse(inv))
	m.ev.InvNTTTo(f, f)
	return f, mean
}

// prove runs the protocol on an assignment.
func (m *mirror[E]) prove(a *assign, ch *cheat[E]) (*buckler.Proof[E], E) {
	var z E
	N := m.N
	params := m.pr.prv.JindoParams
	R := params.Rank()
	pw, w := m.expand(a)
	if ch.first != nil {
		ch.first(pw, w)
	}
	oracle := fiatshamir.NewTranscript(sha256.New(), "projConst", "arithBatchConst", "linCheckBatchConst", "linCheckConst", "sumCheckBatchConst", "evalPoint")
	var before, evalBinds [][]byte // bound to the evaluation point
	bindCom := func(at string, c *jindo.Commitment) {
		var b bytes.Buffer
		c.WriteRawTo(&b)
		if at == "evalPoint" {
			evalBinds = append(evalBinds, b.Bytes())
			return
		}
		oracle.Bind(at, b.Bytes())
	}
	chal := func(at string) []byte {
		b, err := oracle.ComputeChallenge(at)
		if err != nil {
			panic(err)
		}
		return b
	}
	pwN, wN := make([]*bigpoly.Poly[E], m.npw), make([]*bigpoly.Poly[E], m.nw)
	for i := range pw {
		pwN[i] = m.ev.NTT(m.encode(pw[i], false))
		if !ch.noPW {
			var b []byte
			for j := range pw[i] {
				b = append(b, pw[i][j].Marshal()...)
			}
			oracle.Bind("projConst", b)
		}
	}
	var polys [][]E
	var coms []*jindo.Commitment
	var opens []*jindo.Opening
	set := func(i int, q []E) *jindo.Commitment {
		for len(polys) <= i {
			polys, coms, opens = append(polys, nil), append(coms, nil), append(opens, nil)
		}
		polys[i] = q
		coms[i], opens[i] = m.jp.Commit(q)
		return coms[i]
	}
	isSecond := map[int]bool{}
	for _, s := range m.second {
		isSecond[s] = true
	}
	for i := range w {
		if isSecond[i] {
			continue
		}
		q := m.encode(w[i], true)
		wN[i] = m.ev.NTT(q)
		com := set(i, q.Coeffs[:N+1])
		if ch.lateW != i+1 {
			bindCom("projConst", com)
		}
	}
	pc := chal("projConst")
	if len(m.apps) > 0 {
		m.project(pc, w)
		if ch.then != nil {
			ch.then(m.projBuf, w)
		}
	}
	for _, i := range m.second {
		q := m.encode(w[i], true)
		wN[i] = m.ev.NTT(q)
		bindCom("arithBatchConst", set(i, q.Coeffs[:N+1]))
	}
	at := m.nw
	mask := func(n int) *bigpoly.Poly[E] {
		q := m.ev.NewPoly(false)
		for i := 0; i < N; i++ {
			q.Coeffs[i].MustSetRandom()
		}
		for i := N; i < n; i++ {
			q.Coeffs[i].MustSetRandom()
			q.Coeffs[i-N].Sub(q.Coeffs[i-N], q.Coeffs[i])
		}
		return q
	}
	// constant of the remainder of q modulo X^N-1
	constOf := func(q *bigpoly.Poly[E]) E {
		s := z.New()
		for i := 0; i < len(q.Coeffs); i += N {
			s.Add(s, q.Coeffs[i])
		}
		return s
	}
	var lMask, sMask *bigpoly.Poly[E]
	var lSum, sSum E
	doMask := func(n int, rc remCheat) (*bigpoly.Poly[E], E) {
		q := mask(n)
		s := constOf(q)
		if rc.earlySum != nil {
			s.Add(s, vh.FromBig[E](rc.earlySum))
		}
		com := set(at, q.Coeffs[:n])
		if rc.late != "mask" {
			bindCom("arithBatchConst", com)
		}
		if !strings.HasPrefix(rc.late, "masksum") {
			oracle.Bind("arithBatchConst", s.Marshal())
		}
		at++
		return q, s
	}
	var lAt, sAt int
	if len(m.lins) > 0 {
		lAt = at
		lMask, lSum = doMask(2*N, ch.lin)
	}
	if len(m.sums) > 0 {
		sAt = at
		sMask, sSum = doMask(m.sMax, ch.sum)
	}
	b := z.New().SetBytes(chal("arithBatchConst"))
	type lateFn func(x E)
	var lates []lateFn
	vanish := func(x E) E {
		v := bignum.Exp(x, uint64(N))
		return v.Sub(v, z.New().SetUint64(1))
	}
	if len(m.arith) > 0 {
		f := m.batch(b, m.arith, pwN, wN, ch.arithFlat)
		m.ev.InvNTTTo(f, f)
		quo, _ := m.ev.QuoRemByVanishing(f, N)
		i := at
		if k := ch.lateW - 1; k >= 0 { // f(w) = u + v*w at the point, which must be quo*vanish
			one := m.ev.NewPoly(true)
			for j := range one.Coeffs {
				one.Coeffs[j].SetUint64(1)
			}
			old := wN[k]
			wN[k] = m.ev.NewPoly(true)
			u := m.batch(b, m.arith, pwN, wN, false)
			wN[k] = one
			v := m.batch(b, m.arith, pwN, wN, false)
			wN[k] = old
			m.ev.SubTo(v, v, u)
			m.ev.InvNTTTo(u, u)
			m.ev.InvNTTTo(v, v)
			lates = append(lates, func(x E) {
				y := evalPoly(quo.Coeffs[:m.aMax-N], x)
				y.Mul(y, vanish(x))
				y.Sub(y, u.Evaluate(x))
				t := v.Evaluate(x)
				t.Inverse(t)
				set(k, []E{y.Mul(y, t)})
			})
		}
		if ch.arithLate {
			set(i, quo.Coeffs[:m.aMax-N])
			lates = append(lates, func(x E) {
				y := vanish(x)
				y.Inverse(y)
				y.Mul(y, f.Evaluate(x))
				set(i, []E{y})
			})
		} else {
			bindCom("evalPoint", set(i, quo.Coeffs[:m.aMax-N]))
		}
		at++
	}
	lb := chal("linCheckBatchConst")
	lc := chal("linCheckConst")
	finish := func(f *bigpoly.Poly[E], expect E, quoLen int, rc remCheat, maskSum *E, mask *bigpoly.Poly[E], maskAt int) {
		quo, rem := m.ev.QuoRemByVanishing(f, N)
		q := vh.Clone(quo.Coeffs[:quoLen])
		lo := make([]E, N-1)
		for i := range lo {
			lo[i] = z.New().Set(rem.Coeffs[i+1])
		}
		shift := R - (N - 1)
		hi := make([]E, R)
		for i := range hi {
			hi[i] = z.New()
		}
		for i := range lo {
			hi[shift+i].Set(lo[i])
		}
		if rc.degree > 0 {
			cc := z.New().Sub(expect, rem.Coeffs[0])
			if len(q) > 0 {
				q[0].Add(q[0], cc)
			} else {
				q = []E{z.New().Set(cc)}
			}
			lo = append(lo, z.New().Neg(cc))
			switch rc.degree {
			case 1: // as it fits
			case 2: // shifted by one less
				for i := range hi {
					hi[i].SetUint64(0)
				}
				for i := range lo {
					hi[shift-1+i].Set(lo[i])
				}
			case 3:
				for i := range hi {
					hi[i].SetUint64(0)
				}
			case 4: // not shifted at all
				for i := range hi {
					hi[i].SetUint64(0)
				}
				for i := range lo {
					hi[i].Set(lo[i])
				}
			}
		}
		iq, il, ih := at, at+1, at+2
		cq, cl, chh := set(iq, q), set(il, lo), set(ih, hi)
		if rc.late != "quo" {
			bindCom("evalPoint", cq)
		}
		if rc.late != "rem" {
			bindCom("evalPoint", cl)
		}
		if rc.late != "rem" && rc.late != "hi" {
			bindCom("evalPoint", chh)
		}
		switch rc.late {
		case "quo":
			lates = append(lates, func(x E) {
				y := f.Evaluate(x)
				t := evalPoly(lo, x)
				y.Sub(y, t.Mul(t, x))
				y.Sub(y, expect)
				v := vanish(x)
				v.Inverse(v)
				set(iq, []E{y.Mul(y, v)})
			})
		case "rem":
			lates = append(lates, func(x E) {
				y := f.Evaluate(x)
				t := evalPoly(q, x)
				y.Sub(y, t.Mul(t, vanish(x)))
				y.Sub(y, expect)
				v := z.New().Inverse(x)
				y.Mul(y, v)
				set(il, []E{y})
				h := bignum.Exp(x, uint64(shift))
				set(ih, []E{z.New().Mul(h, y)})
			})
		case "hi":
			lates = append(lates, func(x E) {
				h := bignum.Exp(x, uint64(shift))
				set(ih, []E{h.Mul(h, evalPoly(lo, x))})
			})
		case "mask": // the mask is whatever makes the identity hold at the point
			lates = append(lates, func(x E) {
				y := evalPoly(q, x)
				y.Mul(y, vanish(x))
				t := evalPoly(lo, x)
				y.Add(y, t.Mul(t, x))
				y.Add(y, expect)
				y.Sub(y, f.Evaluate(x))
				y.Add(y, mask.Evaluate(x))
				set(maskAt, []E{y})
			})
		case "masksum", "masksum first", "masksum last":
			s := maskSum
			*s = z.New().Add(*s, z.New().Sub(rem.Coeffs[0], expect))
			switch rc.late {
			case "masksum first":
				before = append(before, (*s).Marshal())
			case "masksum last":
				evalBinds = append(evalBinds, (*s).Marshal())
			}
		}
		at += 3
	}
	if len(m.lins) > 0 {
		f := m.linPoly(lb, lc, wN, ch.lin)
		m.ev.AddTo(f, f, lMask)
		finish(f, lSum, N, ch.lin, &lSum, lMask, lAt)
	}
	sb := chal("sumCheckBatchConst")
	if len(m.sums) > 0 {
		f, mean := m.sumPoly(sb, pwN, wN, ch.sum)
		m.ev.AddTo(f, f, sMask)
		finish(f, z.New().Add(mean, sSum), m.sMax-N, ch.sum, &sSum, sMask, sAt)
	}
	for _, b := range append(before, evalBinds...) {
		oracle.Bind("evalPoint", b)
	}
	x := z.New().SetBytes(chal("evalPoint"))
	for _, l := range lates {
		l(x)
	}
	evals, ep := m.jp.Evaluate(x, polys, coms, opens)
	return &buckler.Proof[E]{Witness: coms, LinCheckMaskSum: lSum, SumCheckMaskSum: sSum, Evals: evals, EvalProof: ep}, x
}

func evalPoly[E bignum.Uint[E]](q []E, x E) E {
	out := x.New()
	for i := len(q) - 1; i >= 0; i-- {
		out.Mul(out, x)
		out.Add(out, q[i])
	}
	return out
}

// live tells whether the mirror's honest proofs are accepted. Attacks succeed or fail
// regardless: a verifier that forgets to bind a message agrees only with the attack.
func (m *mirror[E]) live(c *vh.Ctx, a *assign) bool {
	ok := false
	if p, v := vh.MustPanic(func() {
		pf, _ := m.prove(a, &cheat[E]{})
		ok = m.pr.vrf.Verify(m.sp.fill(a, true), pf)
	}); p {
		c.Label("mirror: %v", v)
	}
	if !ok {
		c.Label("reference prover not accepted")
	}
	return ok
}

// attack fails the case if a cheating proof for a false statement is accepted.
func (m *mirror[E]) attack(c *vh.Ctx, what string, a *assign, ch *cheat[E]) {
	var pf *buckler.Proof[E]
	if bad, v := vh.MustPanic(func() { pf, _ = m.prove(a, ch) }); bad {
		c.Label("attack does not fit: %s (%.60s)", what, v)
		return
	}
	c.Label("attack: %s", what)
	if m.pr.vrf.Verify(m.sp.fill(a, true), pf) {
		c.Fatalf("a cheating prover succeeds (%s): %v", what, m.sp)
	}
}
