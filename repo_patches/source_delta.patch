From 637890ae65db5100c22d841efb3bd07fa71204c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 01/29] fix: do not touch memory beyond polynomials of rank
 below 8

The copies in FwdNTTTo, InvNTTTo and Poly.CopyFrom moved eight elements at
a time whatever the length, reading and writing past the end of the slices
for ranks 1, 2 and 4.
---
 math/bigpoly/ntt.go  | 60 +++-----------------------------------------
 math/bigpoly/poly.go | 16 +-----------
 math/bigpoly/vec.go  | 27 ++++++++++++++++++++
 3 files changed, 32 insertions(+), 71 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index d95489c..9695307 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -96,40 +96,14 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
@@ -204,40 +178,14 @@ func NewCyclotomicTransformer[E bignum.Uint[E]](rank int) *CyclotomicTransformer
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
diff --git a/math/bigpoly/poly.go b/math/bigpoly/poly.go
index 8674f9e..80ac9f5 100644
--- a/math/bigpoly/poly.go
+++ b/math/bigpoly/poly.go
@@ -2,7 +2,6 @@ package bigpoly
 
 import (
 	"bytes"
-	"unsafe"
 
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
@@ -42,20 +41,7 @@ func (p *Poly[E]) Marshal() []byte {
 
 // CopyFrom copies p0 to p.
 func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
-	for i := 0; i < len(p.Coeffs); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&p.Coeffs[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&p0.Coeffs[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(p.Coeffs, p0.Coeffs)
 
 	p.IsNTT = p0.IsNTT
 }
diff --git a/math/bigpoly/vec.go b/math/bigpoly/vec.go
index 8c39c46..758bc0a 100644
--- a/math/bigpoly/vec.go
+++ b/math/bigpoly/vec.go
@@ -6,6 +6,33 @@ import (
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
 
+// copyVecTo copies x0 to xOut.
+func copyVecTo[E bignum.Uint[E]](xOut, x0 []E) {
+	if len(x0) < len(xOut) {
+		panic("inconsistent input(s)")
+	}
+
+	M := (len(xOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
+		wOut := (*[8]E)(unsafe.Pointer(&xOut[i]))
+		w0 := (*[8]E)(unsafe.Pointer(&x0[i]))
+
+		wOut[0].Set(w0[0])
+		wOut[1].Set(w0[1])
+		wOut[2].Set(w0[2])
+		wOut[3].Set(w0[3])
+
+		wOut[4].Set(w0[4])
+		wOut[5].Set(w0[5])
+		wOut[6].Set(w0[6])
+		wOut[7].Set(w0[7])
+	}
+
+	for i := M; i < len(xOut); i++ {
+		xOut[i].Set(x0[i])
+	}
+}
+
 func addVecTo[E bignum.Uint[E]](xOut, x0, x1 []E) {
 	M := (len(xOut) >> 3) << 3
 	for i := 0; i < M; i += 8 {
-- 
2.43.0


From 945f526c89aa343efa3d951ffb8fdd22dce970c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 02/29] fix: terminate when building the rank-1 cyclic
 transform

The search for a root of unity never succeeded for rank 1, so
NewCyclicTransformer (and NewCyclicEvaluator) did not return.
---
 math/bigpoly/ntt.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index 9695307..fb46fa6 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -42,8 +42,8 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 	gBig := new(big.Int)
 	gPowBig := new(big.Int)
-	g := z.New()
-	for x := big.NewInt(2); x.Cmp(pBig) < 0; x.Add(x, big.NewInt(1)) {
+	g := z.New().SetUint64(1)
+	for x := big.NewInt(2); rank > 1 && x.Cmp(pBig) < 0; x.Add(x, big.NewInt(1)) {
 		gBig.Exp(x, t1, pBig)
 		gPowBig.Exp(gBig, t2, pBig)
 		if gPowBig.Cmp(big.NewInt(1)) != 0 {
@@ -53,8 +53,8 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 	}
 	gInv := z.New().Inverse(g)
 
-	twRef := make([]E, rank/2)
-	twInvRef := make([]E, rank/2)
+	twRef := make([]E, max(rank/2, 1))
+	twInvRef := make([]E, max(rank/2, 1))
 	twRef[0] = z.New().SetUint64(1)
 	twInvRef[0] = z.New().SetUint64(1)
 	for i := 1; i < rank/2; i++ {
-- 
2.43.0


From 42a8491dc52df3b6cd6f3cd7a98a53b206b6a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 03/29] fix: overwrite the buffer in UniformSampler.Read

Read XORed the stream into whatever the destination held, so its output
depended on the buffer's previous contents.
---
 math/csprng/uniform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/uniform.go b/math/csprng/uniform.go
index bdb915e..f1d06de 100644
--- a/math/csprng/uniform.go
+++ b/math/csprng/uniform.go
@@ -56,6 +56,7 @@ func NewUniformSamplerWithSeed(seed []byte) *UniformSampler {
 // Read implements the [io.Reader] interface.
 // It always succeeds, with n == len(p) and err == nil.
 func (s *UniformSampler) Read(p []byte) (n int, err error) {
+	clear(p)
 	s.prng.XORKeyStream(p, p)
 	return len(p), nil
 }
-- 
2.43.0


From 42905a04adf7004b7cb7493f5f01ee9858d7f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 04/29] fix: set the peak density of the ziggurat

fn[0] was left at zero, so the wedge of the topmost strip was always
accepted and values near the center were sampled with the wrong law.
---
 math/csprng/gaussian_rounded.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/gaussian_rounded.go b/math/csprng/gaussian_rounded.go
index a289c73..38bb95f 100644
--- a/math/csprng/gaussian_rounded.go
+++ b/math/csprng/gaussian_rounded.go
@@ -29,6 +29,7 @@ func init() {
 	}
 
 	const scale = 1 << floatPrec
+	fn[0] = 1
 	for i := 1; i < blockSize; i++ {
 		kn[i] = uint64((xn[i-1] / xn[i]) * scale)
 		wn[i] = xn[i] / scale
-- 
2.43.0


From 494b4526e55340501235ef4f27ccfd01f777e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 05/29] fix: do not return the center from the COSAC rejection
 loop

The center is already handled by the first stage; accepting a rounded
value of zero in sampleRound, where the acceptance ratio exceeds one,
sampled it too often.
---
 math/csprng/gaussian_cosac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/csprng/gaussian_cosac.go b/math/csprng/gaussian_cosac.go
index ea64185..985611c 100644
--- a/math/csprng/gaussian_cosac.go
+++ b/math/csprng/gaussian_cosac.go
@@ -29,10 +29,10 @@ func (s *COSACSampler) sampleRound(cFrac, stdDev float64) int64 {
 		var cmp bool
 		if b == 0 {
 			yRound = math.Round(y) - 1
-			cmp = yRound <= 0.5
+			cmp = yRound <= -0.5
 		} else {
 			yRound = math.Round(y) + 1
-			cmp = yRound >= -0.5
+			cmp = yRound >= 0.5
 		}
 
 		if cmp {
-- 
2.43.0


From f112104203276f001e85f59e6e3d6df20eb4576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 06/29] fix: sample from the requested center in the Twin-CDT
 sampler

Sample summed the density up to a table index instead of the value it
stands for, so it always returned the lookup for the lower of the two
tables; the upper table wrapped from center 1 to center 0 without shifting
the result; and a center just below an integer, whose fraction rounds to
one, was taken to be a whole unit lower.
---
 math/csprng/gaussian_twin_cdt.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index 34f8214..b42e5a6 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -78,19 +78,22 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
 
-	c0 := int64(math.Floor(blockSize*cFrac)) % blockSize
-	c1 := int64(math.Ceil(blockSize*cFrac)) % blockSize
+	// The table for center 1 is the table for center 0, shifted by one.
+	c0 := int(math.Floor(blockSize * cFrac))
+	c1 := int(math.Ceil(blockSize * cFrac))
 
 	u := s.baseSampler.Sample()
 
-	v0, ok := slices.BinarySearch(s.tables[c0], u)
+	v0, ok := slices.BinarySearch(s.tables[c0%blockSize], u)
 	if ok {
 		v0 -= 1
 	}
-	v1, ok := slices.BinarySearch(s.tables[c1], u)
+	v0 += c0 / blockSize
+	v1, ok := slices.BinarySearch(s.tables[c1%blockSize], u)
 	if ok {
 		v1 -= 1
 	}
+	v1 += c1 / blockSize
 
 	if v0 == v1 {
 		return int64(v0) + int64(cFloor) + s.tailLo
@@ -98,7 +101,7 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 
 	cdf := 0.0
 	norm := math.Sqrt(2*math.Pi) * s.stdDev
-	for x := s.tailLo; x <= int64(v0); x++ {
+	for x := s.tailLo; x <= int64(v0)+s.tailLo; x++ {
 		xf := float64(x)
 		cdf += math.Exp(-(xf-cFrac)*(xf-cFrac)/(2*s.stdDev*s.stdDev)) / norm
 	}
-- 
2.43.0


From ea534fc06174e0fe9f5a6846bb6547d0853747c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 07/29] fix: commit to empty polynomials in jindo

---
 jindo/prover.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 1e9642e..beaf0d7 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -72,7 +72,10 @@ func (p *Prover[E]) genFirstLastRow(v []E) (firstRow, lastRow []E) {
 	lastRow[p.params.cols*p.params.slots-1] = z.New()
 
 	firstRow = make([]E, p.params.cols*p.params.slots)
-	firstRow[0] = z.New().Set(v[0])
+	firstRow[0] = z.New()
+	if len(v) > 0 {
+		firstRow[0].Set(v[0])
+	}
 	for i := 1; i < p.params.cols*p.params.slots; i++ {
 		firstRow[i] = z.New()
 		if i < len(v) {
-- 
2.43.0


From 104501990766dec6e3093ed0bdd2440d6a5cf8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 08/29] fix: draw jindo challenges from the full range up to
 the bound

---
 jindo/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jindo/utils.go b/jindo/utils.go
index c9784a0..739354f 100644
--- a/jindo/utils.go
+++ b/jindo/utils.go
@@ -28,9 +28,9 @@ func encodeChallengeTo(params Parameters, ringQ *ring.Ring, pOut ring.Poly, chal
 
 	cInfNm := uint64(params.ChallengeBound())
 	for i := 0; i < params.ecd.exp; i++ {
-		r := divMod64(c, cInfNm)
-		if r > cInfNm/2 {
-			r = cInfNm - r
+		r := divMod64(c, 2*cInfNm+1)
+		if r > cInfNm {
+			r = 2*cInfNm + 1 - r
 			for k := 0; k <= pOut.Level(); k++ {
 				pOut.Coeffs[k][i*params.slots] = ringQ.SubRings[k].Modulus - r
 			}
-- 
2.43.0


From 195194cc9bd9b159134df83634dcc874d880f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 09/29] fix: bind the claimed values to the jindo transcript

---
 jindo/prover.go   | 16 +++++++++++-----
 jindo/verifier.go |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index beaf0d7..857486d 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -220,12 +220,20 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
+	evals := make([]E, p.params.batch)
+	for i := 0; i < p.params.batch; i++ {
+		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
+	}
+
 	oracle := sha3.NewSHAKE128()
 	p.ck.WriteRawTo(oracle)
 	for i := range p.params.batch {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := range p.params.batch {
+		oracle.Write(evals[i].Marshal())
+	}
 
 	var batchOut, batch []ring.Poly
 
@@ -248,6 +256,9 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := range p.params.batch {
+			oracle.Write(evals[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 
 		openBatch = NewOpening(p.params)
@@ -318,11 +329,6 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
-	evals := make([]E, p.params.batch)
-	for i := 0; i < p.params.batch; i++ {
-		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
-	}
-
 	return evals, pf
 }
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index d54ff81..03652cc 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -59,6 +59,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := 0; i < v.params.batch; i++ {
+		oracle.Write(y[i].Marshal())
+	}
 
 	var batch, batchOut []ring.Poly
 	if v.params.batch > 1 {
@@ -79,6 +82,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := 0; i < v.params.batch; i++ {
+			oracle.Write(y[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 	}
 
-- 
2.43.0


From 5767a33b49e341bfd43785fd8ecd370d3f6d9785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 10/29] fix: allocate outer commitments over the outer ring

---
 jindo/entities.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jindo/entities.go b/jindo/entities.go
index 4c27ac9..4784494 100644
--- a/jindo/entities.go
+++ b/jindo/entities.go
@@ -85,7 +85,7 @@ type Commitment struct {
 func NewCommitment(params Parameters) *Commitment {
 	com := make([]ring.Poly, params.outMSISRank)
 	for i := range com {
-		com[i] = params.ringQ.NewPoly()
+		com[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Commitment{
@@ -165,7 +165,7 @@ func NewProof(params Parameters) *Proof {
 
 	inCom := make([]ring.Poly, params.inComDcmpLen)
 	for i := 0; i < params.inComDcmpLen; i++ {
-		inCom[i] = params.ringQ.NewPoly()
+		inCom[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Proof{
-- 
2.43.0


From d323794a1a479ae233c62e58912b4c15d4c52730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 11/29] fix: reject malformed evaluation proofs in jindo

---
 jindo/utils.go    | 18 ++++++++++++++++++
 jindo/verifier.go | 29 ++++++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/jindo/utils.go b/jindo/utils.go
index 739354f..7b6cf2a 100644
--- a/jindo/utils.go
+++ b/jindo/utils.go
@@ -45,6 +45,24 @@ func encodeChallengeTo(params Parameters, ringQ *ring.Ring, pOut ring.Poly, chal
 	ringQ.NTT(pOut, pOut)
 }
 
+// hasShape checks if v consists of n polynomials of ringQ.
+func hasShape(ringQ *ring.Ring, v []ring.Poly, n int) bool {
+	if len(v) != n {
+		return false
+	}
+	for i := range v {
+		if len(v[i].Coeffs) != ringQ.ModuliChainLength() {
+			return false
+		}
+		for l := range v[i].Coeffs {
+			if len(v[i].Coeffs[l]) != ringQ.N() {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 // setCoeffSigned sets the i-th coefficient of pOut to c.
 func setCoeffSigned(ringQ *ring.Ring, pOut ring.Poly, c int64, i int) {
 	if c >= 0 {
diff --git a/jindo/verifier.go b/jindo/verifier.go
index 03652cc..f3ea731 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -47,10 +47,10 @@ func NewVerifier[E bignum.Uint[E]](params Parameters, crs []byte) *Verifier[E] {
 }
 
 // Verify verfies the polynomial commitment.
+// Returns false if the commitments, the values or the proof are malformed.
 func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
-	switch {
-	case len(com) != v.params.batch || len(y) != v.params.batch:
-		panic("len(v) != params.batch")
+	if !v.isWellFormed(com, y, pf) {
+		return false
 	}
 
 	oracle := sha3.NewSHAKE128()
@@ -138,6 +138,29 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 	return true
 }
 
+// isWellFormed checks if the inputs of the verification have the expected shape.
+func (v *Verifier[E]) isWellFormed(com []*Commitment, y []E, pf *Proof) bool {
+	if len(com) != v.params.batch || len(y) != v.params.batch || pf == nil {
+		return false
+	}
+
+	var z E
+	for i := range v.params.batch {
+		if com[i] == nil || any(y[i]) == any(z) {
+			return false
+		}
+		if !hasShape(v.params.ringQOut, com[i].Value, v.params.outMSISRank) {
+			return false
+		}
+	}
+
+	return hasShape(v.params.ringQOut, pf.InCommit, v.params.inComDcmpLen) &&
+		hasShape(v.params.ringQ, pf.Partial, v.params.cols) &&
+		hasShape(v.params.ringQ, []ring.Poly{pf.PartialMask}, 1) &&
+		hasShape(v.params.ringQ, pf.Encode, v.params.rows) &&
+		hasShape(v.params.ringQ, pf.MLWE, v.params.mlweRank+v.params.inMSISRank)
+}
+
 // verifyOuterCommitment verfies the outer commitment.
 func (v *Verifier[E]) verifyOuterCommitment(batch []ring.Poly, com []*Commitment, pf, pfInv *Proof) bool {
 	inDcmpInv := append(pfInv.InCommit, make([]ring.Poly, v.params.outMSISRank)...)
-- 
2.43.0


From d350d86293c2c9cd8d2eff0c91e5507581d5f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 12/29] fix: batch constraints with distinct powers of the
 challenge

---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 4d2a4c1..2117e63 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -371,7 +371,7 @@ func (p *Prover[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint
 			}
 			p.polyEval.AddTo(eval, eval, term)
 		}
-		p.polyEval.ScalarMulTo(eval, eval, batchConst)
+		p.polyEval.ScalarMulTo(pOut, pOut, batchConst)
 		p.polyEval.AddTo(pOut, pOut, eval)
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 8f6558d..a28631e 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -232,7 +232,7 @@ func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstrai
 			}
 			eval.Add(eval, term)
 		}
-		eval.Mul(eval, batchConst)
+		out.Mul(out, batchConst)
 		out.Add(out, eval)
 	}
 
-- 
2.43.0


From 20a91e7332bd1177c3a3e2d1af1c709226d0f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 13/29] fix: decompose up to the full bound for powers of two

---
 buckler/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/utils.go b/buckler/utils.go
index 54f2fcf..9f7730a 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -8,8 +8,8 @@ func decomposeBase(x *big.Int) []*big.Int {
 	one := big.NewInt(1)
 
 	dcmpLen := x.BitLen()
-	if new(big.Int).Lsh(one, x.TrailingZeroBits()).Cmp(x) == 0 {
-		dcmpLen -= 1
+	if dcmpLen == 0 {
+		return nil
 	}
 
 	base := make([]*big.Int, dcmpLen)
-- 
2.43.0


From 9a7cda1e0ba42deefe9d1e5de96efe1bca885a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 14/29] fix: check sumcheck constraints against their declared
 sums

---
 buckler/verifier.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index a28631e..0a2a845 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -310,6 +310,23 @@ func (v *Verifier[E]) sumCheck(batchConst, sumCheckMaskEval, evalPoint, vanishEv
 	rem := z.New().Mul(remLoEval, evalPoint)
 	test.Add(test, rem)
 	test.Add(test, sumCheckMaskSum)
+	test.Add(test, v.sumCheckMean(batchConst))
 
 	return eval.Cmp(test) == 0
 }
+
+// sumCheckMean returns the batched declared sums of the sumcheck constraints, divided by rank.
+func (v *Verifier[E]) sumCheckMean(batchConst E) E {
+	var z E
+
+	out, sum := z.New(), z.New()
+	for i := range v.ctx.sumCheckSums {
+		out.Mul(out, batchConst)
+		out.Add(out, sum.SetBigInt(v.ctx.sumCheckSums[i]))
+	}
+	out.Mul(out, batchConst)
+
+	rankInv := z.New().SetUint64(uint64(v.ctx.rank))
+	rankInv.Inverse(rankInv)
+	return out.Mul(out, rankInv)
+}
-- 
2.43.0


From 439b17b8ea4d149487eff9c19e6406649ff534be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 15/29] fix: bind the public witnesses to the buckler
 transcript

---
 buckler/prover.go   | 8 ++++++++
 buckler/verifier.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 2117e63..442e9b5 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -128,6 +128,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		wData.pwEcdNTT[i] = p.polyEval.NTT(wData.pwEcd[i])
 	}
 
+	for i := range wData.pw {
+		for j := range wData.pw[i] {
+			oracleBuf.Write(wData.pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
+	}
+
 	wData.wEcd = make([]*bigpoly.Poly[E], p.ctx.wCnt)
 	wData.wEcdNTT = make([]*bigpoly.Poly[E], p.ctx.wCnt)
 	coms := make([]*jindo.Commitment, p.ctx.batch())
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 0a2a845..7ad2ada 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -73,6 +73,14 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		pwEcd[i] = v.ecd.Encode(pw[i])
 	}
 
+	for i := range pw {
+		for j := range pw[i] {
+			oracleBuf.Write(pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
+	}
+
 	for i := range v.ctx.wCnt {
 		isFirstRound := true
 		for j := range v.ctx.wSecond {
-- 
2.43.0


From 800a145ed3c49d9fce9efe3e8e86dba16b1a2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 16/29] fix: prove that the decomposed projection is ternary

---
 buckler/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/context.go b/buckler/context.go
index 8a4edef..49ca08a 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -222,7 +222,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.projInfDcmpBound[witnessToID(wProj)] = slackBound
 	ctx.projInfDcmpWitness[witnessToID(wProj)] = wProjDcmp
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
-	// ctx.AddInfNormConstraint(wProjDcmp, 1)
+	ctx.AddInfNormConstraint(wProjDcmp, 1)
 
 	ctx.wSecond = append(ctx.wSecond, wProj, wProjDcmp)
 }
-- 
2.43.0


From 66550a076db7e8f551661bd2db1ec47322a81c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 17/29] fix: report malformed circuits and assignments

---
 buckler/compile.go  | 174 ++++++++++++++++++++++++++------------------
 buckler/context.go  |   7 ++
 buckler/prover.go   |   8 +-
 buckler/verifier.go |   5 +-
 4 files changed, 120 insertions(+), 74 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 6fe2285..31ac7dc 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math/bits"
 	"reflect"
+	"slices"
 
 	"github.com/sp301415/ringo-snark/jindo"
 	"github.com/sp301415/ringo-snark/math/bignum"
@@ -11,8 +12,11 @@ import (
 )
 
 var (
-	errReadOnly     = fmt.Errorf("cannot set value")
-	errRankMismatch = fmt.Errorf("witness rank mismatch")
+	errReadOnly         = fmt.Errorf("cannot set value")
+	errRankMismatch     = fmt.Errorf("witness rank mismatch")
+	errNilElement       = fmt.Errorf("witness has nil element")
+	errStructMismatch   = fmt.Errorf("witness structure mismatch")
+	errCircTypeMismatch = fmt.Errorf("circuit type mismatch")
 )
 
 func idToWitness[E bignum.Uint[E], W Witness[E] | PublicWitness[E]](id uint64) W {
@@ -43,6 +47,70 @@ type walker[E bignum.Uint[E]] struct {
 	pwCnt       uint64
 	wCnt        uint64
 	circuitType reflect.Type
+
+	// path is the current position in the circuit.
+	path []int
+	// pwPath and wPath are the positions of the public witnesses and the witnesses.
+	pwPath [][]int
+	wPath  [][]int
+}
+
+// addPublicWitness registers a public witness at the current position.
+func (w *walker[E]) addPublicWitness() {
+	w.pwPath = append(w.pwPath, slices.Clone(w.path))
+	w.pwCnt++
+}
+
+// addWitness registers a witness at the current position.
+func (w *walker[E]) addWitness() {
+	w.wPath = append(w.wPath, slices.Clone(w.path))
+	w.wCnt++
+}
+
+// checkVector checks if v is readable and consists of rank elements.
+func (w *walker[E]) checkVector(rank int, v reflect.Value) error {
+	var z E
+
+	if !v.CanInterface() {
+		return errReadOnly
+	}
+	if v.Len() != rank {
+		return errRankMismatch
+	}
+	for i := range rank {
+		if v.Index(i).Interface() == any(z) {
+			return errNilElement
+		}
+	}
+	return nil
+}
+
+// walkElems calls f on the elements of v.
+func (w *walker[E]) walkElems(v reflect.Value, f func(reflect.Value) error) error {
+	var n int
+	var elem func(int) reflect.Value
+	switch v.Kind() {
+	case reflect.Pointer, reflect.Interface:
+		if v.IsNil() {
+			return nil
+		}
+		return f(v.Elem())
+	case reflect.Struct:
+		n, elem = v.NumField(), v.Field
+	case reflect.Slice, reflect.Array:
+		n, elem = v.Len(), v.Index
+	case reflect.Invalid:
+		return fmt.Errorf("walk: invalid kind")
+	}
+
+	for i := range n {
+		w.path = append(w.path, i)
+		if err := f(elem(i)); err != nil {
+			return err
+		}
+		w.path = w.path[:len(w.path)-1]
+	}
+	return nil
 }
 
 // firstWalk is called in the compile phase.
@@ -53,7 +121,7 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 			return errReadOnly
 		}
 		v.Set(reflect.ValueOf(idToWitness[E, PublicWitness[E]](w.pwCnt)))
-		w.pwCnt++
+		w.addPublicWitness()
 		return nil
 
 	case reflect.TypeOf(Witness[E]{}):
@@ -61,100 +129,63 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 			return errReadOnly
 		}
 		v.Set(reflect.ValueOf(idToWitness[E, Witness[E]](w.wCnt)))
-		w.wCnt++
+		w.addWitness()
 		return nil
 	}
 
-	switch v.Kind() {
-	case reflect.Pointer, reflect.Interface:
-		if !v.IsNil() {
-			w.firstWalk(v.Elem())
-		}
-	case reflect.Struct:
-		for i := range v.NumField() {
-			w.firstWalk(v.Field(i))
-		}
-	case reflect.Slice, reflect.Array:
-		for i := range v.Len() {
-			w.firstWalk(v.Index(i))
-		}
-	case reflect.Invalid:
-		return fmt.Errorf("walk: invalid kind")
-	}
-
-	return nil
+	return w.walkElems(v, w.firstWalk)
 }
 
 // prvWalk is called in the prove phase.
 func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
-		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
-		if len(pw[w.pwCnt]) != prv.ctx.rank {
-			return errRankMismatch
+		if err := w.checkVector(prv.ctx.rank, v); err != nil {
+			return err
 		}
-		w.pwCnt++
-		return nil
-
-	case reflect.TypeOf(Witness[E]{}):
-		sw[w.wCnt] = v.Interface().(Witness[E])
-		if len(sw[w.wCnt]) != prv.ctx.rank {
-			return errRankMismatch
+		if int(w.pwCnt) >= len(prv.ctx.pwPath) {
+			return errStructMismatch
 		}
-		w.wCnt++
+		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
+		w.addPublicWitness()
 		return nil
-	}
 
-	switch v.Kind() {
-	case reflect.Pointer, reflect.Interface:
-		if !v.IsNil() {
-			w.prvWalk(prv, v.Elem(), pw, sw)
+	case reflect.TypeOf(Witness[E]{}):
+		if err := w.checkVector(prv.ctx.rank, v); err != nil {
+			return err
 		}
-	case reflect.Struct:
-		for i := range v.NumField() {
-			w.prvWalk(prv, v.Field(i), pw, sw)
+		if int(w.wCnt) >= len(prv.ctx.wPath) {
+			return errStructMismatch
 		}
-	case reflect.Slice, reflect.Array:
-		for i := range v.Len() {
-			w.prvWalk(prv, v.Index(i), pw, sw)
-		}
-	case reflect.Invalid:
-		return fmt.Errorf("walk: invalid kind")
+		sw[w.wCnt] = v.Interface().(Witness[E])
+		w.addWitness()
+		return nil
 	}
 
-	return nil
+	return w.walkElems(v, func(v reflect.Value) error { return w.prvWalk(prv, v, pw, sw) })
 }
 
 // vrfWalk is called in the prove phase.
 func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
-		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
-		if len(pw[w.pwCnt]) != vrf.ctx.rank {
-			return errRankMismatch
+		if err := w.checkVector(vrf.ctx.rank, v); err != nil {
+			return err
 		}
-		w.pwCnt++
+		if int(w.pwCnt) >= len(vrf.ctx.pwPath) {
+			return errStructMismatch
+		}
+		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
+		w.addPublicWitness()
 		return nil
 	}
 
-	switch v.Kind() {
-	case reflect.Pointer, reflect.Interface:
-		if !v.IsNil() {
-			w.vrfWalk(vrf, v.Elem(), pw)
-		}
-	case reflect.Struct:
-		for i := range v.NumField() {
-			w.vrfWalk(vrf, v.Field(i), pw)
-		}
-	case reflect.Slice, reflect.Array:
-		for i := range v.Len() {
-			w.vrfWalk(vrf, v.Index(i), pw)
-		}
-	case reflect.Invalid:
-		return fmt.Errorf("walk: invalid kind")
-	}
+	return w.walkElems(v, func(v reflect.Value) error { return w.vrfWalk(vrf, v, pw) })
+}
 
-	return nil
+// samePaths returns if the two lists of positions are equal.
+func samePaths(p0, p1 [][]int) bool {
+	return slices.EqualFunc(p0, p1, slices.Equal[[]int])
 }
 
 // Compile compiles the circuit and returns the prover, verifier pair.
@@ -162,9 +193,12 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 // For correct compilation, the [PublicWitness] and [Witness] field must be empty.
 // Moreover, all other fields must be set correctly.
 func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prover[E], *Verifier[E], error) {
-	if reflect.TypeOf(c).Kind() != reflect.Pointer {
+	if reflect.ValueOf(c).Kind() != reflect.Pointer {
 		return nil, nil, fmt.Errorf("circuit must be defined with a pointer receiver")
 	}
+	if reflect.ValueOf(c).IsNil() {
+		return nil, nil, fmt.Errorf("circuit must not be nil")
+	}
 
 	w := &walker[E]{circuitType: reflect.TypeOf(c).Elem()}
 	if err := w.firstWalk(reflect.ValueOf(c)); err != nil {
diff --git a/buckler/context.go b/buckler/context.go
index 49ca08a..1b248b1 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -17,6 +17,10 @@ type Context[E bignum.Uint[E]] struct {
 	// wCnt is the number of witnesses.
 	wCnt uint64
 
+	// pwPath and wPath are the positions of the public witnesses and the witnesses in the circuit.
+	pwPath [][]int
+	wPath  [][]int
+
 	// wSecond are the witnesses in the second round.
 	wSecond []Witness[E]
 
@@ -57,6 +61,9 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		pwCnt: walker.pwCnt,
 		wCnt:  walker.wCnt,
 
+		pwPath: walker.pwPath,
+		wPath:  walker.wPath,
+
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
diff --git a/buckler/prover.go b/buckler/prover.go
index 442e9b5..4ad64a5 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"crypto/sha3"
-	"fmt"
 	"math/big"
 	"reflect"
 
@@ -40,8 +39,8 @@ type witnessData[E bignum.Uint[E]] struct {
 
 // Prove generates a proof for the given circuit and witnesses.
 func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
-	if p.ctx.circType != reflect.TypeOf(c).Elem() {
-		return nil, fmt.Errorf("circuit type mismatch")
+	if reflect.TypeOf(c) != reflect.PointerTo(p.ctx.circType) {
+		return nil, errCircTypeMismatch
 	}
 
 	var z E
@@ -55,6 +54,9 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	if err := wk.prvWalk(p, reflect.ValueOf(c), wData.pw, wData.w); err != nil {
 		return nil, err
 	}
+	if !samePaths(wk.pwPath, p.ctx.pwPath) || !samePaths(wk.wPath, p.ctx.wPath) {
+		return nil, errStructMismatch
+	}
 
 	for i := wk.pwCnt; i < p.ctx.pwCnt; i++ {
 		wData.pw[i] = make(PublicWitness[E], p.ctx.rank)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 7ad2ada..25d132b 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -27,7 +27,7 @@ type Verifier[E bignum.Uint[E]] struct {
 
 // Verify verifies the proof for the given public assignment.
 func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
-	if v.ctx.circType != reflect.TypeOf(c).Elem() {
+	if reflect.TypeOf(c) != reflect.PointerTo(v.ctx.circType) {
 		return false
 	}
 
@@ -38,6 +38,9 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	if err := wk.vrfWalk(v, reflect.ValueOf(c), pw); err != nil {
 		return false
 	}
+	if !samePaths(wk.pwPath, v.ctx.pwPath) {
+		return false
+	}
 
 	for i := wk.pwCnt; i < v.ctx.pwCnt; i++ {
 		pw[i] = make(PublicWitness[E], v.ctx.rank)
-- 
2.43.0


From 35bd91f177ee10d076f10c572defe20f879aef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 18/29] fix: compute the two-norm of each constraint from zero

---
 buckler/prover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 4ad64a5..909eb07 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -98,6 +98,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			wData.pw[pwMaskID][i].SetInt64(1)
 		}
 
+		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
-- 
2.43.0


From 3964875cc173af8cf6365757df0edc4fd39b7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 19/29] fix: keep every norm constraint of a witness

---
 buckler/context.go  | 68 ++++++++++++++++++++++-----------------------
 buckler/prover.go   | 29 +++++++++----------
 buckler/verifier.go |  8 +++---
 3 files changed, 52 insertions(+), 53 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 1b248b1..26af663 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -39,18 +39,36 @@ type Context[E bignum.Uint[E]] struct {
 	linCheckers         []LinearChecker[E]
 	linCheckConstraints map[LinearChecker[E]][][2]uint64
 
-	infDcmpBound   map[uint64]*big.Int
-	infDcmpWitness map[uint64][]Witness[E]
-
-	twoDcmpBound   map[uint64]*big.Int
-	twoDcmpBase    map[uint64]PublicWitness[E]
-	twoDcmpMask    map[uint64]PublicWitness[E]
-	twoDcmpWitness map[uint64]Witness[E]
-
-	projChecker        LinearChecker[E]
-	projWitness        map[uint64]Witness[E]
-	projInfDcmpBound   map[uint64]*big.Int
-	projInfDcmpWitness map[uint64]Witness[E]
+	infNormConstraints []infNormConstraint[E]
+
+	twoNormConstraints []twoNormConstraint[E]
+
+	projChecker     LinearChecker[E]
+	projConstraints []projConstraint[E]
+}
+
+// infNormConstraint is an infinity-norm constraint with its decomposition.
+type infNormConstraint[E bignum.Uint[E]] struct {
+	w     Witness[E]
+	wDcmp []Witness[E]
+	bound *big.Int
+}
+
+// twoNormConstraint is a squared two-norm constraint with its decomposition.
+type twoNormConstraint[E bignum.Uint[E]] struct {
+	w      Witness[E]
+	wDcmp  Witness[E]
+	pwBase PublicWitness[E]
+	pwMask PublicWitness[E]
+	bound  *big.Int
+}
+
+// projConstraint is an approximate infinity-norm constraint with its projection and decomposition.
+type projConstraint[E bignum.Uint[E]] struct {
+	w         Witness[E]
+	wProj     Witness[E]
+	wProjDcmp Witness[E]
+	bound     *big.Int
 }
 
 // newContext creates a new [Context].
@@ -67,18 +85,6 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
-
-		infDcmpBound:   make(map[uint64]*big.Int),
-		infDcmpWitness: make(map[uint64][]Witness[E]),
-
-		twoDcmpBound:   make(map[uint64]*big.Int),
-		twoDcmpBase:    make(map[uint64]PublicWitness[E]),
-		twoDcmpMask:    make(map[uint64]PublicWitness[E]),
-		twoDcmpWitness: make(map[uint64]Witness[E]),
-
-		projWitness:        make(map[uint64]Witness[E]),
-		projInfDcmpBound:   make(map[uint64]*big.Int),
-		projInfDcmpWitness: make(map[uint64]Witness[E]),
 	}
 }
 
@@ -142,13 +148,11 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 
 	dcmpBase := decomposeBase(bound)
 
-	id := witnessToID(w)
 	wDcmp := make([]Witness[E], 0, len(dcmpBase))
 	for i := ctx.wCnt; i < ctx.wCnt+uint64(len(dcmpBase)); i++ {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
-	ctx.infDcmpWitness[id] = wDcmp
-	ctx.infDcmpBound[id] = bound
+	ctx.infNormConstraints = append(ctx.infNormConstraints, infNormConstraint[E]{w: w, wDcmp: wDcmp, bound: bound})
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -178,7 +182,6 @@ func (ctx *Context[E]) AddSqTwoNormConstraint(w Witness[E], bound uint64) {
 func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	var z E
 
-	id := witnessToID(w)
 	wDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt += 1
 
@@ -186,10 +189,7 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoDcmpBound[id] = bound
-	ctx.twoDcmpBase[id] = pwBase
-	ctx.twoDcmpMask[id] = pwMask
-	ctx.twoDcmpWitness[id] = wDcmp
+	ctx.twoNormConstraints = append(ctx.twoNormConstraints, twoNormConstraint[E]{w: w, wDcmp: wDcmp, pwBase: pwBase, pwMask: pwMask, bound: bound})
 
 	var binConstraint ArithmeticConstraint[E]
 	binConstraint.AddTermWithConst(z.New().SetInt64(1), nil, wDcmp, wDcmp)
@@ -219,15 +219,13 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.wCnt++
 
 	ctx.AddLinearConstraint(wProj, w, ctx.projChecker)
-	ctx.projWitness[witnessToID(w)] = wProj
 
 	wProjDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt++
 
 	slackBound := new(big.Int).SetUint64(uint64(ctx.rank))
 	slackBound.Mul(slackBound, bound)
-	ctx.projInfDcmpBound[witnessToID(wProj)] = slackBound
-	ctx.projInfDcmpWitness[witnessToID(wProj)] = wProjDcmp
+	ctx.projConstraints = append(ctx.projConstraints, projConstraint[E]{w: w, wProj: wProj, wProjDcmp: wProjDcmp, bound: slackBound})
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
 	ctx.AddInfNormConstraint(wProjDcmp, 1)
 
diff --git a/buckler/prover.go b/buckler/prover.go
index 909eb07..cdf963b 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -76,23 +76,25 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 	bigCoeff := new(big.Int)
 
-	for id, wDcmps := range p.ctx.infDcmpWitness {
-		base := decomposeBase(p.ctx.infDcmpBound[id])
+	for _, c := range p.ctx.infNormConstraints {
+		base := decomposeBase(c.bound)
+		id := witnessToID(c.w)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
 			dcmp := decomposeBig(bigCoeff, base, mod)
-			for j, wDcmp := range wDcmps {
+			for j, wDcmp := range c.wDcmp {
 				wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
 			}
 		}
 	}
 
 	sqNm, mul := new(big.Int), new(big.Int)
-	for id, bound := range p.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
+	for _, c := range p.ctx.twoNormConstraints {
+		base := decomposeBase(c.bound)
 
-		pwBaseID := witnessToID(p.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(p.ctx.twoDcmpMask[id])
+		id := witnessToID(c.w)
+		pwBaseID := witnessToID(c.pwBase)
+		pwMaskID := witnessToID(c.pwMask)
 		for i := range base {
 			wData.pw[pwBaseID][i].SetBigInt(base[i])
 			wData.pw[pwMaskID][i].SetInt64(1)
@@ -107,7 +109,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		sqNm.Mod(sqNm, mod)
 
 		dcmp := decomposeBig(sqNm, base, mod)
-		wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id])
+		wDcmpID := witnessToID(c.wDcmp)
 		for i := range dcmp {
 			wData.w[wDcmpID][i].SetInt64(dcmp[i])
 		}
@@ -186,13 +188,12 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			}
 		}
 
-		for id, wProj := range p.ctx.projWitness {
-			chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
-		}
+		for _, c := range p.ctx.projConstraints {
+			chk.TransformTo(wData.w[witnessToID(c.wProj)], wData.w[witnessToID(c.w)])
 
-		for id, wDcmp := range p.ctx.projInfDcmpWitness {
-			base := decomposeBase(p.ctx.projInfDcmpBound[id])
-			wDcmpID := witnessToID(wDcmp)
+			base := decomposeBase(c.bound)
+			id := witnessToID(c.wProj)
+			wDcmpID := witnessToID(c.wProjDcmp)
 			for i := range 128 {
 				wData.w[id][i].BigInt(bigCoeff)
 				dcmp := decomposeBig(bigCoeff, base, mod)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 25d132b..2fae1fe 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -49,11 +49,11 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		}
 	}
 
-	for id, bound := range v.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
+	for _, c := range v.ctx.twoNormConstraints {
+		base := decomposeBase(c.bound)
 
-		pwBaseID := witnessToID(v.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(v.ctx.twoDcmpMask[id])
+		pwBaseID := witnessToID(c.pwBase)
+		pwMaskID := witnessToID(c.pwMask)
 		for i := range base {
 			pw[pwBaseID][i].SetBigInt(base[i])
 			pw[pwMaskID][i].SetInt64(1)
-- 
2.43.0


From 87d08c42bd2c49c311daf826473c2d361a69e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 20/29] fix: prove two-norms above half the modulus

---
 buckler/prover.go |  2 +-
 buckler/utils.go  | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index cdf963b..05af78d 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -108,7 +108,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		}
 		sqNm.Mod(sqNm, mod)
 
-		dcmp := decomposeBig(sqNm, base, mod)
+		dcmp := decomposeSigned(sqNm, base)
 		wDcmpID := witnessToID(c.wDcmp)
 		for i := range dcmp {
 			wData.w[wDcmpID][i].SetInt64(dcmp[i])
diff --git a/buckler/utils.go b/buckler/utils.go
index 9f7730a..1e5c7f2 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -31,12 +31,18 @@ func decomposeBase(x *big.Int) []*big.Int {
 	return base
 }
 
+// decomposeBig decomposes the signed residue of x modulo q.
 func decomposeBig(x *big.Int, base []*big.Int, q *big.Int) []int64 {
-	xSigned := new(big.Int).Set(x)
 	qHalf := new(big.Int).Rsh(q, 1)
-	if xSigned.Cmp(qHalf) > 0 {
-		xSigned.Sub(xSigned, q)
+	if x.Cmp(qHalf) > 0 {
+		return decomposeSigned(new(big.Int).Sub(x, q), base)
 	}
+	return decomposeSigned(x, base)
+}
+
+// decomposeSigned decomposes x.
+func decomposeSigned(x *big.Int, base []*big.Int) []int64 {
+	xSigned := new(big.Int).Set(x)
 
 	dcmpOut := make([]int64, len(base))
 	for i := range base {
-- 
2.43.0


From bfa817facb77b27d659b106b66b2679e421c6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 21/29] fix: handle constraints without witnesses

---
 buckler/compile.go    | 2 +-
 buckler/constraint.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 31ac7dc..2ba4231 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -211,7 +211,7 @@ func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prov
 
 	jindoParams := jindo.NewParameters[E](ctx.commitRank(), ctx.batch())
 
-	embRank := 1 << bits.Len(uint(max(ctx.arithCheckMaxRank, ctx.sumCheckMaxRank)-1))
+	embRank := 1 << bits.Len(uint(max(ctx.arithCheckMaxRank, ctx.sumCheckMaxRank, witnessRank+1)-1))
 
 	prv := &Prover[E]{
 		JindoParams: jindoParams,
diff --git a/buckler/constraint.go b/buckler/constraint.go
index 5f5711c..b1bc7df 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -53,8 +53,9 @@ func (c *ArithmeticConstraint[E]) AddTermWithConst(coeff E, coeffPublicWitness P
 }
 
 // maxRank returns the maximum polynomial rank of the constraint.
+// It is at least the rank of a witness polynomial.
 func (c *ArithmeticConstraint[E]) maxRank(rank int) int {
-	maxDeg := 0
+	maxDeg := rank
 	for i := range c.witness {
 		deg := 0
 		if c.hasCoeffPublicWitness[i] {
-- 
2.43.0


From a560dd55f8242f19eeb298206f080580efaa7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 22/29] fix: do not share memory between constraints and their
 callers

---
 buckler/constraint.go | 11 +++++++++--
 buckler/context.go    |  6 +++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/buckler/constraint.go b/buckler/constraint.go
index b1bc7df..1d2dbd1 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -1,6 +1,10 @@
 package buckler
 
-import "github.com/sp301415/ringo-snark/math/bignum"
+import (
+	"slices"
+
+	"github.com/sp301415/ringo-snark/math/bignum"
+)
 
 // ArithmeticConstraint is the arithmetic constraint for the circuit.
 type ArithmeticConstraint[E bignum.Uint[E]] struct {
@@ -31,7 +35,10 @@ func (c *ArithmeticConstraint[E]) SubTerm(coeffPublicWitness PublicWitness[E], w
 // Specifically, it adds coeff * coeffPublicWitness * witness[0] * ... * witness[n] to the constraint.
 // If coeffPublicWitness is nil, it is ignored.
 func (c *ArithmeticConstraint[E]) AddTermWithConst(coeff E, coeffPublicWitness PublicWitness[E], witness ...Witness[E]) {
-	c.coeffs = append(c.coeffs, coeff)
+	c.coeffs = append(slices.Clip(c.coeffs), coeff.New().Set(coeff))
+	c.hasCoeffPublicWitness = slices.Clip(c.hasCoeffPublicWitness)
+	c.coeffsPublicWitness = slices.Clip(c.coeffsPublicWitness)
+	c.witness = slices.Clip(c.witness)
 
 	if coeffPublicWitness != nil {
 		c.hasCoeffPublicWitness = append(c.hasCoeffPublicWitness, true)
diff --git a/buckler/context.go b/buckler/context.go
index 26af663..df3a980 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -102,7 +102,7 @@ func (ctx *Context[E]) AddSumCheckConstraint(c ArithmeticConstraint[E], sum uint
 // AddSumCheckConstraintBig adds a sumcheck constraint to the context.
 func (ctx *Context[E]) AddSumCheckConstraintBig(c ArithmeticConstraint[E], sum *big.Int) {
 	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c)
-	ctx.sumCheckSums = append(ctx.sumCheckSums, sum)
+	ctx.sumCheckSums = append(ctx.sumCheckSums, new(big.Int).Set(sum))
 	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank))
 }
 
@@ -152,7 +152,7 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 	for i := ctx.wCnt; i < ctx.wCnt+uint64(len(dcmpBase)); i++ {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
-	ctx.infNormConstraints = append(ctx.infNormConstraints, infNormConstraint[E]{w: w, wDcmp: wDcmp, bound: bound})
+	ctx.infNormConstraints = append(ctx.infNormConstraints, infNormConstraint[E]{w: w, wDcmp: wDcmp, bound: new(big.Int).Set(bound)})
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -189,7 +189,7 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoNormConstraints = append(ctx.twoNormConstraints, twoNormConstraint[E]{w: w, wDcmp: wDcmp, pwBase: pwBase, pwMask: pwMask, bound: bound})
+	ctx.twoNormConstraints = append(ctx.twoNormConstraints, twoNormConstraint[E]{w: w, wDcmp: wDcmp, pwBase: pwBase, pwMask: pwMask, bound: new(big.Int).Set(bound)})
 
 	var binConstraint ArithmeticConstraint[E]
 	binConstraint.AddTermWithConst(z.New().SetInt64(1), nil, wDcmp, wDcmp)
-- 
2.43.0


From 48513d42e95df1491ba39eff8de5dbb0e33aa154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 23/29] fix: handle approximate norm constraints of bound zero

---
 buckler/context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buckler/context.go b/buckler/context.go
index df3a980..b050a74 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -211,6 +211,11 @@ func (ctx *Context[E]) AddApproxInfNormConstraint(w Witness[E], bound uint64) {
 // AddApproxInfNormConstraint adds a approximate inf-norm constraint to the context.
 // The slack is around rank.
 func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.Int) {
+	if bound.Sign() == 0 {
+		ctx.AddInfNormConstraintBig(w, bound)
+		return
+	}
+
 	if ctx.projChecker == nil {
 		ctx.projChecker = newProjChecker[E](ctx.rank)
 	}
-- 
2.43.0


From 68ff55847f40292d5a22e4c64b9eef1da73a522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 24/29] fix: reject malformed circuit proofs

---
 buckler/verifier.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index 2fae1fe..61c6ae9 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -30,6 +30,9 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	if reflect.TypeOf(c) != reflect.PointerTo(v.ctx.circType) {
 		return false
 	}
+	if !v.isWellFormed(pf) {
+		return false
+	}
 
 	var z E
 
@@ -227,6 +230,23 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	return true
 }
 
+// isWellFormed checks if the proof has the expected shape.
+func (v *Verifier[E]) isWellFormed(pf *Proof[E]) bool {
+	if pf == nil || len(pf.Witness) != v.ctx.batch() || len(pf.Evals) != v.ctx.batch() {
+		return false
+	}
+	for i := range pf.Witness {
+		if pf.Witness[i] == nil {
+			return false
+		}
+	}
+
+	var z E
+	hasLinCheckMaskSum := any(pf.LinCheckMaskSum) != any(z)
+	hasSumCheckMaskSum := any(pf.SumCheckMaskSum) != any(z)
+	return hasLinCheckMaskSum == v.ctx.HasLinearCheck() && hasSumCheckMaskSum == v.ctx.HasSumCheck()
+}
+
 func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint[E], evals []E, pwEvals []E) E {
 	var z E
 
-- 
2.43.0


From b1c6b090e4f9368061c8e8ff815b8531b268d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 25/29] fix: reject proofs with unreduced residues

---
 jindo/utils.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jindo/utils.go b/jindo/utils.go
index 7b6cf2a..4fc4c50 100644
--- a/jindo/utils.go
+++ b/jindo/utils.go
@@ -45,7 +45,7 @@ func encodeChallengeTo(params Parameters, ringQ *ring.Ring, pOut ring.Poly, chal
 	ringQ.NTT(pOut, pOut)
 }
 
-// hasShape checks if v consists of n polynomials of ringQ.
+// hasShape checks if v consists of n reduced polynomials of ringQ.
 func hasShape(ringQ *ring.Ring, v []ring.Poly, n int) bool {
 	if len(v) != n {
 		return false
@@ -58,6 +58,11 @@ func hasShape(ringQ *ring.Ring, v []ring.Poly, n int) bool {
 			if len(v[i].Coeffs[l]) != ringQ.N() {
 				return false
 			}
+			for _, c := range v[i].Coeffs[l] {
+				if c >= ringQ.SubRings[l].Modulus {
+					return false
+				}
+			}
 		}
 	}
 	return true
-- 
2.43.0


From 9b2156dc461ded5fb18d480414ba21a8002164e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 26/29] fix: end the modulus search at the base bound

---
 jindo-modulus/main.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index c188ea0..0e02b56 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -42,7 +42,7 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 			continue
 		}
 
-		for b := bStart; b <= min(math.MaxUint64, bEnd); b++ {
+		for b := bStart; b <= min(baseBound, bEnd); b++ {
 			bBig := big.NewInt(int64(b))
 			bExpBig := new(big.Int).Exp(bBig, kBig, nil)
 			p.Add(bExpBig, big.NewInt(1))
@@ -59,10 +59,6 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 				continue
 			}
 
-			if b > baseBound {
-				continue
-			}
-
 			return p, b, k
 		}
 	}
-- 
2.43.0


From 535664009df2302351e75ff76761d0cc5289036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 27/29] fix: refuse moduli too small for the generated code

---
 jindo-modulus/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index 0e02b56..70d6197 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -26,6 +26,8 @@ var (
 const (
 	maxRank   = 1 << 30
 	baseBound = 1 << 25
+	// minBits is the smallest bit length with elements made of 64-bit limbs.
+	minBits = 32
 )
 
 func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
@@ -113,6 +115,10 @@ func main() {
 			fmt.Println("modulus not prime")
 			os.Exit(1)
 		}
+		if p.BitLen() < minBits {
+			fmt.Println("modulus too small")
+			os.Exit(1)
+		}
 	}
 
 	fmt.Printf("[*] Using %v-bit modulus: %v = %v^%v + 1\n", p.BitLen(), p, b, k)
-- 
2.43.0


From cfc2aaf89060a9c9f32ec4aaf80c3644c191db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 28/29] fix: generate 11-word fields without amd64 assembly

---
 jindo-modulus/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index 70d6197..357e8b7 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -135,6 +135,11 @@ func main() {
 		panic(err)
 	}
 
+	// gnark-crypto cannot generate amd64 assembly for 11 words.
+	if f.NbWords == 11 {
+		f.GenerateOpsAMD64 = false
+	}
+
 	asm := &config.Assembly{
 		IncludeDir: "asm",
 		BuildDir:   filepath.Join(dir, "asm"),
-- 
2.43.0


From 7177faa89fea79b417a984ae1fa95dd8e0944ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 29/29] fix: ScalarMulTo with a coefficient of the output as
 the scalar

---
 math/bigpoly/base_op.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/bigpoly/base_op.go b/math/bigpoly/base_op.go
index ce855bc..1b3bb45 100644
--- a/math/bigpoly/base_op.go
+++ b/math/bigpoly/base_op.go
@@ -94,7 +94,8 @@ func (op *baseOperator[E]) ScalarMul(p *Poly[E], c E) *Poly[E] {
 func (op *baseOperator[E]) ScalarMulTo(pOut, p *Poly[E], c E) {
 	checkUnaryOperable(op.rank, pOut, p)
 
-	scalarMulVecTo(pOut.Coeffs, p.Coeffs, c)
+	// c may be a coefficient of pOut.
+	scalarMulVecTo(pOut.Coeffs, p.Coeffs, c.New().Set(c))
 	pOut.IsNTT = p.IsNTT
 }
 
-- 
2.43.0

