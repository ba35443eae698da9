#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as source so the list stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FIELDS = ["buckler/internal/zp110/element.go", "buckler/internal/zp220/element.go", "buckler/internal/zp440/element.go",
          "buckler/internal/zp880/element.go", "jindo/internal/zp/element.go", "examples/bfv/zp/element.go", "examples/mult/zp/element.go"]

# ---------------------------------------------------------------- math
prop("C01", "Shipped fields are exact arithmetic modulo their prime",
     "For every shipped modulus, the modulus is a prime of the form b^k+1 and every element operation (add, sub, neg, mul, inverse, quotient, comparison, power, square root) returns the canonical representative of the same operation on integers modulo it, also when the output aliases an operand. Conversions to and from signed and unsigned machine integers, big integers of any size and sign, byte strings of any length, numerals and JSON, marshalled bytes and little-endian limbs preserve the represented residue and never modify their source; canonical byte forms refuse values at or above the modulus. Operations on vectors agree with the same operations on their entries.",
     ["inputs", "configurations"], "All elements and operand aliasing patterns of the six distinct moduli, all integer and byte-string inputs, all nonempty vectors.",
     "The generated tests sample the gnark-crypto API of each field; they do not touch the hand-appended methods, the conversions Jindo and Buckler rely on, or aliasing, and no test covers the power function.",
     FIELDS + ["math/bignum/bignum.go"],
     [("Montgomery arithmetic generated by goff, plus hand-appended New/Slice/Limb", "*/zp*/element.go, arith.go"), ("square-and-multiply", "math/bignum/bignum.go:Exp")],
     ["exported methods of the element types", "bignum.Exp"])
prop("C02", "NTTs are mutually inverse ring isomorphisms at every rank",
     "For every power-of-two rank the field supports, the forward and inverse transforms are mutually inverse linear maps, and pointwise multiplication in the transformed domain is multiplication modulo X^N-1 (cyclic) or X^N+1 (cyclotomic) of the untransformed polynomials. Inputs are left untouched unless the output aliases them, and memory beyond the given vectors is never read or written.",
     ["inputs", "configurations"], "All polynomials of all power-of-two ranks supported by each shipped modulus, in place and out of place.",
     "No test exercises the transforms directly; one end-to-end test uses two ranks of one modulus.",
     ["math/bigpoly/ntt.go", "math/bigpoly/vec.go"],
     [("Cooley-Tukey / Gentleman-Sande butterflies, 8-way unrolled with unsafe casts", "math/bigpoly/ntt.go"), ("bit reversal of twiddles", "math/bigpoly/vec.go:bitReverseInPlace")],
     ["CyclicTransformer, CyclotomicTransformer, CyclicEvaluator, CyclotomicEvaluator"])
prop("C03", "Polynomial operations follow the ring model; misuse is refused",
     "Any sequence of polynomial operations (copy, clear, add, sub, neg, scalar and pointwise multiply, their accumulating forms, transforms) on a pool of polynomials, with arbitrary operand aliasing, leaves exactly the values and domain flags that the mathematical ring predicts, and changes nothing but the output. Input operands of the wrong rank or of mismatching domain are refused without modifying any polynomial. One evaluator may be used by several goroutines at once, each on polynomials of its own.",
     ["histories", "inputs"], "All operation sequences over a pool of polynomials, all ranks and moduli, including aliased outputs.",
     "Nothing tests the evaluator operations on their own; a missed unroll tail, an aliasing bug or a stale domain flag shows only for particular lengths and operand patterns.",
     ["math/bigpoly/base_op.go", "math/bigpoly/vec.go", "math/bigpoly/poly.go"],
     [("rank and domain checks", "math/bigpoly/poly.go:checkBinaryOperable"), ("pooled scratch polynomial for accumulating forms", "math/bigpoly/base_op.go")],
     ["CyclicEvaluator/CyclotomicEvaluator methods, Poly methods"])
prop("C04", "Automorphisms act as X -> X^k in both domains",
     "For every odd index, positive or negative and of any size, the automorphism maps p(X) to p(X^k) modulo X^N+1, in coefficient form and, consistently, in transformed form; the output may alias the input. Automorphisms compose by multiplying indices, and even indices are refused.",
     ["inputs", "configurations"], "All polynomials, odd integers k, ranks and domains.",
     "No test calls the automorphism.", ["math/bigpoly/cyclotomic.go"],
     [("index arithmetic modulo 2N, bit-reversed permutation in NTT domain", "math/bigpoly/cyclotomic.go:autTo, autNTTTo")], ["CyclotomicEvaluator.Aut/AutTo"])
prop("C05", "Division by X^N-1, evaluation and marshalling of polynomials are exact",
     "Dividing any polynomial by X^N-1 yields quotient and remainder with p = q*(X^N-1) + r and deg r < N, for every N up to the rank and without touching p. Evaluating a polynomial of any length at any point gives the value of the polynomial there, and the marshalled form is injective for a given rank.",
     ["inputs"], "All polynomials, divisor degrees, evaluation points.",
     "Only used indirectly in one end-to-end test with one shape; soundness of every circuit proof rests on it.",
     ["math/bigpoly/cyclic.go", "math/bigpoly/poly.go"],
     [("synthetic division from the top coefficient", "math/bigpoly/cyclic.go:QuoRemByVanishing"), ("Horner", "math/bigpoly/poly.go:Evaluate")], ["CyclicEvaluator.QuoRemByVanishing, Poly.Evaluate, Poly.Marshal"])
prop("C06", "Modulus switching rounds to the nearest residue",
     "Switching a vector from modulus Q to the field modulus p gives, for each coefficient c, an integer nearest to c*p/Q reduced modulo p, for every Q, odd or even, larger or smaller than p, and for negative or unreduced c. The input integers are not modified.",
     ["inputs"], "All integer vectors and moduli Q >= 1, all ranks and fields.",
     "Not tested at all; rounding errors of one unit appear only near half-way points.",
     ["math/bigpoly/cyclotomic.go"], [("centred remainder then exact division", "math/bigpoly/cyclotomic.go:ModSwitchTo")], ["CyclotomicEvaluator.ModSwitch"])
prop("C07", "The uniform sampler is a seed-determined, unbiased, in-range stream",
     "A seeded sampler's output is a function of the seed and the call history alone: equal seeds give equal streams however the destination buffers were filled beforehand and however reads are chunked, and different seeds give unrelated streams. Bounded integers lie in [0,n) and floats in [0,1), both uniformly.",
     ["inputs", "histories"], "All seeds, call sequences, buffer contents, bounds n >= 1.",
     "No test of the sampler exists; bias and dependence on buffer contents are invisible to completeness tests.",
     ["math/csprng/uniform.go"], [("AES-CTR keyed by SHA-384 of the seed", "math/csprng/uniform.go:NewUniformSamplerWithSeed"), ("rejection sampling", "math/csprng/uniform.go:SampleN")],
     ["UniformSampler.Read/Sample/SampleN/SampleFloat"])
prop("C08", "The rounded Gaussian sampler follows the rounded normal law",
     "For every center and standard deviation the sampler's outputs are distributed as a normal variable rounded to the nearest integer, over the whole range including the tails and near the center, and seeded samplers are reproducible.",
     ["inputs", "configurations"], "All centers and standard deviations; distributional over the sampler's randomness.",
     "No statistical test exists; a defective table entry biases the law by fractions of a percent that nothing notices.",
     ["math/csprng/gaussian_rounded.go"], [("Ziggurat tables", "math/csprng/gaussian_rounded.go:init, normFloat")], ["RoundedGaussianSampler.Sample"])
prop("C09", "The variable-width discrete Gaussian sampler follows its law",
     "For every real center and standard deviation (from about one upward), outputs of the convolution-free rejection sampler are distributed as the discrete Gaussian over the integers with that center and width: every integer has probability proportional to exp(-(x-c)^2/(2s^2)).",
     ["inputs", "configurations"], "All centers (any fractional part, sign, magnitude) and widths; distributional.",
     "No test examines any distribution; the zero-knowledge and encoding security of commitments rest on it.",
     ["math/csprng/gaussian_cosac.go"], [("COSAC rejection from a rounded normal", "math/csprng/gaussian_cosac.go:Sample, sampleRound")], ["COSACSampler.Sample"])
prop("C10", "The fixed-width discrete Gaussian sampler follows its law at every center",
     "For every standard deviation from about one upward and every real center, outputs of the table-based sampler are distributed as the discrete Gaussian with exactly that center and width, the coset variant returns values in center+Z with that law around zero, and a copied sampler follows the same law with independent randomness.",
     ["inputs", "configurations"], "All centers, including those between and at table grid points and near the next integer; distributional.",
     "No test examines any distribution; a wrong interpolation between tables shifts the effective center for almost all centers and is invisible to completeness tests.",
     ["math/csprng/gaussian_twin_cdt.go"], [("two adjacent cumulative tables plus exact tie-break", "math/csprng/gaussian_twin_cdt.go:Sample")], ["TwinCDTGaussianSampler.Sample/SampleCoset/SafeCopy"])

# ---------------------------------------------------------------- jindo
J = ["jindo/params.go", "jindo/prover.go", "jindo/verifier.go", "jindo/encoder.go", "jindo/entities.go", "jindo/rns.go", "jindo/utils.go"]
prop("C11", "Parameter selection terminates with consistent, secure parameters",
     "For every polynomial length and batch size in the supported range and every shipped modulus, parameter selection returns deterministically a set that holds polynomials of at least the requested length and whose matrix shape, slots, ranks and rings fit together. Those parameters meet the scheme's stated security targets: commitment moduli are products of distinct NTT-friendly primes within the size limit, norm bounds lie below the moduli, both short-integer problems have root Hermite factor at most about 1.005, hiding dimension is at least 8192, and noise widths are at least the smoothing widths the design prescribes.",
     ["inputs", "configurations"], "All (length, batch) pairs in [1, 2^20] x [1, 10^4] for every shipped modulus.",
     "The tests use two parameter sets and never look at them; insecure parameters still verify honest proofs.",
     ["jindo/params.go"], [("search over column counts with fixed-point over MSIS rank", "jindo/params.go:NewParameters"), ("MSIS rank estimate", "jindo/params.go:findMSISRank")], ["jindo.NewParameters and Parameters accessors"])
prop("C12", "Honest polynomial evaluations are correct and always verify",
     "For every supported length (including empty and full), batch size, coefficients, evaluation point (including 0 and 1) and reference string, committing and evaluating yields for each polynomial its true value at the point, together with a proof that an independently built verifier for the same parameters and reference string accepts.",
     ["inputs", "configurations"], "All polynomials with length 0..rank, batches, points, reference strings and shipped moduli.",
     "Two tests check one full-length random polynomial (single, batch) over one modulus.",
     J, [("commit/evaluate", "jindo/prover.go"), ("verify", "jindo/verifier.go:Verify")], ["Prover.Commit, Prover.Evaluate, Verifier.Verify"])
prop("C13", "Openings open their commitments and encode exactly the input",
     "The opening returned with a commitment satisfies, under the reference string's public key, the inner and outer commitment equations up to the prescribed rounding, and its encodings are short and decode to exactly the committed coefficients arranged in the scheme's matrix layout (with the blinding row cancelling out).",
     ["inputs", "configurations"], "All polynomials, parameters and reference strings.",
     "Tests only observe that verification of an evaluation succeeds, which tolerates oversized noise and slack in the rounding.",
     J, [("randomised encoding", "jindo/encoder.go:randEncodeTo"), ("column and outer commitments", "jindo/prover.go:commitColTo, outerCommitTo")], ["Opening, Commitment, NewCommitKey"])
prop("C14", "An evaluation proof convinces only for its own statement",
     "A proof is accepted only for the commitments, point, claimed values and reference string it was made for: changing any of them, in any batch position, makes verification fail, also when the changed values are chosen after seeing the proof or by a prover that deviates to match them. In particular no prover can get two different values accepted for the same commitment and point.",
     ["inputs", "histories"], "All statements and all single or adaptive changes; provers that mix openings, claim wrong values, or forge intermediate messages.",
     "The tests contain no negative case at all: a verifier that accepts everything passes them.",
     J, [("Fiat-Shamir transcript", "jindo/prover.go:Evaluate, jindo/verifier.go:Verify"), ("outer, inner, consistency and evaluation checks", "jindo/verifier.go")], ["Verifier.Verify"])
prop("C15", "Altered evaluation proofs are rejected",
     "Changing any meaningful component of an accepted proof (inner commitments, partial evaluations, masks, encoded responses, hiding responses, or swapping and permuting them) by anything beyond the noise tolerance the scheme grants makes verification fail, at every coefficient position and residue.",
     ["inputs", "fault_sequences"], "All components, positions, residues and alteration kinds.",
     "No negative test exists.", J, [("four verifier checks", "jindo/verifier.go")], ["Verifier.Verify"])
prop("C16", "The verifier enforces exactly the published norm bounds",
     "The verifier accepts a response that satisfies all linear relations if and only if its two-norm, including the rounding remainders, is below the published bound for responses and for decomposed inner commitments; oversized openings constructed by a malicious committer are rejected even though every linear relation holds.",
     ["inputs"], "Malicious openings with noise of any magnitude and position, around both bounds.",
     "Honest proofs stay far below the bounds, so tests never reach them; without the bounds the commitment is not binding.",
     ["jindo/verifier.go", "jindo/rns.go", "jindo/params.go"], [("norm check over reconstructed integers", "jindo/verifier.go:verifyNorm"), ("balanced CRT reconstruction", "jindo/rns.go")], ["Verifier.Verify"])
prop("C17", "Challenges are unpredictable, full-range and bound to the transcript",
     "Every challenge that folds columns or batches has coefficients within the published challenge bound, takes both signs and the whole range, comes from a space of at least 2^100 values, and differs whenever any earlier message, the statement or the reference string differs.",
     ["inputs", "configurations"], "All transcripts, shipped moduli and parameter sets.",
     "A constant or tiny challenge still verifies honest proofs, so no completeness test can notice it.",
     ["jindo/utils.go", "jindo/prover.go", "jindo/verifier.go"], [("challenge encoding", "jindo/utils.go:encodeChallengeTo")], ["Prover.Evaluate with probe openings"])
prop("C18", "Commitments and proofs are freshly randomised at the prescribed widths",
     "Each commitment uses fresh randomness: encodings, blinding row, masking column and hiding terms of two commitments to the same polynomial are independent, never constant or zero, and have the standard deviations the parameters prescribe. Evaluation responses are masked accordingly, so no committed coefficient, row or column is revealed in the clear.",
     ["inputs", "configurations"], "All polynomials (in particular zero and sparse ones) and parameter sets; distributional.",
     "Removing masks or noise keeps every completeness test green.",
     ["jindo/prover.go", "jindo/encoder.go"], [("mask column, last-row blinding, MLWE noise", "jindo/prover.go:genFirstLastRow, commitColTo")], ["Opening, Commitment, Proof"])
prop("C19", "The reference string determines the public key, and parties interoperate",
     "Commit keys are a deterministic function of parameters and reference string, uniform over the rings and different for different reference strings; provers and verifiers built independently, in any number and order, from the same inputs interoperate, and later changes to the caller's reference-string buffer have no effect.",
     ["inputs", "histories"], "All reference strings (any length and content), parameter sets, construction orders.",
     "Tests build one prover and one verifier from one string.", ["jindo/entities.go", "jindo/prover.go", "jindo/verifier.go"],
     [("key expansion from seeded sampler", "jindo/entities.go:NewCommitKey")], ["NewCommitKey, NewProver, NewVerifier"])
prop("C20", "Provers and verifiers keep no cross-call state; copies work concurrently",
     "Any interleaving of commits, evaluations and verifications on one prover and one verifier gives the same verdicts as fresh instances, inputs and openings are never modified, and safe copies of a prover used from several goroutines at once produce correct proofs without data races.",
     ["schedules", "histories"], "All operation histories on shared instances; concurrent use of copies.",
     "Tests make one call sequence on fresh instances in one goroutine.", ["jindo/prover.go", "jindo/encoder.go", "jindo/rns.go", "math/csprng/gaussian_twin_cdt.go"],
     [("SafeCopy duplicates buffers and samplers", "jindo/prover.go:SafeCopy")], ["Prover.SafeCopy"])

# ---------------------------------------------------------------- buckler
B = ["buckler/prover.go", "buckler/verifier.go", "buckler/context.go", "buckler/constraint.go", "buckler/compile.go"]
prop("C21", "Arithmetic constraints are accepted exactly when they hold",
     "For every circuit of arithmetic constraints (any number of terms, coefficients, public-input factors and degrees, over witnesses in any nesting of structs, arrays, slices and pointers) an assignment's proof verifies if and only if every constraint vanishes at every index. In particular violations that cancel across constraints or indices, or that touch a single index, are rejected.",
     ["programs", "inputs"], "All arithmetic circuits, assignments and moduli.",
     "One circuit with one assignment is tested, positively only; no test has a violated constraint.",
     B, [("batched constraint polynomial divisible by X^N-1", "buckler/prover.go:arithCheck, evalCircuit"), ("identity at a random point", "buckler/verifier.go:arithCheck")], ["Compile, Prove, Verify"])
prop("C22", "Linear constraints are accepted exactly when the output is the mapped input",
     "For every set of linear constraints (number-theoretic transform, automorphism in either domain, or any user-defined linear map, several per map and chained) the proof verifies if and only if each output witness equals the map applied to its input witness. A prover that deviates in the quotient, remainder, shifted remainder or mask cannot get a false linear relation accepted.",
     ["programs", "inputs"], "All linear circuits, maps given by matrices, assignments; adversarial provers.",
     "One circuit with two NTT constraints is tested, positively only.",
     B + ["buckler/linear.go"], [("random linear combination and univariate sum-check", "buckler/prover.go:linCheck, buckler/verifier.go:linCheck")], ["Compile, Prove, Verify"])
prop("C23", "Shipped linear maps and their transposes are adjoint and mean what they say",
     "The shipped linear maps compute the negacyclic transform and the automorphism of their evaluator, and their transposes satisfy <u, Mv> = <M^T u, v> for all vectors, for every rank, index and domain. Inputs are not modified, and outputs do not depend on the previous contents of the destination.",
     ["inputs", "configurations"], "All vectors, ranks, automorphism indices, domains and moduli.",
     "The transform checker is used at one rank; the automorphism checker and both transposes are never compared with anything.",
     ["buckler/linear.go", "math/bigpoly/cyclotomic.go", "math/bigpoly/ntt.go"], [("transpose via reversed inverse transform / inverse automorphism", "buckler/linear.go")], ["NewNTTChecker, NewAutChecker"])
prop("C24", "Infinity-norm constraints enforce exactly the stated bound",
     "For every bound from 0 to just below half the modulus, a proof verifies if and only if every coefficient, read as a signed residue, has absolute value at most the bound, including exactly at the bound, one above it, at powers of two, and with several constraints on the same or different witnesses. A prover choosing the decomposition freely cannot exceed the bound.",
     ["programs", "inputs"], "All bounds, witnesses, combinations of constraints and adversarial decompositions.",
     "Only the bound 1 is tested, positively.", B + ["buckler/utils.go"],
     [("ternary digit decomposition in a bound-specific base", "buckler/utils.go:decomposeBase, decomposeBig"), ("ternary and recomposition constraints", "buckler/context.go:AddInfNormConstraintBig")], ["Compile, Prove, Verify"])
prop("C25", "Squared two-norm constraints enforce exactly the stated bound",
     "For every bound, a proof verifies if and only if the sum of squares of the witness, taken modulo the field modulus as documented, is at most the bound, including bound zero, one, powers of two, exactly at and one above the bound, and with several norm constraints in one circuit. A prover choosing the decomposition freely cannot exceed the bound.",
     ["programs", "inputs"], "All bounds fitting the rank, witnesses, combinations and adversarial decompositions.",
     "Two-norm constraints are not tested at all.", B + ["buckler/utils.go"],
     [("binary decomposition with public base and mask", "buckler/context.go:AddSqNormConstraintBig")], ["Compile, Prove, Verify"])
prop("C26", "Approximate norm constraints accept in-bound and reject far-out witnesses",
     "A proof of an approximate infinity-norm constraint verifies for every witness within the bound, and is rejected whenever the projected witness exceeds the documented slack (about rank times the bound), also for a prover that chooses the decomposition of the projection freely. The projection consists of 128 independent rows, drawn after the witness is committed.",
     ["programs", "inputs"], "All bounds, ranks, witnesses inside the bound or beyond the slack, adversarial decompositions.",
     "Approximate norm constraints are not tested; the examples only prove in-bound witnesses.", B + ["buckler/linear.go", "buckler/utils.go"],
     [("random 0/1 projection derived from the transcript, decomposed and recomposed linearly", "buckler/context.go:AddApproxInfNormConstraintBig, buckler/linear.go:projChecker")], ["Compile, Prove, Verify"])
prop("C27", "Sum-check constraints are accepted exactly when the sums are as declared",
     "For every set of sum-check constraints with declared sums (zero, nonzero, larger than the modulus), the proof verifies if and only if each expression summed over all indices equals its declared value modulo the field; wrong sums that cancel across constraints are rejected, and a prover deviating in quotient, remainder or mask cannot get a wrong sum accepted.",
     ["programs", "inputs"], "All sum-check circuits, declared sums, assignments; adversarial provers.",
     "Sum-check constraints are not tested at all.", B,
     [("masked univariate sum-check", "buckler/prover.go:sumCheck, buckler/verifier.go:sumCheck")], ["Compile, Prove, Verify"])
prop("C28", "A circuit is accepted exactly when all its constraints of every kind hold",
     "For circuits combining arithmetic, linear, infinity-norm, two-norm, approximate-norm and sum-check constraints in any order and number, a proof verifies if and only if every individual constraint holds; satisfying all but one, of any kind and position, is rejected.",
     ["programs", "inputs"], "All mixed circuits and assignments, all single violations.",
     "One fixed mixture (arithmetic, linear, ternary) is tested, positively only.", B + ["buckler/linear.go", "buckler/utils.go"],
     [("round and commitment index bookkeeping shared by all checks", "buckler/prover.go:Prove, buckler/verifier.go:Verify")], ["Compile, Prove, Verify"])
prop("C29", "Circuit proofs are bound to public inputs, circuit and reference string",
     "A proof verifies only for the public inputs, circuit and reference string it was produced for; changing any entry of any public input, the constraints, or the reference string makes verification fail, also when the new public input is computed from the proof itself.",
     ["inputs", "programs"], "All circuits with public inputs; all single and adaptive changes.",
     "No negative test exists.", B, [("Fiat-Shamir transcript over commitments and public data", "buckler/prover.go:Prove, buckler/verifier.go:Verify")], ["Verify"])
prop("C30", "Malformed circuits and assignments are reported, never proved",
     "Compiling a circuit whose inputs cannot be set, proving with a witness or public input of the wrong length or missing, or of another circuit type, returns an error, and verifying with such public inputs returns false, at any nesting depth. Neither silently substitutes zeros, shifts later inputs, nor crashes.",
     ["inputs", "programs"], "All circuit shapes (nesting of structs, arrays, slices, pointers, interfaces) and all wrong lengths, missing or surplus inputs.",
     "No test passes a malformed circuit or assignment.", ["buckler/compile.go", "buckler/prover.go", "buckler/verifier.go"],
     [("reflection walks over circuit fields", "buckler/compile.go:firstWalk, prvWalk, vrfWalk")], ["Compile, Prove, Verify"])
prop("C31", "Altered circuit proofs are rejected",
     "Changing any component of an accepted circuit proof (any commitment, mask sum, claimed evaluation, or part of the evaluation proof), swapping components, or splicing parts of another valid proof for the same circuit makes verification fail.",
     ["inputs", "fault_sequences"], "All circuits, components and alterations, including splices of two valid proofs.",
     "No negative test exists.", B, [("transcript binding and evaluation checks", "buckler/verifier.go:Verify")], ["Verify"])
prop("C32", "Circuit proofs are zero-knowledge masked",
     "Every proof randomises every witness and every check: claimed evaluations, mask sums and commitments of two proofs of the same assignment differ in every position that depends on a witness, and the claimed evaluation of a witness does not equal, nor stand in a fixed relation to, the evaluation of its unmasked interpolation, even for constant or zero witnesses.",
     ["inputs", "programs"], "All circuits and assignments, in particular degenerate (zero, constant) witnesses.",
     "Removing masks keeps every completeness test green.", ["buckler/encoder.go", "buckler/prover.go"],
     [("witness randomised by a multiple of X^N-1", "buckler/encoder.go:RandEncodeTo"), ("sum-check masks", "buckler/prover.go:sumCheckMask")], ["Proof fields"])
prop("C33", "Compiled provers and verifiers are deterministic, reusable and interoperable",
     "Compiling the same circuit twice gives interoperable pairs; any history of honest, dishonest and failing prove and verify calls on one pair leaves later verdicts as they would be on a fresh pair, and proving or verifying never modifies the caller's assignment or the proof.",
     ["histories", "programs"], "All call histories on shared prover/verifier pairs, across circuits and assignments.",
     "Tests call each function once.", B + ["buckler/linear.go"],
     [("shared compiled context and projection matrix", "buckler/compile.go:Compile, buckler/linear.go:projChecker")], ["Compile, Prove, Verify"])
prop("C34", "Structurally malformed proofs are rejected without crashing",
     "Verification of a proof with missing, extra, truncated or nil parts returns false, for evaluation proofs and for circuit proofs; it neither panics nor accepts.",
     ["inputs", "fault_sequences"], "All structural mutations (nil, dropped, duplicated, reordered, wrong-size parts) of valid proofs.",
     "No test passes a malformed proof; proofs come from an untrusted party.", ["buckler/verifier.go", "jindo/verifier.go"],
     [("shape validation before use", "buckler/verifier.go:Verify, jindo/verifier.go:Verify")], ["buckler Verify, jindo Verify"])
prop("C35", "The modulus generator yields usable primes and correct field code",
     "For every bit length or range, the generator ends; if it reports success the modulus is a prime b^k+1 of the requested size with k a power of two, supporting transforms of all advertised ranks, with a base within bounds, and it gives up only if there is none. User-supplied b and k are accepted exactly when they give a prime of at least 32 bits, malformed requests are refused without output, and every generated package compiles, with and without assembly, and behaves as the field of that modulus.",
     ["inputs", "configurations"], "All bit lengths and ranges, base/exponent pairs.",
     "The generator has no test; the shipped fields are outputs of earlier versions of it.", ["jindo-modulus/main.go"],
     [("search over bases per exponent", "jindo-modulus/main.go:findModulus"), ("code generation and post-processing", "jindo-modulus/main.go:main")], ["jindo-modulus command line"])

prop("C36", "Stated proof and commitment sizes are those of real messages",
     "For every length, batch size and modulus, and for every compiled circuit, the commitment size a parameter set states is the number of bits of its commitments and the proof size it states estimates the number of bits of an honest proof, coefficient by coefficient at the width their range needs. The batch size of a compiled circuit's parameters is the number of commitments in its proofs.",
     ["inputs", "configurations"], "All parameter sets and circuits, honest proofs.",
     "No test looks at the sizes; the examples print one estimate each.", ["jindo/params.go", "buckler/compile.go"],
     [("size model in the parameter search", "jindo/params.go:NewParameters")], ["Parameters.CommitmentSize/ProofSize/Size, Prover.JindoParams, Proof"])
prop("C37", "The documented ring-LWE relations are proved exactly when they hold",
     "The circuits documented in the README and shipped as examples decide their relation at every rank: a product in the ring with a short secret factor, and the well-formedness of a BFV ciphertext that was encrypted under a larger modulus and switched to the field, are accepted when true (with the noise bound the example derives) and rejected when the product, a transform, the key, the message, the error, a bound or the public part is wrong. The example programs report success.",
     ["inputs", "programs"], "All ranks, operands, keys, messages, plaintext and ciphertext moduli; all single lies.",
     "The examples are programs with one fixed choice each and no test runs them.",
     ["examples/mult/main.go", "examples/bfv/main.go", "README.md", "math/bigpoly/cyclotomic.go", "buckler/linear.go"],
     [("circuit definitions", "examples/*/main.go:Define"), ("modulus switching before proving", "examples/bfv/main.go:main")], ["MultCircuit, CiphertextCircuit, example programs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
