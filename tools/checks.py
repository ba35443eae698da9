"""What each property's check runs."""
CHECKS = {}


def check(pid, units, rule, note, technique="property-based testing (rapid): ", assumptions=(), **kw):
    CHECKS[pid] = dict(units=units, rule=rule, note=note, technique=technique, assumptions=list(assumptions), **kw)


def U(pkg, **kw):
    return dict(pkg=pkg, **kw)


check("C01", [U("zvmath"), U("zvfield"), U("zvmath", tags="purego", only="Histories|FullInterface"), U("zvfield", tags="purego"), U("zvmath", race=True, tags="purego", only="Shared")],
      "one case = a random history of element operations over four aliased registers of a drawn field, mirrored in math/big; "
      "or two drawn values and vectors taken through the rest of the interface (quotients, powers, roots, vectors, text and byte forms); "
      "or several goroutines reading common operands; non-trivial = the history multiplies nonzero elements (ModuliPrime, Shared, FullInterface: every case counts)",
      "Random operation histories against math/big for all seven shipped fields, assembly and pure-Go builds; sampled, not exhaustive.",
      "property-based testing (rapid) against a math/big model")

check("C02", [U("zvmath"), U("zvmath", tags="purego", only="Isomorphism", thorough_only=True)],
      "one case = a drawn field, ring (cyclic/negacyclic), rank 1..2^11 (2^14 and, for sparse products, 2^16 thorough), two styled vectors, aliasing choice, guard memory "
      "behind every vector; non-trivial = rank >= 2 and both vectors nonzero",
      "Product compared with big-integer Kronecker multiplication; inverse, linearity, guard memory and roots checked; sampled.",
      "property-based testing (rapid): algebraic laws and big-integer reference product")

check("C03", [U("zvmath"), U("zvmath", race=True, tags="purego", only="Shared")],
      "one case = a history of up to 14 polynomial operations on a pool of four polynomials and one of wrong rank, mirrored in a ring model "
      "(plus bulk kernels at ranks to 2^11, copies between ranks, and one evaluator shared by several goroutines); non-trivial = the history has a product or transform and an aliased or refused call",
      "Every polynomial of the pool is compared with the model after every call; an accumulating call whose destination is in the other domain is left unspecified.",
      "property-based testing (rapid), model-based histories against a big-integer ring model")
check("C04", [U("zvmath")],
      "one case = field, rank, polynomial, two odd indices of any sign and size, both domains; non-trivial = rank >= 4, index not 1 mod 2N, polynomial not constant",
      "Compared with the permutation model in both domains, with aliasing, composition and refusals; sampled.",
      "property-based testing (rapid) against a big-integer model")
check("C05", [U("zvmath")],
      "one case = field, rank, polynomial and divisor degree (or length and point); non-trivial = degree >= N, resp. degree >= 1 and point not 0/1",
      "Division identity checked over the polynomials, evaluation against Horner in big.Int, marshalling by round trip; sampled.",
      "property-based testing (rapid): reconstruction identity, reference evaluation, round trip")
check("C06", [U("zvmath")],
      "one case = field, rank, source modulus Q and coefficients including ties, negatives and unreduced ones; non-trivial = Q > 1 and an inexact scaling",
      "Compared with exact rational rounding (either neighbour on ties); sampled.",
      "property-based testing (rapid) against exact rational rounding")

STAT = "histogram, moment and correlation tests reject at p < 1e-10 with pinned seeds; deviations much below 1/sqrt(draws) are not visible"
check("C07", [U("zvmath")],
      "one case = a seed and a call history run on two samplers (with differently filled buffers), a chunking, a pair of neighbouring seeds, "
      "or a histogram over a drawn bound; non-trivial = the history mixes calls or crosses the internal buffer, the bound is above 1",
      "Determinism is compared exactly; uniformity statistically (" + STAT + ").",
      "property-based testing (rapid): differential histories and statistical oracles")
check("C08", [U("zvmath")], "one case = a center, a width and a histogram of 0.4-12 million draws, or a pair of seeded samplers; all are non-trivial",
      "Against the exact rounded normal law; " + STAT + ".", "property-based testing (rapid) with a statistical oracle")
check("C09", [U("zvmath")], "one case = a center, a width and a histogram of 1-5 million draws; all are non-trivial",
      "Against the exact discrete Gaussian law for widths from 1.2; " + STAT + ".", "property-based testing (rapid) with a statistical oracle")
check("C10", [U("zvmath")], "one case = a center, a width and a histogram of 0.8-12 million draws, or the draws of a sampler and its copies; all are non-trivial",
      "Against the exact discrete Gaussian law for widths from 1.2 to 40; " + STAT + ".", "property-based testing (rapid) with a statistical oracle")

check("C11", [U("zvjindo")],
      "one case = a modulus, a requested length and a batch size; non-trivial = the parameter set was built and its moduli, ranks and norms inspected",
      "Parameter sets recomputed independently (moduli coprime to the field, divisibility, lengths, published bounds against the drawn challenges); sampled.",
      "property-based testing (rapid): invariants of generated parameter sets and ranges of sampled challenges")
check("C12", [U("zvjindo")],
      "one case = a modulus, length (to 16384), batch (to 33), polynomials (of any length, styled coefficients) and a point, proved and verified; "
      "non-trivial = a nonzero polynomial and a point outside {0, 1}",
      "Evaluations compared with Horner in big.Int; proofs verified by an independently built verifier; sampled.",
      "property-based testing (rapid): completeness round trip against a reference evaluation")
check("C13", [U("zvjindo")],
      "one case = a commitment with its opening, recomputed from the opening by an independent big-integer encoder and matrix product, or modified; "
      "non-trivial = the polynomial is nonzero",
      "Binding itself is a hardness assumption; what is checked is that the commitment is the published function of the opening and that every part matters.",
      "property-based testing (rapid): reference recomputation and metamorphic relations")
check("C14", [U("zvjindo")],
      "one case = an accepted proof shown with another statement, or a proof made by a cheating reference prover for wrong values; all change the statement",
      "A reference cheating prover recovers the challenges and plays the known algebraic attacks; absence of all attacks is not shown.",
      "property-based testing (rapid): generated false statements and adversarial provers, oracle 'must reject'")
check("C15", [U("zvjindo")],
      "one case = an accepted proof with one generated change (bump, swap, negate, scale, splice) in one of its elements or residues, or a change in every element in turn; "
      "non-trivial = the change differs from the accepted proof",
      "Every element and residue class of a proof is altered in some case; sampled.",
      "property-based testing (rapid): generated alterations, oracle 'must reject'")
check("C16", [U("zvjindo")],
      "one case = a proof whose responses exceed a published norm bound by a generated amount while all equations hold, or sit within it; "
      "non-trivial = exactly one norm decides the verdict",
      "Norm excess is built algebraically by the harness so that only the norm test can reject; sampled.",
      "property-based testing (rapid): generated over-long responses against the published bounds")
check("C17", [U("zvjindo")],
      "one case = a pair of statements differing in one part (of up to 33 claims), or a histogram of challenges; non-trivial = the part differs",
      "Challenges recovered from proofs; statistical part: " + STAT + ".",
      "property-based testing (rapid): metamorphic transcript relations and a statistical oracle")
check("C18", [U("zvjindo")],
      "one case = a set of commitments and proofs of drawn or constant polynomials; non-trivial = all",
      "Masking is tested by distinctness and by the law of the masked parts (" + STAT + "); computational hiding is out of reach.",
      "property-based testing (rapid) with statistical oracles")
check("C19", [U("zvjindo")],
      "one case = two derivations from drawn reference strings; non-trivial = the strings differ or the parties are built independently",
      "Equality and inequality compared exactly; uniformity statistically.",
      "property-based testing (rapid): differential derivations")
check("C20", [U("zvjindo"), U("zvjindo", race=True, only="Concurrent", thorough_only=True), U("zvjindo", race=True, tags="purego", only="Concurrent", shards_quick=6)],
      "one case = a random history of commit/evaluate/verify/copy steps compared with fresh instances, or a set of safe copies at work at once; "
      "non-trivial = an accepted and a rejected verification and an evaluation after one (histories), all (concurrent)",
      "Histories compared with fresh instances call by call; copies also under the race detector, with and without assembly; schedules are the runtime's, not enumerated.",
      "property-based testing (rapid), stateful histories against fresh instances; race detector")

def B(**kw):
    kw.setdefault("shards_quick", 8)
    kw.setdefault("shards", 8)
    return U("zvbuckler", **kw)


ADV = "Cheating provers are those of a reference implementation playing a fixed list of known deviations; absence of every attack is not shown."
check("C21", [B()],
      "one case = a circuit of arithmetic constraints over nested inputs (ranks to 2048, to 33 terms and 20 public inputs) with a satisfying assignment and several near misses (single index, cancelling over indices or constraints), "
      "or a cheating reference prover; non-trivial = a satisfying and a violating assignment were judged, or an attack was run",
      "Verdicts compared with big-integer evaluation of the constraints. " + ADV,
      "property-based testing (rapid): generated circuits and assignments against a big-integer reference; adversarial provers, oracle 'must reject'")
check("C22", [B()],
      "one case = a circuit with linear maps at ranks to 2048 (transforms, automorphisms, user-defined matrices; also several over one pair or a witness and itself), satisfying and violating assignments, a cheating reference prover, "
      "or a prover rerun with one changed random draw; non-trivial = satisfying and violating assignments were judged, an attack was run, a draw that matters was changed",
      "Verdicts compared with an independent application of the maps. " + ADV,
      "property-based testing (rapid): reference maps; adversarial provers; metamorphic transcript relation")
check("C23", [U("zvbuckler")],
      "one case = a shipped linear map of drawn rank, index and domain on two drawn vectors with dirty destinations; non-trivial = the vectors are not zero",
      "Compared with schoolbook evaluation and automorphism and by the adjoint identity; sampled.",
      "property-based testing (rapid): reference maps and the adjoint identity")
check("C24", [B()],
      "one case = a circuit with one to fourteen infinity-norm bounds (zero, around powers of two, up to half the modulus) and assignments at, below and above the bound, or a prover choosing its own digits; "
      "non-trivial = assignments on both sides of a bound were judged, or an attack was run",
      "Verdicts compared with the signed norms. " + ADV,
      "property-based testing (rapid): boundary-value generation against a reference norm; adversarial provers")
check("C25", [B()],
      "one case = a circuit with one or many squared two-norm bounds and assignments at, below and above the bound, or a prover choosing its own digits; "
      "non-trivial = assignments on both sides of a bound were judged, or an attack was run",
      "Verdicts compared with the norm modulo the field, for bounds of at most rank many bits. " + ADV,
      "property-based testing (rapid): boundary-value generation against a reference norm; adversarial provers")
check("C26", [B()],
      "one case = a circuit with one to six approximate norm bounds and witnesses within the bound (also extreme ones) or far outside, or a prover choosing the digits of the projection; "
      "non-trivial = accepted or rejected witnesses were judged, or an attack was run",
      "Ranks 2048 and 4096 (smaller ranks cannot hold the projection); witnesses between the bound and the slack are not judged. " + ADV,
      "property-based testing (rapid): reference norm with slack; adversarial provers")
check("C27", [B()],
      "one case = a circuit of sum checks (wide and at large ranks too) with declared sums and satisfying and violating assignments (also cancelling over constraints), a cheating reference prover, "
      "or a prover rerun with one changed random draw; non-trivial = satisfying and violating assignments were judged, an attack was run, a draw that matters was changed",
      "Verdicts compared with big-integer sums. " + ADV,
      "property-based testing (rapid): big-integer reference; adversarial provers; metamorphic transcript relation")
check("C28", [B()],
      "one case = a circuit of constraints of several kinds in any order with a satisfying assignment and assignments that violate exactly one of them; "
      "non-trivial = at least two kinds and at least one violation were judged",
      "Verdicts compared with the reference of every constraint; sampled.",
      "property-based testing (rapid): generated circuits against a reference model")
check("C29", [B()],
      "one case = an accepted proof shown with changed public inputs (one of up to 33 and more), constraints or reference string, challenges observed through an instrumented field, "
      "or public inputs solved for from the proof; non-trivial = a changed statement was judged",
      "Constraints that vanish identically in the witnesses for the given public inputs are left out of changes to the circuit; sampled.",
      "property-based testing (rapid): generated false statements, adaptive attack, metamorphic transcript relation")
check("C30", [B()],
      "one case = a circuit with malformed assignments (lengths, nil parts, moved or missing inputs, other types) given to the prover and the verifier, "
      "or a circuit with an input that cannot be set; non-trivial = a malformed use was judged",
      "Witnesses given to the verifier are not judged, except that nothing crashes; sampled.",
      "property-based testing (rapid): fault injection into assignments and circuit types, oracle 'error and no crash'")
check("C31", [B()],
      "one case = an accepted proof with generated alterations or splices of another proof of the same assignment, or challenges observed under such alterations (to thirty and more commitments); "
      "non-trivial = more than ten alterations were judged, or a challenge was compared",
      "Every kind of component is altered; sampled.",
      "property-based testing (rapid): generated alterations, oracle 'must reject'; metamorphic transcript relation")

check("C32", [B()],
      "one case = a circuit of any constraints, three or more proofs of one assignment (and one of another), with the transcript's openings compared and the masks recomputed, "
      "or a histogram of the opened values of many proofs; non-trivial = all",
      "Masks are recovered by a reference implementation of the prover; presence, degree and freshness are exact, uniformity statistical (" + STAT + "); simulation is out of reach.",
      "property-based testing (rapid): metamorphic relations between proofs of one statement and a statistical oracle")
check("C33", [B()],
      "one case = a history of prove/verify calls (good, false, malformed and damaged ones) on provers and verifiers compiled separately, some shared, "
      "or a circuit whose linear maps are shared by several compiled pairs used in turns; non-trivial = at least two calls of the history must fail (histories), all (shared)",
      "Every step is compared with the reference verdict and inputs are compared before and after; sampled.",
      "property-based testing (rapid), stateful histories against a reference model")
check("C34", [U("zvjindo"), B()],
      "one case = an accepted proof (or commitment, opening) with generated structural damage (nil, short, long, swapped, empty parts at any depth); "
      "non-trivial = the damage changes the shape",
      "Every slice and pointer of the proofs is damaged in some case; oracle: rejected without a panic or hang.",
      "property-based testing (rapid): structured fault injection into proofs, oracle 'reject and no crash'")

check("C35", [U("zvmodulus", shards_quick=8, shards=8)],
      "one case = a command line (bit length, range, base and exponent, names) given to a fresh build of the generator, its package compiled with and without assembly, "
      "checked against big integers and used for a commitment proof; non-trivial = a package was generated or a request had to be refused",
      "The formatter asmfmt, which changes no meaning, is replaced by a stand-in; bit lengths to 1100 (2200 thorough); arm64 code is not run.",
      "property-based testing (rapid) of the command line: reference search, compiled differential field tests")

check("C36", [U("zvjindo", shards_quick=4, shards=4), U("zvbuckler", shards_quick=4, shards=4)],
      "one case = an honest evaluation proof (or circuit proof) of drawn length, batch (or circuit), whose coefficients' ranges are measured; all are non-trivial",
      "Full-length commitments at 0.98 to 1.15 and proofs at 0.82 to 1.0 of the stated size, others within the documented looser margins (tail bounds, rounding of cut-offs); sampled.",
      "property-based testing (rapid): measured sizes of generated proofs against the stated ones")

check("C37", [U("exmult", shards_quick=4, shards=4), U("exbfv", shards_quick=4, shards=4)],
      "one case = an example's relation at a drawn rank with drawn operands (keys, messages, moduli), proved truthfully and with one lie, or a run of the example program; "
      "non-trivial = a lie was judged or the program ran",
      "Verdicts compared with the ring relation in big integers; the programs are run as shipped; sampled.",
      "property-based testing (rapid): generated ring-LWE statements against a big-integer reference")

NOT_APPLICABLE = {}
