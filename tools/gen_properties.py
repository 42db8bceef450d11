#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the jsonl is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

hp = "halo2_proofs/src/"; hg = "halo2_gadgets/src/"; ho = "halo2_poseidon/src/"

prop("C01", "Completeness: a satisfied circuit always yields an accepted proof",
 "For every circuit shape and every witness that satisfies it, key generation and proving succeed and the verifier accepts the proof with the same instances. This holds for any mix of columns, rotations, gate degrees, selectors, lookups, copies, constants, instance columns, number of circuits per proof, floor planner and curve, up to and including a completely full row budget.",
 ["programs","inputs","configurations"], "all constraint systems x satisfying witnesses x instance vectors x k x floor planner x curve cycle side",
 "The repository proves one hand-written circuit (plonk_api) and a handful of gadget circuits; the shape space (rotation sets, permutation chunking, degree, several lookups, several circuits per proof) is sampled at a few points only.",
 [hp+"plonk/prover.rs", hp+"plonk/verifier.rs", hp+"plonk/keygen.rs", hp+"plonk/permutation/prover.rs", hp+"plonk/lookup/prover.rs", hp+"plonk/vanishing/prover.rs", hp+"poly/evaluator.rs"],
 [("prover and verifier build the same query set and identity list", hp+"plonk/prover.rs create_proof / "+hp+"plonk/verifier.rs verify_proof"), ("quotient construction over the extended coset", hp+"plonk/vanishing/prover.rs, "+hp+"poly/evaluator.rs")],
 ["keygen_vk", "keygen_pk", "create_proof", "verify_proof"])

prop("C02", "Soundness: no proof of a violated circuit is ever accepted",
 "If any gate, copy constraint, constant, instance binding or lookup of the circuit is violated by the witness on any enforced row, then proving reports an error or the verifier rejects the resulting proof. This holds whichever single constraint and row is violated, and for every circuit in a multi-circuit proof.",
 ["programs","inputs","fault_sequences"], "all circuits x all violated (constraint,row) pairs x violating values",
 "Existing negative tests check MockProver messages for a few circuits; no test proves a false statement with the real prover and checks that the real verifier refuses it.",
 [hp+"plonk/prover.rs", hp+"plonk/verifier.rs", hp+"plonk/permutation/verifier.rs", hp+"plonk/lookup/verifier.rs", hp+"plonk/vanishing/verifier.rs", hp+"plonk/circuit.rs"],
 [("every identity folded with y and compared to h(x)(x^n-1)", hp+"plonk/vanishing/verifier.rs"), ("permutation and lookup argument identities", hp+"plonk/permutation/verifier.rs, "+hp+"plonk/lookup/verifier.rs")],
 ["create_proof", "verify_proof"])

prop("C03", "The mock prover's verdict equals the constraint system's meaning",
 "For every circuit and fully assigned witness the mock prover accepts exactly when every gate holds on every row, every lookup input on the usable rows is in its table and all copied cells are equal, as determined independently from the circuit description. When it rejects, the failures it reports name the violated constraint, lookup or column, and accepting means that the real prover and verifier accept as well; checking never panics.",
 ["programs","inputs"], "all circuits x witnesses (satisfying and perturbed at one or more cells)",
 "Unit tests cover four hand-written failing circuits; agreement with the constraint semantics is a statement about all circuits and all cells.",
 [hp+"dev.rs", hp+"dev/util.rs", hp+"dev/failure.rs"],
 [("per-row evaluation of gates, sorted-table lookup check, permutation comparison", hp+"dev.rs MockProver::verify")],
 ["MockProver::run", "MockProver::verify"])

prop("C04", "A proof only verifies for its own statement; altered proofs fail cleanly",
 "A proof is accepted only together with the verifying key, parameters, instance values (by column, row and circuit; missing trailing rows count as zero) and number of circuits it was made for. Any change to any byte of the proof, any truncation, and arbitrary byte strings are rejected with an error and without panic; instance lists of the wrong number of columns or rows are errors.",
 ["inputs","fault_sequences"], "all proofs x single/multi-byte corruptions, truncations, element swaps, instance edits, wrong keys, and random byte strings",
 "Tests verify honest proofs and a single wrong-instance case at most; malleability is a statement over every byte and every proof element.",
 [hp+"plonk/verifier.rs", hp+"plonk/prover.rs", hp+"transcript.rs", hp+"plonk.rs", hp+"poly/commitment/verifier.rs", hp+"poly/multiopen/verifier.rs"],
 [("vk digest, instance commitments and every message absorbed in the transcript", hp+"plonk/verifier.rs, "+hp+"plonk.rs hash_into"), ("canonical point and scalar decoding", hp+"transcript.rs")],
 ["verify_proof"])

prop("C05", "Batch verification equals the conjunction of single verifications",
 "A batch of proofs is accepted exactly when every proof in it would be accepted individually, for every batch size, order, mix of instance vectors and position of bad proofs, including the empty batch and duplicates. Errors of several proofs never cancel each other.",
 ["histories","inputs","schedules"], "all sequences of add operations over good, wrong-instance, corrupted and truncated proofs, any thread count",
 "One bench uses the batch verifier with valid proofs only; no test mixes valid and invalid proofs.",
 [hp+"plonk/verifier/batch.rs", hp+"plonk/verifier.rs", hp+"poly/commitment/msm.rs"],
 [("random linear combination of final MSMs", hp+"plonk/verifier/batch.rs")],
 ["BatchVerifier::finalize", "SingleVerifier", "VerificationStrategy"])

prop("C06", "Transcript challenges commit to the entire message history",
 "After the same history of points, scalars and squeezes, prover and verifier transcripts produce the same challenges, which equal a Blake2b specification of that history; the proof bytes are exactly the written messages in order and read back identically. Two histories that differ in any message, message kind, order or squeeze position produce different challenges, and non-canonical, identity or truncated encodings are errors.",
 ["histories","inputs"], "all sequences of common/write/read/squeeze operations over both curves, and all malformed encodings",
 "No unit test exercises the transcript on its own; only complete honest proofs run through it.",
 [hp+"transcript.rs"],
 [("domain-separation prefixes and state cloning at squeeze", hp+"transcript.rs Blake2bRead/Blake2bWrite")],
 ["Blake2bWrite", "Blake2bRead"])

prop("C07", "Polynomial commitment openings are complete and binding",
 "For every degree bound, polynomial, blinding factor and point, an opening proof verifies against the commitment and the true evaluation, consuming exactly the bytes written. It is rejected for any other claimed value, point, commitment or modified proof, and every way of finishing verification (full check, folded check with the claimed generator, or deferred accumulation) gives the same verdict.",
 ["inputs","configurations"], "all k x polynomials (zero, constant, sparse, full) x blinds x points x corruption",
 "A single test opens one fixed polynomial at k=6 and only on the accepting side.",
 [hp+"poly/commitment/prover.rs", hp+"poly/commitment/verifier.rs", hp+"poly/commitment.rs"],
 [("inner product argument rounds and blinding polynomial", hp+"poly/commitment/prover.rs, "+hp+"poly/commitment/verifier.rs")],
 ["commitment::create_proof", "commitment::verify_proof", "Guard::use_challenges", "Guard::use_g", "Guard::compute_g"])

prop("C08", "Multi-point openings accept exactly the true evaluations",
 "For every set of polynomials, evaluation points and queries, in any order and with polynomials shared between point sets, the multi-opening proof verifies when all claimed evaluations are true, whether commitments are given directly or as linear combinations. It is rejected when any evaluation, point or commitment is wrong, and ambiguous duplicate queries with different values are refused.",
 ["inputs","configurations"], "all query multisets (polynomial,point,value) x blinds x single-query falsification",
 "One test uses three fixed polynomials and one wrong-evaluation case.",
 [hp+"poly/multiopen.rs", hp+"poly/multiopen/prover.rs", hp+"poly/multiopen/verifier.rs"],
 [("grouping queries by point set and folding with x1..x4", hp+"poly/multiopen.rs construct_intermediate_sets")],
 ["multiopen::create_proof", "multiopen::verify_proof"])

prop("C09", "Deferred MSM accumulation equals group arithmetic",
 "After any history of adding terms, generator scalars, combining and scaling, an accumulated multi-scalar multiplication evaluates to zero exactly when the corresponding group expression is the identity. Cancellation, repeated and negated bases, identity points, zero scalars and scaling by zero are all handled.",
 ["histories","inputs"], "all operation histories over the accumulator API with adversarially related points and scalars",
 "One unit test covers a short fixed history.",
 [hp+"poly/commitment/msm.rs"],
 [("terms keyed by x-coordinate with sign merging, lazy g/w/u scalars", hp+"poly/commitment/msm.rs")],
 ["MSM::append_term", "MSM::add_msm", "MSM::scale", "MSM::eval"])

prop("C10", "Commitment parameters are deterministic, round-trip and linear",
 "Parameters for a given size are a deterministic function of the size, survive serialization byte-for-byte, and malformed, truncated or non-canonical encodings are errors. Commitments are binding linear maps: coefficient and evaluation-form commitments of the same polynomial agree, equal the naive multi-scalar product with the blinding term, and are additively homomorphic.",
 ["inputs","configurations"], "all k x polynomials x blinds x serialized byte corruptions",
 "Two tests check one polynomial at one size; reading corrupted parameters is never tested.",
 [hp+"poly/commitment.rs"],
 [("lagrange basis by inverse FFT of generators; hash-to-curve derivation", hp+"poly/commitment.rs Params::new/read/write/commit")],
 ["Params::new", "Params::read", "Params::write", "Params::commit", "Params::commit_lagrange"])

prop("C11", "Polynomial domain operations agree with direct evaluation",
 "For every domain size, quotient degree and polynomial, all basis conversions are mutual inverses and agree with naive evaluation and interpolation over the domain and coset; rotations, division by the vanishing polynomial, Lagrange-basis evaluations, synthetic division, inner products and interpolation match their textbook definitions. Results do not depend on the number of worker threads.",
 ["inputs","configurations","schedules"], "all k, j, polynomials (incl. zero, sparse, monomial), rotations in +-n, points (incl. roots of unity and zero), thread counts",
 "Unit tests cover one rotation case, one l_i case and one small FFT size, always with the default thread pool.",
 [hp+"poly/domain.rs", hp+"arithmetic.rs", hp+"poly.rs"],
 [("coset FFT with zeta, t_evaluations, bit-reversal, recursive parallel butterflies", hp+"poly/domain.rs, "+hp+"arithmetic.rs")],
 ["EvaluationDomain", "best_fft", "eval_polynomial", "kate_division", "lagrange_interpolate", "compute_inner_product", "parallelize"])

prop("C12", "Multi-scalar multiplication equals the sum of scalar products",
 "For every number of terms and every combination of scalars and points, both multi-scalar multiplication routines return the sum of the individual scalar multiples. This includes zero, one, maximal and structured scalars, repeated, negated and identity points, lengths around every window-size and chunking threshold, and any number of worker threads.",
 ["inputs","configurations","schedules"], "all lengths 0..several hundred x structured scalars/points x thread counts",
 "No unit test exercises multiexp directly; callers use random inputs at a few fixed lengths.",
 [hp+"arithmetic.rs"],
 [("bucket method with length-dependent window and per-thread chunks", hp+"arithmetic.rs multiexp_serial/best_multiexp/small_multiexp")],
 ["best_multiexp", "small_multiexp"])

prop("C13", "Deferred-inversion and unknown-value arithmetic match plain field arithmetic",
 "Arithmetic on deferred fractions always equals the same computation on field elements with the inverse of zero defined as zero, for every operator, operand form and nesting, also after batch evaluation inside a circuit. Optional witness values behave like their plain counterparts when known, stay unknown as soon as an operand is unknown, and never invent or lose a value.",
 ["inputs","histories"], "all expression trees over fractions / values with zero, trivial and rational operands, by value and by reference",
 "Property tests exist for single-step operations on random elements; deep trees, zero denominators in every position, batch inversion in the prover and the optional-value combinators are not covered.",
 [hp+"plonk/assigned.rs", hp+"circuit/value.rs", hp+"poly.rs"],
 [("numerator/denominator case analysis", hp+"plonk/assigned.rs"), ("batch inversion skipping zero and trivial denominators", hp+"poly.rs batch_invert_assigned")],
 ["Assigned", "Value", "create_proof with Assigned::Rational witnesses"])

prop("C14", "Floor planners place regions disjointly and faithfully",
 "For every sequence of regions, tables, constants and instance bindings, each floor planner gives every region one start row such that no two regions share a cell of any column they use, and emits exactly the assignments, selectors and equality constraints the circuit asked for at those positions. Every constant request is bound to a fixed cell that holds that constant and belongs to no region, and the layout is identical for keygen, proving and repeated runs, with or without witnesses.",
 ["programs","histories"], "all region sequences (shapes, sparse offsets, shared columns, selectors, constants) x planners",
 "Three unit tests check tiny layouts; disjointness and faithfulness must hold for every sequence of region shapes.",
 [hp+"circuit/floor_planner/single_pass.rs", hp+"circuit/floor_planner/v1.rs", hp+"circuit/floor_planner/v1/strategy.rs", hp+"circuit/layouter.rs", hp+"circuit.rs"],
 [("per-column next-free row", hp+"circuit/floor_planner/single_pass.rs"), ("first-fit over free intervals, constants in leftover gaps", hp+"circuit/floor_planner/v1.rs, v1/strategy.rs")],
 ["FloorPlanner::synthesize on a recording Assignment"])

prop("C15", "Lookups accept exactly the tuples present in the table",
 "For every table contents, size, number of columns and input expressions, a circuit with lookups is provable exactly when on every usable row the input tuple equals some single row of the table, where rows after the assigned part repeat the table's first row. Tables that are assigned unevenly, twice, partially, or through a column already used as a table are refused.",
 ["programs","inputs"], "all tables (duplicates, single row, full usable height) x input tuples (hits, column-wise mixtures, misses) x multiple lookups",
 "A few gadget circuits use lookups with sorted unique tables; column-mixing misses, duplicates, default fill and full-height tables are untested against the real prover.",
 [hp+"plonk/lookup/prover.rs", hp+"plonk/lookup/verifier.rs", hp+"circuit/table_layouter.rs", hp+"dev.rs"],
 [("permuted-input/table argument with theta compression", hp+"plonk/lookup/prover.rs"), ("default fill and even-length rule", hp+"circuit/table_layouter.rs")],
 ["create_proof", "verify_proof", "MockProver", "Layouter::assign_table"])

prop("C16", "Selector optimisation preserves gate activation exactly",
 "For every set of simple and complex selectors, gate degrees and activation patterns, after selector optimisation each gate is enforced on exactly the rows on which its selectors were enabled, and never anywhere else. The optimisation never raises the degree bound or makes a provable circuit unprovable.",
 ["programs","configurations"], "all activation matrices x gate degrees x selector kinds and multi-selector gates",
 "Proptests check the combination algorithm's own invariants in isolation, not the gates' meaning in circuits; only a few circuits go through it end to end.",
 [hp+"plonk/circuit/compress_selectors.rs", hp+"plonk/circuit.rs", hp+"plonk/keygen.rs"],
 [("exclusive selectors merged in one fixed column with distinct values", hp+"plonk/circuit/compress_selectors.rs process"), ("replacement of selector expressions", hp+"plonk/circuit.rs compress_selectors")],
 ["MockProver", "create_proof/verify_proof"])

prop("C17", "Copy constraints enforce exactly the requested equalities",
 "For every history of equality constraints between advice, fixed, constant and instance cells, a witness is accepted exactly when all cells connected by the constraints, directly or transitively, hold equal values; unconnected cells remain independent. This holds for repeated, redundant and self copies, any merge order, and any number of permutation columns.",
 ["histories","inputs"], "all sequences of copy operations over cells x witnesses with one deviating cell",
 "Circuits in tests form a few short chains; cycle merging by size in arbitrary order, and permutations split over several product columns, are sampled at a couple of points.",
 [hp+"plonk/permutation/keygen.rs", hp+"plonk/permutation/prover.rs", hp+"plonk/permutation/verifier.rs", hp+"plonk/permutation.rs"],
 [("cycle merging with union by size", hp+"plonk/permutation/keygen.rs Assembly::copy"), ("chunked grand products", hp+"plonk/permutation/prover.rs")],
 ["MockProver", "create_proof/verify_proof", "Region::constrain_equal", "Layouter::constrain_instance", "assign_advice_from_constant"],
 [("mapping/aux/sizes", "permutation cycles and their representatives", hp+"plonk/permutation/keygen.rs")])

prop("C18", "Keys and proofs are determined by the circuit, not by witness or scheduling",
 "Key generation gives the same verifying key whatever the witness values (or none), the thread count and the run, and proofs made with any of these keys verify with the others; with the same randomness the proof bytes do not depend on the thread count. Circuits that differ in gates, fixed values, copies, lookups, columns or size have different verifying keys, and the key handed out with the proving key is the one generated for the circuit.",
 ["programs","schedules","configurations"], "pairs of circuits (equal up to witness; differing in one structural element) x thread counts",
 "One pinned key is compared for one circuit; neither independence from the witness and threads nor key separation between circuits is tested.",
 [hp+"plonk/keygen.rs", hp+"plonk.rs", hp+"plonk/circuit.rs", hp+"multicore.rs", hp+"plonk/prover.rs"],
 [("witness-free synthesis in keygen; digest of the pinned key", hp+"plonk/keygen.rs, "+hp+"plonk.rs from_parts")],
 ["keygen_vk", "keygen_pk", "VerifyingKey::pinned", "ProvingKey::get_vk", "create_proof"])

prop("C19", "Proofs are freshly blinded",
 "Every witness column, lookup and permutation product polynomial, quotient piece and opening is masked by fresh randomness taken from the supplied generator: two proofs of the same statement made with different randomness have no commitment or witness-dependent evaluation in common. Enough independent randomness is drawn for every column, and all of it affects the proof.",
 ["inputs","configurations"], "all circuits and witnesses x pairs of random tapes x single-draw perturbation",
 "No test compares two proofs or looks at the randomness drawn; a proof without blinding verifies just as well.",
 [hp+"plonk/prover.rs", hp+"plonk/permutation/prover.rs", hp+"plonk/lookup/prover.rs", hp+"plonk/vanishing/prover.rs", hp+"poly/commitment/prover.rs"],
 [("random values in unusable rows and random commitment blinds", hp+"plonk/prover.rs, permutation/prover.rs, lookup/prover.rs"), ("random polynomial in the vanishing argument and blinding polynomial s in the opening", hp+"plonk/vanishing/prover.rs, "+hp+"poly/commitment/prover.rs")],
 ["create_proof with an instrumented RngCore"])

prop("C20", "Developer reports agree with the circuit and the real proof",
 "The predicted proof size equals the length of the proof actually produced for every circuit and number of instances. The gate listing shows exactly the circuit's gates, queries and operation counts, and wrapping a floor planner in the tracing planner changes neither the keys nor the verdict.",
 ["programs","configurations"], "all circuits x number of circuit instances x k",
 "Proof sizes are compared for a few gadget circuits that all use lookups and permutations; other shapes are not.",
 [hp+"dev/cost.rs", hp+"dev/gates.rs", hp+"dev/tfp.rs"],
 [("count of commitments, evaluations and point sets", hp+"dev/cost.rs"), ("pass-through floor planner", hp+"dev/tfp.rs")],
 ["CircuitCost::proof_size", "CircuitCost::marginal_proof_size", "CircuitGates", "TracingFloorPlanner"])

prop("C21", "Misuse is reported as an error, never accepted or crashed on",
 "Circuits that do not fit their row budget, use columns without the needed equality or constant capability, supply too many or too few instance columns, too many instance values, unequal numbers of circuits and instances, or lack witness values are refused with the matching error: by key generation where fixed data, selectors, tables or copies are concerned, and always by the mock prover and the prover. A circuit that does fit is never refused: the boundary is exact.",
 ["configurations","inputs"], "all circuits at k, k-1, with exactly full and one-too-many rows / instance values, missing capabilities and missing witnesses",
 "plonk_api checks a couple of error codes for one circuit; boundaries depend on blinding factors and column usage of every circuit.",
 [hp+"plonk/error.rs", hp+"plonk/keygen.rs", hp+"plonk/prover.rs", hp+"dev.rs", hp+"circuit/floor_planner/single_pass.rs", hp+"circuit/floor_planner/v1.rs"],
 [("usable-row checks in every Assignment backend", hp+"plonk/keygen.rs, plonk/prover.rs, dev.rs"), ("column-in-permutation check", hp+"plonk/permutation/keygen.rs")],
 ["Error variants from keygen_vk / keygen_pk / create_proof / verify_proof / MockProver::run"])

prop("C22", "Poseidon primitive implements the specified sponge",
 "For every width, round numbers, field and constant message length, the hash equals an independent implementation of the Poseidon specification: Grain-derived constants, Cauchy matrix with its true inverse, full/partial round schedule, length-encoding capacity element and zero padding. The hard-coded parameter sets equal the generated ones.",
 ["inputs","configurations"], "all messages x lengths x widths/rates x fields",
 "Test vectors pin width 3 with length-2 messages only.",
 [ho+"lib.rs", ho+"grain.rs", ho+"mds.rs", ho+"p128pow5t3.rs", ho+"fp.rs", ho+"fq.rs"],
 [("sponge absorb/pad/squeeze", ho+"lib.rs"), ("Grain LFSR and Cauchy MDS", ho+"grain.rs, "+ho+"mds.rs")],
 ["Hash::init().hash", "Spec::constants", "generate_constants"])

prop("C23", "Poseidon circuit computes and enforces the primitive hash",
 "For every message, length, width and domain, the in-circuit Poseidon hash succeeds and its output cell holds the primitive's hash of the same message. No assignment that changes any witnessed cell of the computation while keeping the message cells satisfies the circuit.",
 ["inputs","programs","fault_sequences"], "all messages x lengths (partial blocks, exact blocks) x widths x single-cell witness mutations",
 "Tests hash random length-2 and length-3 messages honestly; no test tampers with the witness.",
 [hg+"poseidon/pow5.rs", hg+"poseidon.rs"],
 [("full/partial round, pad-and-add gates and copies between regions", hg+"poseidon/pow5.rs")],
 ["poseidon::Hash gadget", "Pow5Chip", "MockProver"])

prop("C24", "Sinsemilla circuit hashes and commitments equal the primitive",
 "For every message split into pieces of any admissible lengths, every domain point and every public or (where the chip allows it) private starting point, the in-circuit Sinsemilla hash and commitment equal the primitive's result on the same bits, and the returned running sums are those of the pieces. With the message pieces and starting point fixed, no witness that satisfies the circuit yields another hash, commitment or running sum.",
 ["inputs","programs","fault_sequences"], "all bit messages x piece partitions x public/private initial points x blinding scalars x witness mutations",
 "Tests use two fixed message shapes with random bits.",
 [hg+"sinsemilla.rs", hg+"sinsemilla/chip.rs", hg+"sinsemilla/chip/hash_to_point.rs", hg+"sinsemilla/message.rs"],
 [("double-and-add gate, y checks, generator-table lookup", hg+"sinsemilla/chip.rs, chip/hash_to_point.rs")],
 ["HashDomain::hash", "CommitDomain::commit", "short_commit", "MockProver"])

prop("C25", "Merkle path circuit computes the root of the given path",
 "For every depth used, leaf, position and sibling list, split over one or several chips, the circuit's root equals the root computed with the primitive hash level by level, with left and right ordered by the position bits. No witness that satisfies the circuit yields a root that is not the hash path of its leaf along some choice of siblings and positions, each child being encoded in exactly 255 bits with its true value.",
 ["inputs","configurations","fault_sequences"], "all leaves (incl. 0, p-1, values near 2^254), positions, sibling values, chip counts x witness mutations",
 "One test with random path and a random position.",
 [hg+"sinsemilla/merkle.rs", hg+"sinsemilla/merkle/chip.rs"],
 [("decomposition of l, left, right in message pieces", hg+"sinsemilla/merkle/chip.rs"), ("conditional swap by position bits, layers divided over chips", hg+"sinsemilla/merkle.rs")],
 ["MerklePath::calculate_root", "MockProver"])

prop("C26", "Elliptic-curve witnessing and addition match the group law exactly",
 "For all pairs of points, including identity, equal, opposite and endomorphism-related points, complete addition in circuit equals the group sum and incomplete addition succeeds exactly outside its documented exceptional cases. Off-curve or forbidden-identity coordinates, and any output coordinates other than the true sum, are rejected however the auxiliary cells are filled.",
 ["inputs","fault_sequences"], "all point pairs incl. exceptional relations x witness mutations",
 "One circuit with one random pair plus a few special pairs, only honest witnesses.",
 [hg+"ecc/chip/add.rs", hg+"ecc/chip/add_incomplete.rs", hg+"ecc/chip/witness_point.rs", hg+"ecc.rs", hg+"ecc/chip.rs"],
 [("complete addition gate with alpha..delta inverses", hg+"ecc/chip/add.rs"), ("curve equation gates", hg+"ecc/chip/witness_point.rs")],
 ["Point::new", "NonIdentityPoint::new", "Point::add", "add_incomplete", "MockProver"])

prop("C27", "Variable-base scalar multiplication equals the group scalar multiple",
 "For every base point and every base-field scalar, including zero, small, p-1, values around the group order and bit patterns at chunk boundaries, the in-circuit product equals the scalar multiple and the returned scalar is the one multiplied. A witness with any other product or altered decomposition is rejected.",
 ["inputs","fault_sequences"], "all points x scalars (boundary structured) x witness mutations",
 "One random scalar plus zero and -1 per run.",
 [hg+"ecc/chip/mul.rs", hg+"ecc/chip/mul/incomplete.rs", hg+"ecc/chip/mul/complete.rs", hg+"ecc/chip/mul/overflow.rs"],
 [("k = alpha + t_q, hi/lo incomplete double-and-add, complete tail, overflow check", hg+"ecc/chip/mul.rs")],
 ["NonIdentityPoint::mul", "MockProver"])

prop("C28", "Fixed-base scalar multiplication equals the group scalar multiple",
 "For every fixed base with its derived window tables and every full-width scalar, base-field scalar, or signed 64-bit scalar, the in-circuit product equals the group scalar multiple, including zero and the maximal values of each kind. Out-of-range magnitudes, signs other than plus or minus one, and any witness with another product or decomposition are rejected; the derived tables are correct for every base.",
 ["inputs","configurations","fault_sequences"], "all bases x scalars of the three kinds x witness mutations",
 "One generator base with a few random and boundary scalars.",
 [hg+"ecc/chip/mul_fixed.rs", hg+"ecc/chip/mul_fixed/full_width.rs", hg+"ecc/chip/mul_fixed/short.rs", hg+"ecc/chip/mul_fixed/base_field_elem.rs", hg+"ecc/chip/constants.rs"],
 [("lagrange window coefficients, z/u tables", hg+"ecc/chip/constants.rs"), ("window decomposition and canonicity checks", hg+"ecc/chip/mul_fixed/*.rs")],
 ["FixedPoint::mul", "FixedPointBaseField::mul", "FixedPointShort::mul", "Point::mul_sign", "find_zs_and_us", "compute_lagrange_coeffs"])

prop("C29", "Range checks accept exactly the values in range",
 "For every word size, number of words, bit length and value, each range-check and decomposition gadget is satisfiable exactly when the value lies in the claimed range (for strict forms) and always returns the running sums of the value's true words. A value outside the range is rejected however the remaining cells are filled.",
 ["inputs","configurations","fault_sequences"], "all values (0, boundaries +-1, negative, random) x word sizes x counts x strictness x tampered cells",
 "Tests use K=10 with a handful of values and a few bit lengths.",
 [hg+"utilities/lookup_range_check.rs", hg+"utilities/decompose_running_sum.rs", hg+"utilities.rs"],
 [("running-sum lookup, short check by shift, tagged 4/5-bit table", hg+"utilities/lookup_range_check.rs"), ("small-window range gate", hg+"utilities/decompose_running_sum.rs")],
 ["LookupRangeCheckConfig", "LookupRangeCheck4_5BConfig", "RunningSumConfig", "range_check", "MockProver"])

prop("C30", "Conditional swap, multiplexer and bit utilities are exact",
 "For every pair of values or points and every selector bit the swap and multiplexer circuits output the selected values, reject non-boolean selectors and reject any other output. Bit-range extraction, window decomposition, integer/bit conversions and boolean/ternary/range expressions agree with integer arithmetic for all inputs.",
 ["inputs","fault_sequences"], "all values x selector values (0,1,other) x bit ranges x window sizes x tampered outputs",
 "Random values for one swap circuit; expressions are evaluated for a few ranges.",
 [hg+"utilities/cond_swap.rs", hg+"utilities.rs"],
 [("swap gate with booleanity", hg+"utilities/cond_swap.rs"), ("bit helpers", hg+"utilities.rs")],
 ["CondSwapInstructions::swap", "mux", "mux_on_points", "bitrange_subset", "decompose_word", "lebs2ip", "i2lebsp"])

prop("C31", "SHA-256 circuit computes the SHA-256 rounds of its message",
 "For every sequence of message words, over any number of blocks and any split into updates, the table-based SHA-256 circuit is satisfied by its own witness and the digest words equal the SHA-256 message schedule and 64 compression rounds chained over the blocks, an incomplete last block being padded with zero words (length padding and the final addition of the input state are left to the caller). No cell of the schedule or the rounds can be changed alone, and every schedule word, round state word and digest word is determined (modulo 2^32) by the message in every satisfying witness: the initial state, the round constants and the states between blocks are constrained.",
 ["inputs","histories","fault_sequences"], "all messages/blocks x update splits x initial states x witness mutations",
 "A single fixed test message is hashed in the benches and unit tests.",
 [hg+"sha256.rs", hg+"sha256/table16.rs", hg+"sha256/table16/compression.rs", hg+"sha256/table16/compression/compression_util.rs", hg+"sha256/table16/message_schedule.rs", hg+"sha256/table16/spread_table.rs"],
 [("spread-table decomposition of words, message schedule and compression gates", hg+"sha256/table16/*")],
 ["Sha256", "Table16Chip", "MockProver"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
