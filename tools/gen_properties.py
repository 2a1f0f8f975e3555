#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
      "anchors": {"files": list(files),
                  "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

DS, GE, CO, PR, VE, ST = ("src/data_structures.rs", "src/generator.rs", "src/prover/commit.rs",
                          "src/prover/prove.rs", "src/verifier.rs", "src/statement.rs")

p("C01", "Completeness: honest proofs of true equations verify",
  "For every common reference string, every one of the four equation types with at least one variable on each side, every choice of public constants, every witness that satisfies the equation and every stream of prover randomness, committing to the witness and proving succeeds and the resulting proof verifies.",
  ["inputs", "configurations"],
  "all keys (binding or hiding), the four equation types, all m x n shapes, all constants/coefficients/witnesses (including zero, the identity element, equal and opposite values), all prover randomness",
  "tests/prover.rs verifies one 2x1 equation per type with one witness and one fixed rng stream; square, wide and large shapes, zero or identity entries and other randomness are never run.",
  [PR, VE, CO, DS, ST],
  [("commit_and_prove / prove for the four equation types", PR), ("verify for the four equation types", VE), ("batch commitments", CO)],
  observe=["Provable::commit_and_prove", "Verifiable::verify"])

p("C02", "Soundness: accepted proofs open to a satisfying witness",
  "Under a binding common reference string, whenever the verifier accepts commitments and a proof for an equation, however those group elements were chosen, the values the commitments uniquely open to satisfy that equation. In particular a proof honestly generated from a non-satisfying witness, or checked against a different target, is never accepted.",
  ["inputs", "configurations"],
  "all binding keys, equations, and adversarially chosen commitment and proof elements of the right shape",
  "No test ever shows the verifier a proof that must be rejected; every existing verification assertion is positive.",
  [VE, DS, GE, ST],
  [("verification equation for each type", VE), ("maps of the target into the commitment target group", DS), ("pairing and pairing sums of commitments", DS)],
  observe=["Verifiable::verify"])

p("C03", "The verifier decides exactly the verification relation",
  "For every equation, key, commitments and proof of the prescribed shape, the verifier terminates without panicking and accepts if and only if the commitment pairing products equal the target plus key/proof pairing products in every one of the four components of the commitment target group. Changing any single public part (a commitment, a proof element, a constant, a coefficient, the target or the key) therefore flips the verdict exactly when it breaks that relation.",
  ["inputs", "configurations"],
  "all keys including degenerate and hiding ones, all equations and shapes, all single-part modifications of valid and invalid proofs",
  "Tests only see one accepting verdict per type; neither rejection nor the dependence of the verdict on each individual part is exercised.",
  [VE, DS],
  [("lhs/rhs comparison of the verification equation", VE), ("equality in the commitment target group", DS)],
  observe=["Verifiable::verify"])

p("C04", "Witness indistinguishability of commitments and proofs",
  "Under a hiding common reference string, any two witnesses satisfying the same equation induce exactly the same joint probability distribution of published commitments and proof elements, taken over the prover's randomness. This holds for each of the four equation types, and jointly for several equations proved about the same commitments.",
  ["inputs", "configurations"],
  "all hiding keys, equations and pairs of satisfying witnesses; the distribution is over all prover randomness",
  "A statement about distributions over randomness and pairs of executions; every test runs one rng stream and compares nothing across witnesses.",
  [PR, CO],
  [("proof randomness and commitment randomness terms", PR), ("commitment randomness", CO)],
  observe=["CProof.xcoms.coms", "CProof.ycoms.coms", "EquProof.pi", "EquProof.theta"])

p("C05", "Commitments are perfectly hiding under a hiding key",
  "Under a hiding common reference string, the distribution of a commitment over the committer's randomness is the same for every committed value, and commitments to the different entries of a list are independent of each other. This holds for group-element and scalar commitments on both sides.",
  ["inputs", "configurations"],
  "all hiding keys, all committed values or lists of values, distribution over all committer randomness",
  "Tests check commitments only under one binding key and one rng stream; a reused, dropped or correlated random value would not be noticed.",
  [CO, DS],
  [("fresh randomness per committed entry", CO), ("use of both key vectors for group elements and the first for scalars", CO)],
  observe=["Commit1.coms", "Commit2.coms"])

p("C06", "Commitments are perfectly binding under a generated key",
  "Under a generated (binding) common reference string, commitments to distinct values never coincide, whatever randomness is used, and the key's trapdoor recovers from any commitment exactly the committed group element (or the scalar in the exponent). This holds for group-element and scalar commitments on both sides, single and batched.",
  ["inputs", "configurations"],
  "all generated keys, all pairs of values, all pairs of randomness",
  "Needs all pairs of openings; tests never compare commitments of different values nor extract a value.",
  [CO, DS, GE],
  [("embedding of values into the second component", DS), ("scalar embedding u2 + (0,P)", DS), ("binding key", GE)],
  observe=["Commit1.coms", "Commit2.coms"])

p("C07", "Key generation yields uniform, independent, binding keys",
  "For every outcome of the random source with non-identity generators, the generated key consists of two generators with the stated target-group generator equal to their pairing, and on each side two key vectors built on that generator such that the second is a scalar multiple of the first (a binding key). Over the random source, generators and the two trapdoor scalars of both sides are uniform and mutually independent.",
  ["inputs", "configurations"],
  "all outcomes of the random source used for key generation",
  "Tests look at a single key and recompute it with the library's own helper; swapped, shared or constant trapdoors, a non-binding key for some outcomes or a skewed distribution go unnoticed.",
  [GE],
  [("generate_crs", GE), ("prepare_real_binding_key", GE)],
  observe=["CRS fields"])

p("C08", "Batch, single and appended commitments are interchangeable",
  "Committing to a list in one batch, committing to its entries one at a time and appending, or any mixture of the two with the same random stream gives the same commitment, in order and with the source of an append left empty; proving with it gives proofs that verify. Committing and proving in one step equals committing to X, then to Y, then proving, with the same random stream.",
  ["histories", "inputs"],
  "all sequences of batch/single/append operations producing a list, all values, all randomness, on both sides and for both kinds of variables",
  "Tests try one three-entry list per function with one rng stream, and no test proves or verifies with an appended commitment.",
  [CO, PR],
  [("append", CO), ("commit_* and batch_commit_*", CO), ("commit_and_prove", PR)],
  state=[("rand", "commitment randomness carried along with each commitment, in the same order", CO)],
  observe=["Commit1/Commit2 equality and encoding", "Verifiable::verify"])

p("C09", "Several equations can be proved about shared commitments",
  "Commitments made once can be reused to prove any number of equations, of every type whose sides match the committed variable kinds, in any order, and interleaved with clones, appends that extend the variable list, encoding round trips and verifications. Each such proof verifies for its own equation exactly when the committed values satisfy that equation, and proving or verifying never changes the commitments.",
  ["histories", "inputs"],
  "all operation histories up to a depth over a shared pool of committed variables and equations of mixed types",
  "No test proves two equations about the same commitments, extends a commitment and proves again, or proves after an encoding round trip.",
  [PR, VE, CO, ST],
  [("prove with caller-supplied commitments", PR), ("append", CO), ("serialization of commitments with their randomness", CO)],
  state=[("commitments", "list of committed values with randomness, grown by append", CO)],
  observe=["Provable::prove", "Verifiable::verify"])

p("C10", "Results depend only on explicit inputs, never on history",
  "Every operation (key generation, commitment, proof, verification, encoding, group and matrix arithmetic) returns a result determined only by its arguments and the random stream it is given: the same call gives the same result after any sequence of other calls, including calls with keys, equations or proofs that differ in a single part, after rejected or panicking calls, when repeated many times, and whatever the surroundings: environment variables, number of processors and threads, clock, calling thread.",
  ["histories"],
  "all sequences of calls up to a bounded length over a menu of nearly identical arguments, long repetitions, and every call in an enumerated list of surroundings",
  "Each test makes a handful of calls in one fixed order, and never the same call after a different history.",
  [VE, PR, CO, GE, DS],
  [("absence of shared mutable state across calls", "whole crate")],
  observe=["results of all public operations"])

p("C11", "Parallel evaluation gives the sequential result on any schedule",
  "Whatever the number of worker threads and however their work is scheduled, stolen or interleaved, parallel matrix products equal the sequential ones, and proving and verifying return the same results as on a single thread, also when several callers work concurrently. No schedule deadlocks or panics.",
  ["schedules", "inputs"],
  "all worker-pool schedules and interleavings up to a preemption bound, worker counts, matrix shapes and concurrent callers",
  "Tests run whatever schedule the thread pool happens to produce; parallel multiplication is tested once per matrix kind on one tiny shape and left multiplication of commitment matrices in parallel is not compared at all.",
  [DS, PR, VE],
  [("parallel row/column maps with ordered collection", DS), ("is_parallel = true in prove and verify", PR)],
  observe=["Mat::left_mul/right_mul with is_parallel", "prove", "verify"])

p("C12", "Matrix arithmetic is exact for every shape and entry",
  "For all non-empty matrices of scalars or of commitment group elements with compatible shapes, addition, negation, scalar multiplication, transposition and left and right multiplication by a scalar matrix (sequential or parallel) return the mathematically defined matrix of the correct shape, and multiplication with an incompatible inner dimension is refused. Conversion between vectors and column matrices is lossless.",
  ["inputs"],
  "all shapes and all entries, both matrix kinds, both evaluation modes",
  "Tests use fixed matrices with at most three rows or columns; most entry/shape combinations (rectangular, single row, wide, large) and algebraic laws are untested.",
  [DS],
  [("Mat implementations for scalar and commitment matrices", DS), ("vec_to_col_vec / col_vec_to_vec", DS)],
  observe=["Mat methods"])

p("C13", "Commitment groups obey exact group laws and equality",
  "The three commitment groups are abelian groups under component-wise operations: addition, subtraction, negation, their in-place forms, sums of sequences, identity and identity test, and scalar multiplication (a ring action of the scalar field) return exactly the component-wise result for all operands. Equality holds exactly when all components are equal, and conversions to and from vectors and matrices preserve every component in place.",
  ["inputs"],
  "all pairs/triples of elements including identity components, opposite points and boundary scalars",
  "Tests use one or two random elements per operation; identity components, equal/opposite points, unequal-in-one-component comparisons and boundary scalars are not covered.",
  [DS],
  [("group operator implementations for Com1, Com2, ComT", DS), ("scalar_mul", DS), ("From<Matrix>, as_vec, as_col_vec, as_matrix", DS)],
  observe=["Com1/Com2/ComT operators"])

p("C14", "Embeddings are linear and commute with the pairings",
  "The pairing of commitment groups is bilinear, is non-degenerate on each component, and its sum form equals the sum of individual pairings, refusing lists of different length. For every key, the embeddings of group elements and scalars are linear, batch forms agree with element-wise forms, and embedding then pairing equals applying the equation's own product and then the embedding of the target, for all four equation types; hence commitments are homomorphic.",
  ["inputs", "configurations"],
  "all keys, all elements/scalars/lists including identity and zero",
  "Tests check one random sample per map and a single generated key.",
  [DS, "tests/commit.rs"],
  [("linear_map, scalar_linear_map and target maps", DS), ("pairing, pairing_sum", DS)],
  observe=["B1/B2/BT methods"])

p("C15", "Encoding round trip and transport preserve every object",
  "For every key, statement, commitment, proof, equation type and commitment group element, encoding and decoding (compressed or not, validated or not) yields an equal object, consumes exactly the bytes produced, whose number equals the announced size, and distinct objects have distinct encodings, so objects written one after another read back in order. A proof decoded by another party together with key, statement and commitments gets the same verdict as the original, and the four equation types keep their numbers 0 to 3 on the wire.",
  ["inputs", "histories"],
  "all object types, all shapes including empty lists and ragged or empty matrices, all entries, all sequences of writes, both modes",
  "Tests round-trip one object per type; identity points, other shapes, concatenated streams, size announcements and verification after transport are not covered.",
  [GE, ST, CO, PR, DS],
  [("derived canonical (de)serialization", "all data types"), ("hand-written equation type encoding", ST)],
  observe=["CanonicalSerialize/CanonicalDeserialize impls"])

p("C16", "Malformed or faulty encodings are reported, never accepted",
  "Validated decoding refuses every truncated encoding, every list that announces more elements than follow, every unknown equation type number, every out-of-range scalar and every point outside its group, at whatever position inside whatever object it occurs, and reports this as an error without panicking. A read or write error of the underlying stream at any byte position is reported as an error, and reads delivered in arbitrarily small pieces change nothing.",
  ["fault_sequences", "inputs"],
  "all truncation points, all announced list lengths, all positions of an invalid element, all tag values, all stream-fault positions and chunkings, for every object type",
  "No test ever feeds a malformed encoding or a failing stream (only a bad equation-type byte, if at all).",
  [ST, DS, CO, PR, GE],
  [("validation in derived deserialization", "all data types"), ("hand-written equation type decoding", ST)],
  observe=["deserialize_* results", "serialize_* results"])

p("C17", "Wrongly typed or wrongly shaped proofs are never accepted",
  "The verifier never accepts a proof whose equation type differs from the statement's, that carries no proof or several proofs for the one equation, or whose number of commitments or of proof elements on either side differs from what the equation's type and size prescribe, even if the remaining elements are valid.",
  ["inputs"],
  "all combinations of equation type, declared type, list lengths, with valid or arbitrary elements in the extra or remaining places",
  "Tests never present a proof of the wrong type or shape.",
  [VE, PR],
  [("shape and type assertions in verify", VE), ("length assertion in pairing_sum", DS)],
  observe=["Verifiable::verify"])

p("C18", "Encoded commitments and proofs reveal nothing about the witness",
  "Under a hiding common reference string, the bytes produced by encoding a commitment or a proof, i.e. what a prover hands to the verifier, have the same distribution over the prover's randomness for any two satisfying witnesses, and for any two committed values.",
  ["inputs", "configurations"],
  "all hiding keys, equations, pairs of witnesses, distribution over all prover randomness",
  "A hyperproperty over distributions of encodings; tests only check that encodings decode to the same object.",
  [CO, PR],
  [("serialized fields of commitments and proofs", CO)],
  state=[("rand", "opening randomness stored in (and encoded with) commitments and proofs", CO)],
  observe=["CanonicalSerialize for commitments and proofs"])

p("C19", "Proofs are freshly and fully randomised",
  "For fixed commitments under a hiding common reference string, the proof produced by an honest prover is uniformly distributed over all proofs the verifier accepts for these commitments, independently of which satisfying opening was used; the proof randomness is drawn anew for each proof and independent of the commitment randomness. Two proofs produced one after another from the same random source are independent.",
  ["inputs", "configurations"],
  "all hiding keys, equations, openings, all proof randomness, pairs of proofs",
  "Needs the whole distribution over proof randomness; every test produces a single proof.",
  [PR],
  [("proof randomness matrix drawn in prove", PR)],
  observe=["EquProof.pi", "EquProof.theta"])

p("C20", "Objects compare equal exactly when their contents are the same",
  "Two commitment group elements (of either side or of the target group), two commitments, proofs, whole transcripts, equations of one type or equation types compare equal (==) if and only if all their contents are the same: every group element and scalar, the length and order of every list, the arrangement of the coefficients in rows, the declared type, and the stored randomness. Comparison is reflexive, symmetric and transitive, != is its negation, and a clone equals its original.",
  ["inputs"],
  "all pairs of objects of each type, including objects that differ in one coordinate, one list length, the order or the arrangement of entries only",
  "The verdict and every test assertion rest on ==, but tests only ever assert that equal things are equal; that different objects are told apart in every single component is never settled.",
  [DS, CO, PR, ST],
  [("hand-written PartialEq of Com1, Com2 and ComT", DS), ("hand-written PartialEq of Commit1 and Commit2", CO), ("derived PartialEq of proofs", PR), ("derived PartialEq of equations", ST)],
  observe=["PartialEq of all public types"])

p("C21", "The prover refuses inputs that do not fit together",
  "Proving succeeds exactly when its inputs fit together: the two lists of constants, the rectangular coefficient matrix, the two lists of variables and the two commitments all have the sizes of one equation in m >= 1 and n >= 1 variables, and the commitments of each side are of the kind (group elements or scalars) the equation's type prescribes. Otherwise it refuses (panics) and never returns a proof, however the sizes disagree and whatever the values are. The same holds for committing and proving in one call.",
  ["inputs"],
  "all combinations of list lengths, matrix shapes and commitment kinds up to the bounds, for values that are zero or not (equations without variables on a side, ragged matrices and commitments of mixed kind are outside the stated domain)",
  "Tests never call the prover with inputs that disagree; that no combination of disagreeing sizes is silently truncated or padded into a proof of something else needs all of them.",
  [PR, DS],
  [("dimension assertions in prove", PR), ("dimension assertions of matrix operations", DS)],
  observe=["Provable::prove", "Provable::commit_and_prove"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
