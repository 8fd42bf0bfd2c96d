#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
B="bulletproofs/src/"; R="relations/src/"
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[o.strip() for o in observe.split(";")],hook_needed=None))
P=[
p("C01","R1CS completeness: every satisfied statement gets an accepted proof",
  "For every constraint system whose assignment satisfies all its constraints (any mix of scalar commitments, up to 17 vector commitments, allocated variables, multiplication gates, linear constraints and randomized second-phase constraints, of any size; second-phase gates are only supported without vector commitments), the prover returns a proof and the verifier that builds the same system accepts it. Prover and verifier hand out the same variables and the same metrics while building it and end with the same transcript state.",
  ["programs","inputs"],"all satisfied constraint systems (op sequences), witnesses, sizes, numbers/dimensions of vector commitments",
  "Tests run a dozen hand-written circuits of fixed shape; nothing varies the number and dimension of vector commitments together with gate counts, pending half-allocated gates, padding and phases.",
  [B+"r1cs/prover.rs",B+"r1cs/verifier.rs",B+"r1cs/mod.rs",B+"util.rs",B+"inner_product_proof.rs"],
  [("Prover","bulletproofs/src/r1cs/prover.rs prove_and_return_transcript, flattened_constraints, allocate*, commit_vec"),("Verifier","bulletproofs/src/r1cs/verifier.rs verification_scalars_and_points, flattened_constraints"),("op_splits","bulletproofs/src/r1cs/mod.rs")],
  "Prover::prove / Verifier::verify results; Variable values; Metrics; post-proof transcript challenge"),
p("C02","R1CS soundness: no accepted proof for an unsatisfied statement",
  "If the prover's assignment violates at least one constraint of the statement being verified (one of its own constraints, or one the verifier has and the prover lacks or has with another coefficient, constant or variable), then the proof it produces is rejected, and so is a proof by a prover that deviates from the protocol in what its commitments contain. This holds for every position and kind of the violated constraint, in either phase and with any number of vector commitments.",
  ["programs","inputs"],"all constraint systems, witnesses violating >=1 constraint, and verifier statements differing from the prover's in a way the witness does not satisfy",
  "Existing negative tests falsify two or three fixed gadgets; a constraint kind whose weight is lost (e.g. beyond some index, on some vector commitment, in padding) still passes them.",
  [B+"r1cs/verifier.rs",B+"r1cs/prover.rs",B+"r1cs/mod.rs"],
  [("verification equation","bulletproofs/src/r1cs/verifier.rs verification_scalars_and_points/verify"),("constraint flattening","flattened_constraints in prover.rs and verifier.rs")],
  "Verifier::verify returns Err"),
p("C03","Proofs are bound to their contents, their commitments and their context",
  "An accepted proof stops being accepted when any element of it is replaced by a different one, when any commitment given to the verifier is replaced or reordered, or when the transcript label or data the verifier absorbs differ. No single component, and no combination of components changed together by simple algebraic relations, is malleable.",
  ["inputs","fault_sequences"],"all accepted (statement, proof, context) triples and all single or paired component changes",
  "No existing test alters a proof; an element that is neither checked nor absorbed would go unnoticed.",
  [B+"r1cs/verifier.rs",B+"r1cs/proof.rs",B+"transcript.rs",B+"inner_product_proof.rs"],
  [("transcript absorption","bulletproofs/src/r1cs/verifier.rs, transcript.rs"),("mega check","bulletproofs/src/r1cs/verifier.rs verify")],
  "Verifier::verify on the altered inputs"),
p("C04","Verification of untrusted proofs always ends in accept or an error",
  "For every byte string offered as a proof, decoding returns a proof or an error, and for every decodable proof, including ones with missing, surplus, identity or non-canonical parts, verification of any statement returns an error and never panics; batch preparation likewise. A proof accepted has exactly the numbers of T, L and R elements the statement requires, and no second-phase commitments if the statement has vector commitments.",
  ["inputs"],"all byte strings (mutated, spliced, truncated, extended encodings) and all statements",
  "Tests only feed well-formed proofs; lengths of inner lists are only compared under debug assertions.",
  [B+"r1cs/verifier.rs",B+"r1cs/proof.rs",B+"inner_product_proof.rs"],
  [("decode","bulletproofs/src/r1cs/proof.rs deserialize_with_mode/from_bytes"),("shape checks","bulletproofs/src/r1cs/verifier.rs, inner_product_proof.rs verification_scalars")],
  "R1CSProof::from_bytes, Verifier::verify, verification_scalars_and_points"),
p("C05","Batch verification accepts exactly when every member verifies",
  "For every non-empty batch of statement/proof pairs, of equal or different circuit sizes and in any order, batch verification succeeds if and only if each member verifies on its own. In particular one bad member at any position, or several bad members whose errors cancel in a plain sum, makes it fail.",
  ["inputs","configurations"],"all batches: member sizes, order, number, position and kind of invalid members",
  "The only batch tests use batches of identical statements and valid proofs.",
  [B+"r1cs/verifier.rs"],
  [("batch_verify","bulletproofs/src/r1cs/verifier.rs batch_verify"),("VerificationTuple","bulletproofs/src/r1cs/verifier.rs")],
  "batch_verify result against Verifier::verify of each member"),
p("C06","Encodings of proofs, paths and transactions round-trip canonically",
  "For every proof, single membership path, pour and signed transaction the system produces, and in both compression modes, decoding its encoding gives back an object with the same contents and the same verdict, and the announced encoded size is the actual one. Apart from the curve library's own alternative encodings of the identity point, whatever decodes without error re-encodes to exactly the bytes consumed, and proper prefixes are rejected.",
  ["inputs"],"all encodable objects, both modes, and mutated encodings",
  "One proof is round-tripped in one test; sizes, the uncompressed mode, paths, pours and malformed encodings are not.",
  [B+"r1cs/proof.rs",B+"inner_product_proof.rs",R+"curve_tree.rs",R+"coin.rs"],
  [("R1CSProof encoding","bulletproofs/src/r1cs/proof.rs"),("path encoding","relations/src/curve_tree.rs"),("Pour/SignedTx encoding","relations/src/coin.rs")],
  "CanonicalSerialize/CanonicalDeserialize, serialized_size, to_bytes/from_bytes"),
p("C07","Generators are prefix-stable and unrelated; commitments match their definition",
  "Generators are a deterministic function of their party and index, whatever the history of capacity increases, and all generators in use together (both families, all parties, the two scalar-commitment bases and the tree offset) are valid curve points, distinct and not simply related. Every commitment entry point (scalar, prover-side vector, and tree-layer commitment with its generator-set index) returns the value of the defining sum and is therefore additively homomorphic.",
  ["histories","inputs"],"all capacity histories, parties, indices, curves; all values, blindings, lengths, generator set indices",
  "Tests compare two capacities for one curve and never compare families or commitment routes.",
  [B+"generators.rs",B+"util.rs",B+"r1cs/prover.rs",R+"single_level_select_and_rerandomize.rs"],
  [("BulletproofGens","bulletproofs/src/generators.rs"),("SingleLayerParameters::commit","relations/src/single_level_select_and_rerandomize.rs"),("Prover::commit/commit_vec","bulletproofs/src/r1cs/prover.rs")],
  "generator values read through share(); returned commitment points"),
p("C08","Every challenge depends on everything sent before it",
  "In the non-interactive proof, each verifier challenge changes whenever any earlier prover message, commitment or context datum changes: no prover message can be chosen after seeing the challenge that is meant to follow it. This includes all first- and second-phase commitments, each polynomial commitment, the three opened scalars and every folding round.",
  ["inputs"],"all statements/proofs and every element of them, one at a time",
  "An unabsorbed message leaves all honest proofs verifying; only an adversarial or differential view shows it.",
  [B+"r1cs/verifier.rs",B+"r1cs/prover.rs",B+"transcript.rs",B+"inner_product_proof.rs",R+"single_level_select_and_rerandomize.rs"],
  [("Verifier transcript","bulletproofs/src/r1cs/verifier.rs verification_scalars_and_points"),("folding challenges","bulletproofs/src/inner_product_proof.rs verification_scalars"),("child absorption","relations/src/single_level_select_and_rerandomize.rs")],
  "scalars of the verification tuple attached to known points; transcript state afterwards"),
p("C09","Proofs and paths are freshly blinded and hide the witness",
  "Two runs of the prover on the same witness, of a membership proof for the same leaf, or of minting the same coin never share a blinded group element or opened scalar, and no published element equals or is derivable without blinding from the witness: a test that knows the witness but not the blinding cannot recompute any published element. Distinct blinding factors are used for distinct elements of one proof.",
  ["inputs","histories"],"all witnesses and statements, including all-zero and repeated ones; repeated runs",
  "Tests only look at whether proofs verify; a constant, reused or missing blinding verifies just as well.",
  [B+"r1cs/prover.rs",R+"curve_tree_prover.rs",R+"batched_curve_tree_prover.rs",R+"coin.rs"],
  [("prover blinding","bulletproofs/src/r1cs/prover.rs"),("path rerandomization","relations/src/curve_tree_prover.rs, batched_curve_tree_prover.rs"),("coin randomness","relations/src/coin.rs")],
  "published proof elements across runs; elements recomputed from the witness"),
p("C10","A curve tree commits to exactly its set of leaves, in order",
  "For every non-empty list of leaves, branching factor, batch size and requested height, the built tree has the least sufficient height (or the requested one if larger), holds exactly the given leaves at their indices and nothing else, and each node's commitment, per generator set, is the commitment to its children's offset x-coordinates with zero in empty slots. Hence equal lists give equal roots, and lists that differ in the offset x-coordinate of some leaf give different roots.",
  ["inputs","configurations"],"all leaf lists and sizes around powers of the branching factor, L, M, heights, curve cycles",
  "Tests build trees with one or two leaves only and never look at the structure.",
  [R+"curve_tree.rs"],
  [("from_set/increase_height/combine","relations/src/curve_tree.rs"),("child_index","relations/src/curve_tree.rs")],
  "tree nodes through the public enum; height(), elements(), commitment(i); witness paths"),
p("C11","Membership completeness: any leaf of any tree can be proven",
  "For every tree of height at least one and every index holding a leaf, the membership prover yields a path and two proofs which the verifier with the same tree accepts, whatever the height parity, branching factor, tree shape or curve cycle. The leaf returned by verification equals the original leaf plus the returned scalar times the blinding generator.",
  ["inputs","configurations"],"all trees, indices, generator-set index 0, curve cycles",
  "Tests only prove index 0 (single) in trees of one leaf.",
  [R+"curve_tree_prover.rs",R+"curve_tree_verifier.rs",R+"curve_tree.rs",R+"single_level_select_and_rerandomize.rs"],
  [("prover gadget","relations/src/curve_tree_prover.rs"),("verifier gadget","relations/src/curve_tree_verifier.rs")],
  "verify of both proofs; returned leaf and scalar"),
p("C12","Membership soundness: only leaves of the given tree can be proven",
  "Verification against a tree never accepts a proof for a commitment that is not a rerandomization of one of its leaves (up to the sign lost by committing to offset x-coordinates): not a foreign leaf, an empty slot, an internal node, a leaf of another tree, nor a path of another length or with exchanged, replaced or unrelated commitments. This holds against a prover that uses any internal witness values it likes.",
  ["inputs","fault_sequences"],"all trees; all dishonest witness paths, altered paths, wrong trees",
  "There is no negative test for membership at all.",
  [R+"curve_tree_verifier.rs",R+"curve_tree_prover.rs",R+"single_level_select_and_rerandomize.rs",R+"rerandomize.rs",R+"select.rs",R+"curve.rs"],
  [("path/tree shape check","relations/src/curve_tree_verifier.rs"),("single level relation","relations/src/single_level_select_and_rerandomize.rs")],
  "verifier gadget + verify of both proofs reject"),
p("C13","Batched membership completeness: any M leaves can be proven together",
  "For every tree of height at least one built for batches of M and every choice of M leaf indices on distinct leaves, in any order and sharing any part of their paths, the batched prover yields a path and proofs which the verifier accepts. Each returned leaf equals the corresponding original leaf plus the corresponding returned scalar times the blinding generator.",
  ["inputs","configurations"],"all trees, M, index tuples, curve cycles",
  "Tests use M=2 with indices 0 and 1 (or 0 and 0) in a one- or two-leaf tree.",
  [R+"batched_curve_tree_prover.rs",R+"batched_curve_tree_verifier.rs",R+"single_level_select_and_rerandomize.rs"],
  [("batched prover","relations/src/batched_curve_tree_prover.rs"),("batched verifier","relations/src/batched_curve_tree_verifier.rs")],
  "verify of both proofs; returned leaves and scalars"),
p("C14","Batched membership soundness: every one of the M leaves must be in the tree",
  "Batched verification rejects whenever any one of the M claimed leaves is not a rerandomization of a leaf of the given tree, whichever position it has, also when the claimed leaves, the internal commitments or the path length were altered in ways that keep sums unchanged. This holds against a prover that uses any internal witness values it likes.",
  ["inputs","fault_sequences"],"all trees, M, positions, dishonest witness paths and alterations",
  "There is no negative test for batched membership.",
  [R+"batched_curve_tree_verifier.rs",R+"batched_curve_tree_prover.rs",R+"single_level_select_and_rerandomize.rs"],
  [("batched verifier","relations/src/batched_curve_tree_verifier.rs"),("batched single level relation","relations/src/single_level_select_and_rerandomize.rs")],
  "verifier gadget + verify of both proofs reject"),
p("C15","Selection holds exactly for members of the list",
  "The selection relation over a list of any length, whose entries may be constants or committed or computed variables, possibly repeated or zero, can be satisfied for a value if and only if the value equals one of the entries. The proof does not depend on which entry it is.",
  ["inputs"],"all list lengths >=1, entries, values",
  "One test selects one element of one random list and no test tries a non-member.",
  [R+"select.rs"],[("select","relations/src/select.rs")],
  "satisfaction of the emitted constraints; Verifier::verify"),
p("C16","A range proof exists exactly for values below two to the n",
  "For every bit width n up to 64 and every field element, the range relation is satisfiable if and only if the element, as an integer, is in [0, 2^n); an honest prover with a value in range is always accepted. Values at and beyond the bound, negative values and values that only look small after wrapping are rejected whatever bits the prover supplies.",
  ["inputs"],"all n in 0..64, all field elements incl. boundaries, all claimed assignments",
  "A few random values in and out of range are tried for a couple of widths with honest bits only.",
  [R+"range_proof.rs"],[("range_proof","relations/src/range_proof.rs")],
  "satisfaction of the emitted constraints; Verifier::verify"),
p("C17","Table lookup returns the entry selected by three bits and nothing else",
  "For every table and index in 0..8 the lookup relation is satisfiable and its outputs equal the table's entries at that index, in every coordinate consistently; no assignment whatsoever makes the outputs anything but one common row of the table. A bit constraint admits exactly zero and one.",
  ["inputs"],"all tables (incl. repeated/zero entries), indices, adversarial assignments",
  "One random table and index 7 are tested.",
  [R+"lookup.rs"],[("lookup/is_bit","relations/src/lookup.rs")],
  "satisfaction of the emitted constraints under honest and adversarial assignments"),
p("C18","Curve gadgets accept exactly points on the curve and true sums",
  "The curve-membership relation holds exactly for pairs satisfying y^2 = x^3 + a x + b for the given a and b, over every field and curve. The checked addition relation holds exactly when the x-coordinates differ and the output is the group sum, and the helpers return that sum; the incomplete addition holds exactly for the true sum whenever the x-coordinates differ.",
  ["inputs"],"all points/pairs, curves and coefficients (incl. a != 0), equal, opposite and off-curve points",
  "Tests add random points on one curve with a = 0 and include no false statement.",
  [R+"curve.rs"],[("curve_check/checked_curve_addition/incomplete_curve_addition","relations/src/curve.rs")],
  "satisfaction of the emitted constraints under honest and adversarial assignments"),
p("C19","Rerandomization gadget ties the public point to the secret one",
  "For every commitment, blinding scalar and blinding base for which no two equal or opposite points have to be added, the relation holds for the commitment plus the scalar times the base; and given the secret commitment and the scalar's digits, no assignment makes the public point anything other than the commitment plus the digit-weighted sum of the precomputed multiples of the base. The precomputed tables always recombine to the scalar.",
  ["inputs"],"all commitments, scalars (incl. boundary digit patterns), bases, curves; adversarial intermediate values",
  "Two tests check one random scalar on one curve with an honest prover.",
  [R+"rerandomize.rs",R+"lookup.rs",R+"curve.rs"],[("build_tables/re_randomize","relations/src/rerandomize.rs")],
  "satisfaction and local uniqueness of the emitted constraints; verify of full proofs"),
p("C20","Minted coins commit to value and owner, and only the owner's coin is spendable",
  "For every value, key and randomness, a minted coin's published commitment opens to exactly the value and to the tag derived from the rerandomized key, its proof verifies, and the coin can be spent from any index of any tree holding it under exactly that rerandomized key. A mint whose value is out of the 64-bit range, or a spend under another key, value, tag or position, is rejected.",
  ["inputs","histories"],"all values, keys, trees, indices; wrong openings",
  "One coin of value 19 at index 0 is spent in one test.",
  [R+"coin.rs"],[("Coin::mint/new/prove_spend, verify_mint","relations/src/coin.rs")],
  "coin fields vs commitment; verify results of mint and spend circuits"),
p("C21","A pour is accepted exactly when it balances and spends coins of the tree",
  "For every tree, two owned coins in it and two output values, an honest pour verifies if the outputs sum to the inputs (as integers), for every tree height and branching factor. A pour whose values do not balance, wrap around, claim a wrong input value, owner or position, or is checked against a different tree or different parameters is not accepted.",
  ["inputs","configurations"],"all values (incl. 0 and 2^64-1), tree sizes/heights/L, indices, imbalances",
  "One pour with fixed values 19+23=11+31 is verified; none is rejected.",
  [R+"coin.rs",R+"curve_tree_verifier.rs",R+"range_proof.rs"],
  [("prove_pour / Pour::verification_gadget","relations/src/coin.rs")],
  "SignedTx::verification_gadget + batch_verify"),
p("C22","Transactions are authorized: only validly signed, unaltered ones pass",
  "A signed transaction passes verification only if both signatures are valid for the spent coins' rerandomized keys over exactly the transaction's bytes. Any change to a signature, to either key, to any byte of the transaction, or an exchange of the two signatures or of parts between transactions makes verification fail, and honest signatures for both owners always pass.",
  ["inputs","fault_sequences"],"all transactions and owners; every alteration of signature or payload",
  "No test verifies a transaction with an invalid signature.",
  [R+"coin.rs"],[("SignedTx::verify_signatures/verification_gadget","relations/src/coin.rs")],
  "SignedTx::verification_gadget, verify_signatures reject (by panic or failing batch)"),
p("C23","Builds with and without parallelism are interchangeable",
  "For every statement, proofs, paths and transactions produced by a build with any supported feature set are accepted by builds with any other, deterministic outputs (generators, parameters, trees, commitments, encodings) are byte-identical across them, and invalid proofs are rejected by all of them. Repeated runs under different thread counts agree as well.",
  ["configurations","schedules"],"feature sets {parallel, asm, neither}, thread counts, statements",
  "The test suite is run in one feature set, in one process.",
  [B+"r1cs/prover.rs",R+"curve_tree_prover.rs",R+"batched_curve_tree_prover.rs",R+"coin.rs"],
  [("cfg(feature = parallel) branches","bulletproofs/src/r1cs/prover.rs, relations/src/*_prover.rs, coin.rs")],
  "bytes exchanged between separately built binaries"),
p("C24","Linear-combination arithmetic means what it says",
  "Evaluating any expression built from variables, constants and linear combinations with addition, subtraction, negation, scalar multiplication and collection gives, under every assignment, the same value as the corresponding field arithmetic. The value the prover derives for a gate or a linear combination is that evaluation.",
  ["programs","inputs"],"all expression trees and assignments over every variable kind",
  "Operators are only used incidentally in fixed gadgets.",
  [B+"r1cs/linear_combination.rs",B+"r1cs/prover.rs"],
  [("operators","bulletproofs/src/r1cs/linear_combination.rs"),("Prover::eval","bulletproofs/src/r1cs/prover.rs")],
  "Prover::eval against a reference evaluator; acceptance of the induced equality"),
p("C25","Shortage of generators and missing assignments are reported as errors",
  "For every statement and generator capacity, proving, verifying and batch verifying succeed whenever the capacity covers the padded circuit (and every vector commitment), and otherwise return the generator-length error, without panic and without a wrong verdict; surplus capacity never changes a verdict. A prover asked to allocate without an assignment gets the missing-assignment error and remains usable.",
  ["configurations","inputs"],"all capacities below, at and above the circuit size, prover and verifier independently",
  "Tests always use ample generators.",
  [B+"r1cs/prover.rs",B+"r1cs/verifier.rs",B+"generators.rs"],
  [("capacity checks","bulletproofs/src/r1cs/prover.rs prove_and_return_transcript, verifier.rs verify/batch_verify")],
  "Result values of prove, verify, batch_verify, allocate"),
]
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P))
