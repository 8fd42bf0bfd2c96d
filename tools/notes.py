NOTE={
"C01":("property-based testing: random constraint-system programs","Random two-phase programs over four curves run on the real prover and verifier; a reference interpreter guarantees the statement is satisfied, so rejection, disagreement on variables/metrics/transcript or a panic is a violation."),
"C02":("property-based testing: falsified witnesses, perturbed statements and deviating provers against a reference interpreter","Random programs with a witness the reference interpreter finds unsatisfying, verifier statements perturbed so that the witness fails, and a re-implemented prover that adds components at other basis positions; acceptance is a violation. Further provers leave constraints out or bet on equal weights of two conditions; large statements with one constraint off. Does not search over all malicious provers."),
"C03":("property-based testing: metamorphic single and paired alterations of accepted proofs","Every element of accepted proofs, statement and context replaced one at a time and in algebraically related combinations, plus a prover that changes a message after the challenge meant to follow it; acceptance is a violation."),
"C04":("structured fuzzing of proof encodings and proof shapes","Mutated/spliced/truncated encodings and structural edits of decoded proofs, verified against matching and foreign statements; a panic or acceptance of a wrong shape is a violation."),
"C05":("property-based testing: differential batch vs individual verification","Batches of different sizes with invalid members, incl. cancelling errors; the batch verdict is compared with the conjunction of individual verdicts."),
"C08":("property-based testing: differential challenge dependence","Each earlier message is changed and the challenges (read off the verification scalars and the final transcript) must change, while earlier ones must not."),
"C24":("property-based testing: random expression trees against a reference evaluator","Random expression trees over all operators/ownership forms evaluated by the reference and enforced through the prover, verifier and the recorded terms."),
"C25":("property-based testing: capacity sweeps against the documented bound","Random circuits with all capacities around the need; success or the documented error is compared with the reference; panics are violations."),
"C15":("property-based testing: generated lists against a membership oracle, with adversarial witnesses and exhaustive small fields","The emitted constraints are recorded and evaluated for members, non-members and adversarial witnesses over four curves, the same lists go through real proofs, and all values over F13 lists are enumerated."),
"C16":("property-based testing: generated values and widths against integer range membership, with adversarial witnesses","Recorded constraints evaluated for honest and adversarial bit witnesses (boundaries, negatives, wrap-around), Jacobian-rank determinacy of the bits, real proofs, and every witness over F13."),
"C17":("property-based testing: generated tables against direct table lookup, with adversarial witnesses","Recorded constraints evaluated for honest and forged lookups, output determined by the index bits, bit gadget over bits and non-bits, every witness over F7, real proofs."),
"C18":("property-based testing: curve arithmetic oracle, with adversarial witnesses and exhaustive small fields","Curve membership and incomplete addition compared with arkworks group arithmetic for on-curve and off-curve points, curves with A=0 and A!=0, adversarial witnesses, every witness over F13."),
"C19":("property-based testing: rerandomization against group arithmetic, with determinacy analysis and witness attacks","Tables compared with scalar multiples, recorded constraints evaluated for true and false public points, Jacobian-rank determinacy of every internal wire, attacks forcing internal values and re-deriving the rest, digits for which summands coincide, real proofs."),
"C10":("property-based testing: differential against a naive reference tree","Trees of generated size, arity, height and content are built by the library and by a from-definition reference; every root, every sibling list and every path node is compared, invalid requests must be refused."),
"C11":("property-based testing: honest membership proofs at every index, all layouts","Honest single-path proofs for generated trees and indices are produced and verified (constraint-level for all, real proofs for a share); the returned leaf is compared with the leaf plus the returned scalar on the blinding generator."),
"C12":("property-based testing: forged witnesses, altered paths and wrong trees against a membership oracle","Witness paths tampered at each level, padding slots, foreign leaves, altered path points and lengths, roots of other trees; acceptance of anything that is not a rerandomization of a leaf is a violation."),
"C13":("property-based testing: honest batched membership proofs","Honest batched proofs over generated trees and index tuples must be accepted and return the rerandomized leaves, and agree with the single-path circuit."),
"C14":("property-based testing: forged batched witnesses against a membership oracle","As C12 for the batched gadget: each position tampered in turn and in compensating pairs, altered shared sums, exchanged positions, wrong trees and lengths."),
"C20":("property-based testing: minted coins against their definition, adversarial range witnesses, spends with one wrong ingredient","Mints with generated values/keys compared with the defining sum and tag hash; out-of-range values tried against the verifier's recorded constraints; real spends (as pours) honest or with one wrong key, value, tag or position."),
"C21":("property-based testing: generated pours against the balance/membership oracle, with a deviating prover","Honest balanced pours over generated trees must be accepted; imbalanced, misplaced, altered and re-signed pours and pours by a separately written, calibrated prover that deviates in one place or leaves a constraint out must be rejected."),
"C22":("property-based testing: alterations of signatures, keys and payloads","Honest signatures over generated payloads must pass; every alteration of signature, key, payload, parameters, and transplanted parts of other transactions must be refused, at verify_signatures and for whole transactions."),
"C06":("property-based testing and structured fuzzing: encode/decode round trips and canonicality","Every encodable object produced from generated statements is encoded in both modes, decoded, compared, re-verified; prefixes and mutated encodings must be rejected or re-encode to the bytes consumed."),
"C07":("property-based testing: generated capacity histories and commitments against their definition, with relation search","Generators of generated capacity histories compared with single-shot ones, all generators in use tested pairwise and in small combinations for relations, and every commitment entry point compared with the defining sum and for homomorphism."),
"C09":("property-based testing: repeated runs with the same witness, searched for repeated or unblinded elements","Two runs on one witness must differ in every blinded element; a test knowing the witness tries to recompute published elements from small/derived/reused blindings. Detects missing, constant, reused and correlated blindings of the enumerated kinds, not arbitrary leakage."),
"C23":("property-based testing: differential runs of generated cases across builds and thread counts","Worker processes of up to five builds (default at 1, 2 and 8 threads, none, parallel, asm, assembly effective) replay generated cases: deterministic bytes are compared, and proofs, paths and transactions (valid, invalid, damaged) of each are judged by the others; a worker that does not answer is a violation."),
}
