#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=m, where=', '.join(files)) for m in mech], **kw)))
R='src/r1cs/'; GD=R+'gadgets/'; HC=GD+'helper_constraints/'

p('C01','Honest proofs of satisfied statements always verify',
  'For every constraint-system program whose constraints hold for the prover\'s assignments, the proof produced is accepted by a verifier that runs the same program on the returned commitments with the same generators and transcript label. This holds for every number of commitments, multipliers (including none and one, powers of two or not), constraints and second-phase callbacks, and for a proof that was serialized and deserialized in between.',
  ['programs','inputs','configurations'],'all programs over the constraint-system interface, all witnesses satisfying them, all generator vectors long enough',
  'Tests run about twenty fixed circuits with fixed sizes; none has zero or one multiplier, few use the second phase, and odd sizes and repeated terms are sampled by accident.',
  [R+'prover.rs',R+'verifier.rs','src/ipp.rs',R+'proof.rs'],
  ['Prover::prove builds l(x), r(x), t(x) and the inner-product proof; Verifier::verify checks one multi-scalar multiplication','padding to the next power of two on both sides'])
p('C02','A proof is never accepted for a statement it does not prove',
  'A proof built from assignments that violate at least one constraint is rejected, and a proof for one statement is rejected when the verifier uses different commitments, different constraints or coefficients or constants, different generators, a different transcript label, or a number of multipliers that changes the phase split or the padded size. Violations confined to a single constraint, term, multiplication gate or phase are rejected too.',
  ['programs','inputs'],'all programs, all assignments violating them, all statement/proof mismatches',
  'Tests contain almost no negative cases; each constraint, term kind, gate position and phase would need its own falsified witness.',
  [R+'prover.rs',R+'verifier.rs'],['flattening of constraints with powers of a challenge','delta / constant-term computation','polynomial identity check at a random point'])
p('C03','Verification accepts exactly the transcripts satisfying the protocol equations',
  'For every statement, every proof object and every value of the challenges, verification succeeds exactly when both the blinded polynomial-evaluation equation and the inner-product equation of the Bulletproofs arithmetic-circuit protocol hold for those challenges. In particular the two equations cannot be traded off against each other, and changing any single component of an accepted proof makes it rejected.',
  ['inputs','programs'],'all proof objects (not only honestly generated ones), all challenge values, all circuits in both phases',
  'Honest proofs reach only a thin slice of the verifier\'s input space; a verification equation that is wrong consistently with the prover is invisible to them.',
  [R+'verifier.rs','src/ipp.rs'],['the single multi-scalar multiplication combining both checks with a random weight','IPP verification scalars'])
p('C04','Every challenge is bound to everything sent before it',
  'Each verifier challenge is derived only after the transcript has absorbed the protocol identity (for the inner-product argument together with the length of its vectors), every commitment and their number, and every proof message that precedes it in the protocol, and prover and verifier absorb exactly the same data in the same order. Consequently altering any of these inputs, their number or the phase structure changes every later challenge.',
  ['programs','inputs'],'all programs, commitment counts, phases and circuit sizes',
  'Prover and verifier share the transcript code, so omitting or reordering a message on both sides still passes every honest round trip.',
  ['src/transcript.rs',R+'prover.rs',R+'verifier.rs','src/ipp.rs'],['append_message / challenge_bytes calls of the Merlin transcript in protocol order'])
p('C05','Prover and verifier build the same constraint system from the same program',
  'For every sequence of operations on the constraint-system interface (commit, multiply, paired or single allocation, constrain, deferred second-phase callbacks), prover and verifier return the same variables and the same number of multipliers, in both phases and for every interleaving of single allocations. The prover\'s assignments satisfy every multiplication gate, evaluation of a linear combination yields its value for the prover and nothing for the verifier, and a missing assignment is reported as an error by the prover, and an error returned by a callback is returned by proving or verification.',
  ['programs','histories'],'all interleavings of builder operations in both phases',
  'Tests never interleave single allocations with other operations across the phase change; gadget tests exercise only a few fixed call orders.',
  [R+'constraint_system.rs',R+'prover.rs',R+'verifier.rs'],['pending_multiplier state machine in both roles','deferred callbacks run once, in order, after first-phase commitments'],
  state=[dict(name='pending_multiplier',meaning='index of a half-assigned multiplier',where=R+'prover.rs, '+R+'verifier.rs')])
p('C06','Linear-combination arithmetic preserves value',
  'Every operation on linear combinations (conversion, addition, subtraction, negation, scaling by a field element, in-place addition, collection from terms, simplification) yields a combination whose value under every assignment is the corresponding arithmetic result. Simplification additionally leaves at most one term per variable.',
  ['inputs','programs'],'all expressions built from these operations and all assignments',
  'No test targets the operators; gadgets use few shapes and would hide a sign or duplicate-term error in unused overloads.',
  [R+'linear_combination.rs'],['operator overloads on Variable, FieldElement and LinearCombination','HashMap merge in simplify'])
p('C07','The inner-product argument is complete, binding and exactly specified',
  'For every power-of-two length, vectors, bases and base factors, the proof created for two vectors verifies against the commitment to exactly those vectors and their inner product, and it is rejected for any other commitment, inner product, base, factor or altered proof element. The proof messages are those of the recursive halving protocol for the transcript\'s challenges.',
  ['inputs','configurations'],'all power-of-two lengths, all vectors, factors and bases, all alterations',
  'One test checks a length-4 instance with fixed factors; other lengths, non-unit factors and rejection are untested.',
  ['src/ipp.rs'],['create_ipp halving loop (first round with factors, later rounds without)','verification_scalars and verify_ipp'])
p('C08','Malformed or insufficient inputs are rejected with an error, never a crash',
  'Verification of a proof or of commitments supplied by an untrusted party never panics and never accepts when the proof has inner-product vectors of wrong or unequal lengths, too few commitments are supplied, a Merkle path or its commitments have a length other than the depth of the tree requires, or there are fewer generators (in either vector) than the statement needs. Proving with too few generators, missing assignments, wrong-length inputs, missing randomness, an out-of-range number or a node absent from the store likewise returns an error.',
  ['inputs','fault_sequences'],'all malformed proof shapes, commitment counts, generator counts and wrapper inputs',
  'Tests supply only well-formed proofs and ample generators.',
  [R+'verifier.rs',R+'prover.rs','src/ipp.rs','src/errors.rs',GD],['length checks returning an error value before any indexing'])
p('C09','Everything a proof reveals is blinded by fresh independent randomness',
  'Every wire commitment, every polynomial-coefficient commitment and every auxiliary value commitment of a proof is blinded by its own fresh random scalar, and the vectors opened by the inner-product argument are masked element by element with fresh random scalars, in both phases. No random scalar is reused for two roles or predictable, so two proofs of the same statement share no commitment or opened value beyond what the caller fixed.',
  ['programs','inputs','histories'],'all circuits, both phases, all witnesses, repeated proving',
  'Verification succeeds whatever the blinding is, so no round-trip test can notice missing, shared or constant randomness.',
  [R+'prover.rs',GD],['FieldElement::random draws for each blinding factor and masking vector'])
p('C10','Bound check accepts exactly the values inside the bounds',
  'A proof that a committed number lies in a closed interval verifies exactly when the number is in that interval (and both distances fit the stated bit size), for every interval and bit size, end points included. No choice of auxiliary commitments or internal assignments lets a value outside the interval be proved, and asking for such a proof yields an error or a proof that is rejected.',
  ['inputs'],'all intervals, bit sizes, values and prover-chosen auxiliary values',
  'One test proves one in-range value; soundness needs all dishonest witnesses.',
  [GD+'bound_check.rs',HC+'positive_no.rs',HC+'mod.rs'],['v-min and max-v decomposed into n constrained bits'])
p('C11','Set membership proofs accept exactly the members of the set',
  'Both set-membership proofs (difference-product and one-hot bitmap) verify exactly for committed values that occur in the public set. No choice of auxiliary commitments or internal assignments proves membership of a value that is not in the set.',
  ['inputs'],'all sets (the bitmap variant: of distinct elements), all values including zero, all prover-chosen auxiliary values',
  'Tests prove one member of a small set; no non-member with adversarial auxiliary values is tried.',
  [GD+'set_membership.rs',GD+'set_membership_alt.rs',HC+'bit.rs',HC+'vector_sum.rs'],['product of differences constrained to zero','bits constrained, sum to one, select the value'])
p('C12','Non-zero and non-membership proofs accept exactly the right values',
  'The non-zero proof verifies exactly for non-zero committed values and the non-membership proof exactly for committed values absent from the public set. No choice of auxiliary commitments or internal assignments proves either for zero or for a member.',
  ['inputs'],'all values, all sets and member positions, all prover-chosen inverses',
  'Tests prove one positive instance each; adversarial inverses are never tried.',
  [GD+'non_zero.rs',GD+'set_non_membership.rs',HC+'non_zero.rs'],['x * inverse constrained to one for every difference'])
p('C13','Hamming-distance proofs verify exactly for the true distance',
  'A proof that a committed vector differs from a public vector in a stated number of positions verifies exactly when that number is the true count of differing positions. No choice of internal assignments proves another count, and vectors of different lengths are refused.',
  ['inputs'],'all vectors, lengths, counts and prover-chosen internal values',
  'One honest instance is tested.',
  [GD+'hamming_distance.rs',HC+'vector_sum.rs'],['is-non-zero indicator per position, summed'])
p('C14','Hash circuits constrain exactly the native hash function',
  'For Poseidon with every supported width and S-box (for the inverse S-box on inputs that never present it a zero) and for MiMC with any number of rounds, the circuit forces its output to be the value of the native function on the committed inputs, and every preimage proof verifies exactly when the public image is that value. No internal assignment yields another output.',
  ['inputs','configurations'],'all inputs, parameters, S-boxes, widths and prover-chosen internal values',
  'Tests run one honest preimage per configuration; an under-constrained S-box still passes them.',
  [HC+'poseidon.rs',HC+'mimc.rs',GD+'poseidon_hash.rs',GD+'mimc.rs'],['S-box synthesis constraints, linear layer on linear combinations, constant inputs committed with zero blinding'])
p('C15','Native hash functions compute their published definitions',
  'The native Poseidon permutation and 2-, 4- and 8-input hashes compute the specified rounds (full, partial on the last element, full; round constants then S-box then matrix) with the library\'s fixed constants, and native MiMC computes the specified Feistel rounds, for every input, parameter set and S-box.',
  ['inputs','configurations'],'all inputs, widths 3/5/9, round counts, S-boxes',
  'Tests compare circuits with the native function, never the native function with a definition; a change to both or to a constant is invisible.',
  [HC+'poseidon.rs',HC+'mimc.rs',GD+'poseidon_constants.rs'],['Poseidon_permutation and mimc loops; constant tables'])
p('C16','Sparse Merkle trees behave as persistent authenticated maps',
  'After any history of updates, reading an index of a 4-ary or 8-ary sparse tree returns the last value written there (zero if none), the root depends only on the resulting map, and earlier roots stay readable from the same store. The authentication path returned for an index verifies for exactly that index, value and root and for no other value, index or root; reading through a root unknown to the store reports a missing-hash error.',
  ['histories','inputs'],'all update/read histories, depths and indices, all altered paths',
  'Tests write a short ascending run of indices and check positive proofs only.',
  [HC+'sparse_merkle_tree_4_ary.rs',HC+'sparse_merkle_tree_8_ary.rs','src/utils/hash_db.rs'],['path digits of the index, node = hash of children, content-addressed store'],
  state=[dict(name='root',meaning='current root hash',where=HC+'sparse_merkle_tree_4_ary.rs')])
p('C17','Leaf-inclusion proofs verify exactly for leaves of the tree',
  'A zero-knowledge leaf-inclusion proof for a 4-ary or 8-ary tree of the stated depth verifies exactly when the committed leaf is stored at the committed index under the public root. No choice of committed path, path length or internal assignment proves another leaf, index, an inner node or a tree of different depth.',
  ['inputs','configurations'],'all depths, indices (every digit pattern), leaves, prover-chosen paths and internal values',
  'Tests prove one honest index of one depth per arity; wrong positions and path lengths are never tried.',
  [GD+'sparse_merkle_tree_4_ary.rs',GD+'sparse_merkle_tree_8_ary.rs',HC+'sparse_merkle_tree_4_ary.rs',HC+'sparse_merkle_tree_8_ary.rs'],['index bits constrained and recomposed; children arranged by bit products; Poseidon per level'])
p('C18','Randomizer proofs tie the distorted data to the hidden original tree',
  'A randomizer proof verifies exactly when restoring the committed original values at the public indices turns the public distorted tree into the committed original tree and each of those values is stored there. The set of indices derived from a nonce is deterministic, of the requested size when enough candidates exist and inside the data range, and the distorted data differs from the original exactly in hashing the values at those indices.',
  ['inputs','histories'],'all trees, index sets, nonces and prover-chosen values and paths',
  'One slow honest instance is tested.',
  [GD+'randomizer.rs'],['path recomputation in the original tree and node-map update in the distorted tree'])
p('C19','Gadgets compose: any sequence of gadgets in one proof behaves as each alone',
  'Several gadgets invoked in one constraint system, in any order, repeated, after any mixture of other operations (including a half-assigned multiplier) and in combination with caller-supplied blinding, produce a proof that verifies exactly when every one of the individual statements is true. Commitments are consumed and produced in the same order by both sides.',
  ['programs','configurations'],'all sequences of gadgets and builder operations',
  'Each gadget test starts from an empty constraint system.',
  [GD,R+'prover.rs',R+'verifier.rs'],['gadgets written against the shared constraint-system interface'])
p('C20','Supporting algebra and derivations are exact and collision free',
  'Vector-polynomial inner products and evaluations equal the polynomial arithmetic they denote for all inputs; derived generators are a deterministic prefix-stable sequence of distinct non-identity points per prefix; derived challenges depend on every input point, the running state and their position; the in-memory store returns exactly what was last inserted under a key and an error otherwise.',
  ['inputs','histories'],'all vectors and evaluation points, prefixes and counts, input lists and states, store histories',
  'No test targets these helpers directly.',
  ['src/utils/mod.rs','src/utils/vector_poly.rs','src/utils/hash_db.rs'],['Karatsuba-style products, Horner evaluation, hash-to-curve per index'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
