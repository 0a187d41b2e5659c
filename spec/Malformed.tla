----------------------------- MODULE Malformed -----------------------------
(***************************************************************************)
(* Sizes of everything a prover or verifier is handed.  A run is well      *)
(* formed if every size is the one the statement needs; one that is not    *)
(* has to be refused with an error: no acceptance, no panic.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* statements whose verifiers take exactly / at least NC commitments
Exact(s) == s.g \in {"hamming", "smt4", "smt8", "perm", "vecsum"}
RECURSIVE Pad2(_)
Pad2(n) == IF n <= 1 THEN 1 ELSE 2 * Pad2((n + 1) \div 2)
Multipliers(s) == CASE s.g = "posno" -> s.bits [] s.g = "bit" -> 1 [] s.g = "vecsum" -> 0 [] s.g = "two" -> s.n1 + s.n2 * s.cbs
Known(s) == s.g \in {"posno", "bit", "vecsum", "two"}
GeneratorsOk(o) == o.G >= o.pad /\ o.H >= o.pad
ProofOk(o) == o.L = o.lg /\ o.R = o.lg
EnoughCommitments(s, nc, o) == o.C >= nc
\* a surplus of commitments is refused where it would lengthen a path or vector and may be ignored elsewhere
CommitmentsOk(s, nc, o) == o.C = nc
WellFormed(s, nc, o) == GeneratorsOk(o) /\ ProofOk(o) /\ CommitmentsOk(s, nc, o)
MustRefuse(s, nc, o) == ~GeneratorsOk(o) \/ ~ProofOk(o) \/ o.C < nc \/ (Exact(s) /\ o.C # nc)
IsError(r) == r \in {"InvalidGeneratorsLength", "VerificationError", "FormatError", "MissingAssignment", "GadgetError", "HashNotFoundInDB"}

\* inner-product verification: <<L, R, G, H, Gfactors, Hfactors, n>> relative to the lengths of the proof
IppVariants == {v \in [1..7 -> -1..1] : Cardinality({i \in 1..7 : v[i] # 0}) <= 2 /\ v[5] <= 0 /\ v[6] <= 0}
\* proofs with absurdly many rounds: around every width a length or a shift could be confined to
Wide == (28..36) \cup (60..69) \cup (126..130) \cup {255, 256, 257}
IppWide == UNION {{[[i \in 1..7 |-> 0] EXCEPT ![1] = x, ![2] = y] : y \in {0, x, x - 1}} : x \in Wide}
           \cup {[[i \in 1..7 |-> 0] EXCEPT ![2] = x] : x \in Wide}
IppGood(v) == \A i \in 1..7 : v[i] = 0

\* every pair of sizes is either accepted, refused, or a tolerated surplus of commitments
Coherent(s, nc, o) == WellFormed(s, nc, o) => ~MustRefuse(s, nc, o)
=============================================================================
