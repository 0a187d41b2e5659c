---------------------------- MODULE Randomness ----------------------------
(***************************************************************************)
(* Roles of the random scalars of a proof.  o.roles[k].eff lists how       *)
(* adding delta to the k-th scalar drawn changed the group elements of the *)
(* proof, all challenges being fixed: <<component, generator, index>> when *)
(* the change is delta times that generator, generator "?" otherwise.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r

WireC(c) == {"A_I1", "A_O1", "S1"} \cup (IF c.n > c.n1 THEN {"A_I2", "A_O2", "S2"} ELSE {})
TC == {"T_1", "T_3", "T_4", "T_5", "T_6"}
Eff(o, k) == {o.roles[k].eff[j] : j \in 1..Len(o.roles[k].eff)}

\* component x is blinded by a scalar with no other effect on the commitments
Blinded(o, x) == \E k \in 1..Len(o.roles) : Eff(o, k) = {<<x, "h", 0>>}
\* position i of mask vector (gen = "G": left, "H": right) has a scalar of its own: it shows up there
\* and otherwise only in the coefficients of t
Masked(o, s, gen, i) ==
  \E k \in 1..Len(o.roles) : <<s, gen, i>> \in Eff(o, k) /\ \A e \in Eff(o, k) \ {<<s, gen, i>>} : e[1] \in TC
MaskOf(c, i) == IF i < c.n1 THEN "S1" ELSE "S2"

Shared(o) ==
  LET set(r) == {r.comp[j] : j \in 1..Len(r.comp)} \ {o.id}
      drw(r) == {r.draws[j] : j \in 1..Len(r.draws)}
      a == o.free[1] b == o.free[2]
  IN [comp |-> set(a) \cap set(b), draws |-> drw(a) \cap drw(b),
      rep |-> Cardinality(drw(a)) # Len(a.draws) \/ Cardinality(drw(b)) # Len(b.draws),
      zero |-> "0" \in drw(a) \/ "0" \in drw(b)]

(***************************************************************************)
(* A gadget's proof comes with commitments to the caller's values and to   *)
(* auxiliary values.  Each is blinded by a random scalar that changes this *)
(* commitment and no other; only the blindings the caller fixed are not    *)
(* drawn.  Two proofs share nothing but what the caller fixed.             *)
(***************************************************************************)
GBlinded(o, i) == \E k \in 1..Len(o.roles) : Eff(o, k) = {<<i, "h">>}
JudgeGadget(c, o) ==
  IF o.status # "ok" THEN {<<"C09", "prover", "no proof: " \o o.status>>}
  ELSE LET open == (0..(o.nc - 1)) \ {o.fixed[j] : j \in 1..Len(o.fixed)}
           a == o.free[1] b == o.free[2]
           set(r) == {r.draws[j] : j \in 1..Len(r.draws)}
       IN (IF Len(o.fixed) = Len(c.rands) THEN {} ELSE {<<"HARNESS", 0, "fixed">>})
          \cup UNION {IF GBlinded(o, i) THEN {} ELSE {<<"C09", i, "commitment not blinded by a scalar of its own">>} : i \in open}
          \cup (IF a.status = "ok" /\ b.status = "ok" /\ Len(a.comms) = o.nc /\ Len(b.comms) = o.nc THEN {} ELSE {<<"C09", "prover", "no proof">>})
          \cup (IF \A i \in open, j \in 0..(o.nc - 1) : a.comms[i + 1] # b.comms[j + 1] THEN {} ELSE {<<"C09", "free", "two proofs share a commitment">>})
          \cup (IF \A i \in open, j \in 0..(o.nc - 1) : i # j => a.comms[i + 1] # a.comms[j + 1] THEN {} ELSE {<<"C09", "free", "two commitments of a proof are equal">>})
          \cup (IF set(a) \cap set(b) = {} THEN {} ELSE {<<"C09", "free", "two proofs share a random scalar">>})
          \cup (IF Cardinality(set(a)) = Len(a.draws) /\ "0" \notin set(a) THEN {} ELSE {<<"C09", "free", "a random scalar repeats or is zero">>})

Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"HARNESS", 0, rec.o.harness_panic>>}
  ELSE IF Has(rec.c, "s") THEN JudgeGadget(rec.c, rec.o)
  ELSE LET c == rec.c o == rec.o IN
  IF o.status # "ok" THEN {<<"C09", "prover", "no proof: " \o o.status>>}
  ELSE LET s == Shared(o) IN
       UNION {IF Blinded(o, x) THEN {} ELSE {<<"C09", x, "not blinded by a scalar of its own">>} : x \in WireC(c) \cup TC}
       \cup UNION {IF Masked(o, MaskOf(c, j), g, j) THEN {} ELSE {<<"C09", MaskOf(c, j), "element not masked by a scalar of its own: " \o g \o ToString(j)>>}
                   : j \in 0..(c.n - 1), g \in {"G", "H"}}
       \cup (IF c.n > 0 /\ s.comp # {} THEN {<<"C09", "free", "two proofs share an element">>} ELSE {})
       \cup (IF s.draws # {} THEN {<<"C09", "free", "two proofs share a random scalar">>} ELSE {})
       \cup (IF s.rep \/ s.zero THEN {<<"C09", "free", "a random scalar repeats or is zero">>} ELSE {})

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = {b \in Judge(Trace[i]) : b[1] \in {Prop, "HARNESS"}}
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
===========================================================================
