----------------------------- MODULE JudgeSim -----------------------------
(* Verdicts of the real verifier on simulated transcripts against module Bulletproof. *)
EXTENDS Bulletproof, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r

Bump(pf, m) ==
  IF m[1] = "L" THEN [pf EXCEPT !.L[m[2] + 1] = FAdd(@, m[3])]
  ELSE IF m[1] = "R" THEN [pf EXCEPT !.R[m[2] + 1] = FAdd(@, m[3])]
  ELSE [pf EXCEPT ![m[1]] = FAdd(@, m[3])]
Alter(pf, ms) == FoldLeft(Bump, pf, ms)

One_(c, st, pf, got, what) ==
  LET v == Valid(st, c.env, c.comms, pf, c.ch) IN
  IF v /\ got # "ok" THEN {<<"C03", what, "valid transcript not accepted: " \o got>>}
  ELSE IF ~v /\ got = "ok" THEN {<<"C03", what, "transcript violating an equation accepted">>} ELSE {}

Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"HARNESS", "", rec.o.harness_panic>>}
  ELSE LET c == rec.c o == rec.o st == Run("V", c.prog, c.cb) IN
       One_(c, st, c.proof, o.base, c.kind)
       \cup UNION {One_(c, st, Alter(c.proof, c.muts[i]), o.muts[i], ToString(c.muts[i])) : i \in 1..Len(c.muts)}
       \cup (IF \E i \in 1..Len(o.prev) : o.prev[i] = "ok"
             THEN {<<"C03", "trade", "the two equations were combined with a predictable weight">>} ELSE {})
       \cup (IF \E i \in 1..Len(o.few) : o.few[i] = "ok"
             THEN {<<"C03", "trade", "the two equations were combined with a weight of a few bits">>} ELSE {})

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = {b \in Judge(Trace[i]) : b[1] \in {Prop, "HARNESS"}}
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
===========================================================================
