---------------------------- MODULE JudgeGadget ----------------------------
(* Verdicts on gadget runs and forged proofs of the real code (C10 to C14, C17, C18). *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r
B(what, ok) == IF ok THEN {} ELSE {<<Prop, what>>}

HonestBad(c, o) ==
  B("a panic: " \o o.gen \o " " \o o.ver, o.gen # "panic" /\ o.ver # "panic")
  \cup (IF c.rel /\ c.must
        THEN B("the proof of a true statement is not produced or not accepted: " \o o.gen \o " " \o o.ver, o.gen = "ok" /\ o.ver = "ok")
             \cup B("number of commitments", o.gen # "ok" \/ o.nc = c.nc)
        ELSE {})
  \cup (IF ~c.rel THEN B("a false statement is accepted", o.ver # "ok") ELSE {})
  \cup B("the caller's blinding is not used", o.given)
  \cup UNION {IF c.altrel[i] THEN {} ELSE B("the proof is accepted for another statement", o.alts[i] # "ok") : i \in 1..Len(o.alts)}
  \cup B("a panic when verifying for another statement", \A i \in 1..Len(o.alts) : o.alts[i] # "panic")
ForgeBad(c, o) == IF c.rel THEN {} ELSE B("a forged proof of a false statement is accepted (" \o c.name \o ")", o.ver # "ok")
Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"HARNESS", rec.o.harness_panic>>}
  ELSE IF Has(rec.c, "wires") THEN ForgeBad(rec.c, rec.o) ELSE HonestBad(rec.c, rec.o)

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = Judge(Trace[i])
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
