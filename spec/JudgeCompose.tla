---------------------------- MODULE JudgeCompose ----------------------------
(* Verdicts on proofs made of several gadgets (C19). *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r
B(what, ok) == IF ok THEN {} ELSE {<<Prop, what>>}
Names(c) == FoldLeft(LAMBDA a, e : a \o " " \o (IF Has(e, "s") THEN e.s.g ELSE e.k), "", c.steps)
Judge(rec) ==
  LET c == rec.c o == rec.o IN
  IF Has(o, "harness_panic") THEN {<<"HARNESS", o.harness_panic>>}
  ELSE B("a panic while proving:" \o Names(c), o.gen # "panic")
       \cup B("a panic while verifying:" \o Names(c), \A i \in 1..Len(o.vs) : o.vs[i] # "panic")
       \cup (IF c.rel THEN B("a combination of true statements is not proved or not accepted:" \o Names(c), o.gen = "ok" /\ o.vs[1] = "ok")
             ELSE B("a combination with a false statement is accepted:" \o Names(c), o.gen # "ok" \/ o.vs[1] # "ok"))
       \cup B("accepted for another combination:" \o Names(c), \A i \in 2..Len(o.vs) : o.vs[i] # "ok")

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = Judge(Trace[i])
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
