--------------------------- MODULE JudgeLinComb ---------------------------
(* The combinations computed by the real code against their denotations (C06). *)
EXTENDS LinComb, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r

Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"C06", 0, rec.o.harness_panic>>}
  ELSE LET regs == Run(rec.c.prog) o == rec.o.regs IN
       {<<"C06", j, rec.c.prog[j].o \o ": wrong value">> : j \in {j \in 1..Len(regs) : ~Same(regs[j], OfTerms(o[j].t))}}
       \cup {<<"C06", j, "simplify leaves a variable in two terms">> : j \in {j \in 1..Len(regs) :
               rec.c.prog[j].o = "simplify" /\ Cardinality({o[j].t[q][1] : q \in 1..Len(o[j].t)}) # Len(o[j].t)}}
       \cup {<<"C06", j, "len or get_terms disagree with the terms">> : j \in {j \in 1..Len(regs) : o[j].n # Len(o[j].t) \/ ~o[j].g}}

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = Judge(Trace[i])
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
===========================================================================
