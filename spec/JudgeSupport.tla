--------------------------- MODULE JudgeSupport ---------------------------
(* The real supporting functions against module Support (C20). *)
EXTENDS Support, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r
ElemsOf(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(ElemsOf(s)) = Len(s)
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
B(name, ok) == IF ok THEN {} ELSE {<<"C20", name, "does not hold">>}

PolyBad(c, o) ==
  LET p1 == Coeffs(c.l1, c.r1) p3 == Coeffs(c.l3, c.r3) IN
  B("degree-1 inner product", SameSeq(o.ip1, p1))
  \cup B("special inner product", SameSeq(o.ip3, SubSeq(p3, 2, 7)))
  \cup B("vector polynomial evaluation", \A i \in 1..Len(c.xs) :
         /\ SameSeq(o.ev1[i], EvalVector(c.l1, c.xs[i])) /\ SameSeq(o.ev3[i], EvalVector(c.g3, c.xs[i])))
  \cup B("scalar polynomial evaluation", \A i \in 1..Len(c.xs) :
         /\ o.p2[i] = EvalScalar(SubSeq(c.sc, 1, 3), c.xs[i]) /\ o.p6[i] = EvalScalar(<<FZero>> \o c.sc, c.xs[i]))
  \cup B("zero polynomial", o.zero)
GensBad(c, o) ==
  B("number of generators", Len(o.g) = c.n) \cup B("deterministic generators", SameSeq(o.g, o.again))
  \cup B("prefix-stable generators", SameSeq(o.g, SubSeq(o.more, 1, c.n)))
  \cup B("distinct generators", Distinct(o.more)) \cup B("non-identity generators", o.ident \notin ElemsOf(o.more))
\* o.r: challenges; o.alts: for every input point and state byte altered, the challenges; o.next: a second call on the running state
ChalBad(c, o) ==
  B("number of challenges", Len(o.r) = c.n) \cup B("deterministic challenges", SameSeq(o.r, o.again))
  \cup B("challenges differ by position", Distinct(o.r))
  \cup B("prefix-stable challenges", SameSeq(o.r, SubSeq(o.more, 1, c.n)))
  \cup B("every challenge depends on every input and on the state", \A a \in ElemsOf(o.alts) : \A i \in 1..c.n : a[i] # o.r[i])
  \cup B("the running state moves on", Len(c.pts) = 0 \/ \A i \in 1..Len(o.next) : o.next[i] \notin ElemsOf(o.r))
StoreBad(c, o) == LET e == StoreRun(c.hist).out IN B("store history", SameSeq(o.out, e))

Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"C20", 0, rec.o.harness_panic>>}
  ELSE CASE rec.c.kind = "poly" -> PolyBad(rec.c, rec.o) [] rec.c.kind = "gens" -> GensBad(rec.c, rec.o)
         [] rec.c.kind = "chal" -> ChalBad(rec.c, rec.o) [] rec.c.kind = "store" -> StoreBad(rec.c, rec.o)

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = Judge(Trace[i])
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
===========================================================================
