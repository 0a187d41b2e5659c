---------------------------- MODULE JudgeDistort ----------------------------
(* The real derivation of indices and of the distorted data against module Distortion (C18). *)
EXTENDS Distortion, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r
Elems(s) == {s[i] : i \in 1..Len(s)}
B(what, ok) == IF ok THEN {} ELSE {<<Prop, what>>}
Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"HARNESS", rec.o.harness_panic>>}
  ELSE LET c == rec.c o == rec.o
           I == Indices(o.stream, c.size, c.count)
       IN B("indices derived from the nonce", o.idx # <<"panic">> /\ Elems(o.idx) = I /\ Len(o.idx) = Cardinality(I))
          \cup B("the derivation is deterministic", Elems(o.idx) = Elems(o.again))
          \cup B("the indices of another nonce", Elems(o.idx2) = Indices(o.stream2, c.size, c.count))
          \cup (IF Len(c.data) = 0 THEN {} ELSE
                B("distorted data", o.new = Distorted(c.data, o.hashes, I))
                \cup B("original entries kept", Elems(o.kept) = Kept(c.data, I) /\ Len(o.kept) = Cardinality(I))
                \cup B("hash of an entry", \A i \in 1..Len(o.hashes) : o.rnd[i] = o.hashes[i]))

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = Judge(Trace[i])
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
