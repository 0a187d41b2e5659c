----------------------------- MODULE JudgeHash -----------------------------
(* Native hash values and constants of the real code against the definitions (C15). *)
EXTENDS Poseidon, Mimc, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]

Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"C15", 0, rec.o.harness_panic>>}
  ELSE LET c == rec.c o == rec.o IN
  IF c.kind = "mimc"
  THEN {<<"C15", v, "mimc value for " \o ToString(Len(c.consts)) \o " rounds">> : v \in {v \in 1..Len(c.ins) : o.h[v] # MimcHash(c.ins[v][1], c.ins[v][2], c.consts)}}
  ELSE LET P == c.P IN
       (IF c.kind = "std" /\ ~(SameSeq(o.keys, P.keys) /\ Len(o.mds) = P.w /\ \A i \in 1..P.w : SameSeq(o.mds[i], P.mds[i]))
        THEN {<<"C15", P.w, "round constants or matrix are not the published ones">>} ELSE {})
       \cup {<<"C15", P.w, "permutation value, S-box " \o c.sboxes[b]>> : b \in {b \in 1..3 : \E v \in 1..Len(c.ins) : ~SameSeq(o.perm[b][v], Perm(P, c.sboxes[b], c.ins[v]))}}
       \cup {<<"C15", P.w, "hash value, S-box " \o c.sboxes[b]>> : b \in {b \in 1..3 : \E v \in 1..Len(c.ins) : o.hash[b][v] # Hash(P, c.sboxes[b], Tail(c.ins[v]))}}

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = Judge(Trace[i])
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
============================================================================
