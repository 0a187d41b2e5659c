---------------------------- MODULE Transcript ----------------------------
(***************************************************************************)
(* The Fiat-Shamir transcript of the protocol.  The protocol's schedule is *)
(* the sequence of messages and challenges below; a challenge must depend  *)
(* on every message that precedes it in the schedule.  The judged facts:   *)
(*  - prover and verifier of an accepted proof absorb the same sequence;   *)
(*  - altering one message changes exactly the challenges after it;        *)
(*  - the number of commitments, the phase structure and the identities of *)
(*    the two sub-protocols are absorbed as well;                          *)
(*  - no two challenges coincide.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r

\* Number of challenges drawn before message x is sent (nc challenges in callbacks, then
\* y z | u x | w | u_1 .. u_lg)
Before(x, i, nc) ==
  IF x \in {"A_I1", "A_O1", "S1", "V", "label", "count", "phase"} THEN 0
  ELSE IF x \in {"A_I2", "A_O2", "S2"} THEN nc
  ELSE IF x \in {"T_1", "T_3", "T_4", "T_5", "T_6"} THEN nc + 2
  ELSE IF x \in {"t_x", "t_x_blinding", "e_blinding"} THEN nc + 4
  ELSE nc + 5 + i                                        \* L_i, R_i, i counted from 0
Total(nc, lg) == nc + 5 + lg

Outs(ev) == LET s == SelectSeq(ev, LAMBDA e : e[1] = "C") IN [j \in 1..Len(s) |-> s[j][3]]
Msgs(ev) == SelectSeq(ev, LAMBDA e : e[1] = "A")
\* absorbed messages that are not group elements or scalars of the statement or proof
Data(o) == {o.V[j] : j \in 1..Len(o.V)} \cup {o.comp[j] : j \in 1..Len(o.comp)}
           \cup UNION {{o.lr[j][1], o.lr[j][2]} : j \in 1..Len(o.lr)}
Meta(ev, o) == SelectSeq(Msgs(ev), LAMBDA e : e[3] \notin Data(o))

AltName(a) == IF a.kind = "label" THEN "label" ELSE IF a.kind \in {"comm", "shift", "swap"} THEN "V"
              ELSE IF a.kind = "move" THEN a.at[1]
              ELSE IF a.kind = "prog" THEN a.what ELSE a.name
AltIdx(a) == IF a.kind = "comp" THEN a.i ELSE IF a.kind = "move" THEN a.at[2] ELSE 0

AltBad(c, o, j) ==
  LET a == c.alts[j] base == Outs(o.v.ev) got == Outs(o.alts[j].ev) b == Before(AltName(a), AltIdx(a), c.nc)
      n == IF Len(got) < Len(base) THEN Len(got) ELSE Len(base)
      same == {q \in (b + 1)..n : base[q] = got[q]}
  IN (IF same # {} THEN {<<"C04", AltName(a), "a challenge does not depend on it: number " \o ToString(CHOOSE q \in same : \A p \in same : q <= p)>>} ELSE {})
     \cup (IF Len(got) < b THEN {<<"C04", AltName(a), "challenges missing">>} ELSE {})
     \cup (IF a.kind = "prog" /\ Meta(o.alts[j].ev, o) = Meta(o.v.ev, o)
           THEN {<<"C04", AltName(a), "not absorbed by the transcript">>} ELSE {})

FirstIdx(ev, P(_)) == LET S == {j \in 1..Len(ev) : P(ev[j])} IN IF S = {} THEN Len(ev) + 1 ELSE CHOOSE j \in S : \A q \in S : j <= q
Identity(c, o) ==
  LET ev == o.v.ev
      firstData == FirstIdx(ev, LAMBDA e : e[1] = "C" \/ (e[1] = "A" /\ e[3] \in Data(o)))
      cs == SelectSeq([j \in 1..Len(ev) |-> j], LAMBDA j : ev[j][1] = "C")
      wpos == IF Len(cs) >= c.nc + 5 THEN cs[c.nc + 5] ELSE 0
      nextL == FirstIdx(ev, LAMBDA e : e[1] = "A" /\ Len(o.lr) > 0 /\ e[3] = o.lr[1][1])
      isMeta(j) == ev[j][1] = "A" /\ ev[j][3] \notin Data(o)
  IN (IF ~\E j \in 1..(firstData - 1) : isMeta(j) THEN {<<"C04", "identity", "constraint-system protocol not identified before the first message">>} ELSE {})
     \cup (IF wpos > 0 /\ ~\E j \in wpos..(nextL - 1) : isMeta(j)
           THEN {<<"C04", "identity", "inner-product protocol not identified before its first message">>} ELSE {})

\* The inner-product argument by itself: its transcript for every length, nothing but L and R
\* being data; what else is absorbed identifies the protocol and the length of the vectors
LenMeta(r) == SelectSeq(Msgs(r.p), LAMBDA e : e[3] \notin UNION {{r.lr[j][1], r.lr[j][2]} : j \in 1..Len(r.lr)})
Lengths(c, o) ==
  IF o.status # "ok" THEN {<<"C04", "argument", "no proof: " \o o.status>>}
  ELSE {<<"C04", "argument", "length " \o ToString(c.lens[j]) \o ": rejected: " \o o.runs[j].status>> : j \in {j \in 1..Len(c.lens) : o.runs[j].status # "ok"}}
       \cup {<<"C04", "argument", "length " \o ToString(c.lens[j]) \o ": prover and verifier absorb different data">> :
              j \in {j \in 1..Len(c.lens) : o.runs[j].p # o.runs[j].v}}
       \cup {<<"C04", "argument", "length " \o ToString(c.lens[j]) \o ": a challenge for each halving step, after its messages">> :
              j \in {j \in 1..Len(c.lens) :
                     LET ev == o.runs[j].p lr == o.runs[j].lr
                         Ch(s) == {k \in 1..Len(ev) : ev[k][1] = "C" /\ Cardinality({m \in 1..(k - 1) : ev[m][1] = "C"}) = s - 1}
                         At(x) == {k \in 1..Len(ev) : ev[k][1] = "A" /\ ev[k][3] = x}
                     IN \/ Len(Outs(ev)) # Len(lr) \/ 2 ^ Len(lr) # c.lens[j]
                        \/ \E s \in 1..Len(lr) : \E x \in {lr[s][1], lr[s][2]} : At(x) = {} \/ \A k \in At(x) : \E d \in Ch(s) : k > d}}
       \cup {<<"C04", "argument", "lengths " \o ToString(c.lens[q[1]]) \o " and " \o ToString(c.lens[q[2]]) \o " not told apart by the transcript">> :
              q \in {q \in (1..Len(c.lens)) \X (1..Len(c.lens)) : q[1] < q[2] /\ LenMeta(o.runs[q[1]]) = LenMeta(o.runs[q[2]])}}

Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"HARNESS", 0, rec.o.harness_panic>>}
  ELSE IF Has(rec.c, "lens") THEN Lengths(rec.c, rec.o)
  ELSE LET c == rec.c o == rec.o IN
  IF o.status # "ok" THEN {<<"C04", "prover", "no proof: " \o o.status>>}
  ELSE LET outs == Outs(o.v.ev) IN
       (IF o.p # o.v.ev THEN {<<"C04", "sides", "prover and verifier absorb different data">>} ELSE {})
       \cup (IF Len(outs) # Total(c.nc, c.lg) THEN {<<"C04", "sides", "another number of challenges">>} ELSE {})
       \cup (IF Cardinality({outs[j] : j \in 1..Len(outs)}) # Len(outs) THEN {<<"C04", "challenges", "two challenges coincide">>} ELSE {})
       \cup Identity(c, o)
       \cup UNION {AltBad(c, o, j) : j \in 1..Len(c.alts)}

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = {b \in Judge(Trace[i]) : b[1] \in {Prop, "HARNESS"}}
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
===========================================================================
