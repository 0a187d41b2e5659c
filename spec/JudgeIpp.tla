----------------------------- MODULE JudgeIpp -----------------------------
EXTENDS InnerProduct, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP
Has(r, k) == k \in DOMAIN r
Get(c, v, k) == IF k \in DOMAIN v THEN v[k] ELSE c[k]

Expect(c, v) ==
  LET m == IF Has(v, "mut") THEN v.mut ELSE <<"", 0, FZero>>
      L == IF m[1] = "L" THEN [c.expL EXCEPT ![m[2] + 1] = FAdd(@, m[3])] ELSE c.expL
      R == IF m[1] = "R" THEN [c.expR EXCEPT ![m[2] + 1] = FAdd(@, m[3])] ELSE c.expR
      a == IF m[1] = "a" THEN FAdd(c.expa, m[3]) ELSE c.expa
      b == IF m[1] = "b" THEN FAdd(c.expb, m[3]) ELSE c.expb
  IN Verifies(Get(c, v, "P"), Had(Get(c, v, "G"), Get(c, v, "Gf")), Had(Get(c, v, "H"), Get(c, v, "Hf")),
              Get(c, v, "Q"), L, R, a, b, c.chals)

\* verification_scalars: u_j^2, u_j^-2 and the coefficient of every base
Scal(c, o) ==
  IF o.status # "ok" THEN {<<"C07", 0, "scalars of a well-formed argument not computed: " \o o.status>>}
  ELSE (IF o.len # c.n \/ Len(o.sq) # c.lg \/ Len(o.isq) # c.lg THEN {<<"C07", 0, "number of verification scalars">>}
        ELSE (IF \E j \in 1..c.lg : o.sq[j] # FMul(c.chals[j], c.chals[j]) \/ FMul(o.sq[j], o.isq[j]) # FOne
              THEN {<<"C07", 0, "squares of the challenges">>} ELSE {})
             \cup {<<"C07", c.idx[j], "coefficient of a base">> : j \in {j \in 1..Len(c.idx) : o.s[j] # Coef(c.chals, c.idx[j])}})

\* without a programmed oracle another label changes the challenges: a proof of length > 1 is then
\* rejected, one of length 1 has no challenge
Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"HARNESS", 0, rec.o.harness_panic>>}
  ELSE LET c == rec.c o == rec.o IN
  IF Has(c, "scal") THEN Scal(c, o) ELSE
  IF o.status # "ok" THEN {<<"C07", 0, "creating the proof panicked">>}
  ELSE (IF Len(o.L) # c.lg \/ Len(o.R) # c.lg THEN {<<"C07", 0, "number of rounds is not log2 of the length">>} ELSE {})
       \cup (IF c.forced /\ (o.L # o.expL \/ o.R # o.expR) THEN {<<"C07", 0, "L or R is not the halving protocol's message">>} ELSE {})
       \cup (IF c.forced /\ (o.a # c.expa \/ o.b # c.expb) THEN {<<"C07", 0, "final a or b differs">>} ELSE {})
       \cup UNION {LET v == c.checks[i]
                       e == IF Has(v, "label") THEN c.lg = 0 \/ c.v = 1 ELSE Expect(c, v) IN
                   IF Has(v, "label") /\ c.v # 0 THEN {}
                   ELSE IF e /\ o.vs[i] # "ok" THEN {<<"C07", i, "valid argument not accepted: " \o o.vs[i]>>}
                   ELSE IF ~e /\ o.vs[i] = "ok" THEN {<<"C07", i, "altered argument accepted">>} ELSE {}
                   : i \in 1..Len(c.checks)}

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = {b \in Judge(Trace[i]) : b[1] \in {Prop, "HARNESS"}}
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
===========================================================================
