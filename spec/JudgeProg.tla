---------------------------- MODULE JudgeProg ----------------------------
(***************************************************************************)
(* Decides recorded executions of programs against module                  *)
(* ConstraintSystem.  Record: c = the case that was replayed, o.p = what   *)
(* the real prover did, o.vs[i] = what the real verifier did in context    *)
(* c.vs[i].                                                                *)
(***************************************************************************)
EXTENDS ConstraintSystem, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Prop == IOEnv.JUDGE_PROP

Has(r, k) == k \in DOMAIN r
VProg(c, v) == IF Has(v, "prog") THEN v.prog ELSE c.prog
VLabel(c, v) == IF Has(v, "label") THEN v.label ELSE c.label
Comms(c, v, m) == IF Has(v, "comm") THEN v.comm ELSE [j \in 1..m |-> <<j - 1, "0">>]

\* openings of the commitments in the first phase
Opens(prog) == LET s == SelectSeq(prog, LAMBDA o : o.op = "commit") IN [i \in 1..Len(s) |-> <<s[i].v, s[i].b>>]

\* the verifier's commitments are the prover's
SameComms(c, v) ==
  LET op == Opens(c.prog) m == Len(op) cm == Comms(c, v, m) IN
  /\ Len(cm) = m
  /\ \A j \in 1..m : cm[j][2] = "0" /\ op[cm[j][1] + 1] = op[j]

EffMut(e, N) == {x \in {e.mut[i] : i \in 1..Len(e.mut)} : x[1] \in {"g", "h"} \/ x[2] < N}
SameEnv(c, v, N) ==
  IF Has(v, "env") THEN v.env.tag = c.env.tag /\ EffMut(v.env, N) = EffMut(c.env, N) ELSE TRUE

Z == FRand("judge", "z")
\* Two systems weigh every wire alike, and so the blindings of the commitments.  (Weights of commitments
\* and of the constant matter beyond that only through the values, and those agree as both systems hold.)
EqualWeights(c, a, b) ==
  LET wa == WireWeights(a, Z) wb == WireWeights(b, Z) op == Opens(c.prog)
      gates(w) == LET D == {x \in DOMAIN w : x[1] # "C"} IN [x \in D |-> w[x]]
      blind(w) == FSum([j \in 1..Len(op) |-> IF <<"C", j - 1>> \in DOMAIN w THEN FMul(w[<<"C", j - 1>>], op[j][2]) ELSE FZero])
  IN gates(wa) = gates(wb) /\ blind(wa) = blind(wb)

\* Should the verifier accept in context v?
Accept(c, pst, v, vst) ==
  /\ pst.err = "" /\ vst.err = ""
  /\ VLabel(c, v) = c.label
  /\ SameComms(c, v)
  /\ vst.n1 = pst.n1 /\ Pow2(vst.n) = Pow2(pst.n) /\ vst.m = pst.m
  /\ vst.two = pst.two /\ AllChalLabels(VProg(c, v)) = AllChalLabels(c.prog)
  /\ SameEnv(c, v, Pow2(pst.n))
  /\ Sat(vst.cons, pst)
  /\ (Has(v, "prog") => EqualWeights(c, vst.cons, pst.cons))

\* contexts whose verdict the property does not fix: generators, and unconstrained multipliers,
\* of a system without multipliers
Unfixed(c, pst, v, vst) == pst.n = 0 /\ (~SameEnv(c, v, 1) \/ (vst.n1 # 0 /\ Pow2(vst.n) = 1))

Verdicts(c, o, pst) ==
  IF o.p.status # "ok" THEN {}
  ELSE LET one(i) ==
             LET v == c.vs[i] r == o.vs[i]
                 vst == Run("V", VProg(c, v), r.chals)
             IN IF Unfixed(c, pst, v, vst) THEN {}
                ELSE LET a == Accept(c, pst, v, vst) IN
                     CASE a /\ r.status # "ok" -> {<<"C01", i, "valid proof not accepted: " \o r.status>>}
                       [] ~a /\ r.status = "ok" -> {<<"C02", i, "proof accepted for a statement it does not prove">>}
                       [] OTHER -> {}
       IN UNION {one(i) : i \in 1..Len(c.vs)}

\* Proving itself: succeeds unless an assignment is missing or generators are short
Proving(c, o, pst) ==
  LET N == Pow2(pst.n) IN
  IF pst.err # "" THEN (IF o.p.status = pst.err THEN {} ELSE {<<"C05", 0, "an error while building gave " \o o.p.status>>})
  ELSE IF c.env.n < N \/ c.env.nh < N THEN {}
  ELSE IF o.p.status = "ok" THEN {} ELSE {<<"C01", 0, "proving failed: " \o o.p.status>>}

\* Builder behaviour: returned variables, evaluations, gates, errors
EntryBad(i, rec, exp, st, side) ==
  (IF rec.h # exp.h THEN {<<"C05", i, side \o " returned other variables">>} ELSE {})
  \cup (IF rec.err # exp.err THEN {<<"C05", i, side \o " error differs">>} ELSE {})
  \cup (IF rec.e # exp.e THEN {<<"C05", i, side \o " evaluation differs">>} ELSE {})
  \cup (IF side = "prover" /\ Len(rec.v) > 0 /\ rec.v # [k \in 1..Len(exp.h) |-> ValOf(st, exp.h[k])]
        THEN {<<"C05", i, "value of a returned variable differs">>} ELSE {})
  \cup (IF side = "prover" /\ Len(rec.g) > 0 /\ (Len(rec.g) # 3 \/ FMul(rec.g[1], rec.g[2]) # rec.g[3])
        THEN {<<"C05", i, "assignment violates its multiplication gate">>} ELSE {})
  \cup (IF side = "verifier" /\ (Len(rec.v) > 0 \/ Len(rec.g) > 0)
        THEN {<<"C05", i, "verifier evaluated a combination">>} ELSE {})
LogBad(log, st, side) ==
  (IF Len(log) # Len(st.log) THEN {<<"C05", 0, side \o " executed another number of operations">>} ELSE {})
  \cup UNION {EntryBad(i, log[i], st.log[i], st, side) : i \in 1..(IF Len(log) < Len(st.log) THEN Len(log) ELSE Len(st.log))}

CMap(lc) ==
  NonZero(FoldLeft(LAMBDA f, t : IF t[1] \in DOMAIN f THEN [f EXCEPT ![t[1]] = FAdd(@, t[2])]
                                 ELSE [y \in DOMAIN f \cup {t[1]} |-> IF y = t[1] THEN t[2] ELSE f[y]],
                   [y \in {} |-> FZero], lc))
CMaps(cons) == [q \in 1..Len(cons) |-> CMap(cons[q])]

Builder(c, o, pst) ==
  LogBad(o.p.log, pst, "prover")
  \cup (IF pst.err = "" /\ o.p.stage = "prove" /\ o.p.n1 # pst.n1 THEN {<<"C05", 0, "prover has another number of multipliers">>} ELSE {})
  \cup (IF \E i \in 1..Len(o.p.wires) : FMul(o.p.wires[i][1], o.p.wires[i][2]) # o.p.wires[i][3]
        THEN {<<"C05", 0, "a multiplication gate does not hold">>} ELSE {})
  \cup (IF o.p.status # "ok" THEN {}
        ELSE UNION {
          IF Has(c.vs[i], "prog") \/ Has(c.vs[i], "label") \/ Has(c.vs[i], "comm") \/ Has(c.vs[i], "env") THEN {}
          ELSE LET r == o.vs[i] IN
               LET vst == Run("V", c.prog, r.chals) IN
               LogBad(r.log, vst, "verifier")
               \cup (IF vst.err # "" /\ r.status # vst.err THEN {<<"C05", 0, "a callback's error gave " \o r.status>>} ELSE {})
               \cup (IF r.n1 >= 0 /\ r.n1 # pst.n1 THEN {<<"C05", 0, "verifier has another number of multipliers">>} ELSE {})
               \cup (IF c.dense /\ r.n1 >= 0 /\ CMaps(r.cons) # CMaps(o.p.cons)
                     THEN {<<"C05", 0, "prover and verifier hold different constraints">>} ELSE {})
          : i \in 1..Len(c.vs)})

Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"HARNESS", 0, rec.o.harness_panic>>}
  ELSE LET c == rec.c o == rec.o pst == Run("P", c.prog, o.p.chals) IN
       Proving(c, o, pst) \cup Verdicts(c, o, pst) \cup (IF Prop = "C05" THEN Builder(c, o, pst) ELSE {})


VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = {b \in Judge(Trace[i]) : b[1] \in {Prop, "HARNESS"}}
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
==========================================================================
