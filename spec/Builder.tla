----------------------------- MODULE Builder -----------------------------
(***************************************************************************)
(* The constraint-system interface as a state machine: a prover and a      *)
(* verifier are driven by the same operations, first phase, then callbacks *)
(* in registration order.  TLC explores it (exhaustively with canonical    *)
(* arguments, or randomly with -simulate), checks the invariants below in  *)
(* every state, and prints every finished program for replay on the real   *)
(* Prover and Verifier.                                                    *)
(***************************************************************************)
EXTENDS ProgMutations, TLC, Json, IOUtils, FiniteSets

Mode == IOEnv.GEN_MODE            \* "exh" or "sim"
MaxOps == atoi(IOEnv.GEN_OPS)     \* total number of operations
MaxCb == atoi(IOEnv.GEN_CB)
Seed == IOEnv.VERIF_SEED
MissRate == IOEnv.GEN_MISS        \* "1": programs may contain missing assignments

VARIABLES P, V, prog, bodies, slot, phase, cnt, rnd

vars == <<P, V, prog, bodies, slot, phase, cnt, rnd>>

\* Challenge values are only known when the program runs; the model uses placeholders.
Chals == [k \in 1..12 |-> FRand("modelchal", k)]

Init == /\ P = Empty /\ V = Empty /\ prog = <<>> /\ bodies = <<>>
        /\ slot = 0 /\ phase = 1 /\ cnt = 0
        /\ rnd \in IF Mode = "sim" THEN 1..5000 ELSE {0}

Sim == Mode = "sim"
NH == Len(P.hs)
\* pseudo-random choices: functions of the run's seed, the step and a tag, so that a step
\* is one well-defined transition
Key(tag) == <<Seed, rnd, cnt, phase, slot, tag>>
Rnd(tag, k) == FMod(FRand("builder", Key(tag)), k)          \* in 0..k-1
SmallSeq == <<FOfInt(0), FOfInt(1), FOfInt(-1), FOfInt(2), FOfInt(3), FOfInt(65537)>>
RCoef(tag) == IF Rnd(<<tag, "s">>, 3) = 0 THEN SmallSeq[1 + Rnd(<<tag, "k">>, 6)] ELSE FRand("coef", Key(tag))
RTerm(tag) == <<Rnd(<<tag, "h">>, NH + 1), RCoef(tag),
                IF P.ch > 0 /\ Rnd(<<tag, "c">>, 3) = 0 THEN <<1 + Rnd(<<tag, "ci">>, P.ch)>> ELSE <<>> >>
RLC(tag) == [i \in 1..(<<0, 1, 1, 2, 2, 3, 4>>[1 + Rnd(<<tag, "n">>, 7)]) |-> RTerm(<<tag, i>>)]

\* canonical combinations of the exhaustive exploration
LastH == IF NH = 0 THEN <<<<0, "3", <<>>>>>> ELSE <<<<NH, "1", <<>>>>>>
FirstC == IF NH = 0 THEN <<<<0, "5", <<>>>>>>
          ELSE << <<1, "2", <<>> >>, <<0, "7", IF P.ch > 0 THEN <<P.ch>> ELSE <<>> >> >>
LcA == IF Sim THEN RLC("A") ELSE LastH
LcB == IF Sim THEN RLC("B") ELSE FirstC

\* the operations of a macro step (each is executed, in order)
Alloc1(a) == [op |-> "alloc", a |-> a]
Neg(lc) == [i \in 1..Len(lc) |-> <<lc[i][1], FNeg(lc[i][2]), lc[i][3]>>]
MacroNames == {"mul", "alloc", "single", "allocmul", "bind", "eval"}
              \cup (IF MissRate = "1" THEN {"allocnone", "singlenone", "allocmulnone", "tryalloc", "trysingle", "trymul"} ELSE {})
Macro(name) ==
  LET a == LcA b == LcB IN
  CASE name = "mul" -> <<[op |-> "mul", l |-> a, r |-> b]>>
    [] name = "alloc" -> <<Alloc1(a)>>
    [] name = "single" -> <<[op |-> "single", a |-> b]>>
    [] name = "allocmul" -> <<[op |-> "allocmul", l |-> a, r |-> b]>>
    [] name = "eval" -> <<[op |-> "eval", lc |-> a \o b]>>
    \* allocate the value of a combination and constrain it: always satisfied
    [] name = "bind" -> <<Alloc1(b), [op |-> "constrain", lc |-> Append(Neg(b), <<NH + 1, "1", <<>>>>)]>>
    [] OTHER -> <<[op |-> name]>>
\* values and blindings may be zero (the commitment is then the identity) and may repeat
Commit == IF Sim
          THEN LET r == Rnd("b", 6) IN
               [op |-> "commit", v |-> IF Rnd("vz", 5) = 0 THEN "0" ELSE RCoef("v"),
                b |-> IF r = 0 THEN "0" ELSE FRand(<<Seed, "blind">>, IF r = 1 THEN 0 ELSE P.m)]
          ELSE [op |-> "commit", v |-> IF P.m = 1 THEN "0" ELSE FOfInt(10 + P.m),
                b |-> IF P.m = 1 THEN "0" ELSE FRand(<<Seed, "blind">>, P.m)]
Chal == [op |-> "chal", lab |-> IF Sim THEN Rnd("lab", 3) ELSE 0]

Exec(ops) ==
  IF phase = 1
  THEN /\ P' = FoldLeft(LAMBDA s, o : Step1("P", s, o, Chals), P, ops)
       /\ V' = FoldLeft(LAMBDA s, o : Step1("V", s, o, Chals), V, ops)
  ELSE /\ P' = FoldLeft(LAMBDA s, o : Step2("P", s, o, Chals), P, ops)
       /\ V' = FoldLeft(LAMBDA s, o : Step2("V", s, o, Chals), V, ops)

DoPhase1 ==
  /\ phase = 1 /\ cnt < MaxOps /\ P.err = ""
  /\ \E k \in MacroNames \cup {"commit", "cb"} :
       LET ops == IF k = "commit" THEN <<Commit>>
                  ELSE IF k = "cb" THEN <<[op |-> "cb", body |-> <<>>]>> ELSE Macro(k) IN
       /\ k = "cb" => Len(bodies) < MaxCb
       /\ Exec(ops)
       /\ prog' = prog \o ops
       /\ bodies' = IF k = "cb" THEN Append(bodies, <<>>) ELSE bodies
       /\ cnt' = cnt + 1
       /\ UNCHANGED <<slot, phase>>

ToPhase2 ==
  /\ phase = 1 /\ (Sim => cnt >= MaxOps \div 2 \/ P.err # "")
  /\ P' = EndPhase1(P) /\ V' = EndPhase1(V)
  /\ phase' = 2 /\ slot' = IF Len(bodies) > 0 /\ P.err = "" THEN 1 ELSE 0
  /\ UNCHANGED <<prog, bodies, cnt>>

DoPhase2 ==
  /\ phase = 2 /\ slot >= 1 /\ slot <= Len(bodies) /\ cnt < MaxOps /\ P.err = ""
  /\ \E k \in MacroNames \cup {"chal", "nest"} \cup (IF MissRate = "1" THEN {"stopP", "stopV", "neststopP", "neststopV"} ELSE {}) :
       LET ops == IF k = "chal" THEN <<Chal>>
                  ELSE IF k = "neststopP" THEN <<[op |-> "cb", body |-> <<[op |-> "stopP"]>>]>>
                  ELSE IF k = "neststopV" THEN <<[op |-> "cb", body |-> <<[op |-> "stopV"]>>]>>
                  ELSE IF k = "nest" THEN <<[op |-> "cb", body |-> Macro("bind")]>> ELSE Macro(k) IN
       /\ k = "chal" => P.ch < 6
       /\ Exec(ops)
       /\ bodies' = [bodies EXCEPT ![slot] = @ \o ops]
       /\ cnt' = cnt + 1
       /\ UNCHANGED <<prog, slot, phase>>

NextSlot ==
  /\ phase = 2 /\ slot >= 1 /\ slot < Len(bodies) /\ P.err = ""
  /\ slot' = slot + 1 /\ UNCHANGED <<P, V, prog, bodies, phase, cnt>>

Finish ==
  /\ phase = 2 /\ (slot = Len(bodies) \/ P.err # "")
  /\ Sim => cnt >= MaxOps \/ P.err # "" \/ slot = 0
  /\ phase' = 3 /\ UNCHANGED <<P, V, prog, bodies, slot, cnt>>

\* the program with its callback bodies filled in
Assembled ==
  LET idx(i) == Cardinality({j \in 1..i : prog[j].op = "cb"}) IN
  [i \in 1..Len(prog) |-> IF prog[i].op = "cb" THEN [op |-> "cb", body |-> bodies[idx(i)]] ELSE prog[i]]

\* at most k elements of a sequence, pseudo-randomly placed
Some(s, k, tag) ==
  IF Len(s) <= k THEN s
  ELSE LET off(j) == ((j - 1) * Len(s)) \div k
           jit(j) == FBit(FRand(tag, j), 3) IN
       [j \in 1..k |-> s[1 + ((off(j) + jit(j)) % Len(s))]]

Kind == IOEnv.GEN_KIND
MaxV == atoi(IOEnv.GEN_MAXV)
Delta == FRand(<<Seed, "delta">>, Len(prog))

Case(pr, n, vs) ==
  LET N == Pow2(n) odd == FBit(FRand(pr, "odd"), 5) IN
  [label |-> "t0", dense |-> Kind = "C05", ser |-> FBit(FRand(pr, "ser"), 5) = 1,
   env |-> [tag |-> "a", n |-> N + odd, nh |-> N + 3 * odd, mut |-> <<>>], prog |-> pr, vs |-> vs]
Honest == <<[honest |-> TRUE]>>

Cases ==
  LET pr == Assembled N == Pow2(P.n) e == Case(pr, P.n, <<>>).env
      \* generators beyond the padded size do not matter
      spare == IF e.nh > N THEN <<[env |-> [e EXCEPT !.mut = << <<"H", N>> >>]]>> ELSE <<>>
      lying == Some(ListBumps(pr, Delta), MaxV, pr)
  IN CASE Kind = "C02" ->
            <<Case(pr, P.n, Honest \o Some(ProgVariants(pr, Delta), 2 * MaxV, pr)
                             \o Some(CommVariants(P.m, Delta), MaxV, pr)
                             \o Some(EnvVariants(e, N), MaxV, pr) \o LabelVariants)>>
            \o [j \in 1..Len(lying) |-> Case(lying[j], P.n, Honest \o <<[prog |-> pr]>>)]
       [] Kind = "C05" -> <<Case(pr, P.n, Honest)>>
       [] OTHER -> <<Case(pr, P.n, Honest \o spare)>>

Emit ==
  /\ phase = 3
  /\ LET cs == Cases IN \A j \in 1..Len(cs) : PrintT("CASE " \o ToJson(cs[j]))
  /\ phase' = 4 /\ UNCHANGED <<P, V, prog, bodies, slot, cnt>>

Next == /\ rnd' = rnd
        /\ DoPhase1 \/ ToPhase2 \/ DoPhase2 \/ NextSlot \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the model                                                  *)
SidesAgree == P.err = "" /\ V.err = "" => P.hs = V.hs /\ P.n = V.n /\ P.m = V.m /\ P.cons = V.cons /\ P.pend = V.pend
GateInv == GatesHold(P)
HandleInv == HandlesOk(P) /\ HandlesOk(V)
SatInv == Sat(P.cons, P)
PendInv == P.pend # -1 => P.pend < P.n /\ P.aR[P.pend + 1] = "0" /\ P.aO[P.pend + 1] = "0"
\* replaying the assembled program from scratch gives the same system
ReplayInv == phase = 3 /\ P.err = "" => LET r == Run("P", Assembled, Chals) IN
                          r.hs = P.hs /\ r.cons = P.cons /\ r.n = P.n /\ r.n1 = P.n1
==========================================================================
