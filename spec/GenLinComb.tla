---------------------------- MODULE GenLinComb ----------------------------
(* State machine whose behaviours are programs over linear combinations: every operation in every
   operand typing the library offers (C06). *)
EXTENDS LinComb, TLC, Json, IOUtils

Seed == IOEnv.VERIF_SEED
Sim == IOEnv.GEN_MODE = "sim"
Ops == atoi(IOEnv.GEN_OPS)

VARIABLES run, prog, regs, done
vars == <<run, prog, regs, done>>
Rnd(key, k) == FMod(FRand(<<Seed, "lc", run, prog>>, key), k)
Pick(key, s) == s[1 + Rnd(key, Len(s))]

\* few variables, so that they meet, and some whose numbers agree with theirs in the low bits
FarV == <<<<"V", "C", 256>>, <<"V", "L", 256>>, <<"V", "C", 65536>>, <<"V", "R", 65536>>, <<"V", "C", 257>>, <<"V", "R", 257>>, <<"V", "O", 256>>, <<"V", "O", 65537>>, <<"V", "L", 2147483647>>>>
AllV == [j \in 1..17 |-> IF j = 17 THEN <<"V", "1", 0>> ELSE <<"V", <<"C", "L", "R", "O">>[1 + ((j - 1) % 4)], (j - 1) \div 4>>] \o FarV
NV == Len(AllV)
AllF == <<"0", "1", FOfInt(-1), "2">>
FV(key) == IF Rnd(<<key, "f">>, 3) = 0 THEN Pick(<<key, "ff">>, AllF) ELSE FRand(<<Seed, "lcf", run, prog>>, key)

\* operand alphabet of the exhaustive mode
VSet == {<<"V", "C", 0>>, <<"V", "L", 0>>, <<"V", "1", 0>>}
FSet == {<<"F", "0">>, <<"F", "1">>, <<"F", FRand(<<Seed, "lce">>, Len(prog))>>}
RSet == {<<"R", j>> : j \in 1..Len(regs)}
LastOnly == IF regs = <<>> THEN {} ELSE {<<"R", Len(regs)>>}
N == <<"N">>
O(o, a, b) == [o |-> o, a |-> a, b |-> b, ts |-> <<>>]
Terms(k) ==
  IF k = 0 THEN <<>>
  ELSE IF k = 1 THEN << << <<"C", 0>>, FRand(<<Seed, "lt">>, 1)>>, << <<"L", 0>>, "1">>, << <<"C", 0>>, FRand(<<Seed, "lt">>, 2)>> >>
  ELSE << << <<"1", 0>>, FRand(<<Seed, "lt">>, 3)>>, << <<"R", 0>>, "0">>, << <<"1", 0>>, "5">>, << <<"R", 0>>, "7">>, << <<"R", 1>>, "7">> >>
OpSet ==
  {O("from", a, N) : a \in VSet \cup FSet} \cup {O("default", N, N)}
  \cup {[O(o, N, N) EXCEPT !.ts = Terms(k)] : o \in {"iter", "iterref"}, k \in 0..2}
  \cup {O("neg", a, N) : a \in VSet \cup LastOnly} \cup {O("simplify", a, N) : a \in LastOnly}
  \cup {O(o, a, b) : o \in {"add", "sub"}, a \in VSet, b \in VSet \cup FSet \cup RSet}
  \cup {O(o, a, b) : o \in {"add", "sub", "mul"}, a \in FSet, b \in VSet}
  \cup {O(o, a, b) : o \in {"mul", "mulref"}, a \in FSet, b \in LastOnly}
  \cup {O(o, a, b) : o \in {"add", "sub", "addassign"}, a \in LastOnly, b \in VSet \cup FSet \cup RSet}

\* one random operation of the simulation mode: an arbitrary pair of operand types
RV(key) == Pick(<<key, "v">>, AllV)
RF(key) == <<"F", FV(key)>>
RR(key) == IF regs = <<>> THEN RV(key) ELSE <<"R", IF Rnd(<<key, "l">>, 2) = 0 THEN Len(regs) ELSE 1 + Rnd(<<key, "r">>, Len(regs))>>
RAny(key) == LET t == Rnd(<<key, "t">>, 4) IN IF t = 0 THEN RV(key) ELSE IF t = 1 THEN RF(key) ELSE RR(key)
RTerms == LET n == Pick("tn", <<0, 1, 2, 3, 6, 20, 60, 300>>) w == Pick("tw", <<1, 2, 4, NV>>) IN
          [j \in 1..n |-> <<VarOf(AllV[IF w = NV THEN 1 + Rnd(<<"tv", j>>, NV) ELSE 1 + ((Rnd("to", NV) + Rnd(<<"tv", j>>, w)) % NV)]), FV(<<"tc", j>>)>>]
SimOp ==
  LET k == Rnd("kind", 14) R1 == RR("a") IN
  CASE k = 0 -> O("from", IF Rnd("w", 2) = 0 THEN RV("a") ELSE RF("a"), N)
    [] k = 1 -> [O(Pick("w", <<"iter", "iterref">>), N, N) EXCEPT !.ts = RTerms]
    [] k = 2 -> O("neg", R1, N)
    [] k = 3 /\ R1[1] = "R" -> O("simplify", R1, N)
    [] k \in 4..5 -> O(Pick("w", <<"add", "sub">>), RV("a"), RAny("b"))
    [] k = 6 -> O(Pick("w", <<"add", "sub", "mul">>), RF("a"), RV("b"))
    [] k \in 7..8 /\ R1[1] = "R" -> O(Pick("w", <<"mul", "mulref">>), RF("a"), R1)
    [] OTHER -> O(IF R1[1] = "R" THEN Pick("w", <<"add", "sub", "addassign">>) ELSE "add", R1, RAny("b"))

Runs == IF Sim THEN 1..atoi(IOEnv.GEN_RUNS) ELSE {0}     \* independent random behaviours
Init == run \in Runs /\ prog = <<>> /\ regs = <<>> /\ done = FALSE
Extend(op) == prog' = Append(prog, op) /\ regs' = Append(regs, Apply(op, regs)) /\ UNCHANGED <<run, done>>
Emit == done' = TRUE /\ UNCHANGED <<run, prog, regs>> /\ PrintT("CASE " \o ToJson([prog |-> prog]))
Next == ~done /\ IF Len(prog) >= Ops THEN Emit ELSE IF Sim THEN Extend(SimOp) ELSE \E op \in OpSet : Extend(op)
Spec == Init /\ [][Next]_vars
\* the model obeys the laws of a vector space and its registers are what Run computes
ModelInv == done => LET f == regs[Len(regs)] g == regs[1] IN Laws(f, g, FRand(<<Seed, "law">>, 1)) /\ Same(Run(prog)[Len(regs)], f)
===========================================================================
