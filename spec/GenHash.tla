------------------------------ MODULE GenHash ------------------------------
(* Parameter sets and inputs for the native hash functions (C15). *)
EXTENDS Poseidon, TLC, Json, IOUtils

Seed == IOEnv.VERIF_SEED
\* a shape is <<"std", w, fb, fe, p>>, <<"rnd", w, fb, fe, p>> or <<"mimc", rounds>>, followed by a number of inputs
Shapes == ndJsonDeserialize(IOEnv.GEN_SHAPES)
R(k, t) == FRand(<<Seed, "hash", k>>, t)
Edge == <<FZero, FOne, FOfInt(-1), FOfInt(2)>>
Inp(k, n, v) == [i \in 1..n |-> IF v = 1 THEN FZero ELSE IF v = 2 THEN Edge[1 + FMod(R(k, <<"e", i>>), 4)]
                                ELSE IF v = 3 THEN (IF i = 1 THEN R(k, 1) ELSE FZero) ELSE R(k, <<v, i>>)]
Case(k) ==
  LET s == Shapes[k] IN
  IF s[1] = "mimc"
  THEN [kind |-> "mimc", consts |-> [i \in 1..s[2] |-> IF FMod(R(k, <<"z", i>>), 7) = 0 THEN FZero ELSE R(k, <<"c", i>>)],
        ins |-> [v \in 1..s[3] |-> Inp(k, 2, v)]]
  ELSE LET P == IF s[1] = "std" THEN StdParams(s[2], s[3], s[4], s[5]) ELSE RandParams(<<Seed, k>>, s[2], s[3], s[4], s[5]) IN
       [kind |-> s[1], P |-> P, sboxes |-> <<"Cube", "Quint", "Inverse">>,
        ins |-> [v \in 1..s[6] |-> IF v = 4 /\ P.keys # <<>> THEN <<FNeg(P.keys[1])>> \o Inp(k, P.w - 1, 5) ELSE Inp(k, P.w, v)]]

VARIABLES k, done
Init == k \in 1..Len(Shapes) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ PrintT("CASE " \o ToJson(Case(k)))
Spec == Init /\ [][Next]_<<k, done>>
ModelInv == k # 1 \/ done \/ GrainLaw(4)
============================================================================
