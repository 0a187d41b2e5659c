------------------------------ MODULE GenIpp ------------------------------
(* Instances of the inner-product argument with all single alterations (C07). *)
EXTENDS InnerProduct, TLC, Json, IOUtils

Seed == IOEnv.VERIF_SEED
\* a shape is <<lg n, variant, forced>>
Shapes == ndJsonDeserialize(IOEnv.GEN_SHAPES)
R(k, t) == FRand(<<Seed, "ipp", k>>, t)
Rnd(key, k) == FMod(FRand(<<Seed, "ippr">>, key), k)
RS(k, t, n) == [i \in 1..n |-> R(k, <<t, i>>)]
Const(c, n) == [i \in 1..n |-> c]
Unit(n, j) == [i \in 1..n |-> IF i = j THEN FOne ELSE FZero]
Mixed(k, t, n) == [i \in 1..n |-> LET r == Rnd(<<k, t, i>>, 5) IN
                    IF r = 0 THEN FZero ELSE IF r = 1 THEN FOne ELSE IF r = 2 THEN FOfInt(-1) ELSE R(k, <<t, i>>)]
Vec(k, t, n, v) ==
  CASE v = 0 -> RS(k, t, n) [] v = 1 -> Const(FZero, n) [] v = 2 -> Const(FOne, n)
    [] v = 3 -> Unit(n, 1) [] v = 4 -> Unit(n, n) [] OTHER -> Mixed(k, t, n)
Fac(k, t, n, v) == IF v = 2 THEN Const(FOne, n) ELSE IF v = 4 THEN Const(R(k, t), n) ELSE RS(k, t, n)
Chal(k, n, v) == [j \in 1..n |-> IF v = 5 /\ Rnd(<<k, "c", j>>, 2) = 0 THEN <<FOne, FOfInt(-1), FOfInt(2)>>[1 + Rnd(<<k, "cc", j>>, 3)] ELSE R(k, <<"u", j>>)]

Case(k) ==
  LET s == Shapes[k] lg == s[1] n == 2 ^ lg v == s[2]
      G == RS(k, "G", n) H == RS(k, "H", n) Q == R(k, "Q")
      Gf == Fac(k, "Gf", n, v) Hf == Fac(k, "Hf", n, v)
      a == Vec(k, "a", n, v) b == Vec(k, "b", n, IF v = 1 THEN 0 ELSE v)
      us == Chal(k, lg, v)
      pf == Prove(Had(G, Gf), Had(H, Hf), Q, a, b, us)
      P == Commit(Had(G, Gf), Had(H, Hf), Q, a, b) d == R(k, "d")
      at(x, i) == [x EXCEPT ![i] = FAdd(@, d)]
      checks == <<[honest |-> TRUE], [P |-> FAdd(P, d)], [P |-> FAdd(P, FMul(Q, d))], [P |-> FNeg(P)], [Q |-> FAdd(Q, d)],
                  [mut |-> <<"a", 0, d>>], [mut |-> <<"b", 0, d>>]>>
                \o [i \in 1..n |-> [G |-> at(G, i)]] \o [i \in 1..n |-> [H |-> at(H, i)]]
                \o [i \in 1..n |-> [Gf |-> at(Gf, i)]] \o [i \in 1..n |-> [Hf |-> at(Hf, i)]]
                \o [i \in 1..lg |-> [mut |-> <<"L", i - 1, d>>]] \o [i \in 1..lg |-> [mut |-> <<"R", i - 1, d>>]]
                \o (IF s[3] = 1 THEN <<>> ELSE <<[label |-> "x"]>>)
  IN [lg |-> lg, v |-> v, forced |-> s[3] = 1, G |-> G, H |-> H, Q |-> Q, Gf |-> Gf, Hf |-> Hf, a |-> a, b |-> b, chals |-> us,
      P |-> P, expL |-> pf.L, expR |-> pf.R, expa |-> pf.a, expb |-> pf.b, checks |-> checks]

\* the scalars of the verification equation for long vectors, where the argument itself is too slow
\* to run: sampled around every power of two, the ends and at random
ScalCase(k) ==
  LET s == Shapes[k] lg == s[1] n == 2 ^ lg
      near == UNION {{(2 ^ j) - 1, 2 ^ j, (2 ^ j) + 1, n - (2 ^ j), (2 ^ j) + (2 ^ (j \div 2))} : j \in 0..(IF lg = 0 THEN 0 ELSE lg - 1)}
      idx == {i \in near \cup {n - 1} \cup {Rnd(<<k, "ix", j>>, n) : j \in 1..40} : i >= 0 /\ i < n}
  IN [scal |-> TRUE, lg |-> lg, n |-> n, L |-> RS(k, "L", lg), R |-> RS(k, "R", lg), chals |-> Chal(k, lg, s[2]), idx |-> SetToSeq(idx)]
This(k) == IF Shapes[k][3] = 2 THEN ScalCase(k) ELSE Case(k)

VARIABLES k, done
Init == k \in 1..Len(Shapes) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ PrintT("CASE " \o ToJson(This(k)))
Spec == Init /\ [][Next]_<<k, done>>
\* completeness of the argument in the model
ModelInv == done \/ IF Shapes[k][3] = 2 THEN TRUE ELSE LET c == Case(k) IN
  Verifies(c.P, Had(c.G, c.Gf), Had(c.H, c.Hf), c.Q, c.expL, c.expR, c.expa, c.expb, c.chals)
  \* and the closed form of the folding
  /\ LET gh == FoldedBases(c.G, c.H, c.chals) n == 2 ^ c.lg IN
     /\ gh[1][1] = FDot([i \in 1..n |-> Coef(c.chals, i - 1)], c.G)
     /\ gh[2][1] = FDot([i \in 1..n |-> Coef(c.chals, n - i)], c.H)
===========================================================================
