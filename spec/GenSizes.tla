----------------------------- MODULE GenSizes -----------------------------
(* Emits programs of prescribed shapes with verifier-side alterations (C01, C02). *)
EXTENDS ProgShapes

Kind == IOEnv.GEN_KIND
MaxV == atoi(IOEnv.GEN_MAXV)
Shapes == ndJsonDeserialize(IOEnv.GEN_SHAPES)

Case(key, pr, n, vs) ==
  LET N == Pow2(n) odd == Rnd(<<key, "odd">>, 2) IN
  [label |-> "t0", dense |-> FALSE, ser |-> Rnd(<<key, "ser">>, 2) = 1,
   env |-> [tag |-> "a", n |-> N + odd, nh |-> N + (odd * 2), mut |-> <<>>], prog |-> pr, vs |-> vs]
Honest == <<[honest |-> TRUE]>>

\* cancelling pairs at every distance between two constraints; the two constraints, and the term
\* (a commitment, an early wire or a constant), are drawn at random for each distance
Pairs(key, pr, m) ==
  LET cp == ConsPaths(pr) q == Len(cp) IN
  [dist \in 1..(q - 1) |->
     LET a == 1 + Rnd(<<key, "pa", dist>>, q - dist)
         h == Rnd(<<key, "ph", dist>>, m + 2)
     IN [prog |-> PairVariant(pr, cp[a], cp[a + dist], h, FRand(<<Seed, "pd">>, <<key, dist>>))]]

Cases(k) ==
  LET s == Shapes[k] p == Program(k, s) pr == p.prog N == Pow2(p.n)
      d == FRand(<<Seed, "szd">>, k) e == Case(k, pr, p.n, <<>>).env
      lying == Some(ListBumps(pr, d), MaxV, k)
  IN IF Kind = "PAIRS" THEN <<Case(k, pr, p.n, Honest \o Pairs(k, pr, p.m))>>
     ELSE IF Kind = "C01" THEN <<Case(k, pr, p.n, Honest)>>
     ELSE <<Case(k, pr, p.n, Honest \o Some(ProgVariants(pr, d), MaxV, <<k, "p">>)
                    \o Some(CommVariants(p.m, d), MaxV, <<k, "c">>) \o Some(EnvVariants(e, N), MaxV, <<k, "e">>)
                    \o LabelVariants)>>
          \o [j \in 1..Len(lying) |-> Case(k, lying[j], p.n, Honest)]

VARIABLES k, done
Init == k \in 1..Len(Shapes) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET cs == Cases(k) IN \A j \in 1..Len(cs) : PrintT("CASE " \o ToJson(cs[j]))
Spec == Init /\ [][Next]_<<k, done>>
\* every generated program satisfies its constraints in the model
SatInv == LET p == Program(k, Shapes[k])
              c == [i \in 1..8 |-> FRand("m", i)] r == Run("P", p.prog, c)
          IN done \/ (Sat(r.cons, r) /\ GatesHold(r) /\ r.n = p.n /\ r.m = p.m)
===========================================================================
