---------------------------- MODULE ProgShapes ----------------------------
(***************************************************************************)
(* Programs of prescribed shape: numbers of commitments m, first-phase     *)
(* multipliers n1, second-phase multipliers n2 spread over cbs callbacks,  *)
(* q linear constraints of w terms in the first phase and q2 in the        *)
(* second.  All constraints hold by construction.                          *)
(***************************************************************************)
EXTENDS ProgMutations, TLC, Json, IOUtils

Seed == IOEnv.VERIF_SEED
\* a shape is <<m, n1, n2, cbs, q, w, q2>>

Rnd(key, k) == FMod(FRand(<<Seed, "sz">>, key), k)
Val(key) == LET r == Rnd(<<key, "k">>, 8) IN
            IF r = 0 THEN FZero ELSE IF r = 1 THEN FOne ELSE IF r = 2 THEN FOfInt(-1) ELSE FRand(<<Seed, "szv">>, key)
\* blindings: mostly random, sometimes zero (a commitment may be the identity) or repeated
Blind(key, i) == LET r == Rnd(<<key, "b", i>>, 6) IN
                 IF r = 0 THEN FZero ELSE FRand(<<Seed, "szb">>, <<key, IF r = 1 THEN 0 ELSE i>>)
LC(key, w, nh, ch) ==
  [i \in 1..w |-> <<Rnd(<<key, i>>, nh + 1), Val(<<key, i, "c">>), IF ch = 0 THEN <<>> ELSE <<ch>> >>]

\* a program under construction: ops executed so far and the resulting (model) prover state
Do1(b, op) == [ops |-> Append(b.ops, op), st |-> Step1("P", b.st, op, <<>>)]
NH(b) == Len(b.st.hs)
\* a constraint that holds: combination minus its value, times ks
Hold(key, b, w, ks) ==
  LET lc == LC(key, w, NH(b), 0)
      val == EvalLC(Resolve(lc, b.st, <<>>), b.st)
      all == Append(lc, <<0, FNeg(val), <<>> >>)
  IN [op |-> "constrain", lc |-> [i \in 1..Len(all) |-> <<all[i][1], all[i][2], ks>>]]

Gate(key, b, i) ==
  LET k == i % 3 IN
  IF k = 0 THEN Do1(b, [op |-> "allocmul", l |-> LC(<<key, i, "l">>, 1, NH(b), 0), r |-> LC(<<key, i, "r">>, 2, NH(b), 0)])
  ELSE IF k = 1 THEN Do1(b, [op |-> "mul", l |-> LC(<<key, i, "l">>, 2, NH(b), 0), r |-> LC(<<key, i, "r">>, 1, NH(b), 0)])
  ELSE Do1(Do1(b, [op |-> "single", a |-> LC(<<key, i, "l">>, 1, NH(b), 0)]),
           [op |-> "alloc", a |-> LC(<<key, i, "r">>, 1, NH(b), 0)])

Upto(k) == [i \in 1..k |-> i]
FirstPhase(key, s) ==
  LET a == FoldLeft(LAMBDA b, i : Do1(b, [op |-> "commit", v |-> Val(<<key, "v", i>>), b |-> Blind(key, i)]),
                    [ops |-> <<>>, st |-> Empty], Upto(s[1]))
      g == FoldLeft(LAMBDA b, i : Gate(key, b, i), a, Upto(s[2]))
  IN FoldLeft(LAMBDA b, i : Do1(b, Hold(<<key, "q", i>>, b, s[6], <<>>)), g, Upto(s[5]))

\* second phase: callback k owns n2/cbs gates and q2/cbs constraints; terms use first-phase
\* wires and the challenge drawn last
Body(key, s, b, k) ==
  LET share(t) == (t * k) \div s[4] - (t * (k - 1)) \div s[4]
      nh == NH(b)
      gates == [i \in 1..share(s[3]) |->
                  IF i % 2 = 0 THEN [op |-> "allocmul", l |-> LC(<<key, k, i, "l">>, 1, nh, k), r |-> LC(<<key, k, i, "r">>, 2, nh, k)]
                  ELSE [op |-> "mul", l |-> LC(<<key, k, i, "l">>, 2, nh, k), r |-> LC(<<key, k, i, "r">>, 1, nh, 0)]]
      cons == [i \in 1..share(s[7]) |-> Hold(<<key, k, "q2", i>>, b, s[6], <<k>>)]
  IN <<[op |-> "chal", lab |-> k % 3]>> \o gates \o cons

Program(key, s) ==
  LET b == FirstPhase(key, s)
      cbs == [k \in 1..s[4] |-> [op |-> "cb", body |-> Body(key, s, b, k)]]
      \* callbacks registered before the first-phase constraints: they still run last
      cut == IF s[4] > 0 THEN s[1] + ((Len(b.ops) - s[1]) \div 2) ELSE Len(b.ops)
  IN [prog |-> SubSeq(b.ops, 1, cut) \o cbs \o SubSeq(b.ops, cut + 1, Len(b.ops)), m |-> b.st.m, n |-> b.st.n + s[3]]

Some(s, k, tag) ==
  IF Len(s) <= k THEN s
  ELSE [j \in 1..k |-> LET base == ((j - 1) * Len(s)) \div k
                           top == (j * Len(s)) \div k
                       IN s[base + 1 + Rnd(<<tag, j>>, top - base)]]
===========================================================================
