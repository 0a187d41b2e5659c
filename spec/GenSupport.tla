---------------------------- MODULE GenSupport ----------------------------
(* Cases for the supporting algebra, derivations and the store (C20). *)
EXTENDS Support, TLC, Json, IOUtils

Seed == IOEnv.VERIF_SEED
\* a shape is <<"poly", n, variant>>, <<"gens", prefix number, n>>, <<"chal", points, state bytes, n>>, <<"store", length, run>> or <<"exh">>
Shapes == ndJsonDeserialize(IOEnv.GEN_SHAPES)
R(k, t) == FRand(<<Seed, "sup", k>>, t)
Rnd(k, t, n) == FMod(R(k, t), n)
El(k, t, v) == IF v = 0 THEN R(k, t) ELSE IF v = 1 THEN FZero ELSE IF Rnd(k, <<t, "z">>, 3) = 0 THEN FZero ELSE IF Rnd(k, <<t, "z">>, 3) = 1 THEN FOfInt(-1) ELSE R(k, t)
Vec(k, t, n, v) == [i \in 1..n |-> El(k, <<t, i>>, v)]
Zeros(n) == [i \in 1..n |-> FZero]

Poly(k, s) ==
  LET n == s[2] v == s[3]
      l1 == <<Vec(k, "l0", n, v), Vec(k, "l1", n, 0)>> r1 == <<Vec(k, "r0", n, 0), Vec(k, "r1", n, v)>>
      l3 == <<Zeros(n), Vec(k, "a1", n, v), Vec(k, "a2", n, 0), Vec(k, "a3", n, 0)>>
      r3 == <<Vec(k, "b0", n, 0), Vec(k, "b1", n, 0), Zeros(n), Vec(k, "b3", n, v)>>
      g3 == <<Vec(k, "c0", n, 0), Vec(k, "c1", n, 0), Vec(k, "c2", n, 0), Vec(k, "c3", n, v)>>
  IN [kind |-> "poly", n |-> n, l1 |-> l1, r1 |-> r1, l3 |-> l3, r3 |-> r3, g3 |-> g3,
      sc |-> Vec(k, "sc", 6, v), xs |-> <<R(k, "x"), FZero, FOne, FOfInt(-1), FOfInt(2)>>]
Pref == <<"g", "h", "", "G1", "some longer prefix ", "g1", "0">>
Key == <<"", "00", "0000", "01", "ff", "0001", "abcdef0123456789">>
RECURSIVE Hist(_)
Hist(n) == IF n = 0 THEN {<<>>} ELSE
  {Append(h, op) : h \in Hist(n - 1),
     op \in {<<"ins", k, v>> : k \in {"00", "0000"}, v \in {"1", "2"}} \cup {<<"get", k, "">> : k \in {"00", "0000", ""}}}
\* keys of n bytes that differ in a single byte, and prefixes and extensions of one of them
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexKey(_)
HexKey(bs) == IF bs = <<>> THEN "" ELSE HexDigit[1 + (Head(bs) \div 16)] \o HexDigit[1 + (Head(bs) % 16)] \o HexKey(Tail(bs))
KeyHist(k, n) ==
  LET base == [i \in 1..n |-> Rnd(k, <<"kb", i>>, 256)]
      ks == [i \in 1..n |-> HexKey([base EXCEPT ![i] = (@ + IF i % 2 = 0 THEN 1 ELSE 128) % 256])]
            \o <<HexKey(SubSeq(base, 1, n - 1)), HexKey(Tail(base)), HexKey(Append(base, 0)), HexKey(<<0>> \o base), HexKey(Reverse(base))>>
      m == Len(ks)
  IN <<<<"ins", HexKey(base), "base">>>> \o [i \in 1..m |-> <<"get", ks[i], "">>] \o [i \in 1..m |-> <<"ins", ks[i], ToString(i)>>]
     \o [i \in 1..m |-> <<"get", ks[i], "">>] \o <<<<"get", HexKey(base), "">>>>
Case(k) ==
  LET s == Shapes[k] IN
  CASE s[1] = "poly" -> Poly(k, s)
    [] s[1] = "gens" -> [kind |-> "gens", prefix |-> Pref[s[2]], n |-> s[3]]
    [] s[1] = "chal" -> [kind |-> "chal", pts |-> Vec(k, "p", s[2], 0), state |-> [i \in 1..s[3] |-> Rnd(k, <<"b", i>>, 256)], n |-> s[4], d |-> R(k, "d")]
    [] s[1] = "keys" -> [kind |-> "store", hist |-> KeyHist(k, s[2])]
    [] s[1] = "store" -> [kind |-> "store", hist |-> [i \in 1..s[2] |->
          LET key == Key[1 + Rnd(k, <<"k", i>>, Len(Key))] IN
          IF Rnd(k, <<"o", i>>, 2) = 0 THEN <<"ins", key, ToString(Rnd(k, <<"v", i>>, 50))>> ELSE <<"get", key, "">>]]

VARIABLES k, done
Init == k \in 1..Len(Shapes) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k
        /\ IF Shapes[k][1] = "exh" THEN \A h \in Hist(Shapes[k][2]) : PrintT("CASE " \o ToJson([kind |-> "store", hist |-> h]))
           ELSE PrintT("CASE " \o ToJson(Case(k)))
Spec == Init /\ [][Next]_<<k, done>>
ModelInv == done \/ Shapes[k][1] # "poly" \/ LET c == Poly(k, Shapes[k]) IN
  \A x \in {c.xs[i] : i \in 1..5} : ProductLaw(c.l1, c.r1, x) /\ ProductLaw(c.l3, c.r3, x)
===========================================================================
