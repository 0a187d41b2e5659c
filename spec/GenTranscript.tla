--------------------------- MODULE GenTranscript ---------------------------
(* Statements with all single alterations of what the transcript must absorb (C04), and
   statements for the analysis of random scalars (C09). *)
EXTENDS ProgShapes, TLC

Shapes == ndJsonDeserialize(IOEnv.GEN_SHAPES)
Kind == IOEnv.GEN_KIND
R(k, t) == FRand(<<Seed, "tr", k>>, t)
RS(k, t, n) == [i \in 1..n |-> R(k, <<t, i>>)]
Lg(N) == CHOOSE j \in 0..12 : 2 ^ j = N

Names == <<"A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6", "t_x", "t_x_blinding", "e_blinding">>
Comp(x, i, d) == [kind |-> "comp", name |-> x, i |-> i, d |-> d]
Points(two) == SelectSeq([i \in 1..11 |-> i], LAMBDA i : i \notin {4, 5, 6} \/ two)
\* smallest changes: the other point with the same x, one byte of a scalar
\* (the identity is its own negative; exchanging equal commitments is no change)
Openings(p) == LET s == SelectSeq(p, LAMBDA o : o.op = "commit") IN [i \in 1..Len(s) |-> <<s[i].v, s[i].b>>]
Upward(n, T(_)) == SelectSeq([i \in 1..n |-> i], T)
Fine(k, op, lg, two) ==
  LET nz == Upward(Len(op), LAMBDA i : op[i] # <<FZero, FZero>>) IN
  [i \in 1..Len(nz) |-> [kind |-> "comm", i |-> nz[i] - 1, d |-> "neg"]]
  \o [j \in 1..Len(Points(two)) |-> Comp(Names[Points(two)[j]], 0, "neg")]
  \o [i \in 1..lg |-> Comp("L", i - 1, "neg")] \o [i \in 1..lg |-> Comp("R", i - 1, "neg")]
  \o [j \in 1..6 |-> Comp(Names[12 + (j % 3)], 0, IF j <= 3 THEN "1" ELSE FOfInt(-1))]
  \o (IF k % 10 # 1 THEN <<>>
      ELSE [j \in 1..96 |-> Comp(Names[12 + (j % 3)], 0, FPow(FOfInt(256), (j - 1) \div 3))])
\* one message up and the other down by the same amount, and two commitments exchanged
Moves(m, op, lg) ==
  LET sw == Upward(IF m > 0 THEN m - 1 ELSE 0, LAMBDA i : op[i] # op[i + 1]) IN
  [i \in 1..10 |-> [kind |-> "move", at |-> <<Names[i], 0>>, moves |-> <<<<Names[i], 0, "5">>, <<Names[i + 1], 0, FOfInt(-5)>>>>]]
  \o [i \in 1..2 |-> [kind |-> "move", at |-> <<Names[11 + i], 0>>, moves |-> <<<<Names[11 + i], 0, "5">>, <<Names[12 + i], 0, FOfInt(-5)>>>>]]
  \o [i \in 1..lg |-> [kind |-> "move", at |-> <<"L", i - 1>>, moves |-> <<<<"L", i - 1, "5">>, <<"R", i - 1, FOfInt(-5)>>>>]]
  \o [i \in 1..(IF m > 0 THEN m - 1 ELSE 0) |-> [kind |-> "shift", i |-> i - 1, j |-> i, d |-> "5", e |-> FOfInt(-5)]]
  \o [i \in 1..Len(sw) |-> [kind |-> "swap", i |-> sw[i] - 1, j |-> sw[i]]]
Alts(k, p, m, lg, two) ==
  <<[kind |-> "label"]>> \o Fine(k, Openings(p), lg, two) \o Moves(m, Openings(p), lg)
  \o [i \in 1..m |-> [kind |-> "comm", i |-> i - 1]]
  \o [i \in 1..Len(Names) |-> [kind |-> "comp", name |-> Names[i], i |-> 0]]
  \o [i \in 1..lg |-> [kind |-> "comp", name |-> "L", i |-> i - 1]]
  \o [i \in 1..lg |-> [kind |-> "comp", name |-> "R", i |-> i - 1]]
  \* one commitment more (a repetition); a second phase where there is none
  \o <<[kind |-> "prog", what |-> "count", prog |-> Append(p, [op |-> "commit", v |-> "1", b |-> "1"])]>>
  \o (IF two THEN <<>> ELSE <<[kind |-> "prog", what |-> "phase", prog |-> Append(p, [op |-> "cb", body |-> <<>>])]>>)

C04Case(k) ==
  IF Len(Shapes[k]) = 1 THEN [lens |-> [i \in 1..(Shapes[k][1] + 1) |-> 2 ^ (i - 1)], q |-> R(k, "q"), alts |-> <<>>] ELSE
  LET s == Shapes[k] p == Program(k, s) N == Pow2(p.n) IN
  [prog |-> p.prog, env |-> [tag |-> "a", n |-> N, nh |-> N, mut |-> <<>>], lg |-> Lg(N), m |-> p.m,
   two |-> s[4] > 0, nc |-> s[4], alts |-> Alts(k, p.prog, p.m, Lg(N), s[4] > 0)]
C09Case(k) ==
  LET s == Shapes[k] p == Program(k, s) N == Pow2(p.n) lg == Lg(N) IN
  [prog |-> p.prog, env |-> [g |-> R(k, "g"), h |-> R(k, "h"), G |-> RS(k, "G", N), H |-> RS(k, "H", N)],
   chals |-> RS(k, "ch", s[4] + 5 + lg), delta |-> R(k, "delta"), n1 |-> s[2], n |-> p.n]

VARIABLES k, done
Init == k \in 1..Len(Shapes) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ PrintT("CASE " \o ToJson(IF Kind = "C04" THEN C04Case(k) ELSE C09Case(k)))
Spec == Init /\ [][Next]_<<k, done>>
============================================================================
