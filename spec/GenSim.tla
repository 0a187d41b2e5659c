------------------------------ MODULE GenSim ------------------------------
(***************************************************************************)
(* Simulated transcripts for property C03.  For a statement of a given     *)
(* shape and arbitrary challenges, a proof satisfying both verification    *)
(* equations is obtained by solving them; alterations of one component, of *)
(* several that cancel in one equation, or of both equations in a fixed    *)
(* ratio, are attached.  "cheat" cases are built by the honest algorithm   *)
(* from wires that break one gate or one constraint.                       *)
(***************************************************************************)
EXTENDS ProgShapes, Bulletproof

Shapes == ndJsonDeserialize(IOEnv.GEN_SHAPES)

R(k, t) == FRand(<<Seed, "sim", k>>, t)
RandSeq(k, t, n) == [i \in 1..n |-> R(k, <<t, i>>)]
Env(k, n) == [g |-> R(k, "g"), h |-> R(k, "h"), G |-> RandSeq(k, "G", Pow2(n)), H |-> RandSeq(k, "H", Pow2(n))]
Lg(N) == CHOOSE j \in 0..12 : 2 ^ j = N

\* challenges: mostly random, sometimes special values
Sp(k, t, c) == LET r == Rnd(<<k, t>>, 6) IN
               IF k % 4 = 3 /\ r < Len(c) THEN c[r + 1] ELSE R(k, t)
Chal(k, n) ==
  [y |-> Sp(k, "y", <<FOne, FOfInt(-1)>>), z |-> Sp(k, "z", <<FZero, FOne>>), u |-> Sp(k, "u", <<FZero, FOne>>),
   x |-> Sp(k, "x", <<FOne, FOfInt(-1)>>), w |-> Sp(k, "w", <<FZero, FOne>>),
   us |-> [j \in 1..Lg(Pow2(n)) |-> Sp(k, <<"us", j>>, <<FOne>>)]]
CbChals(k, p) == [j \in 1..Len(AllChalLabels(p)) |-> R(k, <<"cb", j>>)]
Queue(cb, ch) == cb \o <<ch.y, ch.z, ch.u, ch.x, ch.w>> \o ch.us

PNames == <<"A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6">>
SNames == <<"t_x", "t_x_blinding", "e_blinding", "a", "b">>
Random(k, lg) ==
  [A_I1 |-> R(k, "A_I1"), A_O1 |-> R(k, "A_O1"), S1 |-> R(k, "S1"), A_I2 |-> R(k, "A_I2"), A_O2 |-> R(k, "A_O2"),
   S2 |-> R(k, "S2"), T_1 |-> R(k, "T_1"), T_3 |-> R(k, "T_3"), T_4 |-> R(k, "T_4"), T_5 |-> R(k, "T_5"),
   T_6 |-> R(k, "T_6"), t_x |-> R(k, "t_x"), t_x_blinding |-> R(k, "txb"), e_blinding |-> R(k, "eb"),
   a |-> R(k, "a"), b |-> R(k, "b"), L |-> RandSeq(k, "L", lg), R |-> RandSeq(k, "R", lg)]

\* single-component alterations
Singles(lg, d) ==
  [i \in 1..Len(PNames) |-> << <<PNames[i], 0, d>> >>] \o [i \in 1..Len(SNames) |-> << <<SNames[i], 0, d>> >>]
  \o [i \in 1..lg |-> << <<"L", i - 1, d>> >>] \o [i \in 1..lg |-> << <<"R", i - 1, d>> >>]

\* pairs breaking both equations in the ratio r0, so that eq2 + r0 * eq1 = 0
Trades(E, ch, d, rs) ==
  LET xi == FInv(ch.x) IN
  Flatten([i \in 1..Len(rs) |-> LET r0 == rs[i] IN
    << << <<"t_x_blinding", 0, d>>, <<"e_blinding", 0, FNeg(FMul(r0, d))>> >>,
       << <<"T_1", 0, d>>, <<"A_I1", 0, FNeg(FMul(r0, d))>> >>,
       << <<"T_3", 0, d>>, <<"S1", 0, FNeg(FMul(r0, d))>> >>,
       \* t_x: eq1 changes by -d g, eq2 by w d g; repaired in eq2 up to the ratio r0
       << <<"t_x", 0, d>>, <<"A_I1", 0, FMul(FMul(FSub(r0, ch.w), FMul(d, E.g)), xi)>> >> >>])
Ratios(ch, k) ==
  <<FZero, FOne, FOfInt(-1), FOfInt(2), ch.y, ch.z, ch.u, ch.x, ch.w, FInv(ch.x), FMul(ch.x, ch.x), FMul(ch.w, ch.x),
    FNeg(ch.w), FNeg(ch.x), FNeg(ch.z), FInv(ch.w), FInv(ch.y), FAdd(ch.w, FOne)>>
  \o (IF Len(ch.us) > 0 THEN <<ch.us[1], ch.us[Len(ch.us)], FMul(ch.us[1], ch.us[1])>> ELSE <<>>)
\* alterations that keep both equations true (the transcript stays valid)
Keeps(ch, d) ==
  LET xi == FInv(ch.x) IN
  << << <<"A_O1", 0, d>>, <<"A_I1", 0, FNeg(FMul(ch.x, d))>> >>,
     << <<"S1", 0, d>>, <<"A_O1", 0, FNeg(FMul(ch.x, d))>> >>,
     << <<"A_I2", 0, d>>, <<"A_I1", 0, FNeg(FMul(ch.u, d))>> >>,
     << <<"T_3", 0, d>>, <<"T_1", 0, FNeg(FMul(FMul(ch.x, ch.x), d))>> >>,
     << <<"T_6", 0, d>>, <<"T_4", 0, FNeg(FMul(FMul(ch.x, ch.x), d))>> >> >>

Sim(k) ==
  LET s == Shapes[k] p == Program(k, s) cb == CbChals(k, p.prog) st == Run("V", p.prog, cb)
      E == Env(k, st.n) ch == Chal(k, st.n) V == RandSeq(k, "V", st.m) lg == Len(ch.us)
      pf == Solve(st, E, V, Random(k, lg), ch) d == R(k, "d")
  IN [kind |-> "sim", k |-> k, prog |-> p.prog, env |-> E, comms |-> V, chals |-> Queue(cb, ch), ch |-> ch, cb |-> cb,
      proof |-> pf, td |-> d,
      muts |-> Singles(lg, d) \o Keeps(ch, d) \o Trades(E, ch, d, Ratios(ch, k))]

\* cheating prover: the honest algorithm on wires with one gate or one value changed
Wires(st, i, which, d) ==
  IF which = "O" THEN [st EXCEPT !.aO[i] = FAdd(@, d)]
  ELSE IF which = "L" THEN [st EXCEPT !.aL[i] = FAdd(@, d)]
  ELSE IF which = "R" THEN [st EXCEPT !.aR[i] = FAdd(@, d)] ELSE st
Cheat(k, i, which) ==
  LET s == Shapes[k] p == Program(k, s) cb == CbChals(k, p.prog)
      st0 == Run("P", p.prog, cb) vst == Run("V", p.prog, cb)
      ch == Chal(k, st0.n) E == Env(k, st0.n) vb == RandSeq(k, "vb", st0.m)
      st == Wires(st0, i, which, R(k, <<"w", i>>))
      V == [j \in 1..st.m |-> FAdd(FMul(st.v[j], E.g), FMul(vb[j], E.h))]
      z2(x) == IF st.n > st.n1 THEN x ELSE FZero
      rnd == [i1 |-> R(k, "i1"), o1 |-> R(k, "o1"), s1 |-> R(k, "s1"), i2 |-> z2(R(k, "i2")), o2 |-> z2(R(k, "o2")), s2 |-> z2(R(k, "s2")),
              sL |-> RandSeq(k, "sL", st.n), sR |-> RandSeq(k, "sR", st.n), t |-> RandSeq(k, "t", 6)]
  IN [kind |-> IF which = "none" THEN "honest" ELSE "cheat", k |-> k, prog |-> p.prog, env |-> E, comms |-> V, chals |-> Queue(cb, ch),
      ch |-> ch, cb |-> cb, proof |-> HonestProof(st, vb, E, rnd, ch), muts |-> <<>>]

Cases(k) ==
  LET n == Shapes[k][2] + Shapes[k][3] IN
  <<Sim(k), Cheat(k, 1, "none")>>
  \o (IF n = 0 THEN <<>> ELSE [j \in 1..(3 * n) |-> Cheat(k, 1 + ((j - 1) \div 3), <<"L", "R", "O">>[1 + ((j - 1) % 3)])])

VARIABLES k, done
Init == k \in 1..Len(Shapes) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET cs == Cases(k) IN \A j \in 1..Len(cs) : PrintT("CASE " \o ToJson(cs[j]))
Spec == Init /\ [][Next]_<<k, done>>

\* In the model: a simulated proof is valid, an honest proof is valid, a proof from a broken gate is not
ModelInv ==
  done \/
  LET c == Sim(k) st == Run("V", c.prog, c.cb) h == Cheat(k, 1, "none") IN
  /\ Valid(st, c.env, c.comms, c.proof, c.ch)
  /\ Valid(st, h.env, h.comms, h.proof, h.ch)
  /\ (st.n > 0 /\ k % 4 # 3) => LET b == Cheat(k, st.n, "O") IN ~Valid(st, b.env, b.comms, b.proof, b.ch)
===========================================================================
