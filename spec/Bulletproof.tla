--------------------------- MODULE Bulletproof ---------------------------
(***************************************************************************)
(* Verification of the arithmetic-circuit protocol, over discrete          *)
(* logarithms.  st is a verifier state of module ConstraintSystem; E the   *)
(* generators [g, h, G, H]; V the commitments; pf a proof                  *)
(* [A_I1.. T_6, t_x, t_x_blinding, e_blinding, L, R, a, b]; ch the         *)
(* challenges [y, z, u, x, w, us].                                         *)
(***************************************************************************)
EXTENDS ConstraintSystem, InnerProduct

At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE FZero

\* weights of the left, right, output wires, of the commitments (negated) and the constant (negated)
Flat(st, z) ==
  LET w == Weights(st.cons, z) IN
  [wL |-> [i \in 1..st.n |-> At(w, <<"L", i - 1>>)],
   wR |-> [i \in 1..st.n |-> At(w, <<"R", i - 1>>)],
   wO |-> [i \in 1..st.n |-> At(w, <<"O", i - 1>>)],
   wV |-> [i \in 1..st.m |-> FNeg(At(w, <<"C", i - 1>>))],
   wc |-> FNeg(At(w, One))]

Powers(x, n) == FoldLeft(LAMBDA acc, k : Append(acc, FMul(acc[Len(acc)], x)), <<FOne>>, [k \in 1..(n - 1) |-> k])
PadTo(s, n) == s \o [i \in 1..(n - Len(s)) |-> FZero]

\* delta(y, z) = < y^-n o wR, wL >
Delta(f, yi) == FDot(Had(f.wR, SubSeq(Powers(yi, Len(f.wR) + 1), 1, Len(f.wR))), f.wL)

\* First equation: the commitment to t(x)
TEq(st, E, V, pf, ch) ==
  LET f == Flat(st, ch.z) x == ch.x
      lhs == FAdd(FMul(pf.t_x, E.g), FMul(pf.t_x_blinding, E.h))
      rhs == FSum(<<FMul(FMul(FPow(x, 2), FAdd(f.wc, Delta(f, FInv(ch.y)))), E.g),
                    FMul(FPow(x, 2), FDot(f.wV, V)),
                    FMul(x, pf.T_1), FMul(FPow(x, 3), pf.T_3), FMul(FPow(x, 4), pf.T_4),
                    FMul(FPow(x, 5), pf.T_5), FMul(FPow(x, 6), pf.T_6)>>)
  IN FSub(rhs, lhs)                  \* zero iff the equation holds

\* Bases of the inner-product argument: G' = u_i G_i, H'_i = u_i y^-i H_i (u_i = 1 in the first phase)
Factor(st, ch, i) == IF i <= st.n1 THEN FOne ELSE ch.u
\* Commitment to l(x), r(x) derived from the proof's messages
PPoint(st, E, pf, ch, N) ==
  LET f == Flat(st, ch.z) x == ch.x yi == Powers(FInv(ch.y), N)
      wL == PadTo(f.wL, N) wR == PadTo(f.wR, N) wO == PadTo(f.wO, N)
      a1 == FSum(<<FMul(x, pf.A_I1), FMul(FPow(x, 2), pf.A_O1), FMul(FPow(x, 3), pf.S1)>>)
      a2 == FSum(<<FMul(x, pf.A_I2), FMul(FPow(x, 2), pf.A_O2), FMul(FPow(x, 3), pf.S2)>>)
      gs == FDot([i \in 1..N |-> FMul(Factor(st, ch, i), FMul(x, FMul(yi[i], wR[i])))], SubSeq(E.G, 1, N))
      hs == FDot([i \in 1..N |-> FMul(Factor(st, ch, i),
                      FSub(FMul(yi[i], FAdd(FMul(x, wL[i]), wO[i])), FOne))], SubSeq(E.H, 1, N))
  IN FSum(<<a1, FMul(ch.u, a2), gs, hs, FNeg(FMul(pf.e_blinding, E.h)), FMul(FMul(ch.w, pf.t_x), E.g)>>)
PBases(st, E, ch, N) ==
  LET yi == Powers(FInv(ch.y), N) IN
  <<[i \in 1..N |-> FMul(Factor(st, ch, i), E.G[i])],
    [i \in 1..N |-> FMul(FMul(Factor(st, ch, i), yi[i]), E.H[i])]>>

\* Second equation: the inner-product argument for l(x), r(x)
IPEq(st, E, pf, ch) ==
  LET N == Pow2(st.n) B == PBases(st, E, ch, N) gh == FoldedBases(B[1], B[2], ch.us) IN
  FSub(FoldedP(PPoint(st, E, pf, ch, N), pf.L, pf.R, ch.us),
       FSum(<<FMul(pf.a, gh[1][1]), FMul(pf.b, gh[2][1]), FMul(FMul(ch.w, E.g), FMul(pf.a, pf.b))>>))

Valid(st, E, V, pf, ch) == TEq(st, E, V, pf, ch) = FZero /\ IPEq(st, E, pf, ch) = FZero

\* A proof is turned into a valid one by solving the equations for T_1 and A_I1 (x # 0)
Solve(st, E, V, pf, ch) ==
  LET xi == FInv(ch.x)
      p1 == [pf EXCEPT !.T_1 = FSub(@, FMul(TEq(st, E, V, pf, ch), xi))]
  IN [p1 EXCEPT !.A_I1 = FSub(@, FMul(IPEq(st, E, p1, ch), xi))]

----------------------------------------------------------------------------
(* The honest prover, over the same representation: openings                *)
(* wires st (prover state), blindings rnd, challenges as above.             *)
HonestView(st, vb, E, rnd, ch) ==
  LET f == Flat(st, ch.z) n == st.n N == Pow2(n) n1 == st.n1
      y == Powers(ch.y, N + 1) yi == Powers(FInv(ch.y), N + 1) x == ch.x
      lo(s) == SubSeq(s, 1, n1) hi(s) == SubSeq(s, n1 + 1, n)
      G1_ == SubSeq(E.G, 1, n1) H1_ == SubSeq(E.H, 1, n1)
      G2_ == SubSeq(E.G, n1 + 1, n) H2_ == SubSeq(E.H, n1 + 1, n)
      com(aa, bb, GG, HH, r) == FSum(<<FDot(aa, GG), FDot(bb, HH), FMul(r, E.h)>>)
      zero(s) == [i \in 1..Len(s) |-> FZero]
      l1 == [i \in 1..n |-> FAdd(st.aL[i], FMul(yi[i], f.wR[i]))]
      l2 == st.aO
      l3 == rnd.sL
      r0 == [i \in 1..n |-> FSub(f.wO[i], y[i])]
      r1 == [i \in 1..n |-> FAdd(FMul(y[i], st.aR[i]), f.wL[i])]
      r3 == [i \in 1..n |-> FMul(y[i], rnd.sR[i])]
      t1 == FDot(l1, r0) t3 == FAdd(FDot(l2, r1), FDot(l3, r0)) t2 == FAdd(FDot(l1, r1), FDot(l2, r0))
      t4 == FAdd(FDot(l1, r3), FDot(l3, r1)) t5 == FDot(l2, r3) t6 == FDot(l3, r3)
      T(t, b) == FAdd(FMul(t, E.g), FMul(b, E.h))
      tb == rnd.t
      ev(c) == FSum([k \in 1..6 |-> FMul(c[k], FPow(x, k))])
      two == n > n1
      ib == FAdd(rnd.i1, FMul(ch.u, rnd.i2)) ob == FAdd(rnd.o1, FMul(ch.u, rnd.o2)) sb == FAdd(rnd.s1, FMul(ch.u, rnd.s2))
      lx == [i \in 1..N |-> IF i > n THEN FZero ELSE FSum(<<FMul(x, l1[i]), FMul(FPow(x, 2), l2[i]), FMul(FPow(x, 3), l3[i])>>)]
      rx == [i \in 1..N |-> IF i > n THEN FNeg(y[i]) ELSE FSum(<<r0[i], FMul(x, r1[i]), FMul(FPow(x, 3), r3[i])>>)]
  IN [A_I1 |-> com(lo(st.aL), lo(st.aR), G1_, H1_, rnd.i1),
      A_O1 |-> com(lo(st.aO), zero(lo(st.aO)), G1_, H1_, rnd.o1),
      S1 |-> com(lo(rnd.sL), lo(rnd.sR), G1_, H1_, rnd.s1),
      A_I2 |-> IF two THEN com(hi(st.aL), hi(st.aR), G2_, H2_, rnd.i2) ELSE FZero,
      A_O2 |-> IF two THEN com(hi(st.aO), zero(hi(st.aO)), G2_, H2_, rnd.o2) ELSE FZero,
      S2 |-> IF two THEN com(hi(rnd.sL), hi(rnd.sR), G2_, H2_, rnd.s2) ELSE FZero,
      T_1 |-> T(t1, tb[1]), T_3 |-> T(t3, tb[3]), T_4 |-> T(t4, tb[4]), T_5 |-> T(t5, tb[5]), T_6 |-> T(t6, tb[6]),
      t_x |-> ev(<<t1, t2, t3, t4, t5, t6>>),
      t_x_blinding |-> ev([tb EXCEPT ![2] = FDot(f.wV, vb)]),
      e_blinding |-> FSum(<<FMul(x, ib), FMul(FPow(x, 2), ob), FMul(FPow(x, 3), sb)>>),
      lx |-> lx, rx |-> rx]
\* everything but the opened vectors, which the inner-product argument stands for
HonestProof(st, vb, E, rnd, ch) ==
  LET v == HonestView(st, vb, E, rnd, ch) B == PBases(st, E, ch, Len(v.lx))
      ip == Prove(B[1], B[2], FMul(ch.w, E.g), v.lx, v.rx, ch.us)
  IN [k \in DOMAIN v \ {"lx", "rx"} |-> v[k]] @@ [L |-> ip.L, R |-> ip.R, a |-> ip.a, b |-> ip.b]
==========================================================================
