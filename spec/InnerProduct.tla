--------------------------- MODULE InnerProduct ---------------------------
(***************************************************************************)
(* The recursive-halving inner-product argument, over discrete logarithms: *)
(* every group element is represented by its logarithm to a fixed base, so *)
(* a group equation is a field equation.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Fr

Half(s) == Len(s) \div 2
Lo(s) == SubSeq(s, 1, Half(s))
Hi(s) == SubSeq(s, Half(s) + 1, Len(s))
Scale(s, c) == [i \in 1..Len(s) |-> FMul(s[i], c)]
AddV(s, t) == [i \in 1..Len(s) |-> FAdd(s[i], t[i])]
Had(s, t) == [i \in 1..Len(s) |-> FMul(s[i], t[i])]

\* The commitment the argument is about
Commit(G, H, Q, a, b) == FAdd(FAdd(FDot(a, G), FDot(b, H)), FMul(Q, FDot(a, b)))

\* One round: messages, then the folded instance
Msg(s) == <<FAdd(FAdd(FDot(Lo(s.a), Hi(s.G)), FDot(Hi(s.b), Lo(s.H))), FMul(s.Q, FDot(Lo(s.a), Hi(s.b)))),
            FAdd(FAdd(FDot(Hi(s.a), Lo(s.G)), FDot(Lo(s.b), Hi(s.H))), FMul(s.Q, FDot(Hi(s.a), Lo(s.b))))>>
FoldBases(G, H, u) ==
  LET ui == FInv(u) IN
  <<AddV(Scale(Lo(G), ui), Scale(Hi(G), u)), AddV(Scale(Lo(H), u), Scale(Hi(H), ui))>>
FoldSt(s, u) ==
  LET ui == FInv(u) gh == FoldBases(s.G, s.H, u) IN
  [s EXCEPT !.a = AddV(Scale(Lo(s.a), u), Scale(Hi(s.a), ui)),
            !.b = AddV(Scale(Lo(s.b), ui), Scale(Hi(s.b), u)),
            !.G = gh[1], !.H = gh[2]]

\* The honest proof for challenges us: [L, R, a, b]
Prove(G, H, Q, a, b, us) ==
  LET step(acc, u) == LET m == Msg(acc.s) IN
        [s |-> FoldSt(acc.s, u), L |-> Append(acc.L, m[1]), R |-> Append(acc.R, m[2])]
      r == FoldLeft(step, [s |-> [G |-> G, H |-> H, Q |-> Q, a |-> a, b |-> b], L |-> <<>>, R |-> <<>>], us)
  IN [L |-> r.L, R |-> r.R, a |-> r.s.a[1], b |-> r.s.b[1]]

\* P + sum u_j^2 L_j + u_j^-2 R_j
FoldedP(P, L, R, us) ==
  FoldLeft(LAMBDA acc, j : FAdd(acc, FAdd(FMul(FMul(us[j], us[j]), L[j]), FMul(FPow(FInv(us[j]), 2), R[j]))),
           P, [j \in 1..Len(us) |-> j])
FoldedBases(G, H, us) == FoldLeft(LAMBDA gh, u : FoldBases(gh[1], gh[2], u), <<G, H>>, us)

\* the coefficient with which base number i (from 0) of G enters the folded base: u_j for every set
\* bit and u_j^-1 for every clear bit, the first challenge deciding the highest bit.  H's is its inverse.
BitOf(i, k) == (i \div (2 ^ k)) % 2
Coef(us, i) ==
  FoldLeft(LAMBDA acc, j : FMul(acc, IF BitOf(i, Len(us) - j) = 1 THEN us[j] ELSE FInv(us[j])),
           FOne, [j \in 1..Len(us) |-> j])

\* The verification equation, as the protocol defines it
Verifies(P, G, H, Q, L, R, a, b, us) ==
  LET gh == FoldedBases(G, H, us) IN
  FoldedP(P, L, R, us) = FAdd(FAdd(FMul(a, gh[1][1]), FMul(b, gh[2][1])), FMul(Q, FMul(a, b)))
===========================================================================
