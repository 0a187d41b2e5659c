---------------------------- MODULE SmallField ----------------------------
(***************************************************************************)
(* The protocol over a small prime field (VERIF_MODULUS), explored         *)
(* exhaustively: every assignment of the wires and of the committed value, *)
(* every challenge, every blinding.                                        *)
(*                                                                         *)
(*  MODE "sound"  a prover runs the honest algorithm on arbitrary wires.   *)
(*     Good wires are accepted for all challenges; bad ones exactly where  *)
(*     the polynomial identity in y and z has a zero, and those are no     *)
(*     more than its degree allows.                                        *)
(*  MODE "hide"   for fixed challenges the map from the blindings to what  *)
(*     the verifier sees is injective, and everything seen satisfies the   *)
(*     verification equations; so all views that satisfy them are equally  *)
(*     likely whatever the witness is.                                     *)
(***************************************************************************)
EXTENDS Bulletproof, FiniteSets, TLC, IOUtils

P == atoi(IOEnv.VERIF_MODULUS)
Mode == IOEnv.MODEL_MODE
F == {FOfInt(i) : i \in 0..(P - 1)}
NZ == F \ {FZero}
T(h, c) == <<h, FOfInt(c), <<>> >>
Con(lc) == [op |-> "constrain", lc |-> lc]
Commit1 == [op |-> "commit", v |-> FZero, b |-> FZero]
Free == [op |-> "allocmul", l |-> <<>>, r |-> <<>>]
\* handles: 1 the commitment, 2 3 4 the wires of the first gate, 5 6 7 those of the second
Progs == <<
  <<Commit1, Free, Con(<<T(2, 1), T(1, -1)>>), Con(<<T(4, 1), T(0, -1)>>)>>,              \* v * r = 1
  <<Commit1, Free, Con(<<T(2, 1), T(1, -1)>>), Con(<<T(3, 1), T(1, -1)>>), Con(<<T(4, 1), T(1, -1)>>)>>,    \* v^2 = v
  <<Commit1, Free>>,                                                                      \* only the gate
  <<Commit1, Free, Con(<<T(2, 1), T(3, 1), T(1, 1), T(0, 1)>>)>>,
  <<Commit1, Free, [op |-> "cb", body |-> <<Free, Con(<<T(5, 1), T(4, -1)>>), Con(<<T(6, 1), T(1, -1)>>)>>]>> >>   \* two phases
IsTwo(k) == k = 5
Two(k) == IF IsTwo(k) THEN 2 ELSE 1

\* the state of a prover with arbitrary wires w (three per gate) and committed value v
St(k, w, v) == LET st == Run("P", Progs[k], <<>>) n == Two(k) IN
  [st EXCEPT !.v = <<v>>, !.aL = [i \in 1..n |-> w[3 * i - 2]], !.aR = [i \in 1..n |-> w[3 * i - 1]], !.aO = [i \in 1..n |-> w[3 * i]]]
Env(n) == [g |-> FOne, h |-> FOfInt(2), G |-> [i \in 1..n |-> FOfInt(i + 1)], H |-> [i \in 1..n |-> FOfInt(2 * i + 1)]]
NoBlind(n) == [i1 |-> FZero, o1 |-> FZero, s1 |-> FZero, i2 |-> FZero, o2 |-> FZero, s2 |-> FZero,
               sL |-> [i \in 1..n |-> FZero], sR |-> [i \in 1..n |-> FZero], t |-> [i \in 1..6 |-> FZero]]
Ch(y, z, u, x, w, us) == [y |-> y, z |-> z, u |-> u, x |-> x, w |-> w, us |-> us]
Us(k, q) == IF IsTwo(k) THEN <<q>> ELSE <<>>
Commitment(st, E, b) == <<FAdd(FMul(st.v[1], E.g), FMul(b, E.h))>>
Accepts(k, st, y, z, x) ==
  LET E == Env(Two(k)) ch == Ch(y, z, FOfInt(2), x, FOfInt(3), Us(k, FOfInt(2)))
      vst == Run("V", Progs[k], <<>>)
  IN Valid(vst, E, Commitment(st, E, FZero), HonestProof(st, <<FZero>>, E, NoBlind(Two(k)), ch), ch)
\* the identity whose value at (y, z) the protocol tests
Identity(st, y, z) ==
  FAdd(FSum([i \in 1..st.n |-> FMul(FPow(y, i - 1), FSub(FMul(st.aL[i], st.aR[i]), st.aO[i]))]),
       FSum([q \in 1..Len(st.cons) |-> FMul(FPow(z, q), FSum([j \in 1..Len(st.cons[q]) |-> FMul(st.cons[q][j][2], ValOf(st, st.cons[q][j][1]))]))]))
Good(st) == GatesHold(st) /\ Sat(st.cons, st)
Degree(st) == LET a == st.n - 1 b == Len(st.cons) IN IF a > b THEN a ELSE b

VARIABLES mode, a, b
vars == <<mode, a, b>>
InitSound == /\ mode = "wires" /\ a \in 1..4 /\ \E w \in [1..3 -> F], v \in F : b = <<w, v>>
Sound ==
  LET st == St(a, b[1], b[2])
      zeros == {yz \in NZ \X F : Identity(st, yz[1], yz[2]) = FZero}
  IN /\ \A y \in NZ, z \in F, x \in {FOne, FOfInt(2), FOfInt(-1)} : Accepts(a, st, y, z, x) <=> <<y, z>> \in zeros
     /\ Good(st) => zeros = NZ \X F
     /\ ~Good(st) => Cardinality(zeros) <= Degree(st) * P
     \* the two-phase statement is looked at for wires that extend these ones
     /\ LET w2 == b[1] \o <<b[1][3], b[2], FMul(b[1][3], b[1][1])>> s2 == St(5, w2, b[2]) IN
        \A y \in NZ, z \in {FZero, FOne, FOfInt(2)} : Accepts(5, s2, y, z, FOfInt(2)) <=> Identity(s2, y, z) = FZero

\* blindings as a tuple: i1 o1 s1 t1 t3 t4 t5 t6 sL sR [i2 o2 s2 sL2 sR2]
Blind(k, q) ==
  IF IsTwo(k)
  THEN [i1 |-> q[1], o1 |-> q[2], s1 |-> q[3], i2 |-> q[11], o2 |-> q[12], s2 |-> q[13], sL |-> <<q[9], q[14]>>, sR |-> <<q[10], q[15]>>,
        t |-> <<q[4], FZero, q[5], q[6], q[7], q[8]>>]
  ELSE [i1 |-> q[1], o1 |-> q[2], s1 |-> q[3], i2 |-> FZero, o2 |-> FZero, s2 |-> FZero, sL |-> <<q[9]>>, sR |-> <<q[10]>>,
        t |-> <<q[4], FZero, q[5], q[6], q[7], q[8]>>]
NB(k) == IF IsTwo(k) THEN 15 ELSE 10
\* in the smallest fields no generator may vanish
EnvH(n) == [g |-> FOne, h |-> FOne, G |-> [i \in 1..n |-> FOne], H |-> [i \in 1..n |-> FOne]]
Witness(k, j) == CASE k = 1 -> St(1, <<FOfInt(-1), FOfInt(-1), FOne>>, FOfInt(-1))
                   [] k = 3 -> IF j = 1 THEN St(3, <<FZero, FOne, FZero>>, FZero) ELSE St(3, <<FOne, FOne, FOne>>, FOne)
                   [] k = 5 -> IF j = 1 THEN St(5, <<FZero, FOne, FZero, FZero, FOne, FZero>>, FOne) ELSE St(5, <<FOne, FOne, FOne, FOne, FOne, FOne>>, FOne)
Chs(k) == {Ch(y, z, FOne, x, FOne, Us(k, FOne)) : y \in NZ, z \in {FZero, FOne}, x \in NZ}
InitHide == /\ mode = "view" /\ a \in {<<k, j, c>> : k \in (IF P = 2 THEN {3, 5} ELSE {1, 3}), j \in 1..2, c \in 1..2} /\ b = <<>>
Hide ==
  LET k == a[1] st == Witness(k, a[2]) E == EnvH(Two(k)) vst == Run("V", Progs[k], <<>>)
      ch == LET s == SetToSeq(Chs(k)) IN s[1 + ((a[3] * 3) % Len(s))]
      V == Commitment(st, E, FOne)
      view(q) == HonestView(st, <<FOne>>, E, Blind(k, q), ch)
      flat(v) == <<v.A_I1, v.A_O1, v.S1, v.A_I2, v.A_O2, v.S2, v.T_1, v.T_3, v.T_4, v.T_5, v.T_6, v.t_x_blinding, v.e_blinding, v.lx, v.rx>>
      B == [1..NB(k) -> F]
      B0 == {q \in B : \A i \in 1..8 : q[i] = FZero}
  IN /\ Good(st)
     /\ Cardinality({flat(view(q)) : q \in B}) = Cardinality(B)
     /\ \A q \in B0 : LET pf == HonestProof(st, <<FOne>>, E, Blind(k, q), ch) IN Valid(vst, E, V, pf, ch)
Init == IF Mode = "sound" THEN InitSound ELSE InitHide
Next == mode \in {"wires", "view"} /\ mode' = "judge" /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
ModelInv == mode = "judge" => IF Mode = "sound" THEN Sound ELSE Hide
===========================================================================
