------------------------------ MODULE Poseidon ------------------------------
(***************************************************************************)
(* Poseidon (https://eprint.iacr.org/2019/458) as the library uses it, and *)
(* the derivation of its constants over the BLS12-381 scalar field: round  *)
(* constants from the Grain LFSR, MDS matrix the Cauchy matrix             *)
(* 1 / (x_i + y_j) with x = 0..w-1, y = w..2w-1.                           *)
(*                                                                         *)
(* A parameter record is [w, fb, fe, p, keys, mds]: width, full rounds at  *)
(* the beginning and at the end, partial rounds, round keys, matrix.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Fr

----------------------------------------------------------------------------
(* Constants                                                                *)
\* 80-bit initial state: field type 1, S-box type 1 (x^5), n = 255, t, R_F, R_P, thirty ones
BitsOf(v, n) == [i \in 1..n |-> (v \div (2 ^ (n - i))) % 2]
GrainInit(w, rf, rp) == BitsOf(1, 2) \o BitsOf(1, 4) \o BitsOf(255, 12) \o BitsOf(w, 12) \o BitsOf(rf, 10) \o BitsOf(rp, 10)
                        \o [i \in 1..30 |-> 1]
GrainBit(s) == (s[63] + s[52] + s[39] + s[24] + s[14] + s[1]) % 2
GrainShift(s) == Append(Tail(s), GrainBit(s))
RECURSIVE GrainSkip(_, _)
GrainSkip(s, k) == IF k = 0 THEN s ELSE GrainSkip(GrainShift(s), k - 1)
\* self-shrinking output: of two successive bits the second is output iff the first is 1
RECURSIVE GrainOut(_)
GrainOut(s) == LET a == GrainShift(s) b == GrainShift(a) IN IF a[80] = 1 THEN <<b, b[80]>> ELSE GrainOut(b)
RECURSIVE GrainBits(_, _, _)
GrainBits(s, k, acc) == IF k = 0 THEN <<s, acc>> ELSE LET o == GrainOut(s) IN GrainBits(o[1], k - 1, Append(acc, o[2]))
MaxBits == [i \in 1..255 |-> FBit(FOfInt(-1), 255 - i)]                \* the order minus one
Below(bs) == LET D == {i \in 1..255 : bs[i] # MaxBits[i]} IN D = {} \/ LET i == CHOOSE i \in D : \A j \in D : i <= j IN bs[i] < MaxBits[i]
ElemOf(bs) == FoldLeft(LAMBDA acc, b : FAdd(FAdd(acc, acc), FOfInt(b)), FZero, bs)
\* num elements from state s; numbers not below the order are skipped
RECURSIVE GrainSeq(_, _, _)
GrainSeq(s, num, acc) ==
  IF num = 0 THEN acc
  ELSE LET o == GrainBits(s, 255, <<>>) IN IF Below(o[2]) THEN GrainSeq(o[1], num - 1, Append(acc, ElemOf(o[2]))) ELSE GrainSeq(o[1], num, acc)
GrainPrefix(w, rf, rp, num) == GrainSeq(GrainSkip(GrainInit(w, rf, rp), 160), num, <<>>)
\* the same; TLC evaluates this one in Java (GrainLaw compares the two on a prefix)
GrainConstants(w, rf, rp, num) == GrainPrefix(w, rf, rp, num)

PartialOf(w) == CASE w = 3 -> 55 [] w = 5 -> 56 [] w = 9 -> 57
StdKeys(w) == GrainConstants(w, 8, PartialOf(w), w * (8 + PartialOf(w)))
GrainLaw(num) == \A w \in {3, 5, 9} : SubSeq(StdKeys(w), 1, num) = GrainPrefix(w, 8, PartialOf(w), num)
StdMds(w) == [i \in 1..w |-> [j \in 1..w |-> FInv(FOfInt(w + (i - 1) + (j - 1)))]]
\* parameters with fewer rounds use a prefix of the constants
StdParams(w, fb, fe, p) ==
  [w |-> w, fb |-> fb, fe |-> fe, p |-> p, keys |-> SubSeq(StdKeys(w), 1, w * (fb + fe + p)), mds |-> StdMds(w)]
\* arbitrary parameters
RandParams(tag, w, fb, fe, p) ==
  [w |-> w, fb |-> fb, fe |-> fe, p |-> p,
   keys |-> [i \in 1..(w * (fb + fe + p)) |-> FRand(<<tag, "key">>, i)],
   mds |-> [i \in 1..w |-> [j \in 1..w |-> FRand(<<tag, "mds", i>>, j)]]]

----------------------------------------------------------------------------
(* The permutation and the hash functions                                   *)
Sbox(t, x) == CASE t = "Cube" -> FPow(x, 3) [] t = "Quint" -> FPow(x, 5) [] t = "Inverse" -> FInv(x)

LinLayer(P, s) == [i \in 1..P.w |-> FDot(s, [j \in 1..P.w |-> P.mds[j][i]])]
AddKeys(P, r, s) == [i \in 1..P.w |-> FAdd(s[i], P.keys[r * P.w + i])]       \* r counts from 0
Full(P, r) == r < P.fb \/ r >= P.fb + P.p
Round(P, t, r, s) ==
  LET a == AddKeys(P, r, s)
      b == [i \in 1..P.w |-> IF Full(P, r) \/ i = P.w THEN Sbox(t, a[i]) ELSE a[i]]
  IN LinLayer(P, b)
Perm(P, t, s0) == FoldLeft(LAMBDA s, r : Round(P, t, r, s), s0, [r \in 1..(P.fb + P.p + P.fe) |-> r - 1])
\* S-box arguments that are zero (the inverse S-box circuit excludes them)
ZeroArg(P, t, s0) ==
  FoldLeft(LAMBDA acc, r : [s |-> Round(P, t, r, acc.s),
                            z |-> acc.z \/ LET a == AddKeys(P, r, acc.s) IN \E i \in 1..P.w : (Full(P, r) \/ i = P.w) /\ a[i] = "0"],
           [s |-> s0, z |-> FALSE], [r \in 1..(P.fb + P.p + P.fe) |-> r - 1]).z

\* first input zero, then the inputs; second output taken
Hash(P, t, xs) == Perm(P, t, <<FZero>> \o xs)[2]
=============================================================================
