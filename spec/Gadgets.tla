------------------------------ MODULE Gadgets ------------------------------
(***************************************************************************)
(* The statements the gadgets prove.  A statement is a record with the     *)
(* gadget's name g and its public values; a proof comes with NC(s)         *)
(* commitments, and Relation(s, C) says for which committed values C       *)
(* (in the order in which the commitments are handed over) the statement   *)
(* is true.  Values that only help the prover (differences, inverses,      *)
(* bitmaps) do not occur in the relations: whatever the prover commits to  *)
(* there must not matter.                                                  *)
(***************************************************************************)
EXTENDS Merkle, Mimc

Leq(a, b) == ~FLt(b, a)
\* v is a number below 2^n
Fits(v, n) == \A i \in n..254 : FBit(v, i) = 0
InSet(v, S) == \E i \in 1..Len(S) : S[i] = v
Arity(s) == IF s.g = "smt8" THEN 8 ELSE 4
IsSmt(s) == s.g \in {"smt4", "smt8"}
IsPos(s) == s.g \in {"pos2", "pos4", "pos8"}

NC(s) ==
  CASE s.g = "bound" -> 3 [] s.g = "nonzero" -> 2
    [] s.g = "setmem" -> 1 + Len(s.set) [] s.g = "setalt" -> 1 + Len(s.set) [] s.g = "nonmem" -> 1 + 2 * Len(s.set)
    [] s.g = "hamming" -> Len(s.new)
    [] s.g = "mimc" -> 2 [] s.g = "pos2" -> 2 [] s.g = "pos4" -> 4 [] s.g = "pos8" -> 8
    [] IsSmt(s) -> 2 + (Arity(s) - 1) * s.depth
    [] s.g = "rand" -> 1 + Len(s.indices) * (1 + 3 * s.depth)
    [] s.g \in {"posno", "bit"} -> 1 [] s.g = "two" -> 0 [] s.g = "vecsum" -> s.n [] s.g = "perm" -> s.P.w
\* where the value the statement is about is committed (gadgets with one such value)
ValuePos(s) == IF s.g = "setalt" THEN Len(s.set) + 1 ELSE 1

Differences(s, C) == Cardinality({i \in 1..Len(s.new) : C[i] # s.new[i]})
\* committed path: levels root first, each with arity - 1 siblings
Levels(a, flat) == [i \in 1..(Len(flat) \div (a - 1)) |-> SubSeq(flat, (a - 1) * (i - 1) + 1, (a - 1) * i)]
DMap(pairs) == LET D == {pairs[i][1] : i \in 1..Len(pairs)} IN      \* later pairs win
  [x \in D |-> pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = x /\ \A j \in (i + 1)..Len(pairs) : pairs[j][1] # x][2]]
\* the map of a tree given by <<index as field element, value>> pairs, keyed by digits
TreeMap(d, pairs) == LET m == DMap(pairs) IN
  [x \in {DigitsOf(4, d, f) : f \in DOMAIN m} |-> m[FieldOf(4, x)]]

\* circuits with the inverse S-box say nothing about inputs that present it a zero
Covered(s, xs) == s.sbox # "Inverse" \/ ~ZeroArg(s.P, s.sbox, xs)
RECURSIVE FoldCovered(_, _, _, _)
FoldCovered(s, cur, x, pathUp) ==     \* no zero argument anywhere on the way to the root; pathUp leaf level first
  pathUp = <<>> \/
  LET n == PutAt(pathUp[1], x[Len(x)], cur) IN
  /\ Covered(s, <<FZero>> \o n)
  /\ FoldCovered(s, Node(s.P, s.sbox, n), SubSeq(x, 1, Len(x) - 1), Tail(pathUp))

SmtRelation(s, C) ==
  LET a == Arity(s) p == SubSeq(C, 3, Len(C)) IN
  /\ Len(p) = (a - 1) * s.depth
  /\ InRange(a, s.depth, C[2])
  /\ s.image = Fold(s.P, s.sbox, C[1], DigitsOf(a, s.depth, C[2]), Levels(a, p))
\* C: original root, then per index its original value and authentication path
RandRelation(s, C) ==
  LET d == s.depth per == 1 + 3 * d
      val(i) == C[2 + (i - 1) * per]
      pth(i) == Levels(4, SubSeq(C, 3 + (i - 1) * per, 1 + i * per))
      dig(i) == DigitsOf(4, d, s.indices[i])
      restored == TreeMap(d, s.map \o [i \in 1..Len(s.indices) |-> <<s.indices[i], val(i)>>])
  IN /\ C[1] = Root(s.P, s.sbox, 4, d, restored)
     /\ \A i \in 1..Len(s.indices) : C[1] = Fold(s.P, s.sbox, val(i), dig(i), pth(i))

Relation(s, C) ==
  CASE s.g = "bound" -> /\ Leq(s.lower, C[1]) /\ Leq(C[1], s.upper)
                        /\ Fits(FSub(C[1], s.lower), s.bits) /\ Fits(FSub(s.upper, C[1]), s.bits)
    [] s.g = "nonzero" -> C[1] # FZero
    [] s.g \in {"setmem", "setalt"} -> InSet(C[ValuePos(s)], s.set)
    [] s.g = "nonmem" -> ~InSet(C[1], s.set)
    [] s.g = "hamming" -> Len(C) = Len(s.new) /\ s.count = FOfInt(Differences(s, C))
    [] s.g = "mimc" -> s.image = MimcHash(C[1], C[2], s.consts)
    [] IsPos(s) -> s.image = Hash(s.P, s.sbox, C)
    [] IsSmt(s) -> SmtRelation(s, C)
    [] s.g = "rand" -> RandRelation(s, C)
    [] s.g = "posno" -> Fits(C[1], s.bits)
    [] s.g = "bit" -> C[1] \in {FZero, FOne}
    [] s.g = "vecsum" -> FSum(C) = s.sum
    [] s.g = "perm" -> s.out = Perm(s.P, s.sbox, C)

\* public outputs of a statement: the values the prover's inputs are mapped to
NOut(s) == IF s.g = "perm" THEN s.P.w ELSE IF s.g = "mimc" \/ IsPos(s) \/ IsSmt(s) THEN 1 ELSE 0
WithOut(s, ys) == IF s.g = "perm" THEN [s EXCEPT !.out = ys] ELSE IF NOut(s) = 1 THEN [s EXCEPT !.image = ys[1]] ELSE s
\* the statement with all outputs zero, then with the k-th output one
OutProbes(s) == [k \in 1..(NOut(s) + 1) |-> WithOut(s, [i \in 1..NOut(s) |-> IF i = k - 1 THEN FOne ELSE FZero])]
=============================================================================
