------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* Sparse Merkle trees of arity 4 and 8 as pure functions of the map they  *)
(* store.  An index is the sequence of its base-a digits, most significant *)
(* first, one per level; a map is a function from indices to leaves, where *)
(* an absent index stands for the leaf zero.  A node is the Poseidon hash  *)
(* of its children.                                                        *)
(***************************************************************************)
EXTENDS Poseidon, FiniteSets

Node(P, t, children) == Hash(P, t, children)

\* e[k + 1] is the hash of an empty subtree of depth k
Empties(P, t, a, d) ==
  FoldLeft(LAMBDA e, k : Append(e, Node(P, t, [i \in 1..a |-> e[k]])), <<FZero>>, [k \in 1..d |-> k])

IsPrefix2(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Sub(_, _, _, _, _, _, _)
Sub(P, t, a, e, m, d, p) ==          \* the subtree at the node with digits p, d levels above the leaves
  IF d = 0 THEN (IF p \in DOMAIN m THEN m[p] ELSE FZero)
  ELSE IF ~\E x \in DOMAIN m : IsPrefix2(p, x) THEN e[d + 1]
  ELSE Node(P, t, [i \in 1..a |-> Sub(P, t, a, e, m, d - 1, Append(p, i - 1))])
Root(P, t, a, d, m) == Sub(P, t, a, Empties(P, t, a, d), m, d, <<>>)
\* siblings of the path to index x, from the root down
Path(P, t, a, d, m, x) ==
  LET e == Empties(P, t, a, d)
      sib(i) == SelectSeq([k \in 1..a |-> k - 1], LAMBDA k : k # x[i])
  IN [i \in 1..d |-> [j \in 1..(a - 1) |-> Sub(P, t, a, e, m, d - i, Append(SubSeq(x, 1, i - 1), sib(i)[j]))]]

PutAt(s, k, v) == SubSeq(s, 1, k) \o <<v>> \o SubSeq(s, k + 1, Len(s))    \* k counts from 0
\* root computed from a leaf and its siblings (root first)
Fold(P, t, leaf, x, path) ==
  FoldLeft(LAMBDA cur, i : Node(P, t, PutAt(path[i], x[i], cur)), leaf, [i \in 1..Len(x) |-> Len(x) + 1 - i])

\* index as a field element and back
FieldOf(a, x) == FoldLeft(LAMBDA acc, k : FAdd(FMul(acc, FOfInt(a)), FOfInt(k)), FZero, x)
DigitsOf(a, d, f) ==               \* the d least significant base-a digits
  LET b == IF a = 4 THEN 2 ELSE 3 IN
  [i \in 1..d |-> LET o == b * (d - i) IN FBit(f, o) + 2 * FBit(f, o + 1) + (IF b = 3 THEN 4 * FBit(f, o + 2) ELSE 0)]
InRange(a, d, f) == FieldOf(a, DigitsOf(a, d, f)) = f
=============================================================================
