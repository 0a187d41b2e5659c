------------------------------ MODULE Support ------------------------------
(***************************************************************************)
(* The supporting algebra: vector polynomials are functions from degrees   *)
(* to vectors, their inner product is the polynomial whose coefficient of  *)
(* degree k is the sum of the inner products of coefficients i and k - i.  *)
(* The store is a map from byte strings to values.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Fr

\* p, q: sequences of coefficient vectors, degree 0 first
Coeffs(p, q) ==
  [k \in 1..(Len(p) + Len(q) - 1) |->
    FSum([i \in 1..Len(p) |-> IF k - i + 1 >= 1 /\ k - i + 1 <= Len(q) THEN FDot(p[i], q[k - i + 1]) ELSE FZero])]
EvalScalar(c, x) == FSum([k \in 1..Len(c) |-> FMul(c[k], FPow(x, k - 1))])
EvalVector(p, x) == [j \in 1..Len(p[1]) |-> EvalScalar([k \in 1..Len(p) |-> p[k][j]], x)]
\* the model's own law: evaluating the product is the product of the evaluations
ProductLaw(p, q, x) == FDot(EvalVector(p, x), EvalVector(q, x)) = EvalScalar(Coeffs(p, q), x)

\* store
Absent == "absent"
StoreRun(hist) ==
  FoldLeft(LAMBDA s, op : IF op[1] = "ins"
                          THEN [m |-> [k \in (DOMAIN s.m) \cup {op[2]} |-> IF k = op[2] THEN op[3] ELSE s.m[k]], out |-> Append(s.out, "")]
                          ELSE [s EXCEPT !.out = Append(@, IF op[2] \in DOMAIN s.m THEN s.m[op[2]] ELSE Absent)],
           [m |-> <<>>, out |-> <<>>], hist)
============================================================================
