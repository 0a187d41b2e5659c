--------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* Systems of linear equations over Fr.  A row <<terms, c>> with terms a   *)
(* sequence of <<variable number, coefficient>> stands for the equation    *)
(*        sum of coefficient * variable + c = 0.                           *)
(* A system is named by a string: "e" is the empty system, LinAdd(h, rows) *)
(* the system h extended by rows, "bad" if that has no solution.  TLC      *)
(* evaluates these operators with java/VerifOverrides.java, which keeps    *)
(* every system in solved (reduced row echelon) form.                      *)
(***************************************************************************)
LOCAL INSTANCE TLC
LOCAL Undefined == Assert(FALSE, "Lin operator evaluated without its TLC override")

LinAdd(h, rows) == Undefined
LinConst(h, x) == Undefined      \* the value the system forces for variable x, or "?"
LinFree(h, x) == Undefined       \* the parameters variable x depends on
LinParams(h, n) == Undefined     \* the parameters among variables 1..n (variables not determined by others)
LinEval(h, n, vals) == Undefined \* values of variables 1..n when the parameters take the values vals
=============================================================================
