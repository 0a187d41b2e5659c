------------------------------ MODULE LinComb ------------------------------
(***************************************************************************)
(* Linear combinations as values: a combination denotes the function that  *)
(* gives each variable its coefficient (absent: zero).  A program is a     *)
(* sequence of operations, each of which appends one combination to a list *)
(* of registers.  Operands are variables <<"V", kind, index>>, scalars     *)
(* <<"F", hex>> and registers <<"R", i>>.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Fr

VarOf(a) == <<a[2], a[3]>>
Zero == <<>>                                   \* the function with empty domain
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE FZero
Plus(f, g) == [x \in (DOMAIN f) \cup (DOMAIN g) |-> FAdd(At(f, x), At(g, x))]
Scale(c, f) == [x \in DOMAIN f |-> FMul(c, f[x])]
Minus(f) == [x \in DOMAIN f |-> FNeg(f[x])]
Unit(x, c) == [y \in {x} |-> c]
OneV == <<"1", 0>>
\* denotation of a list of terms <<variable, coefficient>>
OfTerms(ts) == FoldLeft(LAMBDA f, t : Plus(f, Unit(t[1], t[2])), Zero, ts)
Same(f, g) == \A x \in (DOMAIN f) \cup (DOMAIN g) : At(f, x) = At(g, x)

Den(a, regs) ==
  CASE a[1] = "V" -> Unit(VarOf(a), FOne)
    [] a[1] = "F" -> Unit(OneV, a[2])
    [] OTHER -> regs[a[2]]

\* what each operation of the library denotes
Apply(op, regs) ==
  LET a == Den(op.a, regs) b == Den(op.b, regs) IN
  CASE op.o \in {"from", "default", "simplify"} -> IF op.o = "default" THEN Zero ELSE a
    [] op.o \in {"iter", "iterref"} -> OfTerms(op.ts)
    [] op.o = "neg" -> Minus(a)
    [] op.o \in {"add", "addassign"} -> Plus(a, b)
    [] op.o = "sub" -> Plus(a, Minus(b))
    [] op.o \in {"mul", "mulref"} -> Scale(op.a[2], b)

Run(prog) == FoldLeft(LAMBDA rs, op : Append(rs, Apply(op, rs)), <<>>, prog)

\* Laws of the model, checked by TLC on every generated program
Laws(f, g, c) ==
  /\ Same(Plus(f, g), Plus(g, f)) /\ Same(Plus(f, Minus(f)), Zero)
  /\ Same(Scale(c, Plus(f, g)), Plus(Scale(c, f), Scale(c, g))) /\ Same(Minus(Minus(f)), f)
============================================================================
