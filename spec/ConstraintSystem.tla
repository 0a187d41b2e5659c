------------------------ MODULE ConstraintSystem ------------------------
(***************************************************************************)
(* The constraint-system interface: what every operation of a program does *)
(* to the prover and to the verifier, and when the resulting system is     *)
(* satisfied.                                                              *)
(*                                                                         *)
(* A variable is <<kind, index>> with kind "C" (committed), "L", "R", "O"  *)
(* (left, right, output wire of a multiplier) or "1" (the constant one).   *)
(* A program term is <<h, c, ks>>: the h-th handle returned so far (0 is   *)
(* the constant one) times the coefficient c times the challenges with     *)
(* indices ks; a program linear combination is a sequence of terms.        *)
(*                                                                         *)
(* A program is a sequence of operations; "cb" registers a callback whose  *)
(* body runs in the second phase, after all first-phase operations, in     *)
(* registration order.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Fr

One == <<"1", 0>>

\* State of one side.  The verifier never reads or writes aL, aR, aO, v.
Empty == [n |-> 0, aL |-> <<>>, aR |-> <<>>, aO |-> <<>>, v |-> <<>>, m |-> 0,
          cons |-> <<>>, pend |-> -1, hs |-> <<>>, def |-> <<>>,
          ch |-> 0, log |-> <<>>, err |-> "", n1 |-> 0, two |-> FALSE]

----------------------------------------------------------------------------
(* Linear combinations                                                      *)
Coef(t, chals) ==
  FoldLeft(LAMBDA acc, k : FMul(acc, IF k <= Len(chals) THEN chals[k] ELSE "0"), t[2], t[3])

Resolve(lc, st, chals) ==
  [i \in 1..Len(lc) |-> <<IF lc[i][1] = 0 \/ lc[i][1] > Len(st.hs) THEN One ELSE st.hs[lc[i][1]], Coef(lc[i], chals)>>]

ValOf(st, x) ==
  CASE x[1] = "C" -> st.v[x[2] + 1]
    [] x[1] = "L" -> st.aL[x[2] + 1]
    [] x[1] = "R" -> st.aR[x[2] + 1]
    [] x[1] = "O" -> st.aO[x[2] + 1]
    [] OTHER -> FOne

EvalLC(rlc, st) == FSum([i \in 1..Len(rlc) |-> FMul(rlc[i][2], ValOf(st, rlc[i][1]))])

----------------------------------------------------------------------------
(* Operations.  An entry of the log holds what the operation returned.      *)
Ret(st, hs, e) == [st EXCEPT !.hs = @ \o hs, !.log = Append(@, [h |-> hs, e |-> e, err |-> ""])]
Fail(st, k) == [st EXCEPT !.err = k, !.log = Append(@, [h |-> <<>>, e |-> <<>>, err |-> k])]

\* prover: a fresh multiplier with given wires
PGate(st, l, r, o) ==
  [st EXCEPT !.n = @ + 1, !.aL = Append(@, l), !.aR = Append(@, r), !.aO = Append(@, o)]
VGate(st) == [st EXCEPT !.n = @ + 1]
Trip(i) == <<<<"L", i>>, <<"R", i>>, <<"O", i>>>>
AddCons(st, lc) == [st EXCEPT !.cons = Append(@, lc)]

PAlloc(st, val) ==
  IF st.pend = -1
  THEN [st |-> [PGate(st, val, "0", "0") EXCEPT !.pend = st.n], x |-> <<"L", st.n>>]
  ELSE LET i == st.pend IN
       [st |-> [st EXCEPT !.pend = -1, !.aR[i + 1] = val, !.aO[i + 1] = FMul(st.aL[i + 1], val)],
        x |-> <<"R", i>>]
VAlloc(st) ==
  IF st.pend = -1
  THEN [st |-> [VGate(st) EXCEPT !.pend = st.n], x |-> <<"L", st.n>>]
  ELSE [st |-> [st EXCEPT !.pend = -1], x |-> <<"R", st.pend>>]
SingleRet(x) == IF x[1] = "R" THEN <<x, <<"O", x[2]>>>> ELSE <<x>>

\* Constraints a multiplication of two combinations adds
MulCons(st, l, r, i) ==
  AddCons(AddCons(st, Append(l, <<<<"L", i>>, FNeg(FOne)>>)), Append(r, <<<<"R", i>>, FNeg(FOne)>>))

\* Operations common to both phases, prover side
PBase(st, op, chals) ==
  CASE op.op = "commit" ->
         Ret([st EXCEPT !.v = Append(@, op.v), !.m = @ + 1], <<<<"C", st.m>>>>, <<>>)
    [] op.op = "mul" ->
         LET l == Resolve(op.l, st, chals) r == Resolve(op.r, st, chals)
             lv == EvalLC(l, st) rv == EvalLC(r, st)
         IN Ret(MulCons(PGate(st, lv, rv, FMul(lv, rv)), l, r, st.n), Trip(st.n), <<>>)
    [] op.op = "allocmul" ->
         LET lv == EvalLC(Resolve(op.l, st, chals), st) rv == EvalLC(Resolve(op.r, st, chals), st)
         IN Ret(PGate(st, lv, rv, FMul(lv, rv)), Trip(st.n), <<>>)
    [] op.op = "alloc" ->
         LET p == PAlloc(st, EvalLC(Resolve(op.a, st, chals), st)) IN Ret(p.st, <<p.x>>, <<>>)
    [] op.op = "single" ->
         LET p == PAlloc(st, EvalLC(Resolve(op.a, st, chals), st)) IN Ret(p.st, SingleRet(p.x), <<>>)
    [] op.op \in {"allocnone", "singlenone", "allocmulnone"} -> Fail(st, "MissingAssignment")
    \* the same with a caller who catches the error and goes on: nothing has happened
    [] op.op \in {"tryalloc", "trysingle", "trymul"} -> [st EXCEPT !.log = Append(@, [h |-> <<>>, e |-> <<>>, err |-> "MissingAssignment"])]
    \* a callback that returns an error of its own, on this side only
    [] op.op = "stopP" -> Fail(st, "GadgetError")
    [] op.op = "constrain" -> Ret(AddCons(st, Resolve(op.lc, st, chals)), <<>>, <<>>)
    [] op.op = "eval" -> Ret(st, <<>>, <<EvalLC(Resolve(op.lc, st, chals), st)>>)
    [] op.op = "chal" -> Ret([st EXCEPT !.ch = @ + 1], <<>>, IF st.ch < Len(chals) THEN <<chals[st.ch + 1]>> ELSE <<>>)
    [] OTHER -> Ret(st, <<>>, <<>>)

\* ... and verifier side: no values anywhere
VBase(st, op, chals) ==
  CASE op.op = "commit" -> Ret([st EXCEPT !.m = @ + 1], <<<<"C", st.m>>>>, <<>>)
    [] op.op = "mul" ->
         Ret(MulCons(VGate(st), Resolve(op.l, st, chals), Resolve(op.r, st, chals), st.n), Trip(st.n), <<>>)
    [] op.op \in {"allocmul", "allocmulnone"} -> Ret(VGate(st), Trip(st.n), <<>>)
    [] op.op \in {"alloc", "allocnone"} -> LET p == VAlloc(st) IN Ret(p.st, <<p.x>>, <<>>)
    [] op.op \in {"single", "singlenone"} -> LET p == VAlloc(st) IN Ret(p.st, SingleRet(p.x), <<>>)
    [] op.op = "stopV" -> Fail(st, "GadgetError")
    [] op.op = "constrain" -> Ret(AddCons(st, Resolve(op.lc, st, chals)), <<>>, <<>>)
    [] op.op = "chal" -> Ret([st EXCEPT !.ch = @ + 1], <<>>, IF st.ch < Len(chals) THEN <<chals[st.ch + 1]>> ELSE <<>>)
    [] OTHER -> Ret(st, <<>>, <<>>)          \* eval returns nothing

Base(side, st, op, chals) == IF side = "P" THEN PBase(st, op, chals) ELSE VBase(st, op, chals)

\* First phase: a callback is only registered
Step1(side, st, op, chals) ==
  IF st.err # "" THEN st
  ELSE IF op.op = "cb" THEN Ret([st EXCEPT !.def = Append(@, op.body)], <<>>, <<>>)
  ELSE Base(side, st, op, chals)

\* Start of the second phase: a half-assigned multiplier stays as it is
EndPhase1(st) == [st EXCEPT !.pend = -1, !.n1 = st.n, !.two = Len(st.def) > 0]

\* Second phase: a nested registration runs at once
RECURSIVE Step2(_, _, _, _)
Step2(side, st, op, chals) ==
  IF st.err # "" THEN st
  ELSE IF op.op = "cb"
       THEN FoldLeft(LAMBDA s, o : Step2(side, s, o, chals), Ret(st, <<>>, <<>>), op.body)
       ELSE Base(side, st, op, chals)

RunBodies(side, st, chals) ==
  FoldLeft(LAMBDA s, body : FoldLeft(LAMBDA t, o : Step2(side, t, o, chals), s, body), st, st.def)

Phase1(side, prog, chals) == FoldLeft(LAMBDA s, o : Step1(side, s, o, chals), Empty, prog)
\* The whole program
Run(side, prog, chals) ==
  LET a == Phase1(side, prog, chals) IN
  IF a.err # "" THEN a ELSE RunBodies(side, EndPhase1(a), chals)

----------------------------------------------------------------------------
(* Meaning                                                                  *)
GatesHold(st) == \A i \in 1..st.n : FMul(st.aL[i], st.aR[i]) = st.aO[i]
VarOk(st, x) == IF x[1] = "C" THEN x[2] < st.m ELSE IF x[1] = "1" THEN TRUE ELSE x[2] < st.n
HandlesOk(st) == \A i \in 1..Len(st.hs) : VarOk(st, st.hs[i])
\* constraints cons are satisfied by the wires of the prover state st, extended by the zero
\* multipliers the protocol pads with
ValPadded(st, x) == IF VarOk(st, x) THEN ValOf(st, x) ELSE FZero
Sat(cons, st) ==
  \A q \in 1..Len(cons) :
     FSum([i \in 1..Len(cons[q]) |-> FMul(cons[q][i][2], ValPadded(st, cons[q][i][1]))]) = FZero

\* Coefficient of variable x in z-weighted sum of all constraints, as a function on the
\* variables that occur (absent = zero)
Weights(cons, z) ==
  LET pw == FoldLeft(LAMBDA acc, c : Append(acc, FMul(z, acc[Len(acc)])), <<z>>, cons)
      put(f, x, c) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = FAdd(@, c)]
                      ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN c ELSE f[y]]
      one(f, q) == FoldLeft(LAMBDA g, t : put(g, t[1], FMul(pw[q], t[2])), f, cons[q])
  IN FoldLeft(one, [y \in {} |-> FZero], [q \in 1..Len(cons) |-> q])
NonZero(f) == LET D == {x \in DOMAIN f : f[x] # FZero} IN [x \in D |-> f[x]]
\* weights of all wires and committed variables (the constant is left out)
WireWeights(cons, z) ==
  LET w == NonZero(Weights(cons, z)) D == DOMAIN w \ {One} IN [x \in D |-> w[x]]

Pow2(n) == CHOOSE k \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096} :
              k >= n /\ \A j \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096} : j >= n => j >= k

\* Challenge structure of a program: what the transcript sees of the second phase
RECURSIVE ChalLabels(_)
ChalLabels(body) ==
  FoldLeft(LAMBDA acc, o : IF o.op = "chal" THEN Append(acc, o.lab)
                           ELSE IF o.op = "cb" THEN acc \o ChalLabels(o.body) ELSE acc, <<>>, body)
AllChalLabels(prog) ==
  FoldLeft(LAMBDA acc, o : IF o.op = "cb" THEN acc \o ChalLabels(o.body) ELSE acc, <<>>, prog)
=========================================================================
