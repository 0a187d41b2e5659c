-------------------------- MODULE ProgMutations --------------------------
(***************************************************************************)
(* Systematic alterations of a program and of its verification context.    *)
(* Every alteration yields a well-formed program; whether a proof should   *)
(* still be accepted is decided by module Judgement, not here.             *)
(***************************************************************************)
EXTENDS ConstraintSystem

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
ReplaceAtI(s, i, x) == [s EXCEPT ![i] = x]
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAfter(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))

BumpTerm(lc, k, d) == [lc EXCEPT ![k] = <<@[1], FAdd(@[2], d), @[3]>>]
BumpLC(lc, d) == [k \in 1..Len(lc) |-> BumpTerm(lc, k, d)] \o <<Append(lc, <<0, d, <<>> >>)>>

\* all versions of one operation that differ in one coefficient or constant by d
OpBumps(op, d) ==
  CASE op.op = "constrain" -> MapSeq(LAMBDA x : [op EXCEPT !.lc = x], BumpLC(op.lc, d))
    [] op.op = "mul" -> MapSeq(LAMBDA x : [op EXCEPT !.l = x], BumpLC(op.l, d))
                        \o MapSeq(LAMBDA x : [op EXCEPT !.r = x], BumpLC(op.r, d))
    [] OTHER -> <<>>

\* versions of a list of operations with one alteration, bodies included
RECURSIVE ListBumps(_, _)
ListBumps(ops, d) ==
  Flatten([i \in 1..Len(ops) |->
     IF ops[i].op = "cb"
     THEN MapSeq(LAMBDA b : ReplaceAtI(ops, i, [ops[i] EXCEPT !.body = b]), ListBumps(ops[i].body, d))
     ELSE MapSeq(LAMBDA o : ReplaceAtI(ops, i, o), OpBumps(ops[i], d))])

\* versions with one constraint dropped, or doubled, or a trivial one inserted before it
RECURSIVE ListStructure(_)
ListStructure(ops) ==
  Flatten([i \in 1..Len(ops) |->
     IF ops[i].op = "cb"
     THEN MapSeq(LAMBDA b : ReplaceAtI(ops, i, [ops[i] EXCEPT !.body = b]), ListStructure(ops[i].body))
     ELSE IF ops[i].op = "constrain"
          THEN <<DropAt(ops, i), InsertAfter(ops, i, ops[i]),
                 InsertAfter(ops, i - 1, [op |-> "constrain", lc |-> <<>>])>>
     ELSE <<>>])

\* versions with a challenge dropped/relabelled (only where no later term uses challenges)
RECURSIVE UsesChal(_)
UsesChal(ops) ==
  \E i \in 1..Len(ops) :
     LET o == ops[i] lcs == IF o.op = "constrain" \/ o.op = "eval" THEN <<o.lc>>
                            ELSE IF o.op \in {"mul", "allocmul"} THEN <<o.l, o.r>>
                            ELSE IF o.op \in {"alloc", "single"} THEN <<o.a>> ELSE <<>>
     IN \/ \E j \in 1..Len(lcs) : \E k \in 1..Len(lcs[j]) : Len(lcs[j][k][3]) > 0
        \/ o.op = "cb" /\ UsesChal(o.body)
RECURSIVE ListChal(_)
ListChal(ops) ==
  Flatten([i \in 1..Len(ops) |->
     IF ops[i].op = "cb"
     THEN MapSeq(LAMBDA b : ReplaceAtI(ops, i, [ops[i] EXCEPT !.body = b]), ListChal(ops[i].body))
     ELSE IF ops[i].op = "chal"
          THEN <<ReplaceAtI(ops, i, [ops[i] EXCEPT !.lab = (@ + 1) % 3]),
                 InsertAfter(ops, i, ops[i])>>
     ELSE <<>>])

\* a multiplier more at the end of the first phase / in the second phase; a callback more
ExtraGate(prog) ==
  <<Append(prog, [op |-> "allocmulnone"]),
    Append(prog, [op |-> "cb", body |-> <<[op |-> "allocmulnone"]>>]),
    Append(prog, [op |-> "cb", body |-> <<>>])>>
\* a first-phase trailing gate moved to the second phase and vice versa
LastIsGate(prog) == Len(prog) > 0 /\ prog[Len(prog)].op \in {"allocmul", "mul"}
MoveGate(prog) ==
  IF LastIsGate(prog)
  THEN LET rest == SubSeq(prog, 1, Len(prog) - 1)
           cbs == {i \in 1..Len(rest) : rest[i].op = "cb"}
           at == IF cbs = {} THEN Len(rest) ELSE (CHOOSE i \in cbs : \A j \in cbs : i <= j) - 1
       IN <<InsertAfter(rest, at, [op |-> "cb", body |-> <<prog[Len(prog)]>>])>>
  ELSE <<>>
\* swap adjacent constraints
SwapCons(ops) ==
  IF Len(ops) < 2 THEN <<>> ELSE Flatten([i \in 1..(Len(ops) - 1) |->
     IF ops[i].op = "constrain" /\ ops[i + 1].op = "constrain"
     THEN <<[ops EXCEPT ![i] = ops[i + 1], ![i + 1] = ops[i]]>> ELSE <<>>])

\* cancelling pairs: one constraint gains a term and another loses it.  Each constraint changes,
\* their sum does not.  Paths list the constraints in the order in which they are enforced.
ConsPaths(prog) ==
  LET at(ops, pre) == LET s == SelectSeq([i \in 1..Len(ops) |-> i], LAMBDA i : ops[i].op = "constrain")
                      IN [j \in 1..Len(s) |-> Append(pre, s[j])]
      cbs == SelectSeq([i \in 1..Len(prog) |-> i], LAMBDA i : prog[i].op = "cb")
  IN at(prog, <<>>) \o Flatten([j \in 1..Len(cbs) |-> at(prog[cbs[j]].body, <<cbs[j]>>)])
AddTermAt(prog, path, t) ==
  IF Len(path) = 1 THEN [prog EXCEPT ![path[1]] = [@ EXCEPT !.lc = Append(@, t)]]
  ELSE [prog EXCEPT ![path[1]] = [@ EXCEPT !.body = [@ EXCEPT ![path[2]] = [@ EXCEPT !.lc = Append(@, t)]]]]
PairVariant(prog, a, b, h, d) ==
  AddTermAt(AddTermAt(prog, a, <<h, d, <<>> >>), b, <<h, FNeg(d), <<>> >>)

ProgVariants(prog, d) ==
  MapSeq(LAMBDA p : [prog |-> p],
         ListBumps(prog, d) \o ListStructure(prog) \o ListChal(prog)
         \o ExtraGate(prog) \o MoveGate(prog) \o SwapCons(prog))

\* commitment alterations for m commitments: one shifted by d, two swapped
CommVariants(m, d) ==
  [i \in 1..m |-> [comm |-> [j \in 1..m |-> <<j - 1, IF j = i THEN d ELSE "0">>]]]
  \o [i \in 1..(IF m >= 2 THEN m - 1 ELSE 0) |->
        [comm |-> [j \in 1..m |-> <<IF j = i THEN i ELSE IF j = i + 1 THEN i - 1 ELSE j - 1, "0">>]]]

\* generator alterations: every position below the padded size, and positions beyond it
EnvVariants(e, N) ==
  LET mk(k, i) == [env |-> [e EXCEPT !.mut = << <<k, i>> >>]] IN
  <<mk("g", 0), mk("h", 0)>>
  \o [i \in 1..N |-> mk("G", i - 1)] \o [i \in 1..N |-> mk("H", i - 1)]
LabelVariants == <<[label |-> "t1"], [label |-> ""]>>
==========================================================================
