------------------------------ MODULE Adversary ------------------------------
(***************************************************************************)
(* An adversary against the constraint system a real verifier builds for a *)
(* gadget.  Input (JUDGE_IN): attacks, each with the statement, the        *)
(* committed values the adversary wants accepted (fix), and the circuit    *)
(* extracted from the verifier.  The machine looks for values of all other *)
(* commitments, wires and public outputs that satisfy the circuit:         *)
(*                                                                         *)
(*   Propagate   a multiplication with a known factor is a linear equation *)
(*   Zero        a product known to be zero has a zero factor: branch      *)
(*   Guess       otherwise try a value for a factor                        *)
(*   Win         no multiplication left: every solution of the linear      *)
(*               system is an assignment; it is printed with the truth     *)
(*               value of the statement                                    *)
(*                                                                         *)
(* A winning assignment of a false statement is only a candidate: the      *)
(* harness forges a proof from it and asks the real verifier.              *)
(*                                                                         *)
(* Variables of the linear system: 1..m committed values, then left,       *)
(* right, output of every multiplier, then the public outputs.             *)
(***************************************************************************)
EXTENDS Gadgets, Lin, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Seed == IOEnv.VERIF_SEED
At(k) == Trace[k].c
Ci(k) == Trace[k].o
Usable(k) == "err" \in DOMAIN Ci(k) /\ Ci(k).err = ""
Top(k) == Ci(k).m + 3 * Ci(k).n + Ci(k).np
Wire(k, j, side) == Ci(k).m + 3 * (j - 1) + side
Eq(x, v) == <<<<<<x, FOne>>>>, FNeg(v)>>                       \* x = v
Rows(k) ==
  Ci(k).cons
  \o [i \in 1..Len(At(k).fix) |-> Eq(Ci(k).pos[At(k).fix[i][1]], At(k).fix[i][2])]
  \o [i \in 1..Len(Ci(k).statics) |-> Eq(Ci(k).statics[i][1], Ci(k).statics[i][2])]
FixOk(k) == \A i \in 1..Len(At(k).fix) : Ci(k).pos[At(k).fix[i][1]] # 0

RECURSIVE Propagate(_, _, _)
Propagate(k, hd, op) ==
  IF hd = "bad" THEN <<"bad", {}>> ELSE
  LET known(j) == LinConst(hd, Wire(k, j, 1)) # "?" \/ LinConst(hd, Wire(k, j, 2)) # "?"
      ready == {j \in op : known(j)}
      row(j) == LET l == LinConst(hd, Wire(k, j, 1)) r == LinConst(hd, Wire(k, j, 2)) IN
                IF l # "?" THEN <<<<<<Wire(k, j, 3), FOne>>, <<Wire(k, j, 2), FNeg(l)>>>>, FZero>>
                ELSE <<<<<<Wire(k, j, 3), FOne>>, <<Wire(k, j, 1), FNeg(r)>>>>, FZero>>
      js == SetToSeq(ready)
  IN IF ready = {} THEN <<hd, op>>
     ELSE Propagate(k, LinAdd(hd, [i \in 1..Len(js) |-> row(js[i])]), op \ ready)

VARIABLES k, h, open, disc, st
vars == <<k, h, open, disc, st>>
Init ==
  /\ k \in {i \in 1..Len(Trace) : Usable(i) /\ FixOk(i)}
  /\ LET p == Propagate(k, LinAdd("e", Rows(k)), 1..Ci(k).n) IN h = p[1] /\ open = p[2]
  /\ disc = 0 /\ st = "run"

Go(row) == LET p == Propagate(k, LinAdd(h, <<row>>), open) IN h' = p[1] /\ open' = p[2]
Least(S) == CHOOSE j \in S : \A i \in S : j <= i
HasHint == Len(Ci(k).hints) = Ci(k).n /\ Ci(k).n > 0
Hint(j, side) == Ci(k).hints[j][side]
Rand(t) == FRand(<<Seed, "adv", k>>, t)

\* products known to be zero, in circuit order
ZeroProducts == {j \in open : LinConst(h, Wire(k, j, 3)) = FZero}
Zero ==
  /\ ZeroProducts # {}
  /\ LET j == Least(ZeroProducts) IN
     \E side \in {1, 2} :
       LET off == HasHint /\ Hint(j, side) # FZero /\ Hint(j, 3 - side) = FZero IN
       /\ ~off \/ At(k).lim < 0 \/ disc < At(k).lim
       /\ disc' = disc + (IF off THEN 1 ELSE 0)
       /\ Go(Eq(Wire(k, j, side), FZero))
Guess ==
  /\ ZeroProducts = {}
  /\ LET j == Least(open) IN
     \E c \in {<<1, Rand(<<"g", j>>)>>} \cup (IF HasHint THEN {<<1, Hint(j, 1)>>, <<2, Hint(j, 2)>>} ELSE {})
              \cup (IF Ci(k).n <= 12 THEN {<<1, FZero>>, <<1, FOne>>, <<2, FZero>>, <<2, Rand(<<"r", j>>)>>} ELSE {}) :
       LET off == HasHint /\ c[2] # Hint(j, c[1]) IN
       /\ ~off \/ At(k).lim < 0 \/ disc < At(k).lim
       /\ disc' = disc + (IF off THEN 1 ELSE 0)
       /\ Go(Eq(Wire(k, j, c[1]), c[2]))

Solution ==
  LET ps == LinParams(h, Top(k)) IN LinEval(h, Top(k), [i \in 1..Len(ps) |-> Rand(<<"p", ps[i]>>)])
Result(x) ==
  LET s == WithOut(At(k).s, [i \in 1..Ci(k).np |-> x[Ci(k).m + 3 * Ci(k).n + i]])
      s1 == IF Ci(k).np = 0 THEN At(k).s ELSE s
      C == [i \in 1..At(k).nc |-> IF Ci(k).pos[i] = 0 THEN FZero ELSE x[Ci(k).pos[i]]]
  IN [id |-> At(k).id, name |-> At(k).name, s |-> s1, nc |-> At(k).nc, rel |-> Relation(s1, C),
      vals |-> SubSeq(x, 1, Ci(k).m),
      wires |-> [j \in 1..Ci(k).n |-> <<x[Wire(k, j, 1)], x[Wire(k, j, 2)]>>]]
Sound(x) == \A j \in 1..Ci(k).n : FMul(x[Wire(k, j, 1)], x[Wire(k, j, 2)]) = x[Wire(k, j, 3)]

Step == st = "run" /\ h # "bad" /\ open # {} /\ (Zero \/ Guess) /\ UNCHANGED <<k, st>>
Win == /\ st = "run" /\ h # "bad" /\ open = {} /\ st' = "won" /\ UNCHANGED <<k, h, open, disc>>
       /\ LET x == Solution IN
          /\ Assert(Sound(x), "the adversary's assignment does not satisfy the multiplications")
          /\ PrintT("CASE " \o ToJson(Result(x)))
Next == Step \/ Win
Spec == Init /\ [][Next]_vars
==============================================================================
