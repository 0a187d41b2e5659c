------------------------------ MODULE SmtHist ------------------------------
(***************************************************************************)
(* The sparse Merkle trees as a persistent authenticated map: a state      *)
(* machine over versions.  A version is a depth and a map; every operation *)
(* names the version it works on, so histories branch, go back to earlier  *)
(* roots and mix trees of different depths over one store.                 *)
(***************************************************************************)
EXTENDS Merkle

SB == "Quint"                              \* the trees' hash
NoZeros(m) == [x \in {x \in DOMAIN m : m[x] # FZero} |-> m[x]]
Write(m, x, v) == NoZeros([y \in DOMAIN m \cup {x} |-> IF y = x THEN v ELSE m[y]])
Read(m, x) == IF x \in DOMAIN m THEN m[x] ELSE FZero
EmptyMap == [x \in {} |-> FZero]
RootOf(P, a, ver) == Root(P, SB, a, ver.d, ver.m)

\* operations: <<"new", depth>>, <<"upd", version, index, value>>, <<"get", version, index>>, <<"val", version, index>> (no path asked),
\* <<"lost", version, index>> and <<"lostupd", version, index, value>> (the same through a root the store does not know),
\* <<"ver", version, index, value, path, root or "none">>
Step(P, a, vs, op) ==
  LET ver == vs[op[2] + 1] x == DigitsOf(a, ver.d, op[3]) IN
  CASE op[1] = "new" -> [vs |-> Append(vs, [d |-> op[2], m |-> EmptyMap]), out |-> [k |-> "new", root |-> RootOf(P, a, [d |-> op[2], m |-> EmptyMap])]]
    [] op[1] = "upd" -> LET nv == [ver EXCEPT !.m = Write(ver.m, x, op[4])] IN
                        [vs |-> Append(vs, nv), out |-> [k |-> "upd", root |-> RootOf(P, a, nv)]]
    [] op[1] = "get" -> [vs |-> vs, out |-> [k |-> "get", val |-> Read(ver.m, x), path |-> Path(P, SB, a, ver.d, ver.m, x)]]
    [] op[1] = "val" -> [vs |-> vs, out |-> [k |-> "val", val |-> Read(ver.m, x)]]
    [] op[1] \in {"lost", "lostupd"} -> [vs |-> vs, out |-> [k |-> "lost"]]
    [] op[1] = "ver" -> LET r == IF op[6] = "none" THEN RootOf(P, a, ver) ELSE op[6] IN
                        [vs |-> vs, out |-> [k |-> "ver", ok |-> Len(op[5]) = ver.d /\ Fold(P, SB, op[4], x, op[5]) = r]]
RECURSIVE RunOps(_, _, _, _)
RunOps(P, a, st, ops) == IF ops = <<>> THEN st ELSE
  LET s == Step(P, a, st.vs, Head(ops)) IN RunOps(P, a, [vs |-> s.vs, out |-> Append(st.out, s.out)], Tail(ops))
Expected(P, a, ops) == RunOps(P, a, [vs |-> <<>>, out |-> <<>>], ops).out

----------------------------------------------------------------------------
(* What the machine guarantees (checked on the generated histories)         *)
\* the root identifies the map, a path leads to the root for exactly its index and value
RootLaw(P, a, vs) == \A i, j \in 1..Len(vs) : vs[i].d = vs[j].d => (RootOf(P, a, vs[i]) = RootOf(P, a, vs[j]) <=> vs[i].m = vs[j].m)
PathLaw(P, a, ver, x, y) ==
  LET p == Path(P, SB, a, ver.d, ver.m, x) r == RootOf(P, a, ver) v == Read(ver.m, x) IN
  /\ Fold(P, SB, v, x, p) = r
  /\ Fold(P, SB, FAdd(v, FOne), x, p) # r
  /\ Fold(P, SB, v, y, p) = r => v = Read(ver.m, y)
=============================================================================
