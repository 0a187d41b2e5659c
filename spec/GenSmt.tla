------------------------------- MODULE GenSmt -------------------------------
(* Histories of the sparse Merkle trees: all short ones over a small alphabet (mode "exh"), long random ones (mode "rnd"). *)
EXTENDS SmtHist, TLC, Json, IOUtils

Seed == IOEnv.VERIF_SEED
\* <<"exh", arity, depth, updates>> or <<"rnd", arity, depth, std, fb, fe, p, operations>>
Shapes == ndJsonDeserialize(IOEnv.GEN_SHAPES)
R(k, t) == FRand(<<Seed, "smt", k>>, t)
Rnd(k, t, n) == FMod(R(k, t), n)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
ExhP(a) == RandParams(<<Seed, "smtp", a>>, a + 1, 0, 1, 0)
\* three indices: neighbours below one node, and one below another child of the root; the last child included
Idx(a, d) == LET z == [i \in 1..d |-> 0] IN
             {FieldOf(a, z), FieldOf(a, [z EXCEPT ![d] = a - 1]), FieldOf(a, [z EXCEPT ![1] = a \div 2])}
Vals == {FZero, FOfInt(7), FRand(<<Seed, "smt">>, "v")}
\* reads of every version at every index
Reads(a, d, n) == LET I == SetToSeq(Idx(a, d)) IN
  Cat([h \in 1..(n + 1) |-> Cat([i \in 1..Len(I) |-> <<<<"get", h - 1, I[i]>>>>])])

\* random histories
Digits(k, j, a, d, base) == \* crowded around a few indices
  LET b == [i \in 1..d |-> Rnd(k, <<"b", base, i>>, a)] IN
  IF Rnd(k, <<"near", j>>, 3) = 0 THEN b ELSE [b EXCEPT ![1 + Rnd(k, <<"lev", j>>, d)] = Rnd(k, <<"dig", j>>, a)]
Value(k, j) == CASE Rnd(k, <<"vk", j>>, 6) = 0 -> FZero [] Rnd(k, <<"vk", j>>, 6) = 1 -> FOfInt(-1) [] Rnd(k, <<"vk", j>>, 6) = 2 -> FOne [] OTHER -> R(k, <<"v", j>>)
Probe(k, j, P, a, vs, h, f) ==
  LET ver == vs[h + 1] d == ver.d x == DigitsOf(a, d, f)
      p == Path(P, SB, a, d, ver.m, x) v == Read(ver.m, x) r == RootOf(P, a, ver)
      lev == 1 + Rnd(k, <<"plev", j>>, d) pos == 1 + Rnd(k, <<"ppos", j>>, a - 1)
      other == RootOf(P, a, vs[1 + Rnd(k, <<"oh", j>>, Len(vs))])
      y == FieldOf(a, [x EXCEPT ![lev] = (x[lev] + 1 + Rnd(k, <<"pd", j>>, a - 1)) % a])
      bump(s, i) == [s EXCEPT ![i] = FAdd(s[i], FOne)]
      swap(s) == IF Len(s) < 2 THEN s ELSE [s EXCEPT ![1] = s[2], ![2] = s[1]]
      V(i, val, pp, rt) == <<"ver", h, i, val, pp, rt>>
  IN <<V(f, v, p, "none"), V(f, v, p, r), V(f, FAdd(v, FOne), p, "none"), V(f, FZero, p, r), V(y, v, p, "none"), V(y, v, p, r),
       V(f, v, p, other), V(f, v, p, FAdd(r, FOne)), V(f, v, [p EXCEPT ![lev] = bump(p[lev], pos)], "none"),
       V(f, v, [p EXCEPT ![lev] = swap(p[lev])], "none"), V(f, v, Reverse(p), r), V(f, v, SubSeq(p, 1, d - 1), "none"),
       V(f, v, Tail(p), r), V(f, v, Append(p, p[1]), "none"), V(f, v, <<p[1]>> \o p, r), V(f, v, <<>>, "none"), V(f, r, <<>>, r),
       V(f, Node(P, SB, PutAt(p[d], x[d], v)), SubSeq(p, 1, d - 1), r)>>
RECURSIVE Hist(_, _, _, _, _, _, _)
Hist(k, P, a, d, n, vs, ops) ==
  IF n = 0 THEN ops ELSE
  LET j == n
      c == Rnd(k, <<"op", j>>, 12)
      h == IF Rnd(k, <<"old", j>>, 3) = 0 THEN Rnd(k, <<"h", j>>, Len(vs)) ELSE Len(vs) - 1
      f == FieldOf(a, Digits(k, j, a, vs[h + 1].d, Rnd(k, <<"base", j>>, 3)))
      new == CASE vs = <<>> -> <<<<"new", d>>>>
               [] c = 0 /\ Len(vs) > 2 -> <<<<"new", 1 + Rnd(k, <<"nd", j>>, d + 1)>>>>
               [] c = 1 -> <<<<"lost", h, f>>, <<"lostupd", h, f, Value(k, j)>>, <<"val", h, f>>>>
               [] c \in {2, 3} -> <<<<"get", h, f>>>>
               [] c = 4 -> <<<<"val", h, f>>>>
               [] c = 5 -> Probe(k, j, P, a, vs, h, f)
               [] OTHER -> <<<<"upd", h, f, Value(k, j)>>, <<"get", h, f>>, <<"get", Len(vs), f>>>>
      st == RunOps(P, a, [vs |-> vs, out |-> <<>>], new)
  IN Hist(k, P, a, d, n - 1, st.vs, ops \o new)
RndCase(k) ==
  LET s == Shapes[k] a == s[2] d == s[3]
      P == IF s[4] = 1 THEN StdParams(a + 1, s[5], s[6], s[7]) ELSE RandParams(<<Seed, "smtr", k>>, a + 1, s[5], s[6], s[7])
  IN [a |-> a, P |-> P, std |-> s[4] = 1, ops |-> Hist(k, P, a, d, s[8], <<>>, <<>>)]

VARIABLES k, ops, vs, done
Sh == Shapes[k]
Init == /\ k \in 1..Len(Shapes) /\ done = FALSE
        /\ ops = IF Shapes[k][1] = "exh" THEN <<<<"new", Shapes[k][3]>>>> ELSE <<>>
        /\ vs = IF Shapes[k][1] = "exh" THEN <<[d |-> Shapes[k][3], m |-> EmptyMap]>> ELSE <<>>
Update(h, f, v) ==
  /\ Sh[1] = "exh" /\ Len(ops) <= Sh[4]
  /\ LET op == <<"upd", h, f, v>> IN ops' = Append(ops, op) /\ vs' = Step(ExhP(Sh[2]), Sh[2], vs, op).vs
  /\ UNCHANGED <<k, done>>
Finish ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED <<k, ops, vs>>
  /\ IF Sh[1] = "rnd" THEN PrintT("CASE " \o ToJson(RndCase(k)))
     ELSE /\ Len(ops) = Sh[4] + 1
          /\ PrintT("CASE " \o ToJson([a |-> Sh[2], P |-> ExhP(Sh[2]), std |-> FALSE, ops |-> ops \o Reads(Sh[2], Sh[3], Sh[4])]))
Next == Finish \/ (Sh[1] = "exh" /\ ~done /\ \E h \in 0..(Len(vs) - 1), f \in Idx(Sh[2], Sh[3]), v \in Vals : Update(h, f, v))
Spec == Init /\ [][Next]_<<k, ops, vs, done>>

\* the laws of the machine on the histories of up to two updates
Small == Sh[1] = "exh" /\ ~done /\ Len(vs) <= 3
ModelInv == Small => /\ RootLaw(ExhP(Sh[2]), Sh[2], vs)
                     /\ \A f \in Idx(Sh[2], Sh[3]) : \A g \in Idx(Sh[2], Sh[3]) :
                          PathLaw(ExhP(Sh[2]), Sh[2], vs[Len(vs)], DigitsOf(Sh[2], Sh[3], f), DigitsOf(Sh[2], Sh[3], g))
=============================================================================
