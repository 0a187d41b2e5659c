----------------------------- MODULE GenGadget -----------------------------
(***************************************************************************)
(* Cases for the gadgets: honest and naive runs of the public wrappers     *)
(* with the truth value of the statement, and attacks for the Adversary.   *)
(* A shape (GEN_SHAPES) names a gadget and its parameters.                 *)
(***************************************************************************)
EXTENDS Gadgets, TLC, Json, IOUtils

Seed == IOEnv.VERIF_SEED
Shapes == ndJsonDeserialize(IOEnv.GEN_SHAPES)
R(k, t) == FRand(<<Seed, "gad", k>>, t)
Rnd(k, t, n) == FMod(R(k, t), n)
Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Pow2(n) == FPow(FOfInt(2), n)
U64Max == FSub(Pow2(64), FOne)
IsU64(v) == Fits(v, 64)
Dedup(s) == FoldLeft(LAMBDA acc, v : IF InSet(v, acc) THEN acc ELSE Append(acc, v), <<>>, s)

\* an honest (or naively dishonest) run; C are the committed values the statement speaks about
Run(s, w, C, must, rands, rpos, alts) ==
  [kind |-> "honest", s |-> s, w |-> w, rel |-> Relation(s, C), must |-> must, nc |-> NC(s), rands |-> rands, rpos |-> rpos,
   alts |-> alts, altrel |-> [i \in 1..Len(alts) |-> Relation(alts[i], C)]]
\* an attack: fix lists <<number of the commitment, value>>
Attack(name, s, nc, fix, free, lim, hs, hw) ==
  [kind |-> "attack", name |-> name, s |-> s, nc |-> nc, pubs |-> IF free THEN OutProbes(s) ELSE <<s>>, fix |-> fix, lim |-> lim,
   hs |-> hs, hw |-> hw]
None == "none"

\* gadgets about one committed value
CVal(s, v) == [i \in 1..NC(s) |-> IF i = ValuePos(s) THEN v ELSE FZero]
RunVal(s, v, r, alts) == LET C == CVal(s, v) IN Run(s, [vals |-> <<v>>], C, Relation(s, C), r, ValuePos(s) - 1, alts)
RunVals(k, s, vs, alts) == Cat([i \in 1..Len(vs) |->
  <<RunVal(s, vs[i], IF i % 2 = 1 THEN <<>> ELSE <<R(k, <<"bl", i>>)>>, IF Relation(s, CVal(s, vs[i])) THEN alts ELSE <<>>)>>])
AttackVals(s, vs, lim) == [i \in 1..Len(vs) |->
  Attack("value " \o vs[i], s, NC(s), <<<<ValuePos(s), vs[i]>>>>, FALSE, lim, None, None)]

----------------------------------------------------------------------------
\* <<"bound", lower, upper, bits>> (numbers in hex)
BoundCases(k, sh) ==
  LET lo == sh[2] up == sh[3] n == sh[4]
      s == [g |-> "bound", lower |-> lo, upper |-> up, bits |-> n]
      S(l, u, b) == [g |-> "bound", lower |-> l, upper |-> u, bits |-> b]
      wid == FSub(up, lo)
      in0 == <<lo, up, FAdd(lo, FOne), FSub(up, FOne), FAdd(lo, FOfInt(IF FLt(FOfInt(3), wid) THEN 3 ELSE 0)),
               FAdd(lo, FSub(Pow2(n), FOne)), FAdd(lo, Pow2(n)), FSub(up, FSub(Pow2(n), FOne)), FSub(up, Pow2(n)), FZero, U64Max,
               FSub(lo, FOne), FAdd(up, FOne)>>
      vs == SelectSeq(Dedup(in0), IsU64)
      alts == SelectSeq(<<S(FAdd(lo, FOne), up, n), S(lo, FSub(up, FOne), n), S(lo, FAdd(up, FOne), n), S(lo, up, n + 1), S(up, lo, n)>>,
                        LAMBDA a : IsU64(a.lower) /\ IsU64(a.upper) /\ a # s)
      bad == SelectSeq(Dedup(<<FSub(lo, FOne), FAdd(up, FOne), FAdd(up, Pow2(n)), FSub(lo, Pow2(n)), FAdd(lo, Pow2(n)), FSub(up, Pow2(n)),
                               FNeg(lo), FNeg(up), FZero, U64Max, Pow2(64), FAdd(Pow2(64), lo), R(k, "v"), FAdd(up, FOfInt(2)), FSub(lo, FOfInt(2))>>),
                       LAMBDA v : ~Relation(s, CVal(s, v)))
      ctl == SelectSeq(<<lo, up>>, LAMBDA v : Relation(s, CVal(s, v)))
      small == 2 * n <= 8
      \* assignments of the bits to start from: honest ones of a statement that is true for v
      hinted == Cat([i \in 1..Len(bad) |-> LET v == bad[i] IN IF ~IsU64(v) THEN <<>> ELSE
                  Cat(<<IF Leq(lo, v) THEN <<Attack("value " \o v \o " above", s, 3, <<<<1, v>>>>, FALSE, 1, S(lo, v, n), [vals |-> <<v>>])>> ELSE <<>>,
                        IF Leq(v, up) THEN <<Attack("value " \o v \o " below", s, 3, <<<<1, v>>>>, FALSE, 1, S(v, up, n), [vals |-> <<v>>])>> ELSE <<>>>>)])
      ctlh == [i \in 1..Len(ctl) |-> Attack("control", s, 3, <<<<1, ctl[i]>>>>, FALSE, 0, s, [vals |-> <<ctl[i]>>])]
  IN RunVals(k, s, vs, IF Len(vs) > 0 THEN alts ELSE <<>>)
     \o (IF FLt(up, lo) THEN <<>> ELSE IF small THEN AttackVals(s, bad \o ctl, -1) ELSE SubSeq(hinted, 1, IF Len(hinted) < 4 THEN Len(hinted) ELSE 4) \o ctlh)

\* <<"posno", bits>>, <<"bit">>, <<"vecsum", n>>
PosnoCases(k, sh) ==
  LET n == sh[2] s == [g |-> "posno", bits |-> n]
      low(m) == FSum([i \in 1..m |-> IF FBit(R(k, "low"), i - 1) = 1 THEN Pow2(i - 1) ELSE FZero])
      vs == Dedup(<<FZero, FOne, FSub(Pow2(n), FOne), Pow2(n), FAdd(Pow2(n), FOne), FOfInt(-1), R(k, "v"), low(n), FAdd(low(n), Pow2(n))>>
                  \o (IF n > 0 THEN <<Pow2(n - 1), FAdd(Pow2(n - 1), FOne)>> ELSE <<>>))
  IN Cat([i \in 1..Len(vs) |-> <<RunVal(s, vs[i], <<>>, <<>>)>>]) 
     \o (IF n <= 6 THEN AttackVals(s, vs, -1)
         ELSE LET far == <<FAdd(low(n), Pow2(n)), FSub(low(n), Pow2(n)), FAdd(low(n), Pow2(n - 1)), FOfInt(-1), Pow2(n)>>   \* along the bits of low(n)
              IN [i \in 1..Len(far) |-> Attack("value " \o far[i], s, 1, <<<<1, far[i]>>>>, FALSE, 0, s, [vals |-> <<low(n)>>])])
BitCases(k, sh) ==
  LET s == [g |-> "bit"] vs == <<FZero, FOne, FOfInt(2), FOfInt(-1), R(k, "v")>>
  IN Cat([i \in 1..Len(vs) |-> <<RunVal(s, vs[i], <<>>, <<>>)>>]) \o AttackVals(s, vs, -1)
VecsumCases(k, sh) ==
  LET n == sh[2] vals == [i \in 1..n |-> FOfInt(Rnd(k, i, 1000))]
      sums == <<FSum(vals), FAdd(FSum(vals), FOne), FZero, U64Max, FAdd(FSum(vals), Pow2(8)), FAdd(FSum(vals), Pow2(16)), FAdd(FSum(vals), Pow2(32)), FAdd(FSum(vals), Pow2(63))>>
      ns == Len(sums)
      st(m) == [g |-> "vecsum", n |-> n, sum |-> m]
  IN [i \in 1..ns |-> Run(st(sums[i]), [vals |-> vals], vals, Relation(st(sums[i]), vals), <<>>, 0, <<st(sums[1 + (i % ns)])>>)]
     \o [i \in 1..ns |-> Attack("sum", st(sums[i]), n, [j \in 1..n |-> <<j, vals[j]>>], FALSE, -1, None, None)]

NonzeroCases(k, sh) ==
  LET s == [g |-> "nonzero"] IN
  RunVals(k, s, <<FOne, FOfInt(-1), R(k, 1), R(k, 2), FZero, FZero, Pow2(64), Pow2(254)>>, <<>>) \o AttackVals(s, <<FZero, R(k, 3), FOne>>, -1)

\* <<gadget, n, variant>>: 0 random, 1 with zero and neighbours, 2 a duplicate (where the gadget admits it)
SetOf(k, n, v, big) ==
  LET e(i) == IF big THEN R(k, <<"e", i>>) ELSE IF v = 1 THEN FOfInt(i - 1) ELSE IF v = 3 /\ i = n THEN U64Max ELSE IF v = 4 THEN FAdd(Pow2(<<63, 62, 33, 32, 31, 53, 16, 8>>[1 + ((i - 1) % 8)]), FOfInt(Rnd(k, <<"e", i>>, 100))) ELSE FOfInt(Rnd(k, <<"e", i>>, 1000000) * 3 + 5)
  IN [i \in 1..n |-> IF v = 1 /\ big /\ i <= 2 THEN FOfInt(i - 1) ELSE IF v = 2 /\ i = n /\ n > 1 THEN e(1) ELSE e(i)]
Distinct(S) == Cardinality(Elems(S)) = Len(S)
NonMembers(k, S) ==
  LET n == Len(S)
      prod == FoldLeft(LAMBDA a, b : FMul(a, b), FOne, S)
      c == <<FZero, FOne, R(k, "nm"), FSum(S), prod, FNeg(FSum(S))>>
           \o (IF n > 0 THEN <<FAdd(S[1], FOne), FNeg(S[1]), FSub(S[n], FOne), FMul(S[n], FOfInt(2)), FInv(S[n]),
               FAdd(S[1], Pow2(32)), FAdd(S[n], Pow2(64)), FSub(S[1], Pow2(32)), FSub(S[n], Pow2(64))>> ELSE <<>>)
           \o (IF n > 1 THEN <<FAdd(S[1], S[2]), FSub(S[1], S[2]), FMul(S[1], S[n])>> ELSE <<>>)
  IN SelectSeq(Dedup(c), LAMBDA v : ~InSet(v, S))
SetCases(k, sh) ==
  LET g == sh[1] n == sh[2] S == SetOf(k, n, sh[3], g # "setalt")
      s == [g |-> g, set |-> S]
      non0 == NonMembers(k, S)
      non == IF g = "setalt" THEN SelectSeq(non0, IsU64) ELSE non0
      mem == Dedup(IF n > 6 THEN <<S[1], S[2], S[n \div 2], S[n - 1], S[n]>> ELSE S)
      repl(i, v) == [s EXCEPT !.set = [S EXCEPT ![i] = v]]
      alts == IF n = 0 THEN <<>> ELSE [i \in 1..(IF n > 3 THEN 3 ELSE n) |-> repl(i, IF IsU64(FAdd(S[i], FOfInt(7))) \/ g # "setalt" THEN FAdd(S[i], FOfInt(7)) ELSE FSub(S[i], FOfInt(7)))]
              \o (IF g = "setalt" THEN <<>> ELSE <<[s EXCEPT !.set = SubSeq(S, 1, n - 1)], [s EXCEPT !.set = Tail(S)], [s EXCEPT !.set = Append(S, R(k, "more"))]>>)
      run == IF g = "setalt" /\ ~Distinct(S) THEN <<>> ELSE RunVals(k, s, mem \o SubSeq(non, 1, IF Len(non) > 5 THEN 5 ELSE Len(non)), alts)
      target == (IF g = "nonmem" THEN Dedup(S) ELSE mem) \o (IF n > 20 THEN SubSeq(non0, 1, 4) ELSE non0)
      att == IF g = "setalt" /\ n > 5
             THEN Cat([i \in 1..(IF n > 20 THEN 4 ELSE Len(non0)) |-> <<Attack("value " \o non0[i], s, n + 1, <<<<n + 1, non0[i]>>>>, FALSE, 1, s, [vals |-> <<S[1]>>])>>])
             ELSE AttackVals(s, target, -1)
  IN run \o att

\* <<"hamming", n, d, variant>>
HammingCases(k, sh) ==
  LET n == sh[2] d == sh[3]
      new == [i \in 1..n |-> IF sh[4] = 1 THEN FZero ELSE R(k, <<"n", i>>)]
      diff(i) == IF sh[4] = 2 THEN FOfInt(IF i % 2 = 0 THEN 1 ELSE -1) ELSE R(k, <<"d", i>>)
      start == Rnd(k, "start", IF n = 0 THEN 1 ELSE n)
      differs(i) == ((i + n - 1 - start) % n) < d
      C == [i \in 1..n |-> IF differs(i) THEN FAdd(new[i], diff(i)) ELSE new[i]]
      st(c) == [g |-> "hamming", new |-> new, count |-> c]
      counts == Dedup([i \in 1..(n + 2) |-> FOfInt(i - 1)] \o <<U64Max>>)
      near == SelectSeq(counts, LAMBDA c : c = FOfInt(d) \/ c = FOfInt(d + 1) \/ c = FOfInt(d - 1) \/ c = FZero \/ c = FOfInt(n))
              \o [i \in 1..4 |-> FAdd(FOfInt(d), Pow2(<<8, 16, 32, 63>>[i]))]
      alts == Cat(<<[i \in 1..Len(near) |-> st(near[i])], IF n = 0 THEN <<>> ELSE <<[st(FOfInt(d)) EXCEPT !.new = [new EXCEPT ![1] = FAdd(C[1], R(k, "z"))]],
                       [st(FOfInt(d)) EXCEPT !.new = SubSeq(new, 1, n - 1)], [st(FOfInt(d)) EXCEPT !.new = Append(new, FZero)]>>>>)
      \* vectors of different lengths
      odd == IF n = 0 THEN <<>> ELSE <<[Run(st(FOfInt(d)), [vals |-> SubSeq(C, 1, n - 1)], C, FALSE, <<>>, 0, <<>>) EXCEPT !.rel = FALSE],
               [Run(st(FOfInt(d)), [vals |-> Append(C, FZero)], C, FALSE, <<>>, 0, <<>>) EXCEPT !.rel = FALSE]>>
      all == IF n <= 5 THEN counts \o SubSeq(near, Len(near) - 3, Len(near)) ELSE near
  IN [i \in 1..Len(near) |-> Run(st(near[i]), [vals |-> C], C, near[i] = FOfInt(d), <<>>, 0, IF near[i] = FOfInt(d) THEN alts ELSE <<>>)] \o odd
     \o [i \in 1..Len(all) |-> Attack("count " \o all[i], st(all[i]), n, [j \in 1..n |-> <<j, C[j]>>], FALSE, -1, None, None)]

\* hashes: <<"mimc", rounds, inputs>>, <<"pos" or "perm", width, std, fb, fe, p, sbox, inputs>>
Edge(k, t, v) == CASE v = 0 -> R(k, t) [] v = 1 -> FZero [] v = 2 -> FOne [] v = 3 -> FOfInt(-1) [] OTHER -> R(k, <<t, v>>)
HashRuns(k, s0, xs, v) ==      \* s0 with its outputs still to be set
  LET img == CASE s0.g = "mimc" -> <<MimcHash(xs[1], xs[2], s0.consts)>> [] IsPos(s0) -> <<Hash(s0.P, s0.sbox, xs)>>
               [] s0.g = "perm" -> Perm(s0.P, s0.sbox, xs)
      s == WithOut(s0, img)
      m == Len(img)
      off(i) == WithOut(s0, [img EXCEPT ![i] = FAdd(img[i], IF v % 2 = 0 THEN FOne ELSE R(k, <<"off", v>>))])
      must == s0.g = "mimc" \/ Covered(s0, IF s0.g = "perm" THEN xs ELSE <<FZero>> \o xs)
      rands == IF v % 2 = 0 \/ s0.g = "perm" THEN <<>> ELSE [i \in 1..Len(xs) |-> R(k, <<"bl", v, i>>)]
      outs == IF m > 3 THEN <<1, 2, m>> ELSE [i \in 1..m |-> i]
  IN <<Run(s, [vals |-> xs], xs, must, rands, 0, [i \in 1..Len(outs) |-> off(outs[i])]),
       Run(off(1), [vals |-> xs], xs, FALSE, rands, 0, <<>>),
       Attack("output", s, Len(xs), [i \in 1..Len(xs) |-> <<i, xs[i]>>], TRUE, -1, None, None)>>
MimcCases(k, sh) ==
  LET s == [g |-> "mimc", consts |-> [i \in 1..sh[2] |-> R(k, <<"c", i>>)], image |-> FZero] IN
  Cat([v \in 1..sh[3] |-> HashRuns(k, s, <<Edge(k, <<"x", v>>, v - 1), Edge(k, <<"y", v>>, (v * 7) % 5)>>, v)])
ParamsOf(k, w, std, fb, fe, p) == IF std = 1 THEN StdParams(w, fb, fe, p) ELSE RandParams(<<Seed, "gp", k>>, w, fb, fe, p)
PosCases(k, sh) ==
  LET w == sh[2] P == ParamsOf(k, w, sh[3], sh[4], sh[5], sh[6])
      perm == sh[1] = "perm"
      base == [g |-> IF perm THEN "perm" ELSE CASE w = 3 -> "pos2" [] w = 5 -> "pos4" [] w = 9 -> "pos8", P |-> P, std |-> sh[3] = 1, sbox |-> sh[7]]
      s == IF perm THEN base @@ [out |-> [i \in 1..w |-> FZero]] ELSE base @@ [image |-> FZero]
      n == IF perm THEN w ELSE w - 1
  IN Cat([v \in 1..sh[8] |-> HashRuns(k, s, [i \in 1..n |-> Edge(k, <<"x", v, i>>, IF v = 2 THEN 1 ELSE IF v = 3 THEN i % 4 ELSE 0)], v)])

\* <<"smt", arity, depth, std, fb, fe, p, sbox, leaves, queries>>
SmtCases(k, sh) ==
  LET a == sh[2] d == sh[3] t == sh[8] P == ParamsOf(k, a + 1, sh[4], sh[5], sh[6], sh[7])
      digit(q) == [i \in 1..d |-> Rnd(k, <<"dig", q, i>>, a)]
      \* leaves crowd around the queried indices: same index, a sibling, far away
      at(j) == LET x == digit(1 + (j % sh[10])) IN IF j <= sh[10] THEN digit(j) ELSE [x EXCEPT ![1 + (j % d)] = (x[1 + (j % d)] + 1 + (j \div d)) % a]
      D == {at(j) : j \in 1..sh[9]}
      map == [x \in D |-> R(k, <<"leaf", x>>)]
      root == Root(P, t, a, d, map)
      g == IF a = 4 THEN "smt4" ELSE "smt8"
      s == [g |-> g, P |-> P, std |-> sh[4] = 1, sbox |-> t, depth |-> d, image |-> root]
      Flat(p) == Cat(p)
      wit(leaf, idx, p) == [vals |-> <<leaf, idx>>, path |-> p]
      fixAll(leaf, idx, p) == LET f == <<leaf, idx>> \o Flat(p) IN [i \in 1..Len(f) |-> <<i, f[i]>>]
      query(q) ==
        LET x == digit(q) leaf == IF x \in D THEN map[x] ELSE FZero idx == FieldOf(a, x) p == Path(P, t, a, d, map, x)
            C(l, ix, pp) == <<l, ix>> \o Flat(pp)
            rands == IF q % 2 = 0 THEN <<>> ELSE <<R(k, <<"b1", q>>), R(k, <<"b2", q>>)>>
            y == [x EXCEPT ![1 + (q % d)] = (x[1 + (q % d)] + 1) % a]
            far == FAdd(idx, FPow(FOfInt(a), d))
            hi == FieldOf(a, [x EXCEPT ![1] = (x[1] + 1) % a])       \* another index at the top level
            lev == 1 + (q % d)
            p2 == [p EXCEPT ![lev] = [p[lev] EXCEPT ![1] = FAdd(p[lev][1], FOne)]]
            p3 == [p EXCEPT ![lev] = Reverse(p[lev])]
            \* the node above the leaf as a leaf of a shallower tree, the leaf as a node of a deeper one
            up == Node(P, t, PutAt(p[d], x[d], leaf))
            kids == [i \in 1..(a - 1) |-> R(k, <<"kid", q, i>>)]
            deepLeaf == R(k, <<"deep", q>>)
            deepRoot == Fold(P, t, Node(P, t, PutAt(kids, 0, deepLeaf)), x, p)
            must == \/ t # "Inverse" \/ FoldCovered(s, leaf, x, Reverse(p))
            R1(st, l, ix, pp, m, r, alts) == Run(st, wit(l, ix, pp), C(l, ix, pp), m, r, 0, alts)
            bits == IF a = 4 THEN 2 * d ELSE 3 * d
            exh == bits <= 6
            lim == IF exh THEN -1 ELSE 1
            hs == IF exh THEN None ELSE s
            hw == IF exh THEN None ELSE wit(leaf, idx, p)
        IN <<R1(s, leaf, idx, p, must, rands, <<[s EXCEPT !.image = FAdd(root, FOne)], [s EXCEPT !.depth = d + 1], [s EXCEPT !.depth = d - 1]>>),
             R1(s, FAdd(leaf, FOne), idx, p, FALSE, rands, <<>>),
             R1(s, leaf, FieldOf(a, y), p, FALSE, rands, <<>>),
             R1(s, leaf, far, p, FALSE, rands, <<>>),
             R1(s, leaf, idx, p2, FALSE, rands, <<>>),
             R1([s EXCEPT !.image = R(k, "rr")], leaf, idx, p, FALSE, rands, <<>>),
             R1(s, leaf, hi, p, FALSE, rands, <<>>)>>
           \o (IF d > 12 THEN <<>> ELSE
           <<Attack("output", s, NC(s), fixAll(leaf, idx, p), TRUE, lim, hs, hw),
             Attack("index", s, NC(s), <<<<1, leaf>>>> \o SubSeq(fixAll(leaf, idx, p), 3, NC(s)), FALSE, lim, hs, hw),
             Attack("far index", s, NC(s), fixAll(leaf, far, p), FALSE, lim, hs, hw),
             Attack("far output", s, NC(s), fixAll(leaf, far, p), TRUE, lim, hs, hw),
             Attack("negative index", s, NC(s), fixAll(leaf, FOfInt(-1), p), TRUE, lim, hs, hw),
             Attack("other leaf", s, NC(s), <<<<1, R(k, "other")>>>> \o SubSeq(fixAll(leaf, idx, p), 3, NC(s)), FALSE, lim, hs, hw),
             Attack("deep", [s EXCEPT !.image = deepRoot], NC(s) + a - 1,
                    <<<<1, deepLeaf>>>> \o [i \in 1..((a - 1) * (d + 1)) |-> <<i + 2, Flat(Append(p, kids))[i]>>], FALSE, lim, None, None)>>)
           \o (IF d <= 12 \/ d > 40 \/ q > 1 THEN <<>> ELSE       \* deep trees: only along the honest bits
               LET levs == SetToSeq({1, 2, 16, 17, 32, 33, 64, 65, d \div 2, d - 1, d} \cap 1..d)
                   other(i) == FieldOf(a, [x EXCEPT ![i] = (x[i] + 1) % a])
               IN [i \in 1..Len(levs) |-> Attack("digit", s, NC(s), fixAll(leaf, other(levs[i]), p), FALSE, 0, s, wit(leaf, idx, p))]
                  \o <<Attack("far index", s, NC(s), fixAll(leaf, far, p), FALSE, 0, s, wit(leaf, idx, p)),
                       Attack("far output", s, NC(s), fixAll(leaf, far, p), TRUE, 0, s, wit(leaf, idx, p)),
                       Attack("output", s, NC(s), fixAll(leaf, idx, p), TRUE, 0, s, wit(leaf, idx, p))>>)
           \o (IF p3 = p THEN <<>> ELSE <<R1(s, leaf, idx, p3, FALSE, rands, <<>>)>>)
           \o (IF d = 1 \/ d > 12 THEN <<>> ELSE
               <<Attack("shallow", s, NC(s) - (a - 1), <<<<1, up>>>> \o [i \in 1..((a - 1) * (d - 1)) |-> <<i + 2, Flat(p)[i]>>], FALSE, lim, None, None)>>)
  IN Cat([q \in 1..sh[10] |-> query(q)])

\* <<"rand", depth, std, fb, fe, p, leaves, modified>>
RandCases(k, sh) ==
  LET d == sh[2] t == "Quint" P == ParamsOf(k, 5, sh[3], sh[4], sh[5], sh[6]) n == sh[7] md == sh[8]
      size == 4 ^ d
      start == Rnd(k, "start", size)
      idx(i) == FOfInt((start + (i - 1) * (IF n < size THEN 1 + Rnd(k, "stride", 2) * 2 ELSE 1)) % size)
      orig == [i \in 1..n |-> <<idx(i), R(k, <<"o", i>>)>>]
      ind == [i \in 1..md |-> idx(1 + ((i * 5) % n))]
      uniq == Distinct(ind)
      dist == orig \o [i \in 1..md |-> <<ind[i], R(k, <<"m", i>>)>>]
      s == [g |-> "rand", P |-> P, std |-> sh[3] = 1, sbox |-> t, depth |-> d, map |-> dist, indices |-> ind]
      om == TreeMap(d, orig)
      vals(pairs) == LET m == DMap(pairs) IN [i \in 1..md |-> m[ind[i]]]
      \* what an honest prover commits to for the original tree `pairs`
      C(pairs) == LET m == TreeMap(d, pairs) IN
        <<Root(P, t, 4, d, m)>> \o Cat([i \in 1..md |-> LET x == DigitsOf(4, d, ind[i]) IN <<m[x]>> \o Cat(Path(P, t, 4, d, m, x))])
      w(pairs) == [vals |-> <<>>, map |-> pairs, orig |-> vals(pairs)]
      C0 == C(orig)
      \* another original: differs outside the indices / at an index
      outside == LET F == {idx(i) : i \in 1..n} \ Elems(ind) IN IF F = {} THEN <<>> ELSE Append(orig, <<CHOOSE f \in F : TRUE, R(k, "x")>>)
      empty == LET F == {FOfInt(i) : i \in 0..(size - 1)} \ {idx(i) : i \in 1..n} IN
               IF size > 300 \/ F = {} THEN <<>> ELSE Append(orig, <<CHOOSE f \in F : TRUE, R(k, "y")>>)
      at == Append(orig, <<ind[md], R(k, "z")>>)
      alt(f) == [s EXCEPT !.map = f]
      alts == <<alt(Append(dist, <<idx(1), R(k, "a1")>>)), alt(Append(dist, <<ind[1], R(k, "a2")>>)),
                [s EXCEPT !.indices = [ind EXCEPT ![1] = FOfInt(FMod(FAdd(ind[1], FOne), size))]], [s EXCEPT !.indices = SubSeq(ind, 1, md - 1)]>>
      run(pairs, must, al) == Run(s, w(pairs), C(pairs), must, <<>>, 0, al)
      nc == NC(s)
      fix(c, skip) == SelectSeq([i \in 1..nc |-> <<i, c[i]>>], LAMBDA e : e[1] \notin skip)
      per == 1 + 3 * d
      bump(c, i) == [c EXCEPT ![i] = FAdd(c[i], FOne)]
      att(name, c, skip) == Attack(name, s, nc, fix(c, skip), FALSE, 2, None, None)
  IN IF ~uniq THEN <<>> ELSE
     <<run(orig, TRUE, alts), run(at, TRUE, <<>>), att("control", C0, {}), att("root", bump(C0, 1), {})>>
     \o (IF outside = <<>> THEN <<>> ELSE <<run(outside, FALSE, <<>>), att("other leaf", C(outside), {}), att("other leaf, free root", C(outside), {1})>>)
     \o (IF empty = <<>> THEN <<>> ELSE <<run(empty, FALSE, <<>>), att("extra leaf", C(empty), {}), att("extra leaf, free root", C(empty), {1})>>)
     \o Cat([i \in 1..md |-> LET b == 2 + (i - 1) * per IN
          <<att("value", bump(C0, b), {}), att("value, free root", bump(C0, b), {1}), att("value, free path", bump(C0, b), {1} \cup (b + 1)..(b + 3 * d)),
            att("first sibling", bump(C0, b + 1), {}), att("last sibling", bump(C0, b + 3 * d), {}), att("last sibling, free root", bump(C0, b + 3 * d), {1})>>])

----------------------------------------------------------------------------
Cases(k) ==
  LET sh == Shapes[k] IN
  CASE sh[1] = "bound" -> BoundCases(k, sh) [] sh[1] = "posno" -> PosnoCases(k, sh) [] sh[1] = "bit" -> BitCases(k, sh)
    [] sh[1] = "vecsum" -> VecsumCases(k, sh)
    [] sh[1] = "nonzero" -> NonzeroCases(k, sh) [] sh[1] \in {"setmem", "setalt", "nonmem"} -> SetCases(k, sh)
    [] sh[1] = "hamming" -> HammingCases(k, sh) [] sh[1] = "mimc" -> MimcCases(k, sh)
    [] sh[1] \in {"pos", "perm"} -> PosCases(k, sh) [] sh[1] = "smt" -> SmtCases(k, sh) [] sh[1] = "rand" -> RandCases(k, sh)

VARIABLES k, done
Init == k \in 1..Len(Shapes) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET cs == Cases(k) IN \A i \in 1..Len(cs) : PrintT("CASE " \o ToJson(cs[i]))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
