------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* Several gadgets in one proof.  The state is the list of steps both      *)
(* sides will take on one constraint system:                               *)
(*   - op    an operation of the constraint system itself; "half" leaves a *)
(*           multiplier with only its left input assigned                  *)
(*   - wrap  a gadget through its prove_ / verify_ functions, which make   *)
(*           their own commitments                                         *)
(*   - pool  a gadget on variables committed by the caller; with share the *)
(*           variable of an equal value committed earlier is used again    *)
(*   - statics the committed public constants of the hash gadgets, each    *)
(*           constrained to its documented value (off by d)                *)
(*   - cb    a callback of the second phase that uses gadgets              *)
(* A proof must be accepted exactly when every statement is true of its    *)
(* committed values (AllTrue), and never when the verifier speaks about    *)
(* other statements, other commitments or another order.                   *)
(***************************************************************************)
EXTENDS Gadgets, TLC, Json, IOUtils

Mode == IOEnv.GEN_MODE            \* "exh": all sequences of MaxSteps gadgets; "sim": random walks
MaxSteps == atoi(IOEnv.GEN_STEPS)
Runs == atoi(IOEnv.GEN_RUNS)
Seed == IOEnv.VERIF_SEED

VARIABLES steps, open, body, fin, rnd
\* open: a callback is being written to body; fin: finished
vars == <<steps, open, body, fin, rnd>>
Sim == Mode = "sim"
cnt == Len(steps) + Len(body)

K(t) == <<Seed, "cmp", rnd, Len(steps), Len(body), t>>
R(t) == FRand(K(t), 0)
Rnd(t, n) == FMod(R(t), n)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* values gadgets may share: a small number, a field element, zero, one
X(i) == LET f(j) == FRand(<<Seed, "cmpx", rnd>>, j) IN
        CASE i = 1 -> FOfInt(5 + FMod(f(1), 11)) [] i = 2 -> f(2) [] i = 3 -> FZero [] i = 4 -> FOne
Pm(w) == RandParams(<<Seed, "cmpp", w>>, w, 0, 1, 1)
Sb == <<"Quint", "Cube", "Inverse">>[1 + Rnd("sbox", 3)]

Kinds == <<"bound", "nonzero", "setmem", "setalt", "nonmem", "hamming", "mimc", "pos2", "pos4", "pos8", "perm", "posno", "bit", "vecsum", "smt4", "smt8">>

G(s, w, C, alt) == [s |-> s, w |-> w, C |-> C, alt |-> alt]
V1(v) == [vals |-> <<v>>]
Hashes(s0, xs, ok) ==
  LET y == IF s0.g = "mimc" THEN MimcHash(xs[1], xs[2], s0.consts) ELSE Hash(s0.P, s0.sbox, xs)
      s == [s0 EXCEPT !.image = IF ok THEN y ELSE FAdd(y, FOne)]
  IN G(s, [vals |-> xs], xs, <<[s EXCEPT !.image = FAdd(s.image, FOfInt(2))]>>)
Smt(a, ok) ==
  LET d == 1 + Rnd("d", 2) P == Pm(a + 1) t == "Quint"
      x == [i \in 1..d |-> Rnd(<<"x", i>>, a)]
      p == [i \in 1..d |-> [j \in 1..(a - 1) |-> R(<<"p", i, j>>)]]
      leaf == X(2)
      y == Fold(P, t, leaf, x, p)
      s == [g |-> IF a = 4 THEN "smt4" ELSE "smt8", P |-> P, std |-> FALSE, sbox |-> t, depth |-> d, image |-> IF ok THEN y ELSE FAdd(y, FOne)]
  IN G(s, [vals |-> <<leaf, FieldOf(a, x)>>, path |-> p], <<leaf, FieldOf(a, x)>> \o Cat(p), <<[s EXCEPT !.image = FAdd(s.image, FOfInt(2))]>>)

\* a statement of gadget g about committed values C, true or false as asked; w is the witness of its prover
Gadget(g, ok) ==
  CASE g = "bound" ->
         LET v == X(1) lo == IF ok THEN FSub(v, FOfInt(Rnd("lo", 4))) ELSE FAdd(v, FOne) up == FAdd(v, FOfInt(1 + Rnd("up", 3)))
             s == [g |-> g, lower |-> lo, upper |-> up, bits |-> 3]
         IN G(s, V1(v), <<v, FSub(v, lo), FSub(up, v)>>, <<[s EXCEPT !.lower = FAdd(v, FOne)], [s EXCEPT !.upper = FAdd(up, FOfInt(8))]>>)
    [] g = "nonzero" -> LET v == IF ok THEN X(1 + Rnd("v", 2)) ELSE FZero IN G([g |-> g], V1(v), <<v, FInv(v)>>, <<>>)
    [] g = "setmem" ->
         LET v == X(1 + Rnd("v", 4)) S == [i \in 1..(1 + Rnd("n", 3)) |-> R(<<"e", i>>)]
             T == IF ok THEN [S EXCEPT ![1 + Rnd("at", Len(S))] = v] ELSE S
         IN G([g |-> g, set |-> T], V1(v), <<v>> \o [i \in 1..Len(T) |-> FSub(T[i], v)], <<[g |-> g, set |-> [i \in 1..Len(T) |-> FAdd(T[i], R("sh"))]]>>)
    [] g = "nonmem" ->
         LET v == X(1 + Rnd("v", 4)) S == [i \in 1..(1 + Rnd("n", 3)) |-> R(<<"e", i>>)]
             T == IF ok THEN S ELSE [S EXCEPT ![1 + Rnd("at", Len(S))] = v]
         IN G([g |-> g, set |-> T], V1(v), <<v>> \o Cat([i \in 1..Len(T) |-> <<FSub(T[i], v), FInv(FSub(T[i], v))>>]),
              <<[g |-> g, set |-> [T EXCEPT ![1] = v]]>>)
    [] g = "setalt" ->
         LET v == X(<<1, 3, 4>>[1 + Rnd("v", 3)]) n == 1 + Rnd("n", 3) S == [i \in 1..n |-> FOfInt(20 + 7 * i)] at == 1 + Rnd("at", n)
             T == IF ok THEN [S EXCEPT ![at] = v] ELSE S
         IN G([g |-> g, set |-> T], V1(v), [i \in 1..n |-> IF i = at THEN FOne ELSE FZero] \o <<v>>,
              <<[g |-> g, set |-> [i \in 1..n |-> FAdd(T[i], FOfInt(100))]]>>)
    [] g = "hamming" ->
         LET n == 1 + Rnd("n", 3) C == [i \in 1..n |-> X(1 + Rnd(<<"c", i>>, 4))]
             new == [i \in 1..n |-> IF Rnd(<<"h", i>>, 2) = 0 THEN C[i] ELSE R(<<"n", i>>)]
             d == Cardinality({i \in 1..n : C[i] # new[i]})
             s == [g |-> g, new |-> new, count |-> FOfInt(IF ok THEN d ELSE d + 1)]
         IN G(s, [vals |-> C], C, <<[s EXCEPT !.count = FOfInt(d + 2)]>>)
    [] g = "mimc" -> Hashes([g |-> g, consts |-> [i \in 1..2 |-> R(<<"k", i>>)], image |-> FZero], <<X(2), X(1)>>, ok)
    [] g \in {"pos2", "pos4", "pos8"} ->
         LET w == CASE g = "pos2" -> 3 [] g = "pos4" -> 5 [] g = "pos8" -> 9 IN
         Hashes([g |-> g, P |-> Pm(w), std |-> FALSE, sbox |-> Sb, image |-> FZero], [i \in 1..(w - 1) |-> X(1 + Rnd(<<"c", i>>, 4))], ok)
    [] g = "perm" ->
         LET xs == [i \in 1..3 |-> X(1 + Rnd(<<"c", i>>, 4))] t == Sb y == Perm(Pm(3), t, xs)
             s == [g |-> g, P |-> Pm(3), std |-> FALSE, sbox |-> t, out |-> IF ok THEN y ELSE [y EXCEPT ![1 + Rnd("o", 3)] = R("o")]]
         IN G(s, [vals |-> xs], xs, <<[s EXCEPT !.out = [@ EXCEPT ![3] = R("o3")]]>>)
    [] g = "posno" -> LET s == [g |-> g, bits |-> IF ok THEN 4 ELSE 2] v == X(1) IN G(s, V1(v), <<v>>, <<[s EXCEPT !.bits = 1]>>)
    [] g = "bit" -> LET v == IF ok THEN X(3 + Rnd("v", 2)) ELSE X(1 + Rnd("v", 2)) IN G([g |-> g], V1(v), <<v>>, <<>>)
    [] g = "vecsum" ->
         LET C == [i \in 1..(1 + Rnd("n", 3)) |-> X(<<1, 3, 4>>[1 + Rnd(<<"c", i>>, 3)])]
             s == [g |-> g, n |-> Len(C), sum |-> IF ok THEN FSum(C) ELSE FAdd(FSum(C), FOne)]
         IN G(s, [vals |-> C], C, <<[s EXCEPT !.sum = FAdd(FSum(C), FOfInt(2))]>>)
    [] g = "smt4" -> Smt(4, ok) [] g = "smt8" -> Smt(8, ok)

\* as a step: caller-supplied blinding for some
Blind(gd) == IF gd.s.g \in {"hamming", "posno", "bit", "vecsum", "perm"} \/ Rnd("bl", 2) = 0 THEN <<>>
             ELSE [i \in 1..Len(gd.w.vals) |-> R(<<"bl", i>>)]
Wrap(gd) == [k |-> "wrap", s |-> gd.s, w |-> gd.w, rands |-> Blind(gd), rel |-> Relation(gd.s, gd.C), C |-> gd.C, alt |-> gd.alt]
Pool(gd) == [k |-> "pool", s |-> gd.s, C |-> gd.C, share |-> Rnd("share", 3) > 0, bl |-> R("blind"), rel |-> Relation(gd.s, gd.C), alt |-> gd.alt]
Op(o) == [k |-> "op", op |-> o, rel |-> TRUE]
Statics == LET n == 1 + Rnd("ns", 6) d == [i \in 1..n |-> IF Rnd("sok", 5) = 0 /\ i = 1 + Rnd("sat", n) THEN R("sd") ELSE FZero]
           IN [k |-> "statics", d |-> d, rel |-> \A i \in 1..n : d[i] = FZero]

Init == steps = <<>> /\ open = FALSE /\ body = <<>> /\ fin = FALSE /\ rnd \in IF Sim THEN 1..Runs ELSE {0}

\* exhaustive: gadgets through their wrappers, at most one of them false, with or without a half-assigned multiplier before each
NFalse == Cardinality({i \in 1..Len(steps) : ~steps[i].rel})
NGad == Cardinality({i \in 1..Len(steps) : steps[i].k = "wrap"})
ExhStep ==
  /\ ~Sim /\ ~fin /\ UNCHANGED <<open, body, rnd>>
  /\ \/ /\ NGad < MaxSteps
        /\ \E g \in 1..Len(Kinds), ok \in BOOLEAN :
             /\ ok \/ NFalse = 0
             /\ steps' = steps \o (IF (g + NGad + (IF ok THEN 0 ELSE 1)) % 2 = 0 THEN <<Op("half")>> ELSE <<>>) \o <<Wrap(Gadget(Kinds[g], ok))>>
        /\ fin' = FALSE
     \/ NGad = MaxSteps /\ fin' = TRUE /\ steps' = steps

OpNames == <<"half", "mul", "allocmul", "half">>
Pick == Gadget(Kinds[1 + Rnd("kind", Len(Kinds))], Rnd("ok", 9) > 0)
SimStep ==
  /\ Sim /\ ~fin /\ rnd' = rnd
  /\ LET c == Rnd("step", 10) IN
     IF cnt >= MaxSteps
     THEN /\ fin' = TRUE /\ open' = FALSE /\ body' = <<>>
          /\ steps' = IF open THEN Append(steps, [k |-> "cb", body |-> body, chal |-> Rnd("chal", 2), rel |-> \A i \in 1..Len(body) : body[i].rel]) ELSE steps
     ELSE IF open
     THEN /\ fin' = FALSE
          /\ IF c < 3 /\ body # <<>>
             THEN /\ steps' = Append(steps, [k |-> "cb", body |-> body, chal |-> Rnd("chal", 2), rel |-> \A i \in 1..Len(body) : body[i].rel])
                  /\ open' = FALSE /\ body' = <<>>
             ELSE /\ body' = Append(body, IF c < 5 THEN Op(OpNames[1 + Rnd("op", 4)]) ELSE Pool(Pick)) /\ UNCHANGED <<steps, open>>
     ELSE /\ fin' = FALSE
          /\ IF c = 0 THEN open' = TRUE /\ UNCHANGED <<steps, body>>
             ELSE /\ UNCHANGED <<open, body>>
                  /\ steps' = Append(steps, IF c = 1 /\ Rnd("st", 2) = 0 THEN Statics ELSE IF c < 3 THEN Op(OpNames[1 + Rnd("op", 4)]) ELSE IF c < 6 THEN Pool(Pick) ELSE Wrap(Pick))

\* what the verifier does: per step, which step of the prover it is, its statement (or those of the body) and whose commitments it takes
AllTrue == \A i \in 1..Len(steps) : steps[i].rel
Same == [i \in 1..Len(steps) |-> [i |-> i, cm |-> i]]
Wraps == {i \in 1..Len(steps) : steps[i].k = "wrap" /\ NC(steps[i].s) > 0}
Alts(i) == \* false statements about the committed values of step i
  IF steps[i].k \notin {"wrap", "pool"} THEN <<>>
  ELSE SelectSeq(steps[i].alt, LAMBDA a : NC(a) = NC(steps[i].s) /\ ~Relation(a, steps[i].C))
Variants ==
  LET n == Len(steps)
      alts == Cat([i \in 1..n |-> [j \in 1..Len(Alts(i)) |-> [Same EXCEPT ![i] = [i |-> i, cm |-> i, s |-> Alts(i)[j]]]]])
      cbalts == Cat([i \in 1..n |-> IF steps[i].k # "cb" THEN <<>> ELSE
                  Cat([b \in 1..Len(steps[i].body) |->
                        LET e == steps[i].body[b] IN IF e.k # "pool" \/ Len(e.alt) = 0 \/ Relation(e.alt[1], e.C) \/ NC(e.alt[1]) # NC(e.s) THEN <<>>
                        ELSE <<[Same EXCEPT ![i] = [i |-> i, cm |-> i, b |-> b, s |-> e.alt[1]]]>>])])
      pairs == SetToSeq({<<i, j>> \in Wraps \X Wraps : i < j})
      swapc == Cat([p \in 1..Len(pairs) |-> LET i == pairs[p][1] j == pairs[p][2] IN
                 IF NC(steps[i].s) # NC(steps[j].s) THEN <<>> ELSE <<[Same EXCEPT ![i].cm = j, ![j].cm = i]>>])
      swaps == Cat([p \in 1..Len(pairs) |-> LET i == pairs[p][1] j == pairs[p][2] IN <<[Same EXCEPT ![i] = Same[j], ![j] = Same[i]]>>])
      drops == LET w == SetToSeq(Wraps) IN [p \in 1..Len(w) |-> SelectSeq(Same, LAMBDA e : e.i # w[p])]
      all == alts \o cbalts \o swapc \o swaps \o drops
      few == 6
  IN IF Len(all) <= few THEN all ELSE [q \in 1..few |-> all[1 + (((q * Len(all) + Rnd(<<"var", q>>, Len(all))) \div few) % Len(all))]]

Emit == /\ fin /\ PrintT("CASE " \o ToJson([steps |-> steps, rel |-> AllTrue, vs |-> <<Same>> \o (IF AllTrue THEN Variants ELSE <<>>)]))
        /\ fin' = FALSE /\ steps' = <<[k |-> "end", rel |-> TRUE]>> /\ UNCHANGED <<open, body, rnd>>
Next == (Len(steps) = 1 /\ steps[1].k = "end" /\ UNCHANGED vars) \/ (~(Len(steps) = 1 /\ steps[1].k = "end") /\ (ExhStep \/ SimStep \/ Emit))
Spec == Init /\ [][Next]_vars

\* properties of the model: false is asked for and delivered; a callback is never left open at the end
OneFalse == ~Sim => NFalse <= 1
Closed == fin => ~open /\ body = <<>>
Arities == \A i \in 1..Len(steps) : steps[i].k \in {"wrap", "pool"} => Len(steps[i].C) = NC(steps[i].s)
============================================================================
