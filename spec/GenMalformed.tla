---------------------------- MODULE GenMalformed ----------------------------
(* Crosses well-formed runs (GEN_CASES) with faults in one or two sizes (C08). *)
EXTENDS Malformed, Fr, SequencesExt, TLC, Json, IOUtils, FiniteSets

Base == ndJsonDeserialize(IOEnv.GEN_CASES)
Deep == IOEnv.GEN_DEEP = "1"
Far == -100000
S0 == [dG |-> 0, dH |-> 0, dL |-> 0, dR |-> 0, dC |-> 0]
Gd == {Far, -2, -1, 0, 1}
Ld == {Far, -2, -1, 0, 1, 2} \cup (IF Deep THEN {29, 30, 31, 32, 33, 64} ELSE {31, 32})
\* sizes of a verification
VFaults(b) ==
  {[S0 EXCEPT !.dG = x, !.dH = y] : x \in Gd, y \in Gd}
  \cup {[S0 EXCEPT !.dL = x, !.dR = y] : x \in Ld, y \in Ld}
  \cup (IF b.s.g \in {"two", "bit"} THEN {[S0 EXCEPT !.dL = x, !.dR = x] : x \in Wide} ELSE {})
  \cup IF b.s.g \in {"bit", "posno", "perm", "vecsum", "two"} THEN {} ELSE       \* no wrapper takes their commitments
  {[S0 EXCEPT !.dC = -x] : x \in 1..(IF b.nc < 12 THEN b.nc ELSE 12)} \cup {[S0 EXCEPT !.dC = x] : x \in {Far, 1, 2, 3, 7}}
  \cup {[S0 EXCEPT !.dC = -1, !.dL = 1], [S0 EXCEPT !.dG = Far, !.dL = Far, !.dR = Far], [S0 EXCEPT !.dG = Far, !.dH = Far, !.dC = Far, !.dL = Far, !.dR = Far]}
PFaults == {[S0 EXCEPT !.dG = x, !.dH = y] : x \in Gd, y \in Gd}
Cut(v) == SubSeq(v, 1, Len(v) - 1)
Sized(g) == g \in {"mimc", "pos2", "pos4", "pos8", "smt4", "smt8"}
OneVal(g) == g \in {"bound", "nonzero", "setmem", "setalt", "nonmem"}
Has(r, k) == k \in DOMAIN r
In(b, w, r, no) == [kind |-> "input", s |-> b.s, w |-> w, rands |-> r, norng |-> no]
\* malformed inputs of the provers
Inputs(b) ==
  LET v == b.w.vals g == b.s.g IN
  (IF Sized(g) \/ OneVal(g) THEN {In(b, b.w, <<>>, TRUE)} ELSE {})
  \cup (IF g \in {"mimc", "pos2", "pos4", "pos8"}
        THEN {In(b, [b.w EXCEPT !.vals = x], r, FALSE) : x \in {Cut(v), Append(v, v[1]), <<>>, <<v[1]>>} \ {v}, r \in {<<>>, b.r}}
             \cup {In(b, b.w, r, FALSE) : r \in {Cut(b.r), Append(b.r, b.r[1]), <<b.r[1]>>} \ {b.r}} ELSE {})
  \cup (IF g \in {"smt4", "smt8"}
        THEN {In(b, [b.w EXCEPT !.path = p], <<>>, FALSE) : p \in {Cut(b.w.path), Tail(b.w.path), <<>>, Append(b.w.path, b.w.path[1]), <<b.w.path[1]>> \o b.w.path}}
             \cup {In(b, b.w, r, FALSE) : r \in {<<b.r[1]>>, Append(b.r, b.r[1])}} ELSE {})
  \cup (IF g = "hamming" THEN {In(b, [b.w EXCEPT !.vals = x], <<>>, FALSE) : x \in {Cut(v), Append(v, v[1]), <<>>}} ELSE {})
  \cup (IF g = "bound" THEN {In([b EXCEPT !.s.lower = b.above], b.w, <<>>, FALSE), In([b EXCEPT !.s.upper = b.below], b.w, <<>>, FALSE),
                             In([b EXCEPT !.s.lower = b.s.upper, !.s.upper = b.s.lower], b.w, <<>>, FALSE)} ELSE {})
  \cup (IF g = "mimc" THEN {In([b EXCEPT !.s = b.s @@ [rounds |-> Len(b.s.consts) + x]], b.w, <<>>, FALSE) : x \in {1, 5}} ELSE {})
  \cup (IF g = "rand" THEN {In(b, [b.w EXCEPT !.orig = x], <<>>, FALSE) : x \in {Cut(b.w.orig), Append(b.w.orig, b.w.orig[1]), <<>>}}
                           \cup {In([b EXCEPT !.s.indices = x], b.w, <<>>, FALSE) : x \in {Cut(b.s.indices), Append(b.s.indices, "0")}}
                           \cup {[kind |-> "rdepth", s |-> b.s, w |-> b.w, rands |-> <<>>, norng |-> FALSE,
                                  depths |-> SetToSeq({t \in {0, 1, 2, b.s.depth - 1, b.s.depth + 1, b.s.depth + 3} : t >= 0 /\ t # b.s.depth})]}
                           \cup {[kind |-> "rval", s |-> b.s, w |-> b.w, rands |-> <<>>, norng |-> FALSE,
                                  origs |-> SelectSeq([i \in 1..Len(b.w.orig) |-> [b.w.orig EXCEPT ![i] = FAdd(@, FOne)]]
                                            \o [i \in 1..Len(b.w.orig) |-> [b.w.orig EXCEPT ![i] = FNeg(@)]]
                                            \o <<[i \in 1..Len(b.w.orig) |-> FZero]>>, LAMBDA x : x # b.w.orig)]}
                           \cup {[kind |-> "node", s |-> b.s, w |-> b.w, rands |-> <<>>, norng |-> FALSE]} ELSE {})
  \cup (IF g \in {"posno", "bit"} /\ (g = "bit" \/ b.s.bits > 0) THEN {[kind |-> "noassign", s |-> b.s, w |-> b.w, rands |-> <<>>, norng |-> FALSE]} ELSE {})
Cases(b) ==
  IF b.only = "ipp" THEN {[kind |-> "ipp", lg |-> b.lg, variants |-> SetToSeq(IppVariants \cup IppWide)]}
  ELSE IF b.only = "input" THEN Inputs(b)
  ELSE {[kind |-> "verify", s |-> b.s, w |-> b.w, rands |-> <<>>, nc |-> b.nc] @@ f : f \in VFaults(b)}
       \cup {[kind |-> "prove", s |-> b.s, w |-> b.w, rands |-> <<>>, nc |-> b.nc] @@ f : f \in PFaults}

VARIABLES k, done
Init == k \in 1..Len(Base) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ \A c \in Cases(Base[k]) : PrintT("CASE " \o ToJson(c))
Spec == Init /\ [][Next]_<<k, done>>
\* the classification of sizes is coherent
ModelInv == \A d \in {-1, 0, 1} : \A e \in {-1, 0, 1} : LET o == [G |-> 4 + d, H |-> 4, pad |-> 4, L |-> 2 + e, R |-> 2, lg |-> 2, C |-> 1] IN
            Coherent([g |-> "bit"], 1, o) /\ (MustRefuse([g |-> "bit"], 1, o) <=> (d < 0 \/ e # 0))
=============================================================================
