------------------------------ MODULE JudgeSmt ------------------------------
(* Recorded histories of the real trees against the machine of module SmtHist (C16). *)
EXTENDS SmtHist, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Has(r, k) == k \in DOMAIN r
Differ(e, o) ==
  CASE e.k \in {"new", "upd"} -> o.err # "ok" \/ o.root # e.root \/ o.ret # e.root
    [] e.k = "get" -> o.err # "ok" \/ o.val # e.val \/ o.path # e.path \/ ~o.same
    [] e.k = "val" -> o.err # "ok" \/ o.val # e.val \/ ~o.same
    [] e.k = "lost" -> o.err # "HashNotFoundInDB" \/ ~o.same
    [] e.k = "ver" -> o.err # "ok" \/ o.ok # e.ok \/ ~o.same
What(op) == CASE op[1] = "new" -> "the root of the empty tree" [] op[1] = "upd" -> "the root after an update" [] op[1] = "get" -> "a read value or its path"
              [] op[1] = "val" -> "a read value" [] op[1] \in {"lost", "lostupd"} -> "access through an unknown root" [] op[1] = "ver" -> "the verdict on a path"
Judge(rec) ==
  IF Has(rec.o, "harness_panic") THEN {<<"HARNESS", rec.o.harness_panic>>}
  ELSE LET e == Expected(rec.c.P, rec.c.a, rec.c.ops) o == rec.o.out
           B == {i \in 1..Len(e) : Differ(e[i], o[i])}
       IN IF B = {} THEN {} ELSE LET i == CHOOSE i \in B : \A j \in B : i <= j IN
          {<<"C16", What(rec.c.ops[i]) \o ": operation", i, ToString(rec.c.ops[i]), ToString(o[i])>>}

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = Judge(Trace[i])
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
