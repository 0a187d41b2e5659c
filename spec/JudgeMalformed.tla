--------------------------- MODULE JudgeMalformed ---------------------------
(* Runs of the real code with malformed sizes against module Malformed (C08). *)
EXTENDS Malformed, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.JUDGE_IN)
Has(r, k) == k \in DOMAIN r
B(what, ok) == IF ok THEN {} ELSE {<<"C08", what>>}
Dim(c) == ToString(<<c.dG, c.dH, c.dL, c.dR, c.dC>>)

VerifyBad(c, o) ==
  B("number of commitments of " \o c.s.g, o.nc = c.nc)
  \cup B("padded size of " \o c.s.g, ~Known(c.s) \/ o.pad = Pad2(Multipliers(c.s)))
  \cup (IF WellFormed(c.s, c.nc, o) THEN B("a well-formed proof of " \o c.s.g \o " is refused: " \o o.res, o.res = "ok")
        ELSE IF MustRefuse(c.s, c.nc, o) THEN B("verification of " \o c.s.g \o " with sizes off by " \o Dim(c) \o ": " \o o.res, IsError(o.res))
        ELSE B("verification of " \o c.s.g \o " with surplus commitments: " \o o.res, o.res # "panic"))
ProveBad(c, o) ==
  IF GeneratorsOk(o) THEN B("proving " \o c.s.g \o " with enough generators: " \o o.res, o.res = "ok")
  ELSE B("proving " \o c.s.g \o " with generators off by " \o Dim(c) \o ": " \o o.res, IsError(o.res))
InputBad(c, o) == B("malformed input of " \o c.s.g \o ": " \o o.res, IsError(o.res))
NodeBad(c, o) ==
  B("randomizer base", o.made)
  \cup B("proving with a missing node", \A i \in 1..Len(o.res) : IsError(o.res[i]))
  \cup B("verifying with a missing node", \A i \in 1..Len(o.ver) : IsError(o.ver[i]))
DepthBad(c, o) ==
  B("randomizer base", o.made)
  \cup B("proving for a tree of another depth", \A i \in 1..Len(o.res) : IsError(o.res[i]))
  \cup B("verifying for a tree of another depth", \A i \in 1..Len(o.ver) : IsError(o.ver[i]))
ValueBad(c, o) ==
  B("randomizer base", o.res[1] = "ok" /\ o.ver[1] = "ok")
  \cup B("proving for values that are not the original ones", \A i \in 2..Len(o.res) : o.res[i] = "ok" \/ IsError(o.res[i]))
  \cup B("a proof for values that are not the original ones", \A i \in 2..Len(o.ver) : o.ver[i] = "none" \/ IsError(o.ver[i]))
IppBad(c, o) == UNION {LET v == o.runs[i].d r == o.runs[i].res IN
  IF IppGood(v) THEN B("well-formed inner-product proof refused: " \o r, r = "ok")
  ELSE B("inner-product verification with sizes off by " \o ToString(v) \o ": " \o r, IsError(r)) : i \in 1..Len(o.runs)}
Judge(rec) ==
  LET c == rec.c o == rec.o IN
  IF Has(o, "harness_panic") THEN {<<"C08", o.harness_panic>>}
  ELSE CASE c.kind = "input" -> InputBad(c, o) [] c.kind = "noassign" -> InputBad(c, o) [] c.kind = "node" -> NodeBad(c, o) [] c.kind = "rdepth" -> DepthBad(c, o) [] c.kind = "rval" -> ValueBad(c, o) [] c.kind = "ipp" -> IppBad(c, o)
         [] OTHER -> IF o.base # "ok" THEN {<<"C08", "the well-formed proof of " \o c.s.g \o " fails: " \o o.base>>}
                     ELSE IF c.kind = "prove" THEN ProveBad(c, o) ELSE VerifyBad(c, o)

VARIABLES i, bad
Init == i \in 1..Len(Trace) /\ bad = {}
Next == /\ bad = {} /\ bad' = Judge(Trace[i])
        /\ bad' # {} /\ PrintT("BAD " \o ToJson([i |-> i, bad |-> SetToSeq(bad')]))
        /\ i' = i
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
