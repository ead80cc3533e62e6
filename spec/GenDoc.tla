------------------------------- MODULE GenDoc -------------------------------
(* Canonical saves: the whole pool, with the checks named in DOCS *)
EXTENDS GenBase

\* IOEnv.CK: comma-free list of checks is passed as a JSON array in the environment
Cks == JsonDeserialize(IOEnv.PARAMS)       \* [ck |-> <<...>>, f |-> 0|1, b |-> 0|1, every |-> n, extra |-> ...]
ASSUME TLCSet(120, Cks)
P == TLCGet(120)

DocVec(f) ==
  LET b == EncFile(f)  h == HintsOf(f.ps) IN
  IF ~Proper(f) THEN TRUE
  ELSE /\ Sound(f, b, h)
       /\ IF P.f = 1 /\ P.b = 1 THEN Out([op |-> "doc", ck |-> P.ck, h |-> h, f |-> f, b |-> b])
          ELSE IF P.f = 1 THEN Out([op |-> "doc", ck |-> P.ck, h |-> h, f |-> f])
          ELSE Out([op |-> "doc", ck |-> P.ck, h |-> h, b |-> b])

SegsDef == <<NPool, IF Thorough THEN NG ELSE NG \div 5>>
ASSUME TLCSet(121, SegsDef)
Segs == TLCGet(121)
TotalDef == SumS(Segs)
ASSUME TLCSet(122, TotalDef)
Total == TLCGet(122)
EmitDoc(i) == LET s == SegOf(Segs, i) IN
              IF s[1] = 1 THEN DocVec(Pool(s[2])) ELSE DocVec(FamG(IF Thorough THEN s[2] ELSE s[2] * 5))
Init == InitG(Total)
Next == NextG(Total, EmitDoc)
=============================================================================
