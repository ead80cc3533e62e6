------------------------------- MODULE GenCut -------------------------------
(* Truncation: no proper prefix that ends before the end of the final marker is a save *)
EXTENDS GenBase, Faults

ASSUME TLCSet(140, JsonDeserialize(IOEnv.PARAMS))
P == TLCGet(140)          \* [every, pal]

Ends(toks) == FoldLeft(LAMBDA a, t : <<a[1] + Len(t.b), Append(a[2], a[1] + Len(t.b))>>, <<0, <<>> >>, toks)[2]
Vec(f, gv) ==
  LET b == EncFile(f)  h == HintsOf(f.ps)  r == ReadFile(b, h, "Default") IN
  /\ Must(r.r = "ok" /\ r.p = Len(b) - 4, <<"end of the save", f>>)
  /\ Out([op |-> "cuts", b |-> b, h |-> h, gv |-> gv, end |-> r.p, step |-> 1 + Len(b) \div 400, at |-> IF gv = "Default" /\ Len(b) \in 400..40000 THEN LET t == FileT(f) IN IF Len(t) < 2500 THEN Ends(t) ELSE <<>> ELSE <<>>])
Small(f) ==
  LET b == EncFile(f)  h == HintsOf(f.ps) IN
  \A n \in 0..(Len(b) - 5) : Must(ReadFile(SubSeq(b, 1, n), h, "Default").r = "err", <<"prefix accepted", f, n>>)

SegsDef == << NFD, NPool \div P.every, 3 * (NPool \div P.pal) >>
ASSUME TLCSet(141, SegsDef)
Segs == TLCGet(141)
TotalDef == SumS(Segs)
ASSUME TLCSet(142, TotalDef)
Total == TLCGet(142)
Emit(i) ==
  LET s == SegOf(Segs, i) IN
  CASE s[1] = 1 -> LET f == FDoc(s[2]) IN Proper(f) => (Small(f) /\ Vec(f, "Default"))
    [] s[1] = 2 -> LET f == Pool(s[2] * P.every) IN Proper(f) => Vec(f, "Default")
    [] s[1] = 3 -> LET f == Pool((s[2] \div 3) * P.pal) IN Proper(f) => Vec(f, <<"None", "Zlib", "ZlibTwice">>[(s[2] % 3) + 1])
Init == InitC(Total, 8)
Next == NextC(Total, 8, Emit)
=============================================================================
