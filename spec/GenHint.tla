------------------------------ MODULE GenHint ------------------------------
(***************************************************************************)
(* Struct hints.  Saves with untagged structs in sets and maps at various  *)
(* depths, read with every kind of hint table; single reads and sequences  *)
(* of reads sharing a location stack.                                      *)
(***************************************************************************)
EXTENDS GenBase, Faults

\* saves with hints: nested containers of up to three levels, and every struct type as element, key and value
GOn == Gates(FHdrs[2].cvs)
HintSvsDef == FixedSvs(GOn) \o CustomSvs \o <<Custom(<< <<S("m"), <<MapP(TStruct, TStruct, Zero4, << <<SvP(Fixed(StGuid, 1)), SvP(Custom(<<>>))>> >>)>> >>,
                                                        <<S("s"), <<SetP(TStruct, Zero4, <<SvP(Fixed(StIntPoint, 0)), SvP(Fixed(StIntPoint, 1))>>)>> >> >>)>>
ASSUME TLCSet(150, HintSvsDef)
HintSvs == TLCGet(150)
NSv == Len(HintSvs)
HCtx(c, sv, tv) ==
  CASE c = 1 -> << <<S("X"), SetP(TStruct, Zero4, <<SvP(sv)>>)>> >>
    [] c = 2 -> << <<S("X"), MapP(TStruct, TInt, Zero4, << <<SvP(sv), IntP(1)>> >>)>> >>
    [] c = 3 -> << <<S("X"), MapP(TStr, TStruct, Zero4, << <<StrP(S("k")), SvP(sv)>>, <<StrP(S("l")), SvP(sv)>> >>)>> >>
    [] c = 4 -> << <<S("X"), MapP(TStruct, TStruct, LE4(1), << <<SvP(sv), SvP(tv)>> >>)>>, <<S("Key"), IntP(1)>> >>
    [] c = 5 -> << <<S("X"), SetP(TStruct, Zero4, <<SvP(sv)>>)>>, <<S("Y"), SetP(TStruct, Zero4, <<SvP(tv)>>)>> >>
    [] c = 6 -> << <<S("O"), StructP(Custom(<< <<S("X"), <<SetP(TStruct, Zero4, <<SvP(sv)>>)>> >>, <<S("Y"), <<MapP(TInt, TStruct, Zero4, << <<IntP(1), SvP(tv)>> >>)>> >> >>), G1)>> >>
    [] c = 7 -> << <<S("O"), SArr(S("e"), SCust, Zero16, <<Custom(<< <<S("X"), <<SetP(TStruct, Zero4, <<SvP(sv)>>)>> >> >>), Custom(<< <<S("X"), <<SetP(TStruct, Zero4, <<SvP(sv), SvP(sv)>>)>> >> >>)>>)>> >>
    [] c = 8 -> << <<S("a.b"), SetP(TStruct, Zero4, <<SvP(sv)>>)>>, << <<26085, 46>>, MapP(TStruct, TStruct, Zero4, << <<SvP(tv), SvP(sv)>> >>)>> >>
    [] c = 9 -> << << <<>>, SetP(TStruct, Zero4, <<SvP(sv)>>)>>, <<S("Z"), StructP(tv, Zero16)>> >>
NHC == 9
NHD == NHC * NSv
HDoc(i) ==
  IF i < NHD THEN LET c == (i % NHC) + 1  j == i \div NHC IN File(FHdrs[2], HCtx(c, HintSvs[j + 1], Pick(HintSvs, j + 3)))
  ELSE FamN(i - NHD)
NDocs == NHD + NN3

\* near misses of a path
RECURSIVE SplitDot(_, _, _)
SplitDot(s, i, cur) == IF i > Len(s) THEN <<cur>>
                       ELSE IF s[i] = Dot THEN <<cur>> \o SplitDot(s, i + 1, <<>>) ELSE SplitDot(s, i + 1, Append(cur, s[i]))
Lower(s) == Tup([i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]])
Swap(cs) == IF Len(cs) < 2 THEN cs \o cs ELSE <<cs[2], cs[1]>> \o SubSeq(cs, 3, Len(cs))
KV(cs) == Tup([i \in 1..Len(cs) |-> IF cs[i] = SKey THEN SValue ELSE IF cs[i] = SValue THEN SKey ELSE cs[i]])
NearPaths(path) ==
  LET cs == SplitDot(path, 1, <<>>)  n == Len(cs)  J(x) == Join(x) IN
  << path \o S(".StructProperty"), path \o S("."), S(".") \o path, SubSeq(path, 1, Len(path) - 1), Lower(path), <<>>, S("StructProperty"),
     J(SubSeq(cs, 1, n - 1)), J(Tail(cs)), cs[1], J(SubSeq(cs, 1, n - 1) \o <<S("x")>> \o <<cs[n]>>), S("X.") \o path,
     J(SubSeq(cs, 1, n - 1) \o <<TStruct, cs[n]>>), path \o S(" "), J(Swap(cs)), J(KV(cs)), J(Reverse(cs)), path \o path >>
  \o (IF n > 24 THEN <<>> ELSE Tup([k \in 1..n |-> J(SubSeq(cs, 1, k - 1) \o SubSeq(cs, k + 1, n))]) \o Tup([k \in 1..n |-> J(SubSeq(cs, 1, k) \o SubSeq(cs, k, n))]))
Wrong(tn) == IF tn = StGuid THEN StIntPoint ELSE StGuid
\* near misses of a type name: all of them are the names of other structs
UpperS(s) == Tup([i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]])
NearTypes(tn) == SelectSeq(<< Lower(tn), UpperS(tn), S(" ") \o tn, tn \o S(" "), S("/Script/CoreUObject.") \o tn, S("F") \o tn, tn \o S("Property"), tn \o S("d"), tn \o S("f"),
                              tn \o S("."), S(".") \o tn, SubSeq(tn, 1, Len(tn) - 1), tn \o tn, tn \o <<0>>, tn \o S("_0"), S("StructProperty"), S("None") >>, LAMBDA x : x # tn)
HasPath(h, p) == \E i \in 1..Len(h) : h[i][1] = p
NearHints(h) == LET all == Flatten([i \in 1..Len(h) |-> MapS(LAMBDA p : <<p, Wrong(h[i][2])>>, NearPaths(h[i][1]))])
                IN SelectSeq(all, LAMBDA x : ~HasPath(h, x[1]))
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

X(b, h) == LET r == ReadFile(b, h, "Default") IN IF r.r = "ok" THEN [r |-> "ok", file |-> r.file] ELSE [r |-> "err", e |-> r.e]
V(b, h) == Out([op |-> "read", b |-> b, h |-> h, gv |-> "Default", x |-> X(b, h)])
\* a missing hint is reported with the exact path and the position of the struct
DocItem(i) ==
  LET f == HDoc(i)  h == HintsOf(f.ps)  b == EncFile(f)  n == Len(h)  nh == NearHints(h) IN
  h # <<>> =>
    /\ Sound(f, b, h)
    /\ Out([op |-> "hintloop", b |-> b, h |-> h, f |-> f])
    /\ V(b, <<>>) /\ V(b, nh)
    /\ LET r == ReadFile(b, h \o nh, "Default") IN Must(r.r = "ok" /\ r.file = f, <<"superfluous hints matter", f>>)
    /\ V(b, h \o nh) /\ V(b, nh \o h)
    /\ \A j \in 1..n :
         LET x == X(b, Drop(h, j) \o nh) IN
         /\ Must(x.r = "err" /\ x.e.k = "MissingHint" /\ x.e.s = h[j][1], <<"missing hint", f, j, x>>)
         /\ V(b, Drop(h, j) \o nh) /\ V(b, Drop(h, j))
         /\ V(b, [h EXCEPT ![j] = <<@[1], Wrong(@[2])>>]) /\ V(b, [h EXCEPT ![j] = <<@[1], SCust>>])
         /\ V(b, [h EXCEPT ![j] = <<@[1], StVector>>]) /\ V(b, [h EXCEPT ![j] = <<@[1], <<>> >>])
         /\ (i < NHD /\ (i \div NHC + i) % 3 = 0) => LET ns == NearTypes(h[j][2]) IN \A q \in 1..Len(ns) : V(b, [h EXCEPT ![j] = <<@[1], ns[q]>>])

\* reads sharing one stack: the same read before and after others that fail at every sort of place
Bases == << <<>>, <<S("A")>>, <<S("A"), TMap, SKey>>, <<S("a.b"), <<>>, <<26085>> >> >>
G0 == NoGates
SetVal == SetP(TStruct, Zero4, <<SvP(Custom(<< <<S("m"), <<MapP(TStruct, TStruct, Zero4, << <<SvP(Fixed(StGuid, 1)), SvP(Fixed(StIntPoint, 0))>> >>)>> >> >>))>>)
MapVal == MapP(TStruct, TStruct, Zero4, << <<SvP(CustomSvs[3]), SvP(Custom(<< <<S("s"), <<SetP(TStruct, Zero4, <<SvP(Fixed(StGuid, 1))>>)>> >> >>))>> >>)
ArrVal == SArr(S("e"), SCust, G1, <<Custom(<< <<S("s"), <<SetVal>> >> >>), Custom(<< <<S("t"), <<IntP(3)>> >> >>)>>)
StrVal == StructP(Custom(<< <<S("s"), <<SetVal, MapVal>> >> >>), G2)
SeqProps == <<SetVal, MapVal, ArrVal, StrVal>>
BaseHints(p, base) == SetToSeq(HintsP(p, base \o <<TypeName(p)>>))
PBytes(p) == LET t == Flat(PropT(p, G0)) IN SubSeq(t, TLen(StrT(TypeName(p))) + 1, Len(t))
StepRec(b, ty, base, h) ==
  LET r == Run(StartProp(b, 0, base, G0, ty, TRUE, -1, h), b, h) IN
  IF Must(r.path = base, <<"location stack", b, r>>)
  THEN [b |-> b, ty |-> ty, tagged |-> TRUE, sug |-> -1, x |-> IF r.st = "ok" THEN [r |-> "ok", prop |-> r.val, p |-> r.p] ELSE [r |-> "err", e |-> r.e]]
  ELSE [b |-> b]
NSeq == Len(SeqProps) * Len(Bases)
SeqItem(i) ==
  LET p == SeqProps[(i % Len(SeqProps)) + 1]  base == Bases[(i \div Len(SeqProps)) + 1]  h == BaseHints(p, base)  b == PBytes(p)  ty == TypeName(p)
      ok == StepRec(b, ty, base, h)
      cut(n) == StepRec(SubSeq(b, 1, n), ty, base, h)
      bad(n) == StepRec(SetB(b, n, Xor1(b[n], 128)), ty, base, h)
  IN /\ Must(ok.x.r = "ok" /\ ok.x.prop = p, <<"sequence", p, ok>>)
     /\ Out([op |-> "seq", path |-> base, cvs |-> <<>>, h |-> h, steps |-> Cat([n \in 1..Len(b) |-> <<cut(n - 1), ok>>])])
     /\ Out([op |-> "seq", path |-> base, cvs |-> <<>>, h |-> h, steps |-> Cat([n \in 1..Len(b) |-> <<bad(n), ok>>])])
     /\ \A j \in 1..Len(h) :
          LET h2 == Drop(h, j)  s == StepRec(b, ty, base, h2) IN
          Out([op |-> "seq", path |-> base, cvs |-> <<>>, h |-> h2, steps |-> <<s, s, StepRec(PBytes(IntP(3)), TInt, base, h2), s>>])

\* far down, and under long and odd names: the paths are long, so fewer near misses
OddNames == << Rep(97, 300), Asc(63) \o S(".") \o Asc(64), Wide(100), S(" X"), S("X "), <<9>>, <<0>>, S("."), S(".."), S("X."), S(".X"), S("StructProperty"), S("SetProperty"), S("None.") >> \o Thin(SelectSeq(GameWords, LAMBDA w : Len(w) > 1), 70)
NOdd == Len(OddNames)
LongDoc(i) ==
  IF i < NNested THEN FamD(6 + i)
  ELSE LET w == OddNames[((i - NNested) \div 3) + 1]  sv == Fixed(StGuid, 1)  tv == Fixed(StIntPoint, 1)  st == SetP(TStruct, Zero4, <<SvP(sv)>>) IN
       File(FHdrs[2], CASE (i - NNested) % 3 = 0 -> << <<w, st>>, <<S("Y"), MapP(TStruct, TStruct, Zero4, << <<SvP(tv), SvP(sv)>> >>)>> >>
                        [] (i - NNested) % 3 = 1 -> << <<S("O"), StructP(Custom(<< <<w, <<MapP(TInt, TStruct, Zero4, << <<IntP(1), SvP(tv)>> >>)>> >>, <<S("q"), <<st>> >> >>), G1)>> >>
                        [] (i - NNested) % 3 = 2 -> << <<w, SArr(w, SCust, Zero16, <<Custom(<< <<w, <<st>> >> >>)>>)>>, <<S("q"), st>> >>)
NLong == NNested + 3 * NOdd
LongItem(i) ==
  LET f == LongDoc(i)  h == HintsOf(f.ps)  b == EncFile(f)  n == Len(h)
      deep == CHOOSE j \in 1..n : \A q \in 1..n : Len(h[q][1]) <= Len(h[j][1])
      some == IF n <= 4 THEN 1..n ELSE {1, n \div 2, n, deep}
      nh == NearHints(<<h[deep]>>) \o NearHints(<<h[1]>>) IN
  h # <<>> =>
    /\ Sound(f, b, h)
    /\ Out([op |-> "hintloop", b |-> b, h |-> h, f |-> f])
    /\ V(b, <<>>) /\ V(b, h \o SelectSeq(nh, LAMBDA x : ~HasPath(h, x[1])))
    /\ \A j \in some :
         LET m == Drop(h, j) \o SelectSeq(NearHints(<<h[j]>>), LAMBDA x : ~HasPath(h, x[1]))  x == X(b, m) IN
         /\ Must(x.r = "err" /\ x.e.k = "MissingHint" /\ x.e.s = h[j][1], <<"missing hint", f, j, x>>)
         /\ V(b, m) /\ V(b, Drop(h, j)) /\ V(b, [h EXCEPT ![j] = <<@[1], Wrong(@[2])>>]) /\ V(b, [h EXCEPT ![j] = <<@[1], SCust>>])

SegsDef == <<NDocs, NSeq, NLong>>
ASSUME TLCSet(151, SegsDef)
Segs == TLCGet(151)
TotalDef == SumS(Segs)
ASSUME TLCSet(152, TotalDef)
Total == TLCGet(152)
Emit(i) == LET s == SegOf(Segs, i) IN CASE s[1] = 1 -> DocItem(s[2]) [] s[1] = 2 -> SeqItem(s[2]) [] s[1] = 3 -> LongItem(s[2])
Init == InitC(Total, 4)
Next == NextC(Total, 4, Emit)
=============================================================================
