------------------------------ MODULE GenBomb ------------------------------
(***************************************************************************)
(* Hostile inputs: containers nested tens of thousands deep, counts and    *)
(* sizes far beyond the data, every very short file, containers with wild  *)
(* length fields, struct hints naming anything.  Whatever the reader       *)
(* answers, it must answer.                                                *)
(***************************************************************************)
EXTENDS GenBase, Faults

AnyX == [r |-> "any"]
Hd0 == Flat(HeaderT(FHdrs[1]))
Hd1 == Flat(HeaderT(FHdrs[2]))
Blob(segs, h, gv) == Out([op |-> "blob", segs |-> segs, h |-> h, gv |-> gv, x |-> AnyX, mem |-> 1, same |-> 0])
B(b) == [b |-> b, n |-> 1]
Ns(b, n) == [b |-> b, n |-> n]
Tag(nm, ty, size) == EncStr(S(nm)) \o EncStr(ty) \o LE4(size) \o Zero4
StructHead(tn) == EncStr(tn) \o Zero16 \o <<0>>
\* one level of nesting
Text5(i) == Zero4 \o <<i>>
ET == Zero4 \o <<255>>
LevelsDef == <<
  Tag("f", TStruct, 7) \o StructHead(SCust),
  Tag("f", TArray, 7) \o EncStr(TStruct) \o <<0>> \o LE4(1) \o EncStr(S("f")) \o EncStr(TStruct) \o LE4(7) \o Zero4 \o StructHead(SCust),
  Tag("f", TArray, 7) \o EncStr(TArray) \o <<0>> \o LE4(1),
  EncStr(TArray) \o LE4(1),
  Tag("f", TSet, 7) \o EncStr(TSet) \o <<0>> \o Zero4 \o LE4(1),
  Tag("f", TSet, 7) \o EncStr(TStruct) \o <<0>> \o Zero4 \o LE4(1),
  Tag("f", TMap, 7) \o EncStr(TMap) \o EncStr(TMap) \o <<0>> \o Zero4 \o LE4(1),
  Tag("f", TMap, 7) \o EncStr(TInt) \o EncStr(TStruct) \o <<0>> \o Zero4 \o LE4(1) \o Zero4,
  Tag("f", TMap, 7) \o EncStr(TStruct) \o EncStr(TInt) \o <<0>> \o Zero4 \o LE4(1),
  Tag("f", TSet, 7) \o EncStr(TArray) \o <<0>> \o Zero4 \o LE4(1) >>
NLev == 10
TextLevels == << Text5(10), Text5(1), Text5(2), Text5(3), Text5(2) \o ET \o LE4(1) \o <<4>>, Text5(1) \o ET \o LE4(1) \o EncStr(S("a")) \o <<4>>,
                 Text5(4) \o <<4>>, Text5(5) \o <<4>>, Text5(6) \o EncStr(S("c")) \o <<4>>, Zero4 >>
NTL == 10
Depths == <<50, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 5000, 20000, 60000>>
NDp == 13
\* hints for the first levels of nested sets and map values
HintPaths(k, n) ==
  LET unit(j) == CASE k = 6 -> <<S("f"), TSet, TStruct>> [] k = 8 -> <<S("f"), TMap, SValue, TStruct>> [] OTHER -> <<S("f"), TMap, SKey, TStruct>>
  IN Tup([i \in 1..n |-> <<Join(Cat([j \in 1..i |-> unit(j)])), SCust>>])
Item1(i) ==
  LET k == (i % NLev) + 1  d == Depths[((i \div NLev) % NDp) + 1]  t == i \div (NLev * NDp)
      h == IF k \in {6, 8, 9} THEN HintPaths(k, IF d > 140 THEN 140 ELSE d) ELSE <<>>
      tail == CASE t = 0 -> <<>> [] t = 1 -> EncStr(SNone) \o Zero4
  IN Blob(<<B(Hd0), Ns(LevelsDef[k], d), B(tail)>>, h, "Default")
N1 == NLev * NDp * 2
Item2(i) ==
  LET k == (i % NTL) + 1  d == Depths[((i \div NTL) % NDp) + 1]  t == i \div (NTL * NDp)
  IN Blob(<<B(IF t = 0 THEN Hd0 ELSE Hd1), B(Tag("t", TText, 9) \o <<0>>), Ns(TextLevels[k], d), B(ET)>>, <<>>, "Default")
N2 == NTL * NDp * 2
\* text inside containers without a tag
Item3(i) ==
  LET k == (i % NTL) + 1  d == Depths[(i \div NTL) + 1] IN
  /\ Blob(<<B(Hd0), B(Tag("t", TArray, 9) \o EncStr(TText) \o <<0>> \o LE4(1)), Ns(TextLevels[k], d), B(ET)>>, <<>>, "Default")
  /\ Blob(<<B(Hd1), B(Tag("t", TSet, 9) \o EncStr(TText) \o <<0>> \o Zero4 \o LE4(1)), Ns(TextLevels[k], d), B(ET)>>, <<>>, "Default")
N3 == NTL * NDp
\* counts far beyond the data, with a little data behind
Counts == << LE4(1000), LE4(1048576), LE4(16777216), <<255, 255, 255, 15>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>> >>
CountPre == <<
  Tag("f", TArray, 9) \o EncStr(TInt) \o <<0>>, Tag("f", TArray, 9) \o EncStr(TByte) \o <<0>>, Tag("f", TArray, 9) \o EncStr(TBool) \o <<0>>,
  Tag("f", TArray, 9) \o EncStr(TStr) \o <<0>>, Tag("f", TArray, 9) \o EncStr(TEnum) \o <<0>>, Tag("f", TArray, 9) \o EncStr(TName) \o <<0>>,
  Tag("f", TArray, 9) \o EncStr(TDouble) \o <<0>>, Tag("f", TArray, 9) \o EncStr(UnkT) \o <<0>>, Tag("f", TArray, 9) \o EncStr(TText) \o <<0>>,
  Tag("f", TSet, 9) \o EncStr(TInt) \o <<0>> \o Zero4, Tag("f", TSet, 9) \o EncStr(UnkT) \o <<0>> \o Zero4, Tag("f", TSet, 9) \o EncStr(TBool) \o <<0>> \o Zero4,
  Tag("f", TMap, 9) \o EncStr(TInt) \o EncStr(TInt) \o <<0>> \o Zero4, Tag("f", TMap, 9) \o EncStr(TStr) \o EncStr(TStr) \o <<0>> \o Zero4,
  Tag("f", TMap, 9) \o EncStr(TName) \o EncStr(TBool) \o <<0>> \o Zero4, Tag("f", TMap, 9) \o EncStr(TEnum) \o EncStr(TInt) \o <<0>> \o Zero4,
  Tag("f", TypeFn["MInline"], 9) \o <<0>>, Tag("f", TypeFn["MSparse"], 9) \o <<0>>, Tag("f", TypeFn["FieldPath"], 9) \o <<0>>,
  Tag("f", TStruct, 9) \o StructHead(StTags),
  Tag("f", TText, 9) \o <<0>> \o Text5(2) \o ET, Tag("f", TText, 9) \o <<0>> \o Text5(1) \o ET, Tag("f", TText, 9) \o <<0>> \o Text5(3) \o ET,
  EncStr(S("f")) \o EncStr(UnkT), EncStr(S("f")) \o EncStr(TStr), EncStr(S("f")) \o EncStr(TStruct), EncStr(S("f")) \o EncStr(TByte), EncStr(S("f")), <<>> >>
NCP == 29
Item4(i) ==
  LET p == CountPre[(i % NCP) + 1]  c == Counts[((i \div NCP) % 7) + 1]  t == i \div (NCP * 7) IN
  Blob(<<B(Hd0 \o p \o c), IF t = 0 THEN B(<<>>) ELSE IF t = 1 THEN Ns(<<0>>, 4000) ELSE Ns(<<1, 0, 0, 0, 0>>, 4000)>>, <<>>, "Default")
N4 == NCP * 7 * 3
\* struct array of huge count and zero-sized looking elements
Item5(i) ==
  LET tn == <<SCust, StGuid, StVector, StTags, S("Unknown"), <<>> >>[(i % 6) + 1]  c == Counts[((i \div 6) % 7) + 1]  t == i \div 42 IN
  Blob(<<B(Hd0 \o Tag("f", TArray, 9) \o EncStr(TStruct) \o <<0>> \o c \o EncStr(S("f")) \o EncStr(TStruct) \o (IF t = 0 THEN Zero8 ELSE c \o Zero4) \o StructHead(tn)),
         Ns(EncStr(SNone), 300)>>, <<>>, "Default")
N5 == 84
\* custom versions
Item6(i) == Blob(<<B(SubSeq(Hd0, 1, 22) \o EncStr(S("b")) \o LE4(3) \o Counts[i + 1]), Ns(<<7, 8, 9>>, 2000)>>, <<>>, "Default")
\* every very short file, and short tails of the magic and of containers
Item7(i) ==
  LET ms(pre) == <<[a |-> 0, d |-> 0, i |-> pre \o <<i>>, x |-> AnyX]>> \o Tup([j \in 1..256 |-> [a |-> 0, d |-> 0, i |-> pre \o <<i, j - 1>>, x |-> AnyX]])
      V(pre, gv) == Out([op |-> "muts", b |-> <<>>, h |-> <<>>, gv |-> gv, ms |-> ms(pre), mem |-> 1, stable |-> 0])
  IN V(<<>>, "Default") /\ V(Magic, "Default") /\ V(<<>>, "None") /\ V(<<>>, "Zlib") /\ V(<<>>, "ZlibTwice")
\* containers: wild announced lengths, kinds and payloads
Lens2 == <<Zero4, LE4(1), LE4(12), LE4(65536), <<0, 0, 0, 64>>, <<255, 255, 255, 127>>, <<255, 255, 255, 255>> >>
Item8(i) ==
  LET l1 == Lens2[(i % 7) + 1]  l2 == Lens2[((i \div 7) % 7) + 1]  kd == <<0, 47, 48, 49, 50, 51, 255>>[i \div 49 + 1]
      pay == << <<>>, <<0>>, <<120, 156>>, <<120, 156, 3, 0, 0, 0, 0, 1>>, <<120, 156, 99, 0, 0, 0, 1, 0, 1>>, Rep(255, 60), Hd0 >>
  IN \A j \in 1..7 : Out([op |-> "blob", segs |-> <<B(l1 \o l2 \o S("PlZ") \o <<kd>> \o pay[j])>>, h |-> <<>>, gv |-> "Raw", x |-> AnyX, mem |-> 1, same |-> 0])
N8 == 343
\* wrong hints for sets of structs
HintTypes == <<StVector, StVector2D, StRotator, StQuat, StDateTime, StTimespan, StLinearColor, StIntPoint, StGuid, StTags, SCust, TStruct, TInt, <<>>, SNone, <<26085>> >>
Item9(i) ==
  LET t == HintTypes[(i % 16) + 1]  d == i \div 16
      sv == <<Custom(<< <<S("f"), <<IntP(3)>> >> >>), Tags(<<S("a"), S("b")>>), Fixed(StGuid, 1), Custom(<<>>)>>[(d % 4) + 1]
      f == File(Hdrs[1], IF d < 4 THEN << <<S("X"), SetP(TStruct, Zero4, <<SvP(sv), SvP(sv)>>)>> >> ELSE << <<S("X"), MapP(TStruct, TStruct, Zero4, << <<SvP(sv), SvP(sv)>> >>)>> >>)
      hs == MapS(LAMBDA e : <<e[1], t>>, HintsOf(f.ps))
  IN Out([op |-> "muts", b |-> EncFile(f), h |-> hs, gv |-> "Default", ms |-> <<[a |-> 0, d |-> 0, i |-> <<>>, x |-> AnyX]>>, mem |-> 1, stable |-> 0])
N9 == 128
SegsDef == <<N1, N2, N3, N4, N5, 7, 256, N8, N9>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2]) [] s[1] = 5 -> Item5(s[2])
             [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2]) [] s[1] = 9 -> Item9(s[2])
Init == InitC(Total, 8)
Next == NextC(Total, 8, Emit)
=============================================================================
