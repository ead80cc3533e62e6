------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Faults: a canonical save with one field of the format damaged.  The     *)
(* writer's tokens say where every length, count, size, terminator ... is; *)
(* Repl gives the byte strings a token is replaced by.                     *)
(***************************************************************************)
EXTENDS Families

Mut(b, a, d, ins) == SubSeq(b, 1, a) \o ins \o SubSeq(b, a + d + 1, Len(b))

\* small changes of a little-endian number that stay within its width
Xor1(x, m) == IF (x \div m) % 2 = 1 THEN x - m ELSE x + m
SetB(v, i, x) == [v EXCEPT ![i] = x]
Plus(v, n) == LET x == U32(v) + n IN LE4(x)
Near4(v) == \* neighbours and extremes of a small 4-byte number
  (IF U32(v) < 2147483000 THEN <<Plus(v, 1), Plus(v, 256), Plus(v, 65536)>> ELSE <<>>)
  \o (IF U32(v) > 0 /\ v[4] < 128 THEN <<Plus(v, -1), Zero4>> ELSE <<>>)
  \o (IF U32(v) > 2 /\ v[4] < 128 THEN <<LE4(1)>> ELSE <<>>)
  \o << SetB(v, 4, Xor1(v[4], 128)), SetB(v, 4, Xor1(v[4], 1)), <<255, 255, 255, 127>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>> >>
Neg4(v) == LET n == I32(v) IN LE4S(-n)

Repl(t) ==
  LET v == t.b IN
  CASE t.t = "slen" ->
         LET n == I32(v) IN
         << LE4S(n + 1), LE4S(n - 1), LE4S(131072), LE4S(131073), LE4S(-131072), LE4S(-131073),
            <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, LE4S(n + 256), LE4S(n + 65536) >>
         \o (IF n # 0 THEN <<Zero4, LE4S(-n)>> ELSE <<>>) \o (IF n \notin {1, 2, 0} THEN <<LE4S(1)>> ELSE <<>>) \o (IF n \notin {-1, 0} THEN <<LE4S(-1)>> ELSE <<>>)
    [] t.t = "sdat" ->
         IF v = <<>> THEN <<>>
         ELSE << SetB(v, 1, 255), SetB(v, Len(v), 195), SetB(v, Len(v), 216), SetB(v, 1, Xor1(v[1], 1)), SetB(v, Len(v), 0) >>
              \o (IF Len(v) > 2 THEN <<SetB(SetB(v, 1, 237), 2, 160), SetB(SetB(v, 1, 195), 2, 169), SetB(SetB(v, Len(v) - 1, 0), Len(v), 220)>> ELSE <<>>)
    [] t.t = "strm" -> IF Len(v) = 1 THEN <<<<1>>, <<255>>>> ELSE <<<<1, 0>>, <<0, 1>>, <<0, 216>>>>
    [] t.t = "bool" -> <<<<1 - v[1]>>, <<2>>, <<128>>, <<255>>>>
    [] t.t = "b32" -> << <<1 - v[1], 0, 0, 0>>, <<2, 0, 0, 0>>, <<v[1], 1, 0, 0>>, <<v[1], 0, 0, 128>>, <<255, 255, 255, 255>> >>
    [] t.t = "enum" -> SelectSeq(Tup([i \in 1..10 |-> << <<0, 1, 2, 4, 5, 6, 7, 127, 128, 255>>[i] >>]), LAMBDA x : x # v)
    [] t.t = "hist" -> SelectSeq(Tup([i \in 1..18 |-> << <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 127, 128, 254>>[i] >>]) \o << <<255>> >>, LAMBDA x : x # v)
    [] t.t \in {"cnt", "len"} -> Near4(v) \o (IF t.t = "len" THEN <<LE4(2), LE4(4), LE4(8)>> ELSE <<>>)
    [] t.t = "ai" -> IF v = Zero4 THEN <<LE4(1), <<0, 1, 0, 0>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>>> ELSE <<Zero4, SetB(v, 1, Xor1(v[1], 2))>>
    [] t.t = "term" -> <<<<1>>, <<2>>, <<255>>>>
    [] t.t = "size" -> MapS(LAMBDA x : x \o Zero4, Near4(SubSeq(v, 1, 4))) \o <<SetB(v, 5, 1), SetB(v, 8, 128), SetB(v, 6, 7), Rep(255, 8)>>
    [] t.t \in {"num", "guid"} -> <<SetB(v, 1, Xor1(v[1], 1)), SetB(v, Len(v), Xor1(v[Len(v)], 128)), Rep(255, Len(v))>>
    [] t.t = "raw" -> IF v = <<>> THEN <<>> ELSE <<SetB(v, 1, Xor1(v[1], 4))>>
    [] t.t = "magic" -> <<S("gVAS"), S("GVAT"), S("SAVG"), Zero4, <<71, 86, 65, 0>>, S("GGAS"), S("GVVS")>>
    [] t.t = "ver" -> Near4(v) \o Tup([i \in 1..12 |-> LE4(i - 1)]) \o Tup([i \in 1..12 |-> LE4(514 + i)]) \o Tup([i \in 1..13 |-> LE4(998 + i)])
                      \o << SetB(v, 2, Xor1(v[2], 64)), SetB(v, 3, 1), SetB(v, 4, 1) >>
    [] t.t = "pad" -> <<LE4(1), <<255, 255, 255, 255>>>>

-----------------------------------------------------------------------------
(* Small saves to damage: one value of every kind in every sort of place *)
RepTexts(g) ==
  << EmptyTxt >> \o (IF g.civ THEN <<Txt(LE4(2), [k |-> "None", o |-> <<S("inv")>>]), Txt(Zero4, [k |-> "None", o |-> <<>>])>> ELSE <<>>)
  \o << Txt(LE4(8), [k |-> "Base", ns |-> <<S("n")>>, key |-> <<>>, src |-> << <<233>> >>]),
        Txt(Zero4, [k |-> "Named", x |-> EmptyTxt, nas |-> << <<S("a"), IArg(g, 4)>>, <<S("b"), UArg(g, 5)>>, <<S("c"), TArg(EmptyTxt)>> >>]),
        Txt(Zero4, [k |-> "Ordered", x |-> EmptyTxt, oas |-> <<FArg(0), DArg(0), IArg(g, 1)>>]),
        Txt(Zero4, [k |-> "Argument", x |-> EmptyTxt, nas |-> << <<S("a"), FArg(1)>> >>]),
        Txt(Zero4, [k |-> "Number", a |-> IArg(g, 4), fo |-> <<Fo(1)>>, cu |-> <<S("e")>>]),
        Txt(Zero4, [k |-> "Percent", a |-> DArg(8), fo |-> <<>>, cu |-> <<>>]),
        Txt(Zero4, [k |-> "Currency", code |-> <<S("E")>>, a |-> UArg(g, 5), fo |-> <<>>, cu |-> <<S("f")>>]),
        Txt(Zero4, [k |-> "Date", v |-> Pick(Ints(8), 4), dst |-> 1, cul |-> S("e")]),
        Txt(Zero4, [k |-> "Time", v |-> Pick(Ints(8), 5), tst |-> 2, tz |-> S("U"), cul |-> <<>>]),
        Txt(Zero4, [k |-> "DateTime", v |-> Pick(Ints(8), 3), dst |-> 3, tst |-> 4, tz |-> <<>>, cul |-> <<26085>>]),
        Txt(Zero4, [k |-> "Transform", x |-> EmptyTxt, tt |-> 0]),
        Txt(Zero4, [k |-> "Table", id |-> S("T"), s |-> S("k")]) >>
RepGated(g) ==
  MapS(LAMBDA sv : StructP(sv, G1), SubSeq(FixedSvs(g), 1, 4)) \o MapS(LAMBDA x : [k |-> "Text", x |-> x], RepTexts(g))
RepPlain(g) ==
  Tup([i \in 1..7 |-> [k |-> ScalarOrder[i], v |-> Ints(ScalarSize[ScalarOrder[i]])[5]]])
  \o << [k |-> "Float", v |-> F4s[1]], [k |-> "Double", v |-> F8s[1]], BoolP(1), BoolP(0),
        [k |-> "Byte", n |-> <<S("E")>>, v |-> <<7>>], [k |-> "ByteNs", n |-> <<S("E")>>, s |-> S("E::V")],
        [k |-> "Enum", t |-> <<S("E")>>, s |-> S("E::V")], StrP(S("Hello")), StrP(<<233, 26085>>), [k |-> "Str", o |-> <<>>], StrP(<<>>),
        [k |-> "Name", ai |-> LE4(1), o |-> <<S("nm")>>], [k |-> "Object", s |-> S("/O")], [k |-> "Delegate", d |-> <<S("/O"), S("F")>>],
        [k |-> "MInline", dl |-> << <<S("/O"), S("F")>>, <<S("p"), S("q")>> >>], [k |-> "MSparse", dl |-> << <<S("/O"), S("F")>> >>],
        [k |-> "FieldPath", path |-> <<S("a"), S("b")>>, s |-> S("o")], [k |-> "Unknown", ty |-> UnkT, raw |-> <<1, 2, 3, 4>>] >>
  \o MapS(LAMBDA sv : StructP(sv, G1), SubSeq(FixedSvs(g), 5, 10))
  \o << StructP(CustomSvs[3], G2), Arr(TInt, Elems("Int", 3)), SetP(TStr, LE4(1), Elems("Str", 2)), MapP(TName, TBool, Zero4, << <<NameP(S("k")), BoolP(1)>> >>),
        SArr(S("e"), StGuid, G1, <<Fixed(StGuid, 1), Fixed(StGuid, 2)>>), MapP(TInt, TStruct, LE4(2), << <<IntP(3), SvP(Fixed(StIntPoint, 0))>> >>),
        Arr(UnkT, Elems("Unknown", 2)), Arr(TInt, <<>>), SetP(TInt, Zero4, <<>>), MapP(TStr, TInt, Zero4, <<>>), SArr(S("e"), SCust, G1, <<>>) >>
FHdrsDef == << MinHd(2, <<>>), MinHd(3, Cv(<<LE4(28)>>, <<LE4(32)>>)) >>
FLeafDef == << RepPlain(Gates(FHdrsDef[1].cvs)) \o RepGated(Gates(FHdrsDef[1].cvs)), RepGated(Gates(FHdrsDef[2].cvs)) >>
ASSUME TLCSet(130, FHdrsDef) /\ TLCSet(131, FLeafDef)
FHdrs == TLCGet(130)
FLeaf == TLCGet(131)
FCtxs == <<1, 3, 6, 7, 11, 13, 15, 16, 19>>
NFCtx == 9
NF1 == Len(FLeaf[1])
NF2 == Len(FLeaf[2])
NFD == (NF1 + NF2) * NFCtx
\* damaged documents 0 .. NFD - 1
FDoc(i) == LET c == FCtxs[(i % NFCtx) + 1]  j == i \div NFCtx
           IN IF j < NF1 THEN File(FHdrs[1], Ctx(c, FLeaf[1][j + 1])) ELSE File(FHdrs[2], Ctx(c, FLeaf[2][j - NF1 + 1]))
\* values far down: documents NFD .. NFA - 1
FCodes == << <<1, 1, 1, 1, 1, 1, 1>>, <<2, 2, 2, 2, 2, 2, 2>>, <<3, 3, 3, 3, 3, 3, 3>>, <<4, 4, 4, 4, 4, 4, 4>>, <<1, 2, 3, 4, 1, 2, 3, 4>>, <<4, 3, 2, 1, 1, 5, 1>>, Rep(1, 12), <<3, 1, 1, 6, 1, 1, 4>> >>
FBelow == << 1, 11, 15, 22, 32, 34, 35, 36, 40, 43 >>          \* into FLeaf[1]
NFCode == Len(FCodes)
NFBelow == Len(FBelow)
NFA == NFD + NFCode * NFBelow
FDocA(i) == IF i < NFD THEN FDoc(i)
            ELSE LET j == i - NFD IN File(FHdrs[1], << <<S("X"), NestP(FCodes[(j % NFCode) + 1], FLeaf[1][FBelow[(j \div NFCode) + 1]])>>, <<S("Z"), IntP(1)>> >>)
\* other strings in the place of a whole string, in either form: characters of several bytes from every place within a character, words of the format
Single8(s) == LET u == Utf8Bytes(s) IN LE4(Len(u) + 1) \o u \o <<0>>
Units16(s) == LET u == Utf16Units(s) IN LE4S(-(Len(u) + 1)) \o Utf16Bytes(s) \o <<0, 0>>
OtherStrsDef ==
  LET runs == Cat([k \in 1..4 |-> << Rep(97, k - 1) \o Rep(233, 33), Rep(97, k - 1) \o Rep(26085, 24), Rep(97, k - 1) \o Rep(128512, 18) >>])
  IN MapS(Single8, runs) \o MapS(Units16, SubSeq(runs, 1, 6)) \o << Zero4, EncStr(<<>>), LE4S(-1) \o <<0, 0>>, EncStr(SNone), Units16(SNone), EncStr(Rep(97, 300)), Single8(Rep(233, 150)), EncStr(S("x")),
       EncStr(TInt), EncStr(TStruct), EncStr(TArray), EncStr(TBool), EncStr(TByte), EncStr(TText), EncStr(StVector), EncStr(StGuid), EncStr(TMap), Units16(TInt), EncStr(<<0>>), EncStr(<<65, 0, 66>>) >>
ASSUME TLCSet(132, OtherStrsDef)
OtherStrs == TLCGet(132)
NHdrTok(f) == Len(HeaderT(f.hdr))
=============================================================================
