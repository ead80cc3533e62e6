------------------------------- MODULE GenHuge -------------------------------
(***************************************************************************)
(* Saves too large to write out: a family F(c, n) of saves that grows by   *)
(* one element with n.  Its encoding is a head, whose counts and sizes are *)
(* linear in n, then one piece per element, then a tail.  The three are    *)
(* found by comparing the encodings for n = 2 and n = 3; that they give    *)
(* the encoding for other n as well is asserted.  The harness repeats the  *)
(* piece.                                                                  *)
(***************************************************************************)
EXTENDS GenBase

P == JsonDeserialize(IOEnv.PARAMS)        \* [sel |-> "coll" | "hint" | "raw" | "str" | "hdr" | "all", gvs |-> <<...>>, mode |-> what is tried, few |-> 0 | 1]
ASSUME TLCSet(152, P)
Sel == TLCGet(152).sel
Gvs == TLCGet(152).gvs
Mode == TLCGet(152).mode
Few == TLCGet(152).few = 1 /\ ~Thorough           \* fewer sizes

\* a counter in a name: four characters (digits in base 64, lowest first)
Ctr(j) == <<48 + (j % 64), 48 + ((j \div 64) % 64), 48 + ((j \div 4096) % 64), 48 + ((j \div 262144) % 64)>>
Key(j) == S("k") \o Ctr(j)
Same(kd, n) == Rep(ElemOf(kd, 5), n)
\* all different, as far as a kind has room for the counter; otherwise groups of seven
ElemC(kd, j) ==
  CASE kd \in {"Int", "UInt32", "Float"} -> [k |-> kd, v |-> Ctr(j)]
    [] kd \in {"Int64", "UInt64", "Double"} -> [k |-> kd, v |-> Ctr(j) \o <<1, 2, 3, 4>>]
    [] kd = "Enum" -> EnumP(Key(j)) [] kd = "Str" -> StrP(Key(j)) [] kd = "Name" -> NameP(Key(j)) [] kd = "Object" -> [k |-> kd, s |-> Key(j)]
    [] kd = "ByteNs" -> [k |-> kd, n |-> <<>>, s |-> Key(j)]
    [] kd = "Delegate" -> [k |-> kd, d |-> <<S("o"), Key(j)>>]
    [] kd \in {"MInline", "MSparse"} -> [k |-> kd, dl |-> << <<Key(j), S("f")>> >>]
    [] kd = "FieldPath" -> [k |-> kd, path |-> <<S("p"), Key(j)>>, s |-> S("o")]
    [] kd = "Text" -> [k |-> kd, x |-> BaseTxt(Key(j))]
    [] kd = "Custom" -> SvP(Custom(<< <<S("f"), <<[k |-> "Int", v |-> Ctr(j)]>> >> >>))
    [] kd = "Point" -> SvP([k |-> "IntPoint", vs |-> <<LE4(7), Ctr(j)>>])
    [] kd = "GuidSv" -> SvP([k |-> "Guid", vs |-> <<Ctr(j) \o SubSeq(G1, 1, 12)>>])
    [] kd = "TagSv" -> SvP(Tags(<<Key(j)>>))
    [] kd = "Unknown" -> [k |-> "Unknown", ty |-> UnkT, raw |-> Ctr(j)]
Small == {"Int8", "Int16", "UInt16", "Bool", "Byte"}
Seven(kd, j) == IF kd = "Bool" THEN BoolP(<<1, 0, 0, 1, 1, 1, 0>>[(j % 7) + 1]) ELSE ElemOf(kd, <<1, 5, 5, 200, 0, 64, 255>>[(j % 7) + 1])
Diff(kd, n) == IF kd \in Small THEN Tup([j \in 1..(7 * n) |-> Seven(kd, j)]) ELSE Tup([j \in 1..n |-> ElemC(kd, j)])
X2(p) == << <<S("X"), p>>, <<S("Z"), IntP(1)>> >>
MapKV == << <<"Str", "Int">>, <<"Name", "Bool">>, <<"Enum", "Int">>, <<"Str", "Str">>, <<"Str", "Bool">>, <<"Name", "Int">>, <<"Enum", "Bool">>,
            <<"Str", "Custom">>, <<"Name", "Point">>, <<"Enum", "Text">>, <<"Object", "Int">>, <<"Object", "Double">>, <<"Str", "Byte">> >>
KeyP(kd, j) == CASE kd = "Str" -> StrP(Key(j)) [] kd = "Name" -> NameP(Key(j)) [] kd = "Enum" -> EnumP(Key(j)) [] kd = "Object" -> [k |-> "Object", s |-> Key(j)]
NMap == Len(MapKV)
T(h) == [k |-> "Text", x |-> Txt(Zero4, h)]
Inner(n) == Custom(<< <<S("f"), <<ArrOf("Int", 2), [k |-> "Array", w |-> "Ints", et |-> TInt, f |-> <<>>, es |-> Same("Int", n)]>> >>, <<S("g"), <<IntP(2)>> >> >>)
ListF(c, n) ==
  LET I(F(_)) == Tup([j \in 1..n |-> F(j)])  X(p) == File(Hdrs[1], X2(p)) IN
  CASE c = 0 -> X([k |-> "MInline", dl |-> I(LAMBDA j : <<Key(j), S("f")>>)])
    [] c = 1 -> X([k |-> "MSparse", dl |-> I(LAMBDA j : <<S("o"), Key(j)>>)])
    [] c = 2 -> X([k |-> "FieldPath", path |-> I(Key), s |-> S("o")])
    [] c = 3 -> X(StructP(Tags(I(Key)), G1))
    [] c = 4 -> X(T([k |-> "Named", x |-> EmptyTxt, nas |-> I(LAMBDA j : <<Key(j), FArg(0)>>)]))
    [] c = 5 -> X(T([k |-> "Argument", x |-> EmptyTxt, nas |-> I(LAMBDA j : <<Key(j), DArg(0)>>)]))
    [] c = 6 -> X(T([k |-> "Ordered", x |-> BaseTxt(S("q")), oas |-> I(LAMBDA j : TArg(BaseTxt(S("in"))))]))
    [] c = 7 -> X(StructP(Custom(I(LAMBDA j : <<Key(j), <<IntP(3)>> >>)), G2))
    [] c = 8 -> X(StructP(Custom(IF n = 0 THEN <<>> ELSE << <<S("r"), I(LAMBDA j : StrP(<<233>>))>>, <<S("q"), <<IntP(1)>> >> >>), Zero16))
    [] c = 9 -> File(Hdrs[2], I(LAMBDA j : <<Key(j), StrP(S("v"))>>))
    [] c = 10 -> File([Hdrs[4] EXCEPT !.cvs = I(LAMBDA j : <<Key(j) \o SubSeq(G2, 1, 11), LE4(77)>>)], << <<S("X"), IntP(1)>> >>)
    [] c = 11 -> File([Hdrs[2] EXCEPT !.cvs = I(LAMBDA j : <<Key(j) \o SubSeq(G1, 1, 11), LE4(7)>>)], << <<S("X"), IntP(1)>> >>)
    [] c = 12 -> X(StructP(Inner(n), Zero16))
    [] c = 13 -> X(SArr(S("e"), SCust, G2, <<Inner(n), Inner(1)>>))
    [] c = 14 -> X(SetP(TStruct, LE4(1), <<SvP(Inner(n)), SvP(Custom(<<>>))>>))
    [] c = 15 -> X(MapP(TInt, TStruct, Zero4, << <<IntP(1), SvP(Inner(n))>> >>))
    [] c = 16 -> X(MapP(TStruct, TInt, LE4(2), << <<SvP(Inner(n)), IntP(1)>> >>))
    [] c = 17 -> File(Hdrs[5], X2(SArr(S("e"), StVector, G2, Rep(Geom(StVector, HG[5], 2), n))))
    [] c = 18 -> File(Hdrs[1], X2(SArr(S("e"), StVector, G2, Rep(Geom(StVector, HG[1], 2), n))))
    \* the same element again and again
    [] c = 19 -> X([k |-> "MInline", dl |-> Rep(<<S("o"), S("f")>>, n)])
    [] c = 20 -> X([k |-> "MSparse", dl |-> Rep(<<S("o"), S("f")>>, n)])
    [] c = 21 -> X([k |-> "FieldPath", path |-> Rep(S("p"), n), s |-> S("o")])
    [] c = 22 -> X(StructP(Tags(Rep(S("A.B"), n)), G1))
    [] c = 23 -> X(T([k |-> "Ordered", x |-> EmptyTxt, oas |-> Rep(FArg(1), n)]))
    [] c = 24 -> X(StructP(Custom(IF n = 0 THEN <<>> ELSE << <<S("r"), Rep(IntP(3), n)>>, <<S("q"), <<BoolP(1)>> >> >>), Zero16))
NList == 25
RawF(c, n) ==
  LET u == [k |-> "Unknown", ty |-> UnkT, raw |-> Rep(201, n)] IN
  CASE c = 0 -> File(Hdrs[1], X2(u))
    [] c = 1 -> File(Hdrs[3], X2(StructP(Custom(<< <<S("f"), <<u>> >> >>), G1)))
    [] c = 2 -> File(Hdrs[1], X2(SArr(S("e"), SCust, G2, <<Custom(<< <<S("f"), <<u>> >> >>), Custom(<<>>)>>)))
    [] c = 3 -> File(Hdrs[1], X2(SetP(TStruct, Zero4, <<SvP(Custom(<< <<S("f"), <<u>> >> >>))>>)))
    [] c = 4 -> File(Hdrs[1], X2(MapP(TStr, TStruct, Zero4, << <<StrP(S("a")), SvP(Custom(<< <<S("f"), <<u>> >> >>))>> >>)))
\* every place where a string stands, the string occurring once
SlotF(c, w) ==
  LET X(p) == File(Hdrs[1], X2(p))  base(a, b, s) == T([k |-> "Base", ns |-> <<a>>, key |-> <<b>>, src |-> <<s>>])
      cs == Custom(<< <<S("f"), <<StrP(w)>> >>, <<S("g"), <<IntP(1)>> >> >>)  a == S("a") IN
  CASE c = 0 -> X(StrP(w)) [] c = 1 -> X(NameP(w)) [] c = 2 -> X([k |-> "Object", s |-> w]) [] c = 3 -> X([k |-> "Enum", t |-> <<w>>, s |-> a]) [] c = 4 -> X([k |-> "Enum", t |-> <<a>>, s |-> w])
    [] c = 5 -> X([k |-> "Byte", n |-> <<w>>, v |-> <<3>>]) [] c = 6 -> X([k |-> "ByteNs", n |-> <<a>>, s |-> w]) [] c = 7 -> X([k |-> "Delegate", d |-> <<w, a>>]) [] c = 8 -> X([k |-> "Delegate", d |-> <<a, w>>])
    [] c = 9 -> X([k |-> "MInline", dl |-> << <<a, w>>, <<a, a>> >>]) [] c = 10 -> X([k |-> "MSparse", dl |-> << <<a, a>>, <<w, a>> >>])
    [] c = 11 -> X([k |-> "FieldPath", path |-> <<a, w>>, s |-> a]) [] c = 12 -> X([k |-> "FieldPath", path |-> <<a>>, s |-> w])
    [] c = 13 -> X(StructP(Tags(<<a, w>>), G1)) [] c = 14 -> X([StructP(Custom(<<>>), G1) EXCEPT !.tn = w]) [] c = 15 -> X(StructP(cs, G1)) [] c = 16 -> X(StructP(Custom(<< <<w, <<IntP(1)>> >> >>), G1))
    [] c = 17 -> X(SArr(w, SCust, G1, <<Custom(<<>>)>>)) [] c = 18 -> X(SArr(S("e"), w, G1, <<Custom(<<>>)>>)) [] c = 19 -> X(SArr(S("e"), SCust, G1, <<cs, Custom(<<>>)>>))
    [] c = 20 -> X(Arr(TStr, <<StrP(a), StrP(w)>>)) [] c = 21 -> X(Arr(TName, <<NameP(w), NameP(a)>>)) [] c = 22 -> X(Arr(TEnum, <<EnumP(w)>>)) [] c = 23 -> X(SetP(TStr, LE4(1), <<StrP(w), StrP(a)>>))
    [] c = 24 -> X(SetP(TStruct, Zero4, <<SvP(cs)>>)) [] c = 25 -> X(MapP(TStr, TInt, Zero4, << <<StrP(w), IntP(1)>> >>)) [] c = 26 -> X(MapP(TInt, TStr, Zero4, << <<IntP(1), StrP(w)>> >>))
    [] c = 27 -> X(MapP(TStr, TStr, Zero4, << <<StrP(a), StrP(w)>> >>)) [] c = 28 -> X(MapP(TName, TStruct, Zero4, << <<NameP(a), SvP(cs)>> >>))
    [] c = 29 -> X(base(w, a, a)) [] c = 30 -> X(base(a, w, a)) [] c = 31 -> X(base(a, a, w)) [] c = 32 -> X(T([k |-> "Table", id |-> w, s |-> a])) [] c = 33 -> X(T([k |-> "Table", id |-> a, s |-> w]))
    [] c = 34 -> X(T([k |-> "Named", x |-> EmptyTxt, nas |-> << <<w, FArg(1)>> >>])) [] c = 35 -> X(T([k |-> "Ordered", x |-> EmptyTxt, oas |-> <<TArg(BaseTxt(w))>>]))
    [] c = 36 -> X(T([k |-> "Date", v |-> LE8(5), dst |-> 1, cul |-> w])) [] c = 37 -> X(T([k |-> "Time", v |-> LE8(5), tst |-> 1, tz |-> w, cul |-> S("en")]))
    [] c = 38 -> X(T([k |-> "Currency", code |-> <<w>>, a |-> FArg(1), fo |-> <<>>, cu |-> <<>>])) [] c = 39 -> File(Hdrs[CHOOSE x \in 1..NH : HG[x].civ], X2(T([k |-> "None", o |-> <<w>>])))
    [] c = 40 -> X([k |-> "Unknown", ty |-> w, raw |-> <<1, 2, 3>>]) [] c = 41 -> File(Hdrs[1], << <<a, IntP(1)>>, <<w, IntP(2)>>, <<S("z"), IntP(3)>> >>)
    [] c = 42 -> File([Hdrs[1] EXCEPT !.cls = w], X2(IntP(1))) [] c = 43 -> File([Hdrs[4] EXCEPT !.br = w], X2(IntP(1)))
NSlot == 44
\* ASCII; one unit per character; two units per character, beginning at an even or at an odd place
Fill(m, n) == CASE m = 0 -> Rep(97, n) [] m = 1 -> Rep(26085, n) [] m = 2 -> Rep(128512, n) [] m = 3 -> <<97>> \o Rep(128512, n)
\* families: 1 arrays, 2 sets, 3 maps, 4 other lists, 5 raw payloads, 6 strings,
\* 7 arrays and sets whose elements differ
F(s, c, n) ==
  CASE s = 1 -> LET kd == ElemKinds[c + 1] IN File(Hdrs[(c % NH) + 1], X2(IF TypeOfKind(kd) = TStruct THEN MkArray(TStruct, << <<S("X"), TnOfKind(kd), G1>> >>, Same(kd, n)) ELSE Arr(TypeOfKind(kd), Same(kd, n))))
    [] s = 2 -> LET kd == ElemKinds[c + 1] IN File(Hdrs[(c % NH) + 1], X2(SetP(TypeOfKind(kd), LE4(9), Same(kd, n))))
    [] s = 3 -> LET kv == MapKV[(c % NMap) + 1] IN
                File(Hdrs[1], X2(MapP(TypeOfKind(kv[1]), TypeOfKind(kv[2]), IF c < NMap THEN Zero4 ELSE LE4(3), Tup([j \in 1..n |-> <<KeyP(kv[1], j), ElemOf(kv[2], 5)>>]))))
    [] s = 4 -> ListF(c, n)
    [] s = 5 -> RawF(c, n)
    [] s = 7 -> LET kd == ElemKinds[(c \div 2) + 1]  ty == TypeOfKind(kd) IN
                File(Hdrs[((c \div 2) % NH) + 1],
                     X2(IF c % 2 = 1 THEN SetP(ty, Zero4, Diff(kd, n)) ELSE IF ty = TStruct THEN MkArray(TStruct, << <<S("X"), TnOfKind(kd), G1>> >>, Diff(kd, n)) ELSE Arr(ty, Diff(kd, n))))
    [] s = 6 -> SlotF(c \div 4, Fill(c % 4, n))

Varies == {"len", "size", "cnt"}                  \* and slen in family 6
Common(t2, t3) ==        \* length of the common part
  LET m == IF Len(t2) < Len(t3) THEN Len(t2) ELSE Len(t3)
      Like(i) == t2[i].t = t3[i].t /\ (t2[i].b = t3[i].b \/ t2[i].t \in Varies)
  IN CHOOSE k \in 0..m : (k = m \/ ~Like(k + 1)) /\ \A i \in 1..k : Like(i)
Bend(a, b, n) == IF a.b = b.b THEN b.b
                 ELSE LET v == LE4S(I32(b.b) + (n - 3) * (I32(b.b) - I32(a.b))) IN IF Len(b.b) = 8 THEN v \o Zero4 ELSE v
CtrAt(piece) == LET at == {o \in 0..(Len(piece) - 4) : SubSeq(piece, o + 1, o + 4) = Ctr(3)} IN IF at = {} THEN <<>> ELSE <<CHOOSE o \in at : TRUE>>
\* a raw payload or a string is one token: its byte or character is the piece
Split(s, c) ==
  LET t2 == FileT(F(s, c, 2))  t3 == FileT(F(s, c, 3)) IN
  IF s = 5
  THEN LET i == CHOOSE j \in 1..Len(t3) : t3[j].t = "raw" IN
       [hd2 |-> SubSeq(t2, 1, i), hd |-> SubSeq(t3, 1, i - 1) \o <<t2[i]>>, piece |-> <<201>>, tail |-> Flat(SubSeq(t3, i + 1, Len(t3)))]
  ELSE IF s = 6
  THEN LET i == CHOOSE j \in 1..Len(t3) : t3[j].t = "sdat" /\ t3[j].b # t2[j].b IN
       [hd2 |-> SubSeq(t2, 1, i), hd |-> SubSeq(t3, 1, i - 1) \o <<t2[i]>>, piece |-> SubSeq(t3[i].b, Len(t2[i].b) + 1, Len(t3[i].b)), tail |-> Flat(SubSeq(t3, i + 1, Len(t3)))]
  ELSE LET k == Common(t2, t3)  m == Len(t3) - Len(t2) IN
       [hd2 |-> SubSeq(t2, 1, k), hd |-> SubSeq(t3, 1, k), piece |-> Flat(SubSeq(t3, k + 1, k + m)), tail |-> Flat(SubSeq(t3, k + m + 1, Len(t3)))]
\* n >= 2
Segs3(d, n) ==
  << [b |-> Flat(Tup([i \in 1..Len(d.hd) |-> [t |-> "x", b |-> Bend(d.hd2[i], d.hd[i], n)]])), n |-> 1, ctr |-> <<>>],
     [b |-> d.piece, n |-> n - 2, ctr |-> CtrAt(d.piece)],
     [b |-> d.tail, n |-> 1, ctr |-> <<>>] >>
PieceJ(g, j) == IF g.ctr = <<>> THEN g.b ELSE SubSeq(g.b, 1, g.ctr[1]) \o Ctr(j + 2) \o SubSeq(g.b, g.ctr[1] + 5, Len(g.b))
Expand(segs) == Cat([x \in 1..3 |-> Cat([j \in 1..segs[x].n |-> IF x = 2 THEN PieceJ(segs[x], j) ELSE segs[x].b])])

Item(s, c, ns) ==
  LET f == F(s, c, 5)  h == HintsOf(f.ps)  d == Split(s, c) IN
  (Sel = "hint" /\ h = <<>>) \/
  /\ Sound(f, EncFile(f), h)
  /\ \A k \in {2, 3, 5, 9} : Must(Expand(Segs3(d, k)) = EncFile(F(s, c, k)), <<"not linear", s, c, k>>)
  /\ \A x \in 1..Len(ns) : Out([op |-> "huge", h |-> h, segs |-> Segs3(d, ns[x]), gvs |-> Gvs, mode |-> Mode])
\* powers of two and of ten, their neighbours, and more than sixteen bits count
Sizes == IF Few THEN <<4096, 65536, 70000>> ELSE <<1000, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 70000, 100000>> \o (IF Thorough THEN <<2047, 2048, 10000, 32769, 65537, 131072, 200000, 1000000>> ELSE <<>>)
RawSizes == IF Few THEN <<65536, 70000, 16777300>> ELSE <<4095, 4096, 8192, 32767, 32768, 65535, 65536, 70000, 1048576, 1048577, 16777216, 16777300>>
StrSizes(m) == IF Few THEN <<8192, IF m <= 1 THEN 131071 ELSE 65535>> ELSE <<4095, 4096, 8191, 8192, 16384, 32767, 32768, 65534, 65535>> \o (IF m <= 1 THEN <<65536, 100000, 131071>> ELSE <<>>)
HdrCases == <<10, 11>>                            \* lists of a header
HdrSlots == <<42 * 4, 42 * 4 + 1, 43 * 4, 43 * 4 + 1, 42 * 4 + 3, 43 * 4 + 2>>
SegsDef == CASE Sel = "all" -> <<NEK, NEK, 2 * NMap, NList, 5, 4 * NSlot, 2 * NEK>>
             [] Sel \in {"coll", "hint"} -> <<NEK, NEK, 2 * NMap, NList, 0, 0, 2 * NEK>>
             [] Sel = "str" -> <<0, 0, 0, 0, 0, 4 * NSlot, 0>>
             [] Sel = "hdr" -> <<0, 0, 0, 2, 0, 6, 0>>
             [] Sel = "raw" -> <<0, 0, 0, 0, 5, 4, 0>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 5 -> Item(5, s[2], RawSizes)
             [] s[1] = 6 -> LET c == CASE Sel = "hdr" -> HdrSlots[s[2] + 1] [] Sel = "raw" -> 160 + s[2] [] OTHER -> s[2] IN Item(6, c, StrSizes(c % 4))
             [] s[1] = 7 -> Item(7, s[2], IF ElemKinds[(s[2] \div 2) + 1] \in Small THEN <<586, 10000>> ELSE <<4097, 70000>>)
             [] s[1] < 5 -> Item(s[1], IF Sel = "hdr" THEN HdrCases[s[2] + 1] ELSE s[2], Sizes)
Init == InitC(Total, 1)
Next == NextC(Total, 1, Emit)
=============================================================================
