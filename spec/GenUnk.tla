------------------------------- MODULE GenUnk -------------------------------
(***************************************************************************)
(* Properties of unknown type: type names x payloads x positions, next to  *)
(* every kind of neighbour; elements of arrays and sets with every size;   *)
(* places where the size cannot be known.                                  *)
(***************************************************************************)
EXTENDS GenBase

U(ty, raw) == [k |-> "Unknown", ty |-> ty, raw |-> raw]
DocV(f) == LET b == EncFile(f)  h == HintsOf(f.ps) IN Sound(f, b, h) /\ Out([op |-> "doc", ck |-> <<"read", "write", "rw", "wr", "clone">>, h |-> h, f |-> f, b |-> b])
\* the outcome is the specified reader's
ReadV(b, h) == LET r == ReadFile(b, h, "Default") IN
               Out([op |-> "read", b |-> b, h |-> h, gv |-> "Default", x |-> IF r.r = "ok" THEN [r |-> "ok", file |-> r.file] ELSE [r |-> "err"]])

\* names: odd ones, and every known name slightly changed
OddNames == << UnkT, <<>>, S("Property"), S("None"), S("X"), <<26085, 26412>>, <<65536>>, <<0>>, <<233>>, S("SoftObjectProperty"), S("InterfaceProperty"), S("SoftClassProperty"),
               S("LazyObjectProperty"), S("WeakObjectProperty"), S("ClassProperty"), S("MulticastDelegateProperty"), S("OptionalProperty"), S("Utf8StrProperty"), S("VerseStringProperty"),
               S("UInt8Property"), S("Vector"), S("Guid"), S("DateTime"), S("StructPropertyValue"), S("UnknownProperty"), S("LargeWorldCoordinatesRealProperty"), S("Key"), S("StructProperty.X"), Asc(300), Wide(200) >> \o GameWords
NKT == 24
Variant(t, v) == CASE v = 0 -> t \o S("2") [] v = 1 -> SubSeq(t, 1, Len(t) - 1) [] v = 2 -> <<t[1] + 32>> \o Tail(t) [] v = 3 -> Tail(t) [] v = 4 -> t \o <<32>> [] v = 5 -> t \o <<0>>
                   [] v = 6 -> S("U") \o t [] v = 7 -> SubSeq(t, 1, Len(t) - 8) [] v = 8 -> <<32>> \o t [] v = 9 -> t \o t
TyNamesDef == SelectSeq(OddNames \o Tup([i \in 1..(NKT * 10) |-> Variant(KindTable[((i - 1) % NKT) + 1][1], (i - 1) \div NKT)]), LAMBDA t : t \notin KnownTypes)
ASSUME TLCSet(152, TyNamesDef)
TyNames == TLCGet(152)
NTy == Len(TyNames)
\* payloads: empty, tiny, looking like other parts of the format, special values, large
PaysDef == << <<>>, <<0>>, <<255>>, <<1, 2, 3>>, Zero4, Rep(255, 4), EncStr(SNone), EncStr(SNone) \o Zero4, EncStr(S("X")) \o EncStr(TInt), Flat(PropT(IntP(5), HG[1])), Rep(0, 16), Rep(255, 33),
              S("GVAS"), EncStr(<<26085>>), Tup([i \in 1..256 |-> i - 1]), Rep(7, 127), Rep(7, 128), Rep(7, 255), Noise(1000), EncFile(File(Hdrs[1], <<>>)), Noise(4095), Noise(4096), Noise(8193) >>
ASSUME TLCSet(153, PaysDef)
Pays == TLCGet(153)
NPay == Len(Pays)
Huge(i) == Noise(<<65535, 65536, 65537, 131072, 200000>>[i + 1])

\* 1: names x positions;  2: payloads x positions x a few names
Item1(i) == DocV(File(Hdrs[(i % NH) + 1], SimpleCtx((i \div NTy) + 1, U(TyNames[(i % NTy) + 1], Pays[(i % 7) + 1]))))
N1 == NTy * NSimple
Item2(i) == DocV(File(Hdrs[(i % NH) + 1], SimpleCtx(((i \div NPay) % NSimple) + 1, U(<<UnkT, <<26085>>, <<>>, S("arrayProperty")>>[(i \div (NPay * NSimple)) + 1], Pays[(i % NPay) + 1]))))
N2 == NPay * NSimple * 4
Item3(i) == DocV(File(Hdrs[1], SimpleCtx(((i \div 5) % NSimple) + 1, U(UnkT, Huge(i % 5)))))
N3 == IF Thorough THEN 5 * NSimple ELSE 5
\* 4: neighbours: every leaf before and after, in a file and in a struct
Item4(i) ==
  LET h == (i % NH) + 1  p == LeafTab[h][(i % NLeaf) + 1]  u == U(UnkT, Pays[(i % NPay) + 1])  v == U(S("OtherProperty"), Pays[((i + 5) % NPay) + 1])  c == i \div NLeaf IN
  DocV(File(Hdrs[h], CASE c = 0 -> << <<S("a"), u>>, <<S("b"), p>>, <<S("c"), v>> >>
                       [] c = 1 -> << <<S("o"), StructP(Custom(<< <<S("a"), <<u, p, v>> >>, <<S("b"), <<p, u>> >> >>), G1)>>, <<S("z"), p>> >>
                       [] c = 2 -> << <<S("o"), SArr(S("o"), SCust, G2, <<Custom(<< <<S("a"), <<u>> >>, <<S("b"), <<p>> >> >>), Custom(<< <<S("b"), <<p, v>> >> >>)>>)>>, <<S("z"), u>> >>))
N4 == NLeaf * 3
\* 5: elements of arrays and sets: element size x count
ESizes == <<1, 2, 3, 4, 5, 8, 16, 17, 100, 255, 256, 300>>
Counts == <<0, 1, 2, 3, 7, 64, 255, 256>>
EDoc(sz, n, ty, st) ==
  LET es == Tup([j \in 1..n |-> U(ty, Tup([k \in 1..sz |-> (j * 31 + k * 7) % 256]))])
      p == IF st = 0 THEN Arr(ty, es) ELSE SetP(ty, LE4(n * 3), es)
  IN p
Item5(i) ==
  LET sz == ESizes[(i % 12) + 1]  n == Counts[((i \div 12) % 8) + 1]  st == (i \div 96) % 2  c == i \div 192  p == EDoc(sz, n, TyNames[(i % NTy) + 1], st) IN
  DocV(File(Hdrs[1], CASE c = 0 -> << <<S("X"), p>>, <<S("Z"), IntP(1)>> >> [] c = 1 -> << <<S("O"), StructP(Custom(<< <<S("X"), <<p, p>> >> >>), G1)>>, <<S("Z"), IntP(1)>> >>))
N5 == 12 * 8 * 2 * 2
\* 6: declared sizes that do not fit the count
Item6(i) ==
  LET n == (i % 7) + 1  len == i \div 7  st == len % 2  L == len \div 2
      hd == EncStr(IF st = 0 THEN TArray ELSE TSet) \o LE4(L) \o Zero4 \o EncStr(UnkT) \o <<0>>
      b == Flat(HeaderT(Hdrs[1])) \o EncStr(S("X")) \o hd \o (IF st = 0 THEN <<>> ELSE Zero4) \o LE4(n) \o Noise(60) \o EncStr(S("Z")) \o Flat(PropT(IntP(1), HG[1])) \o EncStr(SNone) \o Zero4
  IN ReadV(b, <<>>)
N6 == 7 * 2 * 70
\* 7: no size: map keys and values, and elements of an empty payload
Item7(i) ==
  LET ty == TyNames[((i * 5) % NTy) + 1]  c == (i \div 60) % 6  n == (i \div 360)
      kt == CASE c \in {0, 2} -> ty [] c = 1 -> TStr [] c = 3 -> TInt [] c = 4 -> TName [] OTHER -> TEnum
      vt == CASE c = 0 -> TInt [] OTHER -> ty
      ent == (IF kt = TInt THEN LE4(3) ELSE EncStr(S("k"))) \o LE4(9)
      body == Zero4 \o LE4(n) \o (IF n = 0 THEN <<>> ELSE ent)
      b == Flat(HeaderT(Hdrs[1])) \o EncStr(S("X")) \o EncStr(TMap) \o LE4(Len(body)) \o Zero4 \o EncStr(kt) \o EncStr(vt) \o <<0>> \o body
           \o EncStr(S("Z")) \o Flat(PropT(IntP(1), HG[1])) \o EncStr(SNone) \o Zero4
      r == ReadFile(b, <<>>, "Default")
  IN Must((r.r = "ok") = (n = 0), <<"unknown in a map", r>>) /\ ReadV(b, <<>>)
N7 == 60 * 6 * 2
\* 8: a property by itself, with and without a suggested size
Item8(i) ==
  LET ty == TyNames[(i % NTy) + 1]  sug == <<-1, 0, 1, 2, 3, 4, 16, 60, 61, 100>>[((i \div NTy) % 10) + 1]  c == i \div (NTy * 10)
      b == IF c = 0 THEN Noise(60) ELSE LE4(<<0, 1, 5, 51, 52, 1000>>[c]) \o Zero4 \o <<0>> \o Noise(51)
      r == Run(StartProp(b, 0, <<>>, HG[1], ty, c > 0, sug, <<>>), b, <<>>)
  IN Out([op |-> "prop_read", b |-> b, p |-> 0, path |-> <<>>, cvs |-> <<>>, ty |-> ty, tagged |-> c > 0, sug |-> sug, h |-> <<>>,
          x |-> IF r.st = "ok" THEN [r |-> "ok", prop |-> r.val, p |-> r.p] ELSE [r |-> "err"]])
N8 == NTy * 10 * 7
Item9(i) ==
  LET u == U(TyNames[(i % NTy) + 1], Pays[(i % NPay) + 1])  b == Flat(BodyT(u, HG[1]))  pb == Flat(PropT(u, HG[1])) IN
  /\ Out([op |-> "prop_write", prop |-> u, tagged |-> TRUE, cvs |-> <<>>, x |-> [r |-> "ok", b |-> pb, n |-> Len(pb)]])
  /\ Out([op |-> "prop_write", prop |-> u, tagged |-> FALSE, cvs |-> <<>>, x |-> [r |-> "ok", b |-> b, n |-> Len(b)]])

\* 10: special numbers as size and index, any terminator
NNum4 == Len(NumI(4))
Item10(i) ==
  LET c == i % 3  j == i \div 3
      sz == IF j < NNum4 THEN NumI(4)[j + 1] ELSE LE4(5)
      ai == IF j \in NNum4..(2 * NNum4 - 1) THEN NumI(4)[j - NNum4 + 1] ELSE Zero4
      tm == IF j >= 2 * NNum4 THEN <<j - 2 * NNum4>> ELSE <<0>>
      u == EncStr(S("X")) \o EncStr(TyNames[(i % NTy) + 1]) \o sz \o ai \o tm \o <<1, 2, 3, 4, 5>>
      z == EncStr(S("Z")) \o Flat(PropT(IntP(1), HG[1])) \o EncStr(SNone)
      o == u \o z
      b == Flat(HeaderT(Hdrs[1])) \o (CASE c = 0 -> o [] c = 1 -> EncStr(S("S")) \o EncStr(TStruct) \o LE4(Len(o)) \o Zero4 \o EncStr(SCust) \o Zero16 \o <<0>> \o o \o z
                                       [] c = 2 -> EncStr(S("Z")) \o Flat(PropT(IntP(1), HG[1])) \o u \o EncStr(SNone)) \o Zero4
  IN ReadV(b, <<>>)
N10 == 3 * (2 * NNum4 + 256)

SegsDef == <<N1, N2, N3, N4, N5, N6, N7, N8, NTy, N10>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2])
             [] s[1] = 5 -> Item5(s[2]) [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2]) [] s[1] = 9 -> Item9(s[2]) [] s[1] = 10 -> Item10(s[2])
Init == InitC(Total, 30)
Next == NextC(Total, 30, Emit)
=============================================================================
