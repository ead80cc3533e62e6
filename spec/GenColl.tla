------------------------------ MODULE GenColl ------------------------------
(***************************************************************************)
(* Collections beyond the canonical pool: repeated map keys, repeated and  *)
(* interleaved struct fields, repeated text arguments, metadata of every   *)
(* collection, and very large collections.                                 *)
(***************************************************************************)
EXTENDS GenBase

DocV(f, ck) == Out([op |-> "doc", ck |-> ck, h |-> HintsOf(f.ps), f |-> f, b |-> EncFile(f)])
ReadX(b, h, f) == Out([op |-> "read", stable |-> 1, b |-> b, h |-> h, gv |-> "Default", x |-> [r |-> "ok", file |-> f]])
X1(p) == << <<S("X"), p>>, <<S("Z"), IntP(1)>> >>
In(c, p) == CASE c = 0 -> X1(p) [] c = 1 -> X1(StructP(Custom(<< <<S("f"), <<p>> >>, <<S("g"), <<IntP(2)>> >> >>), G1))
              [] c = 2 -> X1(SArr(S("e"), SCust, G2, <<Custom(<< <<S("f"), <<p>> >> >>), Custom(<<>>)>>))

\* 1: repeated keys: the value of the last occurrence at the place of the first (stated here without the reader)
Pats == << <<1, 1>>, <<1, 2, 1>>, <<1, 2, 3, 2, 1>>, <<1, 1, 1, 2>>, <<2, 1, 2, 2, 1, 3>>, <<1, 2, 3, 3>>, <<3, 2, 1, 1, 2, 3, 3, 2, 1>> >>
NPat == 7
VKinds == <<"Int", "Str", "Bool", "Custom", "Float", "Point">>
Dedup(kvs) ==
  LET Firsts == SelectSeq(Tup([i \in 1..Len(kvs) |-> i]), LAMBDA i : \A j \in 1..(i - 1) : ~SameKey(kvs[j][1], kvs[i][1]))
      LastOf(i) == CHOOSE j \in i..Len(kvs) : SameKey(kvs[j][1], kvs[i][1]) /\ \A l \in (j + 1)..Len(kvs) : ~SameKey(kvs[l][1], kvs[i][1])
  IN Tup([n \in 1..Len(Firsts) |-> <<kvs[Firsts[n]][1], kvs[LastOf(Firsts[n])][2]>>])
DupDoc(kt, vt, kvs, c) ==
  LET raw == File(Hdrs[1], In(c, MkMap(kt, vt, LE4(9), kvs)))
      f == File(Hdrs[1], In(c, MkMap(kt, vt, LE4(9), Dedup(kvs))))
      b == EncFile(raw)  h == HintsOf(raw.ps)  r == ReadFile(b, h, "Default")
  IN /\ Must(r.r = "ok" /\ r.file = f, <<"repeated keys", f>>)
     /\ ReadX(b, h, f)
N1 == NMK * NPat * 6
Item1(i) ==
  LET kk == MapKinds[(i % NMK) + 1]  pat == Pats[((i \div NMK) % NPat) + 1]  vk == VKinds[(i \div (NMK * NPat)) + 1] IN
  DupDoc(TypeOfKind(kk), TypeOfKind(vk), Tup([n \in 1..Len(pat) |-> <<ElemOf(kk, pat[n]), ElemOf(vk, n)>>]), i % 3)
\* 2: keys that compare equal although their bytes differ: zeros of both signs, NaNs, fields in another order
Fl(v) == [k |-> "Float", v |-> v]
Db(v) == [k |-> "Double", v |-> v]
CF(fs) == SvP(Custom(fs))
Twins == << <<Fl(Zero4), Fl(<<0, 0, 0, 128>>)>>, <<Fl(<<0, 0, 192, 127>>), Fl(<<1, 2, 160, 255>>)>>, <<Db(Zero8), Db(<<0, 0, 0, 0, 0, 0, 0, 128>>)>>,
            <<Db(<<0, 0, 0, 0, 0, 0, 248, 127>>), Db(<<1, 2, 3, 4, 5, 6, 244, 255>>)>>,
            <<CF(<< <<S("a"), <<IntP(1)>> >>, <<S("b"), <<IntP(2)>> >> >>), CF(<< <<S("b"), <<IntP(2)>> >>, <<S("a"), <<IntP(1)>> >> >>)>>,
            <<CF(<< <<S("a"), <<Fl(Zero4)>> >> >>), CF(<< <<S("a"), <<Fl(<<0, 0, 0, 128>>)>> >> >>)>>,
            <<CF(<< <<S("a"), <<IntP(1), IntP(2)>> >> >>), CF(<< <<S("a"), <<IntP(2), IntP(1)>> >> >>)>>,
            <<CF(<<>>), CF(<< <<S("a"), <<IntP(1)>> >> >>)>>,
            <<Fl(Zero4), Fl(<<1, 0, 0, 0>>)>> >>
Item2(i) == LET t == Twins[(i % Len(Twins)) + 1]  c == i \div Len(Twins)
            IN DupDoc(TypeName(t[1]), TInt, << <<t[1], IntP(1)>>, <<t[2], IntP(2)>> >>, c)
               /\ DupDoc(TypeName(t[1]), TStr, << <<t[2], StrP(S("x"))>>, <<t[1], StrP(S("y"))>>, <<t[2], StrP(S("z"))>> >>, c)
\* 3: struct fields repeated in any arrangement: all values of a name together, in order, at the place of the first
FPats == << <<1, 1>>, <<1, 2, 1>>, <<1, 2, 1, 2>>, <<1, 2, 3, 2, 1>>, <<2, 2, 1, 2, 3, 1, 1>>, <<1, 2, 3>>, <<3, 3, 3, 3>> >>
FName(n) == <<S("f"), <<26085>>, <<>> >>[n]
FVal(n, j) == CASE (n + j) % 5 = 0 -> IntP(j) [] (n + j) % 5 = 1 -> StrP(<<64 + j>>) [] (n + j) % 5 = 2 -> BoolP(j % 2)
                [] (n + j) % 5 = 3 -> StructP(Custom(<< <<S("q"), <<IntP(j)>> >> >>), G2) [] OTHER -> Arr(TInt, Elems("Int", j))
Group(fs) ==   \* fs: sequence of <<name, property>>
  LET Firsts == SelectSeq(Tup([i \in 1..Len(fs) |-> i]), LAMBDA i : \A j \in 1..(i - 1) : fs[j][1] # fs[i][1])
  IN Tup([n \in 1..Len(Firsts) |-> <<fs[Firsts[n]][1], MapS(LAMBDA x : x[2], SelectSeq(fs, LAMBDA x : x[1] = fs[Firsts[n]][1]))>>])
FieldCtx(c, sv) == CASE c = 0 -> X1(StructP(sv, G1)) [] c = 1 -> X1(SArr(S("e"), SCust, Zero16, <<sv, Custom(<<>>), sv>>))
                     [] c = 2 -> X1(SetP(TStruct, Zero4, <<SvP(sv)>>)) [] c = 3 -> X1(MapP(TInt, TStruct, Zero4, << <<IntP(1), SvP(sv)>> >>))
                     [] c = 4 -> X1(MapP(TStruct, TInt, Zero4, << <<SvP(sv), IntP(1)>> >>))
                     [] c = 5 -> X1(StructP(Custom(<< <<S("in"), <<StructP(sv, G2), StructP(sv, Zero16)>> >> >>), G1))
N3 == 7 * 6 * 2
Item3(i) ==
  LET pat == FPats[(i % 7) + 1]  c == (i \div 7) % 6  m == i \div 42
      fs == Tup([n \in 1..Len(pat) |-> <<FName(pat[n]), FVal(m * pat[n], n)>>])
      raw == File(Hdrs[1], FieldCtx(c, Custom(MapS(LAMBDA x : <<x[1], <<x[2]>> >>, fs))))
      f == File(Hdrs[1], FieldCtx(c, Custom(Group(fs))))
      b == EncFile(raw)  h == HintsOf(f.ps)  r == ReadFile(b, h, "Default")
  IN /\ Must(r.r = "ok" /\ r.file = f, <<"repeated fields", f>>)
     /\ ReadX(b, h, f) /\ DocV(f, <<"read", "write">>)
\* 4: repeated text argument names
Item4(i) ==
  LET pat == Pats[(i % NPat) + 1]  kd == <<"Named", "Argument">>[(i \div NPat) + 1]
      nas == Tup([n \in 1..Len(pat) |-> <<FName(pat[n]), [k |-> "Float", v |-> F4(n)]>>])
      Fold == FoldLeft(LAMBDA m, x : Put(m, x[1], x[2]), <<>>, nas)
      doc(a) == File(Hdrs[1], X1([k |-> "Text", x |-> Txt(LE4(2), [k |-> kd, x |-> EmptyTxt, nas |-> a])]))
      b == EncFile(doc(nas))  r == ReadFile(b, <<>>, "Default")
  IN Must(r.r = "ok" /\ r.file = doc(Fold), <<"repeated arguments", nas>>) /\ ReadX(b, <<>>, doc(Fold))
\* 5: metadata
Flags == Ints(4)
Item5(i) ==
  LET v == Flags[(i % 8) + 1]  n == (i \div 8) % 3  k == i \div 24  kd == <<"Int", "Str", "Custom", "Bool", "Byte", "Text">>[k + 1] IN
  /\ DocV(File(Hdrs[1], X1(SetP(TypeOfKind(kd), v, Elems(kd, n)))), <<"read", "write">>)
  /\ DocV(File(Hdrs[1], X1(MapP(TypeOfKind(kd), TypeOfKind(kd), v, Tup([j \in 1..n |-> <<ElemOf(kd, j), ElemOf(kd, j + 1)>>])))), <<"read", "write">>)
  /\ DocV(File(Hdrs[1], X1(MapP(TStr, TypeOfKind(kd), v, Tup([j \in 1..n |-> <<ElemOf("Str", j), ElemOf(kd, j + 1)>>])))), <<"read", "write">>)
N5 == 8 * 3 * 6
\* struct arrays: field name, type name, guid, number of elements
Item6(i) ==
  LET nm == <<S("X"), S("other"), <<>>, <<26085>>, SNone>>[(i % 5) + 1]  n == (i \div 5) % 4  gd == Guids[((i \div 20) % 5) + 1]
      tn == (<<SCust, StGuid, StVector, StTags, StDateTime>> \o NearNames)[(i \div 100) + 1]
      sv(j) == CASE tn = StGuid -> Fixed(StGuid, j) [] tn = StVector -> Geom(StVector, HG[1], j) [] tn = StTags -> Tags(<<S("t")>>)
                 [] tn = StDateTime -> Fixed(StDateTime, j) [] OTHER -> Custom(<< <<S("f"), <<IntP(j)>> >> >>)
      f == File(Hdrs[1], X1(SArr(nm, tn, gd, Tup([j \in 1..n |-> sv(j)]))))
  IN Must(ReadFile(EncFile(f), HintsOf(f.ps), "Default").file = f, <<"struct array", f>>) /\ DocV(f, <<"read", "write">>)
N6 == 5 * 4 * 5 * 18
\* 7: very large (the specification's writer alone gives the bytes)
Huge == <<65535, 65536, 70000>>
HugeKinds == <<"Byte", "Bool", "Int", "Int64", "Str">>
Item7(i) ==
  LET n == Huge[(i % 3) + 1]  c == i \div 3 IN
  CASE c < 4 -> DocV(File(Hdrs[1], X1(ArrOf(HugeKinds[c + 1], n))), <<"read", "write">>)
    [] c = 4 -> n = 65536 => DocV(File(Hdrs[1], X1(ArrOf("Str", n))), <<"read", "write">>)
    [] c = 5 -> DocV(File(Hdrs[1], X1(SetOf("Int", n))), <<"read", "write">>)
    [] c = 6 -> n = 70000 => DocV(File(Hdrs[1], X1(MapOf("Int", "Bool", n))), <<"read", "write">>)
    [] c = 7 -> n = 65536 => DocV(File(Hdrs[1], X1(MapOf("Str", "Int", n))), <<"read", "write">>)
    [] c = 8 -> n = 70000 => DocV(File(Hdrs[1], X1([k |-> "Unknown", ty |-> UnkT, raw |-> Tup([j \in 1..n |-> j % 251])])), <<"read", "write">>)
    [] c = 9 -> n = 65535 => DocV(File(Hdrs[1], X1(ArrOf("Point", n))), <<"read", "write">>)
    [] c = 10 -> n = 70000 => DocV(File(Hdrs[1], X1(SetOf("Byte", n))), <<"read", "write">>)
\* sizes of every kind in the thousands
Item8(i) ==
  LET kd == ElemKinds[(i % NEK) + 1]  n == 3000 + i  c == i \div NEK IN
  CASE c = 0 -> DocV(File(Hdrs[1], X1(ArrOf(kd, n))), <<"read", "write">>)
    [] c = 1 -> DocV(File(Hdrs[1], X1(SetOf(kd, n))), <<"read", "write">>)

SegsDef == <<N1, 3 * Len(Twins), N3, 2 * NPat, N5, N6, 33, 2 * NEK>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2])
             [] s[1] = 5 -> Item5(s[2]) [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2])
\* the large ones one per chunk
Init == InitC(Total, 6)
Next == NextC(Total, 6, Emit)
=============================================================================
