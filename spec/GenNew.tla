------------------------------- MODULE GenNew -------------------------------
(***************************************************************************)
(* Construction of arrays and maps from elements: homogeneous lists, lists *)
(* with one odd element, metadata the compact forms cannot hold, declared  *)
(* types that do or do not match.                                          *)
(***************************************************************************)
EXTENDS GenBase

\* elements in all their forms, with the kind they count as
OddsDef == << IntP(1), BoolP(1), BoolP(0), [k |-> "Byte", n |-> <<>>, v |-> <<7>>], [k |-> "Byte", n |-> <<S("E")>>, v |-> <<7>>], [k |-> "Byte", n |-> << <<>> >>, v |-> <<0>>],
           [k |-> "Byte", n |-> <<SNone>>, v |-> <<0>>], [k |-> "ByteNs", n |-> <<>>, s |-> S("E::a")], [k |-> "ByteNs", n |-> <<S("E")>>, s |-> S("E::a")],
           EnumP(S("E::a")), [k |-> "Enum", t |-> <<S("E")>>, s |-> S("E::a")], [k |-> "Enum", t |-> << <<>> >>, s |-> S("E::a")],
           [k |-> "Float", v |-> F4(1)], [k |-> "Float", v |-> <<0, 0, 0, 128>>], [k |-> "Float", v |-> <<1, 2, 160, 255>>], NameP(S("n")), [k |-> "Name", ai |-> Zero4, o |-> <<>>],
           [k |-> "Name", ai |-> LE4(1), o |-> <<S("n")>>], [k |-> "Name", ai |-> Rep(255, 4), o |-> <<>>], NameP(<<>>), [k |-> "Name", ai |-> <<0, 0, 0, 1>>, o |-> <<S("n")>>],
           StrP(S("s")), [k |-> "Str", o |-> <<>>], StrP(<<>>), SvP(Custom(<<>>)), SvP(Custom(<< <<S("f"), <<IntP(1)>> >> >>)), SvP(Fixed(StGuid, 1)), StructP(Custom(<<>>), G1),
           StructP(Fixed(StGuid, 1), Zero16), [k |-> "Int64", v |-> LE8(5)], [k |-> "UInt32", v |-> LE4(5)], [k |-> "Double", v |-> F8(1)], [k |-> "Int8", v |-> <<255>>], [k |-> "Object", s |-> S("o")],
           [k |-> "Text", x |-> BaseTxt(S("t"))], Arr(TInt, <<IntP(1)>>), SetP(TInt, Zero4, <<>>), MapP(TStr, TInt, Zero4, <<>>), [k |-> "Unknown", ty |-> UnkT, raw |-> <<1>>], [k |-> "Delegate", d |-> <<S("o"), S("f")>>],
           [k |-> "MInline", dl |-> <<>>], [k |-> "FieldPath", path |-> <<>>, s |-> <<>>], [k |-> "Int16", v |-> <<1, 2>>], [k |-> "UInt16", v |-> <<1, 2>>], [k |-> "UInt64", v |-> LE8(7)] >>
ASSUME TLCSet(152, OddsDef)
Odds == TLCGet(152)
NOdd == Len(Odds)
Types == << TBool, TByte, TEnum, TInt, TFloat, TName, TStr, TStruct, TInt64, TText, TDouble, TArray, UnkT, <<>> >>
NTy == 14
Infos == << <<>>, << <<S("f"), S("T"), G1>> >>, << <<S("f"), StGuid, Zero16>> >>, << << <<>>, <<>>, Zero16>> >> >>
\* a written form is given where every element is of the declared type
Fits(et, e) == TypeName(e) = et /\ e.k \notin {"Struct", "Array", "Set", "Map"}
ArrV(et, f, es) ==
  LET p == MkArray(et, f, es)  b == Flat(PropT(p, HG[1]))
      x == IF p.w = "ERR" THEN [r |-> "err"] ELSE [r |-> "ok", prop |-> p]
  IN IF p.w # "ERR" /\ (f # <<>> \/ et # TStruct) /\ \A i \in 1..Len(es) : Fits(et, es[i])
     THEN Out([op |-> "array_new", et |-> et, f |-> f, es |-> es, x |-> x, cvs |-> <<>>, w |-> [r |-> "ok", b |-> b, n |-> Len(b)]])
     ELSE Out([op |-> "array_new", et |-> et, f |-> f, es |-> es, x |-> x, cvs |-> <<>>])
\* 1: declared type x info x one kind of element, 0 to 3 of them
Item1(i) == LET et == Types[Digit(i, <<NTy, 4, NOdd, 4>>, 1) + 1]  f == Infos[Digit(i, <<NTy, 4, NOdd, 4>>, 2) + 1]  e == Odds[Digit(i, <<NTy, 4, NOdd, 4>>, 3) + 1] IN
            ArrV(et, f, Rep(e, Digit(i, <<NTy, 4, NOdd, 4>>, 4)))
N1 == NTy * 4 * NOdd * 4
\* 2: two kinds, the second at the start, in the middle or at the end; declared as either
Item2(i) ==
  LET a == Odds[Digit(i, <<NOdd, NOdd, 4>>, 1) + 1]  b == Odds[Digit(i, <<NOdd, NOdd, 4>>, 2) + 1]  pos == Digit(i, <<NOdd, NOdd, 4>>, 3)
      es == CASE pos = 0 -> <<b, a, a>> [] pos = 1 -> <<a, b, a>> [] pos = 2 -> <<a, a, b>> [] pos = 3 -> Rep(a, 70) \o <<b>> \o Rep(a, 60)
  IN ArrV(TypeName(a), <<>>, es) /\ (TypeName(a) = TStruct => ArrV(TStruct, Infos[2 + (pos % 3)], es))
N2 == NOdd * NOdd * 4
\* 3: lengths
Item3(i) == LET kd == ElemKinds[(i % NEK) + 1]  n == <<0, 1, 2, 9, 130, 300>>[(i \div NEK) + 1] IN
            ArrV(TypeOfKind(kd), IF TypeOfKind(kd) = TStruct THEN Infos[2] ELSE <<>>, Elems(kd, n))
\* maps; keys are made distinct
NKF == 11
KeyAt(f, n) == CASE f = 1 -> EnumP(S("E") \o <<64 + n>>) [] f = 2 -> [k |-> "Enum", t |-> <<S("T")>>, s |-> S("E") \o <<64 + n>>] [] f = 3 -> NameP(S("k") \o <<64 + n>>)
                 [] f = 4 -> [k |-> "Name", ai |-> LE4(n), o |-> <<S("k")>>] [] f = 5 -> [k |-> "Name", ai |-> Zero4, o |-> <<>>] [] f = 6 -> StrP(S("k") \o <<64 + n>>)
                 [] f = 7 -> [k |-> "Str", o |-> <<>>] [] f = 8 -> IntP(n) [] f = 9 -> [k |-> "Byte", n |-> <<>>, v |-> <<n>>] [] f = 10 -> SvP(Custom(<< <<S("f"), <<IntP(n)>> >> >>))
                 [] f = 11 -> [k |-> "Object", s |-> S("k") \o <<64 + n>>]
Distinct(kvs) == \A a, b \in 1..Len(kvs) : a < b => ~SameKey(kvs[a][1], kvs[b][1])
MapV(kt, vt, af, kvs) ==
  LET p == MkMap(kt, vt, af, kvs)  b == Flat(PropT(p, HG[1])) IN
  Distinct(kvs) =>
    IF \A i \in 1..Len(kvs) : Fits(kt, kvs[i][1]) /\ Fits(vt, kvs[i][2])
    THEN Out([op |-> "map_new", kt |-> kt, vt |-> vt, af |-> af, kvs |-> kvs, x |-> [r |-> "ok", prop |-> p], cvs |-> <<>>, w |-> [r |-> "ok", b |-> b, n |-> Len(b)]])
    ELSE Out([op |-> "map_new", kt |-> kt, vt |-> vt, af |-> af, kvs |-> kvs, x |-> [r |-> "ok", prop |-> p], cvs |-> <<>>])
KTypes == <<TEnum, TName, TStr, TInt, TByte, TStruct, UnkT>>
VTypes == <<TBool, TInt, TStr, TFloat, TName, TStruct, TEnum, TByte>>
Flags == <<Zero4, LE4(1), <<0, 0, 0, 128>>, <<0, 1, 0, 0>>, Rep(255, 4)>>
\* 4: declared types x flags x key form x value, 0 to 2 entries
Item4(i) ==
  LET r == <<7, 8, NKF, NOdd>>  kt == KTypes[Digit(i, r, 1) + 1]  vt == VTypes[Digit(i, r, 2) + 1]  kf == Digit(i, r, 3) + 1  v == Odds[Digit(i, r, 4) + 1]  n == IF kf \in {5, 7} THEN 1 ELSE (i % 3) IN
  \* only where at least the key or the value matches, to keep the number down
  (TypeName(KeyAt(kf, 1)) = kt \/ i % 9 = 0) =>
     LET kvs == Tup([j \in 1..n |-> <<KeyAt(kf, j), v>>]) IN MapV(kt, vt, Zero4, kvs) /\ MapV(kt, vt, Flags[(i % 4) + 2], kvs)
N4 == 7 * 8 * NKF * NOdd
\* 5: one odd entry among good ones
Good(vt, n) == CASE vt = TBool -> BoolP(n % 2) [] vt = TInt -> IntP(n) [] vt = TStr -> StrP(<<64 + n>>) [] vt = TFloat -> [k |-> "Float", v |-> F4(n)] [] vt = TName -> NameP(<<64 + n>>)
                 [] vt = TStruct -> SvP(Custom(<<>>)) [] vt = TEnum -> EnumP(<<64 + n>>) [] vt = TByte -> [k |-> "Byte", n |-> <<>>, v |-> <<n>>]
Item5(i) ==
  LET r == <<3, 8, 3, NKF + NOdd>>  kt == KTypes[Digit(i, r, 1) + 1]  vt == VTypes[Digit(i, r, 2) + 1]  pos == Digit(i, r, 3) + 1  o == Digit(i, r, 4)  kf == <<1, 3, 6>>[Digit(i, r, 1) + 1] IN
  MapV(kt, vt, Zero4, Tup([j \in 1..3 |-> IF j # pos THEN <<KeyAt(kf, j), Good(vt, j)>> ELSE IF o < NKF THEN <<KeyAt(o + 1, j), Good(vt, j)>> ELSE <<KeyAt(kf, j), Odds[o - NKF + 1]>>]))
N5 == 3 * 8 * 3 * (NKF + NOdd)
\* 6: sizes
Item6(i) == LET kk == MapKinds[Digit(i, <<NMK, NMK, 3>>, 1) + 1]  vk == MapKinds[Digit(i, <<NMK, NMK, 3>>, 2) + 1]  m == MapOf(kk, vk, <<0, 3, 140>>[Digit(i, <<NMK, NMK, 3>>, 3) + 1]) IN
            (i < 2 * NMK * NMK \/ i % 7 = 0) => MapV(m.kt, m.vt, m.af, m.kvs)
\* 7: every bit of the flags
Item7(i) == LET kt == KTypes[(i % 3) + 1]  vt == VTypes[((i \div 3) % 8) + 1]  af == (OneBit(4) \o AllBut(4) \o <<Rep(255, 4)>>)[(i \div 48) + 1]  n == 2 * ((i \div 24) % 2)  kf == <<1, 3, 6>>[(i % 3) + 1] IN
            MapV(kt, vt, af, Tup([j \in 1..n |-> <<KeyAt(kf, j), Good(vt, j)>>]))
\* 8: one odd element far into a long list or map
FarNs == <<33, 64, 65, 128, 200, 256, 257, 300, 512, 513, 600, 1024, 1025>>
Item8(i) ==
  LET kd == <<"Bool", "Byte", "Enum", "Int", "Float", "Name", "Str">>[(i % 7) + 1]  n == FarNs[((i \div 7) % 13) + 1]  o == i \div 91
      odd == CASE o = 0 -> [k |-> "Int", v |-> Rep(255, 4)] [] o = 1 -> StrP(<<>>) [] o = 2 -> [k |-> "Name", ai |-> LE4(1), o |-> <<S("n")>>] [] o = 3 -> [k |-> "Byte", n |-> <<S("E")>>, v |-> <<7>>] [] o = 4 -> [k |-> "Enum", t |-> <<S("T")>>, s |-> S("E")]
               [] o = 5 -> [k |-> "Str", o |-> <<>>] [] o = 6 -> [k |-> "Float", v |-> <<1, 2, 160, 255>>] [] o = 7 -> BoolP(1)
      es == Elems(kd, n) IN
  /\ ArrV(TypeOfKind(kd), <<>>, [es EXCEPT ![n] = odd])
  /\ kd \in {"Enum", "Name", "Str"} => LET kvs == Tup([j \in 1..n |-> <<es[j], Good(VTypes[(i % 3) + 1], j % 60)>>]) IN
                                     MapV(TypeOfKind(kd), VTypes[(i % 3) + 1], Zero4, [kvs EXCEPT ![n][2] = odd]) /\ (n < 300 => MapV(TypeOfKind(kd), VTypes[(i % 3) + 1], Zero4, [kvs EXCEPT ![n][1] = odd]))
SegsDef == <<N1, N2, 6 * NEK, N4, N5, NMK * NMK * 3, 48 * 65, 91 * 8>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2])
             [] s[1] = 5 -> Item5(s[2]) [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2])
Init == InitC(Total, 60)
Next == NextC(Total, 60, Emit)
=============================================================================
