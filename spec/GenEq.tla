------------------------------- MODULE GenEq -------------------------------
(***************************************************************************)
(* Equality and hashing.  A vector is a group of properties with the class *)
(* each belongs to; two are equal exactly if their classes are, and then   *)
(* they hash equally.  Classes are computed from the canonical form        *)
(* (numbers up to the sign of zero and the kind of NaN, maps and struct    *)
(* fields without order).                                                  *)
(***************************************************************************)
EXTENDS GenBase

Classes(ps) ==
  LET cs == Tup([i \in 1..Len(ps) |-> Canon(ps[i])])
  IN Tup([i \in 1..Len(ps) |-> CHOOSE j \in 1..i : ps[j].k = ps[i].k /\ cs[j] = cs[i] /\ \A l \in 1..(j - 1) : ~(ps[l].k = ps[i].k /\ cs[l] = cs[i])])
Group(ps) == Out([op |-> "pair", ps |-> ps, cl |-> Classes(ps)])
Perms3 == << <<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>> >>
Shuffle(s, pi) == Tup([i \in 1..3 |-> s[pi[i]]])
Rev(s) == Tup([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Rot(s, n) == IF s = <<>> THEN s ELSE Tup([i \in 1..Len(s) |-> s[((i + n - 1) % Len(s)) + 1]])

\* 1: all leaves of a header, with and without their tags
Item1(i) == LET ls == LeafTab[i + 1] IN Group(SubSeq(ls, 1, 150)) /\ Group(SubSeq(ls, 100, Len(ls))) /\ Group(MapS(HL, ls))
\* 2: numbers
Item2(i) ==
  LET f4 == F4s \o << <<0, 0, 192, 255>>, <<1, 0, 128, 127>>, <<1, 0, 0, 128>>, <<0, 0, 128, 191>> >>
      f8 == F8s \o << <<0, 0, 0, 0, 0, 0, 248, 255>>, <<1, 0, 0, 0, 0, 0, 240, 127>>, <<1, 0, 0, 0, 0, 0, 0, 128>> >>
  IN CASE i = 0 -> Group(MapS(LAMBDA v : [k |-> "Float", v |-> v], f4)) [] i = 1 -> Group(MapS(LAMBDA v : [k |-> "Double", v |-> v], f8))
       [] i = 2 -> Group(MapS(LAMBDA v : Arr(TFloat, <<[k |-> "Float", v |-> v], [k |-> "Float", v |-> Zero4]>>), f4))
       [] i = 3 -> Group(MapS(LAMBDA v : SetP(TDouble, Zero4, <<[k |-> "Double", v |-> v]>>), f8))
       [] i = 4 -> Group(MapS(LAMBDA v : StructP([k |-> "VectorF", vs |-> <<v, F4(1), v>>], Zero16), f4) \o MapS(LAMBDA v : StructP([k |-> "RotatorF", vs |-> <<v, F4(1), v>>], Zero16), f4))
       [] i = 5 -> Group(MapS(LAMBDA v : StructP([k |-> "QuatD", vs |-> <<F8(1), v, v, F8(2)>>], Zero16), f8) \o MapS(LAMBDA v : StructP([k |-> "Vector2D", vs |-> <<v, F8(1)>>], Zero16), f8))
       [] i = 6 -> Group(MapS(LAMBDA v : StructP([k |-> "LinearColor", vs |-> <<F4(1), F4(2), v, F4(3)>>], Zero16), f4))
       [] i = 7 -> Group(MapS(LAMBDA v : MapP(TFloat, TFloat, Zero4, << <<[k |-> "Float", v |-> v], [k |-> "Float", v |-> v]>> >>), f4))
       [] i = 8 -> Group(MapS(LAMBDA v : MapP(TStr, TDouble, Zero4, << <<StrP(S("k")), [k |-> "Double", v |-> v]>> >>), f8))
       [] i = 9 -> Group(MapS(LAMBDA v : [k |-> "Text", x |-> Txt(Zero4, [k |-> "Ordered", x |-> EmptyTxt, oas |-> <<[k |-> "Float", v |-> v]>>])], f4)
                         \o MapS(LAMBDA v : [k |-> "Text", x |-> Txt(Zero4, [k |-> "Number", a |-> [k |-> "Double", v |-> v], fo |-> <<>>, cu |-> <<>>])], f8))
       [] i = 10 -> Group(MapS(LAMBDA v : SvP(Custom(<< <<S("a"), <<[k |-> "Float", v |-> v], IntP(1)>> >> >>)), f4))
       \* each component by itself
       [] i = 11 -> Group(Tup([n \in 1..8 |-> StructP([k |-> "QuatF", vs |-> [Rep(Zero4, 4) EXCEPT ![((n - 1) % 4) + 1] = IF n <= 4 THEN F4(1) ELSE <<0, 0, 0, 128>>]], Zero16)])
                          \o Tup([n \in 1..8 |-> StructP([k |-> "LinearColor", vs |-> [Rep(Zero4, 4) EXCEPT ![((n - 1) % 4) + 1] = IF n <= 4 THEN F4(1) ELSE <<0, 0, 0, 128>>]], Zero16)])
                          \o Tup([n \in 1..6 |-> StructP([k |-> "RotatorD", vs |-> [Rep(Zero8, 3) EXCEPT ![((n - 1) % 3) + 1] = IF n <= 3 THEN F8(1) ELSE <<0, 0, 0, 0, 0, 0, 0, 128>>]], Zero16)]))
\* 3: entry orders of maps of every key and value kind
Item3(i) ==
  LET m == MapOf(MapKinds[(i % NMK) + 1], MapKinds[(i \div NMK) + 1], 3)
      More == [m EXCEPT !.af = LE4(1), !.w = "Properties"] IN
  IF Len(m.kvs) = 3
  THEN Group(Tup([n \in 1..6 |-> [m EXCEPT !.kvs = Shuffle(@, Perms3[n])]])
             \o <<[m EXCEPT !.kvs = <<@[1], @[2]>>], [m EXCEPT !.kvs = <<@[2], @[1]>>], [m EXCEPT !.kvs = << <<@[1][1], @[2][2]>>, <<@[2][1], @[1][2]>>, @[3]>>],
                More, [More EXCEPT !.kvs = Rev(@)], [m EXCEPT !.w = "Properties", !.kvs = Rot(@, 1)], [m EXCEPT !.w = "Properties"]>>)
  ELSE Group(<<m, [m EXCEPT !.kvs = Rev(@)], More>>)
\* 4: field orders of structs, nested in containers (as values, keys and elements)
Wrap(c, sv) ==
  CASE c = 0 -> StructP(sv, G1) [] c = 1 -> SvP(sv) [] c = 2 -> StructP(Custom(<< <<S("o"), <<StructP(sv, Zero16)>> >>, <<S("p"), <<IntP(1)>> >> >>), Zero16)
    [] c = 3 -> SArr(S("f"), SCust, G2, <<sv, Custom(<<>>)>>) [] c = 4 -> SetP(TStruct, Zero4, <<SvP(sv)>>) [] c = 5 -> MapP(TStruct, TInt, Zero4, << <<SvP(sv), IntP(1)>>, <<SvP(Custom(<< <<S("z"), <<IntP(9)>> >> >>)), IntP(2)>> >>)
    [] c = 6 -> MapP(TStr, TStruct, Zero4, << <<StrP(S("k")), SvP(sv)>> >>) [] c = 7 -> MapP(TInt, TStruct, LE4(1), << <<IntP(1), SvP(Custom(<< <<S("q"), <<MapP(TStruct, TStruct, Zero4, << <<SvP(sv), SvP(sv)>> >>)>> >> >>))>> >>)
Item4(i) ==
  LET c == i % 8  k == i \div 8
      fs == << <<S("a"), <<LeafTab[1][((k * 3) % NLeaf) + 1]>> >>, <<S("b"), <<LeafTab[1][((k * 3 + 1) % NLeaf) + 1], IntP(1)>> >>, <<S("c"), <<LeafTab[1][((k * 3 + 2) % NLeaf) + 1]>> >> >>
      swap == << <<S("a"), fs[1][2]>>, <<S("b"), Rev(fs[2][2])>>, fs[3]>>
  IN Group(Tup([n \in 1..6 |-> Wrap(c, Custom(Shuffle(fs, Perms3[n])))])
           \o <<Wrap(c, Custom(swap)), Wrap(c, Custom(<<fs[1], fs[2]>>)), Wrap(c, Custom(<<fs[2], fs[1]>>)), Wrap(c, Custom(<< <<S("a"), fs[2][2]>>, <<S("b"), fs[1][2]>>, fs[3]>>)), Wrap(c, Custom(<<>>))>>)
\* 5: text arguments
Item5(i) ==
  LET kd == <<"Named", "Argument">>[(i % 2) + 1]  nas == << <<S("a"), FArg(i)>>, <<S("b"), TArg(BaseTxt(S("x")))>>, <<S("c"), [k |-> "Int", v |-> LE4(i)]>> >>
      P(a) == [k |-> "Text", x |-> Txt(LE4(1), [k |-> kd, x |-> EmptyTxt, nas |-> a])]
      Q(a) == [k |-> "Text", x |-> Txt(LE4(1), [k |-> "Transform", x |-> P(a).x, tt |-> 0])]
      O(a) == [k |-> "Text", x |-> Txt(LE4(1), [k |-> "Ordered", x |-> EmptyTxt, oas |-> MapS(LAMBDA y : y[2], a)])]
  IN Group(Tup([n \in 1..6 |-> P(Shuffle(nas, Perms3[n]))]) \o Tup([n \in 1..6 |-> Q(Shuffle(nas, Perms3[n]))]) \o Tup([n \in 1..6 |-> O(Shuffle(nas, Perms3[n]))]) \o <<P(<<>>), P(<<nas[1], nas[2]>>), P(<<nas[2], nas[1]>>)>>)
\* 6: values that differ in one field only
Item6(i) ==
  CASE i = 0 -> Group(Cat([g \in 1..5 |-> <<StructP(Custom(<<>>), Guids[g]), [k |-> "Struct", guid |-> Guids[g], tn |-> S("Other"), sv |-> Custom(<<>>)], SArr(S("f"), S("T"), Guids[g], <<>>), SArr(S("g"), S("T"), Guids[g], <<>>), SArr(S("f"), S("U"), Guids[g], <<>>),
                                            StructP(Fixed(StGuid, g - 1), Zero16)>>]))
    [] i = 1 -> Group(Cat([v \in 1..8 |-> LET x == Ints(4)[v] IN <<SetP(TInt, x, <<IntP(1)>>), SetP(TInt, x, <<>>), SetP(TStr, x, <<>>), MkMap(TInt, TInt, x, <<>>), MkMap(TInt, TStr, x, <<>>), MkMap(TStr, TInt, x, <<>>),
                                                                   [k |-> "Name", ai |-> x, o |-> <<S("n")>>], [k |-> "Name", ai |-> x, o |-> <<>>], [k |-> "Name", ai |-> x, o |-> << <<>> >>], [k |-> "Text", x |-> Txt(x, [k |-> "Empty"])]>>]))
    [] i = 2 -> Group(Cat([n \in 1..Len(StrPool) |-> LET s == StrPool[n] IN <<[k |-> "Enum", t |-> <<S("T")>>, s |-> s], [k |-> "Enum", t |-> <<s>>, s |-> S("T")], EnumP(s), [k |-> "ByteNs", n |-> <<s>>, s |-> S("v")], [k |-> "ByteNs", n |-> <<S("v")>>, s |-> s],
                                                                         [k |-> "Delegate", d |-> <<s, S("x")>>], [k |-> "Delegate", d |-> <<S("x"), s>>], [k |-> "Object", s |-> s], NameP(s), StrP(s), [k |-> "Unknown", ty |-> s, raw |-> <<1>>]>>]))
    [] i = 3 -> Group(Tup([n \in 1..64 |-> [k |-> "Text", x |-> Txt(Zero4, [k |-> "Number", a |-> FArg(0), fo |-> <<[sg |-> n % 2, gr |-> (n \div 2) % 2, rm |-> n % 7, vs |-> <<LE4(n % 3), LE4(n % 5), LE4(1), LE4((n \div 4) % 3)>>]>>, cu |-> <<>>])]])
                      \o Tup([n \in 1..25 |-> [k |-> "Text", x |-> Txt(Zero4, [k |-> "DateTime", v |-> LE8(n \div 13), dst |-> n % 5, tst |-> (n \div 5) % 5, tz |-> <<>>, cul |-> <<>>])]]))
    [] i = 4 -> Group(Cat([n \in 1..12 |-> LET k == ((n - 1) \div 4)  r == Tup([j \in 1..(n % 4) |-> j + k]) IN
                         <<[k |-> "Unknown", ty |-> UnkT, raw |-> r], StructP(Tags(MapS(LAMBDA c : <<64 + c>>, r)), Zero16), [k |-> "FieldPath", path |-> MapS(LAMBDA c : <<64 + c>>, r), s |-> S("o")],
                           [k |-> "MInline", dl |-> MapS(LAMBDA c : << <<64 + c>>, S("f")>>, r)], [k |-> "MSparse", dl |-> MapS(LAMBDA c : << <<64 + c>>, S("f")>>, r)], Arr(TInt, MapS(IntP, r)), SetP(TInt, Zero4, MapS(IntP, r)),
                           Arr(TStr, MapS(LAMBDA c : StrP(<<64 + c>>), r)), Arr(TName, MapS(LAMBDA c : NameP(<<64 + c>>), r)), Arr(TByte, MapS(LAMBDA c : [k |-> "Byte", n |-> <<>>, v |-> <<c>>], r)), Arr(TBool, MapS(LAMBDA c : BoolP(c % 2), r)),
                           Arr(TEnum, MapS(LAMBDA c : EnumP(<<64 + c>>), r)), Arr(TInt64, MapS(LAMBDA c : [k |-> "Int64", v |-> LE8(c)], r))>>]))
    [] i = 5 -> Group(Cat([n \in 1..Len(ElemKinds) |-> <<ArrOf(ElemKinds[n], 0), ArrOf(ElemKinds[n], 2), ArrOf(ElemKinds[n], 3), SetOf(ElemKinds[n], 0), SetOf(ElemKinds[n], 2),
                                                     [ArrOf(ElemKinds[n], 3) EXCEPT !.es = Rev(@)], [SetOf(ElemKinds[n], 3) EXCEPT !.es = Rev(@)], SetOf(ElemKinds[n], 3)>>]))
\* 7: larger maps in many orders
Item7(i) ==
  LET kk == <<"Str", "Name", "Enum", "Int", "Custom", "Text", "Object">>[(i % 7) + 1]  vk == <<"Bool", "Int", "Str", "Custom">>[((i \div 7) % 4) + 1]  n == <<10, 60, 130>>[(i \div 28) + 1]  m == MapOf(kk, vk, n)
  IN Group(<<m, [m EXCEPT !.kvs = Rev(@)], [m EXCEPT !.kvs = Rot(@, 1)], [m EXCEPT !.kvs = Rot(@, n \div 2)], [m EXCEPT !.kvs = Rev(Rot(@, 3))], [m EXCEPT !.kvs = Tail(@)], [m EXCEPT !.kvs = Rev(Tail(@))],
             [m EXCEPT !.kvs = << <<@[1][1], @[2][2]>>, <<@[2][1], @[3][2]>> >> \o SubSeq(@, 3, n)], StructP(Custom(<< <<S("m"), <<m>> >> >>), G1), StructP(Custom(<< <<S("m"), <<[m EXCEPT !.kvs = Rev(@)]>> >> >>), G1)>>)
\* 8, 9: a value among its neighbours
Some(l, n) == IF Len(l) <= n THEN l ELSE SubSeq(l, 1, n \div 2) \o SubSeq(l, Len(l) - n \div 2, Len(l))
NearGroup(p) == LET l == Near(p) IN Group(<<p>> \o Some(l, 120))
Item8(i) == NearGroup(LeafTab[(i \div NLeaf) + 1][(i % NLeaf) + 1])
Item9(i) ==
  LET kd == ElemKinds[(i % Len(ElemKinds)) + 1]  c == i \div Len(ElemKinds) IN
  CASE c = 0 -> NearGroup(ArrOf(kd, 2)) [] c = 1 -> NearGroup(SetOf(kd, 2))
    [] c = 2 -> (kd \notin {"Unknown", "ByteNs"} => NearGroup(MapOf(kd, "Int", 2)) /\ NearGroup(MapOf(kd, "Str", 2)))
    [] c = 3 -> (kd \notin {"Unknown", "ByteNs"} => NearGroup(MapOf("Name", kd, 2)) /\ NearGroup(MapOf("Custom", kd, 1)) /\ NearGroup(MapOf("Text", kd, 1)))
\* 10, 11: long values that differ in one place
LNs == <<17, 40, 70, 257, 300, 600>>
At(n) == <<1, n \div 2, n>>
Long(es, F(_), odd) == LET n == Len(es) IN <<F(es), F(SubSeq(es, 1, n - 1)), F(Tail(es))>> \o MapS(LAMBDA x : F([es EXCEPT ![x] = odd]), At(n)) \o <<F([es EXCEPT ![n] = es[n - 1], ![n - 1] = es[n]]), F([es EXCEPT ![1] = es[2], ![2] = es[1]])>>
Item10(i) ==
  LET kd == ElemKinds[(i % NEK) + 1]  n == LNs[(i \div NEK) + 1]  ty == TypeOfKind(kd)  es == Elems(kd, n)  odd == ElemOf(kd, n + 3) IN
  /\ Group(Long(es, LAMBDA x : SetP(ty, Zero4, x), odd))
  /\ Group(Long(es, LAMBDA x : IF ty = TStruct THEN MkArray(TStruct, << <<S("X"), TnOfKind(kd), G1>> >>, x) ELSE Arr(ty, x), odd))
  /\ (n <= 300 /\ kd \in {"Int", "Str", "Name", "Enum", "Object", "Text", "Custom", "Double"}) =>
        LET kvs == Tup([j \in 1..n |-> <<es[j], IntP(j)>>])  vks == Tup([j \in 1..n |-> <<StrP(S("k") \o <<300 + j>>), es[j]>>]) IN
        Group(Long(kvs, LAMBDA x : MkMap(ty, TInt, Zero4, x), <<odd, IntP(0)>>) \o MapS(LAMBDA x : MkMap(ty, TInt, Zero4, [kvs EXCEPT ![x] = <<@[1], IntP(0)>>]), At(n))
              \o Long(vks, LAMBDA x : MkMap(TStr, ty, Zero4, x), <<StrP(S("z")), odd>>) \o MapS(LAMBDA x : MkMap(TStr, ty, Zero4, [vks EXCEPT ![x] = <<@[1], odd>>]), At(n)))
Item11(i) ==
  LET n == LNs[(i % 6) + 1]  c == i \div 6  ss == Tup([j \in 1..n |-> S("s") \o <<300 + j>>])  zz == S("zz")
      Str(s) == Long(s, LAMBDA x : StrP(x), 122)
      T(h) == [k |-> "Text", x |-> Txt(Zero4, h)] IN
  CASE c = 0 -> Group(Str(Asc(n)) \o Str(Wide(n)) \o Long(Asc(n), NameP, 122) \o Long(Asc(n), LAMBDA x : [k |-> "Object", s |-> x], 122) \o Long(Asc(n), EnumP, 122))
    [] c = 1 -> Group(Long(ss, LAMBDA x : StructP(Tags(x), G1), zz) \o Long(ss, LAMBDA x : [k |-> "FieldPath", path |-> x, s |-> S("o")], zz))
    [] c = 2 -> Group(Long(ss, LAMBDA x : [k |-> "MInline", dl |-> MapS(LAMBDA y : <<S("o"), y>>, x)], zz) \o Long(ss, LAMBDA x : [k |-> "MSparse", dl |-> MapS(LAMBDA y : <<y, S("f")>>, x)], zz))
    [] c = 3 -> Group(Long(ss, LAMBDA x : StructP(Custom(MapS(LAMBDA y : <<y, <<IntP(1)>> >>, x)), G1), zz))
    [] c = 4 -> Group(Long(ss, LAMBDA x : StructP(Custom(<< <<S("f"), MapS(StrP, x)>> >>), G1), zz))
    [] c = 5 -> Group(Long(ss, LAMBDA x : T([k |-> "Ordered", x |-> EmptyTxt, oas |-> MapS(LAMBDA y : TArg(BaseTxt(y)), x)]), zz))
    [] c = 6 -> Group(Long(ss, LAMBDA x : T([k |-> "Named", x |-> EmptyTxt, nas |-> MapS(LAMBDA y : <<y, FArg(1)>>, x)]), zz))
    [] c = 7 -> Group(Long(Tup([j \in 1..n |-> j % 256]), LAMBDA x : [k |-> "Unknown", ty |-> UnkT, raw |-> x], 255))
SegsDef == <<NH, 12, NM1, 8 * (NLeaf \div 3), 11, 6, 84, NH * NLeaf, 4 * Len(ElemKinds), 6 * NEK, 48>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2])
             [] s[1] = 5 -> Item5(s[2]) [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2]) [] s[1] = 9 -> Item9(s[2]) [] s[1] = 10 -> Item10(s[2]) [] s[1] = 11 -> Item11(s[2])
Init == InitC(Total, 2)
Next == NextC(Total, 2, Emit)
=============================================================================
