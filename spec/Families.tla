------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Families of saves: leaf values, contexts to put them in, headers with   *)
(* every combination of the version gates, collections of many sizes.      *)
(* Everything is indexed by small numbers, so that a model can walk over   *)
(* a family and a counterexample is identified by its index.               *)
(***************************************************************************)
EXTENDS Near, Numbers, Words

\* TLC precomputes a constant definition only if it is syntactically simple; the larger tables are therefore kept in
\* TLC registers, filled once by an assumption.

\* Cartesian indexing: digit k of i (0-based) in the mixed radix rs
RECURSIVE Digit(_, _, _)
Digit(i, rs, k) == IF k = 1 THEN i % rs[1] ELSE Digit(i \div rs[1], Tail(rs), k - 1)
Pick(s, i) == s[(i % Len(s)) + 1]
Flatten(ss) == Cat(ss)
Asc(n) == Tup([i \in 1..n |-> 65 + (i % 57)])             \* n ASCII characters
Wide(n) == Tup([i \in 1..n |-> 913 + (i % 700)])          \* n two-byte characters
Astral(n) == Tup([i \in 1..n |-> 65536 + i * 37])         \* n surrogate pairs

-----------------------------------------------------------------------------
(* Values *)
Ints(w) == << Rep(0, w), Rep(255, w), Rep(0, w - 1) \o <<128>>, Rep(255, w - 1) \o <<127>>,
              Tup([i \in 1..w |-> i]), Tup([i \in 1..w |-> 256 - 17 * i]), <<1>> \o Rep(0, w - 1),
              Rep(0, w - 1) \o <<1>> >>
F4s == << <<0, 0, 192, 63>>, Zero4, <<0, 0, 0, 128>>, <<0, 0, 128, 127>>, <<0, 0, 128, 255>>, <<0, 0, 192, 127>>,
          <<1, 2, 160, 255>>, <<1, 0, 0, 0>>, <<205, 204, 204, 61>>, <<255, 255, 127, 127>>, <<0, 0, 0, 192>> >>
F8s == << <<0, 0, 0, 0, 0, 0, 248, 63>>, Zero8, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 0, 0, 0, 240, 127>>,
          <<0, 0, 0, 0, 0, 0, 240, 255>>, <<0, 0, 0, 0, 0, 0, 248, 127>>, <<1, 2, 3, 4, 5, 6, 244, 255>>,
          <<1, 0, 0, 0, 0, 0, 0, 0>>, <<154, 153, 153, 153, 153, 153, 185, 63>>,
          <<255, 255, 255, 255, 255, 255, 239, 127>>, <<0, 0, 0, 0, 0, 0, 0, 192>> >>
\* finite ones only, for JSON
FinF4s == SelectSeq(F4s, LAMBDA v : v[4] \notin {127, 255} \/ v[3] < 128)
FinF8s == SelectSeq(F8s, LAMBDA v : v[8] \notin {127, 255} \/ v[7] < 240)

StrPool == << S("Hello World"), <<>>, S("A"), SNone, <<65, 0, 66>>, <<0>>, <<66, 0>>, <<127>>, <<128>>, <<233>>, <<255, 256>>,
              <<55295>>, <<57344>>, <<65535>>, <<65533, 65534>>, <<65536>>, <<1114111>>, <<65, 128512, 66, 128513>>, <<65279, 65>>,
              <<34, 92, 47, 10, 13, 9, 8, 12, 1, 31>>, S("a.b.c"), <<9, 32, 65, 32>>, S("0"), <<26085, 26412>>,
              Asc(31), Asc(127), Asc(128), Asc(255), Asc(256), Wide(64), Wide(127), Wide(130), Astral(40) >>
NameStrs == << S("EFoo::Bar"), S("None"), <<>>, <<26085>>, <<65, 0, 66>> >>

G1 == Tup([i \in 1..16 |-> i])
G2 == Tup([i \in 1..16 |-> 256 - 3 * i])
GHalf == Zero8 \o <<0, 0, 0, 0, 0, 0, 0, 1>>
Guids == <<Zero16, G1, G2, GHalf, <<1>> \o SubSeq(Zero16, 1, 15)>>

\* structs
F4(i) == <<i, 16 * i, 64 + i, 64 + i>>          \* distinct finite singles
F8(i) == <<i, 2 * i, 3, 4, 5, 16 * i, 8 + i, 64>>
Geom(t, g, from) ==
  IF g.lwc THEN [k |-> GeomD[t], vs |-> Tup([i \in 1..GeomN[t] |-> F8(from + i)])]
  ELSE [k |-> GeomF[t], vs |-> Tup([i \in 1..GeomN[t] |-> F4(from + i)])]
GeomSpecial(t, g, j) ==
  IF g.lwc THEN [k |-> GeomD[t], vs |-> Tup([i \in 1..GeomN[t] |-> Pick(F8s, i * j + j)])]
  ELSE [k |-> GeomF[t], vs |-> Tup([i \in 1..GeomN[t] |-> Pick(F4s, i * j + j)])]
Fixed(t, j) == [k |-> FixedK[t],
                vs |-> IF t = StLinearColor THEN (IF j = 0 THEN Tup([i \in 1..4 |-> F4(i)]) ELSE Tup([i \in 1..4 |-> Pick(F4s, i * j + 1)]))
                       ELSE IF t = StGuid THEN <<Guids[j + 1]>>
                       ELSE Tup([i \in 1..FixedN[t] |-> Pick(Ints(FixedW[t]), i + j + 3)])]
Tags(ts) == [k |-> "Tags", tags |-> ts]
Custom(fs) == [k |-> "Custom", fs |-> fs]
IntP(n) == [k |-> "Int", v |-> LE4(n)]
StrP(s) == [k |-> "Str", o |-> <<s>>]
BoolP(b) == [k |-> "Bool", v |-> <<b>>]
NameP(s) == [k |-> "Name", ai |-> Zero4, o |-> <<s>>]
EnumP(s) == [k |-> "Enum", t |-> <<>>, s |-> s]
SCust == S("Cust")

FixedSvs(g) ==
  << Geom(StVector, g, 0), Geom(StVector2D, g, 1), Geom(StRotator, g, 2), Geom(StQuat, g, 3),
     Fixed(StDateTime, 0), Fixed(StTimespan, 1), Fixed(StLinearColor, 0), Fixed(StIntPoint, 0), Fixed(StGuid, 1),
     Tags(<<S("A.B.C"), S("D")>>) >>
SpecialSvs(g) ==
  << GeomSpecial(StVector, g, 1), GeomSpecial(StVector2D, g, 3), GeomSpecial(StRotator, g, 4), GeomSpecial(StQuat, g, 2),
     Fixed(StDateTime, 6), Fixed(StTimespan, 7), Fixed(StDateTime, 2), Fixed(StLinearColor, 2), Fixed(StIntPoint, 6), Fixed(StGuid, 0),
     Fixed(StGuid, 3), Tags(<<>>), Tags(<<S("X")>>), Tags(<< <<>>, <<26085>>, S("X"), S("X") >>),
     GeomSpecial(StVector, g, 5), GeomSpecial(StQuat, g, 6) >>
CustomSvs ==
  << Custom(<<>>),
     Custom(<< <<S("f"), <<IntP(5)>> >> >>),
     Custom(<< <<S("f"), <<IntP(5), StrP(S("x"))>> >>, <<S("g"), <<BoolP(1)>> >> >>),
     Custom(<< <<S("f"), <<IntP(1), IntP(2), IntP(3)>> >>, << <<26085>>, <<StrP(<<>>)>> >>, << <<>>, <<[k |-> "Str", o |-> <<>>]>> >> >>) >>
\* type names that look like, but are not, the fixed ones
NearNames == << S("Cust"), S("vector"), S("Vector3"), S("Vector2"), S("Guid "), S("StructProperty"), <<>>, <<26085>>, S("IntVector"),
                S("Color"), S("DateTim"), S("Transform"), S("Box") >>
TnOf(sv) == CASE sv.k = "VectorF" -> StVector [] sv.k = "VectorD" -> StVector
              [] sv.k \in {"Vector2F", "Vector2D"} -> StVector2D
              [] sv.k \in {"RotatorF", "RotatorD"} -> StRotator
              [] sv.k \in {"QuatF", "QuatD"} -> StQuat
              [] sv.k = "DateTime" -> StDateTime [] sv.k = "Timespan" -> StTimespan
              [] sv.k = "LinearColor" -> StLinearColor [] sv.k = "IntPoint" -> StIntPoint
              [] sv.k = "Guid" -> StGuid [] sv.k = "Tags" -> StTags
              [] OTHER -> SCust
StructP(sv, gd) == [k |-> "Struct", guid |-> gd, tn |-> TnOf(sv), sv |-> sv]
SvP(sv) == [k |-> "SV", sv |-> sv]

\* text
Txt(fl, h) == [fl |-> fl, h |-> h]
EmptyTxt == Txt(Zero4, [k |-> "Empty"])
BaseTxt(s) == Txt(LE4(1), [k |-> "Base", ns |-> <<S("ns")>>, key |-> <<S("key")>>, src |-> <<s>>])
IArg(g, w) == IF g.t64 THEN [k |-> "Int64", v |-> Pick(Ints(8), w)] ELSE [k |-> "Int", v |-> Pick(Ints(4), w)]
UArg(g, w) == IF g.t64 THEN [k |-> "UInt64", v |-> Pick(Ints(8), w)] ELSE [k |-> "UInt", v |-> Pick(Ints(4), w)]
FArg(i) == [k |-> "Float", v |-> Pick(F4s, i)]
DArg(i) == [k |-> "Double", v |-> Pick(F8s, i)]
TArg(x) == [k |-> "Text", x |-> x]
Fo(i) == [sg |-> i % 2, gr |-> (i \div 2) % 2, rm |-> i % 7,
          vs |-> <<LE4(1 + i), LE4S(-5 - i), LE4(7 + i), <<i, 255, 255, 127>> >>]
Hists(g) ==
  << [k |-> "Empty"] >>
  \o (IF g.civ THEN <<[k |-> "None", o |-> <<S("inv")>>], [k |-> "None", o |-> <<>>], [k |-> "None", o |-> << <<>> >>],
                      [k |-> "None", o |-> << <<26085>> >>]>>
      ELSE <<[k |-> "Empty"], [k |-> "Empty"], [k |-> "Empty"], [k |-> "Empty"]>>)
  \o << [k |-> "Base", ns |-> <<S("ns")>>, key |-> <<S("key")>>, src |-> <<S("src")>>],
        [k |-> "Base", ns |-> <<>>, key |-> << <<>> >>, src |-> << <<233, 26085>> >>],
        [k |-> "Base", ns |-> << <<>> >>, key |-> <<>>, src |-> <<>>],
        [k |-> "Named", x |-> BaseTxt(S("f")), nas |-> <<>>],
        [k |-> "Named", x |-> BaseTxt(S("f")), nas |-> << <<S("a"), IArg(g, 4)>>, <<S("b"), UArg(g, 5)>>, <<S("c"), FArg(0)>>,
                                                           <<S("d"), DArg(0)>>, <<S("e"), TArg(BaseTxt(S("in")))>> >>],
        [k |-> "Argument", x |-> EmptyTxt, nas |-> << <<S("z"), IArg(g, 2)>>, <<S("y"), IArg(g, 3)>>, << <<26085>>, TArg(EmptyTxt)>> >>],
        [k |-> "Ordered", x |-> BaseTxt(S("g")), oas |-> <<>>],
        [k |-> "Ordered", x |-> BaseTxt(S("g")), oas |-> <<IArg(g, 5), UArg(g, 1), UArg(g, 2), FArg(3), DArg(4), TArg(BaseTxt(<<26085>>)), IArg(g, 1)>>],
        [k |-> "Number", a |-> IArg(g, 4), fo |-> <<>>, cu |-> <<>>],
        [k |-> "Number", a |-> UArg(g, 5), fo |-> <<Fo(0)>>, cu |-> <<S("en-US")>>],
        [k |-> "Number", a |-> FArg(2), fo |-> <<Fo(1)>>, cu |-> << <<>> >>],
        [k |-> "Percent", a |-> DArg(8), fo |-> <<Fo(2)>>, cu |-> <<S("de")>>],
        [k |-> "Percent", a |-> IArg(g, 1), fo |-> <<>>, cu |-> <<>>],
        [k |-> "Currency", code |-> <<S("USD")>>, a |-> DArg(0), fo |-> <<Fo(3)>>, cu |-> <<S("fr")>>],
        [k |-> "Currency", code |-> <<>>, a |-> IArg(g, 5), fo |-> <<>>, cu |-> << <<>> >>],
        [k |-> "Date", v |-> Pick(Ints(8), 4), dst |-> 1, cul |-> S("en")],
        [k |-> "Time", v |-> Pick(Ints(8), 5), tst |-> 2, tz |-> S("UTC"), cul |-> S("en")],
        [k |-> "DateTime", v |-> Pick(Ints(8), 3), dst |-> 3, tst |-> 4, tz |-> <<>>, cul |-> <<26085>>],
        [k |-> "Transform", x |-> BaseTxt(S("t")), tt |-> 0],
        [k |-> "Transform", x |-> Txt(LE4(3), [k |-> "Transform", x |-> EmptyTxt, tt |-> 1]), tt |-> 1],
        [k |-> "Table", id |-> S("/Game/T"), s |-> S("key")],
        [k |-> "Table", id |-> <<>>, s |-> <<233>>] >>
  \o Tup([i \in 1..7 |-> [k |-> "Number", a |-> FArg(i), fo |-> <<Fo(i)>>, cu |-> <<S("x")>>]])
  \o Tup([i \in 1..5 |-> [k |-> "Date", v |-> Pick(Ints(8), i), dst |-> i - 1, cul |-> <<>>]])
  \o Tup([i \in 1..5 |-> [k |-> "Time", v |-> Pick(Ints(8), i), tst |-> i - 1, tz |-> S("Z"), cul |-> <<>>]])
  \o Tup([i \in 1..5 |-> [k |-> "DateTime", v |-> Pick(Ints(8), i), dst |-> i - 1, tst |-> 5 - i, tz |-> S("Z"), cul |-> S("c")]])
RECURSIVE DeepTxt(_)
DeepTxt(n) == IF n = 0 THEN BaseTxt(S("deep")) ELSE Txt(LE4(n), [k |-> "Transform", x |-> DeepTxt(n - 1), tt |-> n % 2])
RECURSIVE DeepArg(_)
DeepArg(n) == IF n = 0 THEN EmptyTxt
              ELSE Txt(LE4(n), [k |-> "Ordered", x |-> EmptyTxt, oas |-> <<TArg(DeepArg(n - 1))>>])
Texts(g) ==
  LET hs == Hists(g) IN
  Tup([i \in 1..Len(hs) |-> Txt(Pick(<<Zero4, LE4(1), Pick(Ints(4), 4), Rep(255, 4)>>, i), hs[i])])
  \o << DeepTxt(3), DeepTxt(20), DeepArg(5) >>

-----------------------------------------------------------------------------
(* Leaf properties, in their tagged form; same length for all gates *)
ScalarOrder == <<"Int8", "Int16", "UInt16", "Int", "UInt32", "Int64", "UInt64">>
BasicLeaves ==
  Flatten([i \in 1..7 |-> LET kd == ScalarOrder[i] IN MapS(LAMBDA v : [k |-> kd, v |-> v], Ints(ScalarSize[kd]))])
  \o MapS(LAMBDA v : [k |-> "Float", v |-> v], F4s)
  \o MapS(LAMBDA v : [k |-> "Double", v |-> v], F8s)
  \o <<BoolP(0), BoolP(1)>>
  \o << [k |-> "Byte", n |-> <<SNone>>, v |-> <<0>>], [k |-> "Byte", n |-> <<S("EFoo")>>, v |-> <<255>>],
        [k |-> "Byte", n |-> << <<>> >>, v |-> <<128>>], [k |-> "Byte", n |-> << <<26085>> >>, v |-> <<1>>] >>
  \o MapS(LAMBDA s : [k |-> "ByteNs", n |-> <<S("EFoo")>>, s |-> s], NameStrs)
  \o MapS(LAMBDA s : [k |-> "Enum", t |-> <<S("EFoo")>>, s |-> s], NameStrs)
  \o << [k |-> "Enum", t |-> << <<>> >>, s |-> S("V")], [k |-> "Enum", t |-> << <<233>> >>, s |-> S("V")] >>
  \o << [k |-> "Str", o |-> <<>>] >> \o MapS(StrP, StrPool)
  \o << [k |-> "Name", ai |-> Zero4, o |-> <<>>], [k |-> "Name", ai |-> LE4(1), o |-> <<S("n")>>],
        [k |-> "Name", ai |-> Pick(Ints(4), 4), o |-> << <<>> >>], [k |-> "Name", ai |-> Rep(255, 4), o |-> <<>>],
        [k |-> "Name", ai |-> Zero4, o |-> << <<26085, 65536>> >>], NameP(S("plain")), NameP(SNone) >>
  \o MapS(LAMBDA s : [k |-> "Object", s |-> s], <<S("/Game/A.A"), <<>>, SNone, <<26085, 0>> >>)
  \o << [k |-> "Delegate", d |-> <<S("/Obj"), S("Fn")>>], [k |-> "Delegate", d |-> << <<>>, <<26085>> >>] >>
  \o Flatten([i \in 1..2 |-> LET kd == <<"MInline", "MSparse">>[i] IN
       << [k |-> kd, dl |-> <<>>], [k |-> kd, dl |-> << <<S("/O"), S("F")>> >>],
          [k |-> kd, dl |-> << <<S("/O1"), S("F1")>>, << <<233>>, <<>> >>, <<S("/O1"), S("F1")>> >>] >>])
  \o << [k |-> "FieldPath", path |-> <<>>, s |-> S("/Own")], [k |-> "FieldPath", path |-> <<S("a")>>, s |-> <<>>],
        [k |-> "FieldPath", path |-> <<S("a"), <<26085>>, <<>>, S("a")>>, s |-> <<233>>] >>
UnkT == S("WeirdProperty")
UnkLeaves ==
  << [k |-> "Unknown", ty |-> UnkT, raw |-> <<1, 2, 3>>], [k |-> "Unknown", ty |-> UnkT, raw |-> <<>>],
     [k |-> "Unknown", ty |-> S("intProperty"), raw |-> <<0>>], [k |-> "Unknown", ty |-> <<>>, raw |-> <<5, 0, 0, 0>>],
     [k |-> "Unknown", ty |-> <<26085>>, raw |-> <<9, 8>>], [k |-> "Unknown", ty |-> SNone, raw |-> EncStr(SNone)],
     [k |-> "Unknown", ty |-> S("ArrayProperty2"), raw |-> Tup([i \in 1..300 |-> i % 256])],
     [k |-> "Unknown", ty |-> S("SoftObjectProperty"), raw |-> EncStr(S("/Game/X")) \o EncStr(<<>>)] >>
StructLeaves(g) ==
  MapS(LAMBDA sv : StructP(sv, Zero16), FixedSvs(g)) \o MapS(LAMBDA sv : StructP(sv, G1), SpecialSvs(g))
  \o MapS(LAMBDA sv : StructP(sv, G2), CustomSvs)
  \o MapS(LAMBDA tn : [k |-> "Struct", guid |-> GHalf, tn |-> tn, sv |-> CustomSvs[2]], NearNames)
TextLeaves(g) == MapS(LAMBDA x : [k |-> "Text", x |-> x], Texts(g))
Leaves(g) == BasicLeaves \o UnkLeaves \o StructLeaves(g) \o TextLeaves(g)

\* the form a value takes without a tag
HL(p) == CASE p.k \in {"Byte", "ByteNs"} -> [p EXCEPT !.n = <<>>]
           [] p.k = "Enum" -> [p EXCEPT !.t = <<>>]
           [] p.k = "Name" -> [p EXCEPT !.ai = Zero4]
           [] p.k = "Struct" -> SvP(p.sv)
           [] OTHER -> p
CanSet(p) == p.k \notin {"Array", "Set", "Map"} /\ ~(p.k = "Unknown" /\ p.raw = <<>>)
CanMap(p) == p.k \notin {"Array", "Set", "Map", "Unknown", "ByteNs"}

\* canonical containers over headerless elements es of type ty
Arr(ty, es) == MkArray(ty, <<>>, es)
SArr(fld, tn, gd, svs) == MkArray(TStruct, << <<fld, tn, gd>> >>, MapS(SvP, svs))
SetP(ty, af, es) == [k |-> "Set", et |-> ty, af |-> af, es |-> es]
MapP(kt, vt, af, kvs) == MkMap(kt, vt, af, kvs)

-----------------------------------------------------------------------------
(* Hints a file needs, by walking over it *)
RECURSIVE HintsP(_, _), HintsSv(_, _), HintsE(_, _)
HintsE(e, path) == IF e.k = "SV" THEN {<<Join(path \o <<TStruct>>), TnOf(e.sv)>>} \union HintsSv(e.sv, path \o <<TStruct>>) ELSE {}
HintsSv(sv, path) ==
  IF sv.k # "Custom" THEN {}
  ELSE UNION {UNION {HintsP(sv.fs[i][2][j], path \o <<sv.fs[i][1], TypeName(sv.fs[i][2][j])>>) : j \in 1..Len(sv.fs[i][2])} : i \in 1..Len(sv.fs)}
HintsP(p, path) ==
  CASE p.k = "Struct" -> HintsSv(p.sv, path)
    [] p.k = "Array" /\ p.f # <<>> -> UNION {HintsSv(p.es[i].sv, path) : i \in 1..Len(p.es)}
    [] p.k = "Set" /\ p.et = TStruct -> UNION {HintsE(p.es[i], path) : i \in 1..Len(p.es)}
    [] p.k = "Map" /\ (p.kt = TStruct \/ p.vt = TStruct) ->
         UNION {HintsE(p.kvs[i][1], path \o <<SKey>>) \union HintsE(p.kvs[i][2], path \o <<SValue>>) : i \in 1..Len(p.kvs)}
    [] OTHER -> {}
HintsOf(ps) == SetToSeq(UNION {HintsP(ps[i][2], <<ps[i][1], TypeName(ps[i][2])>>) : i \in 1..Len(ps)})

-----------------------------------------------------------------------------
(* Headers: every combination of the gates, both versions, window boundaries *)
Hd(ver, pkg, ue5, eng, cl, br, cvs, cls) ==
  [ver |-> ver, pkg |-> LE4(pkg), ue5 |-> IF ver = 3 THEN LE4(ue5) ELSE <<>>, maj |-> LE2(eng[1]), min |-> LE2(eng[2]), pat |-> LE2(eng[3]),
   cl |-> cl, br |-> br, cvf |-> LE4(3), cvs |-> cvs, cls |-> cls]
Cv(u, e) == (IF u = <<>> THEN <<>> ELSE << <<GUe5Release, u[1]>> >>) \o (IF e = <<>> THEN <<>> ELSE << <<GEditor, e[1]>> >>)
MinHd(ver, cvs) == Hd(ver, 522, 1008, <<4, 27, 2>>, Zero4, S("b"), cvs, S("c"))
HdrsDef == <<
  MinHd(2, <<>>),
  Hd(2, 517, 0, <<4, 27, 2>>, LE4(17155196), S("++UE4+Release-4.27"), << <<G1, LE4(7)>>, <<G2, Zero4>> >> \o Cv(<<>>, <<LE4(32)>>), S("/Script/Game.Save")),
  Hd(3, 525, 1000, <<5, 1, 0>>, Rep(255, 4), <<>>, Cv(<<LE4(12)>>, <<>>) \o << <<G1, LE4(28)>> >>, <<26085>>),
  Hd(3, 522, 1009, <<65535, 513, 4660>>, <<4, 3, 2, 129>>, <<233>>, << <<G2, LE4(32)>> >> \o Cv(<<LE4(27)>>, <<LE4(33)>>), S("c")),
  Hd(3, 522, 1004, <<5, 3, 2>>, LE4(1), S("++UE5+Release-5.3"), Cv(<<LE4(28)>>, <<LE4(31)>>), S("/Script/X.Y_C")),
  Hd(2, 525, 0, <<0, 0, 0>>, Zero4, S("x"), << <<GEditor, Rep(255, 4)>>, <<GUe5Release, Rep(255, 4)>>, <<Zero16, LE4(1)>> >>, <<>>) >>
ASSUME TLCSet(101, HdrsDef)
Hdrs == TLCGet(101)
NH == 6
ASSUME Len(Hdrs) = NH
HGDef == Tup([h \in 1..NH |-> Gates(Hdrs[h].cvs)])
ASSUME TLCSet(102, HGDef)
HG == TLCGet(102)

File(h, ps) == [gv |-> "Default", hdr |-> h, ps |-> ps]

-----------------------------------------------------------------------------
(* Contexts: a tagged property p put somewhere in a file *)
LeafTabDef == Tup([h \in 1..NH |-> Leaves(HG[h])])
ASSUME TLCSet(103, LeafTabDef)
LeafTab == TLCGet(103)
NLeafDef == Len(LeafTab[1])
ASSUME TLCSet(104, NLeafDef)
NLeaf == TLCGet(104)
NX == S("X")
SimpleCtx(c, p) ==
  CASE c = 1 -> << <<NX, p>> >>
    [] c = 2 -> << <<S("A"), IntP(7)>>, <<NX, p>>, <<S("Z"), StrP(S("end"))>> >>
    [] c = 3 -> << <<S("O"), StructP(Custom(<< <<NX, <<p>> >> >>), Zero16)>> >>
    [] c = 4 -> << <<S("O"), StructP(Custom(<< <<S("a"), <<BoolP(1)>> >>, <<NX, <<p, p>> >>, <<S("z"), <<IntP(9), p>> >> >>), G1)>>, <<S("Z"), IntP(1)>> >>
    [] c = 5 -> << <<S("O"), StructP(Custom(<< <<S("P"), <<StructP(Custom(<< <<S("Q"), <<StructP(Custom(<< <<NX, <<p>> >> >>), Zero16)>> >>, <<S("r"), <<IntP(3)>> >> >>), Zero16)>> >> >>), Zero16)>>, <<S("Z"), IntP(1)>> >>
    [] c = 6 -> << <<S("O"), SArr(S("O"), SCust, G2, <<Custom(<< <<NX, <<p>> >> >>), Custom(<<>>), Custom(<< <<S("b"), <<BoolP(0)>> >>, <<NX, <<p>> >> >>)>>)>>, <<S("Z"), IntP(1)>> >>
    [] c = 7 -> << <<S("O"), SetP(TStruct, Zero4, <<SvP(Custom(<< <<NX, <<p>> >> >>)), SvP(Custom(<< <<NX, <<IntP(4), p>> >> >>))>>)>>, <<S("Z"), IntP(1)>> >>
    [] c = 8 -> << <<S("O"), MapP(TStr, TStruct, Zero4, << <<StrP(S("k1")), SvP(Custom(<< <<NX, <<p>> >> >>))>>, <<StrP(S("k2")), SvP(Custom(<<>>))>> >>)>>, <<S("Z"), IntP(1)>> >>
    [] c = 9 -> << <<S("O"), MapP(TStruct, TInt, LE4(5), << <<SvP(Custom(<< <<NX, <<p>> >> >>)), IntP(1)>>, <<SvP(Custom(<<>>)), IntP(2)>> >>)>>, <<S("Z"), IntP(1)>> >>
    [] c = 10 -> << <<S("O"), MapP(TInt, TStruct, Zero4, << <<IntP(1), SvP(Custom(<< <<S("In"), <<SArr(S("In"), S("T2"), Zero16, <<Custom(<< <<NX, <<p>> >> >>)>>)>> >> >>))>> >>)>>, <<S("Z"), IntP(1)>> >>
NSimple == 10
\* p without its tag
Nope == << <<>> >>       \* p cannot appear there
ElemCtx(c, p) ==
  LET e == HL(p)  ty == TypeName(p) IN
  CASE c = 1 -> IF ~CanSet(p) THEN Nope
                ELSE IF p.k = "Struct" THEN << <<NX, SArr(S("X"), TnOf(p.sv), G1, <<p.sv>>)>> >> ELSE << <<NX, Arr(ty, <<e>>)>> >>
    [] c = 2 -> IF ~CanSet(p) THEN Nope
                ELSE IF p.k = "Struct" THEN << <<NX, SArr(<<26085>>, TnOf(p.sv), Zero16, <<p.sv, p.sv, p.sv>>)>>, <<S("Z"), IntP(1)>> >>
                ELSE << <<NX, Arr(ty, <<e, e>>)>>, <<S("Z"), IntP(1)>> >>
    [] c = 3 -> IF ~CanSet(p) THEN Nope ELSE << <<NX, SetP(ty, LE4(3), <<e>>)>>, <<S("Z"), IntP(1)>> >>
    [] c = 4 -> IF ~CanSet(p) THEN Nope ELSE << <<S("O"), StructP(Custom(<< <<NX, <<SetP(ty, Zero4, <<e, e, e>>)>> >> >>), Zero16)>>, <<S("Z"), IntP(1)>> >>
    [] c = 5 -> IF ~CanMap(p) THEN Nope ELSE << <<NX, MapP(TStr, ty, Zero4, << <<StrP(S("k")), e>>, <<StrP(<<233>>), e>> >>)>>, <<S("Z"), IntP(1)>> >>
    [] c = 6 -> IF ~CanMap(p) THEN Nope ELSE << <<NX, MapP(ty, TInt, Zero4, << <<e, IntP(8)>> >>)>>, <<S("Z"), IntP(1)>> >>
    [] c = 7 -> IF ~CanMap(p) THEN Nope ELSE << <<NX, MapP(TName, ty, Zero4, << <<NameP(S("k")), e>> >>)>> >>
    [] c = 8 -> IF ~CanMap(p) THEN Nope ELSE << <<NX, MapP(TEnum, ty, Zero4, << <<EnumP(S("E::k")), e>> >>)>> >>
    [] c = 9 -> IF ~CanMap(p) THEN Nope ELSE << <<NX, MapP(TInt, ty, LE4(77), << <<IntP(1), e>>, <<IntP(2), e>> >>)>>, <<S("Z"), IntP(1)>> >>
    [] c = 10 -> IF ~CanMap(p) THEN Nope ELSE << <<S("O"), SArr(S("O"), SCust, Zero16, <<Custom(<< <<NX, <<MapP(ty, ty, Zero4, << <<e, e>> >>)>> >> >>)>>)>> >>
    [] c = 11 -> IF ~CanMap(p) THEN Nope ELSE << <<NX, MapP(ty, TBool, Zero4, << <<e, BoolP(1)>> >>)>> >>
    [] c = 12 -> IF ~CanMap(p) THEN Nope ELSE << <<NX, MapP(ty, TStr, Zero4, << <<e, StrP(S("v"))>> >>)>> >>
    [] c = 13 -> IF ~CanMap(p) THEN Nope ELSE << <<NX, MapP(TStr, ty, LE4(1), << <<StrP(S("k")), e>> >>)>>, <<S("Z"), IntP(1)>> >>
NElem == 13
NCtx == NSimple + NElem
Ctx(c, p) == IF c <= NSimple THEN SimpleCtx(c, p) ELSE ElemCtx(c - NSimple, p)

\* family A: every leaf in every context, headers rotating; index 0 .. NA - 1
NA == NLeaf * NCtx
FamA(i) == LET j == i % NLeaf  c == (i \div NLeaf) + 1  h == ((j + 5 * c) % NH) + 1
           IN File(Hdrs[h], Ctx(c, LeafTab[h][j + 1]))
\* family G: gated leaves (structs, text) in every context under every header
GateFromDef == Len(BasicLeaves) + Len(UnkLeaves)
ASSUME TLCSet(105, GateFromDef)
GateFrom == TLCGet(105)
NGate == NLeaf - GateFrom
NG == NGate * NH * NCtx
FamG(i) == LET j == i % NGate  h == ((i \div NGate) % NH) + 1  c == (i \div (NGate * NH)) + 1
           IN File(Hdrs[h], Ctx(c, LeafTab[h][GateFrom + j + 1]))

-----------------------------------------------------------------------------
(* Collections of every kind and size *)
Spread(i) == IF i < 30000 THEN LE4(i * 65539) ELSE [LE4(i) EXCEPT ![4] = 200]
ElemOf(kd, i) ==      \* i-th distinct element of a kind (headerless)
  CASE kd = "Int8" -> [k |-> kd, v |-> <<i % 256>>]
    [] kd \in {"Int16", "UInt16"} -> [k |-> kd, v |-> LE2(i + 60000)]
    [] kd \in {"Int", "UInt32", "Float"} -> [k |-> kd, v |-> Spread(i)]
    [] kd \in {"Int64", "UInt64", "Double"} -> [k |-> kd, v |-> LE4(i) \o Spread(i)]
    [] kd = "Bool" -> BoolP(i % 2)
    [] kd = "Byte" -> [k |-> "Byte", n |-> <<>>, v |-> <<i % 256>>]
    [] kd = "ByteNs" -> [k |-> "ByteNs", n |-> <<>>, s |-> S("E::v") \o <<48 + (i % 10)>>]
    [] kd = "Enum" -> EnumP(S("E::v") \o LE2(i))
    [] kd = "Str" -> IF i % 7 = 3 THEN StrP(<<26085 + (i % 20000), 48 + i \div 20000>>) ELSE StrP(S("s") \o <<48 + (i % 64), 48 + ((i \div 64) % 64), 48 + i \div 4096>>)
    [] kd = "Name" -> NameP(S("n") \o <<48 + (i % 64), 48 + ((i \div 64) % 64), 48 + i \div 4096>>)
    [] kd = "Object" -> [k |-> "Object", s |-> S("/o") \o LE2(i)]
    [] kd = "Delegate" -> [k |-> "Delegate", d |-> <<S("o") \o <<48 + (i % 70)>>, S("f")>>]
    [] kd \in {"MInline", "MSparse"} -> [k |-> kd, dl |-> Tup([j \in 1..(i % 3) |-> <<S("o"), S("f")>>])]
    [] kd = "FieldPath" -> [k |-> kd, path |-> Tup([j \in 1..(i % 3) |-> S("p")]), s |-> S("o") \o LE2(i)]
    [] kd = "Text" -> [k |-> kd, x |-> BaseTxt(S("t") \o LE2(i))]
    [] kd = "Custom" -> SvP(Custom(<< <<S("f"), <<IntP(i)>> >> >>))
    [] kd = "Point" -> SvP([k |-> "IntPoint", vs |-> <<LE4(i), LE4(i * 3)>>])
    [] kd = "GuidSv" -> SvP([k |-> "Guid", vs |-> <<LE8(i) \o Zero8>>])
    [] kd = "TagSv" -> SvP(Tags(<<S("t") \o <<48 + (i % 70)>> >>))
    [] kd = "Unknown" -> [k |-> "Unknown", ty |-> UnkT, raw |-> LE4(i)]
TypeOfKind(kd) == CASE kd \in {"Custom", "Point", "GuidSv", "TagSv"} -> TStruct [] kd = "Unknown" -> UnkT
                    [] kd = "ByteNs" -> TByte [] OTHER -> TypeFn[kd]
TnOfKind(kd) == CASE kd = "Custom" -> SCust [] kd = "Point" -> StIntPoint [] kd = "GuidSv" -> StGuid [] OTHER -> StTags
ElemKinds == <<"Int8", "Int16", "UInt16", "Int", "UInt32", "Int64", "UInt64", "Float", "Double", "Bool", "Byte", "ByteNs", "Enum", "Str",
               "Name", "Object", "Delegate", "MInline", "MSparse", "FieldPath", "Text", "Custom", "Point", "GuidSv", "TagSv", "Unknown">>
Elems(kd, n) == Tup([i \in 1..n |-> ElemOf(kd, i)])
ArrOf(kd, n) == IF TypeOfKind(kd) = TStruct THEN MkArray(TStruct, << <<S("X"), TnOfKind(kd), G1>> >>, Elems(kd, n)) ELSE Arr(TypeOfKind(kd), Elems(kd, n))
SetOf(kd, n) == SetP(TypeOfKind(kd), LE4(n), Elems(kd, n))
\* keys must be distinct (booleans and bytes run out)
MapOf(kk, vk, n) == LET m == CASE kk = "Bool" -> IF n > 2 THEN 2 ELSE n
                               [] kk \in {"Int8", "Byte"} -> IF n > 256 THEN 256 ELSE n
                               [] kk = "Delegate" -> IF n > 70 THEN 70 ELSE n
                               [] kk = "TagSv" -> IF n > 70 THEN 70 ELSE n
                               [] kk \in {"MInline", "MSparse"} -> IF n > 3 THEN 3 ELSE n
                               [] OTHER -> n
                    IN MapP(TypeOfKind(kk), TypeOfKind(vk), Zero4, Tup([i \in 1..m |-> <<ElemOf(kk, i), ElemOf(vk, n + 1 - i)>>]))
MapKindsDef == SelectSeq(ElemKinds, LAMBDA kd : kd \notin {"Unknown", "ByteNs"})
ASSUME TLCSet(109, MapKindsDef)
MapKinds == TLCGet(109)
NEK == Len(ElemKinds)
NMK == Len(MapKinds)
\* family S: sizes x kinds x (array, set)
SmallSizes == <<0, 1, 2, 3, 5, 17>>
BigSizes == <<127, 128, 255, 256, 257, 1023, 1024, 1025>>
SizeDoc(ty, kd, n, h) ==
  File(Hdrs[h], << <<S("X"), CASE ty = 1 -> ArrOf(kd, n) [] ty = 2 -> SetOf(kd, n)>>, <<S("Z"), IntP(1)>> >>)
NS(sizes) == Len(sizes) * NEK * 2
FamS(sizes, i) == LET kd == ElemKinds[(i % NEK) + 1]  n == sizes[((i \div NEK) % Len(sizes)) + 1]  ty == (i \div (NEK * Len(sizes))) + 1
                  IN SizeDoc(ty, kd, n, (i % NH) + 1)
\* family M: key kinds x value kinds (size 2) and sizes x key kinds
NM1 == NMK * NMK
FamM1(i) == File(Hdrs[(i % NH) + 1], << <<S("X"), MapOf(MapKinds[(i % NMK) + 1], MapKinds[(i \div NMK) + 1], 3)>>, <<S("Z"), IntP(1)>> >>)
NM2(sizes) == NMK * Len(sizes) * 2
FamM2(sizes, i) == LET kd == MapKinds[(i % NMK) + 1]  n == sizes[((i \div NMK) % Len(sizes)) + 1]  d == i \div (NMK * Len(sizes))
                   IN File(Hdrs[(i % NH) + 1], << <<S("X"), IF d = 0 THEN MapOf(kd, "Int", n) ELSE MapOf("Str", kd, n)>>, <<S("Z"), IntP(1)>> >>)
\* family L: other lists: many top-level properties, struct fields, repeated fields, delegates, tags, paths, arguments, custom versions
ListDoc(c, n) ==
  LET nm(i) == S("n") \o <<48 + (i % 64), 48 + ((i \div 64) % 64)>>
      X(p) == File(Hdrs[1], << <<S("X"), p>>, <<S("Z"), IntP(1)>> >>) IN
  CASE c = 1 -> File(Hdrs[2], Tup([i \in 1..n |-> <<nm(i), IntP(i)>>]))
    [] c = 2 -> X(StructP(Custom(Tup([i \in 1..n |-> <<nm(i), <<IntP(i)>> >>])), Zero16))
    [] c = 3 -> X(StructP(Custom(IF n = 0 THEN <<>> ELSE << <<S("r"), Tup([i \in 1..n |-> StrP(nm(i))])>>, <<S("q"), <<IntP(1)>> >> >>), Zero16))
    [] c = 4 -> X([k |-> "MInline", dl |-> Tup([i \in 1..n |-> <<nm(i), nm(i + 1)>>])])
    [] c = 5 -> X([k |-> "MSparse", dl |-> Tup([i \in 1..n |-> <<nm(i), nm(i + 1)>>])])
    [] c = 6 -> X([k |-> "FieldPath", path |-> Tup([i \in 1..n |-> nm(i)]), s |-> S("o")])
    [] c = 7 -> X(StructP(Tags(Tup([i \in 1..n |-> nm(i)])), Zero16))
    [] c = 8 -> X([k |-> "Text", x |-> Txt(Zero4, [k |-> "Named", x |-> EmptyTxt, nas |-> Tup([i \in 1..n |-> <<nm(i), FArg(i)>>])])])
    [] c = 9 -> X([k |-> "Text", x |-> Txt(Zero4, [k |-> "Ordered", x |-> EmptyTxt, oas |-> Tup([i \in 1..n |-> FArg(i)])])])
    [] c = 10 -> File([Hdrs[4] EXCEPT !.cvs = Tup([i \in 1..n |-> <<LE8(i) \o SubSeq(G2, 1, 8), LE4(n - i)>>])], << <<S("X"), IntP(1)>> >>)
    [] c = 11 -> X([k |-> "Unknown", ty |-> UnkT, raw |-> Tup([i \in 1..n |-> i % 256])])
    [] c = 12 -> X(StrP(Asc(n)))
    [] c = 13 -> X(StrP(Wide(n)))
    [] c = 14 -> File(Hdrs[1], << <<Asc(n), IntP(1)>>, <<Wide(n + 1), IntP(2)>> >>)
NLists == 14
NL(sizes) == NLists * Len(sizes)
FamL(sizes, i) == ListDoc((i % NLists) + 1, sizes[(i \div NLists) + 1])

(* Nested containers: which containers inside which, two to five deep *)
RECURSIVE NestP(_, _)
\* codes: sequence of 1..7, outermost first
NestP(codes, leaf) ==
  IF codes = <<>> THEN leaf
  ELSE LET p == NestP(Tail(codes), leaf)
           cs == Custom(<< <<S("f"), <<p>> >>, <<S("g"), <<IntP(2)>> >> >>)
       IN CASE codes[1] = 1 -> StructP(cs, G1)
            [] codes[1] = 2 -> SArr(S("e"), SCust, Zero16, <<cs>>)
            [] codes[1] = 3 -> SetP(TStruct, Zero4, <<SvP(cs)>>)
            [] codes[1] = 4 -> MapP(TStruct, TInt, Zero4, << <<SvP(cs), IntP(1)>> >>)
            [] codes[1] = 5 -> MapP(TName, TStruct, Zero4, << <<NameP(S("k")), SvP(cs)>>, <<NameP(S("l")), SvP(cs)>> >>)
            [] codes[1] = 6 -> SArr(S("e"), SCust, G2, <<cs, Custom(<<>>), cs>>)
            [] codes[1] = 7 -> MapP(TStruct, TStruct, LE4(1), << <<SvP(cs), SvP(cs)>> >>)
NestLeavesDef == << IntP(5), StrP(<<233>>), [k |-> "Text", x |-> DeepTxt(2)], Arr(TByte, Elems("Byte", 3)), StructP(Fixed(StGuid, 1), G2),
                 [k |-> "Unknown", ty |-> UnkT, raw |-> <<1, 2>>], MapP(TStr, TBool, Zero4, << <<StrP(S("a")), BoolP(1)>> >>) >>
ASSUME TLCSet(108, NestLeavesDef)
NestLeaves == TLCGet(108)
NN3 == 7 * 7 * 7
FamN(i) == LET c == <<Digit(i, <<7, 7, 7>>, 1) + 1, Digit(i, <<7, 7, 7>>, 2) + 1, Digit(i, <<7, 7, 7>>, 3) + 1>>
           IN File(Hdrs[(i % NH) + 1], << <<S("X"), NestP(c, Pick(NestLeaves, i))>>, <<S("Z"), IntP(1)>> >>)
RECURSIVE DeepStruct(_)
DeepStruct(n) == IF n = 0 THEN IntP(1) ELSE StructP(Custom(<< <<S("f"), <<DeepStruct(n - 1)>> >> >>), Zero16)
\* containers in one another, far down, with a set of structs innermost
DeepCodes == << <<2>>, <<3>>, <<4>>, <<1, 2, 3, 4>>, <<4, 1, 3>>, <<3, 2, 2>> >>
DeepLens == <<4, 6, 9, 15, 25, 50>>
NNested == Len(DeepCodes) * Len(DeepLens)
Nested(i) == LET cs == DeepCodes[(i % Len(DeepCodes)) + 1]  n == DeepLens[(i \div Len(DeepCodes)) + 1]
             IN NestP(Tup([j \in 1..n |-> Pick(cs, j)]), IF i % 2 = 0 THEN SetP(TStruct, Zero4, <<SvP(Fixed(StGuid, 1)), SvP(Fixed(StGuid, 0))>>) ELSE MapP(TStruct, TInt, LE4(2), << <<SvP(Fixed(StIntPoint, 1)), IntP(9)>> >>))
NDeep == 6 + NNested
FamD(i) == File(Hdrs[IF i < 6 THEN 1 ELSE (i % NH) + 1],
                << <<S("X"), CASE i = 0 -> DeepStruct(10) [] i = 1 -> DeepStruct(60) [] i = 2 -> DeepStruct(126) [] i = 3 -> [k |-> "Text", x |-> DeepTxt(63)]
                               [] i = 4 -> [k |-> "Text", x |-> DeepTxt(64)] [] i = 5 -> NestP(Rep(2, 20), IntP(3)) [] i >= 6 -> Nested(i - 6)>>, <<S("Z"), IntP(1)>> >>)

(* Mixed files: everything next to everything *)
NMixed == 60
FamX(i) == LET h == (i % NH) + 1
           IN File(Hdrs[h], Tup([j \in 1..12 |-> <<S("p") \o <<64 + j>>, LeafTab[h][((i * 12 + j * 17) % NLeaf) + 1]>>]))

-----------------------------------------------------------------------------
(* Headers of all sorts, with and without properties *)
HBase == Hd(3, 522, 1008, <<5, 1, 1>>, LE4(20979098), S("++UE5+Release-5.1"), << <<G1, LE4(7)>>, <<GEditor, LE4(40)>> >>, S("/Script/G.S"))
HdrFamDef ==
     Tup([i \in 1..9 |-> Hd(2, 516 + i, 0, <<4, 27, 2>>, Zero4, S("b"), <<>>, S("c"))])
  \o Tup([i \in 1..9 |-> Hd(3, 516 + i, 1008, <<4, 27, 2>>, Zero4, S("b"), <<>>, S("c"))])
  \o Tup([i \in 1..10 |-> Hd(3, 522, 999 + i, <<5, i, 0>>, Zero4, S("b"), <<>>, S("c"))])
  \o MapS(LAMBDA v : [HBase EXCEPT !.maj = v], Ints(2)) \o MapS(LAMBDA v : [HBase EXCEPT !.min = v], Ints(2)) \o MapS(LAMBDA v : [HBase EXCEPT !.pat = v], Ints(2))
  \o MapS(LAMBDA v : [HBase EXCEPT !.cl = v], Ints(4))
  \o MapS(LAMBDA v : [HBase EXCEPT !.br = v], StrPool) \o MapS(LAMBDA v : [HBase EXCEPT !.cls = v], StrPool)
  \o MapS(LAMBDA v : [HBase EXCEPT !.cvs = << <<G1, v>> >>], Ints(4)) \o MapS(LAMBDA v : [HBase EXCEPT !.cvs = << <<v, LE4(3)>> >>], Guids)
  \o << [HBase EXCEPT !.cvs = <<>>], [HBase EXCEPT !.cvs = << <<G2, LE4(1)>>, <<G1, LE4(2)>>, <<GUe5Release, LE4(3)>>, <<GHalf, LE4(4)>> >>],
        [HBase EXCEPT !.cvs = << <<GUe5Release, LE4(31)>>, <<GEditor, LE4(1)>>, <<G1, LE4(2)>>, <<G2, LE4(3)>> >>] >>
  \o Hdrs
ASSUME TLCSet(110, HdrFamDef)
HdrFam == TLCGet(110)
NHF == 2 * Len(HdrFam)
FamH(i) == File(HdrFam[(i \div 2) + 1], IF i % 2 = 0 THEN <<>> ELSE << <<S("X"), IntP(i)>>, <<S("Y"), StrP(S("y"))>> >>)

-----------------------------------------------------------------------------
(* Neighbours: files holding a value's neighbours side by side, and collections with the neighbours as elements and keys *)
\* a value that is read back as it was written
Canonical(p, hdr) ==
  LET f == File(hdr, << <<S("X"), p>> >>) IN
  FileW(f) /\ LET r == ReadFile(EncFile(f), HintsOf(f.ps), f.gv) IN r.r = "ok" /\ r.file = f
Thin(l, n) == IF Len(l) <= n THEN l ELSE Tup([i \in 1..n |-> l[((i - 1) * Len(l)) \div n + 1]])
Named(l) == Tup([i \in 1..Len(l) |-> <<S("n") \o <<48 + (i \div 10), 48 + (i % 10)>>, l[i]>>])
NNear == NLeaf
FamNear(i) == LET h == (i % NH) + 1 IN File(Hdrs[h], Named(Thin(SelectSeq(Near(LeafTab[h][i + 1]), LAMBDA p : Canonical(p, Hdrs[h])), 40)))
RECURSIVE Apart(_, _)
Apart(l, out) == IF l = <<>> THEN out
                 ELSE Apart(Tail(l), IF \E i \in 1..Len(out) : Canon(out[i]) = Canon(l[1]) THEN out ELSE Append(out, l[1]))
NKeys == NEK
FamKeys(i) ==
  LET kd == ElemKinds[i + 1]  h == (i % NH) + 1  hdr == Hdrs[h]  ty == TypeOfKind(kd)
      l == Thin(SelectSeq(Near(ElemOf(kd, 1)) \o Near(ElemOf(kd, 2)), LAMBDA p : Canonical(SetP(ty, Zero4, <<p>>), hdr)), 60)
      IsMap == kd \notin {"Unknown", "ByteNs"}
      ks == Apart(l, <<>>)
      C(p) == IF Canonical(p, hdr) THEN <<p>> ELSE <<>>
  IN File(hdr, Named(C(SetP(ty, LE4(1), l))
                     \o C(IF ty = TStruct THEN MkArray(TStruct, << <<S("X"), TnOfKind(kd), G1>> >>, l) ELSE Arr(ty, l))
                     \o (IF IsMap THEN C(MapP(ty, TInt, Zero4, Tup([n \in 1..Len(ks) |-> <<ks[n], IntP(n)>>])))
                                      \o C(MapP(TInt, ty, Zero4, Tup([n \in 1..Len(l) |-> <<IntP(n), l[n]>>])))
                                      \o C(MapP(TName, ty, LE4(1), Tup([n \in 1..Len(l) |-> <<NameP(S("k") \o <<48 + n>>), l[n]>>]))) ELSE <<>>)))

-----------------------------------------------------------------------------
(* Words: strings which mean something somewhere in the format, or nearly do, in every place where a string may stand *)
TypeWords == << TInt8, TInt16, TUInt16, TInt, TUInt32, TInt64, TUInt64, TFloat, TDouble, TBool, TByte, TEnum, TStr, TText, TName, TObject,
                TStruct, TArray, TSet, TMap, TDelegate, TMInline, TMSparse, TFieldPath >>
StructWords == << StVector, StVector2D, StRotator, StQuat, StDateTime, StTimespan, StLinearColor, StIntPoint, StGuid, StTags >>
LowerW(s) == MapS(LAMBDA c : IF c \in 65..90 THEN c + 32 ELSE c, s)
UpperW(s) == MapS(LAMBDA c : IF c \in 97..122 THEN c - 32 ELSE c, s)
WordsDef ==
     << SNone, LowerW(SNone), UpperW(SNone), S("nONE"), S("None "), S(" None"), S("Non"), S("Nones"), S("NoneNone"), S("N"), SNone \o <<0>>, <<0>> \o SNone, S("None.None"), S("None_0") >>
  \o TypeWords \o << LowerW(TInt), LowerW(TStruct), UpperW(TArray), S("Property"), S("Struct"), S("IntPropertyX"), UnkT >>
  \o StructWords \o << LowerW(StVector), LowerW(StGuid), UpperW(StDateTime) >>
  \o << S("type"), S("value"), S("null"), S("true"), S("false"), S("0"), S("1"), S("-1"), S("guid"), S("name"), S("Key"), S("Value"), S("key"), S("GVAS"), S("SaveGame"), S("+"), S("."), S(".."), S("a.b"),
        S("X"), S("NaN"), S("inf"), S("Unknown"), S("Default"), S("Invariant"), S("INVTEXT"), S("::"), S("E::None"), S("Custom"), S("CustomStruct"), S("{}"), S("{0}"),
        <<36>>, <<39>>, <<34>>, <<92>>, <<37, 115>>, <<65279>>, <<233>>, <<65, 769>>, <<304>>, <<223>>, <<13, 10>>, <<65, 13, 10, 66>>, <<10>>, <<65, 10>>, <<65, 32, 32, 66>>, <<92, 110>>, <<160>>, <<8203>>, <<8232>>, <<64257>> >>
  \o StrPool \o GameWords
ASSUME TLCSet(111, WordsDef)
WordTab == TLCGet(111)
NWord == Len(WordTab)
WordProps(w) ==
  LET cs == Custom(<< <<S("f"), <<IntP(1)>> >>, <<w, <<IntP(2), StrP(w)>> >>, <<S("g"), <<BoolP(1)>> >> >>)
      base(a, b, c) == [k |-> "Text", x |-> Txt(LE4(1), [k |-> "Base", ns |-> <<a>>, key |-> <<b>>, src |-> <<c>>])]
      T(h) == [k |-> "Text", x |-> Txt(Zero4, h)]
      inner == Custom(<< <<w, <<MapP(TStr, TStruct, Zero4, << <<StrP(w), SvP(cs)>>, <<StrP(S("k")), SvP(cs)>> >>), SetP(TStruct, Zero4, <<SvP(cs)>>)>> >>, <<S("g"), <<IntP(3)>> >> >>)
  IN << StrP(w), NameP(w), [k |-> "Name", ai |-> LE4(7), o |-> <<w>>], [k |-> "Object", s |-> w], EnumP(w), [k |-> "Enum", t |-> <<w>>, s |-> S("E::a")], [k |-> "Enum", t |-> <<w>>, s |-> w],
        [k |-> "Byte", n |-> <<w>>, v |-> <<3>>], [k |-> "ByteNs", n |-> <<w>>, s |-> S("E::a")], [k |-> "ByteNs", n |-> <<w>>, s |-> w], [k |-> "ByteNs", n |-> <<S("E")>>, s |-> w],
        [k |-> "Delegate", d |-> <<w, S("f")>>], [k |-> "Delegate", d |-> <<S("o"), w>>], [k |-> "MInline", dl |-> << <<w, w>>, <<S("o"), w>> >>], [k |-> "MSparse", dl |-> << <<w, S("f")>>, <<w, w>> >>],
        [k |-> "FieldPath", path |-> <<w, S("p"), w>>, s |-> w], [k |-> "FieldPath", path |-> <<>>, s |-> w],
        StructP(Tags(<<w, S("t"), w>>), Zero16), [StructP(cs, G1) EXCEPT !.tn = w], StructP(cs, Zero16), StructP(inner, G2), StructP(Custom(<< <<w, <<StructP(cs, Zero16)>> >> >>), Zero16),
        SArr(w, SCust, G1, <<cs, Custom(<<>>)>>), SArr(S("e"), w, Zero16, <<cs>>), SArr(S("e"), w, G1, <<>>), SArr(w, StGuid, Zero16, <<Fixed(StGuid, 1)>>),
        Arr(TStr, <<StrP(w), StrP(w)>>), Arr(TName, <<NameP(w)>>), Arr(TEnum, <<EnumP(w)>>), Arr(TObject, <<[k |-> "Object", s |-> w]>>), Arr(TByte, <<[k |-> "ByteNs", n |-> <<>>, s |-> w]>>),
        Arr(w, <<>>), SetP(w, LE4(1), <<>>), MkMap(w, TInt, Zero4, <<>>), MkMap(TInt, w, Zero4, <<>>), MkMap(w, w, LE4(2), <<>>),
        SetP(TStr, Zero4, <<StrP(w), StrP(S("s"))>>), SetP(TName, LE4(1), <<NameP(w)>>), SetP(TStruct, Zero4, <<SvP(cs)>>),
        MapP(TStr, TInt, Zero4, << <<StrP(w), IntP(1)>>, <<StrP(S("s")), IntP(2)>> >>), MapP(TName, TStr, Zero4, << <<NameP(w), StrP(w)>> >>), MapP(TEnum, TBool, Zero4, << <<EnumP(w), BoolP(1)>> >>),
        MapP(TStr, TStr, Zero4, << <<StrP(S("k")), StrP(w)>> >>), MapP(TName, TStruct, Zero4, << <<NameP(w), SvP(inner)>> >>), MapP(TStruct, TStruct, Zero4, << <<SvP(cs), SvP(cs)>> >>),
        base(w, S("k"), S("s")), base(S("n"), w, S("s")), base(S("n"), S("k"), w), T([k |-> "None", o |-> <<w>>]), T([k |-> "Table", id |-> w, s |-> S("k")]), T([k |-> "Table", id |-> S("t"), s |-> w]),
        T([k |-> "Named", x |-> EmptyTxt, nas |-> << <<w, FArg(1)>>, <<S("a"), TArg(BaseTxt(w))>> >>]), T([k |-> "Argument", x |-> EmptyTxt, nas |-> << <<w, FArg(1)>> >>]),
        T([k |-> "Number", a |-> FArg(1), fo |-> <<>>, cu |-> <<w>>]), T([k |-> "Currency", code |-> <<w>>, a |-> FArg(1), fo |-> <<>>, cu |-> <<w>>]),
        T([k |-> "Date", v |-> LE8(5), dst |-> 1, cul |-> w]), T([k |-> "Time", v |-> LE8(5), tst |-> 1, tz |-> w, cul |-> S("en")]), T([k |-> "DateTime", v |-> LE8(5), dst |-> 1, tst |-> 1, tz |-> S("Z"), cul |-> w]),
        [k |-> "Unknown", ty |-> w, raw |-> <<1, 2, 3>>], [k |-> "Unknown", ty |-> UnkT, raw |-> EncStr(w)] >>
\* words as values, and as the names of top-level properties
NWords == 2 * NWord
FamWords(i) ==
  LET w == WordTab[(i % NWord) + 1]  hdr == Hdrs[(i % NH) + 1]
      ok(l) == SelectSeq(l, LAMBDA p : Canonical(p, hdr))
      top(p) == LET f == File(hdr, << <<S("A"), IntP(1)>>, <<w, p>>, <<S("Z"), IntP(2)>> >>) IN
                IF FileW(f) /\ LET r == ReadFile(EncFile(f), HintsOf(f.ps), f.gv) IN r.r = "ok" /\ r.file = f THEN f ELSE File([hdr EXCEPT !.br = w, !.cls = w], << <<S("Z"), StrP(w)>> >>)
      cs == Custom(<< <<w, <<IntP(2)>> >> >>)
  IN IF i < NWord THEN File(hdr, Named(ok(WordProps(w))))
     ELSE top(CASE i % 5 = 0 -> IntP(5) [] i % 5 = 1 -> StructP(cs, G1) [] i % 5 = 2 -> SetP(TStruct, Zero4, <<SvP(cs)>>)
                [] i % 5 = 3 -> MapP(TStruct, TStruct, Zero4, << <<SvP(cs), SvP(cs)>> >>) [] i % 5 = 4 -> SArr(w, SCust, G1, <<cs>>))

-----------------------------------------------------------------------------
(* Lists with equal elements, next to one another or apart *)
EqPats == << <<1, 1>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 2>>, <<1, 2, 1>>, <<1, 1, 2, 2, 1, 1>>, <<2, 1, 1, 1, 2>> >>
NEqPat == Len(EqPats)
NEqOther == 12
NEqual == NEK + NEqOther
FamEqual(i) ==
  LET h == (i % NH) + 1  hdr == Hdrs[h]  a(x) == IF x = 1 THEN S("alpha.1") ELSE S("b")
      T(h0) == [k |-> "Text", x |-> Txt(Zero4, h0)]
      C(l) == SelectSeq(l, LAMBDA p : Canonical(p, hdr))
      Pats(F(_)) == C(Tup([n \in 1..NEqPat |-> F(EqPats[n])])) IN
  IF i < NEK
  THEN LET kd == ElemKinds[i + 1]  ty == TypeOfKind(kd)  E(pt) == Tup([n \in 1..Len(pt) |-> ElemOf(kd, pt[n])]) IN
       File(hdr, Named(Pats(LAMBDA pt : IF ty = TStruct THEN MkArray(TStruct, << <<S("X"), TnOfKind(kd), G1>> >>, E(pt)) ELSE Arr(ty, E(pt)))
                       \o Pats(LAMBDA pt : SetP(ty, LE4(1), E(pt)))
                       \o (IF kd \in {"Unknown", "ByteNs"} THEN <<>>
                           ELSE Pats(LAMBDA pt : MapP(TInt, ty, Zero4, Tup([n \in 1..Len(pt) |-> <<IntP(n), ElemOf(kd, pt[n])>>])))
                                \o Pats(LAMBDA pt : MapP(TName, ty, Zero4, Tup([n \in 1..Len(pt) |-> <<NameP(<<48 + n>>), ElemOf(kd, pt[n])>>]))))
                       \o Pats(LAMBDA pt : StructP(Custom(<< <<S("f"), E(pt)>> >>), Zero16))))
  ELSE LET c == i - NEK
           M(pt, F(_)) == Tup([n \in 1..Len(pt) |-> F(pt[n])])
           N(pt, F(_, _)) == Tup([n \in 1..Len(pt) |-> F(n, pt[n])])
           cs(x) == Custom(<< <<S("f"), <<IntP(x)>> >> >>) IN
       File(hdr, Named(
         CASE c = 0 -> Pats(LAMBDA pt : [k |-> "MInline", dl |-> M(pt, LAMBDA x : <<a(x), S("f")>>)])
           [] c = 1 -> Pats(LAMBDA pt : [k |-> "MSparse", dl |-> M(pt, LAMBDA x : <<S("o"), a(x)>>)])
           [] c = 2 -> Pats(LAMBDA pt : [k |-> "FieldPath", path |-> M(pt, a), s |-> S("o")])
           [] c = 3 -> Pats(LAMBDA pt : StructP(Tags(M(pt, a)), G1))
           [] c = 4 -> Pats(LAMBDA pt : T([k |-> "Ordered", x |-> EmptyTxt, oas |-> M(pt, FArg)]))
           [] c = 5 -> Pats(LAMBDA pt : T([k |-> "Ordered", x |-> EmptyTxt, oas |-> M(pt, LAMBDA x : TArg(BaseTxt(a(x))))]))
           [] c = 6 -> Pats(LAMBDA pt : T([k |-> "Named", x |-> EmptyTxt, nas |-> N(pt, LAMBDA n, x : <<<<64 + n>>, DArg(x)>>)]))
           [] c = 7 -> Pats(LAMBDA pt : T([k |-> "Argument", x |-> EmptyTxt, nas |-> N(pt, LAMBDA n, x : <<<<64 + n>>, TArg(BaseTxt(a(x)))>>)]))
           [] c = 8 -> Pats(LAMBDA pt : StructP(Custom(N(pt, LAMBDA n, x : <<<<64 + n>>, <<IntP(x)>> >>)), Zero16))
           [] c = 9 -> Pats(LAMBDA pt : SArr(S("e"), SCust, G1, M(pt, cs)))
           [] c = 10 -> Pats(LAMBDA pt : SArr(S("e"), SCust, Zero16, M(pt, LAMBDA x : Custom(<< <<S("f"), <<StructP(cs(x), G1), StructP(cs(x), G1)>> >> >>))))
           [] c = 11 -> << IntP(1), IntP(1), StrP(S("a")), StrP(S("a")), StructP(cs(1), G1), StructP(cs(1), G1), IntP(1), [k |-> "Unknown", ty |-> UnkT, raw |-> <<1, 1, 1>>], [k |-> "Unknown", ty |-> UnkT, raw |-> <<1, 1, 1>>] >>))

-----------------------------------------------------------------------------
(* Two strings next to one another: every pair of short, long, wide, equal, absent *)
PairStrs == << <<>>, S("a"), S("b.c"), Asc(12), Asc(40), <<26085>>, Wide(20), SNone >>
NPS == Len(PairStrs)
NPairs == NPS * NPS
FamPairs(i) ==
  LET hdr == Hdrs[(i % NH) + 1]  a == PairStrs[(i % NPS) + 1]  b == PairStrs[(i \div NPS) + 1]  g == HG[(i % NH) + 1]
      T(h) == [k |-> "Text", x |-> Txt(Zero4, h)]  o(s) == IF i % 3 = 0 /\ s = <<>> THEN <<>> ELSE <<s>>
      base(x, y, z) == T([k |-> "Base", ns |-> x, key |-> y, src |-> z])
      num == FArg(1)
      cs(n, p) == Custom(<< <<n, <<p>> >> >>)
      l == << T([k |-> "Time", v |-> LE8(5), tst |-> 1, tz |-> a, cul |-> b]), T([k |-> "DateTime", v |-> LE8(5), dst |-> 2, tst |-> 1, tz |-> a, cul |-> b]),
              T([k |-> "Table", id |-> a, s |-> b]), base(o(a), o(b), <<S("x")>>), base(<<S("x")>>, o(a), o(b)), base(o(a), <<S("x")>>, o(b)), base(o(a), <<>>, o(b)), base(o(a), o(b), <<>>),
              T([k |-> "Currency", code |-> o(a), a |-> num, fo |-> <<>>, cu |-> o(b)]), T([k |-> "Named", x |-> BaseTxt(a), nas |-> << <<b, FArg(1)>>, <<S("q"), TArg(BaseTxt(a))>> >>]),
              T([k |-> "Argument", x |-> EmptyTxt, nas |-> << <<a, TArg(BaseTxt(b))>> >>]), T([k |-> "Ordered", x |-> BaseTxt(a), oas |-> <<TArg(BaseTxt(b))>>]),
              [k |-> "Delegate", d |-> <<a, b>>], [k |-> "MInline", dl |-> << <<a, b>>, <<b, a>> >>], [k |-> "MSparse", dl |-> << <<a, b>>, <<a, b>>, <<b, a>> >>],
              [k |-> "FieldPath", path |-> <<a, b>>, s |-> S("o")], [k |-> "FieldPath", path |-> <<a>>, s |-> b], [k |-> "FieldPath", path |-> <<>>, s |-> a],
              [k |-> "Enum", t |-> <<a>>, s |-> b], [k |-> "ByteNs", n |-> <<a>>, s |-> b], StructP(Tags(<<a, b>>), G1), StructP(Tags(<<a, b, a>>), Zero16),
              Arr(TStr, <<[k |-> "Str", o |-> o(a)], [k |-> "Str", o |-> o(b)]>>), Arr(TName, <<[k |-> "Name", ai |-> Zero4, o |-> o(a)], [k |-> "Name", ai |-> Zero4, o |-> o(b)]>>), Arr(TEnum, <<EnumP(a), EnumP(b)>>),
              Arr(TObject, <<[k |-> "Object", s |-> a], [k |-> "Object", s |-> b]>>), SetP(TStr, LE4(1), <<[k |-> "Str", o |-> o(a)], [k |-> "Str", o |-> o(b)]>>),
              MapP(TStr, TStr, Zero4, << <<StrP(a), [k |-> "Str", o |-> o(b)]>> >>), MapP(TStr, TStr, LE4(1), << <<StrP(a), [k |-> "Str", o |-> o(b)]>> >>), MapP(TName, TStr, Zero4, << <<NameP(a), [k |-> "Str", o |-> o(b)]>> >>),
              MapP(TStr, TName, Zero4, << <<StrP(a), NameP(b)>> >>), MapP(TEnum, TEnum, Zero4, << <<EnumP(a), EnumP(b)>> >>), MapP(TInt, TStr, Zero4, << <<IntP(1), StrP(a)>>, <<IntP(2), StrP(b)>> >>),
              [StructP(cs(a, StrP(b)), G1) EXCEPT !.tn = a], [StructP(cs(S("f"), IntP(1)), Zero16) EXCEPT !.tn = b], SArr(a, b, G1, <<cs(a, IntP(1)), cs(b, IntP(2))>>), SArr(a, b, Zero16, <<>>),
              StructP(Custom(<< <<a, <<StrP(b)>> >>, <<b \o S("2"), <<StrP(a)>> >> >>), G1),
              [k |-> "Unknown", ty |-> a, raw |-> Utf8Bytes(b)], [k |-> "Byte", n |-> <<a>>, v |-> <<Len(b)>>] >>
      ps == Named(SelectSeq(l, LAMBDA p : Canonical(p, hdr)))
  IN File([hdr EXCEPT !.br = a, !.cls = b], ps)

-----------------------------------------------------------------------------
(* One bit at a time: every field that holds a number, with each of its bits alone and all but it *)
OneBit(w) == Tup([j \in 1..(8 * w) |-> Tup([n \in 1..w |-> IF n = (j - 1) \div 8 + 1 THEN 2 ^ ((j - 1) % 8) ELSE 0])])
AllBut(w) == Tup([j \in 1..(8 * w) |-> Tup([n \in 1..w |-> IF n = (j - 1) \div 8 + 1 THEN 255 - 2 ^ ((j - 1) % 8) ELSE 255])])
BitMaps == << <<TEnum, TBool>>, <<TEnum, TInt>>, <<TEnum, TStr>>, <<TName, TBool>>, <<TName, TInt>>, <<TName, TStr>>, <<TStr, TBool>>, <<TStr, TInt>>, <<TStr, TStr>>, <<TStr, TFloat>>, <<TInt, TInt>> >>
BitOf(ty, n) == CASE ty = TEnum -> EnumP(<<64 + n>>) [] ty = TName -> NameP(<<64 + n>>) [] ty = TStr -> StrP(<<64 + n>>) [] ty = TInt -> IntP(n) [] ty = TBool -> BoolP(n % 2) [] ty = TFloat -> [k |-> "Float", v |-> F4(n)]
BitSets == <<"Int", "Str", "Custom", "Unknown">>
BitTexts == <<1, 2, 6, 9, 11, 12, 14, 15, 17, 20, 22, 23, 24, 25, 27>>
NBM == Len(BitMaps)
NBT == Len(BitTexts)
NBits == NBM + 4 + NBT + 4 + 9 + 10 + 4
FamBits(i) ==
  LET h == (i % NH) + 1  hdr == Hdrs[h]  g == HG[h]  w4 == OneBit(4) \o <<Rep(255, 4), Zero4>>
      T(x) == [k |-> "Text", x |-> Txt(Zero4, x)]
      B(w) == OneBit(w) \o AllBut(w)
      Comps(sv) == Cat([c \in 1..Len(sv.vs) |-> MapS(LAMBDA v : StructP([sv EXCEPT !.vs[c] = v], Zero16), OneBit(Len(sv.vs[c])))])
      a == i - NBM  b == a - 4  c == b - NBT  d == c - 4  e == d - 9  q == e - 10
      l == IF i < NBM THEN LET m == BitMaps[i + 1] IN
                           MapS(LAMBDA v : MkMap(m[1], m[2], v, << <<BitOf(m[1], 1), BitOf(m[2], 2)>>, <<BitOf(m[1], 2), BitOf(m[2], 1)>> >>), w4) \o MapS(LAMBDA v : MkMap(m[1], m[2], v, <<>>), w4)
           ELSE IF a < 4 THEN MapS(LAMBDA v : [SetOf(BitSets[a + 1], 2) EXCEPT !.af = v], w4) \o MapS(LAMBDA v : [SetOf(BitSets[a + 1], 0) EXCEPT !.af = v], w4)
           ELSE IF b < NBT THEN MapS(LAMBDA v : [k |-> "Text", x |-> Txt(v, Hists(g)[BitTexts[b + 1]])], w4)
           ELSE IF c < 4 THEN MapS(LAMBDA v : T([k |-> "Number", a |-> FArg(1), fo |-> <<[Fo(1) EXCEPT !.vs[c + 1] = v]>>, cu |-> <<>>]), w4)
           ELSE IF d < 9 THEN LET kd == <<"Int8", "Int16", "UInt16", "Int", "UInt32", "Int64", "UInt64", "Float", "Double">>[d + 1] IN MapS(LAMBDA v : [k |-> kd, v |-> v], B(ScalarSize[kd]))
           ELSE IF e < 9 THEN Comps(FixedSvs(g)[e + 1])
           ELSE IF e = 9 THEN MapS(LAMBDA v : StructP(Custom(<<>>), v), OneBit(16)) \o MapS(LAMBDA v : SArr(S("e"), S("T"), v, <<Custom(<<>>)>>), OneBit(16))
           ELSE CASE q = 0 -> MapS(LAMBDA v : T([k |-> "Date", v |-> v, dst |-> 1, cul |-> <<>>]), OneBit(8)) \o MapS(LAMBDA v : T([k |-> "DateTime", v |-> v, dst |-> 1, tst |-> 2, tz |-> <<>>, cul |-> <<>>]), OneBit(8))
                                \o MapS(LAMBDA v : T([k |-> "Time", v |-> v, tst |-> 1, tz |-> <<>>, cul |-> <<>>]), OneBit(8))
                  [] q = 1 -> MapS(LAMBDA v : T([k |-> "Number", a |-> [IArg(g, 1) EXCEPT !.v = v], fo |-> <<>>, cu |-> <<>>]), OneBit(Len(IArg(g, 1).v))) \o MapS(LAMBDA v : T([k |-> "Percent", a |-> [UArg(g, 1) EXCEPT !.v = v], fo |-> <<>>, cu |-> <<>>]), OneBit(Len(IArg(g, 1).v)))
                  [] q = 2 -> MapS(LAMBDA v : [k |-> "Name", ai |-> v, o |-> <<S("n")>>], w4) \o MapS(LAMBDA v : [k |-> "Name", ai |-> v, o |-> <<>>], w4)
                  [] q = 3 -> Tup([n \in 1..256 |-> [k |-> "Byte", n |-> <<SNone>>, v |-> <<n - 1>>]]) \o <<Arr(TByte, Tup([n \in 1..256 |-> [k |-> "Byte", n |-> <<>>, v |-> <<n - 1>>]])), [k |-> "Unknown", ty |-> UnkT, raw |-> Tup([n \in 1..256 |-> n - 1])]>>
  IN File(hdr, Named(SelectSeq(l, LAMBDA p : Canonical(p, hdr))))

-----------------------------------------------------------------------------
(* Two characters next to one another: every pair of ASCII characters, and pairs from a list of special ones *)
OddChars == <<0, 9, 10, 13, 32, 34, 36, 37, 39, 42, 43, 45, 46, 47, 48, 58, 59, 60, 61, 65, 91, 92, 95, 97, 110, 123, 125, 126, 127, 128, 160, 173, 223, 233, 304, 305, 769, 847, 4352, 4449, 8203, 8206, 8217, 8232, 8239, 12288, 12354, 12441,
              26085, 55203, 55295, 57344, 64257, 65038, 65039, 65279, 65533, 65535, 65536, 127462, 128512, 127995, 917601, 1114111>>
NOddC == Len(OddChars)
\* c before and after every other one
AsciiPairs(c) == Cat([d \in 1..127 |-> <<c, d>>])
OddPairs(n) == Cat([d \in 1..NOddC |-> <<OddChars[n], OddChars[d]>>])
\* three in a row from a few
TriChars == <<9, 10, 13, 32, 34, 46, 92, 97, 233>>
Tri(n) == <<TriChars[(n % 9) + 1], TriChars[((n \div 9) % 9) + 1], TriChars[(n \div 81) + 1]>>
NChars == 127 + 2 * NOddC + 9
FamChars(i) ==
  LET hdr == Hdrs[(i % NH) + 1]
      W(w) == << StrP(w), NameP(w), [k |-> "Text", x |-> BaseTxt(w)], [k |-> "Object", s |-> w], MapP(TStr, TName, Zero4, << <<StrP(w), NameP(w)>> >>), EnumP(w) >>
      n == ((i - 127) % NOddC) + 1
      l == IF i >= 127 + 2 * NOddC THEN Tup([m \in 1..81 |-> LET w == Tri((m - 1) * 9 + i - 127 - 2 * NOddC) IN IF m % 3 = 0 THEN StrP(w) ELSE IF m % 3 = 1 THEN [k |-> "Text", x |-> BaseTxt(w)] ELSE NameP(w)])
           ELSE IF i < 127 THEN W(AsciiPairs(i + 1)) ELSE IF i < 127 + NOddC THEN W(OddPairs(n))
           ELSE Cat([d \in 1..NOddC |-> LET w == <<OddChars[n], OddChars[d]>> IN <<IF (n + d) % 2 = 0 THEN StrP(w) ELSE NameP(w), IF (n + d) % 3 = 0 THEN [k |-> "Text", x |-> BaseTxt(w)] ELSE StrP(<<65>> \o w \o <<66>>)>>])
  IN File(IF i < 127 THEN [hdr EXCEPT !.cls = AsciiPairs(i + 1)] ELSE hdr, Named(SelectSeq(l, LAMBDA p : Canonical(p, hdr))))

-----------------------------------------------------------------------------
(* Numbers that code could take for special, in every place that holds a number *)
NumHds == <<CHOOSE h \in 1..NH : HG[h].lwc /\ HG[h].t64, CHOOSE h \in 1..NH : ~HG[h].lwc>>
NumPlaces == <<"Int8", "Int16", "UInt16", "Int", "UInt32", "Int64", "UInt64", "Float", "Double">>
NumTypes == <<TInt8, TInt16, TUInt16, TInt, TUInt32, TInt64, TUInt64, TFloat, TDouble>>
NumOf(kd) == IF kd \in {"Float", "Double"} THEN NumF(ScalarSize[kd]) ELSE NumI(ScalarSize[kd])
NumItems == 9 + 8 + 4
NNum == 2 * NumItems
FamNum(i) ==
  LET h == NumHds[(i \div NumItems) + 1]  hdr == Hdrs[h]  g == HG[h]  j == i % NumItems
      T(x) == [k |-> "Text", x |-> Txt(Zero4, x)]
      St(c) == LET sv == FixedSvs(g)[c]  vals == IF c \in {5, 6, 8} THEN NumI(Len(sv.vs[1])) ELSE NumF(Len(sv.vs[1]))
                   same == MapS(LAMBDA v : [sv EXCEPT !.vs = Tup([n \in 1..Len(sv.vs) |-> v])], vals) IN
               Cat([n \in 1..Len(sv.vs) |-> MapS(LAMBDA v : StructP([sv EXCEPT !.vs[n] = v], Zero16), vals)]) \o MapS(LAMBDA s : StructP(s, Zero16), same)
               \o <<SArr(S("e"), <<StVector, StVector2D, StRotator, StQuat, StDateTime, StTimespan, StLinearColor, StIntPoint>>[c], Zero16, same)>>
      tk(v) == <<T([k |-> "Date", v |-> v, dst |-> 1, cul |-> <<>>]), T([k |-> "Time", v |-> v, tst |-> 1, tz |-> <<>>, cul |-> <<>>]), T([k |-> "DateTime", v |-> v, dst |-> 1, tst |-> 2, tz |-> <<>>, cul |-> <<>>])>>
      num(a) == <<T([k |-> "Number", a |-> a, fo |-> <<>>, cu |-> <<>>]), T([k |-> "Percent", a |-> a, fo |-> <<>>, cu |-> <<>>]), T([k |-> "Ordered", x |-> EmptyTxt, oas |-> <<a>>]), T([k |-> "Named", x |-> EmptyTxt, nas |-> << <<S("a"), a>> >>])>>
      CatS(F(_), l) == Cat([n \in 1..Len(l) |-> F(l[n])])
      l == IF j < 9 THEN LET kd == NumPlaces[j + 1]  vs == MapS(LAMBDA v : [k |-> kd, v |-> v], NumOf(kd)) IN vs \o <<MkArray(NumTypes[j + 1], <<>>, vs), SetP(NumTypes[j + 1], Zero4, vs), MkMap(TInt, NumTypes[j + 1], Zero4, Tup([n \in 1..Len(vs) |-> <<IntP(n), vs[n]>>]))>>
           ELSE IF j < 17 THEN St(j - 8)
           ELSE CASE j = 17 -> CatS(tk, NumI8)
                  [] j = 18 -> CatS(LAMBDA v : num([IArg(g, 1) EXCEPT !.v = v]), NumI(Len(IArg(g, 1).v))) \o CatS(LAMBDA v : num([UArg(g, 1) EXCEPT !.v = v]), NumI(Len(UArg(g, 1).v)))
                  [] j = 19 -> CatS(LAMBDA v : num([k |-> "Float", v |-> v]), NumF4) \o CatS(LAMBDA v : num([k |-> "Double", v |-> v]), NumF8)
                  [] j = 20 -> CatS(LAMBDA v : <<[k |-> "Name", ai |-> v, o |-> <<S("n")>>], MkMap(TName, TBool, v, << <<NameP(S("a")), BoolP(1)>> >>), MkMap(TInt, TInt, v, << <<IntP(1), IntP(2)>> >>), SetP(TInt, v, <<IntP(1)>>),
                                           [k |-> "Text", x |-> Txt(v, [k |-> "None", o |-> <<S("s")>>])], [k |-> "Text", x |-> Txt(v, [k |-> "Base", ns |-> <<>>, key |-> <<S("k")>>, src |-> <<S("s")>>])],
                                           T([k |-> "Number", a |-> FArg(1), fo |-> <<[Fo(1) EXCEPT !.vs = <<v, v, v, v>>]>>, cu |-> <<>>]), StructP(Custom(<<>>), v \o v \o v \o v), StructP(Custom(<<>>), v \o Zero8 \o Zero4)>>, NumI4)
  IN File([hdr EXCEPT !.cl = NumI4[((5 * i) % Len(NumI4)) + 1]], Named(SelectSeq(l, LAMBDA p : Canonical(p, hdr))))

-----------------------------------------------------------------------------
(* Every kind of value before and after every other one, among the properties of a save and of a struct *)
AdjKind(p) == <<p.k, CASE p.k = "Text" -> p.x.h.k [] p.k = "Struct" -> p.sv.k [] OTHER -> p.k>>
RECURSIVE OnePerKind(_, _, _)
OnePerKind(l, seen, out) == IF l = <<>> THEN out
                            ELSE IF AdjKind(l[1]) \in seen THEN OnePerKind(Tail(l), seen, out) ELSE OnePerKind(Tail(l), seen \cup {AdjKind(l[1])}, Append(out, l[1]))
AdjReps(h) == OnePerKind(LeafTab[h], {}, <<>>)
              \o SelectSeq(<<SetOf("Int", 3), MapOf("Str", "Int", 3), MkMap(TName, TBool, Zero4, << <<NameP(S("a")), BoolP(1)>> >>), SArr(S("e"), S("T"), G1, <<Custom(<< <<S("f"), <<IntP(1)>> >> >>)>>), Arr(TInt, <<IntP(1), IntP(2)>>),
                              Arr(TStr, <<StrP(S("a"))>>), Arr(TByte, <<[k |-> "Byte", n |-> <<>>, v |-> <<7>>]>>), Arr(TBool, <<BoolP(1)>>), Arr(TInt, <<>>)>>, LAMBDA p : Canonical(p, Hdrs[h]))
AdjDef == Tup([h \in 1..NH |-> AdjReps(h)])
ASSUME TLCSet(112, AdjDef)
AdjTab == TLCGet(112)
NAdj == 2 * 60
FamAdj(i) ==
  LET h == ((i \div 2) % NH) + 1  hdr == Hdrs[h]  l == AdjTab[h]  a == l[((i \div 2) % Len(l)) + 1]
      nm == Named(Cat([n \in 1..Len(l) |-> <<a, l[n]>>])) IN
  IF i % 2 = 0 THEN File(hdr, nm)
  ELSE File(hdr, << <<S("A"), IntP(1)>>, <<S("B"), StructP(Custom(MapS(LAMBDA e : <<e[1], <<e[2]>> >>, nm)), G1)>>, <<S("C"), BoolP(1)>> >>)

-----------------------------------------------------------------------------
(* Keys which code could be tempted to put in order: numbers, dates, names with numbers, cases, lengths *)
OrdLists == << <<S("10"), S("9"), S("2"), S("1"), S("0")>>, <<S("3"), S("1"), S("2")>>, <<S("0"), S("1"), S("2")>>, <<S("1"), S("01"), S("001")>>, <<S("b"), S("B"), S("a"), S("A")>>,
               <<S("Key10"), S("Key9"), S("Key1"), S("Key")>>, <<S("2024-01-02"), S("2023-12-31"), S("2024-01-01")>>, <<S("-1"), S("1"), S("0"), S("-10")>>, <<S("true"), S("false")>>,
               <<S("Item_2"), S("Item_1"), S("Item_0"), S("Item_10")>>, <<S("a.b.c"), S("a.b"), S("a")>>, <<S("zzz"), S("zz"), S("z"), <<>> >>, << <<>>, S("a"), <<0>> >>, << <<26085>>, S("z"), <<233>>, <<128512>> >>,
               <<S("E::C"), S("E::B"), S("E::A")>>, <<S("Value"), S("Key")>>, <<S("y"), S("x"), S("z")>>, <<S("1.5"), S("1.25"), S("-0.5")>>, <<S("0x10"), S("0x2")>>, <<S("Max"), S("Min")>>,
               <<S("4294967296"), S("4294967295"), S("2147483648")>>, <<S("F"), S("A"), S("1")>>, <<S("none"), S("NONE"), S("Non")>>, <<S(" a"), S("a "), S("a")>> >>
NOrd == Len(OrdLists)
FamOrd(i) ==
  LET h == (i % NH) + 1  hdr == Hdrs[h]  ks == OrdLists[i + 1]  n == Len(ks)
      Ks(F(_, _)) == Tup([j \in 1..n |-> F(ks[j], j)])
      T(x) == [k |-> "Text", x |-> Txt(Zero4, x)]
      M(c, vt, V(_)) == LET key(w) == CASE c = 1 -> StrP(w) [] c = 2 -> NameP(w) [] c = 3 -> EnumP(w) [] c = 4 -> [k |-> "Object", s |-> w] IN
                        MkMap(<<TStr, TName, TEnum, TObject>>[c], vt, Zero4, Ks(LAMBDA w, j : <<key(w), V(j)>>))
      l == Cat([c \in 1..4 |-> <<M(c, TInt, LAMBDA j : IntP(9 - j)), M(c, TBool, LAMBDA j : BoolP(j % 2)), M(c, TStr, LAMBDA j : StrP(ks[n + 1 - j])), M(c, TDouble, LAMBDA j : [k |-> "Double", v |-> LE8(j)])>>])
           \o <<SetP(TStr, Zero4, Ks(LAMBDA w, j : StrP(w))), SetP(TName, LE4(1), Ks(LAMBDA w, j : NameP(w))), Arr(TStr, Ks(LAMBDA w, j : StrP(w))), Arr(TName, Ks(LAMBDA w, j : NameP(w))), Arr(TEnum, Ks(LAMBDA w, j : EnumP(w))),
                StructP(Tags(ks), G1), [k |-> "FieldPath", path |-> ks, s |-> S("o")], [k |-> "MInline", dl |-> Ks(LAMBDA w, j : <<w, S("f")>>)], [k |-> "MSparse", dl |-> Ks(LAMBDA w, j : <<S("o"), w>>)],
                T([k |-> "Named", x |-> EmptyTxt, nas |-> Ks(LAMBDA w, j : <<w, FArg(j)>>)]), T([k |-> "Argument", x |-> EmptyTxt, nas |-> Ks(LAMBDA w, j : <<w, DArg(j)>>)]),
                StructP(Custom(Ks(LAMBDA w, j : <<w, <<IntP(j)>> >>)), G2), SArr(S("e"), SCust, G1, <<Custom(Ks(LAMBDA w, j : <<w, <<StrP(w)>> >>)), Custom(<<>>)>>)>>
  IN File(hdr, Ks(LAMBDA w, j : <<w, IntP(j)>>) \o Named(SelectSeq(l, LAMBDA p : Canonical(p, hdr))))

-----------------------------------------------------------------------------
(* The canonical pool *)
PoolSizesDef == <<NA, NS(SmallSizes), NM1, NM2(SmallSizes), NL(SmallSizes), NN3, NDeep, NMixed, NS(BigSizes), NM2(<<130, 300>>), NL(BigSizes), NHF, NNear, NKeys, NWords, NEqual, NPairs, NBits, NChars, NNum, NAdj, NOrd>>
ASSUME TLCSet(106, PoolSizesDef)
PoolSizes == TLCGet(106)
PoolOffDef == [f \in 1..(Len(PoolSizes) + 1) |-> FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(PoolSizes, 1, f - 1))] \o <<>>
ASSUME TLCSet(107, PoolOffDef)
PoolOff == TLCGet(107)
NPool == PoolOff[Len(PoolSizes) + 1]
PoolFam(i) == CHOOSE f \in 1..Len(PoolSizes) : i >= PoolOff[f] /\ i < PoolOff[f + 1]
Pool(i) ==
  LET f == PoolFam(i)  j == i - PoolOff[f] IN
  CASE f = 1 -> FamA(j)
    [] f = 2 -> FamS(SmallSizes, j)
    [] f = 3 -> FamM1(j)
    [] f = 4 -> FamM2(SmallSizes, j)
    [] f = 5 -> FamL(SmallSizes, j)
    [] f = 6 -> FamN(j)
    [] f = 7 -> FamD(j)
    [] f = 8 -> FamX(j)
    [] f = 9 -> FamS(BigSizes, j)
    [] f = 10 -> FamM2(<<130, 300>>, j)
    [] f = 11 -> FamL(BigSizes, j)
    [] f = 12 -> FamH(j)
    [] f = 13 -> FamNear(j)
    [] f = 14 -> FamKeys(j)
    [] f = 15 -> FamWords(j)
    [] f = 16 -> FamEqual(j)
    [] f = 17 -> FamPairs(j)
    [] f = 18 -> FamBits(j)
    [] f = 19 -> FamChars(j)
    [] f = 20 -> FamNum(j)
    [] f = 21 -> FamAdj(j)
    [] f = 22 -> FamOrd(j)
Proper(f) == f.ps # Nope
=============================================================================
