------------------------------ MODULE GvasEnc ------------------------------
(***************************************************************************)
(* The value domain of a save and the writer.                              *)
(*                                                                         *)
(* The writer is defined as a sequence of tokens, one per field of the     *)
(* file format, so that other modules can talk about "every size field",   *)
(* "every terminator" and so on; Flat turns tokens into bytes.             *)
(*                                                                         *)
(* Value domain (k is the kind tag; a field name always has one shape):    *)
(*   scalar   [k, v]           v = little-endian bytes                     *)
(*   Byte     [k, n, v]        n = optional enum name                      *)
(*   ByteNs   [k, n, s]        Enum [k, t, s]      t optional              *)
(*   Str      [k, o]           Name [k, ai, o]     Object [k, s]           *)
(*   Delegate [k, d]           MInline/MSparse [k, dl]                     *)
(*   FieldPath[k, path, s]     Text [k, x]                                 *)
(*   Struct   [k, guid, tn, sv]   SV [k, sv]                               *)
(*   Array    [k, w, et, f, es]   Set [k, et, af, es]                      *)
(*   Map      [k, w, kt, vt, af, kvs]   Unknown [k, ty, raw]               *)
(*   struct value sv: [k, vs] | [k = "Tags", tags] | [k = "Custom", fs]    *)
(***************************************************************************)
EXTENDS GvasBytes

-----------------------------------------------------------------------------
(* Names on the wire *)
TInt8 == S("Int8Property")        TInt16 == S("Int16Property")
TUInt16 == S("UInt16Property")    TInt == S("IntProperty")
TUInt32 == S("UInt32Property")    TInt64 == S("Int64Property")
TUInt64 == S("UInt64Property")    TFloat == S("FloatProperty")
TDouble == S("DoubleProperty")    TBool == S("BoolProperty")
TByte == S("ByteProperty")        TEnum == S("EnumProperty")
TStr == S("StrProperty")          TText == S("TextProperty")
TName == S("NameProperty")        TObject == S("ObjectProperty")
TDelegate == S("DelegateProperty")
TMInline == S("MulticastInlineDelegateProperty")
TMSparse == S("MulticastSparseDelegateProperty")
TFieldPath == S("FieldPathProperty")
TStruct == S("StructProperty")    TArray == S("ArrayProperty")
TSet == S("SetProperty")          TMap == S("MapProperty")
SNone == S("None")

KindTable == <<
  <<TInt8, "Int8">>, <<TInt16, "Int16">>, <<TUInt16, "UInt16">>, <<TInt, "Int">>, <<TUInt32, "UInt32">>,
  <<TInt64, "Int64">>, <<TUInt64, "UInt64">>, <<TFloat, "Float">>, <<TDouble, "Double">>, <<TBool, "Bool">>,
  <<TByte, "Byte">>, <<TEnum, "Enum">>, <<TStr, "Str">>, <<TText, "Text">>, <<TName, "Name">>,
  <<TObject, "Object">>, <<TDelegate, "Delegate">>, <<TMInline, "MInline">>, <<TMSparse, "MSparse">>,
  <<TFieldPath, "FieldPath">>, <<TStruct, "Struct">>, <<TArray, "Array">>, <<TSet, "Set">>, <<TMap, "Map">> >>
KnownTypes == {KindTable[i][1] : i \in 1..Len(KindTable)}
KindFn == [t \in KnownTypes |-> KindTable[CHOOSE i \in 1..Len(KindTable) : KindTable[i][1] = t][2]]
KindOf(t) == IF t \in KnownTypes THEN KindFn[t] ELSE "Unknown"
TypeFn == [kd \in {KindTable[i][2] : i \in 1..Len(KindTable)} |->
            KindTable[CHOOSE i \in 1..Len(KindTable) : KindTable[i][2] = kd][1]]

ScalarSize == "Int8" :> 1 @@ "Int16" :> 2 @@ "UInt16" :> 2 @@ "Int" :> 4 @@ "UInt32" :> 4 @@ "Int64" :> 8
              @@ "UInt64" :> 8 @@ "Float" :> 4 @@ "Double" :> 8
ScalarKinds == DOMAIN ScalarSize

\* struct types with a fixed layout: name, single-precision kind, double-precision kind, number of fields, field width
StVector == S("Vector")   StVector2D == S("Vector2D")  StRotator == S("Rotator")  StQuat == S("Quat")
StDateTime == S("DateTime")  StTimespan == S("Timespan")  StLinearColor == S("LinearColor")
StIntPoint == S("IntPoint")  StGuid == S("Guid")  StTags == S("GameplayTagContainer")
GeomTypes == {StVector, StVector2D, StRotator, StQuat}
GeomF == [t \in GeomTypes |-> CASE t = StVector -> "VectorF" [] t = StVector2D -> "Vector2F"
                                [] t = StRotator -> "RotatorF" [] t = StQuat -> "QuatF"]
GeomD == [t \in GeomTypes |-> CASE t = StVector -> "VectorD" [] t = StVector2D -> "Vector2D"
                                [] t = StRotator -> "RotatorD" [] t = StQuat -> "QuatD"]
GeomN == [t \in GeomTypes |-> CASE t = StVector -> 3 [] t = StVector2D -> 2 [] t = StRotator -> 3 [] t = StQuat -> 4]
SingleKinds == {"VectorF", "Vector2F", "RotatorF", "QuatF"}
DoubleKinds == {"VectorD", "Vector2D", "RotatorD", "QuatD"}
FixedTypes == {StDateTime, StTimespan, StLinearColor, StIntPoint, StGuid}
FixedK == [t \in FixedTypes |-> CASE t = StDateTime -> "DateTime" [] t = StTimespan -> "Timespan"
             [] t = StLinearColor -> "LinearColor" [] t = StIntPoint -> "IntPoint" [] t = StGuid -> "Guid"]
FixedN == [t \in FixedTypes |-> CASE t = StLinearColor -> 4 [] t = StIntPoint -> 2 [] OTHER -> 1]
FixedW == [t \in FixedTypes |-> CASE t = StGuid -> 16 [] t \in {StDateTime, StTimespan} -> 8 [] OTHER -> 4]

-----------------------------------------------------------------------------
(* Version gates: decided only by the custom versions in the header *)
GUe5Release == <<66, 94, 155, 216>> \o <<70, 77, 189, 36>> \o <<168, 172, 18, 132>> \o <<121, 23, 100, 223>>
GEditor == <<237, 104, 176, 228>> \o <<233, 66, 148, 244>> \o <<11, 218, 49, 162>> \o <<65, 187, 70, 46>>
CvOf(cvs, guid) == LET idx == {i \in 1..Len(cvs) : cvs[i][1] = guid}
                   IN IF idx = {} THEN Zero4 ELSE cvs[CHOOSE i \in idx : TRUE][2]
Gates(cvs) ==
  LET u == CvOf(cvs, GUe5Release)  ed == CvOf(cvs, GEditor)
  IN [lwc |-> Geq(u, LE4(28)), t64 |-> Geq(u, LE4(12)), civ |-> Geq(ed, LE4(32))]

-----------------------------------------------------------------------------
(* Tokens *)
Tok(kind, b) == [t |-> kind, b |-> b]
TLen(toks) == FoldLeft(LAMBDA n, x : n + Len(x.b), 0, toks)
Flat(toks) == Cat([i \in 1..Len(toks) |-> toks[i].b])
\* offset (0-based) of token i
Off(toks, i) == FoldLeft(LAMBDA n, x : n + Len(x.b), 0, SubSeq(toks, 1, i - 1))

StrT(s) ==
  IF IsAscii(s)
  THEN <<Tok("slen", LE4(Len(s) + 1)), Tok("sdat", s), Tok("strm", <<0>>)>>
  ELSE LET u == Utf16Units(s)
       IN <<Tok("slen", LE4S(-(Len(u) + 1))), Tok("sdat", Utf16Bytes(s)), Tok("strm", <<0, 0>>)>>
FStrT(o) == IF o = <<>> THEN <<Tok("slen", Zero4)>> ELSE StrT(o[1])
EncStr(s) == Flat(StrT(s))
EncFStr(o) == Flat(FStrT(o))

-----------------------------------------------------------------------------
(* Text *)
FoT(fo) == IF fo = <<>> THEN <<Tok("b32", Zero4)>>
           ELSE <<Tok("b32", LE4(1)), Tok("b32", LE4(fo[1].sg)), Tok("b32", LE4(fo[1].gr)), Tok("enum", LE1(fo[1].rm)),
                  Tok("num", fo[1].vs[1]), Tok("num", fo[1].vs[2]), Tok("num", fo[1].vs[3]), Tok("num", fo[1].vs[4])>>
ArgTag == "Int" :> 0 @@ "UInt" :> 1 @@ "Float" :> 2 @@ "Double" :> 3 @@ "Text" :> 4 @@ "Int64" :> 0 @@ "UInt64" :> 1

RECURSIVE TextT(_, _), HistT(_, _), ArgT(_, _)
TextT(x, g) == <<Tok("num", x.fl)>> \o HistT(x.h, g)
ArgT(a, g) == <<Tok("enum", LE1(ArgTag[a.k]))>> \o (IF a.k = "Text" THEN TextT(a.x, g) ELSE <<Tok("num", a.v)>>)
HistT(h, g) ==
  CASE h.k = "Empty" -> <<Tok("hist", <<255>>)>> \o (IF g.civ THEN <<Tok("b32", Zero4)>> ELSE <<>>)
    [] h.k = "None" -> <<Tok("hist", <<255>>), Tok("b32", LE4(1))>> \o FStrT(h.o)
    [] h.k = "Base" -> <<Tok("hist", <<0>>)>> \o FStrT(h.ns) \o FStrT(h.key) \o FStrT(h.src)
    [] h.k \in {"Named", "Argument"} ->
         <<Tok("hist", <<IF h.k = "Named" THEN 1 ELSE 3>>)>> \o TextT(h.x, g) \o <<Tok("cnt", LE4(Len(h.nas)))>>
         \o Cat([i \in 1..Len(h.nas) |-> StrT(h.nas[i][1]) \o ArgT(h.nas[i][2], g)])
    [] h.k = "Ordered" ->
         <<Tok("hist", <<2>>)>> \o TextT(h.x, g) \o <<Tok("cnt", LE4(Len(h.oas)))>>
         \o Cat([i \in 1..Len(h.oas) |-> ArgT(h.oas[i], g)])
    [] h.k = "Number" -> <<Tok("hist", <<4>>)>> \o ArgT(h.a, g) \o FoT(h.fo) \o FStrT(h.cu)
    [] h.k = "Percent" -> <<Tok("hist", <<5>>)>> \o ArgT(h.a, g) \o FoT(h.fo) \o FStrT(h.cu)
    [] h.k = "Currency" -> <<Tok("hist", <<6>>)>> \o FStrT(h.code) \o ArgT(h.a, g) \o FoT(h.fo) \o FStrT(h.cu)
    [] h.k = "Date" -> <<Tok("hist", <<7>>), Tok("num", h.v), Tok("enum", LE1(h.dst))>> \o StrT(h.cul)
    [] h.k = "Time" -> <<Tok("hist", <<8>>), Tok("num", h.v), Tok("enum", LE1(h.tst))>> \o StrT(h.tz) \o StrT(h.cul)
    [] h.k = "DateTime" -> <<Tok("hist", <<9>>), Tok("num", h.v), Tok("enum", LE1(h.dst)), Tok("enum", LE1(h.tst))>>
                           \o StrT(h.tz) \o StrT(h.cul)
    [] h.k = "Transform" -> <<Tok("hist", <<10>>)>> \o TextT(h.x, g) \o <<Tok("enum", LE1(h.tt))>>
    [] h.k = "Table" -> <<Tok("hist", <<11>>)>> \o StrT(h.id) \o StrT(h.s)

\* can this text be written under these gates?
RECURSIVE TextW(_, _), ArgW(_, _)
ArgW(a, g) == CASE a.k \in {"Int", "UInt"} -> ~g.t64
                [] a.k \in {"Int64", "UInt64"} -> g.t64
                [] a.k = "Text" -> TextW(a.x, g)
                [] OTHER -> TRUE
TextW(x, g) ==
  LET h == x.h IN
  CASE h.k = "None" -> g.civ
    [] h.k \in {"Named", "Argument"} -> TextW(h.x, g) /\ \A i \in 1..Len(h.nas) : ArgW(h.nas[i][2], g)
    [] h.k = "Ordered" -> TextW(h.x, g) /\ \A i \in 1..Len(h.oas) : ArgW(h.oas[i], g)
    [] h.k \in {"Number", "Percent", "Currency"} -> ArgW(h.a, g)
    [] h.k = "Transform" -> TextW(h.x, g)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Properties *)
RECURSIVE BodyT(_, _), PropT(_, _), SvT(_, _)

DelT(d) == StrT(d[1]) \o StrT(d[2])
SvT(sv, g) ==
  CASE sv.k = "Tags" -> <<Tok("cnt", LE4(Len(sv.tags)))>> \o Cat([i \in 1..Len(sv.tags) |-> StrT(sv.tags[i])])
    [] sv.k = "Custom" ->
         Cat([i \in 1..Len(sv.fs) |->
               Cat([j \in 1..Len(sv.fs[i][2]) |-> StrT(sv.fs[i][1]) \o PropT(sv.fs[i][2][j], g)])])
         \o StrT(SNone)
    [] OTHER -> [i \in 1..Len(sv.vs) |-> Tok("num", sv.vs[i])] \o <<>>

\* body of a property: what is stored for it when it has no tag
BodyT(p, g) ==
  CASE p.k \in ScalarKinds -> <<Tok("num", p.v)>>
    [] p.k = "Bool" -> <<Tok("bool", p.v)>>
    [] p.k = "Byte" -> <<Tok("num", p.v)>>
    [] p.k = "ByteNs" -> StrT(p.s)
    [] p.k = "Enum" -> StrT(p.s)
    [] p.k \in {"Str", "Name"} -> FStrT(p.o)
    [] p.k = "Object" -> StrT(p.s)
    [] p.k = "Delegate" -> DelT(p.d)
    [] p.k \in {"MInline", "MSparse"} -> <<Tok("cnt", LE4(Len(p.dl)))>> \o Cat([i \in 1..Len(p.dl) |-> DelT(p.dl[i])])
    [] p.k = "FieldPath" -> <<Tok("cnt", LE4(Len(p.path)))>> \o Cat([i \in 1..Len(p.path) |-> StrT(p.path[i])]) \o StrT(p.s)
    [] p.k = "Text" -> TextT(p.x, g)
    [] p.k \in {"Struct", "SV"} -> SvT(p.sv, g)
    [] p.k = "Array" ->
         IF p.f # <<>>
         THEN LET els == Cat([i \in 1..Len(p.es) |-> BodyT(p.es[i], g)])
              IN <<Tok("cnt", LE4(Len(p.es)))>> \o StrT(p.f[1][1]) \o StrT(TStruct) \o <<Tok("size", LE8(TLen(els)))>>
                 \o StrT(p.f[1][2]) \o <<Tok("guid", p.f[1][3]), Tok("term", <<0>>)>> \o els
         ELSE <<Tok("cnt", LE4(Len(p.es)))>> \o Cat([i \in 1..Len(p.es) |-> BodyT(p.es[i], g)])
    [] p.k = "Set" -> <<Tok("num", p.af), Tok("cnt", LE4(Len(p.es)))>> \o Cat([i \in 1..Len(p.es) |-> BodyT(p.es[i], g)])
    [] p.k = "Map" -> <<Tok("num", p.af), Tok("cnt", LE4(Len(p.kvs)))>>
                      \o Cat([i \in 1..Len(p.kvs) |-> BodyT(p.kvs[i][1], g) \o BodyT(p.kvs[i][2], g)])
    [] p.k = "Unknown" -> <<Tok("raw", p.raw)>>

TypeName(p) == CASE p.k = "ByteNs" -> TByte
                 [] p.k = "Unknown" -> p.ty
                 [] p.k = "SV" -> TStruct
                 [] OTHER -> TypeFn[p.k]

\* a tagged property: type, size, array index, kind-specific header, terminator, body
PropT(p, g) ==
  IF p.k = "Bool"
  THEN StrT(TBool) \o <<Tok("len", Zero4), Tok("ai", Zero4), Tok("bool", p.v), Tok("term", <<0>>)>>
  ELSE LET body == BodyT(p, g)
           hdr == CASE p.k \in {"Byte", "ByteNs"} -> FStrT(p.n)
                    [] p.k = "Enum" -> FStrT(p.t)
                    [] p.k = "Struct" -> StrT(p.tn) \o <<Tok("guid", p.guid)>>
                    [] p.k \in {"Array", "Set"} -> StrT(p.et)
                    [] p.k = "Map" -> StrT(p.kt) \o StrT(p.vt)
                    [] OTHER -> <<>>
       IN StrT(TypeName(p)) \o <<Tok("len", LE4(TLen(body))), Tok("ai", IF p.k = "Name" THEN p.ai ELSE Zero4)>>
          \o hdr \o <<Tok("term", <<0>>)>> \o body

\* can this property be written (tagged or not) under these gates?
RECURSIVE PropW(_, _, _), SvW(_, _)
SvW(sv, g) ==
  CASE sv.k \in SingleKinds -> ~g.lwc
    [] sv.k \in DoubleKinds -> g.lwc
    [] sv.k = "Custom" -> \A i \in 1..Len(sv.fs) : \A j \in 1..Len(sv.fs[i][2]) : PropW(sv.fs[i][2][j], TRUE, g)
    [] OTHER -> TRUE
PropW(p, tagged, g) ==
  CASE p.k = "SV" -> ~tagged /\ SvW(p.sv, g)
    [] p.k = "Struct" -> SvW(p.sv, g)
    [] p.k = "Text" -> TextW(p.x, g)
    [] p.k \in {"Array", "Set"} -> \A i \in 1..Len(p.es) : PropW(p.es[i], FALSE, g)
    [] p.k = "Map" -> \A i \in 1..Len(p.kvs) : PropW(p.kvs[i][1], FALSE, g) /\ PropW(p.kvs[i][2], FALSE, g)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Header and file *)
Magic == S("GVAS")
HeaderT(h) ==
  <<Tok("magic", Magic), Tok("ver", LE4(h.ver)), Tok("ver", h.pkg)>>
  \o (IF h.ver = 3 THEN <<Tok("ver", h.ue5)>> ELSE <<>>)
  \o <<Tok("num", h.maj), Tok("num", h.min), Tok("num", h.pat), Tok("num", h.cl)>> \o StrT(h.br)
  \o <<Tok("ver", h.cvf), Tok("cnt", LE4(Len(h.cvs)))>>
  \o Cat([i \in 1..Len(h.cvs) |-> <<Tok("guid", h.cvs[i][1]), Tok("num", h.cvs[i][2])>>])
  \o StrT(h.cls)

FileT(f) ==
  LET g == Gates(f.hdr.cvs) IN
  HeaderT(f.hdr) \o Cat([i \in 1..Len(f.ps) |-> StrT(f.ps[i][1]) \o PropT(f.ps[i][2], g)])
  \o StrT(SNone) \o <<Tok("pad", Zero4)>>
FileW(f) == LET g == Gates(f.hdr.cvs) IN \A i \in 1..Len(f.ps) : PropW(f.ps[i][2], TRUE, g)
EncFile(f) == Flat(FileT(f))
=============================================================================
