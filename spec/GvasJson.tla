------------------------------ MODULE GvasJson ------------------------------
(***************************************************************************)
(* The JSON form of a save.  A JSON value is a tuple:                      *)
(*   <<"o", <<name, value>>...>>  object with fixed member names           *)
(*   <<"m", <<text, value>>...>>  object holding data, in order            *)
(*   <<"a", values>>  <<"s", text>>  <<"c", constant>>  <<"b", 0|1>>       *)
(*   <<"n", type, bytes>>  a number                                        *)
(***************************************************************************)
EXTENDS GvasDec

JO(fs) == <<"o", fs>>
JM(kvs) == <<"m", kvs>>
JA(vs) == <<"a", vs>>
JS(s) == <<"s", s>>
JC(c) == <<"c", c>>
JB(b) == <<"b", b>>
JN(t, v) == <<"n", t, v>>
JNull == <<"z">>
JSeq(F(_), xs) == JA(Tup([i \in 1..Len(xs) |-> F(xs[i])]))
JOpt(o) == IF o = <<>> THEN JNull ELSE JS(o[1])
\* a member that is left out when absent
JMaybe(nm, o) == IF o = <<>> THEN <<>> ELSE << <<nm, JS(o[1])>> >>

HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexB(bs) == Cat([i \in 1..Len(bs) |-> <<HexD(bs[i] \div 16), HexD(bs[i] % 16)>>])
HexLow(bs) == Cat([i \in 1..Len(bs) |-> LET h(n) == IF n < 10 THEN 48 + n ELSE 87 + n IN <<h(bs[i] \div 16), h(bs[i] % 16)>>])
GuidText(g) == IF g = Zero16 THEN S("0")
               ELSE HexB(SubSeq(g, 1, 4)) \o S("-") \o HexB(SubSeq(g, 5, 6)) \o S("-") \o HexB(SubSeq(g, 7, 8)) \o S("-") \o HexB(SubSeq(g, 9, 10))
                    \o S("-") \o HexB(SubSeq(g, 11, 16))
JGuid(g) == JS(GuidText(g))
JGuidMaybe(g) == IF g = Zero16 THEN <<>> ELSE << <<"guid", JGuid(g)>> >>

JTypeName(kd) == CASE kd = "MInline" -> "MulticastInlineDelegateProperty" [] kd = "MSparse" -> "MulticastSparseDelegateProperty"
                   [] kd = "ByteNs" -> "ByteProperty" [] kd = "SV" -> "StructPropertyValue" [] OTHER -> kd \o "Property"
NumType == "Int8" :> "i8" @@ "Int16" :> "i16" @@ "UInt16" :> "u16" @@ "Int" :> "i32" @@ "UInt32" :> "u32" @@ "Int64" :> "i64" @@ "UInt64" :> "u64"
           @@ "Float" :> "f32" @@ "Double" :> "f64"

\* structs
SvFields == [kd \in SingleKinds \union DoubleKinds \union {"DateTime", "Timespan", "LinearColor", "IntPoint"} |->
               CASE kd \in {"VectorF", "VectorD"} -> <<"x", "y", "z">> [] kd \in {"Vector2F", "Vector2D"} -> <<"x", "y">>
                 [] kd \in {"RotatorF", "RotatorD"} -> <<"pitch", "yaw", "roll">> [] kd \in {"QuatF", "QuatD"} -> <<"x", "y", "z", "w">>
                 [] kd \in {"DateTime", "Timespan"} -> <<"ticks">> [] kd = "LinearColor" -> <<"r", "g", "b", "a">> [] OTHER -> <<"x", "y">>]
SvNum(kd) == CASE kd \in SingleKinds \union {"LinearColor"} -> "f32" [] kd \in DoubleKinds -> "f64" [] kd = "IntPoint" -> "i32" [] OTHER -> "u64"

\* text
RoundNames == <<"HalfToEven", "HalfFromZero", "HalfToZero", "FromZero", "ToZero", "ToNegativeInfinity", "ToPositiveInfinity">>
StyleNames == <<"Default", "Short", "Medium", "Long", "Full">>
JFo(fo) == JO(<< <<"always_include_sign", JB(fo.sg)>>, <<"use_grouping", JB(fo.gr)>>, <<"rounding", JC(RoundNames[fo.rm + 1])>>,
                 <<"minimum_integral_digits", JN("i32", fo.vs[1])>>, <<"maximum_integral_digits", JN("i32", fo.vs[2])>>,
                 <<"minimum_fractional_digits", JN("i32", fo.vs[3])>>, <<"maximum_fractional_digits", JN("i32", fo.vs[4])>> >>)
JTicks(v) == JO(<< <<"ticks", JN("u64", v)>> >>)
JStyle(n) == JC(StyleNames[n + 1])
HistName == "Empty" :> "Empty" @@ "None" :> "None" @@ "Base" :> "Base" @@ "Named" :> "NamedFormat" @@ "Ordered" :> "OrderedFormat" @@ "Argument" :> "ArgumentFormat"
            @@ "Number" :> "AsNumber" @@ "Percent" :> "AsPercent" @@ "Currency" :> "AsCurrency" @@ "Date" :> "AsDate" @@ "Time" :> "AsTime" @@ "DateTime" :> "AsDateTime"
            @@ "Transform" :> "Transform" @@ "Table" :> "StringTableEntry"
RECURSIVE JText(_), JTextF(_), JArg(_), JProp(_), JSv(_)
JArg(a) == JO(<< <<a.k, IF a.k = "Text" THEN JText(a.x) ELSE JN(NumType[CASE a.k = "UInt" -> "UInt32" [] OTHER -> a.k], a.v)>> >>)
JTextF(x) ==
  LET h == x.h
      fo == IF h.k \in {"Number", "Percent", "Currency"} /\ h.fo # <<>> THEN << <<"format_options", JFo(h.fo[1])>> >> ELSE <<>>
  IN (IF x.fl = Zero4 THEN <<>> ELSE << <<"flags", JN("u32", x.fl)>> >>) \o << <<"history", JC(HistName[h.k])>> >>
     \o CASE h.k = "Empty" -> <<>>
          [] h.k = "None" -> JMaybe("culture_invariant_string", h.o)
          [] h.k = "Base" -> JMaybe("namespace", h.ns) \o JMaybe("key", h.key) \o JMaybe("source_string", h.src)
          [] h.k \in {"Named", "Argument"} -> << <<"source_format", JText(h.x)>>, <<"arguments", JM(Tup([i \in 1..Len(h.nas) |-> <<h.nas[i][1], JArg(h.nas[i][2])>>]))>> >>
          [] h.k = "Ordered" -> << <<"source_format", JText(h.x)>>, <<"arguments", JSeq(JArg, h.oas)>> >>
          [] h.k \in {"Number", "Percent"} -> << <<"source_value", JArg(h.a)>> >> \o fo \o JMaybe("target_culture", h.cu)
          [] h.k = "Currency" -> JMaybe("currency_code", h.code) \o << <<"source_value", JArg(h.a)>> >> \o fo \o JMaybe("target_culture", h.cu)
          [] h.k = "Date" -> << <<"date_time", JTicks(h.v)>>, <<"date_style", JStyle(h.dst)>>, <<"target_culture", JS(h.cul)>> >>
          [] h.k = "Time" -> << <<"source_date_time", JTicks(h.v)>>, <<"time_style", JStyle(h.tst)>>, <<"time_zone", JS(h.tz)>>, <<"target_culture", JS(h.cul)>> >>
          [] h.k = "DateTime" -> << <<"source_date_time", JTicks(h.v)>>, <<"date_style", JStyle(h.dst)>>, <<"time_style", JStyle(h.tst)>>, <<"time_zone", JS(h.tz)>>,
                                    <<"target_culture", JS(h.cul)>> >>
          [] h.k = "Transform" -> << <<"source_text", JText(h.x)>>, <<"transform", JC(<<"ToLower", "ToUpper">>[h.tt + 1])>> >>
          [] h.k = "Table" -> << <<"table_id", JS(h.id)>>, <<"key", JS(h.s)>> >>
JText(x) == JO(JTextF(x))

\* struct value: one member named by its kind
JSv(sv) ==
  CASE sv.k = "Custom" -> << <<"CustomStruct", JM(Tup([i \in 1..Len(sv.fs) |-> <<sv.fs[i][1], JSeq(JProp, sv.fs[i][2])>>]))>> >>
    [] sv.k = "Tags" -> << <<"GameplayTagContainer", JSeq(JS, sv.tags)>> >>
    [] sv.k = "Guid" -> << <<"Guid", JGuid(sv.vs[1])>> >>
    [] OTHER -> << <<sv.k, JO(Tup([i \in 1..Len(sv.vs) |-> <<SvFields[sv.k][i], JN(SvNum(sv.k), sv.vs[i])>>]))>> >>
JDeleg(d) == JO(<< <<"object", JS(d[1])>>, <<"function_name", JS(d[2])>> >>)
JArrayF(p) ==
  LET Vals(F(_)) == JSeq(F, p.es) IN
  CASE p.w = "Bools" -> << <<"bools", Vals(LAMBDA e : JB(e.v[1]))>> >>
    [] p.w = "Bytes" -> << <<"bytes", JS(HexLow(Cat([i \in 1..Len(p.es) |-> p.es[i].v])))>> >>
    [] p.w = "Enums" -> << <<"enums", Vals(LAMBDA e : JS(e.s))>> >>
    [] p.w = "Floats" -> << <<"floats", Vals(LAMBDA e : JN("f32", e.v))>> >>
    [] p.w = "Ints" -> << <<"ints", Vals(LAMBDA e : JN("i32", e.v))>> >>
    [] p.w = "Names" -> << <<"names", Vals(LAMBDA e : JOpt(e.o))>> >>
    [] p.w = "Strings" -> << <<"strings", Vals(LAMBDA e : JOpt(e.o))>> >>
    [] p.w = "Structs" -> << <<"field_name", JS(p.f[1][1])>>, <<"type_name", JS(p.f[1][2])>> >> \o JGuidMaybe(p.f[1][3])
                          \o << <<"structs", Vals(LAMBDA e : JO(JSv(e.sv)))>> >>
    [] p.w = "Properties" -> << <<"property_type", JS(p.et)>>, <<"properties", Vals(JProp)>> >>
MapMember == "EnumBool" :> "enum_bools" @@ "EnumInt" :> "enum_ints" @@ "EnumProperty" :> "enum_props" @@ "NameBool" :> "name_bools" @@ "NameInt" :> "name_ints"
             @@ "NameProperty" :> "name_props" @@ "StrBool" :> "str_bools" @@ "StrInt" :> "str_ints" @@ "StrProperty" :> "str_props" @@ "StrStr" :> "str_strs"
JMapF(p) ==
  LET key(e) == IF e.k = "Enum" THEN e.s ELSE e.o[1]
      val(e) == CASE p.w \in {"EnumBool", "NameBool", "StrBool"} -> JB(e.v[1]) [] p.w \in {"EnumInt", "NameInt", "StrInt"} -> JN("i32", e.v)
                  [] p.w = "StrStr" -> JOpt(e.o) [] OTHER -> JProp(e)
  IN IF p.w = "Properties"
     THEN << <<"key_type", JS(p.kt)>>, <<"value_type", JS(p.vt)>>, <<"allocation_flags", JN("u32", p.af)>>,
             <<"value", JA(Tup([i \in 1..Len(p.kvs) |-> JA(<<JProp(p.kvs[i][1]), JProp(p.kvs[i][2])>>)]))>> >>
     ELSE (IF p.w \in {"EnumProperty", "NameProperty", "StrProperty"} THEN << <<"value_type", JS(p.vt)>> >> ELSE <<>>)
          \o << <<MapMember[p.w], JM(Tup([i \in 1..Len(p.kvs) |-> <<key(p.kvs[i][1]), val(p.kvs[i][2])>>]))>> >>
JPropF(p) ==
  CASE p.k \in ScalarKinds -> << <<"value", JN(NumType[p.k], p.v)>> >>
    [] p.k = "Bool" -> << <<"value", JB(p.v[1])>> >>
    [] p.k = "Byte" -> JMaybe("name", p.n) \o << <<"Byte", JN("u8", p.v)>> >>
    [] p.k = "ByteNs" -> JMaybe("name", p.n) \o << <<"Namespaced", JS(p.s)>> >>
    [] p.k = "Enum" -> JMaybe("enum_type", p.t) \o << <<"value", JS(p.s)>> >>
    [] p.k = "Str" -> JMaybe("value", p.o)
    [] p.k = "Name" -> (IF p.ai = Zero4 THEN <<>> ELSE << <<"array_index", JN("u32", p.ai)>> >>) \o JMaybe("value", p.o)
    [] p.k = "Object" -> << <<"value", JS(p.s)>> >>
    [] p.k = "Delegate" -> << <<"value", JDeleg(p.d)>> >>
    [] p.k \in {"MInline", "MSparse"} -> << <<"value", JO(<< <<"delegates", JSeq(JDeleg, p.dl)>> >>)>> >>
    [] p.k = "FieldPath" -> << <<"value", JO(<< <<"path", JSeq(JS, p.path)>>, <<"resolved_owner", JS(p.s)>> >>)>> >>
    [] p.k = "Text" -> JTextF(p.x)
    [] p.k = "Struct" -> JGuidMaybe(p.guid) \o << <<"type_name", JS(p.tn)>> >> \o JSv(p.sv)
    [] p.k = "SV" -> JSv(p.sv)
    [] p.k = "Array" -> JArrayF(p)
    [] p.k = "Set" -> << <<"property_type", JS(p.et)>>, <<"allocation_flags", JN("u32", p.af)>>, <<"properties", JSeq(JProp, p.es)>> >>
    [] p.k = "Map" -> JMapF(p)
    [] p.k = "Unknown" -> << <<"property_name", JS(p.ty)>>, <<"raw", JSeq(LAMBDA x : JN("u8", <<x>>), p.raw)>> >>
JProp(p) == JO(<< <<"type", JC(JTypeName(p.k))>> >> \o JPropF(p))

JHeader(h) ==
  JO(<< <<"type", JC(IF h.ver = 3 THEN "Version3" ELSE "Version2")>>, <<"package_file_version", JN("u32", h.pkg)>> >>
     \o (IF h.ver = 3 THEN << <<"package_file_version_ue5", JN("u32", h.ue5)>> >> ELSE <<>>)
     \o << <<"engine_version", JO(<< <<"major", JN("u16", h.maj)>>, <<"minor", JN("u16", h.min)>>, <<"patch", JN("u16", h.pat)>>,
                                     <<"change_list", JN("u32", h.cl)>>, <<"branch", JS(h.br)>> >>)>>,
           <<"custom_version_format", JN("u32", h.cvf)>>,
           <<"custom_versions", JM(Tup([i \in 1..Len(h.cvs) |-> <<GuidText(h.cvs[i][1]), JN("u32", h.cvs[i][2])>>]))>>,
           <<"save_game_class_name", JS(h.cls)>> >>)
JFile(f) ==
  JO((IF f.gv = "Default" THEN <<>> ELSE << <<"deserialized_game_version", JO(<< <<"Palworld", JC(f.gv)>> >>)>> >>)
     \o << <<"header", JHeader(f.hdr)>>, <<"properties", JM(Tup([i \in 1..Len(f.ps) |-> <<f.ps[i][1], JProp(f.ps[i][2])>>]))>> >>)

-----------------------------------------------------------------------------
(* JSON has no infinities and no NaN *)
Fin4(v) == v[4] \notin {127, 255} \/ v[3] < 128
Fin8(v) == v[8] \notin {127, 255} \/ v[7] < 240
RECURSIVE FinP(_), FinSv(_), FinX(_), FinA(_)
FinA(a) == CASE a.k = "Float" -> Fin4(a.v) [] a.k = "Double" -> Fin8(a.v) [] a.k = "Text" -> FinX(a.x) [] OTHER -> TRUE
FinX(x) == LET h == x.h IN
           CASE h.k \in {"Named", "Argument"} -> FinX(h.x) /\ \A i \in 1..Len(h.nas) : FinA(h.nas[i][2])
             [] h.k = "Ordered" -> FinX(h.x) /\ \A i \in 1..Len(h.oas) : FinA(h.oas[i])
             [] h.k \in {"Number", "Percent", "Currency"} -> FinA(h.a) [] h.k = "Transform" -> FinX(h.x) [] OTHER -> TRUE
FinSv(sv) == CASE sv.k \in SingleKinds \union {"LinearColor"} -> \A i \in 1..Len(sv.vs) : Fin4(sv.vs[i])
               [] sv.k \in DoubleKinds -> \A i \in 1..Len(sv.vs) : Fin8(sv.vs[i])
               [] sv.k = "Custom" -> \A i \in 1..Len(sv.fs) : \A j \in 1..Len(sv.fs[i][2]) : FinP(sv.fs[i][2][j])
               [] OTHER -> TRUE
FinP(p) == CASE p.k = "Float" -> Fin4(p.v) [] p.k = "Double" -> Fin8(p.v) [] p.k = "Text" -> FinX(p.x)
             [] p.k \in {"Struct", "SV"} -> FinSv(p.sv)
             [] p.k \in {"Array", "Set"} -> \A i \in 1..Len(p.es) : FinP(p.es[i])
             [] p.k = "Map" -> \A i \in 1..Len(p.kvs) : FinP(p.kvs[i][1]) /\ FinP(p.kvs[i][2])
             [] OTHER -> TRUE
Finite(ps) == \A i \in 1..Len(ps) : FinP(ps[i][2])
=============================================================================
