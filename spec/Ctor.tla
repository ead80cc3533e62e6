-------------------------------- MODULE Ctor --------------------------------
(***************************************************************************)
(* Constructors and conversions of the library: Make(f, a) is the value    *)
(* that the call f with arguments a returns.  Ways(p) are the calls that   *)
(* return p.                                                               *)
(***************************************************************************)
EXTENDS GvasDec

Numeric == {"Int8", "Int16", "UInt16", "Int", "UInt32", "Int64", "UInt64", "Float", "Double"}
StructCalls == SingleKinds \union DoubleKinds \union {"DateTime", "Timespan", "LinearColor", "IntPoint", "Guid"}
Make(f, a) ==
  CASE f = "num" -> [k |-> a[1], v |-> a[2]]
    [] f = "bool" -> [k |-> "Bool", v |-> a[1]]
    [] f \in {"byte", "new_byte"} -> [k |-> "Byte", n |-> a[1], v |-> a[2]]
    [] f \in {"bytens", "new_namespaced"} -> [k |-> "ByteNs", n |-> a[1], s |-> a[2]]
    [] f = "enum" -> [k |-> "Enum", t |-> a[1], s |-> a[2]]
    [] f = "str" -> [k |-> "Str", o |-> a[1]]
    [] f \in {"str_from_ref", "str_from_string"} -> [k |-> "Str", o |-> <<a[1]>>]
    [] f \in {"name_from_ref", "name_from_string"} -> [k |-> "Name", ai |-> Zero4, o |-> <<a[1]>>]
    [] f = "name_from_option" -> [k |-> "Name", ai |-> Zero4, o |-> a[1]]
    [] f \in {"object", "object_from_ref"} -> [k |-> "Object", s |-> a[1]]
    [] f = "delegate" -> [k |-> "Delegate", d |-> a]
    [] f = "minline" -> [k |-> "MInline", dl |-> a[1]]
    [] f = "msparse" -> [k |-> "MSparse", dl |-> a[1]]
    [] f = "path" -> [k |-> "FieldPath", path |-> a[1], s |-> a[2]]
    [] f = "text" -> [k |-> "Text", x |-> a[1]]
    [] f = "text_none" -> [k |-> "Text", x |-> [fl |-> a[1], h |-> IF a[2] = <<>> THEN [k |-> "Empty"] ELSE [k |-> "None", o |-> a[2][1]]]]
    [] f = "text_base" -> [k |-> "Text", x |-> [fl |-> a[1], h |-> [k |-> "Base", ns |-> a[2], key |-> a[3], src |-> a[4]]]]
    [] f = "struct" -> [k |-> "Struct", guid |-> a[1], tn |-> a[2], sv |-> a[3]]
    [] f = "sv" -> [k |-> "SV", sv |-> [k |-> a[1], vs |-> a[2]]]
    [] f = "set" -> [k |-> "Set", et |-> a[1], af |-> a[2], es |-> a[3]]
    [] f = "unknown" -> [k |-> "Unknown", ty |-> a[1], raw |-> a[2]]
    [] f = "array" -> MkArray(a[1], a[2], a[3])
    [] f = "map" -> MkMap(a[1], a[2], a[3], a[4])
Ways(p) ==
  CASE p.k \in Numeric -> << <<"num", <<p.k, p.v>> >> >>
    [] p.k = "Bool" -> << <<"bool", <<p.v>> >> >>
    [] p.k = "Byte" -> << <<"byte", <<p.n, p.v>> >>, <<"new_byte", <<p.n, p.v>> >> >>
    [] p.k = "ByteNs" -> << <<"bytens", <<p.n, p.s>> >>, <<"new_namespaced", <<p.n, p.s>> >> >>
    [] p.k = "Enum" -> << <<"enum", <<p.t, p.s>> >> >>
    [] p.k = "Str" -> << <<"str", <<p.o>> >> >> \o (IF p.o = <<>> THEN <<>> ELSE << <<"str_from_ref", p.o>>, <<"str_from_string", p.o>> >>)
    [] p.k = "Name" -> IF p.ai # Zero4 THEN <<>>
                       ELSE << <<"name_from_option", <<p.o>> >> >> \o (IF p.o = <<>> THEN <<>> ELSE << <<"name_from_ref", p.o>>, <<"name_from_string", p.o>> >>)
    [] p.k = "Object" -> << <<"object", <<p.s>> >>, <<"object_from_ref", <<p.s>> >> >>
    [] p.k = "Delegate" -> << <<"delegate", p.d>> >>
    [] p.k = "MInline" -> << <<"minline", <<p.dl>> >> >>
    [] p.k = "MSparse" -> << <<"msparse", <<p.dl>> >> >>
    [] p.k = "FieldPath" -> << <<"path", <<p.path, p.s>> >> >>
    [] p.k = "Text" -> << <<"text", <<p.x>> >> >>
                       \o (CASE p.x.h.k = "Empty" -> << <<"text_none", <<p.x.fl, <<>> >> >> >>
                             [] p.x.h.k = "None" -> << <<"text_none", <<p.x.fl, <<p.x.h.o>> >> >> >>
                             [] p.x.h.k = "Base" -> << <<"text_base", <<p.x.fl, p.x.h.ns, p.x.h.key, p.x.h.src>> >> >>
                             [] OTHER -> <<>>)
    [] p.k = "Struct" -> << <<"struct", <<p.guid, p.tn, p.sv>> >> >>
    [] p.k = "SV" -> IF p.sv.k \in StructCalls THEN << <<"sv", <<p.sv.k, p.sv.vs>> >> >> ELSE <<>>
    [] p.k = "Set" -> << <<"set", <<p.et, p.af, p.es>> >> >>
    [] p.k = "Unknown" -> << <<"unknown", <<p.ty, p.raw>> >> >>
    [] p.k = "Array" -> << <<"array", <<p.et, p.f, p.es>> >> >>
    [] p.k = "Map" -> << <<"map", <<p.kt, p.vt, p.af, p.kvs>> >> >>
=============================================================================
