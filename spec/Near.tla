-------------------------------- MODULE Near --------------------------------
(***************************************************************************)
(* The neighbours of a value: every value that differs from it in one      *)
(* place only (a character's case, a trailing blank or NUL, a bit of a     *)
(* number, an absent for a present string, one element more or less).      *)
(* Used where two values must not be taken for one another.                *)
(***************************************************************************)
EXTENDS GvasDec

MapS(f(_), s) == Tup([i \in 1..Len(s) |-> f(s[i])])

NearUp(s) == Tup([i \in 1..Len(s) |-> IF s[i] \in 97..122 \/ s[i] = 233 THEN s[i] - 32 ELSE s[i]])
NearLow(s) == Tup([i \in 1..Len(s) |-> IF s[i] \in 65..90 \/ s[i] = 201 THEN s[i] + 32 ELSE s[i]])
NearBut(s, l) == SelectSeq(l, LAMBDA y : y /= s)
NearStr(s) ==
  IF s = <<>> THEN << <<32>>, <<0>>, SNone>>
  ELSE LET u == NearUp(s)  l == NearLow(s) IN
       NearBut(s, IF u = l THEN <<u>> ELSE <<u, l>>) \o <<s \o <<32>>, <<32>> \o s, s \o <<0>>, s \o <<769>>, SubSeq(s, 1, Len(s) - 1), Tail(s)>>
NearOpt(o) == IF o = <<>> THEN << << <<>> >>, <<SNone>> >> ELSE << <<>> >> \o MapS(LAMBDA y : <<y>>, NearStr(o[1]))
\* the lowest and the highest bit of a number
NearNum(v) == <<[v EXCEPT ![1] = IF @ % 2 = 0 THEN @ + 1 ELSE @ - 1], [v EXCEPT ![Len(v)] = IF @ < 128 THEN @ + 128 ELSE @ - 128], [v EXCEPT ![Len(v)] = IF @ % 2 = 0 THEN @ + 1 ELSE @ - 1]>>
\* one element of a tuple replaced: the results of putting each of ns[i] at place i
PutAt(s, ns) == Cat([i \in 1..Len(s) |-> MapS(LAMBDA y : [s EXCEPT ![i] = y], ns[i])])
FewerMore(s) == IF s = <<>> THEN <<>> ELSE <<Tail(s), SubSeq(s, 1, Len(s) - 1)>> \o (IF Len(s) > 1 THEN <<Append(Tail(s), s[1])>> ELSE <<>>)
NearApart(l) == \A i, j \in 1..Len(l) : i = j \/ l[i] /= l[j]
NearStrs(s) == PutAt(s, Tup([i \in 1..Len(s) |-> NearStr(s[i])])) \o FewerMore(s)

RECURSIVE Near(_), NearSv(_), NearX(_), NearA(_)
NearA(a) == IF a.k = "Text" THEN MapS(LAMBDA y : [a EXCEPT !.x = y], NearX(a.x)) ELSE MapS(LAMBDA y : [a EXCEPT !.v = y], NearNum(a.v))
NearH(x, l) == MapS(LAMBDA y : [x EXCEPT !.h = y], l)
NearFo(fo) ==
  IF fo = <<>> THEN <<>>
  ELSE LET f == fo[1] IN
       << <<>> >> \o << <<[f EXCEPT !.sg = 1 - @]>>, <<[f EXCEPT !.gr = 1 - @]>>, <<[f EXCEPT !.rm = (@ + 1) % 7]>> >>
       \o Cat([i \in 1..4 |-> MapS(LAMBDA y : <<[f EXCEPT !.vs[i] = y]>>, NearNum(f.vs[i]))])
NearX(x) ==
  LET h == x.h
      E(fld, l) == NearH(x, MapS(LAMBDA y : [h EXCEPT ![fld] = y], l)) IN
  MapS(LAMBDA y : [x EXCEPT !.fl = y], NearNum(x.fl))
  \o CASE h.k = "Empty" -> <<>>
       [] h.k = "None" -> E("o", NearOpt(h.o))
       [] h.k = "Base" -> E("ns", NearOpt(h.ns)) \o E("key", NearOpt(h.key)) \o E("src", NearOpt(h.src))
       [] h.k \in {"Named", "Argument"} ->
            E("x", NearX(h.x)) \o E("nas", SelectSeq(PutAt(h.nas, Tup([i \in 1..Len(h.nas) |-> MapS(LAMBDA y : <<y, h.nas[i][2]>>, NearStr(h.nas[i][1])) \o MapS(LAMBDA y : <<h.nas[i][1], y>>, NearA(h.nas[i][2]))])) \o FewerMore(h.nas),
                                                           LAMBDA l : NearApart(MapS(LAMBDA y : y[1], l))))
       [] h.k = "Ordered" -> E("x", NearX(h.x)) \o E("oas", PutAt(h.oas, Tup([i \in 1..Len(h.oas) |-> NearA(h.oas[i])])) \o FewerMore(h.oas))
       [] h.k \in {"Number", "Percent"} -> E("a", NearA(h.a)) \o E("fo", NearFo(h.fo)) \o E("cu", NearOpt(h.cu))
       [] h.k = "Currency" -> E("code", NearOpt(h.code)) \o E("a", NearA(h.a)) \o E("fo", NearFo(h.fo)) \o E("cu", NearOpt(h.cu))
       [] h.k = "Date" -> E("v", NearNum(h.v)) \o E("dst", <<(h.dst + 1) % 5>>) \o E("cul", NearStr(h.cul))
       [] h.k = "Time" -> E("v", NearNum(h.v)) \o E("tst", <<(h.tst + 1) % 5>>) \o E("tz", NearStr(h.tz)) \o E("cul", NearStr(h.cul))
       [] h.k = "DateTime" -> E("v", NearNum(h.v)) \o E("dst", <<(h.dst + 1) % 5>>) \o E("tst", <<(h.tst + 1) % 5>>) \o E("tz", NearStr(h.tz)) \o E("cul", NearStr(h.cul))
       [] h.k = "Transform" -> E("x", NearX(h.x)) \o E("tt", <<1 - h.tt>>)
       [] h.k = "Table" -> E("id", NearStr(h.id)) \o E("s", NearStr(h.s))
NearSv(sv) ==
  CASE sv.k = "Custom" -> MapS(LAMBDA y : [sv EXCEPT !.fs = y],
                               SelectSeq(PutAt(sv.fs, Tup([i \in 1..Len(sv.fs) |-> MapS(LAMBDA y : <<y, sv.fs[i][2]>>, NearStr(sv.fs[i][1]))
                                                                              \o MapS(LAMBDA y : <<sv.fs[i][1], y>>, PutAt(sv.fs[i][2], Tup([j \in 1..Len(sv.fs[i][2]) |-> Near(sv.fs[i][2][j])])))])) \o FewerMore(sv.fs),
                                         LAMBDA l : NearApart(MapS(LAMBDA y : y[1], l))))
    [] sv.k = "Tags" -> MapS(LAMBDA y : [sv EXCEPT !.tags = y], NearStrs(sv.tags))
    [] OTHER -> MapS(LAMBDA y : [sv EXCEPT !.vs = y], PutAt(sv.vs, Tup([i \in 1..Len(sv.vs) |-> NearNum(sv.vs[i])])))
Near(p) ==
  LET E(fld, l) == MapS(LAMBDA y : [p EXCEPT ![fld] = y], l)
      D(d) == PutAt(d, Tup([i \in 1..2 |-> NearStr(d[i])]))
      Es == PutAt(p.es, Tup([i \in 1..Len(p.es) |-> Near(p.es[i])])) \o FewerMore(p.es) IN
  CASE p.k = "Bool" -> E("v", << <<1 - p.v[1]>> >>)
    [] p.k = "Byte" -> E("v", NearNum(p.v)) \o E("n", NearOpt(p.n))
    [] p.k = "ByteNs" -> E("n", NearOpt(p.n)) \o E("s", NearStr(p.s))
    [] p.k = "Enum" -> E("t", NearOpt(p.t)) \o E("s", NearStr(p.s))
    [] p.k = "Str" -> E("o", NearOpt(p.o))
    [] p.k = "Name" -> E("ai", NearNum(p.ai)) \o E("o", NearOpt(p.o))
    [] p.k = "Object" -> E("s", NearStr(p.s))
    [] p.k = "Delegate" -> E("d", D(p.d))
    [] p.k \in {"MInline", "MSparse"} -> E("dl", PutAt(p.dl, Tup([i \in 1..Len(p.dl) |-> D(p.dl[i])])) \o FewerMore(p.dl))
    [] p.k = "FieldPath" -> E("path", NearStrs(p.path)) \o E("s", NearStr(p.s))
    [] p.k = "Text" -> E("x", NearX(p.x))
    [] p.k = "Struct" -> E("guid", NearNum(p.guid)) \o E("tn", NearStr(p.tn)) \o E("sv", NearSv(p.sv))
    [] p.k = "SV" -> E("sv", NearSv(p.sv))
    [] p.k = "Array" -> MapS(LAMBDA y : MkArray(p.et, p.f, y), Es)
                        \o (IF p.f = <<>> THEN <<>> ELSE MapS(LAMBDA y : [p EXCEPT !.f[1][1] = y], NearStr(p.f[1][1])) \o MapS(LAMBDA y : [p EXCEPT !.f[1][2] = y], NearStr(p.f[1][2]))
                                                         \o MapS(LAMBDA y : [p EXCEPT !.f[1][3] = y], NearNum(p.f[1][3])))
    [] p.k = "Set" -> E("af", NearNum(p.af)) \o E("es", Es)
    [] p.k = "Map" -> MapS(LAMBDA y : MkMap(p.kt, p.vt, p.af, y), SelectSeq(PutAt(p.kvs, Tup([i \in 1..Len(p.kvs) |-> MapS(LAMBDA y : <<y, p.kvs[i][2]>>, Near(p.kvs[i][1])) \o MapS(LAMBDA y : <<p.kvs[i][1], y>>, Near(p.kvs[i][2]))])) \o FewerMore(p.kvs),
                                         LAMBDA l : NearApart(MapS(LAMBDA y : Canon(y[1]), l))))
                      \o MapS(LAMBDA y : MkMap(p.kt, p.vt, y, p.kvs), NearNum(p.af))
    [] p.k = "Unknown" -> E("ty", NearStr(p.ty)) \o E("raw", FewerMore(p.raw) \o (IF p.raw = <<>> THEN << <<0>> >> ELSE <<[p.raw EXCEPT ![1] = (@ + 1) % 256]>>))
    [] OTHER -> E("v", NearNum(p.v))
=============================================================================
