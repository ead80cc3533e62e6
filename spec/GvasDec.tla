------------------------------ MODULE GvasDec ------------------------------
(***************************************************************************)
(* The reader: a deterministic machine over the bytes b of an uncompressed *)
(* save.  Its state is a record                                            *)
(*   st    "run", "ok" or "err"                                            *)
(*   p     position (number of bytes consumed)                             *)
(*   path  location stack, the dotted name of which selects a struct hint  *)
(*   stk   frames of the containers being read, innermost last             *)
(*   g     version gates, from the header                                  *)
(*   hdr   the header, once read                                           *)
(*   e     the error                                                       *)
(*   val   the result                                                      *)
(* One step reads one tag, one leaf value, one container head or one       *)
(* container end.  Leaf values are decoded by "sticky" operators on a      *)
(* cursor c = [p, e, v]: after an error the cursor is passed on unchanged. *)
(***************************************************************************)
EXTENDS GvasEnc

SKey == S("Key")
SValue == S("Value")
MaxPath == 256
MaxText == 64
MaxStr == 131072

NoErr == [k |-> "none", n |-> <<>>, p |-> 0, s |-> <<>>]
Err(k, n, p) == [k |-> k, n |-> n, p |-> p, s |-> <<>>]
IoErr == Err("Io", <<>>, 0)

Bad(c) == c.e.k # "none"
Cur(p) == [p |-> p, e |-> NoErr, v |-> <<>>]
Raise(c, e) == [c EXCEPT !.e = e]
Ret(c, v) == IF Bad(c) THEN c ELSE [c EXCEPT !.v = v]

Rd(b, c, k) == IF Bad(c) THEN c
               ELSE IF k > Len(b) - c.p THEN Raise(c, IoErr)
               ELSE [p |-> c.p + k, e |-> NoErr, v |-> SubSeq(b, c.p + 1, c.p + k)]

\* optional string
FStrD(b, c) ==
  LET c1 == Rd(b, c, 4) IN
  IF Bad(c1) THEN c1
  ELSE LET L == I32(c1.v) IN
       IF L > MaxStr \/ L < -MaxStr THEN Raise(c1, Err("InvalidString", <<c1.v>>, c.p))
       ELSE IF L = 0 THEN [c1 EXCEPT !.v = <<>>]
       ELSE LET u == IF L > 0 THEN 1 ELSE 2
                n == (IF L > 0 THEN L ELSE -L) - 1
                c2 == Rd(b, c1, n * u)
                c3 == Rd(b, c2, u)
            IN IF Bad(c3) THEN c3
               ELSE IF c3.v # Rep(0, u) THEN Raise(c3, Err("InvalidStringTerminator", <<IF u = 1 THEN <<c3.v[1], 0>> ELSE c3.v>>, c3.p))
               ELSE LET s == IF u = 1 THEN Utf8Decode(c2.v)
                             ELSE Utf16Decode(Tup([i \in 1..n |-> c2.v[2 * i - 1] + 256 * c2.v[2 * i]]))
                    IN IF s = NoString THEN Raise(c3, Err(IF u = 1 THEN "FromUtf8Error" ELSE "FromUtf16Error", <<>>, c.p))
                       ELSE [c3 EXCEPT !.v = <<s>>]
\* required string
StrD(b, c) == LET c1 == FStrD(b, c)
              IN IF Bad(c1) THEN c1
                 ELSE IF c1.v = <<>> THEN Raise(c1, Err("InvalidString", <<Zero4>>, c.p))
                 ELSE [c1 EXCEPT !.v = @[1]]

BoolD(b, c) == LET c1 == Rd(b, c, 1)
               IN IF Bad(c1) THEN c1
                  ELSE IF c1.v[1] > 1 THEN Raise(c1, Err("InvalidBoolean", <<c1.v \o <<0, 0, 0>> >>, c1.p))
                  ELSE c1
B32D(b, c) == LET c1 == Rd(b, c, 4)
              IN IF Bad(c1) THEN c1
                 ELSE IF c1.v \notin {Zero4, LE4(1)} THEN Raise(c1, Err("InvalidBoolean", <<c1.v>>, c1.p))
                 ELSE [c1 EXCEPT !.v = @[1]]
EnumD(b, c, vals) == LET c1 == Rd(b, c, 1)
                     IN IF Bad(c1) THEN c1
                        ELSE IF c1.v[1] \notin vals THEN Raise(c1, Err("InvalidEnumValue", <<c1.v>>, c1.p))
                        ELSE [c1 EXCEPT !.v = @[1]]

\* n consecutive items decoded by D, collected in a sequence; fails at the first bad one.
\* (recursion on the index, but never deeper than the bytes that are there)
RECURSIVE ManyR(_, _, _, _, _)
ManyR(D(_, _), b, c, n, acc) ==
  IF Bad(c) THEN c
  ELSE IF n = 0 THEN [c EXCEPT !.v = acc]
  ELSE LET c1 == D(b, c) IN ManyR(D, b, c1, n - 1, IF Bad(c1) THEN acc ELSE Append(acc, c1.v))
Many(D(_, _), b, c, n) == IF Bad(c) THEN c ELSE ManyR(D, b, c, n, <<>>)

-----------------------------------------------------------------------------
(* Text *)
FoD(b, c) ==
  LET h == B32D(b, c) IN
  IF Bad(h) THEN h
  ELSE IF h.v = 0 THEN [h EXCEPT !.v = <<>>]
  ELSE LET c1 == B32D(b, h)  c2 == B32D(b, c1)  c3 == EnumD(b, c2, 0..6)
           c4 == Rd(b, c3, 4)  c5 == Rd(b, c4, 4)  c6 == Rd(b, c5, 4)  c7 == Rd(b, c6, 4)
       IN IF Bad(c7) THEN c7
          ELSE [c7 EXCEPT !.v = <<[sg |-> c1.v, gr |-> c2.v, rm |-> c3.v, vs |-> <<c4.v, c5.v, c6.v, c7.v>>]>>]

\* insertion into an ordered map: a repeated key keeps its place and takes the new value
Put(m, key, val) ==
  LET idx == {i \in 1..Len(m) : m[i][1] = key}
  IN IF idx = {} THEN Append(m, <<key, val>>) ELSE LET i == CHOOSE i \in idx : TRUE IN [m EXCEPT ![i] = <<key, val>>]

RECURSIVE TextD(_, _, _, _), ArgD(_, _, _, _), NamedD(_, _, _, _, _, _), OrderedD(_, _, _, _, _, _)
ArgD(b, c, g, d) ==
  LET t == EnumD(b, c, 0..5) IN
  IF Bad(t) THEN t
  ELSE CASE t.v = 0 -> LET r == Rd(b, t, IF g.t64 THEN 8 ELSE 4)
                       IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> IF g.t64 THEN "Int64" ELSE "Int", v |-> r.v]]
         [] t.v = 1 -> LET r == Rd(b, t, IF g.t64 THEN 8 ELSE 4)
                       IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> IF g.t64 THEN "UInt64" ELSE "UInt", v |-> r.v]]
         [] t.v = 2 -> LET r == Rd(b, t, 4) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Float", v |-> r.v]]
         [] t.v = 3 -> LET r == Rd(b, t, 8) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Double", v |-> r.v]]
         [] t.v = 4 -> LET r == TextD(b, t, g, d + 1) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Text", x |-> r.v]]
         [] t.v = 5 -> Raise(t, Err("InvalidProperty", <<>>, t.p))
NamedD(b, c, g, d, n, acc) ==
  IF Bad(c) THEN c
  ELSE IF n = 0 THEN [c EXCEPT !.v = acc]
  ELSE LET ks == StrD(b, c)  a == ArgD(b, ks, g, d)
       IN NamedD(b, a, g, d, n - 1, IF Bad(a) THEN acc ELSE Put(acc, ks.v, a.v))
OrderedD(b, c, g, d, n, acc) ==
  IF Bad(c) THEN c
  ELSE IF n = 0 THEN [c EXCEPT !.v = acc]
  ELSE LET a == ArgD(b, c, g, d) IN OrderedD(b, a, g, d, n - 1, IF Bad(a) THEN acc ELSE Append(acc, a.v))

HistD(b, c, g, d) ==
  LET t == EnumD(b, c, (0..13) \union {255}) IN
  IF Bad(t) THEN t
  ELSE
  CASE t.v = 255 ->
         IF ~g.civ THEN [t EXCEPT !.v = [k |-> "Empty"]]
         ELSE LET h == B32D(b, t) IN
              IF Bad(h) THEN h
              ELSE IF h.v = 0 THEN [h EXCEPT !.v = [k |-> "Empty"]]
              ELSE LET o == FStrD(b, h) IN IF Bad(o) THEN o ELSE [o EXCEPT !.v = [k |-> "None", o |-> o.v]]
    [] t.v = 0 -> LET a == FStrD(b, t)  kk == FStrD(b, a)  s == FStrD(b, kk)
                  IN IF Bad(s) THEN s ELSE [s EXCEPT !.v = [k |-> "Base", ns |-> a.v, key |-> kk.v, src |-> s.v]]
    [] t.v \in {1, 3} ->
         LET x == TextD(b, t, g, d + 1)  n == Rd(b, x, 4)
             as == IF Bad(n) THEN n ELSE NamedD(b, n, g, d, U32(n.v), <<>>)
         IN IF Bad(as) THEN as ELSE [as EXCEPT !.v = [k |-> IF t.v = 1 THEN "Named" ELSE "Argument", x |-> x.v, nas |-> as.v]]
    [] t.v = 2 ->
         LET x == TextD(b, t, g, d + 1)  n == Rd(b, x, 4)
             as == IF Bad(n) THEN n ELSE OrderedD(b, n, g, d, U32(n.v), <<>>)
         IN IF Bad(as) THEN as ELSE [as EXCEPT !.v = [k |-> "Ordered", x |-> x.v, oas |-> as.v]]
    [] t.v \in {4, 5} ->
         LET a == ArgD(b, t, g, d)  fo == FoD(b, a)  cu == FStrD(b, fo)
         IN IF Bad(cu) THEN cu
            ELSE [cu EXCEPT !.v = [k |-> IF t.v = 4 THEN "Number" ELSE "Percent", a |-> a.v, fo |-> fo.v, cu |-> cu.v]]
    [] t.v = 6 ->
         LET code == FStrD(b, t)  a == ArgD(b, code, g, d)  fo == FoD(b, a)  cu == FStrD(b, fo)
         IN IF Bad(cu) THEN cu
            ELSE [cu EXCEPT !.v = [k |-> "Currency", code |-> code.v, a |-> a.v, fo |-> fo.v, cu |-> cu.v]]
    [] t.v = 7 ->
         LET v == Rd(b, t, 8)  ds == EnumD(b, v, 0..4)  cul == StrD(b, ds)
         IN IF Bad(cul) THEN cul ELSE [cul EXCEPT !.v = [k |-> "Date", v |-> v.v, dst |-> ds.v, cul |-> cul.v]]
    [] t.v = 8 ->
         LET v == Rd(b, t, 8)  ts == EnumD(b, v, 0..4)  tz == StrD(b, ts)  cul == StrD(b, tz)
         IN IF Bad(cul) THEN cul ELSE [cul EXCEPT !.v = [k |-> "Time", v |-> v.v, tst |-> ts.v, tz |-> tz.v, cul |-> cul.v]]
    [] t.v = 9 ->
         LET v == Rd(b, t, 8)  ds == EnumD(b, v, 0..4)  ts == EnumD(b, ds, 0..4)  tz == StrD(b, ts)  cul == StrD(b, tz)
         IN IF Bad(cul) THEN cul
            ELSE [cul EXCEPT !.v = [k |-> "DateTime", v |-> v.v, dst |-> ds.v, tst |-> ts.v, tz |-> tz.v, cul |-> cul.v]]
    [] t.v = 10 ->
         LET x == TextD(b, t, g, d + 1)  tt == EnumD(b, x, 0..1)
         IN IF Bad(tt) THEN tt ELSE [tt EXCEPT !.v = [k |-> "Transform", x |-> x.v, tt |-> tt.v]]
    [] t.v = 11 ->
         LET id == StrD(b, t)  s == StrD(b, id)
         IN IF Bad(s) THEN s ELSE [s EXCEPT !.v = [k |-> "Table", id |-> id.v, s |-> s.v]]
    [] OTHER -> Raise(t, Err("InvalidProperty", <<>>, t.p))

TextD(b, c, g, d) ==
  IF Bad(c) THEN c
  ELSE IF d > MaxText THEN Raise(c, Err("InvalidProperty", <<>>, c.p))
  ELSE LET fl == Rd(b, c, 4)  h == IF Bad(fl) THEN fl ELSE HistD(b, fl, g, d)
       IN IF Bad(h) THEN h ELSE [h EXCEPT !.v = [fl |-> fl.v, h |-> h.v]]

-----------------------------------------------------------------------------
(* Header *)
InRange(v, lo, hi) == Geq(v, lo) /\ Geq(hi, v)
HeaderD(b, c) ==
  LET BadHdr(x) == Raise(x, Err("InvalidHeader", <<x.v>>, 0))
      magic == Rd(b, c, 4)
      m2 == IF Bad(magic) \/ magic.v = Magic THEN magic ELSE BadHdr(magic)
      ver == Rd(b, m2, 4)
      v2 == IF Bad(ver) \/ ver.v \in {LE4(2), LE4(3)} THEN ver ELSE BadHdr(ver)
      pkg == Rd(b, v2, 4)
      p2 == IF Bad(pkg) \/ InRange(pkg.v, LE4(517), LE4(525)) THEN pkg ELSE BadHdr(pkg)
      three == ~Bad(p2) /\ v2.v = LE4(3)
      ue5 == IF three THEN Rd(b, p2, 4) ELSE p2
      u2 == IF ~three \/ Bad(ue5) \/ InRange(ue5.v, LE4(1000), LE4(1009)) THEN ue5 ELSE BadHdr(ue5)
      maj == Rd(b, u2, 2)  min == Rd(b, maj, 2)  pat == Rd(b, min, 2)  cl == Rd(b, pat, 4)  br == StrD(b, cl)
      cvf == Rd(b, br, 4)
      f2 == IF Bad(cvf) \/ cvf.v = LE4(3) THEN cvf ELSE BadHdr(cvf)
      cnt == Rd(b, f2, 4)
      cvs == IF Bad(cnt) THEN cnt ELSE Many(LAMBDA bb, cc : Rd(bb, cc, 20), b, cnt, U32(cnt.v))
      cls == StrD(b, cvs)
  IN IF Bad(cls) THEN cls
     ELSE [cls EXCEPT !.v =
       [ver |-> v2.v[1], pkg |-> pkg.v, ue5 |-> IF three THEN ue5.v ELSE <<>>,
        maj |-> maj.v, min |-> min.v, pat |-> pat.v, cl |-> cl.v, br |-> br.v, cvf |-> cvf.v,
        cvs |-> FoldLeft(LAMBDA m, x : Put(m, SubSeq(x, 1, 16), SubSeq(x, 17, 20)), <<>>, cvs.v),
        cls |-> cls.v]]

-----------------------------------------------------------------------------
(* Equality of keys, as the in-memory maps see it: zeros of either sign are *)
(* equal, all NaNs are equal, and entry order of inner maps is irrelevant.  *)
CanonF4(v) == IF v[1] = 0 /\ v[2] = 0 /\ v[3] = 0 /\ v[4] \in {0, 128} THEN Zero4
              ELSE IF v[4] \in {127, 255} /\ v[3] >= 128 /\ (v[3] # 128 \/ v[2] # 0 \/ v[1] # 0) THEN <<0, 0, 192, 127>>
              ELSE v
CanonF8(v) == IF SubSeq(v, 1, 7) = <<0, 0, 0, 0, 0, 0, 0>> /\ v[8] \in {0, 128} THEN Zero8
              ELSE IF v[8] \in {127, 255} /\ v[7] >= 240 /\ (v[7] # 240 \/ SubSeq(v, 1, 6) # <<0, 0, 0, 0, 0, 0>>)
                   THEN <<0, 0, 0, 0, 0, 0, 248, 127>>
              ELSE v
Canon4s(vs) == Tup([i \in 1..Len(vs) |-> CanonF4(vs[i])])
Canon8s(vs) == Tup([i \in 1..Len(vs) |-> CanonF8(vs[i])])
RECURSIVE Canon(_), CanonSv(_), CanonX(_), CanonA(_)
CanonA(a) == CASE a.k = "Float" -> [a EXCEPT !.v = CanonF4(@)]
               [] a.k = "Double" -> [a EXCEPT !.v = CanonF8(@)]
               [] a.k = "Text" -> [a EXCEPT !.x = CanonX(@)]
               [] OTHER -> a
CanonX(x) ==
  LET h == x.h IN
  CASE h.k \in {"Named", "Argument"} ->
         [fl |-> x.fl, h |-> [k |-> h.k, x |-> CanonX(h.x), nset |-> {<<h.nas[i][1], CanonA(h.nas[i][2])>> : i \in 1..Len(h.nas)}]]
    [] h.k = "Ordered" -> [fl |-> x.fl, h |-> [h EXCEPT !.x = CanonX(@), !.oas = Tup([i \in 1..Len(@) |-> CanonA(@[i])])]]
    [] h.k \in {"Number", "Percent", "Currency"} -> [fl |-> x.fl, h |-> [h EXCEPT !.a = CanonA(@)]]
    [] h.k = "Transform" -> [fl |-> x.fl, h |-> [h EXCEPT !.x = CanonX(@)]]
    [] OTHER -> x
CanonSv(sv) ==
  CASE sv.k \in SingleKinds \union {"LinearColor"} -> [sv EXCEPT !.vs = Canon4s(@)]
    [] sv.k \in DoubleKinds -> [sv EXCEPT !.vs = Canon8s(@)]
    [] sv.k = "Custom" -> [k |-> "Custom", fset |-> {<<sv.fs[i][1], Tup([j \in 1..Len(sv.fs[i][2]) |-> Canon(sv.fs[i][2][j])])>> : i \in 1..Len(sv.fs)}]
    [] OTHER -> sv
Canon(p) ==
  CASE p.k = "Float" -> [p EXCEPT !.v = CanonF4(@)]
    [] p.k = "Double" -> [p EXCEPT !.v = CanonF8(@)]
    [] p.k = "Text" -> [p EXCEPT !.x = CanonX(@)]
    [] p.k \in {"Struct", "SV"} -> [p EXCEPT !.sv = CanonSv(@)]
    [] p.k \in {"Array", "Set"} -> [p EXCEPT !.es = Tup([i \in 1..Len(@) |-> Canon(@[i])])]
    [] p.k = "Map" -> [k |-> "Map", w |-> p.w, kt |-> p.kt, vt |-> p.vt, af |-> p.af,
                       kvset |-> {<<Canon(p.kvs[i][1]), Canon(p.kvs[i][2])>> : i \in 1..Len(p.kvs)}]
    [] OTHER -> p
PlainKey(p) == p.k \notin {"Float", "Double", "Text", "Struct", "SV", "Array", "Set", "Map"}
SameKey(a, b) == IF PlainKey(a) \/ PlainKey(b) THEN a = b ELSE Canon(a) = Canon(b)
\* a repeated key keeps its place and its first form, and takes the new value
PutKey(m, key, val) ==
  LET idx == {i \in 1..Len(m) : SameKey(m[i][1], key)}
  IN IF idx = {} THEN Append(m, <<key, val>>)
     ELSE LET i == CHOOSE i \in idx : TRUE IN [m EXCEPT ![i] = <<m[i][1], val>>]

-----------------------------------------------------------------------------
(* In-memory forms of arrays and maps: the compact form that can hold all   *)
(* the elements, or the general form.                                       *)
All(es, P(_)) == \A i \in 1..Len(es) : P(es[i])
ArrayForm(et, f, es) ==
  IF f # <<>>
  THEN IF et = TStruct /\ All(es, LAMBDA e : e.k = "SV") THEN "Structs" ELSE "ERR"
  ELSE CASE et = TBool /\ All(es, LAMBDA e : e.k = "Bool") -> "Bools"
         [] et = TByte /\ All(es, LAMBDA e : e.k = "Byte" /\ e.n = <<>>) -> "Bytes"
         [] et = TEnum /\ All(es, LAMBDA e : e.k = "Enum" /\ e.t = <<>>) -> "Enums"
         [] et = TInt /\ All(es, LAMBDA e : e.k = "Int") -> "Ints"
         [] et = TFloat /\ All(es, LAMBDA e : e.k = "Float") -> "Floats"
         [] et = TName /\ All(es, LAMBDA e : e.k = "Name" /\ e.ai = Zero4) -> "Names"
         [] et = TStr /\ All(es, LAMBDA e : e.k = "Str") -> "Strings"
         [] OTHER -> "Properties"
MapForm(kt, vt, af, kvs) ==
  LET KeyOk(p) == CASE kt = TEnum -> p.k = "Enum" /\ p.t = <<>>
                    [] kt = TName -> p.k = "Name" /\ p.ai = Zero4 /\ p.o # <<>>
                    [] kt = TStr -> p.k = "Str" /\ p.o # <<>>
                    [] OTHER -> FALSE
      pre == CASE kt = TEnum -> "Enum" [] kt = TName -> "Name" [] kt = TStr -> "Str" [] OTHER -> ""
      post == CASE vt = TBool -> "Bool" [] vt = TInt -> "Int"
                [] vt = TStr /\ kt = TStr -> "Str" [] OTHER -> "Property"
  IN IF pre # "" /\ af = Zero4
        /\ All(kvs, LAMBDA e : KeyOk(e[1]) /\ (post = "Property" \/ e[2].k = post))
     THEN pre \o post
     ELSE "Properties"
MkArray(et, f, es) == [k |-> "Array", w |-> ArrayForm(et, f, es), et |-> et, f |-> f, es |-> es]
MkMap(kt, vt, af, kvs) == [k |-> "Map", w |-> MapForm(kt, vt, af, kvs), kt |-> kt, vt |-> vt, af |-> af, kvs |-> kvs]

-----------------------------------------------------------------------------
(* The machine *)
Dot == 46
RECURSIVE JoinR(_, _)
JoinR(path, i) == IF i > Len(path) THEN <<>>
                  ELSE (IF i = 1 THEN path[1] ELSE <<Dot>> \o path[i]) \o JoinR(path, i + 1)
Join(path) == JoinR(path, 1)
HintFor(hints, path) == LET s == Join(path)  idx == {i \in 1..Len(hints) : hints[i][1] = s}
                        IN IF idx = {} THEN <<>> ELSE <<hints[CHOOSE i \in idx : TRUE][2]>>

Top(rd) == rd.stk[Len(rd.stk)]
Pop1(s) == SubSeq(s, 1, Len(s) - 1)
Pops(s, n) == SubSeq(s, 1, Len(s) - n)
SetTop(rd, fr) == [rd EXCEPT !.stk[Len(rd.stk)] = fr]
Push(rd, fr) == [rd EXCEPT !.stk = Append(@, fr)]
\* an error unwinds every frame and every entry of the location stack
Fail(rd, e) == [rd EXCEPT !.st = "err", !.e = e, !.stk = <<>>, !.path = rd.base]

RECURSIVE Deliver(_, _, _)
\* Hand a finished property (isSv = FALSE) or struct value (isSv = TRUE) to the innermost frame.
Deliver(rd, x, isSv) ==
  LET fr == Top(rd) IN
  CASE fr.f = "top" -> SetTop([rd EXCEPT !.path = Pop1(@)], [fr EXCEPT !.ps = Put(@, fr.nm, x)])
    [] fr.f = "cust" ->
         LET idx == {i \in 1..Len(fr.fs) : fr.fs[i][1] = fr.nm}
             fs2 == IF idx = {} THEN Append(fr.fs, <<fr.nm, <<x>> >>)
                    ELSE LET i == CHOOSE i \in idx : TRUE IN [fr.fs EXCEPT ![i] = <<@[1], Append(@[2], x)>>]
         IN SetTop([rd EXCEPT !.path = Pop1(@)], [fr EXCEPT !.fs = fs2])
    [] fr.f = "shdr" ->
         IF rd.p - fr.start # U32(fr.len) THEN Fail(rd, Err("InvalidValueSize", <<fr.len \o Zero4, LE8(rd.p - fr.start)>>, fr.start))
         ELSE Deliver([rd EXCEPT !.stk = Pop1(@), !.path = Pop1(@)],
                      [k |-> "Struct", guid |-> fr.guid, tn |-> fr.tn, sv |-> x], FALSE)
    [] fr.f = "hsv" -> Deliver([rd EXCEPT !.stk = Pop1(@), !.path = Pop1(@)], [k |-> "SV", sv |-> x], FALSE)
    [] fr.f = "sarr" -> SetTop(rd, [fr EXCEPT !.es = Append(@, [k |-> "SV", sv |-> x]), !.n = @ - 1])
    [] fr.f \in {"arr", "set"} -> SetTop(rd, [fr EXCEPT !.es = Append(@, x), !.n = @ - 1])
    [] fr.f = "map" ->
         IF fr.ph = "key" THEN SetTop([rd EXCEPT !.path = Pop1(@)], [fr EXCEPT !.ph = "val", !.key = <<x>>])
         ELSE SetTop([rd EXCEPT !.path = Pop1(@)],
                     [fr EXCEPT !.ph = "key", !.key = <<>>, !.kvs = PutKey(@, fr.key[1], x), !.n = @ - 1])
    [] fr.f = "root" -> [rd EXCEPT !.st = "ok", !.val = x, !.stk = <<>>]

\* Finish a sized container: check the size recorded in its tag, pop it, deliver it.
Close(rd, fr, x) ==
  IF rd.p - fr.start # U32(fr.len)
  THEN Fail(rd, Err("InvalidValueSize", <<fr.len \o Zero4, LE8(rd.p - fr.start)>>, fr.start))
  ELSE Deliver([rd EXCEPT !.stk = Pop1(@), !.path = Pop1(@)], x, FALSE)

\* size, array index; the array index must be zero
TagD(b, c, indexed) ==
  LET len == Rd(b, c, 4)  ai == Rd(b, len, 4)
  IN IF Bad(ai) THEN ai
     ELSE IF ~indexed /\ ai.v # Zero4 THEN Raise(ai, Err("InvalidArrayIndex", <<ai.v>>, ai.p - 4))
     ELSE [ai EXCEPT !.v = <<len.v, ai.v>>]
TermD(b, c) == LET t == Rd(b, c, 1)
               IN IF Bad(t) THEN t
                  ELSE IF t.v # <<0>> THEN Raise(t, Err("InvalidTerminator", <<t.v>>, t.p - 1)) ELSE t
SizeCheck(c, start, len) ==
  IF Bad(c) THEN c
  ELSE IF c.p - start # U32(len) THEN Raise(c, Err("InvalidValueSize", <<len \o Zero4, LE8(c.p - start)>>, start))
  ELSE c

DelD(b, c) == LET o == StrD(b, c)  f == StrD(b, o) IN IF Bad(f) THEN f ELSE [f EXCEPT !.v = <<o.v, f.v>>]

\* body of a leaf kind; n/t is the name from the tag, where there is one
LeafBody(b, c, kd, g, ai, nm, sug) ==
  CASE kd \in ScalarKinds -> LET r == Rd(b, c, ScalarSize[kd]) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> kd, v |-> r.v]]
    [] kd = "Byte" ->
         IF sug \in {-1, 0, 1, 2}
         THEN LET r == Rd(b, c, 1) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Byte", n |-> nm, v |-> r.v]]
         ELSE LET r == StrD(b, c) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "ByteNs", n |-> nm, s |-> r.v]]
    [] kd = "Enum" -> LET r == StrD(b, c) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Enum", t |-> nm, s |-> r.v]]
    [] kd = "Str" -> LET r == FStrD(b, c) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Str", o |-> r.v]]
    [] kd = "Name" -> LET r == FStrD(b, c) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Name", ai |-> ai, o |-> r.v]]
    [] kd = "Object" -> LET r == StrD(b, c) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Object", s |-> r.v]]
    [] kd = "Delegate" -> LET r == DelD(b, c) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Delegate", d |-> r.v]]
    [] kd \in {"MInline", "MSparse"} ->
         LET n == Rd(b, c, 4)  r == IF Bad(n) THEN n ELSE Many(DelD, b, n, U32(n.v))
         IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> kd, dl |-> r.v]]
    [] kd = "FieldPath" ->
         LET n == Rd(b, c, 4)  ps == IF Bad(n) THEN n ELSE Many(StrD, b, n, U32(n.v))  s == StrD(b, ps)
         IN IF Bad(s) THEN s ELSE [s EXCEPT !.v = [k |-> "FieldPath", path |-> ps.v, s |-> s.v]]
    [] kd = "Text" -> LET r == TextD(b, c, g, 0) IN IF Bad(r) THEN r ELSE [r EXCEPT !.v = [k |-> "Text", x |-> r.v]]

LeafKinds == ScalarKinds \union {"Byte", "Enum", "Str", "Name", "Object", "Delegate", "MInline", "MSparse", "FieldPath", "Text"}

\* a tagged leaf
LeafTagged(b, c, kd, g) ==
  IF kd \in ScalarKinds
  THEN LET sz == Rd(b, c, 8) IN
       IF Bad(sz) THEN sz
       ELSE IF sz.v # LE8(ScalarSize[kd]) THEN Raise(sz, Err("InvalidValueSize", <<LE8(ScalarSize[kd]), sz.v>>, sz.p))
       ELSE LeafBody(b, TermD(b, sz), kd, g, Zero4, <<>>, -1)
  ELSE LET tag == TagD(b, c, kd = "Name")
           nm == IF kd \in {"Byte", "Enum"} THEN StrD(b, tag) ELSE tag
           term == TermD(b, nm)
       IN IF Bad(term) THEN term
          ELSE SizeCheck(LeafBody(b, term, kd, g, tag.v[2], IF kd \in {"Byte", "Enum"} THEN <<nm.v>> ELSE <<>>, U32(tag.v[1])),
                         term.p, tag.v[1])
BoolTagged(b, c) ==
  LET sz == Rd(b, c, 8) IN
  IF Bad(sz) THEN sz
  ELSE IF sz.v # Zero8 THEN Raise(sz, Err("InvalidValueSize", <<Zero8, sz.v>>, sz.p))
  ELSE LET v == BoolD(b, sz)  t == TermD(b, v)
       IN IF Bad(t) THEN t ELSE [t EXCEPT !.v = [k |-> "Bool", v |-> v.v]]

\* Start a struct value of type tn: fixed types are read at once, others open a frame.
BeginSv(rd, b, tn) ==
  LET c == Cur(rd.p)
      Done(r, sv) == IF Bad(r) THEN Fail(rd, r.e) ELSE Deliver([rd EXCEPT !.p = r.p], sv, TRUE)
      Fields(n, w) == Many(LAMBDA bb, cc : Rd(bb, cc, w), b, c, n)
  IN CASE tn \in GeomTypes ->
            LET r == Fields(GeomN[tn], IF rd.g.lwc THEN 8 ELSE 4)
            IN Done(r, [k |-> IF rd.g.lwc THEN GeomD[tn] ELSE GeomF[tn], vs |-> r.v])
       [] tn \in FixedTypes -> LET r == Fields(FixedN[tn], FixedW[tn]) IN Done(r, [k |-> FixedK[tn], vs |-> r.v])
       [] tn = StTags -> LET n == Rd(b, c, 4)  r == IF Bad(n) THEN n ELSE Many(StrD, b, n, U32(n.v))
                         IN Done(r, [k |-> "Tags", tags |-> r.v])
       [] OTHER -> Push(rd, [f |-> "cust", fs |-> <<>>, nm |-> <<>>])

\* Start a property of type ty (tagged or not; sug = size suggested by the container, -1 if none).
BeginProp(rd0, b, ty, tagged, sug, hints) ==
  LET kd == KindOf(ty)
      rd == [rd0 EXCEPT !.path = Append(@, ty)]
      c == Cur(rd.p)
      Leaf(r) == IF Bad(r) THEN Fail(rd, r.e) ELSE Deliver([rd0 EXCEPT !.p = r.p], r.v, FALSE)
  IN
  IF Len(rd.path) > MaxPath THEN Fail(rd, Err("InvalidProperty", <<>>, rd.p))
  ELSE
  CASE kd \in LeafKinds -> Leaf(IF tagged THEN LeafTagged(b, c, kd, rd.g) ELSE LeafBody(b, c, kd, rd.g, Zero4, <<>>, sug))
    [] kd = "Bool" -> Leaf(IF tagged THEN BoolTagged(b, c)
                           ELSE LET v == BoolD(b, c) IN IF Bad(v) THEN v ELSE [v EXCEPT !.v = [k |-> "Bool", v |-> v.v]])
    [] kd = "Struct" ->
         IF tagged
         THEN LET tag == TagD(b, c, FALSE)  tn == StrD(b, tag)  gd == Rd(b, tn, 16)  t == TermD(b, gd)
              IN IF Bad(t) THEN Fail(rd, t.e)
                 ELSE BeginSv(Push([rd EXCEPT !.p = t.p], [f |-> "shdr", len |-> tag.v[1], tn |-> tn.v, guid |-> gd.v, start |-> t.p]), b, tn.v)
         ELSE LET h == HintFor(hints, rd.path)
              IN IF h = <<>> THEN Fail(rd, [Err("MissingHint", <<>>, rd.p) EXCEPT !.s = Join(rd.path)])
                 ELSE BeginSv(Push(rd, [f |-> "hsv"]), b, h[1])
    [] kd \in {"Array", "Set", "Map"} ->
         IF ~tagged THEN Fail(rd, Err("InvalidProperty", <<>>, rd.p))
         ELSE LET tag == TagD(b, c, FALSE)
                  et == StrD(b, tag)
                  vt == IF kd = "Map" THEN StrD(b, et) ELSE et
                  t == TermD(b, vt)
                  af == IF kd = "Array" THEN t ELSE Rd(b, t, 4)
                  n == Rd(b, af, 4)
              IN IF Bad(n) THEN Fail(rd, n.e)
                 ELSE LET cnt == U32(n.v)
                          len == tag.v[1]
                          rd2 == [rd EXCEPT !.p = n.p]
                      IN CASE kd = "Set" ->
                                Push(rd2, [f |-> "set", et |-> et.v, af |-> af.v, n |-> cnt, es |-> <<>>, len |-> len, start |-> t.p,
                                           sug |-> IF cnt = 0 THEN -1 ELSE (IF U32(len) < 8 THEN 0 ELSE U32(len) - 8) \div cnt])
                           [] kd = "Map" ->
                                Push(rd2, [f |-> "map", kt |-> et.v, vt |-> vt.v, af |-> af.v, n |-> cnt, kvs |-> <<>>, len |-> len,
                                           start |-> t.p, ph |-> "key", key |-> <<>>])
                           [] kd = "Array" /\ et.v # TStruct ->
                                Push(rd2, [f |-> "arr", et |-> et.v, n |-> cnt, es |-> <<>>, len |-> len, start |-> t.p,
                                           sug |-> IF cnt = 0 \/ U32(len) < 4 THEN -1 ELSE (U32(len) - 4) \div cnt])
                           [] OTHER ->
                                LET fn == StrD(b, n)
                                    it == StrD(b, fn)
                                    i2 == IF Bad(it) \/ it.v = TStruct THEN it ELSE Raise(it, Err("InvalidProperty", <<>>, it.p))
                                    sz == Rd(b, i2, 8)  tn == StrD(b, sz)  gd == Rd(b, tn, 16)  t2 == TermD(b, gd)
                                IN IF Bad(t2) THEN Fail(rd, t2.e)
                                   ELSE Push([rd EXCEPT !.p = t2.p],
                                             [f |-> "sarr", n |-> cnt, es |-> <<>>, len |-> len, start |-> t.p,
                                              fld |-> fn.v, tn |-> tn.v, guid |-> gd.v, size |-> sz.v, start2 |-> t2.p])
    [] kd = "Unknown" ->
         IF tagged
         THEN LET tag == TagD(b, c, FALSE)  t == TermD(b, tag)
                  raw == IF Bad(t) THEN t ELSE Rd(b, t, U32(tag.v[1]))
              IN Leaf(IF Bad(raw) THEN raw ELSE [raw EXCEPT !.v = [k |-> "Unknown", ty |-> ty, raw |-> raw.v]])
         ELSE IF sug > 0
              THEN LET raw == Rd(b, c, sug) IN Leaf(IF Bad(raw) THEN raw ELSE [raw EXCEPT !.v = [k |-> "Unknown", ty |-> ty, raw |-> raw.v]])
              ELSE Fail(rd, Err("InvalidProperty", <<>>, rd.p))

\* One step of the reader.
Step(rd, b, hints) ==
  IF rd.st # "run" THEN rd
  ELSE IF rd.stk = <<>>
  THEN \* the header
       LET h == HeaderD(b, Cur(rd.p))
       IN IF Bad(h) THEN Fail(rd, h.e)
          ELSE Push([rd EXCEPT !.p = h.p, !.hdr = <<h.v>>, !.g = Gates(h.v.cvs)], [f |-> "top", ps |-> <<>>, nm |-> <<>>])
  ELSE
  LET fr == Top(rd) IN
  CASE fr.f \in {"top", "cust"} ->
         LET nm == StrD(b, Cur(rd.p)) IN
         IF Bad(nm) THEN Fail(rd, nm.e)
         ELSE IF nm.v = SNone
              THEN IF fr.f = "top" THEN [rd EXCEPT !.p = nm.p, !.st = "ok", !.val = fr.ps, !.stk = <<>>]
                   ELSE Deliver([rd EXCEPT !.p = nm.p, !.stk = Pop1(@)], [k |-> "Custom", fs |-> fr.fs], TRUE)
         ELSE LET ty == StrD(b, nm) IN
              IF Bad(ty) THEN Fail(rd, ty.e)
              ELSE BeginProp(SetTop([rd EXCEPT !.p = ty.p, !.path = Append(@, nm.v)], [fr EXCEPT !.nm = nm.v]), b, ty.v, TRUE, -1, hints)
    [] fr.f = "sarr" ->
         IF fr.n > 0 THEN BeginSv(rd, b, fr.tn)
         ELSE IF LE8(rd.p - fr.start2) # fr.size THEN Fail(rd, Err("InvalidProperty", <<>>, rd.p))
         ELSE Close(rd, fr, MkArray(TStruct, <<<<fr.fld, fr.tn, fr.guid>>>>, fr.es))
    [] fr.f = "arr" ->
         IF fr.n > 0 THEN BeginProp(rd, b, fr.et, FALSE, fr.sug, hints)
         ELSE Close(rd, fr, MkArray(fr.et, <<>>, fr.es))
    [] fr.f = "set" ->
         IF fr.n > 0 THEN BeginProp(rd, b, fr.et, FALSE, fr.sug, hints)
         ELSE Close(rd, fr, [k |-> "Set", et |-> fr.et, af |-> fr.af, es |-> fr.es])
    [] fr.f = "map" ->
         IF fr.n > 0
         THEN IF fr.ph = "key" THEN BeginProp([rd EXCEPT !.path = Append(@, SKey)], b, fr.kt, FALSE, -1, hints)
              ELSE BeginProp([rd EXCEPT !.path = Append(@, SValue)], b, fr.vt, FALSE, -1, hints)
         ELSE Close(rd, fr, MkMap(fr.kt, fr.vt, fr.af, fr.kvs))

NoGates == [lwc |-> FALSE, t64 |-> FALSE, civ |-> FALSE]
StartFile(p) == [st |-> "run", p |-> p, path |-> <<>>, base |-> <<>>, stk |-> <<>>, g |-> NoGates, hdr |-> <<>>, e |-> NoErr, val |-> <<>>]
\* reading a single property through the public constructor, with a caller-supplied location stack
StartProp(b, p, base, g, ty, tagged, sug, hints) ==
  BeginProp([st |-> "run", p |-> p, path |-> base, base |-> base, stk |-> <<[f |-> "root"]>>, g |-> g, hdr |-> <<>>, e |-> NoErr, val |-> <<>>],
            b, ty, tagged, sug, hints)

Chunk == Tup([i \in 1..64 |-> i])
RECURSIVE Run(_, _, _)
Run(rd, b, hints) == LET r == FoldLeft(LAMBDA s, i : Step(s, b, hints), rd, Chunk)
                     IN IF r.st = "run" THEN Run(r, b, hints) ELSE r

\* Outcome of reading a whole (uncompressed) save
ReadFile(b, hints, gv) ==
  LET r == Run(StartFile(0), b, hints)
  IN IF r.st = "ok" THEN [r |-> "ok", file |-> [gv |-> gv, hdr |-> r.hdr[1], ps |-> r.val], p |-> r.p]
     ELSE [r |-> "err", e |-> r.e]
=============================================================================
