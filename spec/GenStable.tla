------------------------------ MODULE GenStable ------------------------------
(***************************************************************************)
(* Saves another program may have written: the same values, but strings in *)
(* the encoding the library does not choose itself (the configuration      *)
(* replaces StrT by OtherStr, so that all sizes follow), repeated          *)
(* properties and custom versions, anything behind the final marker.  All  *)
(* are accepted; what is read is what the specification says, and saving   *)
(* it again settles at once.                                               *)
(***************************************************************************)
EXTENDS GenBase

CONSTANT Alt             \* 1 every string, 2 some, 0 none

Usual(s) == IF IsAscii(s)
            THEN <<Tok("slen", LE4(Len(s) + 1)), Tok("sdat", s), Tok("strm", <<0>>)>>
            ELSE <<Tok("slen", LE4S(-(Len(Utf16Units(s)) + 1))), Tok("sdat", Utf16Bytes(s)), Tok("strm", <<0, 0>>)>>
Unusual(s) == IF IsAscii(s)
              THEN <<Tok("slen", LE4S(-(Len(s) + 1))), Tok("sdat", Utf16Bytes(s)), Tok("strm", <<0, 0>>)>>
              ELSE LET u == Utf8Bytes(s) IN <<Tok("slen", LE4(Len(u) + 1)), Tok("sdat", u), Tok("strm", <<0>>)>>
Sum(s) == FoldLeft(LAMBDA a, x : a + (x % 17), Len(s), s)
OtherStr(s) == IF Alt = 0 \/ Len(s) > 30000 \/ (Alt = 2 /\ Sum(s) % 2 = 0) THEN Usual(s) ELSE Unusual(s)

V(f, b, h) == LET r == ReadFile(b, h, "Default") IN
              /\ Must(r.r = "ok" /\ r.file = f, <<"not accepted", f, r>>)
              /\ Out([op |-> "doc", ck |-> <<"read", "stable">>, h |-> h, f |-> f, b |-> b])
Small(f) == TLen(FileT(f)) < 6000
\* 1: the pool
Item1(i) == LET f == Pool(i) IN (Proper(f) /\ Small(f)) => V(f, EncFile(f), HintsOf(f.ps))
\* 2: repeated properties: the last value at the place of the first
Pats == << <<1, 1>>, <<1, 2, 1>>, <<1, 2, 2>>, <<1, 2, 3, 1, 2>>, <<3, 2, 1, 1, 2, 3>>, <<1, 2, 3, 4, 3>> >>
Item2(i) ==
  LET h == (i % NH) + 1  pat == Pats[(i % 6) + 1]  L(n) == LeafTab[h][((i * 7 + n * 5) % NLeaf) + 1]
      ps == Tup([n \in 1..Len(pat) |-> <<S("p") \o <<48 + pat[n]>>, L(n)>>])
      kept == FoldLeft(LAMBDA m, x : Put(m, x[1], x[2]), <<>>, ps)
  IN V(File(Hdrs[h], kept), EncFile(File(Hdrs[h], ps)), HintsOf(ps))
\* 3: repeated custom versions
Item3(i) ==
  LET hd == Hdrs[(i % NH) + 1]  pat == Pats[(i % 6) + 1]  g(n) == <<G1, G2, GEditor, GUe5Release>>[n]
      cvs == hd.cvs \o Tup([n \in 1..Len(pat) |-> <<g(pat[n]), LE4((n * 13 + i) % 60)>>])
      kept == FoldLeft(LAMBDA m, x : Put(m, x[1], x[2]), <<>>, cvs)
      ps == << <<S("a"), IntP(i)>>, <<S("b"), StrP(<<233>>)>> >>
  IN V(File([hd EXCEPT !.cvs = kept], ps), EncFile(File([hd EXCEPT !.cvs = cvs], ps)), <<>>)
\* 4: behind the final marker
Tails == << <<>>, <<0>>, <<0, 0, 0>>, <<1, 2, 3, 4>>, <<0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, Noise(100), S("GVAS") >>
Item4(i) ==
  LET f == Pool((i * 37) % NPool)  b == EncFile(f) IN
  (Proper(f) /\ Small(f)) => V(f, SubSeq(b, 1, Len(b) - 4) \o Tails[(i % 8) + 1], HintsOf(f.ps))

Every == IF Thorough \/ Alt = 1 THEN 1 ELSE 3
SegsDef == <<NPool \div Every, IF Alt = 1 THEN 0 ELSE 6 * NLeaf, IF Alt = 1 THEN 0 ELSE 120, IF Alt = 1 THEN 0 ELSE 160>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2] * Every) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2])
Init == InitC(Total, 20)
Next == NextC(Total, 20, Emit)
=============================================================================
