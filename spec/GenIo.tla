------------------------------- MODULE GenIo -------------------------------
(***************************************************************************)
(* Input and output.  The first part is the contract of a byte stream: one *)
(* call moves some of the bytes asked for, or is interrupted, or fails.    *)
(* The loop below is what "write everything" and "read exactly" do with    *)
(* it; TLC enumerates its behaviours (the schedules) for small transfers,  *)
(* checks that success means that everything was moved in order, and       *)
(* prints each schedule to be played against the implementation.  The      *)
(* second part names the saves and properties for which the harness tries  *)
(* every failing operation and every destination limit.                    *)
(***************************************************************************)
EXTENDS GenBase

\* answers of a stream to one call, as small numbers: 0 = "nothing moved", -1 = interrupted, -2 = failed, n > 0 = n bytes at most
Answers == <<1, 2, 3, 5, 0, -1, -2>>
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Loop(_, _, _)
\* the rest of `want` bytes after the answers as: <<outcome, moved>>; past the script the stream moves everything
Loop(want, moved, as) ==
  IF want = moved THEN <<"ok", moved>>
  ELSE IF as = <<>> THEN <<"ok", want>>
  ELSE CASE Head(as) = -1 -> Loop(want, moved, Tail(as))
         [] Head(as) = -2 -> <<"err", moved>>
         [] Head(as) = 0 -> <<"err", moved>>                                  \* no progress is an error for both directions
         [] OTHER -> Loop(want, Min2(want, moved + Head(as)), Tail(as))
\* all scripts of length 4
NScr == 7 * 7 * 7 * 7
Script(i) == Tup([d \in 1..4 |-> Answers[Digit(i, <<7, 7, 7, 7>>, d) + 1]])
Harmless(as) == \A k \in 1..Len(as) : as[k] \notin {0, -2}
LoopSound(as) == \A w \in 0..24 : LET r == Loop(w, 0, as) IN (r[1] = "ok" => r[2] = w) /\ (Harmless(as) => r[1] = "ok") /\ r[2] <= w

ScrDocsDef == << File(Hdrs[1], << <<S("X"), StrP(S("hello"))>> >>),
                 File(Hdrs[2], << <<S("X"), IntP(7)>>, <<S("M"), MapP(TStr, TInt, Zero4, << <<StrP(S("k")), IntP(1)>> >>)>> >>),
                 [File(Hdrs[3], << <<S("A"), ArrOf("Str", 2)>> >>) EXCEPT !.gv = "Zlib"],
                 [File(Hdrs[1], << <<S("X"), StructP(Custom(<< <<S("f"), <<BoolP(1)>> >> >>), G1)>> >>) EXCEPT !.gv = "ZlibTwice"],
                 [File(Hdrs[1], << <<S("X"), SetOf("Int", 2)>> >>) EXCEPT !.gv = "None"] >>
ASSUME TLCSet(152, ScrDocsDef)
ScrDocs == TLCGet(152)
\* the script starts at call number `at` of the undisturbed run (given in thirds of the run by the harness)
Item1(i) == LET as == Script(i) IN
            /\ Must(LoopSound(as), <<"stream loop", as>>)
            /\ \A d \in {(i % 5) + 1} : LET f == ScrDocs[d] IN
                 Out([op |-> "io_script", f |-> f, b |-> EncFile(f), h |-> HintsOf(f.ps), as |-> as, fine |-> IF Harmless(as) THEN 1 ELSE 0])

\* every kind of property by itself
IoProp(p, tg, h) ==
  LET g == HG[h]  b == Flat(IF tg THEN PropT(p, g) ELSE BodyT(p, g))  ty == TypeName(p) IN
  Out([op |-> "io_prop", prop |-> p, b |-> b, ty |-> ty, tagged |-> tg, sug |-> IF tg THEN -1 ELSE Len(b), skip |-> IF tg THEN Len(EncStr(ty)) ELSE 0, cvs |-> Hdrs[h].cvs,
       h |-> SetToSeq(HintsP(p, <<>>) \union (IF p.k = "SV" THEN {<<S("StructProperty"), TnOf(p.sv)>>} ELSE {}))])
Item2(i) == LET h == (i % NH) + 1  p == LeafTab[h][i + 1] IN
            /\ IoProp(p, TRUE, h)
            /\ (p.k \notin {"Struct", "Unknown", "ByteNs"}) => IoProp(HL(p), FALSE, h)
Item3(i) == LET kd == ElemKinds[(i % NEK) + 1]  n == <<0, 3>>[((i \div NEK) % 2) + 1]  c == i \div (2 * NEK) IN
            CASE c = 0 -> IoProp(ArrOf(kd, n), TRUE, 1)
              [] c = 1 -> kd \notin {"Custom", "Point", "GuidSv", "TagSv"} => IoProp(SetOf(kd, n), TRUE, 1)
              [] c = 2 -> kd \in {MapKinds[m] : m \in 1..NMK} /\ kd \notin {"Custom", "Point", "GuidSv", "TagSv"} => IoProp(MapOf(kd, "Str", n), TRUE, 1) /\ IoProp(MapOf("Str", kd, n), TRUE, 1) /\ IoProp(MapOf("Int", kd, n), TRUE, 1)
\* whole saves
Gvs == <<"Default", "None", "Zlib", "ZlibTwice">>
IoFile(f0, gv) ==
  LET f == [f0 EXCEPT !.gv = gv]  b == EncFile(f) IN
  Proper(f) => /\ Out([op |-> "io_write", f |-> f, b |-> b])
               /\ Out([op |-> "io_read", f |-> f, b |-> b, h |-> HintsOf(f.ps), end |-> Len(b) - 4])
Item4(i) == IoFile(FamA(i + NLeaf * 2), Gvs[((i \div 3) % 4) + 1])                       \* each leaf inside a struct
Item5(i) == IoFile(FamX(i), Gvs[(i % 4) + 1])
Item6(i) == IoFile(FamM1(i * 7), Gvs[(i % 4) + 1])
Item7(i) == IoFile(FamH(i), Gvs[(i % 2) * 2 + 1])
Ns(n) == [k |-> "Unknown", ty |-> UnkT, raw |-> Noise(n)]
Item8(i) == LET gv == Gvs[(i % 4) + 1]  c == i \div 4 IN
            IoFile(File(Hdrs[1], CASE c = 0 -> << <<S("X"), Ns(40000)>>, <<S("Z"), IntP(1)>> >> [] c = 1 -> << <<S("X"), ArrOf("Str", 900)>> >>
                                   [] c = 2 -> << <<S("X"), StrP(Asc(9000))>>, <<S("Y"), StrP(Wide(9000))>> >> [] c = 3 -> << <<S("X"), ArrOf("Byte", 20000)>>, <<S("Y"), Ns(3000)>> >>
                                   [] c = 4 -> Tup([j \in 1..300 |-> <<S("p") \o LE2(j + 256), IntP(j)>>])), gv)
\* parts around the sizes of buffers, by themselves
Sizes == <<127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 40000, 65536, 70000>>
Item9(i) == LET n == Sizes[(i % Len(Sizes)) + 1]  c == i \div Len(Sizes)  Y(p) == IoProp(p, TRUE, 1) IN
            CASE c = 0 -> Y(Ns(n))
              [] c = 1 -> n < 10000 => Y(StrP(Asc(n - 1))) /\ Y(StrP(Wide(n - 1))) /\ Y([k |-> "Object", s |-> Asc(n)])
              [] c = 2 -> n < 10000 => Y(ArrOf("Byte", n)) /\ Y(StructP(Custom(<< <<S("f"), <<Ns(n), IntP(1)>> >> >>), G1))
              [] c = 3 -> n < 10000 => Y([k |-> "Text", x |-> BaseTxt(Asc(n))]) /\ Y(StructP(Tags(<<Asc(n), Wide(n)>>), G1))
              [] c = 4 -> n < 1000 => Y(ArrOf("Str", n)) /\ Y(SetOf("Int", n)) /\ Y(ArrOf("Custom", n \div 4))
SegsDef == <<NScr, NLeaf, 6 * NEK, NLeaf, NMixed, NM1 \div 7, NHF, 20, 5 * Len(Sizes)>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2])
             [] s[1] = 5 -> Item5(s[2]) [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2]) [] s[1] = 9 -> Item9(s[2])
Init == InitC(Total, 6)
Next == NextC(Total, 6, Emit)
=============================================================================
