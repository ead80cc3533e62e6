------------------------------- MODULE GenHdr -------------------------------
(* Headers: contents, sweeps of every version field, prefixes, alone and in front of properties *)
EXTENDS GenBase, Faults

Enc(h) == Flat(HeaderT(h))
XH(b) == LET r == HeaderD(b, Cur(0)) IN IF Bad(r) THEN [r |-> "err", e |-> r.e] ELSE [r |-> "ok", hdr |-> r.v, p |-> r.p]
HRead(b) == Out([op |-> "hdr_read", b |-> b, x |-> XH(b)])
NF == Len(HdrFam)
\* 1: contents
Item1(i) ==
  LET h == HdrFam[i + 1]  b == Enc(h)  x == XH(b) IN
  /\ Must(x.r = "ok" /\ x.hdr = h /\ x.p = Len(b), <<"header", h>>)
  /\ HRead(b) /\ HRead(b \o <<1, 2, 3>>) /\ Out([op |-> "hdr_write", hdr |-> h, x |-> [r |-> "ok", b |-> b, n |-> Len(b)]])
  /\ \A n \in 0..(IF Len(b) > 120 THEN 120 ELSE Len(b) - 1) : Must(XH(SubSeq(b, 1, n)).r = "err", <<"cut header", h>>) /\ HRead(SubSeq(b, 1, n))
\* 2: every value of every version field around the windows
Sweep == Tup([i \in 1..40 |-> LE4(i - 1)]) \o Tup([i \in 1..40 |-> LE4(i + 499)]) \o Tup([i \in 1..60 |-> LE4(i + 979)])
         \o Cat([k \in 1..32 |-> LET w == (k - 1) \div 8  bit == 2 ^ ((k - 1) % 8)
                                     one == [j \in 1..4 |-> IF j = w + 1 THEN bit ELSE 0] \o <<>>
                                 IN <<one, [j \in 1..4 |-> 255 - one[j]] \o <<>>, [j \in 1..4 |-> IF j <= w THEN 255 ELSE IF j = w + 1 THEN bit - 1 ELSE 0] \o <<>>>>])
         \* in-window values with one foreign byte
         \o Cat([j \in 1..3 |-> Tup([k \in 1..6 |-> SetB(LE4(<<2, 3, 522, 1004, 517, 525>>[k]), 1 + j, 1 + (<<2, 3, 522, 1004, 517, 525>>[k] % 7))])])
NSw == Len(Sweep)
SwHd == <<MinHd(2, Cv(<<LE4(28)>>, <<LE4(32)>>)), MinHd(3, <<>>), HBase>>
Item2(i) ==
  LET h == SwHd[(i % 3) + 1]  v == Sweep[(i \div 3) + 1]  toks == HeaderT(h)
      vt == SelectSeq(Tup([j \in 1..Len(toks) |-> j]), LAMBDA j : toks[j].t \in {"ver", "magic"})
      b == Enc(h)
  IN \A k \in 1..Len(vt) : LET a == Off(toks, vt[k]) IN HRead(Mut(b, a, 4, v))
\* 3: two versions at a time (2 and 3 have different layouts)
Vers == <<LE4(1), LE4(2), LE4(3), LE4(4)>>
Pkgs == Tup([i \in 1..11 |-> LE4(515 + i)])
Ues == Tup([i \in 1..12 |-> LE4(998 + i)])
Item3(i) ==
  LET v == Vers[(i % 4) + 1]  p == Pkgs[((i \div 4) % 11) + 1]  u == Ues[((i \div 44) % 12) + 1]
      rest == SubSeq(Enc(MinHd(2, <<>>)), 13, Len(Enc(MinHd(2, <<>>))))
  IN HRead(Magic \o v \o p \o u \o rest) /\ HRead(Magic \o v \o p \o rest)
N3 == 4 * 11 * 12
\* 4: custom-version tables: repeated identifiers, sizes
Cvt(i) == CASE i = 0 -> << <<G1, LE4(1)>>, <<G2, LE4(2)>>, <<G1, LE4(3)>> >>
            [] i = 1 -> << <<G1, LE4(1)>>, <<G1, LE4(1)>> >>
            [] i = 2 -> << <<Zero16, LE4(1)>>, <<GUe5Release, LE4(12)>>, <<GUe5Release, LE4(28)>>, <<G2, LE4(2)>>, <<GUe5Release, LE4(3)>> >>
            [] OTHER -> Tup([j \in 1..(<<4, 17, 64, 127, 128, 255, 256, 300>>[i - 2]) |-> <<LE4(j * 7919) \o SubSeq(G2, 1, 12), LE4(j * 65539)>>])
N4 == 11
Item4(i) ==
  LET h == [HBase EXCEPT !.cvs = Cvt(i)]  b == Enc(h) IN
  /\ HRead(b)
  /\ LET x == XH(b) IN
     /\ Must(x.r = "ok" /\ (i > 2 => x.hdr = h), <<"custom versions", h>>)
     /\ Out([op |-> "hdr_write", hdr |-> x.hdr, x |-> [r |-> "ok", b |-> Enc(x.hdr), n |-> Len(Enc(x.hdr))]])
     /\ LET f == File(x.hdr, << <<S("X"), IntP(3)>> >>)  b2 == b \o SubSeq(EncFile(f), Len(Enc(x.hdr)) + 1, Len(EncFile(f)))
        IN Out([op |-> "read", b |-> b2, h |-> <<>>, gv |-> "Default", x |-> [r |-> "ok", file |-> f]])
\* 5: special numbers and words in every field, for both layouts
H5s == <<HBase, [HBase EXCEPT !.ver = 2, !.ue5 = <<>>]>>
Good(h) == LET b == Enc(h)  x == XH(b) IN
           /\ Must(x.r = "ok" /\ x.hdr = h /\ x.p = Len(b), <<"header", h>>)
           /\ HRead(b) /\ Out([op |-> "hdr_write", hdr |-> h, x |-> [r |-> "ok", b |-> b, n |-> Len(b)]])
N5a == Len(NumI2)
N5b == Len(NumI4)
N5c == NWord
N5d == 127 + NOddC
N5 == N5a + N5b + N5c + N5d
Item5(i) ==
  \A h \in {H5s[1], H5s[2]} :
    IF i < N5a THEN LET v == NumI2[i + 1] IN Good([h EXCEPT !.maj = v]) /\ Good([h EXCEPT !.min = v]) /\ Good([h EXCEPT !.pat = v]) /\ Good([h EXCEPT !.maj = v, !.min = v, !.pat = v])
    ELSE IF i < N5a + N5b THEN LET v == NumI4[i - N5a + 1]  w == v \o v \o v \o v IN
      Good([h EXCEPT !.cl = v]) /\ Good([h EXCEPT !.cvs = << <<G1, v>>, <<GUe5Release, v>>, <<G2, LE4(1)>> >>]) /\ Good([h EXCEPT !.cvs = << <<w, LE4(3)>>, <<v \o LE4(9) \o Zero8, v>> >>])
    ELSE IF i < N5a + N5b + N5c THEN LET w == WordTab[i - N5a - N5b + 1] IN Good([h EXCEPT !.br = w]) /\ Good([h EXCEPT !.cls = w]) /\ Good([h EXCEPT !.br = w, !.cls = w])
    ELSE LET j == i - N5a - N5b - N5c  w == IF j < 127 THEN AsciiPairs(j + 1) ELSE OddPairs(j - 126) IN Good([h EXCEPT !.br = w]) /\ Good([h EXCEPT !.cls = w])
SegsDef == <<NF, 3 * NSw, N3, N4, N5>>
ASSUME TLCSet(151, SegsDef)
Segs == TLCGet(151)
TotalDef == SumS(Segs)
ASSUME TLCSet(152, TotalDef)
Total == TLCGet(152)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2]) [] s[1] = 5 -> Item5(s[2])
Init == InitC(Total, 10)
Next == NextC(Total, 10, Emit)
=============================================================================
