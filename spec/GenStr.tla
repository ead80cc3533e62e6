------------------------------- MODULE GenStr -------------------------------
(***************************************************************************)
(* Strings.  Writing: one code point at a time, boundaries, lengths around *)
(* every power of two and the limit.  Reading: all one- and two-byte       *)
(* single-byte contents, boundary triples and quadruples, UTF-16 unit      *)
(* sequences over boundary units, length fields, terminators.              *)
(***************************************************************************)
EXTENDS GenBase, Faults

XO(b, p) == LET r == FStrD(b, Cur(p)) IN IF Bad(r) THEN [r |-> "err", e |-> r.e] ELSE [r |-> "ok", o |-> r.v, p |-> r.p]
XS(b, p) == LET r == StrD(b, Cur(p)) IN IF Bad(r) THEN [r |-> "err", e |-> r.e] ELSE [r |-> "ok", o |-> <<r.v>>, p |-> r.p]
One(b, p) == [p |-> p, xo |-> XO(b, p), xs |-> XS(b, p)]
ReadV(b) == Out([op |-> "str", b |-> b, xs |-> <<One(b, 0)>>])
\* several independent strings one after the other: one vector
ReadMany(bs) ==
  LET b == Cat(bs)  offs == Tup([i \in 1..Len(bs) |-> FoldLeft(LAMBDA n, x : n + Len(x), 0, SubSeq(bs, 1, i - 1))])
  IN Out([op |-> "str", b |-> b, xs |-> Tup([i \in 1..Len(bs) |-> One(b, offs[i])])])
WriteV(o) ==
  LET b == EncFStr(o)  r == FStrD(b, Cur(0)) IN
  /\ Must(~Bad(r) /\ r.v = o /\ r.p = Len(b), <<"string", o>>)
  /\ Out([op |-> "str", o |-> o, w |-> b])
\* raw forms
Single(bytes) == LE4(Len(bytes) + 1) \o bytes \o <<0>>
Units(us) == LE4S(-(Len(us) + 1)) \o Cat([i \in 1..Len(us) |-> LE2(us[i])]) \o <<0, 0>>

\* 1: single characters in four surroundings
CpsDef == Tup([i \in 1..800 |-> i - 1]) \o <<2046, 2047, 2048, 2049, 4095, 4096, 8191, 8192, 32767, 32768, 55294, 55295, 57344, 57345, 61440, 65279, 65532, 65533,
          65534, 65535, 65536, 65537, 66559, 66560, 128511, 128512, 131071, 131072, 262143, 262144, 524288, 983040, 1048576, 1114110, 1114111>>
ASSUME TLCSet(150, CpsDef)
Cps == TLCGet(150)
N1 == Len(Cps)
Item1(i) == LET c == Cps[i + 1] IN WriteV(<< <<c>> >>) /\ WriteV(<< <<65, c>> >>) /\ WriteV(<< <<c, 66>> >>) /\ WriteV(<< <<233, c, c, 65536>> >>)
            /\ ReadV(Units(Utf16Units(<<c>>))) /\ ReadV(Single(Utf8Bytes(<<c>>))) /\ ReadV(Single(<<65>> \o Utf8Bytes(<<c, c>>)))
\* 2: lengths
LensDef == Tup([i \in 1..40 |-> i - 1]) \o <<63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097,
           8191, 8192, 16384, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 131070, 131071>>
ASSUME TLCSet(151, LensDef)
Lens == TLCGet(151)
N2 == 4 * Len(Lens)
Item2(i) ==
  LET n == Lens[(i \div 4) + 1] IN
  CASE i % 4 = 0 -> WriteV(<<Asc(n)>>)
    [] i % 4 = 1 -> WriteV(<<Wide(n)>>)
    [] i % 4 = 2 -> WriteV(<<IF n = 0 THEN <<>> ELSE Append(Asc(n - 1), 233)>>)
    [] i % 4 = 3 -> n <= 65000 => WriteV(<<Astral(n \div 2)>>)
\* 3: all one- and two-byte contents of the single-byte form
Item3(i) == ReadMany(<<Single(<<i>>)>> \o Tup([j \in 1..256 |-> Single(<<i, j - 1>>)]))
\* 4: boundary bytes, three and four long
B4s == <<0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 247, 248, 255>>
NB == Len(B4s)
Item4(i) == LET a == B4s[(i % NB) + 1]  c == B4s[(i \div NB) + 1]
            IN ReadMany(Tup([j \in 1..NB |-> Single(<<a, c, B4s[j]>>)]))
B5s == <<65, 128, 143, 144, 160, 191, 194, 224, 237, 240, 244>>
Item5(i) == LET a == <<224, 237, 239, 240, 241, 244, 245>>[(i % 7) + 1]  c == B4s[((i \div 7) % NB) + 1]
            IN ReadMany(Cat([j \in 1..Len(B5s) |-> Tup([l \in 1..Len(B5s) |-> Single(<<a, c, B5s[j], B5s[l]>>)])]))
\* 6: UTF-16 units
Us == <<0, 65, 255, 256, 55295, 55296, 55297, 56319, 56320, 56321, 57343, 57344, 65533, 65534, 65535, 220, 216>>
NU == Len(Us)
Item6(i) == LET a == Us[(i % NU) + 1]  c == Us[(i \div NU) + 1]
            IN ReadMany(<<Units(<<a>>), Units(<<a, c>>)>> \o Tup([j \in 1..NU |-> Units(<<a, c, Us[j]>>)]) \o Tup([j \in 1..NU |-> Units(<<a, c, Us[j], a>>)]))
\* 7: length fields and terminators
LF == Tup([i \in 1..41 |-> LE4S(i - 21)]) \o <<LE4(131071), LE4(131072), LE4(131073), LE4(131074), LE4S(-131071), LE4S(-131072), LE4S(-131073), LE4(65536), LE4S(-65536),
        LE4(262144), LE4S(-262144), <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<1, 0, 0, 128>>, <<0, 0, 0, 64>>, <<0, 0, 0, 192>>, LE4(16777216), LE4S(-16777216)>>
Datas == << <<>>, <<0>>, <<0, 0>>, <<65, 0>>, <<65, 66, 67, 68, 69, 70, 71, 72, 0, 0>>, <<65, 0, 66, 0, 0, 0>>, <<65, 0, 66, 0, 0, 1>>, <<65, 0, 66, 0, 1, 0>>, Rep(0, 50), Rep(65, 50), Rep(255, 50),
            <<65, 1>>, <<65, 66, 1>>, <<0, 216, 0, 0>>, <<0, 216, 0, 220, 0, 0>>, <<195, 169, 0>>, <<195, 0>>, <<1, 0>>, <<0, 1>> >>
Item7(i) == LET l == LF[(i % Len(LF)) + 1]  d == Datas[(i \div Len(LF)) + 1] IN ReadV(l \o d)
N7 == Len(LF) * Len(Datas)
\* 8: the limit with the data really there
Item8(i) ==
  CASE i = 0 -> ReadV(LE4(131072) \o Rep(65, 131071) \o <<0>>)
    [] i = 1 -> ReadV(LE4(131073) \o Rep(65, 131072) \o <<0>>)
    [] i = 2 -> ReadV(LE4(131072) \o Rep(65, 131071) \o <<1>>)
    [] i = 3 -> ReadV(LE4S(-131072) \o Rep(65, 262142) \o <<0, 0>>)
    [] i = 4 -> ReadV(LE4S(-131073) \o Rep(65, 262144) \o <<0, 0>>)
    [] i = 5 -> ReadV(LE4S(-131072) \o Rep(65, 262142) \o <<0, 1>>)
    [] i = 6 -> ReadV(LE4(131072) \o Rep(65, 131070) \o <<200, 0>>)
    [] i = 7 -> ReadV(LE4S(-131072) \o Rep(65, 262141) \o <<216, 0, 0>>)
    [] i = 8 -> WriteV(<<>>)
    [] i = 9 -> WriteV(<< <<>> >>)
    [] i = 10 -> ReadV(LE4(1) \o <<0>>) /\ ReadV(LE4S(-1) \o <<0, 0>>) /\ ReadV(Zero4) /\ ReadV(LE4(1)) /\ ReadV(<<>>) /\ ReadV(<<1, 0, 0>>)
\* 9: pairs from the pool: writing and reading strings one after the other
NSP == Len(StrPool)
Item9(i) == LET s == StrPool[(i % NSP) + 1] IN WriteV(<<s>>) /\ ReadV(Units(Utf16Units(s))) /\ ReadV(Single(Utf8Bytes(s)))

\* 10: long runs of characters which take several bytes or units, from every place within a character: wherever a reader may
\* divide the data, some of these are divided within a character
RunChars == <<233, 26085, 128512>>
RunBytes == <<2, 3, 4>>
RunLens == <<131071, 8200, 5000>>
N10 == Len(RunLens) * 3 * 4
Item10(i) ==
  LET k == i % 4  c == ((i \div 4) % 3) + 1  n == RunLens[(i \div 12) + 1]
      s8 == Rep(97, k) \o Rep(RunChars[c], (n - k) \div RunBytes[c])
      s16 == Rep(97, k) \o Rep(128512, (n - k) \div 2) IN
  /\ ReadV(Single(Utf8Bytes(s8)))
  /\ (c = 1 /\ k <= 1) => (ReadV(Units(Utf16Units(s16))) /\ WriteV(<<s16>>))
  \* and with half a character at the end
  /\ (c = 3 /\ k <= 1) => ReadV(Units(Utf16Units(SubSeq(s16, 1, Len(s16) - 1)) \o <<55357>>))
  /\ k = 1 => ReadV(Single(SubSeq(Utf8Bytes(s8), 1, RunBytes[c] * ((n - k) \div RunBytes[c]))))

\* 11: two characters next to one another
Item11(i) == IF i < 127 THEN WriteV(<<AsciiPairs(i + 1)>>) /\ \A d \in {1, 10, 13, 32, 92, 110, 48, 65} : WriteV(<< <<i + 1, d>> >>) /\ WriteV(<< <<65, i + 1, d, 66>> >>)
             ELSE IF i >= 127 + NOddC THEN LET n == i - 127 - NOddC IN \A m \in 0..26 : WriteV(<<Tri(n * 27 + m)>>) /\ WriteV(<< <<65>> \o Tri(n * 27 + m) \o <<65>> >>)
             ELSE LET n == i - 126 IN
                  /\ WriteV(<<OddPairs(n)>>) /\ ReadV(Units(Utf16Units(OddPairs(n)))) /\ ReadV(Single(Utf8Bytes(OddPairs(n))))
                  /\ \A d \in 1..NOddC : WriteV(<< <<OddChars[n], OddChars[d]>> >>)
                  /\ ReadMany(Tup([d \in 1..NOddC |-> Units(Utf16Units(<<OddChars[n], OddChars[d]>>))]) \o Tup([d \in 1..NOddC |-> Single(Utf8Bytes(<<OddChars[n], OddChars[d]>>))]))

SegsDef == <<N1, N2, 256, NB * NB, 7 * NB, NU * NU, N7, 11, NSP, N10, 127 + NOddC + 27>>
ASSUME TLCSet(152, SegsDef)
Segs == TLCGet(152)
TotalDef == SumS(Segs)
ASSUME TLCSet(153, TotalDef)
Total == TLCGet(153)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2]) [] s[1] = 5 -> Item5(s[2])
             [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2]) [] s[1] = 9 -> Item9(s[2]) [] s[1] = 10 -> Item10(s[2]) [] s[1] = 11 -> Item11(s[2])
Init == InitC(Total, 8)
Next == NextC(Total, 8, Emit)
=============================================================================
