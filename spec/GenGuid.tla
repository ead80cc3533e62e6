------------------------------ MODULE GenGuid ------------------------------
(* GUIDs: their forms, and the text parser *)
EXTENDS GenBase, GvasGuid

GuidV(g) ==
  /\ Must(LET r == GuidParse(GuidText(g)) IN r.r = "ok" /\ r.b = g, <<"text", g>>)
  /\ Out([op |-> "guid", b |-> g, w |-> Tup([k \in 1..4 |-> SubSeq(g, 4 * k - 3, 4 * k)]), s |-> GuidText(g)])
ParseV(s) == Out([op |-> "guid_parse", s |-> s, x |-> GuidParse(s)])

\* 1: one byte set, at every place to every value; 2: mixtures
Item1(i) == GuidV([Zero16 EXCEPT ![(i % 16) + 1] = i \div 16])
Item2(i) == GuidV(Tup([k \in 1..16 |-> (i * 37 + k * ((i % 11) + 1) * 29 + (i \div (k + 1))) % 256]))
Item3(i) == GuidV([Rep(255, 16) EXCEPT ![(i % 16) + 1] = i \div 16])
\* 4: a text with one character replaced, everywhere, by everything
GA == <<18, 52, 86, 120, 154, 188, 222, 240, 1, 35, 69, 103, 137, 171, 205, 239>>
TA == GuidText(GA)                    \* with dashes, 36 characters
TB == HexLow(GA)                      \* without, lower case, 32 characters
Chars == Tup([c \in 1..128 |-> c - 1]) \o <<133, 160, 178, 233, 1632, 8203, 8208, 8211, 8239, 12288, 65279, 65296, 65313, 65533, 119808, 1114111>>
NCh == 144
Item4(i) == LET p == (i % 36) + 1  c == Chars[(i \div 36) + 1] IN ParseV([TA EXCEPT ![p] = c]) /\ (p <= 32 => ParseV([TB EXCEPT ![p] = c]))
\* 5: one character inserted or removed
Item5(i) == LET p == i % 37  c == Chars[(i \div 37) + 1] IN
            /\ ParseV(SubSeq(TA, 1, p) \o <<c>> \o SubSeq(TA, p + 1, 36))
            /\ p <= 32 => ParseV(SubSeq(TB, 1, p) \o <<c>> \o SubSeq(TB, p + 1, 32))
Item6(i) == LET p == i % 36  q == i \div 36 IN ParseV(SubSeq(TA, 1, p) \o SubSeq(TA, p + 2, 36)) /\ ParseV(SubSeq(TA, p + 1, q)) /\ ParseV(SubSeq(TA, 1, p) \o SubSeq(TA, q + 1, 36))
\* 7: lengths
Item7(i) == LET n == i % 80 IN ParseV(Rep(<<48, 70, 45, 102, 32, Open, Shut, 43>>[(i \div 80) + 1], n))
\* 8: wrappings
Pre == << <<>>, S("{"), S(" "), S(" {"), S("{ "), S("{{"), S("-"), S("-{"), S("{-"), <<9, 10>>, <<160>>, <<8232>>, <<65279>>, S("}"), <<40>>, S("0x"), S("+"), <<0>>, S("- "), S(" - {"), <<12288, Open>> >>
Suf == << <<>>, S("}"), S(" "), S("} "), S(" }"), S("}}"), S("-"), S("}-"), S("-}"), <<13, 10>>, <<160>>, <<8233>>, <<8203>>, S("{"), <<41>>, S("h"), S("0"), <<0>>, S(" -"), S("} - "), <<Shut, 12288>> >>
Bases == << TA, TB, S("0"), <<>>, S("00"), Rep(48, 32), SubSeq(TB, 1, 31), TB \o S("0"), S("{0}"), S("-0"), SubSeq(TB, 1, 8) \o S("----") \o SubSeq(TB, 9, 32), S("O"), S("1") >>
Item8(i) == ParseV(Pre[Digit(i, <<21, 21, 13>>, 1) + 1] \o Bases[Digit(i, <<21, 21, 13>>, 3) + 1] \o Suf[Digit(i, <<21, 21, 13>>, 2) + 1])
\* 9: two-character groups that other number parsers accept
Item9(i) == LET p == 2 * (i % 16)  x == <<S("+F"), S("-F"), S(" F"), S("F "), S("_F"), S("0x"), S("xF"), S("+0"), S("1_"), <<65296, 65296>>, <<49, 8203>>, <<233, 49>>, S("g0"), S("Gf"), S("0G"), S("{0"), S("0}")>>[(i \div 16) + 1] IN
            ParseV(SubSeq(TB, 1, p) \o x \o SubSeq(TB, p + 3, 32)) /\ ParseV(S("{") \o SubSeq(TB, 1, p) \o x \o SubSeq(TB, p + 3, 32) \o S("}"))
\* 10: characters of two, three and four bytes making up a byte length of 32
Item10(i) == LET c == <<233, 26085, 65536>>[(i % 3) + 1]  w == <<2, 3, 4>>[(i % 3) + 1]  n == 32 - w  p == (i \div 3) % (n + 1) IN
             ParseV(SubSeq(TB, 1, p) \o <<c>> \o SubSeq(TB, p + 1, n)) /\ ParseV(Rep(c, 32 \div w) \o Rep(48, 32 % w)) /\ ParseV(SubSeq(TB, 1, p) \o <<c>> \o SubSeq(TB, p + 1, 31))
SegsDef == <<4096, IF Thorough THEN 20000 ELSE 2000, 4096, 36 * NCh, 37 * NCh, 36 * 37, 640, 21 * 21 * 13, 16 * 17, 93>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2])
             [] s[1] = 5 -> Item5(s[2]) [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2]) [] s[1] = 9 -> Item9(s[2])
             [] s[1] = 10 -> Item10(s[2])
Init == InitC(Total, 100)
Next == NextC(Total, 100, Emit)
=============================================================================
