------------------------------ MODULE GenQuery ------------------------------
(* Queries about versions *)
EXTENDS GenBase, Versions

\* 1: engine releases
Majs == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 40, 44, 45, 260, 261, 516, 1024, 1028, 1280, 1284, 32772, 65284, 65535>>
Mins == Tup([i \in 1..48 |-> i - 1]) \o <<127, 128, 255, 256, 257, 258, 259, 270, 283, 284, 512, 513, 1027, 6912, 32768, 32795, 65280, 65535>>
Pats == <<0, 1, 2, 9, 10, 255, 256, 65535>>
Cls == <<Zero4, LE4(1), LE4(9), LE4(10), LE4(99999), LE4(1000000000), LE4(2147483647), <<0, 0, 0, 128>>, <<1, 2, 3, 128>>, <<255, 255, 255, 255>> >>
Brs == <<S("UE4+Release-4.27"), <<>>, S("+++"), <<233, 128512>>, S("a"), S("{}"), S("0.1-2+++x")>>
Item1(i) ==
  LET mi == Mins[(i % Len(Mins)) + 1]  ma == Majs[(i \div Len(Mins)) + 1]
      e == [maj |-> LE2(ma), min |-> LE2(mi), pat |-> LE2(Pats[((i * 3) % Len(Pats)) + 1]), cl |-> Cls[((i * 7) % Len(Cls)) + 1], br |-> Brs[((i * 5) % Len(Brs)) + 1]] IN
  Out([op |-> "engine", e |-> e, name |-> EngineName(ma, mi), text |-> EngineText(e)])
N1 == Len(Mins) * Len(Majs)
\* every patch, change list and branch
Item2(i) ==
  LET e == [maj |-> LE2(4), min |-> LE2(27), pat |-> LE2(Pats[(i % Len(Pats)) + 1]), cl |-> Cls[((i \div Len(Pats)) % Len(Cls)) + 1], br |-> Brs[(i \div (Len(Pats) * Len(Cls))) + 1]]
  IN Out([op |-> "engine", e |-> e, name |-> "VER_UE4_27", text |-> EngineText(e)])
N2 == Len(Pats) * Len(Cls) * Len(Brs)
\* 3: custom versions
Streams == <<"editor", "release">>
Other(g, k) == [g EXCEPT ![k] = (@ + 1) % 256]
Vals == Tup([i \in 1..60 |-> LE4(i - 1)]) \o <<LE4(255), LE4(256), LE4(65535), LE4(65536), LE4(2147483647), <<0, 0, 0, 128>>, <<12, 0, 0, 128>>, <<255, 255, 255, 255>>, <<0, 255, 255, 255>>, <<0, 0, 1, 0>>, <<0, 1, 0, 0>> >>
Tables(g, v) == << << <<g, v>> >>, << <<G1, LE4(99)>>, <<g, v>> >>, << <<g, v>>, <<G2, LE4(0)>> >>,
                   Tup([k \in 1..16 |-> <<Other(g, k), LE4(99)>>]) \o << <<g, v>> >>,
                   << <<IF g = GEditor THEN GUe5Release ELSE GEditor, LE4(41)>>, <<g, v>> >> >>
Absent(g) == << <<>>, << <<G1, LE4(99)>> >>, Tup([k \in 1..16 |-> <<Other(g, k), LE4(99)>>]), << <<IF g = GEditor THEN GUe5Release ELSE GEditor, LE4(41)>> >>, << <<Zero16, LE4(50)>> >> >>
Ask(s, cvs) ==
  LET t == Stream[s] IN
  Out([op |-> "version", s |-> s, cvs |-> cvs, guid |-> t.guid, version |-> VersionOf(cvs, s),
       sup |-> Tup([n \in 1..Len(t.names) |-> <<t.names[n], n - 1, Supports(cvs, s, n - 1)>>])])
Item3(i) == LET s == Streams[(i % 2) + 1]  v == Vals[((i \div 2) % Len(Vals)) + 1]  k == i \div (2 * Len(Vals)) IN
            IF k < 5 THEN Ask(s, Tables(Stream[s].guid, v)[k + 1]) ELSE Ask(s, Absent(Stream[s].guid)[((i \div 2) % 5) + 1])
N3 == 2 * Len(Vals) * 5 + 10
\* 4: headers
Item4(i) == IF i < Len(HdrFam) THEN Out([op |-> "header_versions", hdr |-> HdrFam[i + 1]])
            ELSE LET n == i - Len(HdrFam)  hd == Hdrs[(n % NH) + 1] IN
                 Out([op |-> "header_versions", hdr |-> [hd EXCEPT !.cvs = Tables(Stream[Streams[(n % 2) + 1]].guid, Vals[((n * 11) % Len(Vals)) + 1])[((n \div 2) % 5) + 1]]])
N4 == Len(HdrFam) + 60
\* 6: special numbers and words in every part of an engine version
I16(b) == b[1] + 256 * b[2]
Engine(e) == Out([op |-> "engine", e |-> e, name |-> EngineName(I16(e.maj), I16(e.min)), text |-> EngineText(e)])
Item6(i) ==
  LET e == [maj |-> LE2(5), min |-> LE2(1), pat |-> LE2(3), cl |-> LE4(18), br |-> S("b")]
      n2 == Len(NumI2)  n4 == Len(NumI4) IN
  IF i < 3 * n2 THEN LET v == NumI2[(i \div 3) + 1] IN CASE i % 3 = 0 -> Engine([e EXCEPT !.maj = v]) [] i % 3 = 1 -> Engine([e EXCEPT !.min = v]) [] i % 3 = 2 -> Engine([e EXCEPT !.pat = v])
  ELSE IF i < 3 * n2 + n4 THEN Engine([e EXCEPT !.cl = NumI4[i - 3 * n2 + 1]])
  ELSE IF i < 3 * n2 + n4 + 32 THEN Engine([e EXCEPT !.cl = OneBit(4)[i - 3 * n2 - n4 + 1]])
  ELSE Engine([e EXCEPT !.br = WordTab[i - 3 * n2 - n4 - 31], !.maj = LE2(4 + (i % 2)), !.min = LE2(i % 29), !.pat = LE2(i % 5)])
N6 == 3 * Len(NumI2) + Len(NumI4) + 32 + NWord
\* 7: special numbers and single bits as recorded versions; the entry among many
Item7(i) ==
  LET s == Streams[(i % 2) + 1]  n == i \div 2  m == Len(NumI4)  g == Stream[s].guid
      v == IF n < m THEN NumI4[n + 1] ELSE IF n < m + 32 THEN OneBit(4)[n - m + 1] ELSE LE4(n % 50) IN
  IF n < m + 32 THEN Ask(s, << <<g, v>> >>)
  ELSE LET k == n - m - 32  len == <<20, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300>>[(k \div 3) + 1]  at == CASE k % 3 = 0 -> 1 [] k % 3 = 1 -> len [] k % 3 = 2 -> (len \div 2) + 1 IN
       Ask(s, Tup([j \in 1..len |-> <<IF j = at THEN g ELSE [g EXCEPT ![(j % 16) + 1] = (@ + 1 + (j \div 16)) % 256], IF j = at THEN v ELSE LE4(60 + j)>>]))
N7 == 2 * (Len(NumI4) + 32 + 36)

\* 5: tables
Item5(i) ==
  IF i < 2 THEN LET s == Streams[i + 1]  t == Stream[s] IN
                Out([op |-> "stream", s |-> s, guid |-> t.guid, friendly |-> t.friendly,
                     at |-> IF s = "editor" THEN Tup([k \in 1..Len(EditorAt) |-> <<EditorAt[k][1], NumberOf(EditorNames, EditorAt[k][2])>>]) ELSE <<>>])
  ELSE IF i = 2
  THEN Out([op |-> "engines", small |-> 64, known |-> Tup([n \in 1..28 |-> <<4, n - 1, EngineName(4, n - 1)>>]) \o Tup([n \in 1..3 |-> <<5, n - 1, EngineName(5, n - 1)>>])])
  ELSE Out([op |-> "numbers", objects |-> Tup([k \in 1..Len(ObjectNames) |-> <<ObjectNames[k], 999 + k>>])])

SegsDef == <<N1, N2, N3, N4, 4, N6, N7>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2]) [] s[1] = 5 -> Item5(s[2]) [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2])
Init == InitC(Total, 40)
Next == NextC(Total, 40, Emit)
=============================================================================
