------------------------------- MODULE GenCtor -------------------------------
(* Constructors, conversions, ordered maps and the text forms of values *)
EXTENDS GenBase, Ctor, Versions

Call(p, w) == Must(Make(w[1], w[2]) = p, <<"constructor", w, p>>) /\ Out([op |-> "ctor", f |-> w[1], a |-> w[2], x |-> p])
Calls(p) == LET ws == Ways(p) IN IF ws = <<>> THEN Out([op |-> "ctor", f |-> "none", a |-> <<>>, x |-> p]) ELSE \A i \in 1..Len(ws) : Call(p, ws[i])
\* 1, 2: leaves of every header, as they are and as elements
Item1(i) == Calls(LeafTab[(i % NH) + 1][(i \div NH) + 1])
Item2(i) == Calls(HL(LeafTab[(i % NH) + 1][(i \div NH) + 1]))
\* 3: the properties of the pool
Item3(i) == LET f == Pool(i) IN (Proper(f) /\ TLen(FileT(f)) < 2500) => \A j \in 1..Len(f.ps) : j <= 3 => Calls(f.ps[j][2])
\* 4: numbers
Samples(w) == NumI(w) \o (IF w \in {4, 8} THEN NumF(w) ELSE <<>>) \o Ints(w) \o Tup([b \in 1..(8 * w) |-> [j \in 1..w |-> IF j = ((b - 1) \div 8) + 1 THEN 2 ^ ((b - 1) % 8) ELSE 0] \o <<>>])
Width == [k \in Numeric |-> CASE k = "Int8" -> 1 [] k \in {"Int16", "UInt16"} -> 2 [] k \in {"Int64", "UInt64", "Double"} -> 8 [] OTHER -> 4]
NumKinds == <<"Int8", "Int16", "UInt16", "Int", "UInt32", "Int64", "UInt64", "Float", "Double">>
Item4(i) == LET k == NumKinds[i + 1] IN \A v \in {Samples(Width[k])[n] : n \in 1..Len(Samples(Width[k]))} : Calls([k |-> k, v |-> v])
\* 5: strings
Item5(i) ==
  LET s == WordTab[i + 1] IN
  /\ Calls(StrP(s)) /\ Calls(NameP(s)) /\ Calls([k |-> "Object", s |-> s]) /\ Calls(EnumP(s)) /\ Calls([k |-> "Enum", t |-> <<s>>, s |-> SNone])
  /\ Calls([k |-> "Byte", n |-> <<s>>, v |-> <<i % 256>>]) /\ Calls([k |-> "ByteNs", n |-> <<>>, s |-> s]) /\ Calls([k |-> "ByteNs", n |-> <<s>>, s |-> s])
  /\ Calls([k |-> "Delegate", d |-> <<s, S("f")>>]) /\ Calls([k |-> "Delegate", d |-> <<S("o"), s>>])
  /\ Calls([k |-> "FieldPath", path |-> <<s, S("q"), s>>, s |-> S("o")]) /\ Calls([k |-> "FieldPath", path |-> <<>>, s |-> s])
  /\ Calls([k |-> "Text", x |-> Txt(LE4(i), [k |-> "None", o |-> <<s>>])]) /\ Calls([k |-> "Text", x |-> Txt(LE4(i), [k |-> "None", o |-> <<>>])])
  /\ \A m \in 0..7 : LET O(bit) == IF (m \div bit) % 2 = 1 THEN <<S("x") \o <<48 + bit>> \o s>> ELSE <<>> IN
                     Calls([k |-> "Text", x |-> Txt(LE4(m), [k |-> "Base", ns |-> O(1), key |-> O(2), src |-> O(4)])])
  /\ Calls([k |-> "Unknown", ty |-> s, raw |-> EncStr(s)]) /\ Calls(StructP(Custom(<< <<s, <<IntP(1)>> >> >>), G1))
\* 6: text form of struct values
F4T == MapS(LAMBDA e : <<e[1], S(e[2])>>, ShowF4)
F8T == MapS(LAMBDA e : <<e[1], S(e[2])>>, ShowF8)
I4T == MapS(LAMBDA v : <<v, DecSigned(v)>>, NumI4)
I8T == MapS(LAMBDA v : <<v, Dec(v)>>, NumI8)
ASSUME TLCSet(156, <<F4T, F8T, I4T, I8T>>)
Fields == [VectorF |-> <<"x", "y", "z">>, VectorD |-> <<"x", "y", "z">>, Vector2F |-> <<"x", "y">>, Vector2D |-> <<"x", "y">>, RotatorF |-> <<"pitch", "yaw", "roll">>,
           RotatorD |-> <<"pitch", "yaw", "roll">>, QuatF |-> <<"x", "y", "z", "w">>, QuatD |-> <<"x", "y", "z", "w">>, DateTime |-> <<"ticks">>, Timespan |-> <<"ticks">>,
           LinearColor |-> <<"r", "g", "b", "a">>, IntPoint |-> <<"x", "y">>]
ShowKinds == <<"VectorF", "VectorD", "Vector2F", "Vector2D", "RotatorF", "RotatorD", "QuatF", "QuatD", "DateTime", "Timespan", "LinearColor", "IntPoint">>
TabOf(k) == TLCGet(156)[CASE k \in DoubleKinds -> 2 [] k \in {"DateTime", "Timespan"} -> 4 [] k = "IntPoint" -> 3 [] OTHER -> 1]
NShow == 280
Item6(i) ==
  LET k == ShowKinds[(i % 12) + 1]  n == i \div 12  t == TabOf(k)  fs == Fields[k]
      e == Tup([j \in 1..Len(fs) |-> t[((n + j * (1 + (n \div Len(t)))) % Len(t)) + 1]]) IN
  Out([op |-> "show", k |-> k, vs |-> Tup([j \in 1..Len(fs) |-> e[j][1]]), text |-> Cat([j \in 1..Len(fs) |-> S(fs[j]) \o S(": ") \o e[j][2] \o S(" ")])])
\* 7: ordered maps; a repeated key keeps its place and takes the new value
Key7(n) == << S("a"), S("b"), <<>>, S("B") >>[n]
Item7(i) ==
  LET len == IF i = 0 THEN 0 ELSE IF i < 5 THEN 1 ELSE IF i < 21 THEN 2 ELSE IF i < 85 THEN 3 ELSE 4
      from == IF i < 1 THEN 0 ELSE IF i < 5 THEN 1 ELSE IF i < 21 THEN 5 ELSE IF i < 85 THEN 21 ELSE 85
      es == Tup([j \in 1..len |-> <<Key7((((i - from) \div (4 ^ (j - 1))) % 4) + 1), LE4(j)>>]) IN
  Out([op |-> "imap", es |-> es, x |-> FoldLeft(LAMBDA m, e : Put(m, e[1], e[2]), <<>>, es)])
\* 9: larger ones: no key twice, the first one again at the end, every second one again, a key and its neighbour, few keys
Big7 == <<5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 300>>
Item9(i) ==
  LET n == Big7[(i \div 6) + 1]  c == i % 6
      K(j) == CASE c = 0 -> j [] c = 1 -> (IF j = n THEN 1 ELSE j) [] c = 2 -> (IF j > n \div 2 THEN 2 * (j - (n \div 2)) ELSE j) [] c = 3 -> j - (j % 2) [] c = 4 -> j % 3 [] c = 5 -> n - j
      es == Tup([j \in 1..n |-> <<S("k") \o <<48 + (K(j) \div 64), 48 + (K(j) % 64)>>, LE4(j)>>]) IN
  Out([op |-> "imap", es |-> es, x |-> FoldLeft(LAMBDA m, e : Put(m, e[1], e[2]), <<>>, es)])
\* 8: special numbers and words in every place
Item8(i) == LET f == IF i < NNum THEN FamNum(i) ELSE FamWords(i - NNum) IN \A j \in 1..Len(f.ps) : Calls(f.ps[j][2])

Every == IF Thorough THEN 1 ELSE 3
SegsDef == <<NLeaf * NH, NLeaf * NH, NPool \div Every, 9, NWord, 12 * NShow, 341, NNum + NWords, 6 * Len(Big7)>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2] * Every) [] s[1] = 4 -> Item4(s[2]) [] s[1] = 5 -> Item5(s[2]) [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2]) [] s[1] = 9 -> Item9(s[2])
Init == InitC(Total, 30)
Next == NextC(Total, 30, Emit)
=============================================================================
