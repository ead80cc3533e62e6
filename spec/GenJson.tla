------------------------------ MODULE GenJson ------------------------------
(* JSON: the pool in its JSON form, plain and with each container kind *)
EXTENDS GenBase, GvasJson

\* without the properties that hold numbers which are not finite
V(f0) == IF ~Proper(f0) THEN TRUE
         ELSE LET f == [f0 EXCEPT !.ps = SelectSeq(f0.ps, LAMBDA e : FinP(e[2]))] IN
              (f0.ps = <<>> \/ f.ps # <<>>) => Out([op |-> "json", f |-> f, j |-> JFile(f), b |-> EncFile([f EXCEPT !.gv = "Default"])])
Gv(i) == <<"Default", "Default", "Default", "None", "Default", "Zlib", "Default", "ZlibTwice">>[(i % 8) + 1]
\* repeated names are no problem for JSON objects; names that look like the fixed members must not be confused with them
Odd == <<S("type"), S("value"), S("history"), S("CustomStruct"), S("Byte"), S("guid"), S("flags"), S("properties"), S("header"), S("bools"), <<>>, S("serde"),
         S("0"), <<34, 92>>, <<0>>, S("ints"), S("Version2"), S("name"), S("VectorF"), S("None") >>
NOdd == 20
OddDoc(i) ==
  LET n == Odd[(i % NOdd) + 1]  n2 == Odd[((i + 7) % NOdd) + 1]  c == i \div NOdd
      fs == << <<n, <<IntP(1), StrP(n)>> >>, <<n2, <<BoolP(1)>> >> >> IN
  File(Hdrs[1],
    CASE c = 0 -> (IF n = SNone THEN <<>> ELSE << <<n, IntP(1)>> >>) \o (IF n2 = SNone THEN <<>> ELSE << <<n2, StructP(Custom(SelectSeq(fs, LAMBDA e : e[1] # SNone)), G1)>> >>)
      [] c = 1 -> << <<S("X"), SArr(n, n, G1, <<Custom(<< <<S("a"), <<StrP(n)>> >> >>)>>)>> >>
      [] c = 2 -> << <<S("X"), MapP(TStr, TInt, Zero4, << <<StrP(n), IntP(1)>>, <<StrP(n2), IntP(2)>> >>)>>,
                     <<S("Y"), MapP(TStr, TStr, Zero4, << <<StrP(n), StrP(n2)>>, <<StrP(n2), [k |-> "Str", o |-> <<>>]>> >>)>>,
                     <<S("W"), MapP(TName, TBool, Zero4, << <<NameP(n), BoolP(1)>>, <<NameP(n2), BoolP(0)>> >>)>> >>
      [] c = 3 -> << <<S("X"), MapP(TStr, TFloat, Zero4, << <<StrP(n), [k |-> "Float", v |-> F4s[1]]>>, <<StrP(n2), [k |-> "Float", v |-> F4s[9]]>> >>)>>,
                     <<S("Y"), [k |-> "Unknown", ty |-> n, raw |-> <<1, 255>>]>>, <<S("W"), [k |-> "Enum", t |-> <<n>>, s |-> n2]>> >>
      [] c = 4 -> << <<S("X"), [k |-> "Text", x |-> Txt(LE4(1), [k |-> "Named", x |-> EmptyTxt, nas |-> << <<n, FArg(0)>>, <<n2, DArg(0)>> >>])]>>,
                     <<S("Y"), [k |-> "FieldPath", path |-> <<n, n2>>, s |-> n]>>, <<S("W"), [k |-> "ByteNs", n |-> <<n>>, s |-> n2]>> >>
      [] c = 5 -> << <<S("X"), SetP(TStr, LE4(1), <<StrP(n), StrP(n2)>>)>>, <<S("Y"), StructP(Tags(<<n, n2>>), G2)>>,
                     <<S("W"), Arr(TStr, <<StrP(n), [k |-> "Str", o |-> <<>>], StrP(n2)>>)>>, <<S("V"), Arr(TName, <<NameP(n), [k |-> "Name", ai |-> Zero4, o |-> <<>>]>>)>> >>)
SafeDoc(f) == Cardinality({f.ps[i][1] : i \in 1..Len(f.ps)}) = Len(f.ps)
Num(i) == \* many floats and integers
  LET fs == << <<0, 0, 128, 63>>, <<1, 0, 0, 0>>, <<255, 255, 127, 0>>, <<0, 0, 128, 0>>, <<255, 255, 127, 127>>, <<205, 204, 204, 61>>, <<219, 15, 73, 64>>, <<0, 36, 116, 73>>,
               <<0, 0, 0, 128>>, <<111, 18, 131, 58>>, <<0, 80, 195, 71>>, <<172, 197, 39, 55>> >>
      d(k) == <<k, (7 * k) % 256, 255 - k, k, 200, k, (k * 16) % 256, IF k % 2 = 0 THEN 63 ELSE 192>>
  IN File(Hdrs[1], << <<S("F"), Arr(TFloat, MapS(LAMBDA v : [k |-> "Float", v |-> v], fs) \o Tup([k \in 1..60 |-> [k |-> "Float", v |-> <<(i * 31 + k) % 256, (k * 7) % 256, (k * k + i) % 256, (k + i) % 120>>]]))>>,
                      <<S("D"), Arr(TDouble, Tup([k \in 1..60 |-> [k |-> "Double", v |-> d(k + i)]]))>>,
                      <<S("U"), Arr(TUInt64, Tup([k \in 1..16 |-> [k |-> "UInt64", v |-> <<k, i, 0, 0, 0, 0, 32, 16 * k - 1>>]]))>>,
                      <<S("I"), Arr(TInt64, Tup([k \in 1..16 |-> [k |-> "Int64", v |-> <<k, i, 0, 0, 0, 0, 32, 16 * k - 1>>]]))>> >>)
SegsDef == <<NPool, IF Thorough THEN NG ELSE NG \div 7, NOdd * 6, 40>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> V([Pool(s[2]) EXCEPT !.gv = Gv(s[2])])
             [] s[1] = 2 -> V(FamG(IF Thorough THEN s[2] ELSE s[2] * 7))
             [] s[1] = 3 -> LET f == OddDoc(s[2]) IN SafeDoc(f) => V(f)
             [] s[1] = 4 -> V(Num(s[2]))
Init == InitG(Total)
Next == NextG(Total, Emit)
=============================================================================
