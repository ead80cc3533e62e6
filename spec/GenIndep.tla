------------------------------ MODULE GenIndep ------------------------------
(***************************************************************************)
(* Calls do not influence one another.  A catalogue of calls (reads of     *)
(* good, damaged and cut saves, with right, wrong and missing hints, of    *)
(* all header generations, containers, single parts, writes, writes into a *)
(* destination that fills up, JSON), each with the outcome the             *)
(* specification gives for the call alone, and arrangements of them: one   *)
(* after the other, many times, one inside another (a source which itself  *)
(* makes calls), taking turns in two threads, and all at once.             *)
(***************************************************************************)
EXTENDS GenBase, Faults, GvasJson

XR(b, h, gv) == LET r == ReadFile(b, h, gv) IN IF r.r = "ok" THEN [r |-> "ok", file |-> r.file] ELSE [r |-> "err", e |-> r.e]
TRd(b, h) == [t |-> "read", b |-> b, h |-> h, gv |-> "Default", x |-> XR(b, h, "Default")]
RdF(f) == TRd(EncFile(f), HintsOf(f.ps))
\* a container; b is what it holds
RdC(f, gv) == [t |-> "read", b |-> EncFile(f), h |-> HintsOf(f.ps), gv |-> gv, x |-> [r |-> "ok", file |-> [f EXCEPT !.gv = gv]]]
Wr(f, gv) == [t |-> "write", f |-> [f EXCEPT !.gv = gv], b |-> EncFile(f)]
Full(f, n) == LET m == Len(EncFile([f EXCEPT !.gv = "Default"])) IN [t |-> "full", f |-> f, n |-> IF n < m THEN n ELSE m \div 2]
Js(f) == [t |-> "op", v |-> [op |-> "json", f |-> f, j |-> JFile(f), b |-> EncFile(f)]]
CutAt(f, k) == LET b == EncFile(f) IN TRd(SubSeq(b, 1, (Len(b) * k) \div 10), HintsOf(f.ps))
\* the n-th of every m-th field of the properties that has alternatives
Hurt(f, m) ==
  LET toks == FileT(f)  b == Flat(toks)  lo == NHdrTok(f)
      idx == SelectSeq(Tup([i \in 1..(Len(toks) - lo) |-> lo + i]), LAMBDA i : Repl(toks[i]) # <<>>)
      pick == Tup([n \in 1..(Len(idx) \div m) |-> idx[n * m]])
  IN MapS(LAMBDA i : LET rs == Repl(toks[i]) IN TRd(Mut(b, Off(toks, i), Len(toks[i].b), rs[(i % Len(rs)) + 1]), HintsOf(f.ps)), pick)

DX(i) == FamX(i)
Hinted == File(Hdrs[NH], << <<S("X"), SetP(TStruct, Zero4, <<SvP(Fixed(StGuid, 1)), SvP(Fixed(StGuid, 2))>>)>>,
                            <<S("Y"), MapP(TStruct, TStruct, LE4(1), << <<SvP(Fixed(StIntPoint, 0)), SvP(Custom(<< <<S("f"), <<SetP(TStruct, Zero4, <<SvP(Fixed(StDateTime, 0))>>)>> >> >>))>> >>)>>,
                            <<S("Z"), StructP(Custom(<< <<S("X"), <<SetP(TStruct, Zero4, <<SvP(Custom(<<>>))>>)>> >> >>), G1)>> >>)
HB == EncFile(Hinted)
HH == HintsOf(Hinted.ps)
Other(h) == MapS(LAMBDA e : <<e[1], IF e[2] = StGuid THEN StIntPoint ELSE StGuid>>, h)
\* the same names with other values: a remembered value would show
Like(n, p) == File(Hdrs[n], << <<S("X"), p>>, <<S("Y"), StrP(Asc(n * 9))>>, <<S("Z"), Arr(TInt, Elems("Int", n))>> >>)
PartTask(p, hd, cut) ==
  LET g == HG[hd]  w == Flat(PropT(p, g))  ty == TypeName(p)  bb == SubSeq(w, Len(EncStr(ty)) + 1, Len(w))
      b == IF cut THEN SubSeq(bb, 1, Len(bb) \div 2) ELSE bb  base == <<S("P")>>  h == HintsOf(<< <<S("P"), p>> >>)
      r == Run(StartProp(b, 0, base, g, ty, TRUE, -1, h), b, h)
  IN [t |-> "part", b |-> b, path |-> base, cvs |-> Hdrs[hd].cvs, h |-> h, ty |-> ty,
      x |-> IF r.st = "ok" THEN [r |-> "ok", prop |-> r.val, p |-> r.p] ELSE [r |-> "err", e |-> r.e]]

PartWrite(p, hd, tg) ==
  LET g == HG[hd] IN [t |-> "pwrite", prop |-> p, tagged |-> tg, path |-> <<>>, cvs |-> Hdrs[hd].cvs, h |-> <<>>, b |-> IF tg THEN Flat(PropT(p, g)) ELSE Flat(BodyT(p, g))]
HdrTask(h, k) == LET e == Flat(HeaderT(h))  b == IF k = 0 THEN e ELSE SubSeq(e, 1, (Len(e) * k) \div 10)  r == HeaderD(b, Cur(0))
                 IN [t |-> "hdr", b |-> b, x |-> IF Bad(r) THEN [r |-> "err", e |-> r.e] ELSE [r |-> "ok", hdr |-> r.v, p |-> r.p]]
\* values of which some part depends on the versions, the hints or the place
StreamVals(hd) == << LeafTab[hd][hd * 13], StructP(Geom(StQuat, HG[hd], 1), G1), [k |-> "Text", x |-> Txt(LE4(hd), [k |-> "Ordered", x |-> DeepTxt(3), oas |-> <<IArg(HG[hd], 4), UArg(HG[hd], 5), TArg(DeepArg(4))>>])],
                     NestP(<<(hd % 7) + 1, ((hd * 3) % 7) + 1>>, StrP(Asc(hd * 5))) >>

TasksDef ==
     Tup([i \in 1..NH |-> RdF(DX(i))]) \o Tup([i \in 1..NH |-> RdF(Like(i, LeafTab[i][i * 11]))])
  \o <<RdF(FamN(5)), RdF(FamN(100)), RdF(FamN(222)), RdF(FamD(3)), RdF(FamD(1)), RdF(FamD(5)), RdF(ListDoc(12, 3000)), RdF(ListDoc(13, 500)), RdF(ListDoc(10, 40)), RdF(ListDoc(11, 600)), RdF(File(Hdrs[1], <<>>))>>
  \o <<TRd(HB, HH), TRd(HB, <<>>), TRd(HB, Other(HH)), TRd(HB, Tail(HH)), TRd(HB, HH \o << <<S("Q"), StGuid>> >>)>>
  \o <<CutAt(DX(1), 3), CutAt(DX(2), 6), CutAt(DX(3), 9), CutAt(FamN(5), 9), CutAt(FamD(3), 7), CutAt(FamD(1), 8), CutAt(Hinted, 8), CutAt(DX(1), 1)>>
  \o Hurt(FamN(5), 17) \o Hurt(FamN(100), 19) \o Hurt(Hinted, 17) \o Hurt(DX(2), 41)
  \o <<TRd(Mut(HB, 0, 1, <<0>>), HH), TRd(Mut(HB, 4, 1, <<9>>), HH), TRd(<<>>, <<>>)>>
  \o <<RdC(DX(1), "Zlib"), RdC(DX(2), "ZlibTwice"), RdC(DX(3), "None"), RdC(Hinted, "Zlib")>>
  \o Tup([i \in 1..NH |-> Wr(DX(i), "Default")]) \o <<Wr(Hinted, "Default"), Wr(DX(1), "Zlib"), Wr(DX(2), "ZlibTwice"), Wr(DX(3), "None"), Wr(FamD(3), "Default"), Wr(ListDoc(12, 2000), "Default")>>
  \o <<Full(DX(1), 100), Full(DX(2), 700), Full(Hinted, 900), Full([DX(1) EXCEPT !.gv = "Zlib"], 50)>>
  \o MapS(Js, SelectSeq(<<DX(1), DX(2), DX(3), DX(4), Hinted, FamN(5), FamN(100), Like(2, IntP(4))>>, LAMBDA f : Finite(f.ps)))
  \o <<PartTask(LeafTab[1][3], 1, FALSE), PartTask([k |-> "Text", x |-> DeepTxt(20)], 2, FALSE), PartTask([k |-> "Text", x |-> DeepTxt(20)], 2, TRUE), PartTask(ArrOf("Custom", 3), 3, TRUE),
       PartTask(ArrOf("Custom", 3), 3, FALSE), PartTask(MapOf("Str", "Custom", 3), 4, FALSE), PartTask(MapOf("Str", "Custom", 3), 4, TRUE), PartTask(SetOf("Point", 3), 5, FALSE)>>
  \o Cat([hd \in 1..NH |-> MapS(LAMBDA p : PartTask(p, hd, FALSE), StreamVals(hd))])
  \o Cat([hd \in 1..3 |-> MapS(LAMBDA p : PartTask(p, 2 * hd, TRUE), StreamVals(2 * hd))])
  \o Cat([hd \in 1..NH |-> MapS(LAMBDA p : PartWrite(p, hd, TRUE), StreamVals(hd))])
  \o <<HdrTask(Hdrs[1], 0), HdrTask(Hdrs[4], 0), HdrTask(Hdrs[5], 0), HdrTask(Hdrs[2], 5), HdrTask(Hdrs[6], 9)>>
\* writes that may be refused half-way: values of another version than the header's.  The outcome is left open
Open(p, hd, tg) == [t |-> "try", prop |-> p, tagged |-> tg, path |-> <<>>, cvs |-> Hdrs[hd].cvs, h |-> <<>>]
Mixed(p) == StructP(Custom(<< <<S("long"), <<StrP(Asc(70)), StrP(Wide(20))>> >>, <<S("bad"), <<p>> >> >>), G1)
Away(hd) == IF hd > 3 THEN 1 ELSE NH
OpensDef == Cat([hd \in 1..NH |-> LET v(t) == StructP(Geom(t, HG[Away(hd)], 1), G1) IN
              <<Open(Mixed(v(StVector)), hd, TRUE), Open(Mixed(v(StQuat)), hd, FALSE)>>
              \o Tup([c \in 1..7 |-> Open(NestP(<<c, 1>>, v(StRotator)), hd, TRUE)])
              \o <<Open([k |-> "Text", x |-> Txt(LE4(hd), [k |-> "Ordered", x |-> DeepTxt(3), oas |-> <<TArg(DeepArg(4)), IArg(HG[Away(hd)], 4)>>])], hd, TRUE)>>])
       \o Cat([hd \in 1..NH |-> Tup([c \in 1..7 |-> PartWrite(NestP(<<c>>, IntP(c)), hd, TRUE)]) \o <<PartWrite(StructP(Custom(<<>>), G1), hd, TRUE), PartWrite([k |-> "Text", x |-> EmptyTxt], hd, TRUE), PartWrite(Mixed(IntP(1)), hd, FALSE)>>])

\* every kind of element, in lists of different lengths: two readers or writers of the same kind of list
KindsDef(c) ==
  LET val(kd, n) == CASE c = 2 -> ArrOf(kd, n) [] c = 3 -> SetOf(kd, n) [] c = 4 -> MapOf(kd, "Str", n) [] c = 5 -> MapOf("Str", kd, n)
      kds == IF c < 4 THEN ElemKinds ELSE MapKinds
      h1(i) == (i % NH) + 1
      h2(i) == ((i + 3) % NH) + 1
  IN Cat([i \in 1..Len(kds) |-> <<PartTask(val(kds[i], 2), h1(i), FALSE), PartTask(val(kds[i], 9), h2(i), i % 3 = 0), PartWrite(val(kds[i], 3), h1(i), TRUE), PartWrite(val(kds[i], 8), h2(i), i % 4 # 0)>>])
     \o <<PartTask(SetP(UnkT, Zero4, <<[k |-> "Unknown", ty |-> UnkT, raw |-> Tup([j \in 1..7 |-> j])], [k |-> "Unknown", ty |-> UnkT, raw |-> Tup([j \in 1..7 |-> 9 * j])]>>), 1, FALSE)>>
\* single values: every leaf, with two headers
LeavesDef ==
  LET n(h) == Len(LeafTab[h])  at(h, i) == LeafTab[h][((i * n(h)) \div 30) + 1]
  IN Cat([i \in 1..29 |-> LET h == (i % NH) + 1  o == ((i + 2) % NH) + 1 IN <<PartTask(at(h, i), h, FALSE), PartTask(at(o, i), o, i % 5 = 0), PartWrite(at(h, i), h, TRUE), PartWrite(at(o, i), o, TRUE)>>])
NCat == 7
ASSUME TLCSet(151, TasksDef)
ASSUME \A c \in 2..5 : TLCSet(150 + c, KindsDef(c))
ASSUME TLCSet(156, LeavesDef)
ASSUME TLCSet(157, OpensDef)
TasksOf(c) == TLCGet(150 + c)

Blocks == 8
Mine(NT, blk) == SelectSeq(Tup([i \in 1..NT |-> i - 1]), LAMBDA i : i % Blocks = blk)
Patterns == << <<0, 1>>, <<0, 0, 1>>, <<1, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 1, 1, 1>>, Rep(0, 20) \o Rep(1, 20), <<0>> \o Rep(1, 50), Rep(0, 60) \o <<1>> >>
NextR(x) == (x * 1103 + 12345) % 65521
RECURSIVE Rnd(_, _, _)
Rnd(x, n, NT) == IF n = 0 THEN <<>> ELSE <<(x \div 7) % NT>> \o Rnd(NextR(x), n - 1, NT)
Start(n) == NextR(NextR((n * 131 + 977 + (IF "SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.SEED) % 60000 ELSE 1)) % 65521))
\* whole saves are read and written in one piece: only parts and headers meet other calls half-way
Streamed(t) == t.t \in {"part", "pwrite", "hdr", "try"}
More == IF Thorough THEN 12 ELSE 1
Plans(Tasks, mode, blk) ==
  LET NT == Len(Tasks)  St(i) == Streamed(Tasks[i + 1]) IN
  CASE mode = "pairs" -> Cat(MapS(LAMBDA i : Tup([j \in 1..NT |-> <<i, j - 1, i, j - 1>>]), Mine(NT, blk)))
    [] mode = "long" -> Tup([n \in 1..(12 * More) |-> Rnd(Start(n * 8 + blk), 150, NT)])
    [] mode = "often" -> MapS(LAMBDA i : <<i, 200>>, Mine(NT, blk))
    [] mode = "inner" -> Cat(MapS(LAMBDA i : Tup([j \in 1..NT |-> <<i, j - 1, IF Thorough THEN 40 ELSE IF St(i) THEN 3 ELSE 1>>]), Mine(NT, blk)))
    [] mode = "turns" -> LET all == Cat(MapS(LAMBDA i : Tup([j \in 1..NT |-> <<i, j - 1, Patterns[((i + 3 * j) % Len(Patterns)) + 1]>>]), Mine(NT, blk)))
                         IN SelectSeq(all, LAMBDA x : Thorough \/ (St(x[1]) /\ St(x[2])) \/ (x[1] + x[2]) % 5 = 0)
    [] mode = "given" -> Cat(MapS(LAMBDA i : << <<i, (i * 7 + 3) % NT, IF Thorough THEN 40 ELSE IF St(i) THEN 6 ELSE 3>>, <<i, (i * 5 + 1) % NT, 2>> >>, Mine(NT, blk)))
    [] mode = "storm" -> <<<<4, 6 * More>>>>
Modes == <<"pairs", "long", "often", "inner", "given", "turns", "storm">>
\* the catalogue has what it should: good calls and calls that fail in every way
Rich == LET Tasks == TasksOf(1)  NT == Len(Tasks)  ks == {Tasks[i].x.e.k : i \in {i \in 1..NT : Tasks[i].t \in {"read", "part"} /\ Tasks[i].x.r = "err"}} IN
        Must(NT > 60 /\ Cardinality(ks) >= 5 /\ "MissingHint" \in ks /\ "Io" \in ks /\ Cardinality({i \in 1..NT : Tasks[i].t = "op"}) >= 3, <<"poor catalogue", NT, ks>>)
PerCat == Blocks * Len(Modes)
Emit(i) == LET c == (i \div PerCat) + 1  mode == Modes[((i % PerCat) \div Blocks) + 1]  blk == i % Blocks IN
           Rich /\ Out([op |-> "indep", mode |-> mode, tasks |-> TasksOf(c), plans |-> Plans(TasksOf(c), mode, blk)])
Total == NCat * PerCat
Init == InitC(Total, 1)
Next == NextC(Total, 1, Emit)
=============================================================================
