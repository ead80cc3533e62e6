------------------------------- MODULE GenVer -------------------------------
(***************************************************************************)
(* Version gates.  Tables of custom versions around every threshold, with  *)
(* look-alike identifiers, in every order; gated values in every position. *)
(*  1  values that fit the table: written and read                         *)
(*  2  the property bytes of one table behind the header of another        *)
(*  3  values that do not fit: writing is refused                          *)
(*  4  single properties and texts through the public calls                *)
(*  5  tables which name an identifier twice: the last entry counts        *)
(*  6  gated values far down in texts and containers                       *)
(*  7  many more version numbers; numbers and words that must not matter   *)
(*  8  the entry among many; special numbers that do not fit               *)
(***************************************************************************)
EXTENDS GenBase, Faults

UVals == <<Zero4, LE4(1), LE4(11), LE4(12), LE4(13), LE4(27), LE4(28), LE4(29), LE4(32), <<0, 0, 0, 128>>, Rep(255, 4), <<0, 1, 0, 0>>>>
EVals == <<Zero4, LE4(12), LE4(28), LE4(31), LE4(32), LE4(33), <<0, 0, 0, 128>>, Rep(255, 4)>>
Opt(s) == << <<>> >> \o MapS(LAMBDA v : <<v>>, s)
\* look-alikes: one byte changed, words exchanged, bytes of a word reversed
Alike(gd) == << SetB(gd, 1, Xor1(gd[1], 1)), SetB(gd, 16, Xor1(gd[16], 128)), SubSeq(gd, 5, 16) \o SubSeq(gd, 1, 4),
                <<gd[4], gd[3], gd[2], gd[1]>> \o SubSeq(gd, 5, 16), SubSeq(gd, 1, 8) \o SubSeq(gd, 13, 16) \o SubSeq(gd, 9, 12),
                Zero16, Rep(255, 16) >>
TablesDef ==
  LET us == Opt(UVals)  es == Opt(EVals) IN
  Flatten([i \in 1..Len(us) |-> Tup([j \in 1..Len(es) |-> Cv(us[i], es[j])])])
  \o MapS(LAMBDA a : << <<a, LE4(99)>> >>, Alike(GUe5Release)) \o MapS(LAMBDA a : << <<a, LE4(99)>> >>, Alike(GEditor))
  \o MapS(LAMBDA a : << <<a, Zero4>>, <<GUe5Release, LE4(28)>>, <<G1, Zero4>> >>, Alike(GUe5Release))
  \o MapS(LAMBDA a : << <<G1, LE4(99)>>, <<GEditor, LE4(32)>>, <<a, Zero4>> >>, Alike(GEditor))
  \o << << <<GEditor, LE4(32)>>, <<GUe5Release, LE4(28)>> >>, << <<GEditor, LE4(31)>>, <<GUe5Release, LE4(12)>> >>,
        << <<G1, LE4(40)>>, <<G2, LE4(40)>>, <<GEditor, LE4(12)>>, <<GHalf, LE4(40)>> >> >>
ASSUME TLCSet(150, TablesDef)
Tables == TLCGet(150)
NT == Len(Tables)
AllGates == << [lwc |-> FALSE, t64 |-> FALSE, civ |-> FALSE], [lwc |-> FALSE, t64 |-> TRUE, civ |-> FALSE], [lwc |-> TRUE, t64 |-> TRUE, civ |-> FALSE],
               [lwc |-> FALSE, t64 |-> FALSE, civ |-> TRUE], [lwc |-> FALSE, t64 |-> TRUE, civ |-> TRUE], [lwc |-> TRUE, t64 |-> TRUE, civ |-> TRUE] >>
GateCvs == << <<>>, Cv(<<LE4(12)>>, <<>>), Cv(<<LE4(28)>>, <<>>), Cv(<<>>, <<LE4(32)>>), Cv(<<LE4(12)>>, <<LE4(32)>>), Cv(<<LE4(28)>>, <<LE4(32)>>) >>
ASSUME \A i \in 1..6 : Gates(GateCvs[i]) = AllGates[i]
GLeafDef == Tup([i \in 1..6 |-> RepGated(AllGates[i]) \o <<[k |-> "Text", x |-> Txt(LE4(1), [k |-> "Number", a |-> IArg(AllGates[i], 5), fo |-> <<>>, cu |-> <<>>])],
                               [k |-> "Text", x |-> Txt(LE4(1), [k |-> "Ordered", x |-> EmptyTxt, oas |-> <<TArg(Txt(LE4(1), [k |-> "Percent", a |-> UArg(AllGates[i], 6), fo |-> <<>>, cu |-> <<>>]))>>])]>>])
ASSUME TLCSet(151, GLeafDef)
GLeaf == TLCGet(151)
NGL(i) == Len(GLeaf[i])
GIdx(g) == CHOOSE i \in 1..6 : AllGates[i] = g
\* package versions and engine versions vary too: they must not matter
VHd(cvs, i) == Hd(2 + (i % 2), 517 + (i % 9), 1000 + (i % 10), <<<<4, 27, 2>>, <<5, 3, 0>>, <<0, 0, 0>>, <<5, 0, 0>>>>[(i % 4) + 1], Zero4, S("b"), cvs, S("c"))
VCtx == <<1, 3, 6, 8, 11, 13, 15, 16>>
NVC == Len(VCtx)
MaxL == 24

\* 1
N1 == NT * MaxL * NVC
Item1(i) ==
  LET c == VCtx[(i % NVC) + 1]  t == Tables[((i \div NVC) % NT) + 1]  gi == GIdx(Gates(t))  j == i \div (NVC * NT) IN
  j < NGL(gi) =>
    LET f == File(VHd(t, i), Ctx(c, GLeaf[gi][j + 1])) IN
    Proper(f) => LET b == EncFile(f)  h == HintsOf(f.ps) IN
                 /\ Sound(f, b, h)
                 /\ Out([op |-> "doc", ck |-> <<"read", "write">>, h |-> h, f |-> f, b |-> b])
\* 2: bytes of gates x under gates y
N2 == 6 * 6 * MaxL * NVC
Item2(i) ==
  LET c == VCtx[(i % NVC) + 1]  x == ((i \div NVC) % 6) + 1  y == ((i \div (NVC * 6)) % 6) + 1  j == i \div (NVC * 36) IN
  (x # y /\ j < NGL(x)) =>
    LET f == File(VHd(GateCvs[x], i), Ctx(c, GLeaf[x][j + 1]))  f2 == [f EXCEPT !.hdr.cvs = GateCvs[y]] IN
    Proper(f) => LET ht == HeaderT(f.hdr)  b == EncFile(f)  b2 == Flat(HeaderT(f2.hdr)) \o SubSeq(b, TLen(ht) + 1, Len(b))  h == HintsOf(f.ps)
                     r == ReadFile(b2, h, "Default") IN
                 Out([op |-> "read", b |-> b2, h |-> h, gv |-> "Default",
                      x |-> IF r.r = "ok" THEN [r |-> "ok", file |-> r.file] ELSE [r |-> "err", e |-> r.e]])
\* 3: values of gates x under gates y
Item3(i) ==
  LET c == VCtx[(i % NVC) + 1]  x == ((i \div NVC) % 6) + 1  y == ((i \div (NVC * 6)) % 6) + 1  j == i \div (NVC * 36) IN
  (x # y /\ j < NGL(x)) =>
    LET f == File(VHd(GateCvs[y], i), Ctx(c, GLeaf[x][j + 1])) IN
    Proper(f) => Out([op |-> "write", f |-> f, x |-> IF FileW(f) THEN [r |-> "ok", b |-> EncFile(f)] ELSE [r |-> "err"]])
\* 4: single properties
N4 == 6 * 6 * MaxL * 2
Item4(i) ==
  LET tg == i % 2  x == ((i \div 2) % 6) + 1  y == ((i \div 12) % 6) + 1  j == i \div 72 IN
  j < NGL(x) =>
    LET p == IF tg = 1 THEN GLeaf[x][j + 1] ELSE HL(GLeaf[x][j + 1])  g == AllGates[y]  cvs == GateCvs[y]
        b == IF tg = 1 THEN SubSeq(Flat(PropT(p, g)), TLen(StrT(TypeName(p))) + 1, TLen(PropT(p, g))) ELSE Flat(BodyT(p, g))
        w == PropW(p, tg = 1, g)
        pb == IF tg = 1 THEN Flat(PropT(p, g)) ELSE b
        ty == TypeName(p)
        h == IF p.k = "SV" THEN << <<ty, TnOf(p.sv)>> >> ELSE <<>>
        r == StartProp(b, 0, <<>>, g, ty, tg = 1, -1, h)
        rr == Run(r, b, h)
    IN /\ Out([op |-> "prop_write", prop |-> p, tagged |-> tg = 1, cvs |-> cvs, x |-> IF w THEN [r |-> "ok", b |-> pb, n |-> Len(pb)] ELSE [r |-> "err"]])
       /\ w => Must(rr.st = "ok" /\ rr.val = p, <<"not read back", p, rr>>)
       /\ Out([op |-> "prop_read", b |-> b, p |-> 0, path |-> <<>>, cvs |-> cvs, ty |-> ty, tagged |-> tg = 1, sug |-> -1, h |-> h,
               x |-> IF rr.st = "ok" THEN [r |-> "ok", prop |-> rr.val, p |-> rr.p] ELSE [r |-> "err", e |-> rr.e]])
       /\ (p.k = "Text" /\ tg = 0) =>
            Out([op |-> "text_write", t |-> p.x, cvs |-> cvs, x |-> IF w THEN [r |-> "ok", b |-> b, n |-> Len(b)] ELSE [r |-> "err"]])

\* 5
TVals == <<Zero4, LE4(12), LE4(28), LE4(32)>>
TwiceDef == Flatten([i \in 1..16 |-> LET x == TVals[((i - 1) % 4) + 1]  y == TVals[((i - 1) \div 4) + 1] IN
              << << <<GUe5Release, x>>, <<GUe5Release, y>> >>, << <<GUe5Release, x>>, <<G1, LE4(30)>>, <<GUe5Release, y>>, <<GEditor, LE4(32)>> >>,
                 << <<GEditor, x>>, <<GEditor, y>> >>, << <<GEditor, x>>, <<GUe5Release, LE4(28)>>, <<G2, LE4(1)>>, <<GEditor, y>>, <<GUe5Release, x>> >> >>])
ASSUME TLCSet(154, TwiceDef)
Twice == TLCGet(154)
NTw == Len(Twice)
N5 == NTw * 6 * MaxL
Item5(i) ==
  LET t == Twice[(i % NTw) + 1]  x == ((i \div NTw) % 6) + 1  j == i \div (NTw * 6) IN
  j < NGL(x) =>
    LET f == File(VHd(GateCvs[x], i), Ctx(VCtx[((i \div 3) % NVC) + 1], GLeaf[x][j + 1])) IN
    Proper(f) => LET b == EncFile(f)  b2 == Flat(HeaderT([f.hdr EXCEPT !.cvs = t])) \o SubSeq(b, TLen(HeaderT(f.hdr)) + 1, Len(b))  h == HintsOf(f.ps)
                     r == ReadFile(b2, h, "Default") IN
                 Out([op |-> "read", b |-> b2, h |-> h, gv |-> "Default",
                      x |-> IF r.r = "ok" THEN [r |-> "ok", file |-> r.file] ELSE [r |-> "err", e |-> r.e]])

\* 6
WrapT(w, x) ==
  Txt(LE4(w), CASE w = 1 -> [k |-> "Transform", x |-> x, tt |-> 1]
                [] w = 2 -> [k |-> "Ordered", x |-> x, oas |-> <<FArg(1)>>]
                [] w = 3 -> [k |-> "Ordered", x |-> EmptyTxt, oas |-> <<FArg(1), TArg(x), TArg(EmptyTxt)>>]
                [] w = 4 -> [k |-> "Named", x |-> x, nas |-> << <<S("a"), FArg(1)>> >>]
                [] w = 5 -> [k |-> "Named", x |-> EmptyTxt, nas |-> << <<S("a"), TArg(x)>>, <<S("b"), FArg(1)>> >>]
                [] w = 6 -> [k |-> "Argument", x |-> EmptyTxt, nas |-> << <<S("a"), TArg(x)>> >>]
                [] w = 7 -> [k |-> "Argument", x |-> x, nas |-> <<>>])
RECURSIVE WrapAll(_, _)
WrapAll(ws, x) == IF ws = <<>> THEN x ELSE WrapT(ws[1], WrapAll(Tail(ws), x))
Wraps == Tup([i \in 1..35 |-> Rep(((i - 1) % 7) + 1, <<2, 3, 4, 6, 10>>[((i - 1) \div 7) + 1])])
         \o << <<1, 2>>, <<1, 3>>, <<3, 1>>, <<5, 1, 1>>, <<1, 1, 5>>, <<6, 3, 5>>, <<2, 4, 7, 1>>, <<7, 6, 5, 4, 3, 2, 1>>, <<1, 2, 3, 4, 5, 6, 7>> >>
Cores(g) == << Txt(LE4(1), [k |-> "Number", a |-> IArg(g, 5), fo |-> <<>>, cu |-> <<>>]),
               Txt(LE4(2), [k |-> "Named", x |-> EmptyTxt, nas |-> << <<S("n"), UArg(g, 6)>> >>]),
               IF g.civ THEN Txt(LE4(2), [k |-> "None", o |-> <<S("inv")>>]) ELSE EmptyTxt >>
PCodes == Tup([i \in 1..21 |-> Rep(((i - 1) % 7) + 1, <<2, 4, 6>>[((i - 1) \div 7) + 1])]) \o Tup([i \in 1..12 |-> Rep(((i - 1) % 4) + 1, <<12, 24, 45>>[((i - 1) \div 4) + 1])]) \o << <<1, 2, 3, 4>>, <<5, 2, 1>>, <<3, 3, 6, 1>>, <<7, 5>> >>
PLeaves(g) == << StructP(FixedSvs(g)[1], G1), SArr(S("v"), TnOf(FixedSvs(g)[1]), G1, <<FixedSvs(g)[1], FixedSvs(g)[1]>>), [k |-> "Text", x |-> Cores(g)[1]], [k |-> "Text", x |-> Cores(g)[3]] >>
DeepDef == Tup([q \in 1..6 |->
  Flatten([i \in 1..Len(Wraps) |-> MapS(LAMBDA x : [k |-> "Text", x |-> WrapAll(Wraps[i], x)], Cores(AllGates[q]))])
  \o Tup([i \in 1..Len(PCodes) |-> NestP(PCodes[i], Pick(PLeaves(AllGates[q]), i))])
  \o LET every == StructP(Custom(<< <<S("v"), PLeaves(AllGates[q])>>, <<S("w"), Tup([c \in 1..4 |-> StructP(FixedSvs(AllGates[q])[c], G2)])>> >>), G1) IN Tup([i \in 1..12 |-> NestP(Rep(((i - 1) % 4) + 1, <<3, 10, 30>>[((i - 1) \div 4) + 1]), every)])])
ASSUME TLCSet(155, DeepDef)
Deep == TLCGet(155)
ND == Len(Deep[1])
N6 == ND * 36
Item6(i) ==
  LET x == (i % 6) + 1  y == ((i \div 6) % 6) + 1  p == Deep[x][(i \div 36) + 1]
      f == File(VHd(GateCvs[x], i), << <<S("X"), p>>, <<S("Z"), IntP(1)>> >>)  f2 == [f EXCEPT !.hdr.cvs = GateCvs[y]]  h == HintsOf(f.ps) IN
  Proper(f) =>
    IF x = y THEN LET b == EncFile(f) IN Sound(f, b, h) /\ Out([op |-> "doc", ck |-> <<"read", "write">>, h |-> h, f |-> f, b |-> b])
    ELSE (i % 5 = 0 \/ Thorough) =>
         LET b == EncFile(f)  b2 == Flat(HeaderT(f2.hdr)) \o SubSeq(b, TLen(HeaderT(f.hdr)) + 1, Len(b))  r == ReadFile(b2, h, "Default") IN
         /\ Out([op |-> "read", b |-> b2, h |-> h, gv |-> "Default", x |-> IF r.r = "ok" THEN [r |-> "ok", file |-> r.file] ELSE [r |-> "err", e |-> r.e]])
         /\ Out([op |-> "write", f |-> f2, x |-> IF FileW(f2) THEN [r |-> "ok", b |-> EncFile(f2)] ELSE [r |-> "err"]])

\* 7
AllOf(g) == << <<S("V"), StructP(FixedSvs(g)[1], G1)>>, <<S("W"), SArr(S("v"), TnOf(FixedSvs(g)[4]), G1, <<FixedSvs(g)[4], FixedSvs(g)[4]>>)>>, <<S("T"), [k |-> "Text", x |-> Cores(g)[1]]>>, <<S("U"), [k |-> "Text", x |-> Cores(g)[3]]>>,
               <<S("N"), [k |-> "Text", x |-> Cores(g)[2]]>>, <<S("P"), StructP(FixedSvs(g)[2], G1)>>, <<S("Q"), StructP(FixedSvs(g)[3], G2)>>, <<S("R"), StructP(FixedSvs(g)[4], G2)>>,
               <<S("A"), SArr(S("v"), TnOf(FixedSvs(g)[2]), G1, <<FixedSvs(g)[2]>>)>>, <<S("B"), SArr(S("v"), TnOf(FixedSvs(g)[3]), G1, <<FixedSvs(g)[3]>>)>>, <<S("Z"), IntP(1)>> >>
V7s == Tup([n \in 1..130 |-> LE4(n - 1)]) \o NumI4 \o OneBit(4) \o AllBut(4)
N7v == Len(V7s)
N7e == Len(NumI2)
N7w == NWord
N7 == 2 * N7v + N7e + N7w
Fits(f) == LET b == EncFile(f)  h == HintsOf(f.ps) IN Sound(f, b, h) /\ Out([op |-> "doc", ck |-> <<"read", "write">>, h |-> h, f |-> f, b |-> b])
Item7(i) ==
  IF i < 2 * N7v THEN LET v == V7s[(i \div 2) + 1]  o == <<LE4(28), LE4(12), Zero4, LE4(32)>>[(i % 4) + 1]
                          t == IF i % 2 = 0 THEN << <<GUe5Release, v>>, <<GEditor, o>> >> ELSE << <<GEditor, v>>, <<GUe5Release, o>> >> IN
                      Fits(File(VHd(t, i), AllOf(Gates(t)))) /\ Fits(File(VHd(<<t[1]>>, i), AllOf(Gates(<<t[1]>>))))
  ELSE LET q == i - 2 * N7v IN
       \A x \in {1, 3, 5, 6} :
         LET f == File(VHd(GateCvs[x], i), AllOf(AllGates[x])) IN
         IF q < N7e THEN LET v == NumI2[q + 1] IN Fits([f EXCEPT !.hdr.maj = v]) /\ Fits([f EXCEPT !.hdr.min = v]) /\ Fits([f EXCEPT !.hdr.maj = LE2(5), !.hdr.min = v, !.hdr.pat = v, !.hdr.cl = v \o v])
         ELSE LET w == WordTab[q - N7e + 1] IN Len(w) < 40 => Fits([f EXCEPT !.hdr.br = w, !.hdr.cls = w])

\* 8
Lens8 == <<50, 100, 101, 128, 129, 200, 256, 257, 300, 600>>
Filler(n) == Tup([j \in 1..n |-> <<LE4(j) \o SubSeq(G2, 1, 12), LE4(60 + j)>>])
Among(cvs, n, at) == LET l == Filler(n)  k == CASE at = 0 -> 0 [] at = 1 -> n [] at = 2 -> n \div 2 IN SubSeq(l, 1, k) \o cvs \o SubSeq(l, k + 1, n)
N8a == Len(Lens8) * 18
Spec8(g) ==
  Cat([c \in 1..4 |-> LET sv == FixedSvs(g)[c] IN MapS(LAMBDA v : StructP([sv EXCEPT !.vs = Tup([n \in 1..Len(sv.vs) |-> v])], G1), NumF(Len(sv.vs[1])))])
  \o MapS(LAMBDA v : [k |-> "Text", x |-> Txt(LE4(1), [k |-> "Number", a |-> [IArg(g, 1) EXCEPT !.v = v], fo |-> <<>>, cu |-> <<>>])], NumI(Len(IArg(g, 1).v)))
  \o MapS(LAMBDA v : [k |-> "Text", x |-> Txt(LE4(1), [k |-> "Ordered", x |-> EmptyTxt, oas |-> <<[UArg(g, 1) EXCEPT !.v = v]>>])], NumI(Len(UArg(g, 1).v)))
  \o (IF g.civ THEN MapS(LAMBDA w : [k |-> "Text", x |-> Txt(LE4(1), [k |-> "None", o |-> <<w>>])], WordTab) ELSE <<>>)
N8b == 8
Item8(i) ==
  IF i < N8a THEN LET x == (i % 6) + 1  at == (i \div 6) % 3  t == Among(GateCvs[x], Lens8[(i \div 18) + 1], at) IN Fits(File(VHd(t, i), AllOf(AllGates[x])))
  ELSE LET q == i - N8a  x == <<1, 6, 3, 2, 4, 6, 3, 2>>[q + 1]  y == <<6, 1, 2, 1, 1, 4, 1, 3>>[q + 1]  l == Spec8(AllGates[x]) IN
       \A j \in 1..Len(l) : \A tg \in {TRUE, FALSE} :
         LET p == IF tg THEN l[j] ELSE HL(l[j])  g == AllGates[y]  w == PropW(p, tg, g)  pb == IF tg THEN Flat(PropT(p, g)) ELSE Flat(BodyT(p, g)) IN
         Out([op |-> "prop_write", prop |-> p, tagged |-> tg, cvs |-> GateCvs[y], x |-> IF w THEN [r |-> "ok", b |-> pb, n |-> Len(pb)] ELSE [r |-> "err"]])
SegsDef == <<N1, N2, N2, N4, N5, N6, N7, N8a + N8b>>
ASSUME TLCSet(152, SegsDef)
Segs == TLCGet(152)
TotalDef == SumS(Segs)
ASSUME TLCSet(153, TotalDef)
Total == TLCGet(153)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2]) [] s[1] = 5 -> Item5(s[2]) [] s[1] = 6 -> Item6(s[2]) [] s[1] = 7 -> Item7(s[2]) [] s[1] = 8 -> Item8(s[2])
Init == InitC(Total, 40)
Next == NextC(Total, 40, Emit)
=============================================================================
