------------------------------- MODULE GenPart -------------------------------
(***************************************************************************)
(* Parts of a save read and written on their own: single properties, tagged *)
(* and untagged, through Property::new and through the reader of their own *)
(* type; texts, text histories and number formats.  The part lies between  *)
(* other bytes of a stream; what follows it is left unread.                *)
(***************************************************************************)
EXTENDS GenBase, Faults

Pre == <<7, 255, 0>>
Post == <<1, 0, 0, 0, 9, 200>>
PropX(b, base, g, ty, tg, sug, h) ==
  LET r == Run(StartProp(b, Len(Pre), base, g, ty, tg, sug, h), b, h)
  IN IF r.st = "ok" THEN [r |-> "ok", prop |-> r.val, p |-> r.p] ELSE [r |-> "err", e |-> r.e]
Cuts(n) == IF n <= 60 THEN SetToSortSeq(0..(n - 1), <) ELSE SetToSortSeq({(k * (n - 1)) \div 12 : k \in 0..12} \union (0..20), <)
\* b: the property without its type name
PartM(p, base, cvs, tg, h, cuts, mut) ==
  LET g == Gates(cvs)  ty == TypeName(p)
      w == IF tg THEN Flat(PropT(p, g)) ELSE Flat(BodyT(p, g))
      bb == IF tg THEN SubSeq(w, Len(EncStr(ty)) + 1, Len(w)) ELSE w
      b == Pre \o bb \o Post
      sug == IF tg \/ p.k \notin {"ByteNs", "Unknown"} THEN -1 ELSE IF p.k = "ByteNs" THEN Len(bb) + 1 ELSE Len(bb)
      x == PropX(b, base, g, ty, tg, sug, h)
      cs == IF cuts THEN Cuts(Len(bb)) ELSE <<>>
      ts == IF tg THEN LET t == PropT(p, g) IN SubSeq(t, 4, Len(t)) ELSE BodyT(p, g)
      Of(k) == LET rs == Repl(ts[k])  a == Len(Pre) + Off(ts, k)  d == Len(ts[k].b)
               IN Tup([j \in 1..Len(rs) |-> [a |-> a, d |-> d, i |-> rs[j], x |-> PropX(Mut(b, a, d, rs[j]), base, g, ty, tg, sug, h)]])
      ms == IF mut THEN FoldLeft(LAMBDA acc, k : acc \o Of(k), <<>>, Tup([k \in 1..Len(ts) |-> k])) ELSE <<>>
      \* one hint left out
      Less(k) == SubSeq(h, 1, k - 1) \o SubSeq(h, k + 1, Len(h))
      hs == Tup([k \in 1..(IF Len(h) > 4 THEN 4 ELSE Len(h)) |-> <<Less(k), PropX(b, base, g, ty, tg, sug, Less(k))>>])
  IN /\ Must(PropW(p, tg, g), <<"not writable", p>>)
     /\ Must(x.r = "ok" /\ x.prop = p /\ x.p = Len(Pre) + Len(bb), <<"not read back", p, x>>)
     /\ Out([op |-> "part", b |-> b, p |-> Len(Pre), path |-> base, cvs |-> cvs, h |-> h, ty |-> ty, tagged |-> tg, sug |-> sug, x |-> x, w |-> w, ms |-> ms, hs |-> hs,
             cuts |-> Tup([i \in 1..Len(cs) |-> LET n == Len(Pre) + cs[i] IN <<n, PropX(SubSeq(b, 1, n), base, g, ty, tg, sug, h)>>])])
Part(p, base, cvs, tg, h, cuts) == PartM(p, base, cvs, tg, h, cuts, FALSE)

Small(f) == TLen(FileT(f)) < 4000
\* 1: the top-level properties of the pool
Item1(i) == LET f == Pool(i) IN
            (Proper(f) /\ Small(f)) =>
            \A j \in 1..Len(f.ps) : j <= 3 => Part(f.ps[j][2], <<f.ps[j][1]>>, f.hdr.cvs, TRUE, HintsOf(f.ps), FALSE)
\* 2: leaves, tagged and cut short
Item2(i) == LET h == (i % NH) + 1 IN Part(LeafTab[h][i + 1], <<S("a"), S("b")>>, Hdrs[h].cvs, TRUE, HintsOf(<< <<S("a"), LeafTab[h][i + 1]>> >>), TRUE)
\* 3: leaves as elements
Item3(i) == LET h == (i % NH) + 1  p == HL(LeafTab[h][i + 1])  base == IF i % 3 = 0 THEN <<>> ELSE <<S("Q"), S("ArrayProperty")>> IN
            (p.k \notin {"Array", "Set", "Map", "Struct"} /\ ~(p.k = "Unknown" /\ p.raw = <<>>)) =>
            Part(p, base, Hdrs[h].cvs, FALSE,
                 IF p.k = "SV" THEN << <<Join(Append(base, TStruct)), TnOf(p.sv)>> >> ELSE <<>>, TRUE)
\* 4: texts and their parts
TextX(d, v(_)) == IF Bad(d) THEN [r |-> "err", e |-> d.e] ELSE [r |-> "ok", t |-> v(d.v), p |-> d.p]
Id(v) == v
TextPart(what, bb, cvs, D(_, _)) ==
  LET b == Pre \o bb \o Post  c0 == Cur(Len(Pre))  x == TextX(D(b, c0), Id)  cs == Cuts(Len(bb)) IN
  /\ Must(x.r = "ok" /\ x.p = Len(Pre) + Len(bb), <<"not read back", what, x>>)
  /\ Out([op |-> "textpart", what |-> what, b |-> b, p |-> Len(Pre), cvs |-> cvs, x |-> x, w |-> bb,
          cuts |-> Tup([i \in 1..Len(cs) |-> LET n == Len(Pre) + cs[i] IN <<n, TextX(D(SubSeq(b, 1, n), c0), Id)>>])])
\* number formats
FoOf(h) == IF "fo" \in DOMAIN h THEN h.fo ELSE <<>>
Item4(i) ==
  LET hd == (i % NH) + 1  p == LeafTab[hd][i + 1]  cvs == Hdrs[hd].cvs  g == HG[hd] IN
  p.k = "Text" =>
    /\ TextPart("text", Flat(TextT(p.x, g)), cvs, LAMBDA b, c : TextD(b, c, g, 0))
    /\ TextPart("hist", Flat(HistT(p.x.h, g)), cvs, LAMBDA b, c : HistD(b, c, g, 0))
    /\ FoOf(p.x.h) # <<>> =>
         LET bb == Flat(FoT(FoOf(p.x.h))) IN
         \* the same format without its flag: as if the flag had been read just before
         LET b == <<1, 0, 0, 0>> \o SubSeq(bb, 5, Len(bb)) \o Post  n0 == Len(bb) - 4
             X(s) == LET d == FoD(s, Cur(0)) IN IF Bad(d) THEN [r |-> "err", e |-> d.e] ELSE [r |-> "ok", t |-> d.v, p |-> d.p] IN
         Out([op |-> "textpart", what |-> "fo", b |-> b, p |-> 4, cvs |-> cvs, x |-> X(b), w |-> SubSeq(bb, 5, Len(bb)),
              cuts |-> Tup([k \in 1..n0 |-> <<4 + k - 1, X(SubSeq(b, 1, 4 + k - 1))>>])])
\* 5: every field damaged; the part stands in a location path of its own
Item5(i) ==
  LET h == IF i % (NF1 + NF2) < NF1 THEN 1 ELSE 2  j == i % (NF1 + NF2)  p == IF h = 1 THEN FLeaf[1][j + 1] ELSE FLeaf[2][j - NF1 + 1]
      cvs == FHdrs[h].cvs  q == HL(p)  base == <<S("Q"), S("ArrayProperty")>> IN
  IF i < NF1 + NF2 THEN PartM(p, <<S("a"), S("b")>>, cvs, TRUE, HintsOf(<< <<S("a.b"), p>> >>), FALSE, TRUE)
  ELSE (q.k \notin {"Array", "Set", "Map", "Struct"} /\ ~(q.k = "Unknown" /\ q.raw = <<>>)) =>
       PartM(q, base, cvs, FALSE, IF q.k = "SV" THEN << <<Join(Append(base, TStruct)), TnOf(q.sv)>> >> ELSE <<>>, FALSE, TRUE)

Every == 1
SegsDef == <<NPool \div Every, NLeaf, NLeaf, NLeaf, 2 * (NF1 + NF2)>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2] * Every) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2]) [] s[1] = 5 -> Item5(s[2])
Init == InitC(Total, 20)
Next == NextC(Total, 20, Emit)
=============================================================================
