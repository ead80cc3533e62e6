------------------------------ MODULE GenEdit ------------------------------
(***************************************************************************)
(* Sessions that edit: every leaf kind in every position is replaced, put  *)
(* back, saved, loaded, exported; containers grow and shrink; fields,      *)
(* entries, properties, header and container kind change.  Each step says  *)
(* what memory and disk hold afterwards, by the actions of Session.        *)
(***************************************************************************)
EXTENDS GenBase, Session, GvasJson

\* evaluates a script [a, p?, e?] from file f; gives the steps with expectations
RECURSIVE Play(_, _, _, _, _)
Play(f, d, h, script, acc) ==
  IF script = <<>> THEN acc
  ELSE LET s == Head(script)  rest == Tail(script) IN
       CASE s.a = "edit" -> IF Must(CanEdit(f, s.p, s.e), <<"cannot edit", f, s>>) /\ Must(Beside(f, s.p, s.e), <<"beside", s>>) /\ Must(Local(f, s.p, s.e), <<"not local", s>>)
                            THEN LET g == EditF(f, s.p, s.e) IN Play(g, d, h, rest, Append(acc, [a |-> "edit", p |-> s.p, e |-> s.e, f |-> g])) ELSE <<>>
         [] s.a = "cloneedit" -> Play(f, d, h, rest, Append(acc, [a |-> "cloneedit", p |-> s.p, e |-> s.e, f |-> f]))
         [] s.a = "save" -> LET r == SaveReply(f) IN IF Must(r.r = "ok", <<"cannot save", f>>) THEN Play(f, [gv |-> f.gv, b |-> r.b], h, rest, Append(acc, [a |-> "save", b |-> r.b])) ELSE <<>>
         [] s.a = "load" -> LET r == LoadReply(d, h) IN IF Must(r.r = "ok", <<"cannot load", f, r>>) THEN Play(r.file, d, h, rest, Append(acc, [a |-> "load", f |-> r.file])) ELSE <<>>
         [] s.a = "json" -> Play(f, d, h, rest, IF Finite(f.ps) THEN Append(acc, [a |-> "json", f |-> f]) ELSE acc)
ASave == [a |-> "save"]   ALoad == [a |-> "load"]   AJson == [a |-> "json"]
AEdit(p, e) == [a |-> "edit", p |-> p, e |-> e]
AClone(p, e) == [a |-> "cloneedit", p |-> p, e |-> e]
ESet(v) == [e |-> "set", v |-> v]
EPush(v) == [e |-> "push", v |-> v]
EPop == [e |-> "pop"]
EPutK(k, v) == [e |-> "putk", key |-> k, v |-> v]
EDelK(k) == [e |-> "delk", key |-> k]
EPutF(n, ps) == [e |-> "putf", nm |-> n, ps |-> ps]
EDelF(n) == [e |-> "delf", nm |-> n]
EPutTop(n, v) == [e |-> "puttop", nm |-> n, v |-> v]
EDelTop(n) == [e |-> "deltop", nm |-> n]
EHdr(h) == [e |-> "hdr", h |-> h]
EPack(gv) == [e |-> "pack", gv |-> gv]
PTop(n) == <<"top", n, 0>>
PField(n, i) == <<"field", n, i>>
PElem(i) == <<"elem", <<>>, i>>
PMval(i) == <<"mval", <<>>, i>>
SessionVec(f, h, script) ==
  Out([op |-> "session", h |-> h, gv |-> f.gv, b |-> EncFile(f), st |-> Play(f, [gv |-> f.gv, b |-> EncFile(f)], h, script, <<>>)])
Hu(f, g) == LET a == HintsOf(f.ps)  b == HintsOf(g.ps) IN a \o SelectSeq(b, LAMBDA x : ~\E i \in 1..Len(a) : a[i][1] = x[1])

\* the next leaf of the same kind
SameKind(p, q) == p.k = q.k /\ (p.k = "Struct" => p.sv.k = q.sv.k /\ p.tn = q.tn) /\ (p.k = "Unknown" => p.ty = q.ty)
RECURSIVE NextLeaf(_, _, _)
NextLeaf(ls, j, i) == LET q == ls[(i % Len(ls)) + 1] IN IF SameKind(q, ls[j]) /\ q # ls[j] THEN q ELSE IF (i % Len(ls)) + 1 = j THEN ls[j] ELSE NextLeaf(ls, j, i + 1)
Other(h, j) == NextLeaf(LeafTab[h], j, j)

\* 1: leaves in struct contexts
SPath(c) == CASE c \in {1, 2} -> <<PTop(NX)>> [] c = 3 -> <<PTop(S("O")), PField(NX, 0)>> [] c = 4 -> <<PTop(S("O")), PField(NX, 1)>>
              [] c = 5 -> <<PTop(S("O")), PField(S("P"), 0), PField(S("Q"), 0), PField(NX, 0)>>
              [] c = 6 -> <<PTop(S("O")), PElem(2), PField(NX, 0)>> [] c = 7 -> <<PTop(S("O")), PElem(1), PField(NX, 1)>>
              [] c = 8 -> <<PTop(S("O")), PMval(0), PField(NX, 0)>>
              [] c = 9 -> <<PTop(S("O")), PMval(0), PField(S("In"), 0), PElem(0), PField(NX, 0)>>
CtxNo(c) == IF c = 9 THEN 10 ELSE c
Item1(i) ==
  LET j == (i % NLeaf) + 1  c == (i \div NLeaf) + 1  h == ((j + 3 * c) % NH) + 1  p == LeafTab[h][j]  q == Other(h, j)
      f == File(Hdrs[h], SimpleCtx(CtxNo(c), p))  path == SPath(c)  e == AEdit(path, ESet(q))
  IN SessionVec(f, HintsOf(f.ps), <<e, ASave, ALoad, AJson, AEdit(path, ESet(p)), ASave, AClone(path, ESet(q)), ALoad, e, ALoad, ASave>>)
\* 2: leaves as elements and entries
EPath(c) == CASE c = 1 -> <<PTop(NX), PElem(0)>> [] c = 2 -> <<PTop(NX), PElem(1)>> [] c = 3 -> <<PTop(NX), PElem(0)>> [] c = 4 -> <<PTop(S("O")), PField(NX, 0), PElem(2)>>
              [] c = 5 -> <<PTop(NX), PMval(1)>> [] c \in {7, 8} -> <<PTop(NX), PMval(0)>> [] c = 9 -> <<PTop(NX), PMval(1)>>
              [] c = 10 -> <<PTop(S("O")), PElem(0), PField(NX, 0), PMval(0)>> [] c = 13 -> <<PTop(NX), PMval(0)>>
ECtxs == <<1, 2, 3, 4, 5, 7, 8, 9, 10, 13>>
Item2(i) ==
  LET j == (i % NLeaf) + 1  c == ECtxs[(i \div NLeaf) + 1]  h == ((j + 3 * c) % NH) + 1  p == LeafTab[h][j]  o == Other(h, j)
      q == IF p.k = "Unknown" /\ Len(o.raw) # Len(p.raw) THEN p ELSE o
      f == File(Hdrs[h], ElemCtx(c, p))  path == EPath(c)  e == AEdit(path, ESet(HL(q)))
  IN IF ~Proper(f) THEN TRUE
     ELSE SessionVec(f, HintsOf(f.ps), <<e, ASave, ALoad, AEdit(path, ESet(HL(p))), ASave, AJson, AClone(path, ESet(HL(q))), ALoad, e, AJson, ASave>>)
\* 3: lists grow and shrink
Item3(i) ==
  LET kd == ElemKinds[(i % NEK) + 1]  set == (i \div NEK) % 2  n == <<1, 2, 5>>[(i \div (2 * NEK)) + 1]
      X == IF set = 1 THEN SetOf(kd, n) ELSE ArrOf(kd, n)
      f == File(Hdrs[(i % NH) + 1], << <<S("A"), IntP(1)>>, <<NX, X>>, <<S("Z"), StrP(S("z"))>> >>)
      pth == <<PTop(NX)>>  pu == AEdit(pth, EPush(ElemOf(kd, 7)))  po == AEdit(pth, EPop)
      h0 == HintsOf(f.ps)
  IN IF kd = "ByteNs" /\ n = 1 THEN TRUE ELSE     \* emptied, it would be loaded as plain bytes
     SessionVec(f, h0, <<pu, ASave, ALoad, po, po, ASave, ALoad>> \o (IF n = 1 THEN <<pu, pu>> ELSE <<po, pu>>) \o <<AJson, ASave, AEdit(pth, ESet(X)), AClone(pth, EPop), ASave, ALoad, ASave>>)
\* 4: map entries of every kind
Item4(i) ==
  LET kk == MapKinds[(i % NMK) + 1]  vk == MapKinds[((i \div NMK) % NMK) + 1]
      m == MapOf(kk, vk, 2)  pth == <<PTop(NX)>>
      f == File(Hdrs[(i % NH) + 1], << <<NX, m>>, <<S("Z"), IntP(1)>> >>)
      k1 == m.kvs[1][1]  k2 == m.kvs[2][1]  v3 == ElemOf(vk, 5)
      pu(k) == AEdit(pth, EPutK(k, v3))
  IN SessionVec(f, HintsOf(f.ps), <<pu(k1), ASave, ALoad, AEdit(pth, EDelK(k1)), ASave, pu(k1), AEdit(<<PTop(NX), PMval(0)>>, ESet(v3)), ASave, ALoad, AEdit(pth, EDelK(k2)), AEdit(pth, EDelK(k1)), ASave, ALoad, pu(k2), AClone(pth, EDelK(k2)), ASave>>)
\* 5: fields, top-level properties, header, container kind
Gvs == <<"Default", "None", "Zlib", "ZlibTwice">>
Item5(i) ==
  LET j == (i % NLeaf) + 1  h == ((j + i \div NLeaf) % NH) + 1  p == LeafTab[h][j]  q == Other(h, j)
      f == File(Hdrs[h], << <<S("A"), IntP(1)>>, <<S("O"), StructP(Custom(<< <<S("a"), <<IntP(1)>> >>, <<S("b"), <<IntP(2), IntP(3)>> >> >>), G1)>>, <<S("Z"), StrP(S("z"))>> >>)
      O == <<PTop(S("O"))>>  g1 == Gvs[(j % 4) + 1]  g2 == Gvs[((j \div 4) % 4) + 1]
      hd == [Hdrs[h] EXCEPT !.cls = Pick(StrPool, j), !.br = Pick(StrPool, j + 3), !.cl = Pick(Ints(4), j), !.maj = Pick(Ints(2), j), !.min = Pick(Ints(2), j + 1), !.pat = Pick(Ints(2), j + 2), !.cvs = Append(@, <<GHalf, Pick(Ints(4), j)>>)]
  IN SessionVec(f, <<>>, <<AEdit(O, EPutF(NX, <<p, q>>)), ASave, AEdit(<<>>, EPutTop(NX, p)), ASave, ALoad, AEdit(O, EDelF(S("a"))), AEdit(O, EPutF(S("b"), <<q>>)), ASave, ALoad, AEdit(<<>>, EPutTop(S("A"), q)),
                           AEdit(<<>>, EPack(g1)), ASave, ALoad, AJson, AEdit(<<>>, EHdr(hd)), ASave, ALoad, AEdit(<<>>, EDelTop(S("O"))), AEdit(<<PTop(NX)>>, ESet(q)), AEdit(<<>>, EPack(g2)), ASave, AJson, ALoad,
                           AClone(<<>>, EDelTop(NX)), AEdit(<<>>, EDelTop(S("A"))), AEdit(<<>>, EPutTop(S("A"), IntP(5))), ASave, ALoad>>)
SegsDef == <<9 * NLeaf, 10 * NLeaf, 6 * NEK, NMK * NMK, IF Thorough THEN 6 * NLeaf ELSE 2 * NLeaf>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN
           CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2]) [] s[1] = 3 -> Item3(s[2]) [] s[1] = 4 -> Item4(s[2]) [] s[1] = 5 -> Item5(s[2])
Init == InitC(Total, 6) /\ SInit
Next == NextC(Total, 6, Emit) /\ UNCHANGED <<mem, disk>>
=============================================================================
