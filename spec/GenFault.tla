------------------------------ MODULE GenFault ------------------------------
(***************************************************************************)
(* Single-field damage: which tokens (kinds), what is expected             *)
(*   x = "any"  only that reading returns                                  *)
(*       "r"    accepted or rejected as specified, and the value if        *)
(*              accepted                                                   *)
(*       "full" also the error                                             *)
(* The specification itself is checked on every damaged file: what it      *)
(* accepts must be writable, and re-saving must be stable (C18).           *)
(***************************************************************************)
EXTENDS GenBase, Faults

ASSUME TLCSet(140, JsonDeserialize(IOEnv.PARAMS))
P == TLCGet(140)          \* [mode, kinds, x, stable, mem, hdr, every]
KindSetDef == {P.kinds[i] : i \in 1..Len(P.kinds)}
ASSUME TLCSet(141, KindSetDef)
KindSet == TLCGet(141)

Expect(m, h, d0) ==
  IF P.x = "any" /\ P.stable = 0 THEN [r |-> "any"]
  ELSE LET r == ReadFile(m, h, "Default") IN
       IF r.r = "ok"
       THEN LET f2 == r.file  b2 == EncFile(f2)  r2 == ReadFile(b2, h, "Default") IN
            IF /\ Must(FileW(f2), <<"accepted but not writable", d0, f2>>)
               /\ Must(r2.r = "ok" /\ r2.file = f2, <<"re-saving is not stable", d0, f2, r2>>)
            THEN IF P.x = "any" THEN [r |-> "any"] ELSE IF P.x = "r" THEN [r |-> "ok", file |-> f2] ELSE [r |-> "ok"]
            ELSE [r |-> "any"]
       ELSE IF P.x = "any" THEN [r |-> "any"] ELSE IF P.x = "r" THEN [r |-> "err"] ELSE [r |-> "err", e |-> r.e]

MutsOf(f, b, h, toks, lo, hi) ==
  Cat([i \in 1..(hi - lo + 1) |->
        LET t == toks[lo + i - 1]  a == Off(toks, lo + i - 1) IN
        IF t.t \notin KindSet THEN <<>>
        ELSE LET rs == Repl(t)
             IN Tup([j \in 1..Len(rs) |-> [a |-> a, d |-> Len(t.b), i |-> rs[j], x |-> Expect(Mut(b, a, Len(t.b), rs[j]), h, <<f, a, rs[j]>>)]])])

\* every byte of the property part (or of the header) set to other values
ByteVals == <<0, 1, 2, 4, 64, 127, 128, 254, 255>>
ByteMuts(f, b, h, lo, hi) ==
  Cat([i \in 1..(hi - lo) |->
        LET a == lo + i - 1  vs == SelectSeq(ByteVals \o <<Xor1(b[a + 1], 1), Xor1(b[a + 1], 32)>>, LAMBDA x : x # b[a + 1])
        IN Tup([j \in 1..Len(vs) |-> [a |-> a, d |-> 1, i |-> <<vs[j]>>, x |-> Expect(Mut(b, a, 1, <<vs[j]>>), h, <<f, a, vs[j]>>)]])])
\* a byte removed or a byte inserted
ShiftMuts(f, b, h, lo, hi) ==
  Cat([i \in 1..(hi - lo) |->
        LET a == lo + i - 1 IN
        << [a |-> a, d |-> 1, i |-> <<>>, x |-> Expect(Mut(b, a, 1, <<>>), h, <<f, a>>)],
           [a |-> a, d |-> 0, i |-> <<0>>, x |-> Expect(Mut(b, a, 0, <<0>>), h, <<f, a>>)],
           [a |-> a, d |-> 0, i |-> <<b[a + 1]>>, x |-> Expect(Mut(b, a, 0, <<b[a + 1]>>), h, <<f, a>>)] >>])
\* two damaged fields at once, chosen by a small generator seeded with the document and SEED
Lcg(x) == (x * 1103 + 12345) % 65521
RECURSIVE Nth(_, _)
Nth(x, n) == IF n = 0 THEN x ELSE Nth(Lcg(x), n - 1)
Seed0Def == IF "SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.SEED) % 60000 ELSE 1
ASSUME TLCSet(143, Seed0Def)
Seed0 == TLCGet(143)
PairMuts(f, b, h, toks, lo, d, n) ==
  LET idx == SelectSeq(Tup([i \in 1..(Len(toks) - lo + 1) |-> lo + i - 1]), LAMBDA i : toks[i].t \in KindSet /\ Repl(toks[i]) # <<>>) IN
  IF Len(idx) < 2 THEN <<>>
  ELSE Tup([m \in 1..n |->
         LET x0 == Lcg(Nth((d * 131 + m * 977 + Seed0) % 65521, 2))  x1 == Lcg(x0)  x2 == Lcg(x1)  x3 == Lcg(x2)
             a1 == (x0 \div 3) % (Len(idx) - 1)  i1 == idx[a1 + 1]  i2 == idx[a1 + 2 + ((x1 \div 5) % (Len(idx) - a1 - 1))]
             o1 == Off(toks, i1)  o2 == Off(toks, i2)
             r1 == Repl(toks[i1])[((x2 \div 7) % Len(Repl(toks[i1]))) + 1]  r2 == Repl(toks[i2])[((x3 \div 11) % Len(Repl(toks[i2]))) + 1]
             mid == SubSeq(b, o1 + Len(toks[i1].b) + 1, o2)
             ins == r1 \o mid \o r2  del == o2 + Len(toks[i2].b) - o1
         IN [a |-> o1, d |-> del, i |-> ins, x |-> Expect(Mut(b, o1, del, ins), h, <<f, o1, o2>>)]])

\* a whole string replaced by another
StrMuts(f, b, h, toks, lo, hi) ==
  Cat([i \in 1..(hi - lo + 1) |->
        LET t == toks[lo + i - 1]  a == Off(toks, lo + i - 1) IN
        IF t.t # "slen" THEN <<>>
        ELSE LET n == IF lo + i <= hi /\ toks[lo + i].t = "sdat" THEN 4 + Len(toks[lo + i].b) + Len(toks[lo + i + 1].b) ELSE 4
             IN Tup([j \in 1..Len(OtherStrs) |-> [a |-> a, d |-> n, i |-> OtherStrs[j], x |-> Expect(Mut(b, a, n, OtherStrs[j]), h, <<f, a, OtherStrs[j]>>)]])])

\* a size off by a little, by one bit, or by a factor
Deltas == << -100, -64, -32, -24, -20, -17, -16, -12, -9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 24, 32, 64, 100, 1000, 4096>>
SizeVals(v) ==
  LET n == I32(SubSeq(v, 1, 4))  hi == SubSeq(v, 5, Len(v)) IN
  SelectSeq(Tup([j \in 1..Len(Deltas) |-> LE4S(n + Deltas[j]) \o hi]) \o Tup([j \in 1..(8 * Len(v)) |-> SetB(v, (j - 1) \div 8 + 1, Xor1(v[(j - 1) \div 8 + 1], 2 ^ ((j - 1) % 8)))]) \o <<LE4S(2 * n) \o hi, LE4(n \div 2) \o hi, Zero4 \o hi>>,
            LAMBDA x : x # v)
SizeMuts(f, b, h, toks, lo, hi) ==
  Cat([i \in 1..(hi - lo + 1) |->
        LET t == toks[lo + i - 1]  a == Off(toks, lo + i - 1) IN
        IF t.t \notin {"len", "size"} \/ I32(SubSeq(t.b, 1, 4)) >= 1000000 THEN <<>>
        ELSE LET rs == SizeVals(t.b) IN Tup([j \in 1..Len(rs) |-> [a |-> a, d |-> Len(t.b), i |-> rs[j], x |-> Expect(Mut(b, a, Len(t.b), rs[j]), h, <<f, a, rs[j]>>)]])])

Emit(i) ==
  LET d == i * P.every  f == IF P.hdr = 1 THEN FamH(d) ELSE FDocA(d)  toks == FileT(f)  b == Flat(toks)  h == HintsOf(f.ps)  n == NHdrTok(f)
      cut == Off(toks, n + 1)
      ms == CASE P.mode = "tok" -> IF P.hdr = 1 THEN MutsOf(f, b, h, toks, 1, n) ELSE MutsOf(f, b, h, toks, n + 1, Len(toks))
              [] P.mode = "str" -> IF P.hdr = 1 THEN StrMuts(f, b, h, toks, 1, n) ELSE StrMuts(f, b, h, toks, n + 1, Len(toks))
              [] P.mode = "size" -> SizeMuts(f, b, h, toks, n + 1, Len(toks))
              [] P.mode = "byte" -> IF P.hdr = 1 THEN ByteMuts(f, b, h, 0, cut) ELSE ByteMuts(f, b, h, cut, Len(b))
              [] P.mode = "shift" -> IF P.hdr = 1 THEN ShiftMuts(f, b, h, 0, cut) ELSE ShiftMuts(f, b, h, cut, Len(b))
              [] P.mode = "pair" -> PairMuts(f, b, h, toks, IF P.hdr = 1 THEN 1 ELSE n + 1, d, IF Thorough THEN 1500 ELSE 80)
  IN IF ~Proper(f) \/ ms = <<>> THEN TRUE
     ELSE Out([op |-> "muts", b |-> b, h |-> h, gv |-> "Default", mem |-> P.mem, stable |-> P.stable, ms |-> ms])
TotalDef == ((IF P.hdr = 1 THEN NHF ELSE NFA) + P.every - 1) \div P.every
ASSUME TLCSet(142, TotalDef)
Total == TLCGet(142)
Init == InitC(Total, 3)
Next == NextC(Total, 3, Emit)
=============================================================================
