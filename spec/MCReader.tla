------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* The reader on its own: one TLC state per step of the machine, started   *)
(* on whole and on damaged saves (one field replaced).  Checked are the    *)
(* disciplines the other models rely on: the position only moves forward   *)
(* and never past the data, the location path is the one the open frames   *)
(* spell, every step makes progress (so reading ends), a step depends on   *)
(* no byte behind the position it ends at, and an ended reader has closed  *)
(* every frame.                                                            *)
(***************************************************************************)
EXTENDS Faults, IOUtils

VARIABLES src,      \* <<document, token, alternative>>; token 0: undamaged
          rd        \* the reader

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
\* documents: one value of every kind in every sort of place, and nested containers
DEvery == IF Deep THEN 3 ELSE 7
NEvery == IF Deep THEN 4 ELSE 23
DocsDef == LET a == Tup([i \in 1..(NFD \div DEvery) |-> FDoc(i * DEvery)])
               n == Tup([i \in 1..((PoolOff[9] - PoolOff[6]) \div NEvery) |-> Pool(PoolOff[6] + i * NEvery - 1)])
               ok == SelectSeq(a \o n, LAMBDA f : Proper(f) /\ TLen(FileT(f)) < 2500)
           IN Tup([i \in 1..Len(ok) |-> [t |-> FileT(ok[i]), b |-> EncFile(ok[i]), h |-> HintsOf(ok[i].ps), n |-> NHdrTok(ok[i])]])
ASSUME TLCSet(160, DocsDef)
Docs == TLCGet(160)

Bytes(s) == LET d == Docs[s[1]] IN
            IF s[2] = 0 THEN d.b ELSE LET t == d.t[s[2]] IN Mut(d.b, Off(d.t, s[2]), Len(t.b), Repl(t)[s[3]])
Hs(s) == Docs[s[1]].h

MInit == \E d \in 1..Len(Docs) :
           /\ rd = StartFile(0)
           /\ \/ src = <<d, 0, 0>>
              \/ \E j \in (Docs[d].n + 1)..Len(Docs[d].t) :
                   LET n == Len(Repl(Docs[d].t[j])) IN
                   \E a \in 1..n : (Deep \/ (a + j + d) % 5 = 0) /\ src = <<d, j, a>>
MNext == rd.st = "run" /\ rd' = Step(rd, Bytes(src), Hs(src)) /\ src' = src
vars == <<src, rd>>
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)

-----------------------------------------------------------------------------
\* what the frames spell: a frame below the top has a property in progress
Spell(stk) ==
  Cat([i \in 1..Len(stk) |->
        LET f == stk[i]  inside == i < Len(stk) IN
        CASE f.f \in {"top", "cust"} -> IF inside THEN <<f.nm>> ELSE <<>>
          [] f.f \in {"shdr", "hsv"} -> <<TStruct>>
          [] f.f \in {"arr", "sarr"} -> <<TArray>>
          [] f.f = "set" -> <<TSet>>
          [] f.f = "map" -> <<TMap>> \o (IF inside THEN <<IF f.ph = "key" THEN SKey ELSE SValue>> ELSE <<>>)])
Shape == rd.st \in {"run", "ok", "err"} /\ (rd.st = "err") = (rd.e # NoErr) /\ (rd.st # "run" => rd.stk = <<>>)
Within == rd.p <= Len(Bytes(src))
PathSpelled == rd.path = rd.base \o Spell(rd.stk)
\* frames are opened in an order the format allows
Nesting == \A i \in 1..Len(rd.stk) :
             LET f == rd.stk[i].f IN
             IF i = 1 THEN f = "top"
             ELSE LET u == rd.stk[i - 1].f IN
                  CASE f = "top" -> FALSE
                    [] f = "cust" -> u \in {"shdr", "hsv", "sarr"}
                    [] f = "hsv" -> u \in {"set", "map", "arr"}
                    [] f \in {"shdr", "arr", "sarr", "set", "map"} -> u \in {"top", "cust"}
\* what is open started at or before the position, the outer ones first
Starts == LET s == SelectSeq(rd.stk, LAMBDA f : "start" \in DOMAIN f) IN
          \A i \in 1..Len(s) : s[i].start <= rd.p /\ (i > 1 => s[i - 1].start < s[i].start)
\* an undamaged save is read to its end, and what is read is written back
Whole == (src[2] = 0 /\ rd.st # "run") =>
           /\ rd.st = "ok" /\ rd.p = Len(Bytes(src)) - 4
           /\ EncFile([gv |-> "Default", hdr |-> rd.hdr[1], ps |-> rd.val]) = Bytes(src)

\* steps
Rank(r) == 2 * Len(r.stk) + (IF r.stk # <<>> /\ Top(r).f = "cust" THEN 0 ELSE 5)
Forward == [][rd'.p >= rd.p \/ rd'.st = "err"]_vars
Progress == [][rd'.st # "run" \/ rd'.p > rd.p \/ (rd'.p = rd.p /\ Rank(rd') < Rank(rd))]_vars
Local == [][rd'.st # "err" => Step(rd, SubSeq(Bytes(src), 1, rd'.p), Hs(src)) = rd']_vars
\* one property or one end at a time: an unfinished frame's elements only grow by what was delivered
Counting == [][\A i \in 1..Len(rd.stk) :
                 (rd'.st = "run" /\ i <= Len(rd'.stk) /\ "n" \in DOMAIN rd.stk[i] /\ rd'.stk[i].f = rd.stk[i].f
                  /\ "start" \in DOMAIN rd'.stk[i] /\ rd'.stk[i].start = rd.stk[i].start)
                 => rd'.stk[i].n \in {rd.stk[i].n, rd.stk[i].n - 1}]_vars
Ends == <>(rd.st # "run")
=============================================================================
