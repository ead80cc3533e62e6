------------------------------ MODULE MCIndep ------------------------------
(***************************************************************************)
(* Several readers side by side: each has its own source, its own hints    *)
(* and its own state, any of them may take the next step at any time, and  *)
(* one that has ended starts on the next save.  Whatever the others do and *)
(* whatever was read before, a reader ends as it would have alone, and     *)
(* none ever waits for another.  GenIndep arranges calls of the            *)
(* implementation in the same ways.                                        *)
(***************************************************************************)
EXTENDS Faults, IOUtils

CONSTANT N
VARIABLES src,      \* reader -> save
          rds       \* reader -> reader machine

DeepI == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
\* saves: whole, damaged in one field, cut; with hints and without
SavesDef ==
  LET fs == SelectSeq(<<FDoc(7), FDoc(150), FDoc(333), FamN(5), FamN(100), FamN(222), File(Hdrs[2], << <<S("X"), IntP(1)>>, <<S("Y"), StrP(S("y"))>> >>)>> \o (IF DeepI THEN <<FDoc(40), FDoc(220), FamN(77)>> ELSE <<>>), Proper)
      of(f) == LET t == FileT(f)  b == Flat(t)  h == HintsOf(f.ps)  lo == NHdrTok(f)
                   j == CHOOSE j \in (lo + 1)..Len(t) : Repl(t[j]) # <<>> /\ j > lo + (Len(t) - lo) \div 3 /\ \A k \in (lo + 1)..(j - 1) : k > lo + (Len(t) - lo) \div 3 => Repl(t[k]) = <<>>
               IN << [b |-> b, h |-> h], [b |-> b, h |-> <<>>], [b |-> Mut(b, Off(t, j), Len(t[j].b), Repl(t[j])[1]), h |-> h], [b |-> SubSeq(b, 1, (Len(b) * 9) \div 10), h |-> h] >>
  IN Cat(MapS(of, fs))
ASSUME TLCSet(160, SavesDef)
Saves == TLCGet(160)
NSv == Len(Saves)
AloneDef == Tup([i \in 1..NSv |-> Run(StartFile(0), Saves[i].b, Saves[i].h)])
ASSUME TLCSet(161, AloneDef)
Alone == TLCGet(161)
\* the saves do differ in how reading them ends
ASSUME Cardinality({Alone[i].e : i \in 1..NSv}) >= 4

IInit == src \in [1..N -> 1..NSv] /\ rds = [r \in 1..N |-> StartFile(0)]
StepOf(r) == /\ rds[r].st = "run"
             /\ rds' = [rds EXCEPT ![r] = Step(rds[r], Saves[src[r]].b, Saves[src[r]].h)]
             /\ UNCHANGED src
Again(r) == /\ rds[r].st # "run"
            /\ src' = [src EXCEPT ![r] = (@ % NSv) + 1]
            /\ rds' = [rds EXCEPT ![r] = StartFile(0)]
INext == \E r \in 1..N : StepOf(r) \/ Again(r)
ivars == <<src, rds>>
ISpec == IInit /\ [][INext]_ivars

AsAlone == \A r \in 1..N : rds[r].st # "run" => rds[r] = Alone[src[r]]
NoWaiting == \A r \in 1..N : rds[r].st # "run" \/ Step(rds[r], Saves[src[r]].b, Saves[src[r]].h) # rds[r]
OnlyOne == [][\E r \in 1..N : \A q \in 1..N : q # r => rds'[q] = rds[q] /\ src'[q] = src[q]]_ivars
=============================================================================
