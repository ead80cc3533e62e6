----------------------------- MODULE GenSession -----------------------------
(***************************************************************************)
(* All sessions of bounded length over small files: the actions of Session *)
(* with a history.  Every reachable history is printed with what memory    *)
(* and disk then hold (its prefixes are printed as well), and the promises *)
(* of Session are invariants of the state graph.                           *)
(***************************************************************************)
EXTENDS GenEdit

VARIABLES hist, init

Txt1 == [k |-> "Text", x |-> Txt(LE4(1), [k |-> "Base", ns |-> <<>>, key |-> <<S("k")>>, src |-> <<S("v")>>])]
SFiles == <<
  File(Hdrs[1], << <<S("A"), IntP(1)>>, <<S("O"), StructP(Custom(<< <<S("a"), <<IntP(1), StrP(S("x"))>> >> >>), G1)>>, <<S("M"), MapP(TStr, TInt, Zero4, << <<StrP(S("k")), IntP(1)>> >>)>> >>),
  File(Hdrs[4], << <<S("S"), StrP(S("x"))>>, <<S("L"), SArr(S("L"), SCust, Zero16, <<Custom(<< <<S("a"), <<NameP(S("n"))>> >> >>)>>)>>, <<S("T"), SetP(TInt, Zero4, <<IntP(5)>>)>>, <<S("S2"), Txt1>> >>) >>
SEdits(i) ==
  CASE i = 1 -> << <<<<PTop(S("A"))>>, ESet(IntP(70000))>>, << <<PTop(S("O")), PField(S("a"), 1)>>, ESet(StrP(<<26085>>))>>, <<<<PTop(S("O"))>>, EPutF(S("b"), <<BoolP(1)>>)>>,
                   <<<<PTop(S("M"))>>, EPutK(StrP(S("l")), IntP(2))>>, <<<<PTop(S("M"))>>, EDelK(StrP(S("k")))>>, << <<>>, EPutTop(S("N"), BoolP(1))>>, << <<>>, EDelTop(S("A"))>> >>
    [] i = 2 -> << <<<<PTop(S("S"))>>, ESet([k |-> "Str", o |-> <<>>])>>, << <<PTop(S("L")), PElem(0), PField(S("a"), 0)>>, ESet([k |-> "Name", ai |-> LE4(3), o |-> <<S("long name")>>])>>,
                   <<<<PTop(S("L"))>>, EPush(SvP(Custom(<<>>)))>>, <<<<PTop(S("L"))>>, EPop>>, <<<<PTop(S("T"))>>, EPush(IntP(6))>>, << <<>>, EPack("ZlibTwice")>>, << <<>>, EHdr([Hdrs[4] EXCEPT !.cls = S("other")])>> >>
MaxLen == IF Thorough THEN 5 ELSE 4
\* the last step carries the expectation
WithX(s, m, d) == IF s.a \in {"edit", "cloneedit"} THEN [a |-> s.a, p |-> s.p, e |-> s.e, f |-> m, b |-> d] ELSE [a |-> s.a, f |-> m, b |-> d]
Show(s) == /\ hist' = Append(hist, s) /\ init' = init
           /\ Out([op |-> "session", h |-> <<>>, gv |-> "Default", b |-> EncFile(SFiles[init]), st |-> Append(hist, WithX(s, mem'[1], disk'[1].b))])
InitS == /\ ch = 0 /\ done = FALSE /\ hist = <<>> /\ init \in 1..2
         /\ mem = <<SFiles[init]>> /\ disk = <<[gv |-> "Default", b |-> EncFile(SFiles[init])]>>
DoEdit == \E n \in 1..Len(SEdits(init)) : LET pe == SEdits(init)[n] IN Edit(pe[1], pe[2]) /\ Show(AEdit(pe[1], pe[2]))
DoClone == LET pe == SEdits(init)[1] IN CloneEdit(pe[1], pe[2]) /\ Show(AClone(pe[1], pe[2]))
DoSave == Save /\ Show(ASave)
DoLoad == Load(<<>>) /\ Show(ALoad)
DoJson == Json /\ Show(AJson)
NextS == /\ Len(hist) < MaxLen /\ UNCHANGED <<ch, done>>
         /\ (DoEdit \/ DoClone \/ DoSave \/ DoLoad \/ DoJson)
Survives == RoundTrip(mem[1], <<>>)
EditsLocal == \A n \in 1..Len(SEdits(init)) : LET pe == SEdits(init)[n] IN CanEdit(mem[1], pe[1], pe[2]) => Local(mem[1], pe[1], pe[2]) /\ Beside(mem[1], pe[1], pe[2])
\* what is on disk is what was in memory at some point: it can always be loaded
DiskLoads == LoadReply(disk[1], <<>>).r = "ok"
=============================================================================
