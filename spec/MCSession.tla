----------------------------- MODULE MCSession -----------------------------
(* The session machine by itself: all reachable states over the small files of GenSession, with lists of bounded length *)
EXTENDS GenSession
MEdit == \E n \in 1..Len(SEdits(init)) : LET pe == SEdits(init)[n] IN Edit(pe[1], pe[2])
MClone == \E n \in 1..Len(SEdits(init)) : LET pe == SEdits(init)[n] IN CloneEdit(pe[1], pe[2])
MSave == Save
MLoad == Load(<<>>)
MJson == Json
NextM == UNCHANGED <<ch, done, hist, init>> /\ (MEdit \/ MClone \/ MSave \/ MLoad \/ MJson)
Small == \A i \in 1..Len(mem[1].ps) : mem[1].ps[i][2].k \in {"Array", "Set"} => Len(mem[1].ps[i][2].es) <= 2
SpecM == InitS /\ [][NextM]_<<mem, disk, ch, done, hist, init>>
\* only saving changes the disk, and it then holds the encoding of memory; only loading and editing change memory
SavedIsMem == [][disk' # disk => disk'[1].b = EncFile(mem[1]) /\ mem' = mem]_<<mem, disk>>
=============================================================================
