------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A user's session with a save: the file in memory, the file on disk, and *)
(* the calls that move between them.  A call is atomic (the library is     *)
(* sequential), so each is one action; its reply is determined by the      *)
(* state.  Locations are sequences of steps <<kind, name, index>>:         *)
(*   top NAME, field NAME i, elem i, mval i (indexes count from 0).        *)
(* Edits e (through the typed accessors):                                  *)
(*   set v, push v, pop          a value, a list's end                     *)
(*   putk key v, delk key        an entry of a map                         *)
(*   putf nm ps, delf nm         a field of a struct                       *)
(*   puttop nm v, deltop nm, hdr h, pack gv    the file itself             *)
(***************************************************************************)
EXTENDS GvasDec

VARIABLES mem,       \* <<>> or <<file>>
          disk       \* <<>> or <<[gv, b]>>, b being the plain bytes (the container's content)

HasName(m, nm) == \E i \in 1..Len(m) : m[i][1] = nm
IdxName(m, nm) == CHOOSE i \in 1..Len(m) : m[i][1] = nm
Without(m, i) == SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m))
IsCustom(p) == p.k \in {"Struct", "SV"} /\ p.sv.k = "Custom"

-----------------------------------------------------------------------------
(* Locations *)
RECURSIVE AtP(_, _)
AtP(p, path) ==          \* <<>> if there is nothing
  IF path = <<>> THEN <<p>>
  ELSE LET s == Head(path)  rest == Tail(path) IN
       CASE s[1] = "field" -> IF IsCustom(p) /\ HasName(p.sv.fs, s[2])
                              THEN LET ps == p.sv.fs[IdxName(p.sv.fs, s[2])][2] IN IF s[3] < Len(ps) THEN AtP(ps[s[3] + 1], rest) ELSE <<>>
                              ELSE <<>>
         [] s[1] = "elem" -> IF p.k \in {"Array", "Set"} /\ s[3] < Len(p.es) THEN AtP(p.es[s[3] + 1], rest) ELSE <<>>
         [] s[1] = "mval" -> IF p.k = "Map" /\ s[3] < Len(p.kvs) THEN AtP(p.kvs[s[3] + 1][2], rest) ELSE <<>>
AtF(f, path) == IF path # <<>> /\ HasName(f.ps, path[1][2]) THEN AtP(f.ps[IdxName(f.ps, path[1][2])][2], Tail(path)) ELSE <<>>

CanEditP(p, e) ==
  CASE e.e = "set" -> p.k = e.v.k
    [] e.e = "push" -> p.k = "Set" \/ (p.k = "Array" /\ p.w \in {"Properties", ArrayForm(p.et, p.f, Append(p.es, e.v))})
    [] e.e = "pop" -> p.k \in {"Array", "Set"} /\ p.es # <<>>
    [] e.e \in {"putk", "delk"} -> p.k = "Map"
    [] e.e \in {"putf", "delf"} -> IsCustom(p)
    [] OTHER -> FALSE
EditP(p, e) ==
  CASE e.e = "set" -> e.v
    [] e.e = "push" -> [p EXCEPT !.es = Append(@, e.v)]
    [] e.e = "pop" -> [p EXCEPT !.es = SubSeq(@, 1, Len(@) - 1)]
    [] e.e = "putk" -> [p EXCEPT !.kvs = PutKey(@, e.key, e.v)]
    [] e.e = "delk" -> [p EXCEPT !.kvs = SelectSeq(@, LAMBDA kv : ~SameKey(kv[1], e.key))]
    [] e.e = "putf" -> [p EXCEPT !.sv.fs = Put(@, e.nm, e.ps)]
    [] e.e = "delf" -> [p EXCEPT !.sv.fs = SelectSeq(@, LAMBDA kv : kv[1] # e.nm)]
RECURSIVE UpdP(_, _, _)
UpdP(p, path, e) ==
  IF path = <<>> THEN EditP(p, e)
  ELSE LET s == Head(path)  rest == Tail(path) IN
       CASE s[1] = "field" -> LET i == IdxName(p.sv.fs, s[2]) IN [p EXCEPT !.sv.fs[i][2][s[3] + 1] = UpdP(@, rest, e)]
         [] s[1] = "elem" -> [p EXCEPT !.es[s[3] + 1] = UpdP(@, rest, e)]
         [] s[1] = "mval" -> [p EXCEPT !.kvs[s[3] + 1][2] = UpdP(@, rest, e)]
FileEdits == {"puttop", "deltop", "hdr", "pack"}
CanEdit(f, path, e) == IF path = <<>> THEN e.e \in FileEdits ELSE LET p == AtF(f, path) IN p # <<>> /\ CanEditP(p[1], e)
EditF(f, path, e) ==
  IF path = <<>>
  THEN CASE e.e = "puttop" -> [f EXCEPT !.ps = Put(@, e.nm, e.v)]
         [] e.e = "deltop" -> [f EXCEPT !.ps = SelectSeq(@, LAMBDA x : x[1] # e.nm)]
         [] e.e = "hdr" -> [f EXCEPT !.hdr = e.h]
         [] e.e = "pack" -> [f EXCEPT !.gv = e.gv]
  ELSE LET i == IdxName(f.ps, path[1][2]) IN [f EXCEPT !.ps[i][2] = UpdP(@, Tail(path), e)]

-----------------------------------------------------------------------------
(* Replies *)
SaveReply(f) == IF FileW(f) THEN [r |-> "ok", b |-> EncFile(f)] ELSE [r |-> "err"]
LoadReply(d, h) == ReadFile(d.b, h, d.gv)

(* Actions *)
SInit == mem = <<>> /\ disk = <<>>
New(f) == mem' = <<f>> /\ UNCHANGED disk
Edit(path, e) == mem # <<>> /\ CanEdit(mem[1], path, e) /\ mem' = <<EditF(mem[1], path, e)>> /\ UNCHANGED disk
SaveR(r) == /\ mem # <<>> /\ UNCHANGED mem
            /\ IF r.r = "ok" THEN disk' = <<[gv |-> mem[1].gv, b |-> r.b]>> ELSE UNCHANGED disk
Save == SaveR(SaveReply(mem[1]))
LoadR(r) == /\ disk # <<>> /\ UNCHANGED disk
            /\ IF r.r = "ok" THEN mem' = <<r.file>> ELSE UNCHANGED mem
Load(h) == LoadR(LoadReply(disk[1], h))
\* export and import of the whole file (finite numbers), a copy that is edited and dropped, a read through an accessor
Json == mem # <<>> /\ UNCHANGED <<mem, disk>>
CloneEdit(path, e) == mem # <<>> /\ CanEdit(mem[1], path, e) /\ UNCHANGED <<mem, disk>>
Get(path) == mem # <<>> /\ AtF(mem[1], path) # <<>> /\ UNCHANGED <<mem, disk>>
\* the environment: the bytes on disk are replaced
Damage(b) == disk # <<>> /\ disk' = <<[gv |-> disk[1].gv, b |-> b]>> /\ UNCHANGED mem

-----------------------------------------------------------------------------
(* Calls that only report something *)
\* byte counts reported when the header and each property (tagged, untagged) are written by themselves
CountReply(f) == LET g == Gates(f.hdr.cvs) IN
                 [h |-> TLen(HeaderT(f.hdr)), ps |-> Tup([i \in 1..Len(f.ps) |-> <<TLen(PropT(f.ps[i][2], g)), TLen(BodyT(f.ps[i][2], g))>>])]
\* whether two properties are equal
EqReply(x, y) == IF x.k = y.k /\ Canon(x) = Canon(y) THEN 1 ELSE 0
\* construction from elements
ArrayReply(et, f, es) == LET p == MkArray(et, f, es) IN IF p.w = "ERR" THEN [r |-> "err"] ELSE [r |-> "ok", v |-> p]
MapReply(kt, vt, af, kvs) == [r |-> "ok", v |-> MkMap(kt, vt, af, kvs)]
\* the environment makes a save or a load fail: the caller is told, and nothing changes
SaveFails == mem # <<>> /\ UNCHANGED <<mem, disk>>
LoadFails == disk # <<>> /\ UNCHANGED <<mem, disk>>

-----------------------------------------------------------------------------
(* What is promised *)
\* a savable file survives saving and loading
RoundTrip(f, h) == FileW(f) => LET b == EncFile(f)  r == ReadFile(b, h, f.gv) IN r.r = "ok" /\ r.file = f /\ r.p = Len(b) - 4
\* where a top-level property lies in the file: bytes from .. to - 1
SpanOf(f, i) == LET g == Gates(f.hdr.cvs)  len(j) == TLen(StrT(f.ps[j][1]) \o PropT(f.ps[j][2], g))
                    from == TLen(HeaderT(f.hdr)) + FoldLeft(LAMBDA a, j : a + len(j), 0, Tup([j \in 1..(i - 1) |-> j]))
                IN <<from, from + len(i)>>
\* an edit inside a top-level property changes no byte outside of it
Local(f, path, e) ==
  path = <<>> \/
  LET i == IdxName(f.ps, path[1][2])  f2 == EditF(f, path, e)  b == EncFile(f)  b2 == EncFile(f2)  s == SpanOf(f, i)  s2 == SpanOf(f2, i)
  IN FileW(f2) => /\ s[1] = s2[1] /\ SubSeq(b, 1, s[1]) = SubSeq(b2, 1, s[1])
                  /\ SubSeq(b, s[2] + 1, Len(b)) = SubSeq(b2, s2[2] + 1, Len(b2))
\* and no value beside it
Beside(f, path, e) ==
  path = <<>> \/ LET f2 == EditF(f, path, e) IN
                 f2.hdr = f.hdr /\ Len(f2.ps) = Len(f.ps) /\ \A i \in 1..Len(f.ps) : f2.ps[i][1] = f.ps[i][1] /\ (f.ps[i][1] # path[1][2] => f2.ps[i] = f.ps[i])
=============================================================================
