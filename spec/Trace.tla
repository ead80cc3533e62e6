------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Judges sessions recorded from the library (gvas-harness record): every  *)
(* event must be an action of Session that is enabled in the state reached *)
(* so far and whose reply is the recorded one.  A trace is accepted when   *)
(* all of its events have been matched; the first event that no action     *)
(* explains is reported.  One initial state per trace, one step per event. *)
(***************************************************************************)
EXTENDS Session, Ctor, Versions, GvasGuid, Json, IOUtils, TLC

VARIABLES tr, at, verdict

ASSUME TLCSet(140, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(140)
N == atoi(IOEnv.NTRACES)
\* how closely replies are compared: "full"; "class" (which error is left open); "any" (only that there is a reply:
\* the state then follows what was recorded)
Exact == "XERR" \in DOMAIN IOEnv /\ IOEnv.XERR = "full"
Loose == "XERR" \in DOMAIN IOEnv /\ IOEnv.XERR = "any"

Ev == Traces[tr].ev[at]

\* the value of a header error is only in its message
SameErr(e, x) == e.k = x.k /\ e.p = x.p /\ e.s = x.s /\ (x.k = "InvalidHeader" \/ e.n = x.n)

\* a property on its own, in the versions of the save in memory
PartSave(p, tg) == LET g == Gates(mem[1].hdr.cvs) IN
                   IF PropW(p, tg, g) THEN [r |-> "ok", b |-> IF tg THEN Flat(PropT(p, g)) ELSE Flat(BodyT(p, g))] ELSE [r |-> "err"]
PartLoad == LET rd == Run(StartProp(Ev.b, Ev.off, Ev.path, Gates(mem[1].hdr.cvs), Ev.ty, Ev.tagged = 1, Ev.sug, Ev.h), Ev.b, Ev.h)
            IN IF rd.st = "ok" THEN [r |-> "ok", v |-> rd.val, p |-> rd.p] ELSE [r |-> "err", e |-> rd.e]

\* the reply Session gives to the event in this state
Recorded == CASE Ev.r # "ok" -> [r |-> Ev.r] [] Ev.a = "save" -> [r |-> "ok", b |-> Ev.b] [] Ev.a = "load" -> [r |-> "ok", file |-> Ev.f]
Reply ==
  CASE Loose /\ Ev.a \in {"save", "load"} -> Recorded
    [] Ev.a = "save" /\ mem # <<>> -> SaveReply(mem[1])
    [] Ev.a = "load" /\ disk # <<>> -> LoadReply(disk[1], Ev.h)
    [] Ev.a = "damage" /\ disk # <<>> -> [r |-> "ok"]
    [] Ev.a = "new" -> [r |-> "ok"]
    [] Ev.a \in {"edit", "cloneedit"} /\ mem # <<>> -> IF CanEdit(mem[1], Ev.p, Ev.e) THEN [r |-> "ok"] ELSE [r |-> "refused"]
    [] Ev.a = "json" /\ mem # <<>> -> [r |-> "ok", f |-> mem[1]]
    [] Ev.a = "get" /\ mem # <<>> -> LET v == AtF(mem[1], Ev.p) IN IF v = <<>> THEN [r |-> "refused"] ELSE [r |-> "ok", v |-> v[1]]
    [] Ev.a = "count" /\ mem # <<>> -> [r |-> "ok", c |-> CountReply(mem[1])]
    [] Ev.a = "eq" -> [r |-> "ok", eq |-> EqReply(Ev.x, Ev.y)]
    [] Ev.a = "array" -> ArrayReply(Ev.et, Ev.f, Ev.es)
    [] Ev.a = "map" -> MapReply(Ev.kt, Ev.vt, Ev.af, Ev.kvs)
    [] Ev.a = "guidtext" -> [r |-> "ok", s |-> GuidText(Ev.g)]
    [] Ev.a = "guidparse" -> GuidParse(Ev.s)
    [] Ev.a = "partsave" /\ mem # <<>> -> PartSave(Ev.x, Ev.tagged = 1)
    [] Ev.a = "partload" /\ mem # <<>> -> PartLoad
    [] Ev.a = "make" -> [r |-> "ok", v |-> IF Ev.f = "convert" THEN Ev.x ELSE Make(Ev.f, Ev.args)]
    [] Ev.a = "engine" -> [r |-> "ok", name |-> EngineName(Ev.e.maj[1] + 256 * Ev.e.maj[2], Ev.e.min[1] + 256 * Ev.e.min[2]), s |-> EngineText(Ev.e)]
    [] Ev.a = "version" -> [r |-> "ok", v |-> VersionOf(Ev.cvs, Ev.s), g |-> Stream[Ev.s].guid,
                            sup |-> Tup([i \in 1..Len(Ev.asked) |-> IF Supports(Ev.cvs, Ev.s, Ev.asked[i]) THEN 1 ELSE 0])]
    [] Ev.a = "savefail" /\ mem # <<>> -> [r |-> "err"]
    [] Ev.a = "loadfail" /\ disk # <<>> -> [r |-> "err"]
    [] OTHER -> [r |-> "none"]
Same(r) ==
  CASE Ev.a \in {"new", "damage"} -> r.r = "ok"
    [] Loose /\ Ev.a \in {"save", "load"} -> Ev.r \in {"ok", "err"}
    [] Ev.r # r.r -> FALSE
    [] Ev.a = "save" -> r.r = "ok" => Ev.b = r.b
    [] Ev.a = "load" -> IF r.r = "ok" THEN Ev.f = r.file ELSE (Exact => SameErr(Ev.e, r.e))
    [] Ev.a = "json" -> Ev.f = r.f
    [] Ev.a = "get" -> r.r = "ok" => Ev.v = r.v
    [] Ev.a = "count" -> Ev.h = r.c.h /\ Ev.ps = r.c.ps
    [] Ev.a = "eq" -> Ev.eq = r.eq /\ (r.eq = 1 => Ev.hash = 1)
    [] Ev.a \in {"array", "map"} -> r.r = "ok" => Ev.v = r.v
    [] Ev.a = "guidtext" -> Ev.s = r.s
    [] Ev.a = "partsave" -> r.r = "ok" => Ev.b = r.b /\ Ev.n = Len(r.b)
    [] Ev.a = "partload" -> Ev.left = Ev.path /\ IF r.r = "ok" THEN Ev.v = r.v /\ Ev.p = r.p ELSE (Exact => SameErr(Ev.e, r.e))
    [] Ev.a = "make" -> Ev.v = r.v
    [] Ev.a = "engine" -> Ev.name = r.name /\ Ev.s = r.s
    [] Ev.a = "version" -> Ev.v = r.v /\ Ev.g = r.g /\ Ev.sup = r.sup
    [] Ev.a = "guidparse" -> r.r = "ok" => Ev.g = r.b
    [] OTHER -> TRUE
\* and the action it stands for
Act(r) ==
  CASE Ev.a = "new"       -> New(Ev.f)
    [] Ev.a = "save"      -> SaveR(r)
    [] Ev.a = "load"      -> LoadR(r)
    [] Ev.a = "damage"    -> Damage(Ev.b)
    [] Ev.a = "edit"      -> IF r.r = "ok" THEN Edit(Ev.p, Ev.e) ELSE UNCHANGED <<mem, disk>>
    [] Ev.a = "cloneedit" -> IF r.r = "ok" THEN CloneEdit(Ev.p, Ev.e) ELSE UNCHANGED <<mem, disk>>
    [] Ev.a = "json"      -> Json
    [] Ev.a = "savefail"  -> SaveFails
    [] Ev.a = "loadfail"  -> LoadFails
    [] Ev.a \in {"count", "eq", "array", "map", "guidtext", "guidparse", "partsave", "partload", "make", "engine", "version"} -> UNCHANGED <<mem, disk>>
    [] Ev.a = "get"       -> IF r.r = "ok" THEN Get(Ev.p) ELSE UNCHANGED <<mem, disk>>

TInit == tr \in 1..N /\ at = 1 /\ verdict = "open" /\ SInit
TNext ==
  /\ verdict = "open" /\ tr' = tr
  /\ IF at > Len(Traces[tr].ev)
     THEN PrintT(<<"ACCEPT", tr>>) /\ verdict' = "accept" /\ UNCHANGED <<at, mem, disk>>
     ELSE \E r \in {Reply} :
            IF Same(r) THEN Act(r) /\ at' = at + 1 /\ UNCHANGED verdict
            ELSE PrintT(<<"REJECT", tr, at>>) /\ verdict' = "reject" /\ UNCHANGED <<at, mem, disk>>
=============================================================================
