------------------------------ MODULE GenBase ------------------------------
(***************************************************************************)
(* A generation model enumerates the items 0 .. Total-1 of a check in      *)
(* chunks (one chunk is one initial state, so that TLC's workers share     *)
(* them); its only action evaluates the items of the chunk.  Evaluating an *)
(* item asserts what the specification itself promises for it and prints   *)
(* the vector(s) to be replayed into the implementation.                   *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils

VARIABLES ch, done

ChunkSize == 12
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"

Out(v) == PrintT(ToJson(v))
Must(c, what) == IF c THEN TRUE ELSE Assert(FALSE, what)

\* segments: a tuple of sizes; item i is item j of segment s
SegOf(sizes, i) == LET s == CHOOSE s \in 1..Len(sizes) :
                          LET lo == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(sizes, 1, s - 1)) IN i >= lo /\ i < lo + sizes[s]
                   IN <<s, i - FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(sizes, 1, s - 1))>>
SumS(sizes) == FoldLeft(LAMBDA a, x : a + x, 0, sizes)

\* the same with chunks of cs items, for items that take longer
InitC(total, cs) == ch \in 0..((total + cs - 1) \div cs - 1) /\ done = FALSE
NextC(total, cs, Emit(_)) ==
  /\ ~done /\ done' = TRUE /\ ch' = ch
  /\ \A k \in 0..(cs - 1) : LET i == ch * cs + k IN i < total => Emit(i)
InitG(total) == ch \in 0..((total + ChunkSize - 1) \div ChunkSize - 1) /\ done = FALSE
NextG(total, Emit(_)) ==
  /\ ~done /\ done' = TRUE /\ ch' = ch
  /\ \A k \in 0..(ChunkSize - 1) : LET i == ch * ChunkSize + k IN i < total => Emit(i)

\* bytes that do not compress
Noise(n) == Tup([j \in 1..n |-> (((((j % 997) * (j % 991)) % 65521) * 17 + (j % 983) * (j % 977)) \div 5) % 256])

\* what the specification promises for a canonical save f with encoding b and hints h
Sound(f, b, h) ==
  LET r == ReadFile(b, h, f.gv) IN
  /\ Must(FileW(f), <<"not writable", f>>)
  /\ Must(r.r = "ok", <<"not readable", f, r>>)
  /\ Must(r.file = f, <<"read differently", f, r>>)
  /\ Must(r.p = Len(b) - 4, <<"end marker", f>>)
=============================================================================
