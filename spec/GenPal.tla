------------------------------- MODULE GenPal -------------------------------
(***************************************************************************)
(* Palworld containers: a record [dlen, clen, magic, kind, payload], where *)
(* the payload is the plain save compressed zero, one or two times.  The   *)
(* compressor itself is an uninterpreted function of the model (the        *)
(* harness uses zlib); what the model fixes is which containers denote     *)
(* which save: magic "PlZ", kind 48..50, and a payload that decompresses   *)
(* to exactly dlen bytes of a valid save.                                  *)
(***************************************************************************)
EXTENDS GenBase, Faults

\* what is expected: "r" accepted or rejected, and the value; "full" also the error, where the container itself is at fault; "any" only that reading returns
P == JsonDeserialize(IOEnv.PARAMS)
ASSUME TLCSet(152, P.x)
How == TLCGet(152)
Gvs == <<"None", "Zlib", "ZlibTwice">>
Kd(gv) == CASE gv = "None" -> 48 [] gv = "Zlib" -> 49 [] OTHER -> 50
ErrX == [r |-> "err"]
\* the model of acceptance; without compression, what follows the announced length is not part of the save, so a smaller
\* length cuts the save: it is rejected unless only the unread trailer is lost
Accepts(c) == c.magic = S("PlZ") /\ c.kind = Kd(c.made) /\ c.intact /\ c.dlen = c.plain
OnlyTrailer(c) == c.made = "None" /\ c.magic = S("PlZ") /\ c.kind = 48 /\ c.intact /\ c.dlen \in (c.plain - 4)..(c.plain - 1)
OkX(f, gv) == [r |-> "ok", file |-> [f EXCEPT !.gv = gv]]
M(gv, level, ed, inner, lax, x) == [gv |-> gv, level |-> level, ed |-> ed, inner |-> inner, lax |-> lax, x |-> IF How = "any" THEN [r |-> "any"] ELSE x]
Rp(a, d, i) == [a |-> a, d |-> d, i |-> i]
Fl(a, d, x) == [a |-> a, d |-> d, x |-> x]
Judge(f, c) == IF Accepts(c) \/ OnlyTrailer(c) THEN OkX(f, c.made)
               ELSE IF How # "full" THEN ErrX
               ELSE IF c.magic # S("PlZ") THEN [r |-> "err", e |-> Err("InvalidHeader", <<>>, 0)]
               ELSE IF c.kind \notin 48..50 THEN [r |-> "err", e |-> Err("InvalidEnumValue", << <<c.kind>> >>, 12)]
               ELSE ErrX

NDoc == IF Thorough THEN 120 ELSE 40
DocNo(i) == LET j == (i * 37) % NPool IN IF Proper(Pool(j)) THEN j ELSE (j + 1) % NPool
\* documents of many sizes: empty, tiny, incompressible, repetitive, over 64 KiB
Sized(i) ==
  CASE i = 0 -> File(MinHd(2, <<>>), <<>>)
    [] i = 1 -> File(Hdrs[1], << <<S("X"), [k |-> "Unknown", ty |-> UnkT, raw |-> Rep(0, 40000)]>> >>)
    [] i = 2 -> File(Hdrs[3], << <<S("X"), [k |-> "Unknown", ty |-> UnkT, raw |-> Tup([j \in 1..40000 |-> (((j * j) % 251) + j * 7) % 256])]>> >>)
    [] i = 3 -> File(Hdrs[2], << <<S("X"), [k |-> "Unknown", ty |-> UnkT, raw |-> Tup([j \in 1..100000 |-> (j * 31 + (j \div 256)) % 256])]>> >>)
    [] i = 4 -> File(Hdrs[2], << <<S("X"), ArrOf("Int", 20000)>>, <<S("Y"), StrP(Wide(3000))>> >>)
    [] i = 5 -> File(Hdrs[1], << <<S("X"), [k |-> "Unknown", ty |-> UnkT, raw |-> Rep(7, 32768)]>>, <<S("Y"), [k |-> "Unknown", ty |-> UnkT, raw |-> Rep(9, 32767)]>> >>)
    [] i = 6 -> File(Hdrs[1], << <<S("X"), [k |-> "Unknown", ty |-> UnkT, raw |-> Tup([j \in 1..70000 |-> (65 + (j % 7))])]>> >>)
    [] i \in 7..11 -> File(Hdrs[1], << <<S("X"), [k |-> "Unknown", ty |-> UnkT, raw |-> Noise(<<900, 3000, 33000, 40001, 70000>>[i - 6])]>>, <<S("Z"), IntP(1)>> >>)
NSz == 12
Src(i) == IF i < NSz THEN Sized(i) ELSE Pool(DocNo(i - NSz))

\* 1: writing, at several positions of the destination
Item1(i) ==
  LET f == Src(i)  b == EncFile(f) IN
  Proper(f) => \A g \in 1..3 : Out([op |-> "pal_write", f |-> [f EXCEPT !.gv = Gvs[g]], b |-> b, h |-> HintsOf(f.ps), offs |-> <<0, 1, 4, 12, 77, 5000>>])
\* 2: reading containers as they should be and with one thing wrong
Base(gv, n) == [magic |-> S("PlZ"), kind |-> Kd(gv), made |-> gv, intact |-> TRUE, dlen |-> n, plain |-> n]
Item2(i) ==
  LET f == Src(i)  b == EncFile(f)  n == Len(b)
      Each(F(_)) == Cat([g \in 1..3 |-> F(Gvs[g])])
      levels(gv) == Tup([l \in 1..10 |-> M(gv, l - 1, <<>>, 0, 0, Judge(f, Base(gv, n)))])
      magics(gv) == Cat([p \in 1..3 |-> Tup([m \in 1..8 |-> M(gv, 6, <<Fl(7 + p, 1, 2 ^ (m - 1))>>, 0, 0, Judge(f, [Base(gv, n) EXCEPT !.magic = SetB(@, p, Xor1(@[p], 2 ^ (m - 1)))]))])])
      kinds(gv) == Tup([k \in 1..256 |-> M(gv, 6, <<Rp(11, 1, <<k - 1>>)>>, 0, 0, Judge(f, [Base(gv, n) EXCEPT !.kind = k - 1]))])
      dl(gv) == LET ds == << n - 1, n + 1, 0, 1, n + 256, n + 65536, n + 16777216, 2147483647>> \o (IF n > 300 THEN <<n - 256>> ELSE <<>>) \o (IF n > 65536 THEN <<n - 65536>> ELSE <<>>)
                IN Tup([k \in 1..Len(ds) |-> M(gv, 6, <<Rp(0, 4, LE4(ds[k]))>>, 0, 0, Judge(f, [Base(gv, n) EXCEPT !.dlen = ds[k]]))])
                   \o <<M(gv, 6, <<Rp(0, 4, <<255, 255, 255, 255>>)>>, 0, 0, ErrX), M(gv, 6, <<Fl(3, 1, 128)>>, 0, 0, ErrX)>>
      broken(gv) == LET bad == Judge(f, [Base(gv, n) EXCEPT !.intact = FALSE]) IN
                    Tup([k \in 1..40 |-> M(gv, 6, <<Rp(-k, k, <<>>)>>, 0, 0, bad)])                        \* cut
                    \o Tup([k \in 1..12 |-> M(gv, 6, <<Rp(k - 1, 4000000, <<>>)>>, 0, 0, bad)])              \* only a part of the head
                    \o <<M(gv, 6, <<Rp(12, 4000000, <<>>)>>, 0, 0, bad)>>
      zl(gv) == Tup([k \in 1..4 |-> M(gv, 6, <<Fl(-k, 1, 16)>>, 0, 0, ErrX)])                                \* checksum
                \o Tup([k \in 1..60 |-> M(gv, 6, <<Fl(11 + k, 1, 2 ^ (k % 8))>>, 0, 1, ErrX)])                 \* anywhere: rejected, or the same save
                \o Tup([k \in 1..60 |-> M(gv, 6, <<Fl(-4 - k, 1, 2 ^ (k % 8))>>, 0, 1, ErrX)])
                \o <<M(gv, 6, <<Rp(12, 2, <<120, 1>>)>>, 0, 1, ErrX), M(gv, 6, <<Rp(12, 0, <<0>>)>>, 0, 0, ErrX), M(gv, 6, <<Rp(12, 1, <<>>)>>, 0, 0, ErrX)>>
      inner == <<M("ZlibTwice", 6, <<>>, 1, 0, ErrX), M("ZlibTwice", 6, <<>>, 2, 0, ErrX), M("ZlibTwice", 9, <<>>, 1, 0, ErrX)>>
  IN Proper(f) => Out([op |-> "pal_read", b |-> b, h |-> HintsOf(f.ps),
                       ms |-> Each(levels) \o Each(magics) \o (IF i < 12 THEN Each(kinds) ELSE <<>>) \o Each(dl) \o Each(broken) \o zl("Zlib") \o zl("ZlibTwice") \o inner])
SegsDef == <<IF How = "r" THEN NSz + NDoc ELSE 0, NSz + NDoc>>
ASSUME TLCSet(150, SegsDef)
Segs == TLCGet(150)
TotalDef == SumS(Segs)
ASSUME TLCSet(151, TotalDef)
Total == TLCGet(151)
Emit(i) == LET s == SegOf(Segs, i) IN CASE s[1] = 1 -> Item1(s[2]) [] s[1] = 2 -> Item2(s[2])
Init == InitC(Total, 2)
Next == NextC(Total, 2, Emit)
=============================================================================
