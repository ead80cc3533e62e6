------------------------------ MODULE GvasGuid ------------------------------
(* GUIDs as text: how they are shown, what is accepted *)
EXTENDS GvasJson

\* Unicode white space
Spaces == {9, 10, 11, 12, 13, 32, 133, 160, 5760} \union (8192..8202) \union {8232, 8233, 8239, 8287, 12288}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in Spaces THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Spaces THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Open == 123
Shut == 125
HexV(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
\* dashes anywhere, white space around, one pair of braces (either may be missing)
Bare(s) ==
  LET a == TrimR(TrimL(SelectSeq(s, LAMBDA c : c # 45)))
      b == IF a # <<>> /\ a[1] = Open THEN Tail(a) ELSE a
  IN IF b # <<>> /\ b[Len(b)] = Shut THEN SubSeq(b, 1, Len(b) - 1) ELSE b
GuidParse(s) ==
  LET h == Bare(s) IN
  IF h = S("0") THEN [r |-> "ok", b |-> Zero16]
  ELSE IF Len(h) = 32 /\ \A i \in 1..32 : HexV(h[i]) >= 0
       THEN [r |-> "ok", b |-> Tup([i \in 1..16 |-> 16 * HexV(h[2 * i - 1]) + HexV(h[2 * i])])]
       ELSE [r |-> "err"]
=============================================================================
