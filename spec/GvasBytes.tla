----------------------------- MODULE GvasBytes -----------------------------
(***************************************************************************)
(* Bytes, little-endian numbers and the two string encodings of the GVAS   *)
(* format.  A number is the tuple of its little-endian bytes (TLC integers *)
(* are 32-bit, file numbers are up to 64); a string is the tuple of its    *)
(* Unicode code points; an optional x is <<>> or <<x>>.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255

\* A function on 1..n as an explicit tuple (TLC keeps [i \in S |-> e] lazy).
Tup(f) == f \o <<>>

Rep(x, n) == Tup([i \in 1..n |-> x])

\* Concatenation of a sequence of sequences by halving: O(n log n).
RECURSIVE CatR(_, _, _)
CatR(ss, lo, hi) ==
  IF hi < lo THEN <<>>
  ELSE IF hi = lo THEN ss[lo]
  ELSE LET m == (lo + hi) \div 2 IN CatR(ss, lo, m) \o CatR(ss, m + 1, hi)
Cat(ss) == CatR(ss, 1, Len(ss))

-----------------------------------------------------------------------------
(* ASCII literals *)
AsciiChars == " +-./0123456789:ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{}"
AsciiCodes == <<32, 43, 45, 46, 47>> \o Tup([i \in 1..11 |-> 47 + i]) \o Tup([i \in 1..26 |-> 64 + i]) \o <<95>>
              \o Tup([i \in 1..26 |-> 96 + i]) \o <<123, 125>>
CodeOf == [c \in {SubSeq(AsciiChars, i, i) : i \in 1..Len(AsciiChars)} |->
            AsciiCodes[CHOOSE i \in 1..Len(AsciiChars) : SubSeq(AsciiChars, i, i) = c]]
S(str) == Tup([i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]])

-----------------------------------------------------------------------------
(* Little-endian numbers *)
LE1(n) == <<n % 256>>
LE2(n) == <<n % 256, (n \div 256) % 256>>
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>   \* 0 <= n < 2^31
LE8(n) == LE4(n) \o <<0, 0, 0, 0>>
\* two's complement of a negative 32-bit number
LE4S(n) == IF n >= 0 THEN LE4(n)
           ELSE LET m == LE4(-(n + 1)) IN <<255 - m[1], 255 - m[2], 255 - m[3], 255 - m[4]>>
U16(b) == b[1] + 256 * b[2]
\* unsigned 32-bit, saturating at the largest TLC integer
U32(b) == IF b[4] >= 128 THEN 2147483647 ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
I32(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (IF b[4] >= 128 THEN b[4] - 256 ELSE b[4])
Zero4 == <<0, 0, 0, 0>>
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Zero16 == Zero8 \o Zero8
\* unsigned comparison of two equally long little-endian numbers
\* (not recursive: TLC does not precompute constants that depend on recursive predicates)
Geq(a, b) == LET d == {i \in 1..Len(a) : a[i] # b[i]}
             IN d = {} \/ LET m == CHOOSE i \in d : \A j \in d : j <= i IN a[m] > b[m]

-----------------------------------------------------------------------------
(* UTF-16 and UTF-8 *)
IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128
IsScalar(c) == c \in 0..55295 \/ c \in 57344..1114111
IsString(s) == \A i \in 1..Len(s) : IsScalar(s[i])

Utf16Units(s) ==
  IF \A i \in 1..Len(s) : s[i] < 65536 THEN s
  ELSE Cat([i \in 1..Len(s) |->
             IF s[i] < 65536 THEN <<s[i]>>
             ELSE <<55296 + ((s[i] - 65536) \div 1024), 56320 + ((s[i] - 65536) % 1024)>>])
Utf16Bytes(s) == LET u == Utf16Units(s) IN Cat([i \in 1..Len(u) |-> LE2(u[i])])

NoString == <<-1>>      \* "not a string": result of a failed decoding
\* units -> code points
Utf16Decode(u) ==
  IF \A i \in 1..Len(u) : u[i] \notin 55296..57343 THEN u
  ELSE LET r == FoldLeft(LAMBDA st, x :
                  IF st.bad THEN st
                  ELSE IF st.hi # 0
                       THEN IF x \in 56320..57343
                            THEN [out |-> Append(st.out, 65536 + (st.hi - 55296) * 1024 + (x - 56320)), hi |-> 0, bad |-> FALSE]
                            ELSE [st EXCEPT !.bad = TRUE]
                  ELSE IF x \in 55296..56319 THEN [st EXCEPT !.hi = x]
                  ELSE IF x \in 56320..57343 THEN [st EXCEPT !.bad = TRUE]
                  ELSE [st EXCEPT !.out = Append(@, x)],
                [out |-> <<>>, hi |-> 0, bad |-> FALSE], u)
       IN IF r.bad \/ r.hi # 0 THEN NoString ELSE r.out

Cont(x) == x \in 128..191
\* need: continuation bytes still expected; lo/hi: range of the next one
Utf8Decode(b) ==
  IF IsAscii(b) THEN b
  ELSE LET r == FoldLeft(LAMBDA st, x :
                  IF st.bad THEN st
                  ELSE IF st.need > 0
                       THEN IF x \in st.lo..st.hi
                            THEN IF st.need = 1
                                 THEN [out |-> Append(st.out, st.acc * 64 + (x - 128)), need |-> 0, acc |-> 0, lo |-> 128, hi |-> 191, bad |-> FALSE]
                                 ELSE [st EXCEPT !.need = @ - 1, !.acc = @ * 64 + (x - 128), !.lo = 128, !.hi = 191]
                            ELSE [st EXCEPT !.bad = TRUE]
                  ELSE IF x < 128 THEN [st EXCEPT !.out = Append(@, x)]
                  ELSE IF x \in 194..223 THEN [st EXCEPT !.need = 1, !.acc = x - 192]
                  ELSE IF x \in 224..239
                       THEN [st EXCEPT !.need = 2, !.acc = x - 224,
                                       !.lo = IF x = 224 THEN 160 ELSE 128, !.hi = IF x = 237 THEN 159 ELSE 191]
                  ELSE IF x \in 240..244
                       THEN [st EXCEPT !.need = 3, !.acc = x - 240,
                                       !.lo = IF x = 240 THEN 144 ELSE 128, !.hi = IF x = 244 THEN 143 ELSE 191]
                  ELSE [st EXCEPT !.bad = TRUE],
                [out |-> <<>>, need |-> 0, acc |-> 0, lo |-> 128, hi |-> 191, bad |-> FALSE], b)
       IN IF r.bad \/ r.need # 0 THEN NoString ELSE r.out

Utf8Bytes(s) ==
  IF IsAscii(s) THEN s
  ELSE Cat([i \in 1..Len(s) |->
        LET c == s[i] IN
        IF c < 128 THEN <<c>>
        ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
        ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
        ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>])
=============================================================================
