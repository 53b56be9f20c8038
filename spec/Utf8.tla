-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* Decoding of UTF-8: as a machine fed byte by byte (or chunk by chunk),   *)
(* and as a direct description of which byte sequences encode which text.  *)
(***************************************************************************)
EXTENDS Text

\* Encoding of one scalar value.
Encode1(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode(t) == FlattenSeq([i \in 1..Len(t) |-> Encode1(t[i])])
IsScalar(c) == c \in 0..55295 \/ c \in 57344..1114111

\* Decoder: text so far, number of bytes missing, value so far, range of the next byte.
UInit == [ok |-> TRUE, t |-> <<>>, need |-> 0, v |-> 0, lo |-> 128, hi |-> 191]
UByte(u, b) ==
    IF ~u.ok THEN u
    ELSE IF u.need > 0
    THEN IF b < u.lo \/ b > u.hi THEN [u EXCEPT !.ok = FALSE]
         ELSE LET v == u.v * 64 + (b - 128)
              IN IF u.need = 1 THEN [UInit EXCEPT !.t = Append(u.t, v)]
                 ELSE [u EXCEPT !.need = @ - 1, !.v = v, !.lo = 128, !.hi = 191]
    ELSE IF b < 128 THEN [u EXCEPT !.t = Append(@, b)]
    ELSE IF b \in 194..223 THEN [u EXCEPT !.need = 1, !.v = b - 192]
    ELSE IF b \in 224..239 THEN [u EXCEPT !.need = 2, !.v = b - 224, !.lo = IF b = 224 THEN 160 ELSE 128,
                                          !.hi = IF b = 237 THEN 159 ELSE 191]
    ELSE IF b \in 240..244 THEN [u EXCEPT !.need = 3, !.v = b - 240, !.lo = IF b = 240 THEN 144 ELSE 128,
                                          !.hi = IF b = 244 THEN 143 ELSE 191]
    ELSE [u EXCEPT !.ok = FALSE]
UFeed(u, bs) == FoldLeft(LAMBDA acc, b : UByte(acc, b), u, bs)
UValid(u) == u.ok /\ u.need = 0
Decode(bs) == LET u == UFeed(UInit, bs) IN [ok |-> UValid(u), t |-> u.t]
=============================================================================
