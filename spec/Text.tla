-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode scalar values (naturals).  This module   *)
(* has the character classes of the library, identifier validation and     *)
(* comparison, escaping, and source locations.                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]

\* Text of a TLA+ string literal (printable ASCII only).
T(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

NUM(n) == T(ToString(n))

LT == 60  GT == 62  SLASH == 47  EQ == 61  QUOT == 34  BANG == 33  AMP == 38  NL == 10
HASH == 35  DOT == 46  SPACE == 32

\* char::is_whitespace (Unicode White_Space)
WhiteSpace == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202)
              \cup {8232, 8233, 8239, 8287, 12288}

\* Characters which end a word (tag or attribute name) in a document.
WordEnd == {32, 9, 13, 10, GT, LT, QUOT, SLASH, EQ, 39, AMP}

\* ASCII characters which are not allowed in an identifier.
Forbidden == {EQ, QUOT, SLASH, GT, LT, AMP, 44, 59}

IsAscii(t) == \A i \in 1..Len(t) : t[i] < 128
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerT(t) == [i \in 1..Len(t) |-> Lower(t[i])]

\* Names are compared ASCII case-insensitively; anything else never equals.
IdEq(a, b) == /\ Len(a) = Len(b)
              /\ \A i \in 1..Len(a) : a[i] < 128 /\ b[i] < 128 /\ Lower(a[i]) = Lower(b[i])

\* Scans go block by block, which keeps the recursion shallow for long texts.
Block == 64
Least(a, b) == IF a < b THEN a ELSE b

RECURSIVE ScanTo(_, _, _)
\* First position >= i of a character in S, or Len+1.
ScanTo(t, i, S) ==
    LET z == Least(i + Block, Len(t))
    IN IF i > Len(t) \/ t[i] \in S THEN i
       ELSE IF \A j \in i..z : t[j] \notin S THEN ScanTo(t, z + 1, S)
       ELSE CHOOSE j \in i..z : t[j] \in S /\ \A k \in i..(j - 1) : t[k] \notin S

RECURSIVE SkipWs(_, _)
SkipWs(t, i) ==
    LET z == Least(i + Block, Len(t))
    IN IF i > Len(t) \/ t[i] \notin WhiteSpace THEN i
       ELSE IF \A j \in i..z : t[j] \in WhiteSpace THEN SkipWs(t, z + 1)
       ELSE CHOOSE j \in i..z : t[j] \notin WhiteSpace /\ \A k \in i..(j - 1) : t[k] \in WhiteSpace

RECURSIVE BackWs(_, _, _)
\* Last position >= lo of a non-whitespace character when walking back from i, or lo-1.
BackWs(t, i, lo) == IF i < lo THEN i ELSE IF t[i] \in WhiteSpace THEN BackWs(t, i - 1, lo) ELSE i

Trim(t) == LET a == SkipWs(t, 1) IN SubSeq(t, a, BackWs(t, Len(t), a))

IsAt(t, i, s) == /\ i + Len(s) - 1 <= Len(t)
                 /\ \A j \in 1..Len(s) : t[i + j - 1] = s[j]

RECURSIVE FindStr(_, _, _)
\* First position >= i where s occurs in t, or 0.
FindStr(t, i, s) ==
    LET z == Least(i + Block, Len(t) - Len(s) + 1)
    IN IF i + Len(s) - 1 > Len(t) THEN 0
       ELSE IF \A j \in i..z : ~IsAt(t, j, s) THEN FindStr(t, z + 1, s)
       ELSE CHOOSE j \in i..z : IsAt(t, j, s) /\ \A k \in i..(j - 1) : ~IsAt(t, k, s)
HasStr(t, s) == FindStr(t, 1, s) > 0

RECURSIVE SplitOn(_, _, _)
\* Parts of t from position i on, split at every occurrence of character c.
SplitOn(t, i, c) == LET j == ScanTo(t, i, {c})
                    IN IF j > Len(t) THEN <<SubSeq(t, i, Len(t))>>
                       ELSE <<SubSeq(t, i, j - 1)>> \o SplitOn(t, j + 1, c)

RECURSIVE WordsFrom(_, _)
WordsFrom(t, i) == LET a == SkipWs(t, i)
                       b == ScanTo(t, a, WhiteSpace)
                   IN IF a > Len(t) THEN <<>> ELSE <<SubSeq(t, a, b - 1)>> \o WordsFrom(t, b)
\* Whitespace separated words.
Words(t) == WordsFrom(t, 1)

(************************* identifiers *************************************)
NoErr == [e |-> "none"]
IdOk(t) == /\ Len(t) > 0
           /\ \A i \in 1..Len(t) : t[i] < 128 /\ t[i] \notin WhiteSpace /\ t[i] \notin Forbidden
IdErr(t) ==
    IF Len(t) = 0 THEN [e |-> "Empty"]
    ELSE IF ~IsAscii(t) THEN [e |-> "NotAscii"]
    ELSE LET w == ScanTo(t, 1, WhiteSpace)
             f == ScanTo(t, 1, Forbidden)
         IN IF w <= Len(t) THEN [e |-> "Whitespace", c |-> t[w]]
            ELSE IF f <= Len(t) THEN [e |-> "Forbidden", c |-> t[f]]
            ELSE NoErr

(************************* escaping ****************************************)
Entity == [c \in {38, 60, 62, 34} |->
             CASE c = 38 -> T("&amp;") [] c = 60 -> T("&lt;")
               [] c = 62 -> T("&gt;")  [] c = 34 -> T("&quot;")]
Escape(t) == IF \A i \in 1..Len(t) : t[i] \notin {38, 60, 62, 34} THEN t
             ELSE FlattenSeq([i \in 1..Len(t) |->
                     IF t[i] \in {38, 60, 62, 34} THEN Entity[t[i]] ELSE <<t[i]>>])

RECURSIVE UnescapeFrom(_, _)
UnescapeFrom(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] = 38 /\ \E c \in {38, 60, 62, 34} : IsAt(t, i, Entity[c])
         THEN LET c == CHOOSE c \in {38, 60, 62, 34} : IsAt(t, i, Entity[c])
              IN <<c>> \o UnescapeFrom(t, i + Len(Entity[c]))
         ELSE <<t[i]>> \o UnescapeFrom(t, i + 1)
Unescape(t) == UnescapeFrom(t, 1)

(************************* locations ***************************************)
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Bytes(t) == FoldLeft(LAMBDA a, c : a + Utf8Len(c), 0, t)

RECURSIVE LastNl(_, _)
\* Last position <= i of a line break, or 0.
LastNl(t, i) ==
    LET a == IF i > Block THEN i - Block ELSE 1
        J == {j \in a..i : t[j] = NL}
    IN IF i = 0 THEN 0
       ELSE IF J = {} THEN LastNl(t, a - 1)
       ELSE CHOOSE j \in J : \A k \in J : j >= k

\* <<line, column, byte offset>> of the i-th character (columns count characters).
LocOf(t, i) == <<1 + Cardinality({j \in 1..(i - 1) : t[j] = NL}),
                 i - LastNl(t, i - 1),
                 Bytes(SubSeq(t, 1, i - 1))>>
=============================================================================
