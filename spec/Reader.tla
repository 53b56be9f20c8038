------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Loading a template file: the bytes arrive in chunks of any size.  The   *)
(* complete bytes are collected, limited to the maximal length, decoded    *)
(* and handed to the parser.                                               *)
(***************************************************************************)
EXTENDS Parser, Utf8

FileErr(e) == [e |-> e]
FileInput(i) == [e |-> "Input", i |-> i]

FileSize(pieces) == FoldLeft(LAMBDA a, p : a + Len(p.b) * (IF "n" \in DOMAIN p THEN p.n ELSE 1), 0, pieces)

\* All bytes of the pieces of a (small) file.
Repeat(b, n) == FlattenSeq([i \in 1..n |-> b])
FileBytes(pieces) == FlattenSeq([i \in 1..Len(pieces) |->
    Repeat(pieces[i].b, IF "n" \in DOMAIN pieces[i] THEN pieces[i].n ELSE 1)])

\* What loading may report.  utf8: is the content valid; direct: outcome of parsing the text.
\* If the content is both too long and not UTF-8 either may be reported.
FileOutcomes(mode, utf8, direct, maxl, size) ==
    CASE mode \in {"missing", "under", "nul"} -> {FileErr("Open")}
      [] mode = "dir"     -> {FileErr("Read"), FileErr("Open")}
      [] OTHER ->
           LET tooLong == maxl >= 0 /\ size > maxl
           IN (IF tooLong THEN {FileInput([e |-> "LengthLimitExceeded", limit |-> maxl])} ELSE {})
              \cup (IF ~utf8 THEN {FileErr("Decode")} ELSE {})
              \cup (IF ~tooLong /\ utf8
                    THEN {IF direct = NoErr THEN NoErr ELSE FileInput(direct)} ELSE {})
=============================================================================
