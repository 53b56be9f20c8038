------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The HTML5 tokenizer and nesting check as a state machine over a source  *)
(* text `src`.  One step consumes one construct.                           *)
(*                                                                         *)
(*   p.i    position of the first unconsumed character                     *)
(*   p.m    <<>> in data mode, <<name>> inside raw text element `name`     *)
(*   p.s    stack of open elements [t: name, at: position of its tag]      *)
(*   p.out  events produced so far                                         *)
(*   p.st   "run", "done" or "error";   p.e  the error                     *)
(***************************************************************************)
EXTENDS Markup

PInit == [i |-> 1, m |-> <<>>, s |-> <<>>, out |-> <<>>, st |-> "run", e |-> NoErr]

sDOCTYPEWORD == T("doctype")  sHTML == T("html")

\* Name at position i: [r: "none" | "ok" | "err", v: word, n: next position]
TakeName(src, i) ==
    LET j == ScanTo(src, i, WordEnd)
        w == SubSeq(src, i, j - 1)
    IN [r |-> IF j = i THEN "none" ELSE IF IdOk(w) THEN "ok" ELSE "err", v |-> w, n |-> j]

CharAt(src, i, c) == i <= Len(src) /\ src[i] = c

Fail(err) == [ok |-> FALSE, e |-> err]
Tok(ev, n, m) == [ok |-> TRUE, ev |-> ev, n |-> n, m |-> m]

\* Closing tag at i, where src[i] = "<" and the next non-blank is "/".
IsCloseStart(src, i) == CharAt(src, i, LT) /\ CharAt(src, SkipWs(src, i + 1), SLASH)
CloseTok(src, i) ==
    LET at == SkipWs(src, SkipWs(src, i + 1) + 1)
        n  == TakeName(src, at)
        j  == SkipWs(src, n.n)
    IN IF n.r = "none" THEN Fail([e |-> "ExpectedClosingTagIdentifier", loc |-> LocOf(src, at)])
       ELSE IF n.r = "err"
       THEN Fail([e |-> "InvalidClosingTagIdentifier", loc |-> LocOf(src, at), id |-> IdErr(n.v)])
       ELSE IF CharAt(src, j, GT) THEN Tok(Close(n.v), j + 1, <<>>)
       ELSE Fail([e |-> "ExpectedClosingTagClose", loc |-> LocOf(src, i), tag |-> n.v])

\* Reads one attribute: r = [ok, go: is there more, as: attributes so far, n: position] or a failure.
AttrStep(src, tag, r) ==
    LET i == r.n
        n == TakeName(src, i)
        j == SkipWs(src, n.n)
        q == SkipWs(src, j + 1)
        z == ScanTo(src, q + 1, {QUOT})
    IN IF i > Len(src) \/ n.r = "none" THEN [r EXCEPT !.go = FALSE]
       ELSE IF n.r = "err"
       THEN Fail([e |-> "InvalidAttributeIdentifier", loc |-> LocOf(src, i), id |-> IdErr(n.v)])
       ELSE IF ~CharAt(src, j, EQ) THEN [r EXCEPT !.as = Append(@, Bare(n.v)), !.n = j]
       ELSE IF ~CharAt(src, q, QUOT)
       THEN Fail([e |-> "InvalidAttributeValue", loc |-> LocOf(src, q), tag |-> tag, attr |-> n.v])
       ELSE IF z > Len(src)
       THEN Fail([e |-> "UnclosedAttributeValue", loc |-> LocOf(src, q), tag |-> tag, attr |-> n.v])
       ELSE [r EXCEPT !.as = Append(@, Attr(n.v, SubSeq(src, q + 1, z - 1))), !.n = SkipWs(src, z + 1)]

RECURSIVE AttrsFrom(_, _, _)
\* Attributes from position r.n on: [ok, as, n] or a failure (read in rounds, to keep the recursion shallow).
AttrsFrom(src, tag, r) ==
    LET s == FoldLeft(LAMBDA q, k : IF q.ok /\ q.go THEN AttrStep(src, tag, q) ELSE q, r, <<1, 2, 3, 4, 5, 6, 7, 8>>)
    IN IF s.ok /\ s.go THEN AttrsFrom(src, tag, s) ELSE s

OpenTok(src, i) ==
    LET at == SkipWs(src, i + 1)
        n  == TakeName(src, at)
        r  == AttrsFrom(src, n.v, [ok |-> TRUE, go |-> TRUE, as |-> <<>>, n |-> SkipWs(src, n.n)])
        sl == CharAt(src, r.n, SLASH)
        j  == IF sl THEN SkipWs(src, r.n + 1) ELSE r.n
        mode == IF ~sl /\ IsRawName(n.v) THEN <<n.v>> ELSE <<>>
    IN IF n.r = "none" THEN Fail([e |-> "ExpectedOpeningTagIdentifier", loc |-> LocOf(src, at)])
       ELSE IF n.r = "err"
       THEN Fail([e |-> "InvalidOpeningTagIdentifier", loc |-> LocOf(src, at), id |-> IdErr(n.v)])
       ELSE IF ~r.ok THEN r
       ELSE IF ~CharAt(src, j, GT)
       THEN Fail([e |-> "ExpectedOpeningTagClose", loc |-> LocOf(src, i), tag |-> n.v])
       ELSE Tok(IF IsVoidName(n.v) THEN Void(n.v, r.as)
                ELSE IF sl THEN Self(n.v, r.as) ELSE Open(n.v, r.as), j + 1, mode)

IsDoctypeStart(src, i) ==
    /\ CharAt(src, i, LT) /\ CharAt(src, i + 1, BANG)
    /\ IdEq(TakeName(src, SkipWs(src, i + 2)).v, sDOCTYPEWORD)
DoctypeTok(src, i) ==
    LET j == SkipWs(src, TakeName(src, SkipWs(src, i + 2)).n)
        z == ScanTo(src, j, {GT})
        x == Trim(SubSeq(src, j, z - 1))
    IN IF z > Len(src) THEN Fail([e |-> "UnclosedDoctype", loc |-> LocOf(src, i)])
       ELSE IF ~IdEq(x, sHTML)
       THEN Fail([e |-> "UnsupportedDoctype", loc |-> LocOf(src, i), doctype |-> x])
       ELSE Tok(Ev("doctype", <<>>, <<>>, x), z + 1, <<>>)

CommentTok(src, i) ==
    LET z == FindStr(src, i + 4, sENDCOMMENT)
    IN IF z = 0 THEN Fail([e |-> "UnclosedComment", loc |-> LocOf(src, i)])
       ELSE Tok(Ev("comment", <<>>, <<>>, SubSeq(src, i + 4, z - 1)), z + 3, <<>>)

\* Is a complete closing tag of element `name` at i?
Closes(src, i, name) ==
    LET n == TakeName(src, SkipWs(src, SkipWs(src, i + 1) + 1))
    IN IsCloseStart(src, i) /\ n.r = "ok" /\ IdEq(n.v, name) /\ CharAt(src, SkipWs(src, n.n), GT)

RECURSIVE RawEnd(_, _, _)
\* Where raw text of element `name` ends: at its own closing tag or the end of the source.
RawEnd(src, i, name) ==
    LET j == ScanTo(src, i, {LT})
    IN IF j > Len(src) THEN j
       ELSE IF Closes(src, j, name) THEN j ELSE RawEnd(src, j + 1, name)
RawTok(src, i, name) == LET j == RawEnd(src, i, name) IN Tok(Raw(SubSeq(src, i, j - 1)), j, <<>>)

DataTok(src, i) == LET j == ScanTo(src, i, {LT}) IN Tok(Data(SubSeq(src, i, j - 1)), j, <<>>)

\* Kind of construct at position i: this is the action which is taken.
Construct(src, p) ==
    IF p.i > Len(src) THEN "End"
    ELSE IF p.m # <<>> THEN "RawText"
    ELSE IF IsAt(src, p.i, sCOMMENT) THEN "Comment"
    ELSE IF IsDoctypeStart(src, p.i) THEN "Doctype"
    ELSE IF IsCloseStart(src, p.i) THEN "ClosingTag"
    ELSE IF src[p.i] = LT THEN "OpeningTag"
    ELSE "Text"

Token(src, p) ==
    LET c == Construct(src, p)
    IN CASE c = "RawText"    -> RawTok(src, p.i, p.m[1])
         [] c = "Comment"    -> CommentTok(src, p.i)
         [] c = "Doctype"    -> DoctypeTok(src, p.i)
         [] c = "ClosingTag" -> CloseTok(src, p.i)
         [] c = "OpeningTag" -> OpenTok(src, p.i)
         [] c = "Text"       -> DataTok(src, p.i)

Stop(p, err) == [p EXCEPT !.st = "error", !.e = err]

\* One step.  lim: maximum depth or -1.
PStep(src, lim, p) ==
    LET where(x) == [tag |-> x.t, loc |-> LocOf(src, x.at)]
        top == p.s[Len(p.s)]
        below == SubSeq(p.s, 1, Len(p.s) - 1)
        tok == Token(src, p)
        Go(stack) == [p EXCEPT !.i = tok.n, !.m = tok.m, !.s = stack, !.out = Append(@, tok.ev)]
    IN IF p.i > Len(src)
       THEN IF p.s = <<>> THEN [p EXCEPT !.st = "done"]
            ELSE Stop(p, [e |-> "MissingClosingTags", inner |-> where(top),
                          others |-> [j \in 1..Len(below) |-> where(below[j])]])
       ELSE IF ~tok.ok THEN Stop(p, tok.e)
       ELSE IF tok.ev.k = "open"
       THEN IF lim >= 0 /\ Len(p.s) = lim
            THEN Stop(p, [e |-> "StackLimitExceeded", loc |-> LocOf(src, p.i),
                          tag |-> tok.ev.t, limit |-> lim])
            ELSE Go(Append(p.s, [t |-> tok.ev.t, at |-> p.i]))
       ELSE IF tok.ev.k = "close"
       THEN IF p.s = <<>>
            THEN Stop(p, [e |-> "UnexpectedClosingTag", loc |-> LocOf(src, p.i), tag |-> tok.ev.t])
            ELSE IF ~IdEq(top.t, tok.ev.t)
            THEN Stop(p, [e |-> "MismatchedClosingTag",
                          otag |-> top.t, oloc |-> LocOf(src, top.at),
                          ctag |-> tok.ev.t, cloc |-> LocOf(src, p.i)])
            ELSE Go(below)
       ELSE Go(p.s)

\* Steps until the machine stops (every step consumes something or stops).
PRun(src, lim, p) ==
    FoldLeft(LAMBDA q, k : IF q.st # "run" THEN q ELSE PStep(src, lim, q), p,
             [k \in 1..(Len(src) + 2) |-> k])

\* Result of Template::from_str: [ev, err]; maxd, maxl: limits or -1.
ParseAll(src, maxd, maxl) ==
    IF maxl >= 0 /\ Bytes(src) > maxl
    THEN [ev |-> <<>>, err |-> [e |-> "LengthLimitExceeded", limit |-> maxl]]
    ELSE LET p == PRun(src, maxd, PInit)
         IN IF p.st = "done" THEN [ev |-> p.out, err |-> NoErr]
            ELSE [ev |-> <<>>, err |-> [e |-> "Parse", p |-> p.e]]
=============================================================================
