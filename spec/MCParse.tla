------------------------------ MODULE MCParse -------------------------------
(***************************************************************************)
(* Small-scope model of the parser: any source made of at most MaxFrags    *)
(* fragments of a profile, parsed construct by construct under any of the  *)
(* depth limits.  Invariants state the properties of the parser without    *)
(* referring to its inner workings.                                        *)
(***************************************************************************)
EXTENDS Parser, Json

CONSTANTS Profile, MaxFrags

VARIABLES src, n, phase, p, lim, rest
vars == <<src, n, phase, p, lim, rest>>

F(list) == {T(list[i]) : i \in 1..Len(list)}
Frags ==
    CASE Profile = "nest"   -> F(<<"<a>", "</a>", "<b>", "</B>", "</b>", "<A>", "<br>", "<a/>", "x">>)
      [] Profile = "void"   -> F(<<"<br>", "<BR/>", "</br>", "<img a>", "<a>", "</a>", "<a />", "<Input>", "t">>)
      [] Profile = "raw"    -> F(<<"<script>", "</script>", "</SCRIPT >", "<title>", "</title>", "<style/>",
                                   "<b>", "</b>", "<", "x", "</scripts>", "</titl>">>) \cup {T("< /script>")}
      [] Profile = "chars"  -> F(<<"<", ">", "/", "a", " ", "=", "\"", "!", "-">>)
      [] Profile = "attr"   -> F(<<"<a", ">", " ", "b", "=", "\"", "/", "'", ",", "</a>">>) \cup {<<233>>, <<NL>>}
      [] Profile = "decl"   -> F(<<"<!", "--", ">", "doctype", "html", "<!--", "-->", "x", " ">>)
      [] Profile = "close"  -> F(<<"<a>", "</", "a", ">", " ", "<", "/", ";", "x">>) \cup {<<8364>>, <<NL>>}
      [] Profile = "depth"  -> F(<<"<a>", "</a>", "<br>", "<b/>", "x">>)
      [] Profile = "lines"  -> F(<<"<a>", "</b>", "</a>", "<a b=>", "<;>", "</;>", "<a">>)
                               \cup {<<NL>>, <<233>>, <<13, NL>>, <<128512>>}
      [] Profile = "shell"  -> F(<<"/", " ", "-", "!", "a", "=", "\"", ">", ";">>) \cup {<<233>>}
\* What is around the fragments.
Shell(a, b) == [a |-> T(a), b |-> T(b)]
Shells == IF Profile # "shell" THEN {Shell("", "")}
          ELSE {Shell("<!doctype html", ">"), Shell("<!doctype", "html>x"), Shell("<!", "doctype html>"), Shell("<!--", "-->"),
                Shell("<b", "></b>"), Shell("<b c", "/>"), Shell("<b c=", "></b>"), Shell("<b c=\"", "\" d></b>"), Shell("<b></b", ">"),
                Shell("<", "b></b>"), Shell("<b><", "/b>"), Shell("<script>", "</script>"), Shell("<script></script", ">"),
                Shell("<title></", "title>"), Shell("<br", ">"), Shell("<b>x</", ">"), Shell("<b/", "c/>"), Shell("<b c=\"1\"", "d></b>")}
Lims == IF Profile = "depth" THEN {-1, 0, 1, 2} ELSE {-1}

Init == /\ n = 0 /\ phase = "build" /\ p = PInit /\ lim \in Lims
        /\ \E s \in Shells : src = s.a /\ rest = s.b

AddFragment == /\ phase = "build" /\ n < MaxFrags
               /\ \E f \in Frags : src' = src \o f
               /\ n' = n + 1 /\ UNCHANGED <<phase, p, lim, rest>>
Begin == phase = "build" /\ phase' = "parse" /\ src' = src \o rest /\ UNCHANGED <<n, p, lim, rest>>
Take(construct) == /\ phase = "parse" /\ p.st = "run" /\ Construct(src, p) = construct
                   /\ p' = PStep(src, lim, p)
                   /\ UNCHANGED <<src, n, phase, lim, rest>>
TakeText       == Take("Text")
TakeRawText    == Take("RawText")
TakeComment    == Take("Comment")
TakeDoctype    == Take("Doctype")
TakeOpeningTag == Take("OpeningTag")
TakeClosingTag == Take("ClosingTag")
End            == Take("End")
Next == AddFragment \/ Begin \/ TakeText \/ TakeRawText \/ TakeComment \/ TakeDoctype
        \/ TakeOpeningTag \/ TakeClosingTag \/ End
Spec == Init /\ [][Next]_vars

(************************* properties **************************************)
Done == p.st = "done"
Failed == p.st = "error"

\* C01: rendering is a fixpoint of parsing.
OrdinaryNames == \A i \in 1..Len(p.out) : p.out[i].t # <<>> => p.out[i].t[1] # BANG
Fixpoint == (Done /\ OrdinaryNames)
            => LET r == RenderAll(p.out)
                   q == ParseAll(r, -1, -1)
               IN q.err = NoErr /\ Norm(q.ev) = Norm(p.out) /\ RenderAll(q.ev) = r
\* C01: every construct keeps its text; what is consumed is exactly the construct.
Kept == [][p'.i > p.i =>
           LET slice == SubSeq(src, p.i, p'.i - 1)
               e == p'.out[Len(p'.out)]
               names == [j \in 1..Len(e.a) |-> e.a[j].n]
               vals == [j \in 1..Len(e.a) |-> e.a[j].v]
           IN CASE e.k \in {"data", "raw"} -> slice = e.x
                [] e.k = "comment" -> slice = Render(e)
                [] e.k = "doctype" -> HasStr(slice, e.x)
                [] OTHER -> /\ slice[1] = LT /\ slice[Len(slice)] = GT /\ HasStr(slice, e.t)
                            /\ \A j \in 1..Len(e.a) : HasStr(slice, names[j]) /\ HasStr(slice, vals[j])
         ]_vars
\* C02: the stack is exactly what is open, and acceptance means being nested.
StackInv == /\ NestStack(p.out).st = [i \in 1..Len(p.s) |-> p.s[i].t]
            /\ ~NestStack(p.out).bad
Accepted == Done => Nested(p.out)
Rejected == (Failed /\ p.e.e \in {"UnexpectedClosingTag", "MismatchedClosingTag", "MissingClosingTags"})
            => LET tok == Token(src, p)
               IN IF p.i > Len(src) THEN ~Nested(p.out) ELSE NestStack(Append(p.out, tok.ev)).bad
VoidNeverOpen == \A i \in 1..Len(p.s) : ~IsVoidName(p.s[i].t)
\* C03: limits are exact and change nothing else.
DepthOf(evs) == LET D[i \in 0..Len(evs)] == IF i = 0 THEN 0
                       ELSE D[i - 1] + (IF evs[i].k = "open" THEN 1 ELSE IF evs[i].k = "close" THEN -1 ELSE 0)
                IN D
DeepestIn(evs) == LET D == DepthOf(evs)
                  IN CHOOSE d \in {D[i] : i \in 0..Len(evs)} : \A i \in 0..Len(evs) : D[i] <= d
WithinLimit == lim >= 0 => DeepestIn(p.out) <= lim
LimitExact == (Failed /\ p.e.e = "StackLimitExceeded")
              => /\ DepthOf(p.out)[Len(p.out)] = lim
                 /\ Token(src, p).ev.k = "open" /\ p.e.tag = Token(src, p).ev.t
                 /\ p.e.loc = LocOf(src, p.i)
LimitNeutral == ((Done \/ Failed) /\ lim >= 0 /\ p.e.e # "StackLimitExceeded")
                => LET q == PRun(src, -1, PInit) IN p = q
\* C04: everything before the fault is fine by itself, and the place is inside the source.
FirstFault == Failed => LET q == PRun(SubSeq(src, 1, p.i - 1), lim, PInit)
                        IN p.i <= Len(src) => (q.out = p.out /\ (q.st = "done" \/ q.e.e = "MissingClosingTags"))
\* Position of a location (its inverse).
PosOf(l) == CHOOSE i \in 1..(Len(src) + 1) : LocOf(src, i) = l
Place == (Failed /\ "loc" \in DOMAIN p.e)
         => /\ \E i \in 1..(Len(src) + 1) : LocOf(src, i) = p.e.loc
            /\ PosOf(p.e.loc) >= p.i
            /\ (p.e.e \in {"UnclosedComment", "UnclosedDoctype", "UnsupportedDoctype",
                           "ExpectedOpeningTagClose", "ExpectedClosingTagClose",
                           "StackLimitExceeded", "UnexpectedClosingTag"}
                => PosOf(p.e.loc) = p.i /\ src[p.i] = LT)
            /\ (p.e.e = "UnclosedAttributeValue" => src[PosOf(p.e.loc)] = QUOT)
            /\ (p.e.e = "InvalidAttributeValue" => PosOf(p.e.loc) = Len(src) + 1 \/ src[PosOf(p.e.loc)] # QUOT)
Places2 == Failed =>
    CASE p.e.e = "MismatchedClosingTag" ->
           /\ OpenTok(src, PosOf(p.e.oloc)).ev.t = p.e.otag /\ src[PosOf(p.e.oloc)] = LT
           /\ IsCloseStart(src, PosOf(p.e.cloc)) /\ CloseTok(src, PosOf(p.e.cloc)).ev.t = p.e.ctag
           /\ ~IdEq(p.e.otag, p.e.ctag)
      [] p.e.e = "MissingClosingTags" ->
           LET all == Append(p.e.others, p.e.inner)
           IN \A i \in 1..Len(all) :
                 /\ OpenTok(src, PosOf(all[i].loc)).ev = Open(all[i].tag, OpenTok(src, PosOf(all[i].loc)).ev.a)
                 /\ i < Len(all) => PosOf(all[i].loc) < PosOf(all[i + 1].loc)
      [] OTHER -> TRUE
\* C05: the names of accepted documents are valid, the problems of rejected ones real.
ValidNames == \A i \in 1..Len(p.out) :
    /\ (p.out[i].t # <<>> => IdOk(p.out[i].t))
    /\ \A j \in 1..Len(p.out[i].a) : IdOk(p.out[i].a[j].n)
RealProblem == (Failed /\ "id" \in DOMAIN p.e)
    => LET w == TakeName(src, PosOf(p.e.loc)).v IN ~IdOk(w) /\ IdErr(w) = p.e.id
\* C21: every step consumes input or leaves raw text mode or stops.
Progress == [][(phase = "parse" /\ phase' = "parse" /\ p'.st = "run")
               => p'.i > p.i \/ (p.m # <<>> /\ p'.m = <<>>)]_vars

Export == (phase = "parse" /\ p.st # "run")
          => PrintT(ToJson([k |-> "parse", x |-> src, maxd |-> lim]))
=============================================================================
