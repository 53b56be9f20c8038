------------------------------- MODULE Markup -------------------------------
(***************************************************************************)
(* Documents as sequences of events, their rendering, nesting, attribute   *)
(* lists and selectors.                                                    *)
(*                                                                         *)
(*   event: [k: kind, t: tag name, a: attributes, x: text]                 *)
(*   kind : doctype comment data raw open close self void noop             *)
(*   attribute: [n: name, h: has a value, v: value (encoded text)]         *)
(***************************************************************************)
EXTENDS Text

Ev(k, t, a, x)  == [k |-> k, t |-> t, a |-> a, x |-> x]
Data(x)         == Ev("data", <<>>, <<>>, x)
Raw(x)          == Ev("raw", <<>>, <<>>, x)
Open(t, a)      == Ev("open", t, a, <<>>)
Close(t)        == Ev("close", t, <<>>, <<>>)
Self(t, a)      == Ev("self", t, a, <<>>)
Void(t, a)      == Ev("void", t, a, <<>>)
Attr(n, v)      == [n |-> n, h |-> TRUE, v |-> v]
Bare(n)         == [n |-> n, h |-> FALSE, v |-> <<>>]

VoidNames == {T("area"), T("base"), T("br"), T("col"), T("embed"), T("hr"), T("img"),
              T("input"), T("keygen"), T("link"), T("menuitem"), T("meta"), T("param"),
              T("source"), T("track"), T("wbr")}
RawNames == {T("script"), T("style"), T("title"), T("textarea")}
ClassName == T("class")
IdName == T("id")

IsVoidName(n) == LowerT(n) \in VoidNames
IsRawName(n)  == LowerT(n) \in RawNames
IsTag(ev)     == ev.k \in {"open", "self", "void"}

(************************* rendering ***************************************)
sDOCTYPE == T("<!doctype ")  sCOMMENT == T("<!--")  sENDCOMMENT == T("-->")
sSELFEND == T(" />")  sCLOSE == T("</")  sEQQ == T("=\"")

RenderAttr(a) == IF a.h THEN a.n \o sEQQ \o a.v \o <<QUOT>> ELSE a.n
RenderAttrs(as) == FlattenSeq([i \in 1..Len(as) |-> <<SPACE>> \o RenderAttr(as[i])])
Render(ev) ==
    CASE ev.k = "doctype" -> sDOCTYPE \o ev.x \o <<GT>>
      [] ev.k = "comment" -> sCOMMENT \o ev.x \o sENDCOMMENT
      [] ev.k \in {"data", "raw"} -> ev.x
      [] ev.k = "open"  -> <<LT>> \o ev.t \o RenderAttrs(ev.a) \o <<GT>>
      [] ev.k = "void"  -> <<LT>> \o ev.t \o RenderAttrs(ev.a) \o <<GT>>
      [] ev.k = "self"  -> <<LT>> \o ev.t \o RenderAttrs(ev.a) \o sSELFEND
      [] ev.k = "close" -> sCLOSE \o ev.t \o <<GT>>
      [] ev.k = "noop"  -> <<>>
RenderAll(evs) == FlattenSeq([i \in 1..Len(evs) |-> Render(evs[i])])

\* What can be observed of an event from outside: its kind and its rendering.
Obs(ev) == [k |-> ev.k, r |-> Render(ev)]
NoObs == [k |-> "none", r |-> <<>>]
ObsAll(evs) == [i \in 1..Len(evs) |-> Obs(evs[i])]

\* Observations up to the splitting of text: neighbouring text is joined, empty text dropped.
NormObs(os) == FoldLeft(LAMBDA acc, o :
    IF o.k = "noop" \/ (o.k \in {"data", "raw"} /\ o.r = <<>>) THEN acc
    ELSE IF o.k \in {"data", "raw"} /\ Len(acc) > 0 /\ acc[Len(acc)].k = o.k
         THEN [acc EXCEPT ![Len(acc)].r = @ \o o.r]
         ELSE Append(acc, o), <<>>, os)

\* The same for events.
Norm(evs) == FoldLeft(LAMBDA acc, e :
    IF e.k = "noop" \/ (e.k \in {"data", "raw"} /\ e.x = <<>>) THEN acc
    ELSE IF e.k \in {"data", "raw"} /\ Len(acc) > 0 /\ acc[Len(acc)].k = e.k
         THEN [acc EXCEPT ![Len(acc)].x = @ \o e.x]
         ELSE Append(acc, e), <<>>, evs)

(************************* nesting *****************************************)
\* Stack of open tag names after evs, or <<"bad">>-marked failure.
NestStack(evs) == FoldLeft(LAMBDA s, e :
    IF s.bad THEN s
    ELSE IF e.k = "open" THEN [s EXCEPT !.st = Append(@, e.t)]
    ELSE IF e.k = "close"
         THEN IF Len(s.st) > 0 /\ IdEq(s.st[Len(s.st)], e.t)
              THEN [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
              ELSE [s EXCEPT !.bad = TRUE]
    ELSE s, [st |-> <<>>, bad |-> FALSE], evs)
Nested(evs) == LET s == NestStack(evs) IN ~s.bad /\ s.st = <<>>

RECURSIVE EndFrom(_, _, _, _)
\* Position of the closing tag of an element named n, scanning from j with d equally named
\* elements open inside; Len+1 if there is none.
EndFrom(evs, j, n, d) ==
    IF j > Len(evs) THEN j
    ELSE IF evs[j].k = "open" /\ IdEq(evs[j].t, n) THEN EndFrom(evs, j + 1, n, d + 1)
    ELSE IF evs[j].k = "close" /\ IdEq(evs[j].t, n)
         THEN IF d = 0 THEN j ELSE EndFrom(evs, j + 1, n, d - 1)
    ELSE EndFrom(evs, j + 1, n, d)
\* Last position of the element that starts at i.
ElemEnd(evs, i) == IF evs[i].k = "open" THEN EndFrom(evs, i + 1, evs[i].t, 0) ELSE i

\* Number of elements open around position i.
DepthAt(evs, i) == Cardinality({j \in 1..(i - 1) : evs[j].k = "open"})
                   - Cardinality({j \in 1..(i - 1) : evs[j].k = "close"})

(************************* attribute lists *********************************)
HasAttr(as, n)    == \E i \in 1..Len(as) : IdEq(as[i].n, n)
RemoveAttr(as, n) == SelectSeq(as, LAMBDA a : ~IdEq(a.n, n))
AddAttr(as, new)  == Append(as, new)
SetAttr(as, new)  == Append(RemoveAttr(as, new.n), new)
ReplaceAttr(as, new) == IF HasAttr(as, new.n) THEN SetAttr(as, new) ELSE as
FirstAttr(as, n)  == CHOOSE i \in 1..Len(as) :
                        IdEq(as[i].n, n) /\ \A j \in 1..(i - 1) : ~IdEq(as[j].n, n)
AddToAttr(as, n, v, sep) ==
    IF HasAttr(as, n)
    THEN LET i == FirstAttr(as, n)
         IN [as EXCEPT ![i] = Attr(@.n, IF @.h THEN @.v \o sep \o v ELSE v)]
    ELSE Append(as, Attr(n, v))

IsClassAttr(a) == a.h /\ IdEq(a.n, ClassName)
ClassesOf(a) == IF IsClassAttr(a) THEN Words(a.v) ELSE <<>>
AttrHasClass(a, c) == LET ws == ClassesOf(a) IN \E i \in 1..Len(ws) : IdEq(ws[i], c)
HasClass(as, c) == \E i \in 1..Len(as) : AttrHasClass(as[i], c)
HasId(as, id) == \E i \in 1..Len(as) : as[i].h /\ IdEq(as[i].n, IdName) /\ IdEq(as[i].v, id)
JoinSp(ws) == FoldLeft(LAMBDA acc, w : IF acc = <<>> THEN w ELSE acc \o <<SPACE>> \o w, <<>>, ws)
RemoveClass(as, c) ==
    FoldLeft(LAMBDA acc, a :
        IF ~AttrHasClass(a, c) THEN Append(acc, a)
        ELSE LET rest == SelectSeq(ClassesOf(a), LAMBDA w : ~IdEq(w, c))
             IN IF rest = <<>> THEN acc ELSE Append(acc, [a EXCEPT !.v = JoinSp(rest)]),
        <<>>, as)

(************************* selectors ***************************************)
\* Parsed form of a selector: [tag: <<>> or <<name>>, id: .., cl: Seq(name)], or an error.
\* Texts of the form tag#id.class.class
ParseStatic(t) ==
    LET tagEnd == ScanTo(t, 1, {HASH, DOT})
        tag == SubSeq(t, 1, tagEnd - 1)
        hasId == tagEnd <= Len(t) /\ t[tagEnd] = HASH
        idEnd == IF hasId THEN ScanTo(t, tagEnd + 1, {DOT}) ELSE tagEnd
        id == IF hasId THEN SubSeq(t, tagEnd + 1, idEnd - 1) ELSE <<>>
        hasCl == idEnd <= Len(t)
        cl == IF hasCl THEN SplitOn(t, idEnd + 1, DOT) ELSE <<>>
        badCl == {i \in 1..Len(cl) : ~IdOk(cl[i])}
        firstBad == CHOOSE i \in badCl : \A j \in badCl : i <= j
        SE(r) == [e |-> "StaticSelector", s |-> r]
    IN IF Len(tag) > 0 /\ ~IdOk(tag)
       THEN [err |-> SE([e |-> "Tag", id |-> IdErr(tag)])]
       ELSE IF hasId /\ ~IdOk(id) THEN [err |-> SE([e |-> "Id", id |-> IdErr(id)])]
       ELSE IF badCl # {}
       THEN [err |-> SE([e |-> "Class", index |-> firstBad - 1, id |-> IdErr(cl[firstBad])])]
       ELSE IF Len(t) = 0 THEN [err |-> SE([e |-> "Unrestricted"])]
       ELSE [err |-> NoErr, tag |-> IF Len(tag) > 0 THEN <<tag>> ELSE <<>>,
             id |-> IF hasId THEN <<id>> ELSE <<>>, cl |-> cl]

\* s: selector as written in a program
SelErr(s) ==
    LET SE(r) == [e |-> "Selector", s |-> r]
        One(kind) == IF IdOk(s.x) THEN NoErr ELSE SE([e |-> kind, id |-> IdErr(s.x)])
    IN CASE s.s = "static" -> ParseStatic(s.x).err
         [] s.s = "tag"    -> One("Tag")
         [] s.s = "id"     -> One("Id")
         [] s.s = "class"  -> One("Class")
         [] s.s = "classes" ->
              LET bad == {i \in 1..Len(s.xs) : ~IdOk(s.xs[i])}
                  first == CHOOSE i \in bad : \A j \in bad : i <= j
              IN IF bad # {}
                 THEN SE([e |-> "Classes",
                          c |-> [e |-> "Identifier", index |-> first - 1, id |-> IdErr(s.xs[first])]])
                 ELSE IF s.xs = <<>> THEN SE([e |-> "Classes", c |-> [e |-> "Empty"]])
                 ELSE NoErr
         [] s.s = "custom" -> NoErr

\* Does selector s match event ev?
Matches(s, ev) ==
    IF s.s = "custom" THEN \E i \in 1..Len(s.ks) : s.ks[i] = ev.k
    ELSE IF ~IsTag(ev) THEN FALSE
    ELSE CASE s.s = "tag"   -> IdEq(s.x, ev.t)
           [] s.s = "id"    -> HasId(ev.a, s.x)
           [] s.s = "class" -> HasClass(ev.a, s.x)
           [] s.s = "classes" -> \A i \in 1..Len(s.xs) : HasClass(ev.a, s.xs[i])
           [] s.s = "static" ->
                LET p == ParseStatic(s.x)
                IN /\ \A i \in 1..Len(p.tag) : IdEq(p.tag[i], ev.t)
                   /\ \A i \in 1..Len(p.id) : HasId(ev.a, p.id[i])
                   /\ \A i \in 1..Len(p.cl) : HasClass(ev.a, p.cl[i])
=============================================================================
