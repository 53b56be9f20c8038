----------------------------- MODULE MCSelector -----------------------------
(***************************************************************************)
(* Small-scope model of selectors: selector texts typed in character by    *)
(* character ("text"), and every selector of a pool on every element with  *)
(* up to MaxLen attributes of a pool ("match"), and lists of class names    *)
(* of a pool ("list").                                                      *)
(***************************************************************************)
EXTENDS Markup, Json

CONSTANTS MaxLen, Profile

VARIABLES x, n, as, sel, phase
vars == <<x, n, as, sel, phase>>

Chars == {97, 66, 46, 35, 32, 233, 44}
A1(s) == Attr(ClassName, T(s))
Attrs == {A1("k"), A1("l  K"), A1("kk k-l"), Attr(ClassName, <<10>> \o T("l") \o <<9>>), Attr(ClassName, T("k") \o <<160>> \o T("m")),
          Bare(ClassName), A1(""), Attr(T("CLASS"), T("m")), Attr(IdName, T("k")), Attr(T("ID"), T("K l")), Bare(IdName),
          Attr(IdName, T("L")), Attr(T("data-class"), T("k")), Attr(T("t"), T("k")), Attr(IdName, T(" k"))}
S(w, t) == [s |-> w, x |-> T(t)]
Pool == {S("tag", "a"), S("tag", "K"), S("id", "k"), S("id", "l"), S("class", "k"), S("class", "L"), S("class", "m"), S("class", "kk"),
         [s |-> "classes", xs |-> <<T("k"), T("l")>>], [s |-> "classes", xs |-> <<T("k"), T("m")>>], [s |-> "classes", xs |-> <<T("l")>>],
         S("static", "a"), S("static", "#k"), S("static", ".k"), S("static", ".l.k"), S("static", "A#K.L"), S("static", "a.kk"),
         S("static", "b#l"), S("static", "#k.k.k"), S("static", ".m.l.k")}

Listable == {T("k"), T("K"), T("l"), T("kk"), T(""), T("k l"), T("k="), <<233>>}
Init == x = <<>> /\ n = 0 /\ as = <<>> /\ phase = "make"
        /\ sel \in CASE Profile = "match" -> Pool
                   [] Profile = "list" -> {[s |-> "classes", xs |-> <<>>]}
                   [] OTHER -> {S("static", "")}
AddWord == /\ Profile = "list" /\ phase = "make" /\ n < MaxLen /\ n' = n + 1
           /\ \E w \in Listable : sel' = [sel EXCEPT !.xs = Append(@, w)]
           /\ UNCHANGED <<x, as, phase>>
Type == /\ Profile = "text" /\ phase = "make" /\ n < MaxLen /\ n' = n + 1
        /\ \E c \in Chars : x' = Append(x, c) /\ sel' = [s |-> "static", x |-> Append(x, c)]
        /\ UNCHANGED <<as, phase>>
AddAttribute == /\ Profile = "match" /\ phase = "make" /\ n < MaxLen /\ n' = n + 1
                /\ \E a \in Attrs : as' = Append(as, a)
                /\ UNCHANGED <<x, sel, phase>>
Apply == phase = "make" /\ phase' = "done" /\ UNCHANGED <<x, n, as, sel>>
Next == Type \/ AddAttribute \/ AddWord \/ Apply
Spec == Init /\ [][Next]_vars

(************************* properties **************************************)
\* C06: the accepted selector texts, as a grammar.
\* A split of the text: tag up to #/., id up to ., the rest classes each introduced by a dot.
Splits == {<<i, j>> \in (0..Len(x)) \X (0..Len(x)) : i <= j}
Dots(t) == {i \in 1..Len(t) : t[i] = DOT}
ClassesOk(t) == t = <<>> \/ (t[1] = DOT /\ \A i \in Dots(t) :
                    LET nexts == {j \in Dots(t) : j > i}
                        e == IF nexts = {} THEN Len(t) + 1 ELSE CHOOSE j \in nexts : \A m \in nexts : j <= m
                    IN IdOk(SubSeq(t, i + 1, e - 1)))
Grammar == x # <<>> /\ \E s \in Splits :
    LET tag == SubSeq(x, 1, s[1])
        id == SubSeq(x, s[1] + 1, s[2])
        cl == SubSeq(x, s[2] + 1, Len(x))
    IN /\ tag = <<>> \/ (IdOk(tag) /\ Dots(tag) = {} /\ \A i \in 1..Len(tag) : tag[i] # HASH)
       /\ id = <<>> \/ (id[1] = HASH /\ IdOk(Tail(id)) /\ Dots(id) = {})
       /\ ClassesOk(cl)
Static == sel.s = "static" /\ phase = "make"
Accepted == (Static /\ Profile = "text") => (SelErr(sel) = NoErr <=> Grammar)
\* The error names a part which is really there and really wrong, all parts before it being right.
Blame == (Static /\ Profile = "text" /\ SelErr(sel) # NoErr) =>
    LET s == SelErr(sel).s
        head == SubSeq(x, 1, ScanTo(x, 1, {HASH, DOT}) - 1)
    IN /\ (s.e = "Unrestricted") = (x = <<>>)
       /\ (s.e = "Tag") = (head # <<>> /\ ~IdOk(head))
       /\ s.e = "Class" => \E i \in Dots(x) : Cardinality({j \in Dots(x) : j < i}) = s.index /\ s.id = IdErr(SubSeq(x, i + 1, ScanTo(x, i + 1, {DOT}) - 1))
       /\ s.e \in {"Tag", "Id", "Class"} => s.id # NoErr
\* C06, C14: a list of classes is refused when it is empty or for the first name in it which is none, which is told.
ListError == Profile = "list" =>
    LET bad == {i \in 1..Len(sel.xs) : ~IdOk(sel.xs[i])}
    IN /\ (SelErr(sel) = NoErr) = (sel.xs # <<>> /\ bad = {})
       /\ bad # {} => \E i \in bad : (\A j \in bad : i <= j) /\ SelErr(sel).s.c.index = i - 1 /\ SelErr(sel).s.c.id = IdErr(sel.xs[i])
\* C06: matching, stated on the characters of attribute values.
IsWord(v, i, j) == /\ (i = 1 \/ v[i - 1] \in WhiteSpace) /\ (j = Len(v) \/ v[j + 1] \in WhiteSpace)
HasWord(v, c) == \E i \in 1..Len(v) : i + Len(c) - 1 <= Len(v) /\ IdEq(SubSeq(v, i, i + Len(c) - 1), c) /\ IsWord(v, i, i + Len(c) - 1)
ClassThere(c) == \E i \in 1..Len(as) : as[i].h /\ LowerT(as[i].n) = ClassName /\ HasWord(as[i].v, c)
IdThere(d) == \E i \in 1..Len(as) : as[i].h /\ LowerT(as[i].n) = IdName /\ LowerT(as[i].v) = LowerT(d)
\* (the pool's texts are written out: parts of each)
Parts(t) == LET e == ScanTo(t, 1, {HASH, DOT})
                h == e <= Len(t) /\ t[e] = HASH
                f == IF h THEN ScanTo(t, e, {DOT}) ELSE e
            IN [tag |-> SubSeq(t, 1, e - 1), id |-> IF h THEN SubSeq(t, e + 1, f - 1) ELSE <<>>, cl |-> SubSeq(t, f, Len(t))]
Holds(tag) ==
    CASE sel.s = "tag" -> LowerT(tag) = LowerT(sel.x)
      [] sel.s = "id" -> IdThere(sel.x)
      [] sel.s = "class" -> ClassThere(sel.x)
      [] sel.s = "classes" -> \A i \in 1..Len(sel.xs) : ClassThere(sel.xs[i])
      [] sel.s = "static" -> LET p == Parts(sel.x)
                             IN /\ p.tag = <<>> \/ LowerT(p.tag) = LowerT(tag)
                                /\ p.id = <<>> \/ IdThere(p.id)
                                /\ \A i \in Dots(p.cl) : ClassThere(SubSeq(p.cl, i + 1, ScanTo(p.cl, i + 1, {DOT}) - 1))
Kinds(t) == <<Open(t, as), Self(t, as), Void(T("br"), as)>>
MatchLaw == Profile = "match" => \A t \in {T("a"), T("A"), T("k")} : \A i \in 1..2 :
                Matches(sel, Kinds(t)[i]) = Holds(t)
FormFree == Profile = "match" => Matches(sel, Kinds(T("a"))[1]) = Matches(sel, Kinds(T("a"))[2])
OnlyTags == Profile = "match" => \A e \in {Close(T("a")), Close(T("k")), Data(T("k")), Raw(T("k")), Ev("comment", <<>>, <<>>, T("k")),
                                             Ev("doctype", <<>>, <<>>, T("html"))} : ~Matches(sel, e)

Listed == IF Profile = "list" THEN <<A1("K l kk")>> ELSE as
Doc == <<Ev("comment", <<>>, <<>>, T("k"))>> \o <<Open(T("a"), Listed), Data(T("k")), Close(T("a")), Open(T("K"), <<>>), Close(T("K")), Void(T("br"), as), Self(T("b"), as)>>
Export == phase = "done" => PrintT(ToJson([k |-> "sel", parsed |-> TRUE, sel |-> sel, doc |-> Doc]))
=============================================================================
