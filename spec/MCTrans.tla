------------------------------ MODULE MCTrans -------------------------------
(***************************************************************************)
(* Small-scope model of transformations: every document of at most Size    *)
(* nodes of a profile with every program of the profile, executed by the   *)
(* pull machine one event at a time.                                       *)
(***************************************************************************)
EXTENDS Pull, Regions, Json

CONSTANTS Profile, Size

(************************* documents ***************************************)
Cl(v) == Attr(ClassName, T(v))
N(x) == T(x)
TextNodes == {<<Data(T("x"))>>}
Comments == {<<Ev("comment", <<>>, <<>>, T("c"))>>}
Pair(t, a) == <<Open(T(t), a), Close(T(t))>>

\* Leaves and elements of a profile; elements are pairs of tags.
Leaves ==
    CASE Profile \in {"select", "subselect", "chain"} ->
           TextNodes \cup {<<Void(N("br"), <<Cl("k")>>)>>, <<Self(N("a"), <<>>)>>}
      [] Profile \in {"content", "repeat", "compose"} ->
           TextNodes \cup {<<Void(N("br"), <<Cl("k")>>)>>, <<Self(N("b"), <<Cl("k"), Attr(N("t"), <<>>), Bare(N("u"))>>)>>}
      [] Profile = "log" -> {<<Self(N("a"), <<>>)>>}
      [] Profile = "broken" -> TextNodes \cup {<<Self(N("a"), <<>>)>>}
      [] Profile = "error" -> TextNodes \cup {<<Void(N("br"), <<Cl("k")>>)>>}
      [] OTHER -> {}
Elems ==
    CASE Profile \in {"select", "subselect", "chain"} -> {Pair("a", <<>>), Pair("b", <<Cl("k")>>)}
      [] Profile \in {"content", "compose"} -> {Pair("a", <<>>), Pair("b", <<Cl("k")>>)}
      [] Profile = "repeat" -> {Pair("b", <<Cl("k")>>)}
      [] Profile = "log" -> {Pair("a", <<>>), Pair("b", <<>>)}
      [] Profile = "broken" -> {Pair("a", <<>>)}
      [] Profile = "error" -> {Pair("a", <<>>), Pair("b", <<Cl("k")>>)}
      [] OTHER -> {}

\* Forests of exactly n nodes without neighbouring texts.
Forests[n \in 0..Size] ==
    IF n = 0 THEN {<<>>}
    ELSE UNION {
        LET firsts == IF k = 1 THEN Leaves \cup Elems
                      ELSE UNION {{<<e[1]>> \o f \o <<e[2]>> : e \in Elems} : f \in Forests[k - 1]}
        IN {a \o b : a \in firsts, b \in Forests[n - k]} : k \in 1..n}
NoTextPairs(evs) == \A i \in 1..(Len(evs) - 1) : ~(evs[i].k = "data" /\ evs[i + 1].k = "data")

AttrPool == {Attr(N("t"), N("1")), Bare(N("t")), Attr(N("T"), N("2")), Attr(N("u"), N("3"))}
ClassPool == {Cl("k"), Cl("l k"), Attr(N("CLASS"), T(" K  l k")), Bare(ClassName), Attr(N("id"), N("k")),
              Attr(N("ID"), N("j")), Cl(""), Cl("kk"), Bare(IdName)}
AttrLists(pool) == UNION {[1..n -> pool] : n \in 0..Size}
OneElement(as) == {<<Void(N("br"), as), Data(N("x"))>>, <<Self(N("a"), as), Data(N("x"))>>,
                   <<Open(N("a"), as), Open(N("a"), as), Close(N("a")), Close(N("a"))>>}

Docs == CASE Profile = "attr"  -> UNION {OneElement(as) : as \in AttrLists(AttrPool)}
          [] Profile = "class" -> UNION {OneElement(as) : as \in AttrLists(ClassPool)}
          [] Profile = "insert" -> {<<Self(N("a"), <<Attr(N("t"), T("&amp;"))>>)>>,
                                    <<Open(N("a"), <<Bare(N("t"))>>), Data(N("x")), Close(N("a"))>>}
          [] OTHER -> UNION {{f \in Forests[n] : NoTextPairs(f)} : n \in 0..Size}

(************************* programs ****************************************)
STag(t) == [s |-> "tag", x |-> T(t)]
SCls(c) == [s |-> "class", x |-> T(c)]
SSta(x) == [s |-> "static", x |-> T(x)]
SAll == SSta("a")
Sl(sel, direct, once, sub, p, id) ==
    [o |-> "sel", sel |-> sel, direct |-> direct, once |-> once, sub |-> sub, p |-> p, id |-> id]
Txt(x) == [c |-> "str", x |-> T(x)]
EnvC == [c |-> "env", d |-> 0]
Elt(x) == [c |-> "tpl", ev |-> <<Open(N(x), <<>>), Data(N("y")), Close(N(x))>>, w |-> "own", parsed |-> TRUE]
Op1(o) == [o |-> o]
OpC(o, c) == [o |-> o, c |-> c]
Rep(o, items, p, id) == [o |-> o, items |-> items, p |-> p, id |-> id]
RepE(o, items, p, q, id) == [o |-> o, items |-> items, p |-> p, q |-> q, id |-> id]
ErrC(n) == [c |-> "err", err |-> InputErr([e |-> "LengthLimitExceeded", limit |-> n])]
Marks == <<OpC("prepend", Txt("[")), OpC("append", EnvC), OpC("append", Txt("]"))>>

SelSet == {STag("a"), SCls("k"), SSta("b.k"), SSta(".k")}
Every == [direct : BOOLEAN, once : BOOLEAN]

SelectProgs ==
    {<<Sl(s, f.direct, f.once, FALSE, p, 0)>> :
        s \in SelSet, f \in Every, p \in {<<>>, Marks, <<Op1("remove")>>, <<OpC("replace", Elt("a"))>>}}
SubProgs ==
    {<<Sl(s, FALSE, f.once, FALSE, <<Sl(s2, f2.direct, f2.once, TRUE, p, 0)>>, 0)>> :
        s \in {STag("a"), SCls("k")}, s2 \in {STag("a"), SCls("k")}, f \in [once : BOOLEAN], f2 \in Every,
        p \in {Marks, <<>>}}
    \cup {<<Sl(STag("a"), FALSE, FALSE, FALSE, <<Sl(STag("a"), f.direct, f.once, FALSE, Marks, 0)>>, 0)>> : f \in Every}
ChainProgs ==
    {<<Sl(s1, f1.direct, f1.once, FALSE, p1, 0), Sl(s2, f2.direct, f2.once, FALSE, Marks, 0)>> :
        s1 \in {STag("a"), SCls("k")}, s2 \in {STag("a")}, f1 \in Every, f2 \in Every,
        p1 \in {Marks, <<OpC("replace", Elt("a"))>>, <<OpC("prepend", Elt("a"))>>, <<OpC("appendc", Elt("a"))>>}}

Conts == {Txt("#"), Elt("b"), [c |-> "elem", x |-> N("br")], [c |-> "int", x |-> T("-7"), ty |-> "i8"]}
ElOps == {OpC(o, c) : o \in {"prepend", "append", "replace", "prependc", "appendc", "replacec"}, c \in Conts}
         \cup {Op1("remove"), Op1("removec")}
OpElem(o) == o.o \in {"removec", "prependc", "appendc", "replacec"}
ContentProgs ==
    {<<Sl(SCls("k"), FALSE, FALSE, FALSE, <<x>>, 0)>> : x \in ElOps}
    \cup {<<Sl(SSta("b"), FALSE, FALSE, FALSE, <<x, y>>, 0)>> :
            x \in {z \in ElOps : OpElem(z)}, y \in {z \in ElOps : z.o \in {"append", "prependc", "appendc", "removec", "replacec", "replace"}}}
    \cup {<<x>> : x \in {z \in ElOps : ~OpElem(z)}}

Items == {<<>>, <<5>>, <<1, 2>>, <<3, 3, 4>>}
Bodies == {<<>>, <<OpC("append", EnvC)>>, <<Op1("remove")>>}
ElBodies == Bodies \cup {<<[o |-> "setattr", name |-> N("i"), val |-> [c |-> "env", d |-> 0]], OpC("appendc", EnvC)>>}
RepeatProgs ==
    {<<Sl(SSta("b"), FALSE, FALSE, FALSE, <<x>>, 0)>> :
        x \in {Rep("repeat", is, b, 0) : is \in Items, b \in ElBodies}
              \cup {Rep("repeatc", is, b, 0) : is \in Items, b \in Bodies}
              \cup {RepE("repeatelse", is, b, q, 0) : is \in Items, b \in ElBodies, q \in {<<>>, <<OpC("appendc", Txt("q"))>>}}
              \cup {RepE("repeatcelse", is, b, q, 0) : is \in Items, b \in Bodies, q \in {<<>>, <<OpC("append", Txt("q"))>>}}}
    \cup {<<Rep("repeat", is, <<Sl(SSta("br"), FALSE, FALSE, FALSE, <<OpC("replace", [c |-> "env", d |-> 1])>>, 0)>>, 0)>> : is \in Items}
    \cup {<<Sl(SSta("b"), FALSE, FALSE, FALSE, <<Rep("repeat", is, <<Rep("repeatc", js, b, 0)>>, 0)>>, 0)>> :
            is \in {<<1, 2>>}, js \in {<<>>, <<8, 9>>}, b \in {<<OpC("append", EnvC), OpC("append", [c |-> "env", d |-> 1])>>}}

Names == {N("t"), N("T"), N("u"), N("w")}
Vals == {Txt("v"), [c |-> "none"]}
AttrProgs ==
    {<<Sl(s, FALSE, TRUE, FALSE, <<op>>, 0)>> : s \in {[s |-> "custom", ks |-> <<"open", "self", "void">>]}, op \in
        {[o |-> o, name |-> n, val |-> v] : o \in {"addattr", "setattr"}, n \in Names, v \in Vals}
        \cup {[o |-> "replattr", name |-> n, val |-> Txt("v")] : n \in Names}
        \cup {[o |-> "rmattr", name |-> n] : n \in Names}
        \cup {[o |-> "addto", name |-> n, val |-> Txt("v"), sep |-> Txt("-")] : n \in Names}}
ClassProgs ==
    {<<Sl(s, FALSE, TRUE, FALSE, <<op>>, 0)>> : s \in {[s |-> "custom", ks |-> <<"open", "self", "void">>]}, op \in
        {[o |-> o, name |-> n] : o \in {"addclass", "rmclass", "setid"}, n \in {N("k"), N("K"), N("m")}}
        \cup {Op1("rmid")}}

\* Text of up to two pieces which mean something in markup.
Pieces == {T("&"), T("<"), T(">"), T("\""), T("'"), T("amp;"), T("a"), <<8364>>}
Texts == {<<>>} \cup Pieces \cup {a \o b : a \in Pieces, b \in Pieces}
InsertProgs ==
    {<<Sl(SAll, FALSE, FALSE, FALSE, <<op>>, 0)>> : op \in
        {OpC("appendc", [c |-> w, x |-> x]) :
            w \in {"str", "data", "value", "datas", "values", "dataref", "valueref", "datafrom"}, x \in Texts}
        \cup {[o |-> o, name |-> N("t"), val |-> [c |-> w, x |-> x]] :
            o \in {"addattr", "setattr", "replattr"}, w \in {"str", "value", "values", "valueref"}, x \in Texts}
        \cup {[o |-> "addto", name |-> N("t"), val |-> [c |-> "str", x |-> x], sep |-> [c |-> "value", x |-> x]] : x \in Texts}}

BadSel == SSta("a..b")
BadName == T("a b")
ErrorOps == {OpC("append", ErrC(2)), OpC("prepend", ErrC(3)), OpC("appendc", ErrC(4)), OpC("prependc", ErrC(5)),
             OpC("replace", ErrC(6)), [o |-> "setattr", name |-> BadName, val |-> Txt("v")],
             Sl(BadSel, FALSE, FALSE, FALSE, <<>>, 0), Sl(BadSel, FALSE, FALSE, TRUE, <<>>, 0),
             Rep("repeat", <<>>, <<OpC("append", ErrC(7))>>, 0), Rep("repeat", <<1>>, <<OpC("append", ErrC(8))>>, 0),
             OpC("append", [c |-> "parse", x |-> T("<a>"), maxd |-> -1, maxl |-> -1]),
             OpC("appendc", [c |-> "elem", x |-> BadName]),
             [o |-> "tpl", f |-> "err", err |-> ErrC(9).err],
             [o |-> "ifelse", b |-> TRUE, p |-> <<>>, q |-> <<OpC("append", ErrC(1))>>]}
ErrorProgs ==
    {<<Sl(s, FALSE, once, FALSE, <<x>>, 0)>> : s \in {STag("a"), SCls("k")}, once \in BOOLEAN, x \in ErrorOps}
    \cup {<<Sl(STag("a"), FALSE, FALSE, FALSE, <<x>>, 0), Sl(SCls("k"), FALSE, FALSE, FALSE, <<y>>, 0)>> : x \in ErrorOps, y \in ErrorOps}
    \cup {<<Sl(STag("a"), FALSE, FALSE, FALSE, <<x>>, 0), y>> : x \in ErrorOps,
            y \in {Op1("remove"), OpC("replace", Txt("r")), Rep("repeat", <<1, 2>>, <<>>, 0), Rep("repeat", <<>>, <<>>, 0),
                   [o |-> "tpl", f |-> "id"], OpC("append", ErrC(1)), OpC("prepend", ErrC(1))}}

\* Programs on an element and what they are wrapped in.
Base == {<<>>, <<OpC("appendc", Elt("b"))>>, <<Op1("remove")>>, <<OpC("replace", Elt("a"))>>,
         <<[o |-> "addclass", name |-> N("m")], OpC("prependc", EnvC)>>,
         <<Sl(STag("a"), FALSE, TRUE, FALSE, Marks, 0)>>, <<Rep("repeat", <<1, 2>>, <<OpC("append", EnvC)>>, 0)>>,
         <<OpC("append", ErrC(1))>>}
Wrappers == {"apply", "box", "boxel", "if", "ifelse", "opt", "res", "tpl"}
Other == <<OpC("append", ErrC(2))>>
\* Programs of boxed streams may only use stream operations.
StreamOnly(p) == \A i \in 1..Len(p) : p[i].o \in {"sel", "remove", "replace", "append", "prepend", "repeat"}
Wrap(w, p) ==
    CASE w \in {"apply", "box", "boxel"} -> [o |-> w, p |-> p, id |-> 0]
      [] w = "if"     -> [o |-> "if", b |-> TRUE, p |-> p, id |-> 0]
      [] w = "ifelse" -> [o |-> "ifelse", b |-> FALSE, p |-> Other, q |-> p, id |-> 0]
      [] w = "opt"    -> [o |-> "opt", b |-> FALSE, v |-> 9, p |-> Other, q |-> p, id |-> 0]
      [] w = "res"    -> [o |-> "res", b |-> TRUE, v |-> 1, p |-> p, q |-> Other, id |-> 0]
      [] w = "tpl"    -> [o |-> "tpl", f |-> "run", p |-> p, id |-> 0]
ComposeProgs ==
    {<<Sl(STag("a"), FALSE, TRUE, FALSE, <<Wrap(w, p)>>, 0)>> :
        w \in Wrappers \ {"box", "tpl"}, p \in Base}
    \cup {<<Sl(STag("a"), FALSE, TRUE, FALSE, <<Wrap(w, p)>>, 0)>> : w \in {"box", "tpl"}, p \in {b \in Base : StreamOnly(b)}}
    \cup {<<Wrap(w, p)>> : w \in Wrappers \ {"boxel"}, p \in {b \in Base : StreamOnly(b)}}
    \cup {<<Sl(STag("a"), FALSE, TRUE, FALSE, <<[o |-> "if", b |-> FALSE, p |-> Other, id |-> 0]>>, 0)>>}

\* Events of which the user puts any sequence into the stream.
Bits == {Open(N("a"), <<>>), Close(N("a")), Close(N("b")), Self(N("a"), <<>>), Data(N("t"))}
Given(es) == [c |-> "stream", ev |-> es, err |-> NoErr, id |-> 0]
BrokenSeqs == UNION {[1..n -> Bits] : n \in 1..3}
Users == {<<>>, <<Sl(STag("a"), FALSE, FALSE, FALSE, <<>>, 0)>>, <<Sl(STag("a"), TRUE, FALSE, FALSE, <<>>, 0)>>,
          <<Sl(STag("zz"), FALSE, FALSE, FALSE, <<>>, 0)>>, <<Sl(STag("a"), FALSE, TRUE, FALSE, Marks, 0)>>,
          <<Sl(STag("a"), FALSE, FALSE, FALSE, <<OpC("appendc", Txt("!"))>>, 0)>>,
          <<Sl(STag("a"), FALSE, FALSE, FALSE, <<Sl(STag("a"), FALSE, FALSE, TRUE, <<>>, 0)>>, 0)>>,
          <<Sl([s |-> "custom", ks |-> <<"close", "data">>], FALSE, FALSE, FALSE, <<>>, 0)>>,
          <<Sl(STag("a"), FALSE, FALSE, FALSE, <<[o |-> "addclass", name |-> N("m")]>>, 0)>>,
          <<Sl(STag("a"), FALSE, FALSE, FALSE, <<Rep("repeat", <<1, 2>>, <<>>, 0)>>, 0)>>,
          <<Rep("repeat", <<1, 2>>, <<>>, 0)>>, <<Op1("remove")>>}
BrokenProgs == {<<OpC("append", Given(es))>> \o u : es \in BrokenSeqs, u \in Users}
               \cup {<<Sl(STag("a"), FALSE, FALSE, FALSE, <<OpC("appendc", Given(es))>> \o u, 0)>> :
                       es \in BrokenSeqs, u \in {<<OpC("appendc", Txt("!"))>>, <<Sl(STag("a"), FALSE, FALSE, TRUE, <<>>, 0)>>}}

SlL(s, d, o, p, id) == Sl(s, d, o, FALSE, p, id)
LS(id) == [c |-> "stream", ev |-> <<Open(N("a"), <<>>), Data(N("t")), Close(N("a"))>>, err |-> NoErr, id |-> id]
LE(id) == [c |-> "stream", ev |-> <<Data(N("t"))>>, err |-> ErrC(1).err, id |-> id]
LogInner(id) == {<<>>, <<OpC("append", LS(id))>>, <<OpC("prepend", LS(id))>>, <<OpC("append", LE(id))>>, <<OpC("replace", LS(id))>>,
                 <<Rep("repeat", <<1, 2>>, <<OpC("append", LS(id + 1))>>, id)>>,
                 <<Rep("repeatc", <<1, 2>>, <<OpC("append", LS(id + 1))>>, id)>>,
                 <<RepE("repeatelse", <<>>, <<>>, <<OpC("append", LS(id + 1))>>, id)>>,
                 <<RepE("repeatcelse", <<3>>, <<>>, <<OpC("append", LS(id + 1))>>, id)>>,
                 <<[o |-> "tpl", f |-> "id", id |-> id], OpC("append", LS(id + 1))>>}
LogProgs == {<<SlL(STag("a"), FALSE, o, p, 1), SlL(STag("a"), FALSE, FALSE, q, 2)>> :
                o \in BOOLEAN, p \in LogInner(10), q \in LogInner(20)}

Progs == CASE Profile = "select"    -> SelectProgs
           [] Profile = "subselect" -> SubProgs
           [] Profile = "chain"     -> ChainProgs
           [] Profile = "content"   -> ContentProgs
           [] Profile = "repeat"    -> RepeatProgs
           [] Profile = "attr"      -> AttrProgs
           [] Profile = "class"     -> ClassProgs
           [] Profile = "insert"    -> InsertProgs
           [] Profile = "error"     -> ErrorProgs
           [] Profile = "compose"   -> ComposeProgs
           [] Profile = "broken"    -> BrokenProgs
           [] Profile = "log"       -> LogProgs

(************************* the machine *************************************)
VARIABLES doc, prog, m, a, out, st, err
vars == <<doc, prog, m, a, out, st, err>>

Init == /\ doc \in Docs /\ prog \in Progs
        /\ LET b == Start(prog, doc) IN m = b.m /\ a = b.a
        /\ out = <<>> /\ st = "run" /\ err = NoErr

PullNext ==
    /\ st = "run"
    /\ LET p == Pull(m, a)
       IN /\ m' = p.m
          /\ out' = IF p.r.t = "ev" THEN Append(out, p.r.e) ELSE out
          /\ st' = IF p.r.t = "ev" THEN "run" ELSE IF p.r.t = "end" THEN "done" ELSE "failed"
          /\ err' = IF p.r.t = "err" THEN p.r.e ELSE NoErr
    /\ UNCHANGED <<doc, prog, a>>
Next == PullNext
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == st # "run"
Done == st = "done"
TheOp == prog[1]
El(op) == op.p
Pos == {i \in 1..Len(doc) : TRUE}

(************************* properties **************************************)
\* The machine and the two machine-free descriptions agree (C07-C14, C16).
Agree == Over => LET d == RegionResult(prog, doc)
                     t == Transform(prog, doc)
                 IN /\ d.err = err /\ t.err = err
                    /\ Done => Norm(out) = Norm(d.ev) /\ Norm(out) = Norm(t.ev)
\* C08: what precedes the first selected element is untouched, at every moment.
Untouched == LET s == Selected(doc, TheOp.sel, TheOp.direct, TheOp.once)
                 first == IF s = {} THEN Len(doc) + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
             IN TheOp.o = "sel" /\ SelErr(TheOp.sel) = NoErr /\ Len(prog) = 1
                => \A i \in 1..Len(out) : i < first => out[i] = doc[i]
\* C08: with an identity as transformation nothing changes.
Identity == (Done /\ TheOp.o = "sel" /\ TheOp.p = <<>> /\ Len(prog) = 1) => out = doc
\* C15: nested documents stay nested and can be parsed again.
NestedOut == Done => /\ Nested(out)
                     /\ LET q == ParseAll(RenderAll(out), -1, -1)
                        IN q.err = NoErr /\ Norm(q.ev) = Norm(out)
\* C11, C12: attribute lists before and after, stated point by point.
Bef == doc[1].a
Aft == out[1].a
The == TheOp.p[1]
Same(n) == RemoveAttr(Bef, n) = RemoveAttr(Aft, n)
Count(as, n) == Cardinality({i \in 1..Len(as) : IdEq(as[i].n, n)})
OthersKept == Done => Tail(out) = Tail(doc) /\ [out[1] EXCEPT !.a = <<>>] = [doc[1] EXCEPT !.a = <<>>]
AttrLaw == Done =>
    CASE The.o = "setattr" -> Count(Aft, The.name) = 1 /\ Same(The.name) /\ Aft[Len(Aft)].n = The.name
                              /\ Aft[Len(Aft)].h = (The.val.c # "none")
      [] The.o = "addattr" -> SubSeq(Aft, 1, Len(Aft) - 1) = Bef /\ Aft[Len(Aft)].n = The.name
      [] The.o = "rmattr"  -> Count(Aft, The.name) = 0 /\ Same(The.name)
      [] The.o = "replattr" -> IF Count(Bef, The.name) = 0 THEN Aft = Bef
                               ELSE Count(Aft, The.name) = 1 /\ Same(The.name) /\ Aft[Len(Aft)] = Attr(The.name, T("v"))
      [] The.o = "addto" -> IF Count(Bef, The.name) = 0 THEN Aft = Append(Bef, Attr(The.name, T("v")))
                            ELSE \E i \in 1..Len(Bef) :
                                   /\ \A j \in 1..(i - 1) : ~IdEq(Bef[j].n, The.name)
                                   /\ \A j \in 1..Len(Bef) : j # i => Aft[j] = Bef[j]
                                   /\ Len(Aft) = Len(Bef) /\ IdEq(Bef[i].n, The.name)
                                   /\ Aft[i] = Attr(Bef[i].n, IF Bef[i].h THEN Bef[i].v \o T("-v") ELSE T("v"))
AllClasses(as) == FlattenSeq([i \in 1..Len(as) |-> ClassesOf(as[i])])
Prober == {N("k"), N("l"), N("kk"), N("m")}
NoClasses(as) == SelectSeq(as, LAMBDA x : ~IdEq(x.n, ClassName))
ClassLaw == Done =>
    CASE The.o = "addclass" -> /\ HasClass(Aft, The.name)
                               /\ \A c \in Prober : HasClass(Bef, c) => HasClass(Aft, c)
                               /\ \A c \in Prober : HasClass(Aft, c) /\ ~IdEq(c, The.name) => HasClass(Bef, c)
                               /\ NoClasses(Aft) = NoClasses(Bef)
                               /\ Len(Aft) = Len(Bef) + (IF Count(Bef, ClassName) = 0 THEN 1 ELSE 0)
      [] The.o = "rmclass"  -> /\ ~HasClass(Aft, The.name)
                               /\ AllClasses(Aft) = SelectSeq(AllClasses(Bef), LAMBDA c : ~IdEq(c, The.name))
                               /\ NoClasses(Aft) = NoClasses(Bef)
                               /\ (~HasClass(Bef, The.name) => Aft = Bef)
                               /\ \A i \in 1..Len(Aft) : (IsClassAttr(Aft[i]) /\ ClassesOf(Aft[i]) = <<>>)
                                     => \E j \in 1..Len(Bef) : Bef[j] = Aft[i]
      [] The.o = "setid"    -> /\ Count(Aft, IdName) = 1 /\ HasId(Aft, The.name) /\ Same(IdName)
      [] The.o = "rmid"     -> Count(Aft, IdName) = 0 /\ Same(IdName)
\* C13: inserted text is one text or one attribute value again, and decodes to what was given.
InsertLaw == Done =>
    LET q == ParseAll(RenderAll(out), -1, -1)
        before == IF doc[1].k = "open" THEN doc[2].x ELSE <<>>
        old == doc[1].a[1]
    IN /\ q.err = NoErr
       /\ IF The.o = "appendc"
          THEN /\ Len(q.ev) <= 3 /\ (IF Len(q.ev) = 3 THEN q.ev[2].x ELSE <<>>) = before \o Escape(The.c.x)
               /\ Unescape(Escape(The.c.x)) = The.c.x
          ELSE IF The.o = "addto"
          THEN q.ev[1].a = <<Attr(old.n, IF old.h THEN old.v \o Escape(The.sep.x) \o Escape(The.val.x) ELSE Escape(The.val.x))>>
          ELSE LET x == q.ev[1].a[Len(q.ev[1].a)] IN x.h /\ Unescape(x.v) = The.val.x
\* C16: a chain of two transformations is the second on the result of the first.
TwoPassLaw == (Over /\ Len(prog) = 2) =>
    LET one == PullTransform(<<prog[1]>>, doc)
        two == PullTransform(<<prog[2]>>, one.ev)
    IN Done => one.err = NoErr /\ two.err = NoErr /\ Norm(two.ev) = Norm(out)
\* C16: a wrapped program gives what the program itself gives.
Inner1(p) == IF p.o \in {"apply", "box", "boxel", "if", "res"} THEN (IF p.o = "if" /\ ~p.b THEN <<>> ELSE p.p)
             ELSE IF p.o \in {"ifelse", "opt"} THEN p.q
             ELSE IF p.o = "tpl" THEN p.p ELSE <<p>>
Unwrapped == IF TheOp.o = "sel" /\ Len(TheOp.p) = 1 THEN <<[TheOp EXCEPT !.p = Inner1(TheOp.p[1])]>>
             ELSE IF TheOp.o = "sel" THEN prog ELSE Inner1(TheOp)
WrapLaw == Over => LET r == PullTransform(Unwrapped, doc)
                   IN r.err = err /\ (Done => Norm(r.ev) = Norm(out))
\* C19: nothing is repaired: what is passed through identity selections is the input.
WholeInput == IF TheOp.o = "append" THEN doc \o TheOp.c.ev ELSE doc
NotRepaired == (Done /\ TheOp.o = "append" /\ \A i \in 2..Len(prog) : prog[i].o = "sel" /\ prog[i].p = <<>>)
               => out = WholeInput
\* C19: with a selection which matches nothing, an error is reported exactly at the first closing
\* tag with nothing open, and everything before it has been passed on.
FirstUnopened(evs) == {i \in 1..Len(evs) : evs[i].k = "close" /\ Before(evs, i) = 0
                                             /\ \A j \in 1..i : Before(evs, j) >= 0}
StrayReported == (Over /\ TheOp.o = "append" /\ Len(prog) = 2 /\ prog[2].o = "sel" /\ prog[2].sel = STag("zz"))
                 => LET w == WholeInput
                        s == FirstUnopened(w)
                    IN IF s = {} THEN Done /\ out = w
                       ELSE LET i == CHOOSE i \in s : TRUE
                            IN err = UnexpectedClose(w[i].t) /\ out = SubSeq(w, 1, i - 1)
AssertionOnly == (st = "failed" /\ Profile = "broken") => err.e = "Assertion"
\* C20: closures are called in order, iterators asked once per item, nothing after a failure.
LogOf(w, id) == SelectSeq(m.log, LAMBDA x : x.w = w /\ x.id = id)
CallsInOrder == \A id \in {1, 2} : LET l == LogOf("call", id) IN \A i \in 1..Len(l) : l[i].x = i
\* (one object per log entry number and call: a stream is built once per call)
NothingAfterFailure == \A i \in 1..Len(m.log) : m.log[i].w = "pullerr" => i = Len(m.log)
\* C20: a call for the first selection precedes calls of the second for the same element.
LazyCalls == LET l1 == LogOf("call", 1)
                 s == Selected(doc, STag("a"), FALSE, TheOp.once)
             IN st # "failed" /\ Done => Len(l1) = Cardinality(s)
\* C20: no selection is called before everything in front of the selected element is out.
LazyStart == LET s == Selected(doc, STag("a"), FALSE, TheOp.once)
                 first == IF s = {} THEN Len(doc) + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
             IN Profile = "log" => (Len(LogOf("call", 1)) > 0 => Len(out) >= first - 1)
\* C21: every program comes to an end.
Terminates == <>(st # "run")

Export == Over => PrintT(ToJson([k |-> "trans", doc |-> doc, prog |-> prog, parsed |-> TRUE]))
=============================================================================
