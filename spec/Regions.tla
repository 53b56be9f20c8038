------------------------------ MODULE Regions -------------------------------
(***************************************************************************)
(* What the properties say about transformations, without any machine: a   *)
(* selection picks regions of the document (found by counting tags, not by *)
(* comparing names), and the output of an operation is put in their place. *)
(* Failures are marks inside the output; the first one is the result.      *)
(* This is the yardstick for modules Sem and Pull; it only covers          *)
(* well-formed documents and contents.                                     *)
(***************************************************************************)
EXTENDS Sem

Fl(err) == [k |-> "fail", t |-> <<>>, a |-> <<>>, x |-> <<>>, err |-> err]
IsFail(e) == e.k = "fail"
Fails(evs) == SelectSeq(evs, IsFail)
HasFail(evs) == \E i \in 1..Len(evs) : IsFail(evs[i])
FirstFail(evs) == <<Fails(evs)[1]>>

\* Depth before position i.
Before(evs, i) == DepthAt(evs, i)
\* Last position of the element starting at i: where the depth is back at its level.
RegionEnd(evs, i) ==
    IF evs[i].k # "open" THEN i
    ELSE CHOOSE j \in (i + 1)..Len(evs) :
            /\ evs[j].k = "close" /\ Before(evs, j + 1) = Before(evs, i)
            /\ \A n \in (i + 1)..j : Before(evs, n) > Before(evs, i)

Candidates(evs, sel, direct) ==
    {i \in 1..Len(evs) : IsTag(evs[i]) /\ Matches(sel, evs[i]) /\ (direct => Before(evs, i) = 0)}
Selected(evs, sel, direct, once) ==
    LET cs == Candidates(evs, sel, direct)
        top == {i \in cs : ~\E j \in cs : j < i /\ i <= RegionEnd(evs, j)}
    IN IF once /\ top # {} THEN {CHOOSE i \in top : \A j \in top : i <= j} ELSE top

RECURSIVE D(_, _, _), DOp(_, _, _), DCont(_, _), Inner(_, _, _)

\* Put F(k, region) in the place of the k-th region.
Splice(evs, starts, F(_, _)) ==
    LET n(i) == Cardinality({j \in starts : j <= i})
        inside(i) == \E j \in starts : j < i /\ i <= RegionEnd(evs, j)
    IN FlattenSeq([i \in 1..Len(evs) |->
          IF i \in starts THEN F(n(i), SubSeq(evs, i, RegionEnd(evs, i)))
          ELSE IF inside(i) THEN <<>> ELSE <<evs[i]>>])

D(prog, evs, env) == IF prog = <<>> THEN evs ELSE D(Tail(prog), DOp(Head(prog), evs, env), env)

Marked(s) == IF s.err = NoErr THEN s.ev ELSE Append(s.ev, Fl(s.err))
DCont(c, env) ==
    IF c.c = "telem" /\ IdOk(c.x)
    THEN LET r == D(c.p, <<Single(c.x)>>, Append(env, 1)) IN IF HasFail(r) THEN FirstFail(r) ELSE r
    ELSE IF c.c = "ok" THEN DCont(c.i, env)
    ELSE Marked(Cont(c, env))

\* Operation o on the contents of an element.
Inner(o, el, env) ==
    LET e == el[1]
        s(n) == SubSeq(el, n, n)
    IN IF el = <<>> \/ IsFail(e) \/ e.k = "void" THEN el
       ELSE IF e.k = "self" THEN <<Open(e.t, e.a)>> \o DOp(o, <<>>, env) \o <<Close(e.t)>>
       ELSE s(1) \o DOp(o, SubSeq(el, 2, Len(el) - 1), env) \o s(Len(el))

DOp(o, evs, env) ==
    CASE o.o = "sel" ->
           IF SelErr(o.sel) # NoErr THEN <<Fl(SelErr(o.sel))>>
           ELSE IF o.sub THEN Inner([o EXCEPT !.sub = FALSE], evs, env)
           ELSE Splice(evs, Selected(evs, o.sel, o.direct, o.once),
                       LAMBDA k, el : D(o.p, el, Append(env, k)))
      [] o.o \in DOMAIN OnContents -> Inner([o EXCEPT !.o = OnContents[o.o]], evs, env)
      [] o.o = "remove"  -> Fails(evs)
      [] o.o = "prepend" -> DCont(o.c, env) \o evs
      [] o.o = "append"  -> evs \o DCont(o.c, env)
      [] o.o = "replace" -> DCont(o.c, env) \o Fails(evs)
      [] o.o = "repeat"  -> IF HasFail(evs) THEN FirstFail(evs)
                            ELSE FlattenSeq([i \in 1..Len(o.items) |-> D(o.p, evs, Append(env, o.items[i]))])
      [] o.o = "repeatelse"  -> IF o.items = <<>> THEN D(o.q, evs, env) ELSE DOp([o EXCEPT !.o = "repeat"], evs, env)
      [] o.o = "repeatcelse" -> IF o.items = <<>> THEN D(o.q, evs, env) ELSE DOp([o EXCEPT !.o = "repeatc"], evs, env)
      [] o.o \in AttrOps ->
           IF NameErr(o) # NoErr THEN <<Fl(NameErr(o))>>
           ELSE IF IsFail(evs[1]) THEN evs
           ELSE <<[evs[1] EXCEPT !.a = AttrEdit(o, @, env)]>> \o Tail(evs)
      [] o.o \in {"apply", "box", "boxel"} -> D(o.p, evs, env)
      [] o.o = "if"     -> IF o.b THEN D(o.p, evs, env) ELSE evs
      [] o.o = "ifelse" -> D(IF o.b THEN o.p ELSE o.q, evs, env)
      [] o.o = "opt"    -> IF o.b THEN D(o.p, evs, Append(env, o.v)) ELSE D(o.q, evs, env)
      [] o.o = "res"    -> D(IF o.b THEN o.p ELSE o.q, evs, Append(env, o.v))
      [] o.o = "tpl"    ->
           IF HasFail(evs) THEN FirstFail(evs)
           ELSE CASE o.f = "id"    -> evs
                  [] o.f = "run"   -> LET r == D(o.p, evs, env) IN IF HasFail(r) THEN FirstFail(r) ELSE r
                  [] o.f = "const" -> LET r == DCont(o.c, env) IN IF HasFail(r) THEN FirstFail(r) ELSE r
                  [] o.f = "err"   -> <<Fl(o.err)>>

\* Result of transforming a document.
RegionResult(prog, evs) ==
    LET r == D(prog, evs, <<>>)
    IN IF HasFail(r) THEN [ev |-> <<>>, err |-> FirstFail(r)[1].err] ELSE [ev |-> r, err |-> NoErr]
=============================================================================
