-------------------------------- MODULE Sem ---------------------------------
(***************************************************************************)
(* Meaning of transformation programs: a stream is the events it yields    *)
(* and how it ends, [ev: Seq(event), err: NoErr or an error]; a program    *)
(* (sequence of operations) maps a stream to a stream.                     *)
(*                                                                         *)
(* env is the stack of numbers visible to content: the innermost item of a *)
(* repetition, value of an option/result, or number of the call of the     *)
(* enclosing selection closure (from 1).                                   *)
(*                                                                         *)
(* This module describes what a transformation of *well-formed* streams    *)
(* yields; module Pull has the step by step machine, which also covers     *)
(* malformed streams and the order of calls.                               *)
(***************************************************************************)
EXTENDS Parser

Str(ev, err) == [ev |-> ev, err |-> err]
Ok(ev) == Str(ev, NoErr)
Bad(err) == Str(<<>>, err)
Then(a, b) == IF a.err # NoErr THEN a ELSE Str(a.ev \o b.ev, b.err)

IdentError(t) == [e |-> "Identifier", id |-> IdErr(t)]
UnexpectedClose(t) == [e |-> "Assertion", r |-> "UnexpectedClosingTag", tag |-> t]
ExpectedOpen(o)    == [e |-> "Assertion", r |-> "ExpectedOpeningTag", ev |-> o]
ExpectedClose(o, t) == [e |-> "Assertion", r |-> "ExpectedClosingTag", ev |-> o, tag |-> t]
MissingClose(t)    == ExpectedClose(NoObs, t)
InputErr(err) == [e |-> "Input", i |-> err]

EnvAt(env, d) == env[Len(env) - d]

Strip(evs) == SelectSeq(evs, LAMBDA e : e.k # "noop")

Single(name) == IF IsVoidName(name) THEN Void(name, <<>>) ELSE Self(name, <<>>)

\* Value given to an attribute operation: [h, v]
Val(v, env) ==
    CASE v.c = "none" -> [h |-> FALSE, v |-> <<>>]
      [] v.c = "int"  -> [h |-> TRUE, v |-> v.x]
      [] v.c = "env"  -> [h |-> TRUE, v |-> NUM(EnvAt(env, v.d))]
      [] OTHER        -> [h |-> TRUE, v |-> Escape(v.x)]

\* New attribute list of an attribute operation (o.name is valid).
AttrEdit(o, as, env) ==
    LET w == Val(o.val, env)
        new == [n |-> o.name, h |-> w.h, v |-> w.v]
    IN CASE o.o = "addattr"   -> AddAttr(as, new)
         [] o.o = "setattr"   -> SetAttr(as, new)
         [] o.o = "replattr"  -> ReplaceAttr(as, new)
         [] o.o = "rmattr"    -> RemoveAttr(as, o.name)
         [] o.o = "addto"     -> AddToAttr(as, o.name, w.v, Val(o.sep, env).v)
         [] o.o = "addclass"  -> AddToAttr(as, ClassName, o.name, <<SPACE>>)
         [] o.o = "rmclass"   -> RemoveClass(as, o.name)
         [] o.o = "setid"     -> SetAttr(as, Attr(IdName, o.name))
         [] o.o = "rmid"      -> RemoveAttr(as, IdName)
AttrOps == {"addattr", "setattr", "replattr", "rmattr", "addto", "addclass", "rmclass", "setid", "rmid"}
NameErr(o) == IF o.o = "rmid" \/ IdOk(o.name) THEN NoErr ELSE IdentError(o.name)

SelectionForms == {"sel"}

RECURSIVE Run(_, _, _), RunFrom(_, _, _, _), Op(_, _, _), Cont(_, _), Scan(_, _, _, _, _, _, _),
          Contents(_, _, _, _), Copies(_, _, _, _, _)

Run(prog, s, env) == RunFrom(prog, 1, s, env)
RunFrom(prog, i, s, env) ==
    IF i > Len(prog) THEN s ELSE RunFrom(prog, i + 1, Op(prog[i], s, env), env)

(* Inserted content. *)
Cont(c, env) ==
    CASE c.c \in {"str", "data", "value", "datas", "values", "dataref", "valueref", "datafrom"} -> Ok(<<Data(Escape(c.x))>>)
      [] c.c = "int"    -> Ok(<<Data(c.x)>>)
      [] c.c = "env"    -> Ok(<<Data(NUM(EnvAt(env, c.d)))>>)
      [] c.c = "tpl"    -> Ok(c.ev)
      [] c.c = "ok"     -> Cont(c.i, env)
      [] c.c = "err"    -> Bad(c.err)
      [] c.c = "stream" -> Str(Strip(c.ev), c.err)
      [] c.c = "parse"  -> LET r == ParseAll(c.x, c.maxd, c.maxl)
                           IN Str(r.ev, IF r.err = NoErr THEN NoErr ELSE InputErr(r.err))
      [] c.c = "elem"   -> IF IdOk(c.x) THEN Ok(<<Single(c.x)>>) ELSE Bad(IdentError(c.x))
      [] c.c = "telem"  -> IF IdOk(c.x)
                           THEN Run(<<[o |-> "sel", direct |-> FALSE, once |-> TRUE, sub |-> FALSE,
                                       sel |-> [s |-> "tag", x |-> c.x], p |-> c.p]>>,
                                    Ok(<<Single(c.x)>>), env)
                           ELSE Bad(IdentError(c.x))

(* Scan a stream for matching elements from position i at depth d; k elements were matched. *)
Scan(o, s, env, i, d, k, acc) ==
    IF i > Len(s.ev) THEN Str(acc, s.err)
    ELSE LET e == s.ev[i] IN
    IF (~o.direct \/ d = 0) /\ ~(o.once /\ k > 0) /\ Matches(o.sel, e)
    THEN IF ~IsTag(e) THEN
            LET r == Run(o.p, Bad(ExpectedOpen(Obs(e))), Append(env, k + 1))
            IN Str(acc \o r.ev, r.err)
         ELSE
         LET j == ElemEnd(s.ev, i)
             el == Str(SubSeq(s.ev, i, IF j > Len(s.ev) THEN Len(s.ev) ELSE j), IF j > Len(s.ev) THEN s.err ELSE NoErr)
             r == Run(o.p, el, Append(env, k + 1))
         IN IF r.err # NoErr THEN Str(acc \o r.ev, r.err)
            ELSE Scan(o, s, env, j + 1, d, k + 1, acc \o r.ev)
    ELSE IF e.k = "close" /\ d = 0 /\ ~(o.once /\ k > 0) THEN Str(acc, UnexpectedClose(e.t))
    ELSE Scan(o, s, env, i + 1,
              IF e.k = "open" THEN d + 1 ELSE IF e.k = "close" THEN d - 1 ELSE d,
              k, Append(acc, e))

\* Number of events before the closing tag for name n that ends the contents starting at i
\* (nesting depth d), as a stream.
RECURSIVE ContentOf(_, _, _, _)
ContentOf(s, n, i, d) ==
    IF i > Len(s.ev)
    THEN [n |-> i - 1, err |-> IF s.err # NoErr THEN s.err ELSE MissingClose(n)]
    ELSE LET e == s.ev[i] IN
         IF d = 0 /\ e.k = "close"
         THEN [n |-> i - 1, err |-> IF IdEq(e.t, n) THEN NoErr ELSE MissingClose(n)]
         ELSE ContentOf(s, n, i + 1,
                        IF e.k = "open" THEN d + 1 ELSE IF e.k = "close" THEN d - 1 ELSE d)

(* Apply operation o to the contents of the single element s. *)
Contents(o, s, env, dummy) ==
    IF s.ev = <<>> THEN Bad(IF s.err # NoErr THEN s.err ELSE ExpectedOpen(NoObs))
    ELSE LET e == s.ev[1] IN
    IF e.k = "void" THEN Ok(<<e>>)
    ELSE IF e.k = "self"
    THEN Then(Then(Ok(<<Open(e.t, e.a)>>), Op(o, Ok(<<>>), env)), Ok(<<Close(e.t)>>))
    ELSE IF e.k = "open"
    THEN LET c == ContentOf(s, e.t, 2, 0)
             inner == Op(o, Str(SubSeq(s.ev, 2, c.n), c.err), env)
         IN IF inner.err # NoErr THEN Str(<<e>> \o inner.ev, inner.err)
            ELSE Ok(<<e>> \o inner.ev \o <<s.ev[c.n + 1]>>)
    ELSE Bad(ExpectedOpen(Obs(e)))

(* One copy of s per item from position i on. *)
Copies(prog, s, items, i, env) ==
    IF i > Len(items) THEN Ok(<<>>)
    ELSE Then(Run(prog, s, Append(env, items[i])), Copies(prog, s, items, i + 1, env))

\* Operations on contents, by the operation they apply to the contents.
OnContents == [x \in {"removec", "prependc", "appendc", "replacec", "repeatc", "subc"} |->
                 CASE x = "removec" -> "remove" [] x = "prependc" -> "prepend"
                   [] x = "appendc" -> "append" [] x = "replacec" -> "replace"
                   [] x = "repeatc" -> "repeat" [] x = "subc" -> "apply"]

Op(o, s, env) ==
    CASE o.o = "sel" ->
           IF SelErr(o.sel) # NoErr THEN Bad(SelErr(o.sel))
           ELSE IF o.sub THEN Contents([o EXCEPT !.sub = FALSE], s, env, 0)
           ELSE Scan(o, s, env, 1, 0, 0, <<>>)
      [] o.o \in DOMAIN OnContents -> Contents([o EXCEPT !.o = OnContents[o.o]], s, env, 0)
      [] o.o = "remove"  -> Str(<<>>, s.err)
      [] o.o = "prepend" -> Then(Cont(o.c, env), s)
      [] o.o = "append"  -> Then(s, Cont(o.c, env))
      [] o.o = "replace" -> Then(Cont(o.c, env), Str(<<>>, s.err))
      [] o.o = "repeat"  -> IF s.err # NoErr THEN Bad(s.err) ELSE Copies(o.p, s, o.items, 1, env)
      [] o.o = "repeatelse" ->
           IF o.items = <<>> THEN Run(o.q, s, env) ELSE Op([o EXCEPT !.o = "repeat"], s, env)
      [] o.o = "repeatcelse" ->
           IF o.items = <<>> THEN Run(o.q, s, env) ELSE Op([o EXCEPT !.o = "repeatc"], s, env)
      [] o.o \in AttrOps ->
           IF NameErr(o) # NoErr THEN Bad(NameErr(o))
           ELSE IF s.ev = <<>> THEN Bad(IF s.err # NoErr THEN s.err ELSE ExpectedOpen(NoObs))
           ELSE LET e == s.ev[1] IN
                IF ~IsTag(e) THEN Bad(ExpectedOpen(Obs(e)))
                ELSE IF e.k = "open"
                THEN Str(<<[e EXCEPT !.a = AttrEdit(o, @, env)]>> \o Tail(s.ev), s.err)
                ELSE Ok(<<[e EXCEPT !.a = AttrEdit(o, @, env)]>>)
      [] o.o \in {"apply", "box", "boxel"} -> Run(o.p, s, env)
      [] o.o = "if"     -> IF o.b THEN Run(o.p, s, env) ELSE s
      [] o.o = "ifelse" -> IF o.b THEN Run(o.p, s, env) ELSE Run(o.q, s, env)
      [] o.o = "opt"    -> IF o.b THEN Run(o.p, s, Append(env, o.v)) ELSE Run(o.q, s, env)
      [] o.o = "res"    -> IF o.b THEN Run(o.p, s, Append(env, o.v)) ELSE Run(o.q, s, Append(env, o.v))
      [] o.o = "tpl"    ->
           IF s.err # NoErr THEN Bad(s.err)
           ELSE CASE o.f = "id"    -> Ok(s.ev)
                  [] o.f = "run"   -> LET r == Run(o.p, s, env)
                                      IN IF r.err # NoErr THEN Bad(r.err) ELSE r
                  [] o.f = "const" -> Cont(o.c, env)
                  [] o.f = "err"   -> Bad(o.err)

\* Result of Template::transform
Transform(prog, evs) == LET r == Run(prog, Ok(evs), <<>>)
                        IN IF r.err # NoErr THEN Bad(r.err) ELSE Ok(r.ev)
=============================================================================
