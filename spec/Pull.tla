-------------------------------- MODULE Pull --------------------------------
(***************************************************************************)
(* Transformation as a pull machine, structured like the implementation:   *)
(* every operation of a program is an object which yields one event each   *)
(* time it is pulled and pulls other objects for it.  Selected elements    *)
(* share the source object with the selection that found them.             *)
(*                                                                         *)
(*   m.h    the objects, addressed by position                             *)
(*   m.log  observable actions so far: calls of user closures, requests to *)
(*          item iterators, pulls of user streams                          *)
(*                                                                         *)
(* Pull(m, a) = [m: next machine, r: [t: "ev" | "end" | "err", e: ..]]     *)
(* Events without effect (noop) are skipped wherever they occur.           *)
(***************************************************************************)
EXTENDS Sem

M0 == [h |-> <<>>, log |-> <<>>]
REnd == [t |-> "end"]
REv(e) == [t |-> "ev", e |-> e]
RErr(e) == [t |-> "err", e |-> e]
Res(m, r) == [m |-> m, r |-> r]
At(m, a) == [m |-> m, a |-> a]
Alloc(m, obj) == At([m EXCEPT !.h = Append(@, obj)], Len(m.h) + 1)
Log(m, w, id, x) == IF id = 0 THEN m ELSE [m EXCEPT !.log = Append(@, [w |-> w, id |-> id, x |-> x])]
Put(m, a, obj) == [m EXCEPT !.h[a] = obj]
Dead == [o |-> "dead"]
Kill(m, a) == Put(m, a, Dead)

IdOf(o) == IF "id" \in DOMAIN o THEN o.id ELSE 0

RECURSIVE Pull(_, _), Build(_, _, _, _, _), BuildOp(_, _, _, _), BuildCont(_, _, _),
          Drain(_, _, _), RunAll(_, _, _, _)

\* Everything object a yields: [m, ev, err] (pulled in rounds, to keep the recursion shallow)
Rounds == [k \in 1..200 |-> k]
Drain(m, a, acc) ==
    LET s == FoldLeft(LAMBDA q, k :
                 IF q.r.t # "ev" THEN q
                 ELSE LET p == Pull(q.m, a)
                      IN [m |-> p.m, r |-> p.r, ev |-> IF p.r.t = "ev" THEN Append(q.ev, p.r.e) ELSE q.ev],
                 [m |-> m, r |-> REv(NoErr), ev |-> acc], Rounds)
    IN IF s.r.t = "ev" THEN Drain(s.m, a, s.ev)
       ELSE [m |-> s.m, ev |-> s.ev, err |-> IF s.r.t = "err" THEN s.r.e ELSE NoErr]

\* Template::transform within machine m.
RunAll(m, evs, prog, env) ==
    LET s == Alloc(m, [o |-> "src", ev |-> evs, err |-> NoErr, i |-> 1, id |-> 0])
        b == Build(s.m, prog, 1, s.a, env)
    IN Drain(b.m, b.a, <<>>)

(************************* construction ************************************)
Build(m, prog, i, a, env) ==
    IF i > Len(prog) THEN At(m, a)
    ELSE LET b == BuildOp(m, prog[i], a, env) IN Build(b.m, prog, i + 1, b.a, env)

\* An object which fails when it is reached.
FailObj(err) == [o |-> "src", ev |-> <<>>, err |-> err, i |-> 1, id |-> 0]
SrcObj(ev, err, id) == [o |-> "src", ev |-> ev, err |-> err, i |-> 1, id |-> id]

BuildCont(m, c, env) ==
    IF c.c = "ok" THEN BuildCont(m, c.i, env)
    ELSE IF c.c = "stream" THEN Alloc(m, SrcObj(Strip(c.ev), c.err, IdOf(c)))
    ELSE IF c.c = "telem" /\ IdOk(c.x)
    THEN LET r == RunAll(m, <<Single(c.x)>>,
                         <<[o |-> "sel", direct |-> FALSE, once |-> TRUE, sub |-> FALSE, id |-> IdOf(c),
                            sel |-> [s |-> "tag", x |-> c.x], p |-> c.p]>>, env)
         IN Alloc(r.m, IF r.err # NoErr THEN FailObj(r.err) ELSE SrcObj(r.ev, NoErr, 0))
    ELSE LET s == Cont(c, env) IN Alloc(m, SrcObj(s.ev, s.err, 0))

\* Object for a contents operation: opens the element, hands its contents to `inner`, closes it.
ContentObj(m, a, inner, env) ==
    LET x == Alloc(m, [o |-> "expand", st |-> "start", src |-> a])
    IN Alloc(x.m, [o |-> "content", st |-> "open", src |-> x.a, inner |-> inner, env |-> env])

BuildOp(m, o, a, env) ==
    CASE o.o = "sel" ->
           IF SelErr(o.sel) # NoErr THEN Alloc(m, FailObj(SelErr(o.sel)))
           ELSE IF o.sub THEN ContentObj(m, a, [op |-> [o EXCEPT !.sub = FALSE]], env)
           ELSE Alloc(m, [o |-> "sel", st |-> "scan", src |-> a, op |-> o, env |-> env,
                          level |-> 0, k |-> 0, cur |-> 0])
      [] o.o = "subc" -> ContentObj(m, a, [op |-> [o EXCEPT !.o = "apply"]], env)
      [] o.o \in {"prependc", "appendc", "replacec"} ->
           \* the new content is made when the operation is written down
           LET c == BuildCont(m, o.c, env)
           IN ContentObj(c.m, a, [op |-> [o |-> OnContents[o.o] \o "@", at |-> c.a]], env)
      [] o.o \in DOMAIN OnContents -> ContentObj(m, a, [op |-> [o EXCEPT !.o = OnContents[o.o]]], env)
      [] o.o = "remove" -> Alloc(m, [o |-> "remove", src |-> a])
      [] o.o = "prepend" -> LET c == BuildCont(m, o.c, env)
                            IN Alloc(c.m, [o |-> "combine", st |-> 1, x |-> c.a, y |-> a])
      [] o.o = "append"  -> LET c == BuildCont(m, o.c, env)
                            IN Alloc(c.m, [o |-> "combine", st |-> 1, x |-> a, y |-> c.a])
      [] o.o = "replace" -> LET c == BuildCont(m, o.c, env)
                                r == Alloc(c.m, [o |-> "remove", src |-> a])
                            IN Alloc(r.m, [o |-> "combine", st |-> 1, x |-> c.a, y |-> r.a])
      [] o.o = "prepend@" -> Alloc(m, [o |-> "combine", st |-> 1, x |-> o.at, y |-> a])
      [] o.o = "append@"  -> Alloc(m, [o |-> "combine", st |-> 1, x |-> a, y |-> o.at])
      [] o.o = "replace@" -> LET r == Alloc(m, [o |-> "remove", src |-> a])
                             IN Alloc(r.m, [o |-> "combine", st |-> 1, x |-> o.at, y |-> r.a])
      [] o.o = "repeat" -> Alloc(m, [o |-> "repeat", st |-> "collect", src |-> a, op |-> o, env |-> env,
                                     i |-> 1, peeked |-> FALSE, cur |-> 0, ev |-> <<>>])
      [] o.o = "repeat@" -> Alloc(m, [o |-> "repeat", st |-> "collect", src |-> a, op |-> o.op, env |-> env,
                                      i |-> 1, peeked |-> TRUE, cur |-> 0, ev |-> <<>>])
      [] o.o \in {"repeatelse", "repeatcelse"} ->
           Alloc(m, [o |-> "orelse", st |-> "start", src |-> a, op |-> o, env |-> env, cur |-> 0])
      [] o.o \in AttrOps ->
           IF NameErr(o) # NoErr THEN Alloc(m, FailObj(NameErr(o)))
           ELSE Alloc(m, [o |-> "attr", st |-> "start", src |-> a, op |-> o, env |-> env])
      [] o.o \in {"apply", "box", "boxel"} -> Build(Log(m, "call", IdOf(o), 0), o.p, 1, a, env)
      [] o.o = "if"     -> IF o.b THEN Build(Log(m, "call", IdOf(o), 0), o.p, 1, a, env) ELSE At(m, a)
      [] o.o = "ifelse" -> Build(Log(m, IF o.b THEN "call" ELSE "else", IdOf(o), 0),
                                 IF o.b THEN o.p ELSE o.q, 1, a, env)
      [] o.o = "opt"    -> IF o.b THEN Build(Log(m, "call", IdOf(o), o.v), o.p, 1, a, Append(env, o.v))
                           ELSE Build(Log(m, "else", IdOf(o), 0), o.q, 1, a, env)
      [] o.o = "res"    -> Build(Log(m, IF o.b THEN "call" ELSE "else", IdOf(o), o.v),
                                 IF o.b THEN o.p ELSE o.q, 1, a, Append(env, o.v))
      [] o.o = "tpl"    -> Alloc(m, [o |-> "tpl", st |-> "collect", src |-> a, op |-> o, env |-> env, cur |-> 0])

(************************* pulling *****************************************)
\* Forward to object b on behalf of a; a is finished when b ends or fails.
Forward(m, a, b) ==
    LET p == Pull(m, b) IN IF p.r.t = "ev" THEN p ELSE Res(Kill(p.m, a), p.r)

PullSrc(m, a, x) ==
    IF x.i <= Len(x.ev)
    THEN Res(Log(Put(m, a, [x EXCEPT !.i = @ + 1]), "pull", x.id, x.i), REv(x.ev[x.i]))
    ELSE IF x.err # NoErr
    THEN Res(Log(Put(m, a, [x EXCEPT !.err = NoErr]), "pullerr", x.id, 0), RErr(x.err))
    ELSE Res(Log(m, "pullend", x.id, 0), REnd)

PullCombine(m, a, x) ==
    IF x.st = 1
    THEN LET p == Pull(m, x.x)
         IN IF p.r.t = "ev" THEN p
            ELSE IF p.r.t = "err" THEN Res(Kill(p.m, a), p.r)
            ELSE Pull(Put(p.m, a, [x EXCEPT !.st = 2]), a)
    ELSE Forward(m, a, x.y)

RECURSIVE PullRemove(_, _)
PullRemove(m, x) == LET p == Pull(m, x.src) IN IF p.r.t = "ev" THEN PullRemove(p.m, x) ELSE p

PullAttr(m, a, x) ==
    IF x.st = "emit" THEN Forward(m, a, x.src)
    ELSE LET p == Pull(m, x.src)
             e == p.r.e
             new == [e EXCEPT !.a = AttrEdit(x.op, @, x.env)]
         IN IF p.r.t = "err" THEN Res(Kill(p.m, a), p.r)
            ELSE IF p.r.t = "end" THEN Res(Kill(p.m, a), RErr(ExpectedOpen(NoObs)))
            ELSE IF ~IsTag(e) THEN Res(Kill(p.m, a), RErr(ExpectedOpen(Obs(e))))
            ELSE Res(IF e.k = "open" THEN Put(p.m, a, [x EXCEPT !.st = "emit"]) ELSE Kill(p.m, a), REv(new))

\* A selected element: its start event, then the shared source up to the matching end.
PullSingle(m, a, x) ==
    IF x.st = "start"
    THEN IF ~IsTag(x.ev) THEN Res(Kill(m, a), RErr(ExpectedOpen(Obs(x.ev))))
         ELSE Res(IF x.ev.k = "open" THEN Put(m, a, [x EXCEPT !.st = "rest"]) ELSE Kill(m, a), REv(x.ev))
    ELSE LET p == Pull(m, x.src)
             e == p.r.e
         IN IF p.r.t # "ev" THEN Res(Kill(p.m, a), p.r)
            ELSE IF e.k = "open" /\ IdEq(e.t, x.ev.t) THEN Res(Put(p.m, a, [x EXCEPT !.level = @ + 1]), p.r)
            ELSE IF e.k = "close" /\ IdEq(e.t, x.ev.t)
            THEN Res(IF x.level = 0 THEN Kill(p.m, a) ELSE Put(p.m, a, [x EXCEPT !.level = @ - 1]), p.r)
            ELSE p

PullSel(m, a, x) ==
    IF x.st = "active"
    THEN LET p == Pull(m, x.cur)
         IN IF p.r.t = "ev" THEN p
            ELSE IF p.r.t = "err" THEN Res(Kill(p.m, a), p.r)
            ELSE Pull(Put(p.m, a, [x EXCEPT !.st = IF x.op.once THEN "pass" ELSE "scan"]), a)
    ELSE IF x.st = "pass" THEN Forward(m, a, x.src)
    ELSE LET p == Pull(m, x.src)
             e == p.r.e
             el == Alloc(p.m, [o |-> "single", st |-> "start", ev |-> e, src |-> x.src, level |-> 0])
             b == Build(Log(el.m, "call", IdOf(x.op), x.k + 1), x.op.p, 1, el.a, Append(x.env, x.k + 1))
         IN IF p.r.t # "ev" THEN Res(Kill(p.m, a), p.r)
            ELSE IF (~x.op.direct \/ x.level = 0) /\ Matches(x.op.sel, e)
            THEN Pull(Put(b.m, a, [x EXCEPT !.st = "active", !.cur = b.a, !.k = @ + 1]), a)
            ELSE IF e.k = "close" /\ x.level = 0 THEN Res(Kill(p.m, a), RErr(UnexpectedClose(e.t)))
            ELSE Res(IF e.k = "open" THEN Put(p.m, a, [x EXCEPT !.level = @ + 1])
                     ELSE IF e.k = "close" THEN Put(p.m, a, [x EXCEPT !.level = @ - 1])
                     ELSE p.m, p.r)

\* A self-closed tag is turned into an opening and a closing one; void elements stay.
PullExpand(m, a, x) ==
    IF x.st = "emit" THEN Forward(m, a, x.src)
    ELSE IF x.st = "close" THEN Res(Kill(m, a), REv(Close(x.tag)))
    ELSE LET p == Pull(m, x.src)
             e == p.r.e
         IN IF p.r.t = "err" THEN Res(Kill(p.m, a), p.r)
            ELSE IF p.r.t = "end" THEN Res(Kill(p.m, a), RErr(ExpectedOpen(NoObs)))
            ELSE CASE e.k = "open" -> Res(Put(p.m, a, [x EXCEPT !.st = "emit"]), p.r)
                   [] e.k = "self" -> Res(Put(p.m, a, [o |-> "expand", st |-> "close", src |-> x.src, tag |-> e.t]),
                                          REv(Open(e.t, e.a)))
                   [] e.k = "void" -> Res(Kill(p.m, a), p.r)
                   [] OTHER -> Res(Kill(p.m, a), RErr(ExpectedOpen(Obs(e))))

\* One event of lookahead on a shared source.
Peek(m, a) ==
    LET x == m.h[a] IN
    IF x.buf # <<>> THEN Res(m, REv(x.buf[1]))
    ELSE LET p == Pull(m, x.src)
         IN IF p.r.t = "ev" THEN Res(Put(p.m, a, [x EXCEPT !.buf = <<p.r.e>>]), p.r) ELSE p
PullPeek(m, a, x) ==
    IF x.buf # <<>> THEN Res(Put(m, a, [x EXCEPT !.buf = <<>>]), REv(x.buf[1])) ELSE Pull(m, x.src)

\* The contents of an element: everything up to its closing tag, which stays in the source.
PullContents(m, a, x) ==
    LET k == Peek(m, x.src)
        atEnd == x.level = 0 /\ k.r.t = "ev" /\ k.r.e.k = "close" /\ IdEq(k.r.e.t, x.tag)
        m1 == IF x.level = 0 THEN k.m ELSE m
        p == Pull(m1, x.src)
        e == p.r.e
    IN IF x.level = 0 /\ k.r.t = "err" THEN Res(Kill(k.m, a), k.r)
       ELSE IF x.level = 0 /\ k.r.t = "end" THEN Res(Kill(k.m, a), RErr(MissingClose(x.tag)))
       ELSE IF atEnd THEN Res(Kill(k.m, a), REnd)
       ELSE IF p.r.t = "err" THEN Res(Kill(p.m, a), p.r)
       ELSE IF p.r.t = "end" \/ (e.k = "close" /\ x.level = 0)
       THEN Res(Kill(p.m, a), RErr(MissingClose(x.tag)))
       ELSE Res(Put(p.m, a, [x EXCEPT !.level = IF e.k = "open" THEN @ + 1
                                                ELSE IF e.k = "close" THEN @ - 1 ELSE @]), p.r)

PullContent(m, a, x) ==
    CASE x.st = "open" ->
           LET p == Pull(m, x.src)
               e == p.r.e
               pk == Alloc(p.m, [o |-> "peek", src |-> x.src, buf |-> <<>>])
               cc == Alloc(pk.m, [o |-> "contents", src |-> pk.a, tag |-> e.t, level |-> 0])
               b == BuildOp(cc.m, x.inner.op, cc.a, x.env)
           IN IF p.r.t = "err" THEN Res(Kill(p.m, a), p.r)
              ELSE IF p.r.t = "end" THEN Res(Kill(p.m, a), RErr(ExpectedOpen(NoObs)))
              ELSE IF e.k = "void" THEN Res(Kill(p.m, a), p.r)
              ELSE IF e.k # "open" THEN Res(Kill(p.m, a), RErr(ExpectedOpen(Obs(e))))
              ELSE Res(Put(b.m, a, [o |-> "content", st |-> "in", src |-> pk.a, cur |-> b.a, tag |-> e.t]), p.r)
      [] x.st = "in" ->
           LET p == Pull(m, x.cur)
           IN IF p.r.t = "ev" THEN p
              ELSE IF p.r.t = "err" THEN Res(Kill(p.m, a), p.r)
              ELSE Pull(Put(p.m, a, [x EXCEPT !.st = "close"]), a)
      [] x.st = "close" ->
           LET p == Pull(m, x.src)
               e == p.r.e
           IN IF p.r.t = "err" THEN Res(Kill(p.m, a), p.r)
              ELSE IF p.r.t = "end" THEN Res(Kill(p.m, a), RErr(MissingClose(x.tag)))
              ELSE IF e.k # "close" THEN Res(Kill(p.m, a), RErr(ExpectedClose(Obs(e), x.tag)))
              ELSE IF ~IdEq(e.t, x.tag) THEN Res(Kill(p.m, a), RErr(UnexpectedClose(e.t)))
              ELSE Res(Kill(p.m, a), p.r)

\* Request for item i; an item which was peeked at is already there.
NextItem(m, x) ==
    IF x.peeked THEN m
    ELSE IF x.i <= Len(x.op.items) THEN Log(m, "next", IdOf(x.op), x.op.items[x.i])
    ELSE Log(m, "nextend", IdOf(x.op), 0)

PullRepeat(m, a, x) ==
    CASE x.st = "collect" ->
           LET d == Drain(m, x.src, <<>>)
           IN IF d.err # NoErr THEN Res(Kill(d.m, a), RErr(d.err))
              ELSE Pull(Put(d.m, a, [x EXCEPT !.st = "next", !.ev = d.ev]), a)
      [] x.st = "next" ->
           LET m1 == NextItem(m, x)
               it == x.op.items[x.i]
               s == Alloc(Log(m1, "call", IdOf(x.op), it), SrcObj(x.ev, NoErr, 0))
               b == Build(s.m, x.op.p, 1, s.a, Append(x.env, it))
           IN IF x.i > Len(x.op.items) THEN Res(Kill(m1, a), REnd)
              ELSE Pull(Put(b.m, a, [x EXCEPT !.st = "emit", !.cur = b.a, !.i = @ + 1, !.peeked = FALSE]), a)
      [] x.st = "emit" ->
           LET p == Pull(m, x.cur)
           IN IF p.r.t = "ev" THEN p
              ELSE IF p.r.t = "err" THEN Res(Kill(p.m, a), p.r)
              ELSE Pull(Put(p.m, a, [x EXCEPT !.st = "next"]), a)

PullOrElse(m, a, x) ==
    IF x.st = "run" THEN Forward(m, a, x.cur)
    ELSE LET some == x.op.items # <<>>
             m1 == IF some THEN Log(m, "next", IdOf(x.op), x.op.items[1]) ELSE Log(m, "nextend", IdOf(x.op), 0)
             \* the repetition with its first item already requested
             Rep(mm, src) == Alloc(mm, [o |-> "repeat", st |-> "collect", src |-> src,
                                        op |-> x.op, env |-> x.env, i |-> 1, peeked |-> TRUE,
                                        cur |-> 0, ev |-> <<>>])
             b == IF ~some THEN Build(Log(m1, "else", IdOf(x.op), 0), x.op.q, 1, x.src, x.env)
                  ELSE IF x.op.o = "repeatelse" THEN Rep(m1, x.src)
                  ELSE ContentObj(m1, x.src, [op |-> [o |-> "repeat@", op |-> x.op]], x.env)
         IN Pull(Put(b.m, a, [x EXCEPT !.st = "run", !.cur = b.a]), a)

PullTpl(m, a, x) ==
    IF x.st = "run" THEN Forward(m, a, x.cur)
    ELSE LET d == Drain(m, x.src, <<>>)
             m1 == Log(d.m, "tpl", IdOf(x.op), 0)
             r == IF x.op.f = "run" THEN RunAll(m1, d.ev, x.op.p, x.env)
                  ELSE IF x.op.f = "id" THEN [m |-> m1, ev |-> d.ev, err |-> NoErr]
                  ELSE IF x.op.f = "err" THEN [m |-> m1, ev |-> <<>>, err |-> x.op.err]
                  ELSE LET s == Cont(x.op.c, x.env) IN [m |-> m1, ev |-> s.ev, err |-> s.err]
             s == Alloc(r.m, SrcObj(r.ev, NoErr, 0))
         IN IF d.err # NoErr THEN Res(Kill(d.m, a), RErr(d.err))
            ELSE IF r.err # NoErr THEN Res(Kill(r.m, a), RErr(r.err))
            ELSE Pull(Put(s.m, a, [x EXCEPT !.st = "run", !.cur = s.a]), a)

Pull(m, a) ==
    LET x == m.h[a] IN
    CASE x.o = "dead"    -> Res(m, REnd)
      [] x.o = "src"     -> PullSrc(m, a, x)
      [] x.o = "combine" -> PullCombine(m, a, x)
      [] x.o = "remove"  -> PullRemove(m, x)
      [] x.o = "attr"    -> PullAttr(m, a, x)
      [] x.o = "single"  -> PullSingle(m, a, x)
      [] x.o = "sel"     -> PullSel(m, a, x)
      [] x.o = "expand"  -> PullExpand(m, a, x)
      [] x.o = "peek"    -> PullPeek(m, a, x)
      [] x.o = "contents" -> PullContents(m, a, x)
      [] x.o = "content" -> PullContent(m, a, x)
      [] x.o = "repeat"  -> PullRepeat(m, a, x)
      [] x.o = "orelse"  -> PullOrElse(m, a, x)
      [] x.o = "tpl"     -> PullTpl(m, a, x)

(************************* whole runs **************************************)
\* Machine for transforming evs with prog: [m, a] with a the outermost object.
Start(prog, evs) ==
    LET s == Alloc(M0, SrcObj(evs, NoErr, 0)) IN Build(s.m, prog, 1, s.a, <<>>)
PullTransform(prog, evs) ==
    LET b == Start(prog, evs)
        d == Drain(b.m, b.a, <<>>)
    IN [ev |-> IF d.err # NoErr THEN <<>> ELSE d.ev, err |-> d.err, log |-> d.m.log]
=============================================================================
