------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Histories of templates: a store of templates grows by parsing, creating,*)
(* cloning and transforming; templates may be inserted into others         *)
(* (content "tplref").  No action changes a template that is there.        *)
(*                                                                         *)
(*   store: Seq of event sequences                                         *)
(***************************************************************************)
EXTENDS Sem

\* Programs with references to templates of the store replaced by these templates.
RECURSIVE Subst(_, _), SubstOp(_, _), SubstC(_, _)
SubstC(c, st) ==
    CASE c.c = "tplref" -> [c |-> "tpl", ev |-> st[c.j + 1]]
      [] c.c = "ok"     -> [c EXCEPT !.i = SubstC(c.i, st)]
      [] c.c = "telem"  -> [c EXCEPT !.p = Subst(c.p, st)]
      [] OTHER -> c
SubstOp(o, st) ==
    LET a == IF "p" \in DOMAIN o THEN [o EXCEPT !.p = Subst(o.p, st)] ELSE o
        b == IF "q" \in DOMAIN o THEN [a EXCEPT !.q = Subst(o.q, st)] ELSE a
    IN IF "c" \in DOMAIN o THEN [b EXCEPT !.c = SubstC(o.c, st)] ELSE b
Subst(prog, st) == [i \in 1..Len(prog) |-> SubstOp(prog[i], st)]

\* Outcome of one step: [err, new: <<>> or <<events>>].
Made(r) == IF r.err = NoErr THEN [err |-> NoErr, new |-> <<r.ev>>] ELSE [err |-> r.err, new |-> <<>>]
StepOutcome(s, st) ==
    CASE s.s = "parse" -> LET r == ParseAll(s.x, -1, -1)
                          IN Made([ev |-> r.ev, err |-> IF r.err = NoErr THEN NoErr ELSE InputErr(r.err)])
      [] s.s = "elem"  -> Made(Cont([c |-> "elem", x |-> s.x], <<>>))
      [] s.s = "telem" -> Made(Cont([c |-> "telem", x |-> s.x, p |-> Subst(s.p, st)], <<>>))
      [] s.s = "clone" -> Made(Ok(st[s.i + 1]))
      [] s.s = "trans" -> Made(Transform(Subst(s.prog, st), st[s.i + 1]))
      [] s.s = "reparse" -> LET r == ParseAll(RenderAll(st[s.i + 1]), -1, -1)
                            IN Made([ev |-> r.ev, err |-> IF r.err = NoErr THEN NoErr ELSE InputErr(r.err)])
      [] s.s = "drop" -> [err |-> NoErr, new |-> <<>>]
\* The store after a step.
StepStore(s, st) ==
    IF s.s = "drop" THEN [st EXCEPT ![s.i + 1] = st[s.j + 1]]
    ELSE st \o StepOutcome(s, st).new

\* Equality of templates: node by node, names ignoring ASCII case, everything else exact.
AttrEq(a, b) == IdEq(a.n, b.n) /\ a.h = b.h /\ a.v = b.v
EvEq(a, b) == /\ a.k = b.k /\ a.x = b.x
              /\ (a.t = <<>> /\ b.t = <<>>) \/ IdEq(a.t, b.t)
              /\ Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : AttrEq(a.a[i], b.a[i])
TplEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EvEq(a[i], b[i])

\* Does what was seen after each step agree with the store?
RECURSIVE HistFrom(_, _, _, _)
HistFrom(steps, seen, i, st) ==
    IF i > Len(steps) THEN TRUE
    ELSE LET s == steps[i]
             o == seen[i]
             r == StepOutcome(s, st)
             new == StepStore(s, st)
         IN /\ o.err = r.err
            /\ o.tm
            /\ Len(o.all) = Len(new)
            /\ \A j \in 1..Len(new) : NormObs(o.all[j]) = NormObs(ObsAll(new[j]))
            /\ \A j, k \in 1..Len(new) : o.eq[j][k] = TplEq(new[j], new[k])
            /\ HistFrom(steps, seen, i + 1, new)
HistOk(steps, seen) == Len(seen) = Len(steps) /\ HistFrom(steps, seen, 1, <<>>)
=============================================================================
