------------------------------ MODULE MCStore -------------------------------
(***************************************************************************)
(* Small-scope model of histories of templates.  A slot of the store holds *)
(* a template until it is given another one; nothing else may change it.   *)
(* Transformations run on one template may insert any other one, including *)
(* itself.                                                                 *)
(***************************************************************************)
EXTENDS Store, Json

CONSTANTS MaxSteps, Profile

VARIABLES store, hist, outcome
vars == <<store, hist, outcome>>

Sl(sel, p) == [o |-> "sel", sel |-> sel, direct |-> FALSE, once |-> FALSE, sub |-> FALSE, p |-> p, id |-> 0]
STag(t) == [s |-> "tag", x |-> T(t)]
Ref(j) == [c |-> "tplref", j |-> j, w |-> IF j % 2 = 0 THEN "ref" ELSE "rc"]
On(p) == <<Sl(STag("a"), p)>>
Texts == CASE Profile = "insert" -> {"<a></a>", "<a>x</a>"}
           [] Profile = "mixed"  -> {"<a>x</a>", "<A/>", "</a>"}
           [] Profile = "equal"  -> {"<a t>x</a>", "<A t>x</a>", "<a T>x</A>", "<a t=\"\">x</a>", "<a t>X</a>", "<a t></a>", "<a t/>", "", "x",
                                     "<br>", "<BR/>", "<!--x-->", "<a u>x</a>", "<a t u>x</a>", "<a u t>x</a>", "<a t t>x</a>"}
\* Programs on a store of n templates.
Progs(n) ==
    CASE Profile = "insert" ->
           UNION {{<<[o |-> "append", c |-> Ref(j)]>>, On(<<[o |-> "appendc", c |-> Ref(j)]>>), On(<<[o |-> "replace", c |-> Ref(j)]>>)} : j \in 0..(n - 1)}
      [] Profile = "mixed" ->
           {On(<<[o |-> "setattr", name |-> T("t"), val |-> [c |-> "str", x |-> T("<")]]>>), <<[o |-> "remove"]>>, <<>>,
            On(<<[o |-> "repeat", items |-> <<1, 2>>, p |-> <<[o |-> "append", c |-> [c |-> "env", d |-> 0]]>>, id |-> 0]>>),
            <<[o |-> "append", c |-> [c |-> "err", err |-> InputErr([e |-> "LengthLimitExceeded", limit |-> 1])]]>>}
           \cup {On(<<[o |-> "prependc", c |-> Ref(j)]>>) : j \in 0..(n - 1)}
      [] Profile = "equal" ->
           {<<>>, On(<<[o |-> "setattr", name |-> T("t"), val |-> [c |-> "str", x |-> <<>>]]>>),
            On(<<[o |-> "replacec", c |-> [c |-> "value", x |-> T("x")]]>>), On(<<[o |-> "removec"]>>)}

Steps(n) ==
    {[s |-> "parse", x |-> T(t)] : t \in Texts}
    \cup (IF Profile = "insert" THEN {} ELSE {[s |-> "elem", x |-> T("br")]})
    \cup (IF Profile = "mixed" THEN {[s |-> "telem", x |-> T("a"), p |-> <<[o |-> "appendc", c |-> [c |-> "data", x |-> T("&")]]>>]} ELSE {})
    \cup UNION {{[s |-> "trans", i |-> i, prog |-> p] : p \in Progs(n)} : i \in 0..(n - 1)}
    \cup {[s |-> w, i |-> i] : w \in (IF Profile = "insert" THEN {"clone"} ELSE {"clone", "reparse"}), i \in 0..(n - 1)}
    \cup (IF Profile = "insert" THEN {} ELSE {d \in {[s |-> "drop", i |-> i, j |-> j] : i, j \in 0..(n - 1)} : d.i # d.j})

Init == store = <<>> /\ hist = <<>> /\ outcome = NoErr
Next == /\ Len(hist) < MaxSteps
        /\ \E s \in Steps(Len(store)) :
              /\ hist' = Append(hist, s)
              /\ store' = StepStore(s, store)
              /\ outcome' = StepOutcome(s, store).err
Spec == Init /\ [][Next]_vars

(************************* properties **************************************)
LastStep == hist[Len(hist)]
\* C17: no step changes a template which is there (only a slot can be given another one).
Immutable == [][LET s == hist'[Len(hist')]
                IN \A i \in 1..Len(store) : (s.s = "drop" /\ i = s.i + 1) \/ store'[i] = store[i]]_vars
Grows == [][Len(store') = Len(store) + (IF hist'[Len(hist')].s # "drop" /\ outcome' = NoErr THEN 1 ELSE 0)]_vars
\* C17: equality of templates.
Equivalence == \A i, j, k \in 1..Len(store) :
    /\ TplEq(store[i], store[i]) /\ (TplEq(store[i], store[j]) = TplEq(store[j], store[i]))
    /\ (TplEq(store[i], store[j]) /\ TplEq(store[j], store[k])) => TplEq(store[i], store[k])
NewIs == (hist # <<>> /\ outcome = NoErr) =>
    LET new == store[Len(store)]
    IN /\ LastStep.s = "clone" => TplEq(new, store[LastStep.i + 1])
       /\ (LastStep.s = "reparse" /\ \A i \in 1..Len(store[LastStep.i + 1]) : store[LastStep.i + 1][i].k \notin {"noop", "data"})
             => TplEq(new, store[LastStep.i + 1])
       /\ (LastStep.s = "trans" /\ LastStep.prog = <<>>) => TplEq(new, store[LastStep.i + 1])
\* Equal templates render to texts which differ at most in the case of names.
EqualText == \A i, j \in 1..Len(store) : TplEq(store[i], store[j]) => LowerT(RenderAll(store[i])) = LowerT(RenderAll(store[j]))
AllNested == \A i \in 1..Len(store) : Nested(store[i])

Export == Len(hist) = MaxSteps => PrintT(ToJson([k |-> "hist", steps |-> hist]))
=============================================================================
