------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Small-scope model of names and texts: every text of at most MaxLen      *)
(* characters from a set in which every class of characters that matters   *)
(* has a member, typed in character by character.                          *)
(***************************************************************************)
EXTENDS Markup, Json

CONSTANTS MaxLen, Profile

Chars == CASE Profile = "ident" -> {97, 65, 32, 61, 59, 233, 8195, 39}
           [] Profile = "chars" -> 0..160 \cup {5760, 8195, 8232, 8364, 12288, 65279, 128512}
           [] Profile = "text"  -> {38, 60, 62, 34, 39, 97, 59, 32, 8364}
           [] Profile = "entity" -> {38, 60}
           [] Profile = "case"  -> {97, 65, 122, 90, 64, 91, 96, 123, 48, 33}
Ents == IF Profile = "entity" THEN {T("&amp;"), T("amp;"), T("&lt;"), T("&#60;"), T("&quot"), T("a")} ELSE {}

VARIABLES x, y, n, phase
vars == <<x, y, n, phase>>

Init == x = <<>> /\ y = <<>> /\ n = 0 /\ phase = "type"
Type == /\ phase = "type" /\ n < MaxLen /\ n' = n + 1
        /\ \E s \in {<<c>> : c \in Chars} \cup Ents : x' = x \o s
        /\ UNCHANGED <<y, phase>>
SwapCase(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
\* The nearest texts which are different: one bit of case, one character more or less.
Compare == /\ phase = "type" /\ phase' = "compare"
           /\ y' \in {x, SwapCase(x), Append(x, 97)}
                  \cup (IF x = <<>> THEN {} ELSE {Tail(x), [x EXCEPT ![1] = IF @ >= 32 THEN @ - 32 ELSE @ + 32]})
           /\ UNCHANGED <<x, n>>
Next == Type \/ Compare
Spec == Init /\ [][Next]_vars

(************************* properties **************************************)
Bad == T("=\"/><&,;")
InBad(c) == \E i \in 1..Len(Bad) : Bad[i] = c
\* C05: the rule, and the order of reasons.
Rule == IdOk(x) <=> (x # <<>> /\ \A i \in 1..Len(x) : x[i] < 128 /\ x[i] \notin WhiteSpace /\ ~InBad(x[i]))
FirstIn(P(_)) == CHOOSE i \in 1..Len(x) : P(x[i]) /\ \A j \in 1..(i - 1) : ~P(x[j])
Some(P(_)) == \E i \in 1..Len(x) : P(x[i])
IsWs(c) == c \in WhiteSpace
NotAsc(c) == c > 127
Reason == LET e == IdErr(x)
          IN /\ (e = NoErr) = IdOk(x)
             /\ (e.e = "Empty") = (x = <<>>)
             /\ (e.e = "NotAscii") = Some(NotAsc)
             /\ (e.e = "Whitespace") = (~Some(NotAsc) /\ Some(IsWs))
             /\ (e.e = "Forbidden") = (~Some(NotAsc) /\ ~Some(IsWs) /\ Some(InBad))
             /\ e.e = "Whitespace" => e.c = x[FirstIn(IsWs)]
             /\ e.e = "Forbidden" => e.c = x[FirstIn(InBad)]
\* C05: comparison ignores ASCII case and nothing else.
CaseOnly == IdOk(x) => (IdEq(x, y) <=> /\ Len(x) = Len(y)
                                       /\ \A i \in 1..Len(x) : x[i] = y[i] \/ <<x[i]>> = SwapCase(<<y[i]>>))
Symmetric == IdEq(x, y) = IdEq(y, x)
\* C13: escaping is invertible, leaves nothing that means something in markup, and works piecewise.
Decodes == Unescape(Escape(x)) = x
Inert == LET r == Escape(x)
         IN \A i \in 1..Len(r) : /\ r[i] \notin {LT, GT, QUOT}
                                 /\ r[i] = AMP => \E c \in {38, 60, 62, 34} : IsAt(r, i, Entity[c])
Piecewise == Escape(x \o y) = Escape(x) \o Escape(y)
Plain == (\A i \in 1..Len(x) : x[i] \notin {38, 60, 62, 34}) <=> Escape(x) = x

(************************* cases *******************************************)
Now == phase = "compare"
Src(t) == [k |-> "parse", x |-> t, maxd |-> -1]
Around(a, b) == Src(T(a) \o x \o T(b))
Names == {Around("<", ">"), Around("<", "></a>"), Around("<a></", ">"), Around("<a ", "></a>"),
          Around("<a t ", "=\"1\"></a>"), Around("</", ">"), Src(T("<") \o x \o T("></") \o SwapCase(x) \o T(">"))}
SelCase(s) == [k |-> "sel", sel |-> s, parsed |-> FALSE,
               doc |-> <<Open(T("a"), <<Attr(IdName, T("a"))>>), Close(T("a")), Self(T("A"), <<Attr(ClassName, T("b a a'"))>>)>>]
Sels == {SelCase([s |-> w, x |-> x]) : w \in {"tag", "id", "class", "static"}}
        \cup {SelCase([s |-> "static", x |-> T(p) \o x]) : p \in {"a#", ".", "a.k.", "#i.k."}}
        \cup {SelCase([s |-> "classes", xs |-> xs]) : xs \in {<<x>>, <<T("a"), x>>, <<x, T("a b")>>, <<>>}}
Custom == [s |-> "custom", ks |-> <<"open">>]
OpCase(op) == [k |-> "trans", doc |-> <<Open(T("a"), <<>>), Close(T("a"))>>, parsed |-> TRUE,
               prog |-> <<[o |-> "sel", sel |-> Custom, direct |-> FALSE, once |-> FALSE, sub |-> FALSE, p |-> <<op>>, id |-> 0]>>]
Val1 == [c |-> "str", x |-> T("v")]
NameOps == {OpCase([o |-> o, name |-> x, nk |-> nk, val |-> Val1]) :
               o \in {"addattr", "setattr", "replattr"}, nk \in {"static", "res", "own"}}
           \cup {OpCase([o |-> o, name |-> x, nk |-> "static"]) : o \in {"rmattr", "addclass", "rmclass", "setid"}}
           \cup {OpCase([o |-> "addto", name |-> x, nk |-> "res", val |-> Val1, sep |-> Val1]),
                 OpCase([o |-> "appendc", c |-> [c |-> "elem", x |-> x]]),
                 OpCase([o |-> "appendc", c |-> [c |-> "telem", x |-> x, p |-> <<>>]]),
                 OpCase([o |-> "sel", sel |-> [s |-> "tag", x |-> x], direct |-> FALSE, once |-> FALSE, sub |-> TRUE, p |-> <<>>, id |-> 0])}
Cases == CASE Profile \in {"ident", "chars"} ->
                {[k |-> "ident", x |-> x, y |-> y]} \cup (IF y = x THEN Names \cup Sels \cup NameOps ELSE {})
           [] Profile = "case" -> {[k |-> "ident", x |-> x, y |-> y]}
           [] OTHER -> IF y = x THEN {[k |-> "text", x |-> x]} ELSE {}
Export == Now => PrintT(ToJson(SetToSeq(Cases)))
=============================================================================
