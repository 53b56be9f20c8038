------------------------------ MODULE Conform -------------------------------
(***************************************************************************)
(* Conformance of what was observed of the implementation: for a case c    *)
(* (what was done) and an observation o (what was seen), Failed(c, o) is   *)
(* the set of aspects in which o is not what the specification says.       *)
(* c.v lists the aspects which the case is meant to decide.                *)
(***************************************************************************)
EXTENDS Pull, Regions, Reader, Store

Has(r, f) == f \in DOMAIN r
Get(r, f, default) == IF Has(r, f) THEN r[f] ELSE default
Wants(c, a) == \E i \in 1..Len(c.v) : c.v[i] = a

(************************* parsing *****************************************)
LocText(l) == T("line ") \o NUM(l[1]) \o T(" column ") \o NUM(l[2])
              \o T(" (byte offset ") \o NUM(l[3]) \o T(")")
Quoted(t) == T("'") \o t \o T("'")
\* What the message of a parse error has to contain, in this order.
NeededIn(p) ==
    CASE p.e = "MissingClosingTags" ->
           <<Quoted(p.inner.tag), LocText(p.inner.loc)>>
           \o [i \in 1..Len(p.others) |-> Quoted(p.others[i].tag)]
      [] p.e = "MismatchedClosingTag" ->
           <<T("losing tag ") \o Quoted(p.ctag), LocText(p.cloc),
             T("pening tag ") \o Quoted(p.otag), LocText(p.oloc)>>
      [] p.e = "StackLimitExceeded" -> <<NUM(p.limit), Quoted(p.tag), LocText(p.loc)>>
      [] p.e = "UnexpectedClosingTag" -> <<T("losing tag ") \o Quoted(p.tag), LocText(p.loc)>>
      [] p.e = "ExpectedOpeningTagClose" -> <<T("pening tag ") \o Quoted(p.tag), LocText(p.loc)>>
      [] p.e = "ExpectedClosingTagClose" -> <<T("losing tag ") \o Quoted(p.tag), LocText(p.loc)>>
      [] p.e \in {"InvalidAttributeValue", "UnclosedAttributeValue"} ->
           <<p.tag, p.attr, LocText(p.loc)>>
      [] p.e = "UnsupportedDoctype" -> <<p.doctype, LocText(p.loc)>>
      [] p.e \in {"ExpectedOpeningTagIdentifier", "InvalidOpeningTagIdentifier"} ->
           <<T("pening tag"), LocText(p.loc)>>
      [] p.e \in {"ExpectedClosingTagIdentifier", "InvalidClosingTagIdentifier"} ->
           <<T("losing tag"), LocText(p.loc)>>
      [] p.e = "InvalidAttributeIdentifier" -> <<T("ttribute"), LocText(p.loc)>>
      [] OTHER -> <<LocText(p.loc)>>
RECURSIVE InOrder(_, _, _, _)
InOrder(t, need, k, i) ==
    IF k > Len(need) THEN TRUE
    ELSE LET j == FindStr(t, i, need[k])
         IN j > 0 /\ InOrder(t, need, k + 1, j + Len(need[k]))
IdNeeded(id) == CASE id.e = "Empty" -> T("empty") [] id.e = "NotAscii" -> T("ASCII")
                  [] id.e = "Whitespace" -> T("whitespace")
                  [] id.e = "Forbidden" -> T("forbidden character '")
                       \o (IF id.c \in {34, 39, 92} THEN <<92>> ELSE <<>>) \o <<id.c, 39>>
MsgsOk(err, msgs) ==
    IF err.e = "LengthLimitExceeded" THEN Len(msgs) = 1 /\ HasStr(msgs[1], NUM(err.limit))
    ELSE /\ Len(msgs) = IF Has(err.p, "id") THEN 3 ELSE 2
         /\ InOrder(msgs[2], NeededIn(err.p), 1, 1)
         /\ Has(err.p, "id") => HasStr(msgs[3], IdNeeded(err.p.id))

\* Are there events in a template which stand for nothing?  (They make equal templates differ.)
Internal(ev) == \E i \in 1..Len(ev) : ev[i].k = "noop"
ParseFailed(c, o) ==
    LET r == ParseAll(c.x, Get(c, "maxd", -1), Get(c, "maxl", -1))
        good == r.err = NoErr
        ogood == o.err.e = "none"
        evs == NormObs(ObsAll(r.ev))
    IN  (IF Wants(c, "accept") /\ good # ogood THEN {"accept"} ELSE {})
        \cup (IF Wants(c, "events") /\ good /\ ogood /\ (NormObs(o.ev) # evs \/ ~o.tm \/ Internal(o.ev))
              THEN {"events"} ELSE {})
        \* (tag names which begin like a declaration are listed findings)
        \cup (IF ogood /\ (Wants(c, "reparse") \/ (Wants(c, "again") /\ ~\E i \in 1..Len(r.ev) : r.ev[i].t # <<>> /\ r.ev[i].t[1] = BANG))
                 /\ ~(o.re.ok /\ o.re.same /\ NormObs(o.re.ev) = NormObs(o.ev) /\ o.tm)
              THEN {"again"} ELSE {})
        \cup (IF Wants(c, "error") /\ (o.err # r.err \/ (~ogood /\ ~o.chain)) THEN {"error"} ELSE {})
        \cup (IF Wants(c, "message") /\ ~ogood /\ ~good /\ ~MsgsOk(r.err, o.msgs)
              THEN {"message"} ELSE {})
        \* (a reading with limits leaves readings without them alone, and the other way around)
        \cup (IF Wants(c, "limit") /\ Has(o, "free")
                 /\ (o.free.err # ParseAll(c.x, -1, -1).err \/ ~o.free.same)
              THEN {"limit"} ELSE {})
        \cup (IF Wants(c, "limit") /\ o.err # r.err
                 /\ LET lim(e) == e.e = "LengthLimitExceeded"
                                  \/ (e.e = "Parse" /\ e.p.e = "StackLimitExceeded")
                    IN lim(o.err) \/ lim(r.err)
              THEN {"limit"} ELSE {})

(************************* messages of stream errors ***********************)
KindWord(k) == CASE k = "none" -> T("end of input") [] k = "data" -> T("content") [] k = "raw" -> T("raw content")
                 [] k = "open" -> T("opening tag") [] k = "close" -> T("closing tag")
                 [] k = "self" -> T("self-closed tag") [] k = "void" -> T("void tag") [] OTHER -> T(k)
\* For every message along the chain of causes: what it has to contain, in this order.
ParseNeeds(p) == <<NeededIn(p)>> \o (IF Has(p, "id") THEN <<<<IdNeeded(p.id)>>>> ELSE <<>>)
InputNeeds(i) == IF i.e = "LengthLimitExceeded" THEN <<<<NUM(i.limit)>>>> ELSE <<<<>>>> \o ParseNeeds(i.p)
SelNeeds(s) ==
    CASE s.e \in {"Tag", "Id", "Class"} ->
           <<<<CASE s.e = "Tag" -> T("tag") [] s.e = "Id" -> T("id ") [] s.e = "Class" -> T("class")>>, <<IdNeeded(s.id)>>>>
      [] s.e = "Unrestricted" -> <<<<>>>>
      [] s.e = "Classes" -> IF s.c.e = "Empty" THEN <<<<T("lasses")>>, <<T("empty")>>>>
                            ELSE <<<<T("lasses")>>, <<T("class"), NUM(s.c.index)>>, <<IdNeeded(s.c.id)>>>>
StreamNeeds(err) ==
    CASE err.e = "Assertion" ->
           <<<<>>, <<>>, CASE err.r = "UnexpectedClosingTag" -> <<T("losing tag"), err.tag>>
                           [] err.r = "ExpectedOpeningTag" -> <<T("pening tag"), KindWord(err.ev.k)>>
                           [] err.r = "ExpectedClosingTag" -> <<T("losing tag"), err.tag, KindWord(err.ev.k)>>>>
      [] err.e = "Input" -> <<<<>>>> \o InputNeeds(err.i)
      [] err.e = "Identifier" -> <<<<>>, <<IdNeeded(err.id)>>>>
      [] err.e = "Selector" -> <<<<>>>> \o SelNeeds(err.s)
      [] err.e = "StaticSelector" ->
           <<<<>>>> \o (IF err.s.e = "Class" THEN <<<<T("class"), NUM(err.s.index)>>, <<IdNeeded(err.s.id)>>>>
                        ELSE SelNeeds(err.s))
      [] err.e = "File" -> IF err.f.e = "Input" THEN <<<<>>, <<>>>> \o InputNeeds(err.f.i) ELSE <<<<>>, <<>>, <<>>>>
      [] OTHER -> <<>>
MessagesFit(need, msgs) == Len(need) = Len(msgs) /\ \A i \in 1..Len(need) : InOrder(msgs[i], need[i], 1, 1)

(************************* transformations *********************************)
\* The outcome of the program: from the machine, or (quicker, for well-formed content) directly.
Oracle(c) == IF Get(c, "oracle", "pull") = "pull" THEN PullTransform(c.prog, c.doc)
             ELSE Transform(c.prog, c.doc)
\* What an observed tag is, as far as nesting is concerned.
AsTag(b) == CASE b.k = "open" -> Open(TakeName(b.r, 2).v, <<>>)
              [] b.k = "close" -> Close(TakeName(b.r, 3).v)
              [] OTHER -> Ev(b.k, <<>>, <<>>, <<>>)
TransFailed(c, o) ==
    LET r == Oracle(c)
        good == r.err = NoErr
        ogood == o.err.e = "none"
        evs == NormObs(ObsAll(r.ev))
        back == ParseAll(FlattenSeq([i \in 1..Len(evs) |-> evs[i].r]), -1, -1)
    IN  (IF Wants(c, "accept") /\ good # ogood THEN {"accept"} ELSE {})
        \cup (IF Wants(c, "events") /\ good /\ (~ogood \/ NormObs(o.ev) # evs \/ ~o.tm \/ Internal(o.ev))
              THEN {"events"} ELSE {})
        \cup (IF Wants(c, "error") /\ ~good /\ o.err # r.err THEN {"error"} ELSE {})
        \cup (IF Wants(c, "chain") /\ ~ogood /\ ~(o.chain /\ MessagesFit(StreamNeeds(o.err), o.msgs)) THEN {"chain"} ELSE {})
        \cup (IF Wants(c, "log") /\ o.log # r.log THEN {"log"} ELSE {})
        \cup (IF Wants(c, "source") /\ ~o.src THEN {"source"} ELSE {})
        \cup (IF Wants(c, "twice") /\ ~o.twice THEN {"twice"} ELSE {})
        \* if the result can be written in markup, it is read back as what it was
        \cup (IF ogood /\ (Wants(c, "reparse") \/ (Wants(c, "again") /\ good /\ back.err = NoErr /\ NormObs(ObsAll(back.ev)) = evs))
                 /\ ~(o.re.ok /\ NormObs(o.re.ev) = NormObs(o.ev) /\ o.tm)
              THEN {"again"} ELSE {})
        \cup (IF Wants(c, "nested") /\ ogood /\ good /\ Nested(r.ev) /\ ~Nested([i \in 1..Len(o.ev) |-> AsTag(o.ev[i])])
              THEN {"nested"} ELSE {})
        \* the two descriptions of transformations agree (for well-formed content)
        \cup (IF Wants(c, "spec")
                 /\ LET t == Transform(c.prog, c.doc)
                        d == RegionResult(c.prog, c.doc)
                    IN t.err # r.err \/ (good /\ Norm(t.ev) # Norm(r.ev))
                       \/ d.err # r.err \/ (good /\ Norm(d.ev) # Norm(r.ev))
              THEN {"spec"} ELSE {})
        \cup (IF Wants(c, "same") /\ ogood /\ NormObs(o.ev) # NormObs(ObsAll(c.doc))
              THEN {"same"} ELSE {})

(************************* selectors ***************************************)
\* The same for the error of a selector type before it becomes a stream error.
OwnNeeds(err) == IF err.s.e = "Classes" THEN Tail(SelNeeds(err.s)) ELSE SelNeeds(err.s)
SelFailed(c, o) ==
    LET err == SelErr(c.sel)
        doc == SelectSeq(c.doc, LAMBDA e : e.k # "noop")
    IN  (IF o.err # err THEN {"error"} ELSE {})
        \cup (IF o.err.e # "none" /\ err # NoErr
                 /\ ~(/\ o.chain /\ MessagesFit(StreamNeeds(err), o.msgs)
                      /\ c.sel.s # "static" => MessagesFit(OwnNeeds(err), o.own)) THEN {"chain"} ELSE {})
        \cup (IF o.err.e = "none" /\ err = NoErr
                 /\ o.m # [i \in 1..Len(doc) |-> Matches(c.sel, doc[i])]
              THEN {"matches"} ELSE {})

(************************* identifiers and text ****************************)
\* The ways in which a name can become an identifier (the last ones need one that is valid).
IdentWays == <<"FromStr", "from_static_str", "&'static str", "Result", "with_element", "&Identifier", "Identifier">>
IdentFailed(c, o) ==
    LET err == IdErr(c.x)
        ways == SubSeq(IdentWays, 1, IF err = NoErr THEN 7 ELSE 5)
    IN  (IF \/ [i \in 1..Len(o.entries) |-> o.entries[i].w] # ways
            \/ \E i \in 1..Len(o.entries) : o.entries[i].r # err THEN {"entries"} ELSE {})
        \cup (IF err = NoErr /\ Get(o, "kept", <<>>) # [i \in 1..6 |-> c.x] THEN {"kept"} ELSE {})
        \cup (IF err = NoErr /\ IdErr(c.y) = NoErr /\ Get(o, "eq", <<>>) # [i \in 1..5 |-> IdEq(c.x, c.y)]
              THEN {"equality"} ELSE {})
        \cup (IF err # NoErr /\ Has(o, "msg") /\ err.e # "Whitespace" /\ ~HasStr(o.msg, IdNeeded(err))
              THEN {"message"} ELSE {})
\* The ways in which text is encoded, the last two of Value and Data once more from the same one.
TextWays == <<"Data::from_unencoded_str", "Data::from_unencoded_str(String)", "Data::from_unencoded_static_str",
              "Data.as_encoded_ref", "Data static.as_encoded_ref", "Data.clone",
              "Value::from_unencoded_str", "Value::from_unencoded_static_str", "Value.as_encoded_ref",
              "Value static.as_encoded_ref", "Data::from(Value)", "Data::from(static Value)",
              "str.into_value", "Value.into_value", "&Value.into_value", "str.into_stream",
              "Data.into_stream", "&Data.into_stream", "Value.into_stream", "&Value.into_stream",
              "&Data twice", "&Value twice">>
TextFailed(c, o) ==
    (IF o.outs # <<[w |-> TextWays, r |-> Escape(c.x)]>> THEN {"encoding"} ELSE {})
    \cup (IF ~o.eq THEN {"equality"} ELSE {})

(************************* histories of templates **************************)
HistFailed(c, o) == IF HistOk(c.steps, o.seen) THEN {} ELSE {"history"}

(************************* files *******************************************)
FileFailed(c, o) ==
    LET small == Get(c, "small", FALSE)
        \* (the content of a file of the system is observed)
        pieces == IF c.mode = "system" THEN <<[b |-> o.content, n |-> 1]>> ELSE c.bytes
        mode == IF c.mode = "system" THEN "file" ELSE c.mode
        d == IF small THEN Decode(FileBytes(pieces)) ELSE [ok |-> o.utf8, t |-> <<>>]
        r == ParseAll(d.t, Get(c, "maxd", -1), Get(c, "maxl", -1))
        \* for large files the outcome of parsing the same text directly
        direct == IF small THEN r.err ELSE Get(o, "serr", NoErr)
        allowed == FileOutcomes(mode, d.ok, direct, Get(c, "maxl", -1), FileSize(pieces))
    IN  (IF ~\E a \in allowed : a = o.err THEN {"outcome"} ELSE {})
        \* what the same text gives when it is parsed directly
        \cup (IF small /\ mode \in {"file", "fifo"} /\ (o.utf8 # d.ok \/ Get(o, "serr", NoErr) # (IF d.ok THEN r.err ELSE NoErr)) THEN {"direct"} ELSE {})
        \cup (IF o.err.e = "none" /\ (~d.ok \/ ~Get(o, "same", FALSE) \/ ~o.tm) THEN {"same"} ELSE {})
        \cup (IF o.err.e # "none"
                 /\ ~(/\ o.path /\ o.chain
                      /\ c.mode = "missing" => Get(o, "io", "") = "NotFound"
                      /\ c.mode = "nul" => Get(o, "io", "") = "InvalidInput"
                      \* the fault is where the bytes cease to be valid
                      /\ (o.err.e = "Decode" /\ ~d.ok /\ (Get(c, "maxl", -1) < 0 \/ FileSize(pieces) <= c.maxl))
                         => Get(o, "valid", -1) = IF small THEN Bytes(d.t) ELSE o.upto)
              THEN {"report"} ELSE {})
        \cup (IF small /\ o.err.e = "none" /\ NormObs(o.ev) # NormObs(ObsAll(r.ev)) THEN {"events"} ELSE {})

(************************* big inputs **************************************)
(* The text of a big case is made of parts, each repeated c.parts[i].n times; all counts above *)
(* Pump are the same number n, which can be the number of items or events of a stream as well  *)
(* ("many").  The outcome for n follows from the outcomes for Pump and Pump + 1, the sizes     *)
(* being linear in n.                                                                          *)
Pump == 3
RECURSIVE ScaleProg(_, _), ScaleC(_, _)
ScaleC(c, n) == CASE c.c = "stream" /\ Has(c, "many") -> [c EXCEPT !.ev = Repeat(c.ev, n)]
                  [] Has(c, "many") -> [c EXCEPT !.x = Repeat(c.x, n)]
                  [] c.c = "ok" -> [c EXCEPT !.i = ScaleC(c.i, n)]
                  [] OTHER -> c
ScaleOp(o, n) ==
    LET a == IF "p" \in DOMAIN o THEN [o EXCEPT !.p = ScaleProg(o.p, n)] ELSE o
        b == IF "q" \in DOMAIN o THEN [a EXCEPT !.q = ScaleProg(o.q, n)] ELSE a
        d == IF "c" \in DOMAIN o THEN [b EXCEPT !.c = ScaleC(o.c, n)] ELSE b
        e == IF "val" \in DOMAIN o THEN [d EXCEPT !.val = ScaleC(o.val, n)] ELSE d
        f == IF "sep" \in DOMAIN o THEN [e EXCEPT !.sep = ScaleC(o.sep, n)] ELSE e
    IN IF "many" \in DOMAIN o THEN [f EXCEPT !.items = Repeat(o.items, n)] ELSE f
ScaleProg(prog, n) == [i \in 1..Len(prog) |-> ScaleOp(prog[i], n)]
Factor(c) == LET big == (IF Has(c, "many") THEN {c.many} ELSE {}) \cup ({c.parts[i].n : i \in 1..Len(c.parts)} \ 0..Pump)
             IN IF big = {} THEN Pump ELSE CHOOSE n \in big : TRUE
\* Pieces may have their own numbers (in place of "#", with six digits), ascending or descending.
Six(n) == [i \in 1..6 |-> 48 + ((n \div (10 ^ (6 - i))) % 10)]
Numbered(x, n) == FlattenSeq([i \in 1..Len(x) |-> IF x[i] = 35 THEN Six(n) ELSE <<x[i]>>])
Scaled(c, n) == FlattenSeq([i \in 1..Len(c.parts) |->
                   LET p == c.parts[i]
                       m == IF p.n > Pump THEN n ELSE p.n
                       num == Get(p, "num", 0)
                   IN IF num = 0 THEN Repeat(p.x, m)
                      ELSE FlattenSeq([j \in 1..m |-> Numbered(p.x, IF num = 1 THEN j ELSE m + 1 - j)])])
IsNumbered(c) == \E i \in 1..Len(c.parts) : Get(c.parts[i], "num", 0) > 0
\* (the numbers are left out of digests)
Masked(t) == [i \in 1..Len(t) |-> IF t[i] \in 48..57 THEN 48 ELSE t[i]]
\* A digest of a text: sums of its characters, weighted by powers of their positions.  When the text is
\* made of pieces which are repeated n times, these are polynomials in n, of degree 3 at most.
Prime == 32749
Mod(x) == x % Prime
Digest(t) ==
    LET s == FoldLeft(LAMBDA a, x :
                 LET i == a[1] + 1
                     w == Mod(Mod(i) * Mod(x))
                 IN <<i, Mod(a[2] + x), Mod(a[3] + w), Mod(a[4] + Mod(i) * w)>>, <<0, 0, 0, 0>>, t)
    IN <<Mod(s[1]), s[2], s[3], s[4]>>
\* The value at Pump + t of a polynomial with the values f at Pump .. Pump + 3 (modulo Prime).
PolyAt(f, t) ==
    LET u == Mod(t)
        c2 == Mod(Mod(u * (u - 1)) * 16375)
        c3 == Mod(Mod(Mod(u * (u - 1)) * (u - 2)) * 27291)
        d1 == Mod(f[2] - f[1])
        d2 == Mod(f[3] - 2 * f[2] + f[1])
        d3 == Mod(f[4] - 3 * f[3] + 3 * f[2] - f[1])
    IN Mod(f[1] + Mod(u * d1) + Mod(c2 * d2) + Mod(c3 * d3))
SmallRun(c, n) ==
    LET x == Scaled(c, n)
        q == ParseAll(x, -1, -1)
        t == IF q.err = NoErr THEN Transform(ScaleProg(c.prog, n), q.ev) ELSE Ok(<<>>)
        r == RenderAll(q.ev)
        w == RenderAll(t.ev)
        b == ParseAll(r, -1, -1)
    IN [back |-> b.err = NoErr /\ Norm(b.ev) = Norm(q.ev), len |-> Bytes(x), err |-> q.err, terr |-> t.err, rlen |-> Bytes(r), outlen |-> Bytes(w),
        exact |-> r = x,
        rd |-> Digest(IF IsNumbered(c) THEN Masked(r) ELSE r), od |-> Digest(IF IsNumbered(c) THEN Masked(w) ELSE w)]
\* Memory (bytes) and processor time (ms) per byte read or written (and per item), beyond a constant.
MemPerByte == 200
MemPerItem == 500
MemConst == 4000000
BytesPerMs == 200
CpuConst == 4000
\* Kind and places of a parse error.
Places(p) ==
    LET o == Get(p, "others", <<>>)
    IN [e |-> p.e, others |-> Len(o),
        locs |-> (IF Has(p, "loc") THEN <<p.loc>> ELSE <<>>) \o (IF Has(p, "cloc") THEN <<p.cloc>> ELSE <<>>)
                 \o (IF Has(p, "oloc") THEN <<p.oloc>> ELSE <<>>) \o (IF Has(p, "inner") THEN <<p.inner.loc>> ELSE <<>>)
                 \o (IF o # <<>> THEN <<o[Len(o)].loc, o[1].loc>> ELSE <<>>)]
PlacesAt(e1, e2, n) ==
    LET a == Places(e1.p)
        b == Places(e2.p)
        at(u, w) == u + (n - Pump) * (w - u)
    IN [e |-> a.e, others |-> at(a.others, b.others),
        locs |-> [i \in 1..Len(a.locs) |-> [j \in 1..3 |-> at(a.locs[i][j], b.locs[i][j])]]]
BigFailed(c, o) ==
    LET r == [i \in 1..5 |-> SmallRun(c, Pump + i - 1)]
        n == Factor(c)
        at(u, w) == u + (n - Pump) * (w - u)
        len == at(r[1].len, r[2].len)
        \* the repetitions make a difference which is always the same
        regular == /\ \A i \in 2..4 : /\ r[i + 1].len - r[i].len = r[2].len - r[1].len
                                      /\ r[i + 1].rlen - r[i].rlen = r[2].rlen - r[1].rlen
                                      /\ r[i + 1].outlen - r[i].outlen = r[2].outlen - r[1].outlen
                   /\ \A i \in 2..5 : r[i].terr = r[1].terr /\ r[i].err.e = r[1].err.e
                   /\ \A j \in 1..4 : PolyAt([i \in 1..4 |-> r[i].od[j]], 4) = r[5].od[j]
        digest(f) == [j \in 1..4 |-> PolyAt([i \in 1..4 |-> r[i][f][j]], n - Pump)]
        long == Get(c, "maxl", -1) >= 0 /\ len > c.maxl
        deep == Get(c, "maxd", -1) >= 0 /\ Get(c, "depth", 0) > c.maxd
        \* the limit in an instance of another size, and what it leads to there
        lim(m) == IF Get(c, "dn", FALSE) THEN m - (n - c.maxd) ELSE c.maxd
        strike(m) == Get(ParseAll(Scaled(c, m), lim(m), -1).err, "p", NoErr)
        good == r[1].err = NoErr /\ ~long /\ ~deep
        size == o.len + (IF o.ok THEN o.rlen + o.outlen ELSE 0)
    IN  IF ~regular THEN {"irregular"} ELSE
        (IF o.len # len THEN {"harness"} ELSE {})
        \cup (IF o.ok # good THEN {"accept"} ELSE {})
        \cup (IF ~o.ok /\ o.e # (IF long THEN "LengthLimitExceeded" ELSE "Parse") THEN {"error"} ELSE {})
        \cup (IF ~o.ok /\ ~long /\ ~deep /\ r[1].err # NoErr /\ Get(o, "p", NoErr) # PlacesAt(r[1].err, r[2].err, n)
              THEN {"place"} ELSE {})
        \cup (IF long /\ ~o.ok /\ Get(o, "limit", -1) # c.maxl THEN {"strike"} ELSE {})
        \cup (IF deep /\ ~long /\ ~o.ok
              THEN LET a == strike(Pump)
                       b == strike(Pump + 1)
                       q == Get(o, "p", NoErr)
                   IN IF a.e # "StackLimitExceeded" \/ b.e # a.e THEN {"irregular"}
                      ELSE IF q.e # a.e THEN {"strike"}
                      ELSE IF q.limit # c.maxd \/ q.tag # a.tag \/ q.others # 0
                              \/ q.locs # PlacesAt([p |-> a], [p |-> b], n).locs
                      THEN {"strike"} ELSE {}
              ELSE {})
        \cup (IF o.ok /\ good /\ o.tok # (r[1].terr = NoErr) THEN {"result"} ELSE {})
        \cup (IF o.ok /\ good /\ o.tok /\ (o.outlen # at(r[1].outlen, r[2].outlen) \/ o.od # digest("od")) THEN {"content"} ELSE {})
        \cup (IF o.ok /\ good /\ (o.rlen # at(r[1].rlen, r[2].rlen) \/ o.rd # digest("rd")
                                  \/ ((\A i \in 1..5 : r[i].exact) /\ ~o.exact)) THEN {"rendering"} ELSE {})
        \cup (IF o.ok /\ good /\ r[1].back /\ ~o.re THEN {"again"} ELSE {})
        \cup (IF o.ok /\ good /\ ~o.twice THEN {"twice"} ELSE {})
        \cup (IF o.ok /\ good /\ ~o.src THEN {"source"} ELSE {})
        \cup (IF o.cpu > CpuConst + size \div BytesPerMs THEN {"work"} ELSE {})
        \cup (IF (o.peak - MemConst - MemPerItem * Get(c, "many", 0)) \div MemPerByte > size THEN {"memory"} ELSE {})

(***************************************************************************)
AllFailed(c, o) ==
    CASE c.k = "sel"   -> SelFailed(c, o)
      [] c.k = "ident" -> IdentFailed(c, o)
      [] c.k = "text"  -> TextFailed(c, o)
      [] c.k = "hist"  -> HistFailed(c, o)
      [] c.k = "file"  -> FileFailed(c, o)
      [] c.k = "big"   -> BigFailed(c, o)
Failed(c, o) ==
    IF o.st # "done" THEN {IF o.st = "skip" THEN "setup" ELSE o.st}
    ELSE IF Len(c.v) = 0 THEN {}
    ELSE CASE c.k = "parse" -> ParseFailed(c, o)
           [] c.k = "trans" -> TransFailed(c, o)
           [] OTHER -> {a \in AllFailed(c, o) : Wants(c, a)}
=============================================================================
