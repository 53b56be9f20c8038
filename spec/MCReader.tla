------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* Small-scope model of loading a file: its bytes arrive in chunks of any  *)
(* size; they are collected, as far as the length limit allows, decoded    *)
(* and parsed.  Whatever the chunks, the outcome is that of the text.      *)
(***************************************************************************)
EXTENDS Reader, Json

CONSTANTS MaxChunks, Profile

H(t) == Encode(T(t))
Files ==
    CASE Profile = "chars" ->
           { Encode(<<233>>), Encode(<<8364, 97>>), Encode(<<128512>>), Encode(<<97, 1114111>>),
             Encode(<<127, 128>>), Encode(<<2047, 2048>>), Encode(<<65535>>), Encode(<<65536>>), Encode(<<55295, 57344>>),
             <<>>, <<97>>, <<195>>, <<226, 130>>, <<240, 159, 152>>, <<128>>, <<192, 128>>, <<193, 191>>, <<224, 159, 191>>,
             <<237, 160, 128>>, <<240, 143, 191, 191>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<255>>, <<97, 195, 97>>,
             <<226, 130, 172, 172>>, <<195, 169, 195>>, <<239, 187, 191, 97>>, <<195, 195, 169>>, <<0>> }
      [] Profile = "markup" ->
           { H("<a></a>"), H("<a>"), H("</b>"), H("<br>"), H("<a/>"), H("<!--x") }
           \cup { H("<a>") \o Encode(<<233>>) \o H("</a>"), H("<a>") \o Encode(<<128512>>), H("<a ") \o Encode(<<233>>) \o H(">"),
                  H("<b>") \o <<195>> \o H("</b>"), <<13, 10>> \o H("</b>"), Encode(<<8364>>) \o H("<") }
Limits(f) == {-1} \cup {l \in {Len(f) - 2, Len(f) - 1, Len(f), Len(f) + 1} : l >= 0}

VARIABLES file, lim, at, chunks, u, phase, result
vars == <<file, lim, at, chunks, u, phase, result>>

Init == /\ file \in Files /\ lim \in Limits(file)
        /\ at = 0 /\ chunks = <<>> /\ u = UInit /\ phase = "read" /\ result = NoErr

\* Some bytes arrive; the last chunk takes all that is left.
ReadChunk ==
    /\ phase = "read" /\ at < Len(file) /\ (lim < 0 \/ at <= lim)
    /\ \E n \in 1..(Len(file) - at) :
          /\ Len(chunks) < MaxChunks - 1 \/ n = Len(file) - at
          /\ at' = at + n
          /\ chunks' = Append(chunks, n)
          /\ u' = UFeed(u, SubSeq(file, at + 1, at + n))
    /\ UNCHANGED <<file, lim, phase, result>>
TooLong ==
    /\ phase = "read" /\ lim >= 0 /\ at > lim
    /\ phase' = "over" /\ result' = FileInput([e |-> "LengthLimitExceeded", limit |-> lim])
    /\ UNCHANGED <<file, lim, at, chunks, u>>
EndOfFile ==
    /\ phase = "read" /\ at = Len(file) /\ ~(lim >= 0 /\ at > lim)
    /\ phase' = "over"
    /\ result' = IF ~UValid(u) THEN FileErr("Decode")
                 ELSE LET r == ParseAll(u.t, -1, lim) IN IF r.err = NoErr THEN NoErr ELSE FileInput(r.err)
    /\ UNCHANGED <<file, lim, at, chunks, u>>
Next == ReadChunk \/ TooLong \/ EndOfFile
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(************************* properties **************************************)
\* The decoder agrees with the encoding: it is right on exactly the encodings of scalar values.
Scalars == \A i \in 1..Len(u.t) : IsScalar(u.t[i])
DecodedIs == (u.ok /\ u.need = 0) => Encode(u.t) = SubSeq(file, 1, at)
PrefixIs == u.ok => LET d == Encode(u.t) IN Len(d) <= at /\ d = SubSeq(file, 1, Len(d)) /\ at - Len(d) <= 3
\* Chunks do not matter.
ChunkFree == phase = "over" => result \in FileOutcomes("file", Decode(file).ok,
                 ParseAll(Decode(file).t, -1, lim).err, lim, Len(file))
LimitLaw == (phase = "over" /\ lim >= 0) => ((result = FileInput([e |-> "LengthLimitExceeded", limit |-> lim])) <=> Len(file) > lim)
Ends == <>(phase = "over")

\* The chunks as far as they were given, the rest in one.
AllChunks == IF at < Len(file) THEN Append(chunks, Len(file) - at) ELSE chunks
Export == phase = "over" =>
    PrintT(ToJson([k |-> "file", mode |-> IF file = <<>> THEN "file" ELSE "fifo", bytes |-> <<[b |-> file]>>,
                   chunks |-> AllChunks, maxl |-> lim, small |-> TRUE]))
=============================================================================
