------------------------------- MODULE Check --------------------------------
(***************************************************************************)
(* Validation of recorded behaviour.  The trace file has one record per    *)
(* execution of the implementation: {c: what was done, o: what was seen}.  *)
(* Each step consumes one record; records which do not agree with the      *)
(* specification are reported.  The work is divided between Shards         *)
(* independent behaviours.                                                 *)
(***************************************************************************)
EXTENDS Conform, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Shards == 8

VARIABLES l, shard, bad
vars == <<l, shard, bad>>

Init == shard \in 1..Shards /\ l = shard /\ bad = 0

Report(rec, failed) ==
    IF failed = {} THEN TRUE ELSE PrintT(<<"MISMATCH", rec.c.id, failed>>)

Validate ==
    /\ l <= Len(Trace)
    /\ LET failed == Failed(Trace[l].c, Trace[l].o)
       IN /\ Report(Trace[l], failed)
          /\ bad' = bad + (IF failed = {} THEN 0 ELSE 1)
    /\ l' = l + Shards
    /\ UNCHANGED shard

Finish ==
    /\ l > Len(Trace) /\ l < 1000000000
    /\ PrintT(<<"SHARD-DONE", shard, bad>>)
    /\ l' = 1000000000
    /\ UNCHANGED <<shard, bad>>

Next == Validate \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
