------------------------------ MODULE KmlTrace ------------------------------
(***************************************************************************)
(* Trace validation: is every recorded step of the real library one that   *)
(* the specification allows?  The trace is a file of JSON lines, one event *)
(* per line.  Events are judged independently, so the model walks the file *)
(* in NShards interleaved strands; the number of distinct states found is  *)
(* the number of events judged plus NShards.                               *)
(***************************************************************************)
EXTENDS KmlJudge, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
NShards == 8

VARIABLES shard, pos
vars == <<shard, pos>>

Cur(p, s) == p * NShards + s

Init == shard \in 1..NShards /\ pos = 0
Next == /\ Cur(pos, shard) <= Len(Events)
        /\ LET ev == Events[Cur(pos, shard)]
               bad == Judge(ev) IN
           IF bad = {} THEN TRUE
           ELSE PrintT("BAD " \o ToString(ev.id) \o " " \o ToString(bad))
        /\ pos' = pos + 1
        /\ UNCHANGED shard
=============================================================================
