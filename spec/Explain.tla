------------------------------ MODULE Explain ------------------------------
(* What the specification expects for the events of a trace; for people.    *)
EXTENDS KmlJudge, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE idx
Init == idx = 0
Next == /\ idx < Len(Events) /\ idx' = idx + 1
        /\ LET ev == Events[idx + 1] IN
           PrintT("WANT " \o ToJson(CASE ev.op = "read" -> Read(ev.cls, ev.e, ev.ns, ev.strict, ev.tab)
                                      [] ev.op = "write" -> Write(ev.o, ev.v)
                                      [] OTHER -> <<>>))
=============================================================================
