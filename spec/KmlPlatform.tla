---------------------------- MODULE KmlPlatform ----------------------------
(***************************************************************************)
(* What surrounds an operation: how the process was started, and settings  *)
(* that are not fastkml's and that somebody else in the process changes.   *)
(* No operator of the specification has them as an argument; a process may *)
(* keep what it worked out (mem), but only by what it was worked out from. *)
(* Behaviours are carried out in real processes with these surroundings.   *)
(***************************************************************************)
EXTENDS KmlEqual, Json, IOUtils
CONSTANTS Near, Away, MaxSteps      \* settings that differ from the plain ones at the start, later; length

Started == [hash |-> {"0", "1", "77"}, mode |-> {"", "-O", "-OO", "-Xdev"}, lib |-> {"lxml", "none"},
            enc |-> {"utf8", "ascii"}, zone |-> {"UTC", "XXX-14", "EST5EDT"}]
Plain == [hash |-> "0", mode |-> "", lib |-> "lxml", enc |-> "utf8", zone |-> "UTC"]
Live == [zone |-> {"", "XXX-14", "EST5EDT", "Asia/Kolkata"}, dir |-> {"", "other"}, digits |-> {"", "2", "down"}, warn |-> {"", "always"},
         locale |-> {"", "C"}, log |-> {"", "debug"}, parser |-> {"", "blanks"}, prefixes |-> {"", "odd"}, memory |-> {"", "collect"},
         depth |-> {"", "more"}]
Usual == [s \in DOMAIN Live |-> ""]
Differs(a, b) == Cardinality({s \in DOMAIN a : a[s] # b[s]})
Possible(b) == Differs(b, Plain) <= Near

SomePlaces == <<Obj("Placemark", "kml", [name |-> "a", visibility |-> "F"]),
            Obj("Placemark", "kml", [name |-> "b", kml_geometry |-> Obj("Point", "kml", [kml_coordinates |->
                Obj("Coordinates", "kml", [coords |-> <<<<"1.5", "1.5">>>>])])])>>
SomeDates == <<"2000-01-01T00:00:00", "2000-02">>
Known == [fl |-> [x \in {"1.5"} |-> "1.5"], il |-> <<>>, dx |-> <<>>]
Kinds == {"write", "read", "file", "date", "geometry", "find", "compare", "repr", "validate"}
\* What an operation gives, whatever the surroundings.
Meant == [k \in Kinds, x \in {1, 2} |->
  LET o == SomePlaces[x] IN
  CASE k = "write" -> Write(o, "normal").c
    [] k \in {"read", "file"} -> <<Read("Placemark", Concrete(Write(o, "normal")), "kml", TRUE, Known).o>>
    [] k = "date" -> <<ParseDate(SomeDates[x])>>
    [] k = "geometry" -> GeometryOf(o)
    [] k = "find" -> Hits(o, <<"Point">>, <<>>)
    [] k = "compare" -> <<o = SomePlaces[1]>>
    [] OTHER -> <<o>>]
Meaning(op) == Meant[op.k, op.x]

VARIABLES begin, now, mem, last, did
vars == <<begin, now, mem, last, did>>
Init == /\ begin \in {b \in [hash : Started.hash, mode : Started.mode, lib : Started.lib, enc : Started.enc, zone : Started.zone] : Possible(b)}
        /\ now = Usual /\ mem = <<>> /\ last = <<>> /\ did = <<>>
Tell == ("EMIT" \in DOMAIN IOEnv /\ Len(did') = MaxSteps) =>
          PrintT("BEH " \o ToJson([begin |-> begin, did |-> did']))
Change(s, v) == /\ now[s] # v /\ now' = [now EXCEPT ![s] = v] /\ Differs(now', Usual) <= Away
                /\ did' = Append(did, [a |-> "set", k |-> s, v |-> v]) /\ UNCHANGED <<begin, mem, last>> /\ Tell
Recalled(op) == \E j \in DOMAIN mem : mem[j].op = op
Do(op) == LET got == IF Recalled(op) THEN mem[CHOOSE j \in DOMAIN mem : mem[j].op = op].got ELSE Meaning(op) IN
          /\ last' = <<[op |-> op, got |-> got]>> /\ mem' = <<[op |-> op, got |-> got]>>
          /\ did' = Append(did, [a |-> "do", k |-> op.k, v |-> op.x]) /\ UNCHANGED <<begin, now>> /\ Tell
Next == /\ Len(did) < MaxSteps
        /\ (\E s \in DOMAIN Live : \E v \in Live[s] : Change(s, v)) \/ (\E k \in Kinds, x \in {1, 2} : Do([k |-> k, x |-> x]))
View == <<begin, now, mem, last>>

\* Every result is what the operation means, whatever was set before and whatever was kept.
Steady == \A j \in DOMAIN last : last[j].got = Meaning(last[j].op)
Kept == \A j \in DOMAIN mem : mem[j].got = Meaning(mem[j].op)
\* Changing the surroundings changes nothing that was worked out.
Apart == [][now' # now => mem' = mem /\ last' = last]_vars
=============================================================================
