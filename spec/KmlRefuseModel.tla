--------------------------- MODULE KmlRefuseModel ---------------------------
(***************************************************************************)
(* Sessions in which some requests are refused.  `past' keeps what kinds   *)
(* of requests were refused lately, so that sessions go on after them.     *)
(***************************************************************************)
EXTENDS KmlRefuse, IOUtils
CONSTANTS MaxSteps, Keep, Held, Kinds, Every      \* one behaviour of so many is told

VARIABLES ses, past, route
vars == <<ses, past, route>>
Named(t) == Obj("Placemark", "kml", [name |-> t])
Request(a, c, d) == [a |-> a, c |-> c, d |-> d, place |-> TRUE, strict |-> TRUE, both |-> FALSE, flaw |-> FALSE, o |-> Named("")]
Do(req) ==
  \E got \in Answers(ses, req) :
    /\ ses' = After(ses, req, got)
    /\ past' = IF Refusal(got) THEN LET m == Append(past, <<req.a, got>>) IN IF Len(m) > Keep THEN Tail(m) ELSE m ELSE past
    /\ route' = Append(route, [req |-> req, got |-> got])
    /\ ("EMIT" \in DOMAIN IOEnv /\ Len(route') > 3 =>
          /\ TLCSet(1, TLCGet(1) + 1)
          /\ (TLCGet(1) % Every = 0 =>
                PrintT("BEH " \o ToJson([j \in DOMAIN route' |-> [x \in DOMAIN route'[j].req \ {"o"} |-> route'[j].req[x]]]))))
Init == TLCSet(1, 0) /\ ses = StartOf([p \in Marks |-> Named("0")]) /\ past = <<>> /\ route = <<>>
Next ==
  /\ Len(route) < MaxSteps
  /\ \/ \E p \in Marks, fl \in BOOLEAN, t \in {"0", "1"} :
          Do([Request("put", p, "") EXCEPT !.flaw = fl, !.o = Named(IF fl THEN "flaw" ELSE t)])
     \/ \E c \in Holders, d \in Marks \cup Holders :
          /\ ~(c = "f" /\ d = "k") /\ (c = d \/ Len(ses.has[c]) < Held) /\ Do(Request("append", c, d))
     \/ \E d \in Disks, b \in BOOLEAN : Do([Request("write", d, "") EXCEPT !.place = b])
     \/ \E c \in Holders : Do(Request("text", c, ""))
     \/ \E d \in Disks, b \in BOOLEAN : d # "z1" /\ Do([Request("parse", d, "") EXCEPT !.strict = b])
     \/ Do(Request("foreign", "f1", ""))
     \/ \E d \in Disks : ses.disk[d] # "none" /\ Do(Request("remove", d, ""))
     \/ \E kd \in Kinds, b \in BOOLEAN : Do([Request("make", kd, "") EXCEPT !.both = b])
     \/ \E b \in BOOLEAN : Do([Request("narrow", "", "") EXCEPT !.both = b])
     \/ \E how \in {"neither", "two"} : Do(Request("check", how, ""))
View == <<ses, past>>

\* Nothing that cannot be written ends up in a file.
Latest == IF route = <<>> THEN "" ELSE route[Len(route)].got
Harmless == [][Refusal(route'[Len(route')].got) => ses' = ses]_vars
\* A container never contains itself.
NoLoop == \A c \in Holders : ~\E j \in DOMAIN ses.has[c] : ses.has[c][j] = c
\* Once the flaw is gone the same request is fulfilled, whatever was refused before.
Recovers == LET well == [ses EXCEPT !.flaw = [p \in Marks |-> FALSE]] IN Answers(well, Request("write", "f1", "")) = {"ok"}
\* What is written says what the objects say.
Says == ~Flawed(ses, "k") /\ Complete(ValueOf(ses, "k")) => Read("KML", Concrete(Write(ValueOf(ses, "k"), "normal")), "kml", TRUE, [fl |-> <<>>, il |-> <<>>, dx |-> <<>>]).o = ValueOf(ses, "k")
=============================================================================
