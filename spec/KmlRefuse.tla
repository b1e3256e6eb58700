----------------------------- MODULE KmlRefuse -----------------------------
(***************************************************************************)
(* Requests that cannot be fulfilled.  A session has a root element `k', a *)
(* folder `f', two placemarks and two files.  A placemark may hold a value *)
(* that no document can express (a flaw).  A request is fulfilled or       *)
(* refused; a refused one leaves the objects, the files and the settings   *)
(* as they were.                                                           *)
(***************************************************************************)
EXTENDS KmlOrder

Marks == {"p1", "p2"}
Holders == {"k", "f"}
Disks == {"f1", "z1"}
\* ses = [val: placemark -> object, flaw: placemark -> BOOLEAN, has: container -> names in order, disk: file -> content]
RECURSIVE Reach(_, _)
Reach(ses, c) == IF c \in Marks THEN {c} ELSE UNION {Reach(ses, ses.has[c][j]) : j \in DOMAIN ses.has[c]}
Flawed(ses, c) == \E p \in Reach(ses, c) : ses.flaw[p]
RECURSIVE ValueOf(_, _)
ValueOf(ses, c) ==
  IF c \in Marks THEN ses.val[c]
  ELSE LET q == ses.has[c] IN
       Obj(IF c = "k" THEN "KML" ELSE "Folder", "kml",
           IF q = <<>> THEN <<>> ELSE [features |-> TLCEval([j \in DOMAIN q |-> ValueOf(ses, q[j])])])

\* What a request that must be refused, may be refused or must be fulfilled answers.
Exclusive == [Point |-> "GeometryError", LineString |-> "GeometryError", LinearRing |-> "GeometryError",
              Polygon |-> "GeometryError", OuterBoundaryIs |-> "GeometryError", InnerBoundaryIs |-> "GeometryError",
              MultiGeometry |-> "GeometryError", Placemark |-> "ValueError", Track |-> "ValueError", Schema |-> "KMLSchemaError"]
Answers(ses, req) ==
  CASE req.a = "append" -> IF req.c = req.d THEN {"ValueError"} ELSE {"ok"}
    [] req.a = "write" -> (IF req.place THEN {} ELSE {"OSError"}) \cup (IF Flawed(ses, "k") THEN {"unwritable"} ELSE {})
                          \cup (IF req.place /\ ~Flawed(ses, "k") THEN {"ok"} ELSE {})
    [] req.a = "text" -> IF Flawed(ses, req.c) THEN {"unwritable"} ELSE {"ok"}
    [] req.a = "parse" -> IF ses.disk[req.c] = "none" THEN {"OSError"}
                          ELSE IF ses.disk[req.c] = "bad" /\ req.strict THEN {"KMLParseError"} ELSE {"ok"}
    [] req.a = "make" -> IF req.both THEN {Exclusive[req.c]} ELSE {"ok"}
    [] req.a = "narrow" -> IF req.both THEN {"KMLWriteError"} ELSE {"ok"}
    [] req.a = "check" -> {"ValueError"}
    [] OTHER -> {"ok"}
Refusal(got) == got # "ok"
\* The session after a request that was answered with got.
After(ses, req, got) ==
  IF Refusal(got) THEN ses
  ELSE CASE req.a = "put" -> [ses EXCEPT !.val[req.c] = req.o, !.flaw[req.c] = req.flaw]
         [] req.a = "append" -> [ses EXCEPT !.has[req.c] = Append(@, req.d)]
         [] req.a = "write" -> [ses EXCEPT !.disk[req.c] = "doc"]
         [] req.a = "foreign" -> [ses EXCEPT !.disk[req.c] = "bad"]
         [] req.a = "remove" -> [ses EXCEPT !.disk[req.c] = "none"]
         [] OTHER -> ses
MayChange(req, got) == IF ~Refusal(got) /\ req.a \in {"write", "foreign", "remove"} THEN {req.c} ELSE {}

---------------------------------------------------------------------------
(* A recorded session: h[i] = request, got, and what there is afterwards:  *)
(* vals, the placemarks; has, the containers by identity; changed, the     *)
(* files with other bytes than before; files, all that exist; settings.    *)
AsSet(q) == {q[j] : j \in DOMAIN q}
StepBad(ses, act, next) ==
  IF ~\E p \in Answers(ses, act) : act.got = p \/ (p = "unwritable" /\ Refusal(act.got))
  THEN act.a \o " was answered with " \o act.got
  ELSE IF \E p \in Marks : act.vals[p] # next.val[p] THEN "a placemark is not as it was after " \o act.a \o " (" \o act.got \o ")"
  ELSE IF \E c \in Holders : act.has[c] # next.has[c] THEN "a container is not as it was after " \o act.a \o " (" \o act.got \o ")"
  ELSE IF ~(AsSet(act.changed) \subseteq MayChange(act, act.got)) THEN "a file is not as it was after " \o act.a \o " (" \o act.got \o ")"
  ELSE IF AsSet(act.files) # {d \in Disks : next.disk[d] # "none"} THEN "other files after " \o act.a \o " (" \o act.got \o ")"
  ELSE IF ~act.same THEN "settings are not as they were after " \o act.a \o " (" \o act.got \o ")"
  ELSE IF act.a = "write" /\ ~Refusal(act.got) /\ Diff(act.e, Write(ValueOf(ses, "k"), "normal"), -1, act.tab) # ""
       THEN "file written after a refusal: " \o Diff(act.e, Write(ValueOf(ses, "k"), "normal"), -1, act.tab)
  ELSE ""
RECURSIVE FollowSession(_, _, _)
FollowSession(ses, h, j) ==
  IF j > Len(h) THEN {}
  ELSE LET act == h[j] next == TLCEval(After(ses, act, act.got)) IN
       IF act.a \in {"write", "text"} /\ ~Refusal(act.got) /\ Flawed(ses, IF act.a = "write" THEN "k" ELSE act.c)
       THEN {}     \* it knows how to write this after all: nothing was refused
       ELSE LET bad == StepBad(ses, act, next) IN
            IF bad # "" THEN {"step " \o ToString(j) \o ": " \o bad} ELSE FollowSession(next, h, j + 1)
StartOf(vals) == [val |-> vals, flaw |-> [p \in Marks |-> FALSE], has |-> [c \in Holders |-> <<>>], disk |-> [d \in Disks |-> "none"]]
=============================================================================
