------------------------------ MODULE KmlLibs ------------------------------
(***************************************************************************)
(* A program that switches between the XML libraries while it makes,       *)
(* reads, changes and writes objects.  Beside it runs the same program     *)
(* without the switching: nothing it gets to see may differ, except that   *)
(* only lxml can validate.                                                 *)
(***************************************************************************)
EXTENDS KmlEqual, Json, IOUtils
CONSTANTS MaxObjects, MaxSteps

Libs == {"lxml", "stdlib"}
VARIABLES lib, pool, twin, answer, twinAnswer, path
vars == <<lib, pool, twin, answer, twinAnswer, path>>

K(cls, f) == Obj(cls, "kml", f)
Tab == [fl |-> [x \in {"1.5"} |-> "1.5"], il |-> <<>>, dx |-> <<>>]
Place(n) == K("Placemark", [name |-> n, kml_geometry |-> K("Point", [kml_coordinates |-> K("Coordinates", [coords |-> <<<<"1.5", "1.5">>>>])])])
Values == {Place("n"), K("Folder", [name |-> "m"])}
E(n, t, c) == [n |-> n, x |-> <<>>, t |-> t, c |-> c]
Docs == [good |-> E("kml:Placemark", "", <<E("kml:name", "r", <<>>)>>),
         wrong |-> E("kml:Placemark", "", <<E("kml:name", "r", <<>>), E("kml:visibility", "maybe", <<>>)>>)]

Acts(p) ==
  {[a |-> "use", l |-> l] : l \in Libs}
  \cup (IF Len(p) < MaxObjects
        THEN {[a |-> "make", o |-> v] : v \in Values}
             \cup {[a |-> "read", d |-> d, strict |-> s] : d \in DOMAIN Docs \cup {"broken"}, s \in BOOLEAN}
             \cup {[a |-> "reread", i |-> i] : i \in DOMAIN p}
        ELSE {})
  \cup {[a |-> "write", i |-> i] : i \in DOMAIN p}
  \cup {[a |-> "validate", i |-> i] : i \in DOMAIN p}
  \cup {[a |-> "put", i |-> i, j |-> j] : i \in {k \in DOMAIN p : p[k].v.cls = "Folder" /\ ~Has(p[k].v, "features")},
                                          j \in {k \in DOMAIN p : p[k].v.cls = "Placemark"}}
  \cup {[a |-> "name", i |-> i] : i \in {k \in DOMAIN p : p[k].v.f["name"] # "changed"}}

Made(v, l) == [v |-> v, by |-> l]
Got(d, s) == IF d = "broken" THEN [ok |-> FALSE] ELSE Read("Placemark", Docs[d], "kml", s, Tab)
Pool2(p, l, act) ==
  CASE act.a = "make" -> Append(p, Made(act.o, l))
    [] act.a = "read" -> LET r == Got(act.d, act.strict) IN IF r.ok THEN Append(p, Made(r.o, l)) ELSE p
    [] act.a = "reread" -> Append(p, Made(Read(p[act.i].v.cls, Concrete(Write(p[act.i].v, "normal")), "kml", TRUE, Tab).o, l))
    [] act.a = "put" -> [p EXCEPT ![act.i].v.f = With(@, "features", <<p[act.j].v>>)]
    [] act.a = "name" -> [p EXCEPT ![act.i].v.f = With(@, "name", "changed")]
    [] OTHER -> p
Answer(p, l, act) ==
  CASE act.a = "write" -> <<"doc", Write(p[act.i].v, "normal")>>
    [] act.a = "validate" -> <<"validity", IF l = "lxml" THEN "valid" ELSE "unknown">>
    [] act.a = "read" -> <<"read", Got(act.d, act.strict).ok>>
    [] OTHER -> <<"none">>

Init == lib = "lxml" /\ pool = <<>> /\ twin = <<>> /\ answer = <<"none">> /\ twinAnswer = <<"none">> /\ path = <<>>
Step(act) ==
  /\ lib' = IF act.a = "use" THEN act.l ELSE lib
  /\ pool' = Pool2(pool, lib, act) /\ twin' = Pool2(twin, "lxml", act)
  /\ answer' = Answer(pool, lib, act) /\ twinAnswer' = Answer(twin, "lxml", act)
  /\ path' = Append(path, act)
  /\ ("EMIT" \in DOMAIN IOEnv => PrintT("BEH " \o ToJson(path')))
Next == Len(path) < MaxSteps /\ \E act \in Acts(pool) : Step(act)
View == <<lib, pool, answer, twinAnswer>>

Plain(p) == [i \in DOMAIN p |-> p[i].v]
NoDifference == /\ Plain(pool) = Plain(twin)
                /\ answer = twinAnswer \/ answer = <<"validity", "unknown">>
\* Everything in the pool survives being written and read, under either library.
Kept == \A i \in DOMAIN pool : Complete(pool[i].v) =>
          Read(pool[i].v.cls, Concrete(Write(pool[i].v, "normal")), "kml", TRUE, Tab).o = pool[i].v
=============================================================================
