------------------------------ MODULE KmlNames ------------------------------
(***************************************************************************)
(* Namespaces.  A mapping gives for the ids kml, gx and atom the namespace *)
(* (URI, or "" for none).  Documents of this module have names of records  *)
(* [u, l] and objects carry the namespace `ns' they are in and the mapping *)
(* `m' they use for what is not in their own namespace.                    *)
(***************************************************************************)
EXTENDS KmlRegistry

StdMap == [kml |-> "http://www.opengis.net/kml/2.2", gx |-> "http://www.google.com/kml/ext/2.2", atom |-> "http://www.w3.org/2005/Atom"]
Full(given) == TLCEval(given @@ StdMap)
UriIn(M, id) == IF id = "" THEN "" ELSE M[id]

\* Names of a document as somebody with mapping M understands them.
GxOnly == {"coord", "angles"}       \* looked for without namespace too, but not in the kml namespace
NameFor(u, l, M) ==
  IF u = "" THEN (IF M["kml"] = "" /\ l \notin GxOnly THEN "kml:" \o l ELSE l)
  ELSE IF u = M["kml"] THEN "kml:" \o l
  ELSE IF u = M["gx"] THEN "gx:" \o l
  ELSE IF u = M["atom"] THEN "atom:" \o l
  ELSE "?:" \o l
AttrFor(u, l, M) == IF u = "" THEN l ELSE NameFor(u, l, M)
RECURSIVE Understood(_, _)
Understood(e, M) ==
  [n |-> NameFor(e.u, e.l, M),
   x |-> TLCEval([k \in {AttrFor(e.x[i].u, e.x[i].l, M) : i \in DOMAIN e.x} |->
           e.x[CHOOSE i \in DOMAIN e.x : AttrFor(e.x[i].u, e.x[i].l, M) = k].v]),
   t |-> e.t,
   c |-> TLCEval([i \in DOMAIN e.c |-> Understood(e.c[i], M)])]

\* An object made or read with mapping M, all parts included.
RECURSIVE Placed(_, _)
Placed(o, M) ==
  [cls |-> o.cls, ns |-> UriIn(M, o.ns), m |-> M,
   f |-> TLCEval([a \in DOMAIN o.f |->
           LET fd == FieldOf(o.cls, a) IN
           CASE fd.kind = "xml"  -> Placed(o.f[a], M)
             [] fd.kind = "xmls" -> TLCEval([i \in DOMAIN o.f[a] |-> Placed(o.f[a][i], M)])
             [] OTHER -> o.f[a]])]

\* Everything in an object that is itself an object.
PartsIn(o) == UNION {LET fd == FieldOf(o.cls, a) IN
                     CASE fd.kind = "xml" -> {o.f[a]}
                       [] fd.kind = "xmls" -> {o.f[a][i] : i \in DOMAIN o.f[a]}
                       [] OTHER -> {} : a \in DOMAIN o.f}
\* ns: the namespace asked for, "*" if none was.
RECURSIVE Uniform(_, _, _)
Uniform(o, M, ns) == /\ o.m = M /\ o.ns = (IF ns = "*" THEN UriIn(M, Schema[o.cls].nsid) ELSE ns)
                     /\ \A k \in PartsIn(o) : Uniform(k, M, ns)

\* Reading a text uses the mapping given, reading a file in addition takes
\* the namespace of the root element (or the one given) for kml.
RootUri(e) == IF e.l = "kml" THEN e.u ELSE ""
MapFor(how, given, ns, e) ==
  IF how = "text" THEN Full(given)
  ELSE LET k == IF ns = "*" THEN RootUri(e) ELSE ns IN
       IF k = "" THEN Full(given) ELSE [Full(given) EXCEPT !["kml"] = k]
OwnFor(how, cls, given, ns, e) ==
  IF ns # "*" THEN ns
  ELSE IF how = "text" THEN UriIn(Full(given), Schema[cls].nsid) ELSE RootUri(e)
ReadNs(how, cls, e, given, ns, strict, tab) ==
  LET M == MapFor(how, given, ns, e)
      r == TLCEval(Read(cls, Understood(e, M), Schema[cls].nsid, strict, tab)) IN
  IF r.ok THEN [ok |-> TRUE, o |-> [Placed(r.o, M) EXCEPT !.ns = OwnFor(how, cls, given, ns, e)]]
  ELSE r

\* The root element declares the standard namespace for names without one.
RECURSIVE Declared(_)
Declared(w) == [w EXCEPT !.n = IF \E i \in 1..Len(w.n) : Ch(w.n, i) = ":" THEN w.n ELSE StdMap["kml"] \o ":" \o w.n,
                         !.c = TLCEval([i \in DOMAIN w.c |-> Declared(w.c[i])])]
WriteNs(o, v) == IF o.cls = "KML" /\ o.ns = "" THEN Declared(Write(o, v)) ELSE Write(o, v)

---------------------------------------------------------------------------
(* Programs: two mappings of the caller's, two objects.                    *)
Dicts == {"d1", "d2"}
Things == {"o1", "o2"}
Std == StdMap["kml"]
\* What can be seen of an object: its namespace, the mapping it has for kml,
\* the mapping its parts have, whether anything was read from the document.
NoHolder == [ns |-> "none", own |-> "none", parts |-> "none", full |-> FALSE]
Holder(ns, full) == [ns |-> ns, own |-> ns, parts |-> ns, full |-> full]

NsTurn(s, act) ==        \* s = [dicts, things]
  CASE act.a = "make"   -> [s EXCEPT !.things[act.o] = Holder(s.dicts[act.d], TRUE)]
    [] act.a = "plain"  -> [s EXCEPT !.things[act.o] = Holder(Std, TRUE)]
    [] act.a = "text"   -> [s EXCEPT !.things[act.o] = Holder(s.dicts[act.d], act.u = s.dicts[act.d])]
    [] act.a = "file"   -> [s EXCEPT !.things[act.o] = Holder(act.u, TRUE)]
    [] act.a = "change" -> [s EXCEPT !.dicts[act.d] = act.u]
    [] act.a = "own"    -> [s EXCEPT !.things[act.o].own = act.u]
    [] OTHER -> s

\* A recorded history; each step with everything that can be seen after it.
StartNs == [dicts |-> [d \in Dicts |-> Std], things |-> [o \in Things |-> NoHolder]]
RECURSIVE FollowNs(_, _, _)
FollowNs(s, h, i) ==
  IF i > Len(h) THEN {}
  ELSE LET after == TLCEval(NsTurn(s, h[i])) IN
       IF after.things # h[i].seen.things THEN {"namespaces of objects after " \o h[i].a}
       ELSE IF after.dicts # h[i].seen.dicts THEN {"mapping of the caller after " \o h[i].a}
       ELSE IF h[i].seen.fresh # Std THEN {"namespace of new objects after " \o h[i].a}
       ELSE FollowNs(after, h, i + 1)
=============================================================================
