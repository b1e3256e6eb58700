------------------------------ MODULE KmlOrder ------------------------------
(***************************************************************************)
(* What may be inside what, and in which order: the content models of the  *)
(* KML schema, flattened (gen/order.json; tools/mkorder.py made it from    *)
(* the schema files).  A type is a sequence of parts, each a set of        *)
(* element names with their types, of which one (max 1) or any number      *)
(* (max 0) may occur; everything is optional.                              *)
(***************************************************************************)
EXTENDS KmlFiles, Json

ContentModels == JsonDeserialize("gen/order.json")
TypesOf == ContentModels.types
RootsOf == ContentModels.roots
RangeOf(q) == {q[i] : i \in DOMAIN q}

\* The first part from p on that may have this name; 0 if there is none.
PartFor(parts, name, p) ==
  LET P == {i \in p..Len(parts) : name \in RangeOf(parts[i].names)} IN
  IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

\* What is wrong with the content of an element of this type.  lax: the object may have
\* more than one of what the schema allows once, and links where it has icons.
RECURSIVE WrongIn(_, _, _), WrongFrom(_, _, _, _, _)
WrongFrom(e, t, lax, i, p) ==
  IF i > Len(e.c) THEN {}
  ELSE LET parts == TypesOf[t].parts
           here == p # 0 /\ e.c[i].n \in RangeOf(parts[p].names)
           k == IF here THEN p ELSE PartFor(parts, e.c[i].n, p + 1) IN
       IF k = 0
       THEN IF lax /\ t = "kml:BasicLinkType" /\ PartFor(TypesOf["kml:LinkType"].parts, e.c[i].n, 1) # 0
            THEN WrongFrom(e, t, lax, i + 1, p)
            ELSE {e.c[i].n \o " in or after its place in " \o e.n \o " (" \o t \o ")"}
       ELSE (IF here /\ parts[k].max = 1 /\ ~lax THEN {"more than one " \o e.c[i].n \o " in " \o e.n} ELSE {})
            \cup WrongIn(e.c[i], parts[k].types[e.c[i].n], lax)
            \cup WrongFrom(e, t, lax, i + 1, k)
WrongIn(e, t, lax) ==
  IF t = "" THEN (IF e.c = <<>> /\ DOMAIN e.x = {} THEN {} ELSE {"content of " \o e.n})
  ELSE {"attribute " \o a \o " of " \o e.n : a \in DOMAIN e.x \ RangeOf(TypesOf[t].atts)}
       \cup WrongFrom(e, t, lax, 1, 0)
WrongOrder(e, lax) ==
  IF e.n \notin DOMAIN RootsOf THEN {"unknown element " \o e.n} ELSE WrongIn(e, RootsOf[e.n], lax)

---------------------------------------------------------------------------
(* Objects whose document can conform: one of what may be there once, in   *)
(* the order in which the schema wants kinds (lists keep their order).     *)
\* Kinds of which there can be one in this list.
Once(c, attr) == (c = "Style" /\ attr = "styles")
Sorted(q, kinds) == \A i, j \in DOMAIN q : i < j =>
   (CHOOSE k \in DOMAIN kinds : kinds[k] = q[i].cls) <= (CHOOSE k \in DOMAIN kinds : kinds[k] = q[j].cls)
RECURSIVE InShape(_)
InShape(o) ==
  /\ o.cls # "Contributor"
  /\ \A i \in DOMAIN FieldsOf(o.cls) :
       LET fd == FieldsOf(o.cls)[i] IN
       Has(o, fd.attr) =>
       CASE fd.kind = "xml" -> /\ InShape(o.f[fd.attr])
                               /\ (o.cls = "IconStyle" /\ fd.attr = "icon" => DOMAIN o.f[fd.attr].f \subseteq {"id", "target_id", "href"})
         [] fd.kind = "xmls" -> LET q == o.f[fd.attr] IN
              /\ \A k \in DOMAIN q : InShape(q[k])
              /\ (fd.attr \in {"styles", "elements"} /\ o.cls \in {"Style", "ExtendedData"} => Sorted(q, fd.types))
              /\ (Once(o.cls, fd.attr) => \A j, k \in DOMAIN q : q[j].cls = q[k].cls => j = k)
              /\ (o.cls = "KML" => Len(q) <= 1 \/ (Len(q) = 2 /\ q[1].cls = "NetworkLinkControl" /\ q[2].cls # "NetworkLinkControl"))
         [] OTHER -> TRUE

\* o was written as e; valid: what the schema says about it; tame: all its values are
\* of the kind the schema allows.
JudgeConform(ev) ==
  LET w == WrongOrder(ev.e, FALSE) IN
  IF ~InShape(ev.o) THEN {}
  ELSE IF w # {} THEN {ev.v \o ": " \o x : x \in w}
  ELSE IF ev.tame /\ ~ev.valid THEN {ev.v \o ": does not conform: " \o ev.why} ELSE {}
\* A document that conforms was read and written again.
JudgeConformAgain(ev) ==
  IF ev.valid THEN {} ELSE {ev.v \o ": conformed before it was written again: " \o ev.why}
=============================================================================
