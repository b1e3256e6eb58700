--------------------------- MODULE KmlEqualModel ---------------------------
(***************************************************************************)
(* Two copies of an object; one is changed in one place after the other,   *)
(* and changed back.                                                       *)
(***************************************************************************)
EXTENDS KmlEqual, Json, IOUtils
CONSTANTS MaxSteps

VARIABLES orig, copy, steps
vars == <<orig, copy, steps>>

K(cls, f) == Obj(cls, "kml", f)
Pos(q) == K("Coordinates", [coords |-> q])
P1 == <<"0.0", "1.0">>
P1m == <<"-0.0", "1.0">>
P2 == <<"2.0", "1.0">>
P3 == <<"2.0", "3.0">>
Z1 == <<"0.0", "1.0", "0.0">>
Geo1(cls, cs) == K(cls, [kml_coordinates |-> Pos(cs)])
RingOf(cs) == Geo1("LinearRing", cs)
Starts == {
  Geo1("Point", <<P1>>),
  Geo1("LineString", <<P1, P2, P3, P1>>),
  RingOf(<<P1, P2, P3>>),
  K("Polygon", [outer_boundary |-> K("OuterBoundaryIs", [kml_geometry |-> RingOf(<<P1, P2, P3, P1>>)])]),
  K("MultiGeometry", [kml_geometries |-> <<Geo1("Point", <<P1>>), Geo1("Point", <<P2>>)>>]),
  K("Placemark", [name |-> "n", kml_geometry |-> Geo1("Point", <<P1>>)]),
  K("Folder", [features |-> <<K("Placemark", [name |-> "n"]), K("Folder", [name |-> "n"])>>]),
  K("Document", [id |-> "a", styles |-> <<K("Style", [id |-> "a", styles |-> <<K("LineStyle", [width |-> "0.0"])>>])>>]),
  K("Link", [href |-> "n"]), K("Icon", [href |-> "n"]), K("LineString", <<>>), K("LinearRing", <<>>),
  Obj("Track", "gx", [whens |-> <<"Y:2001", "Y:2002">>, coords |-> <<P1, P2>>, angles |-> <<Z1, Z1>>])}

\* The places that can be changed, and what they are changed to.
CoordsChanges == {<<P1>>, <<P1m>>, <<Z1>>, <<P1, P2, P3, P1>>, <<P1, P1, P2, P3, P1>>, <<P1, P2, P3>>, <<P1m, P2, P3, P1>>, <<P1, P3, P2, P1>>}
ScalarOf == [id |-> {"a", "b"}, target_id |-> {"a"}, name |-> {"n", "m"}, href |-> {"n", "m"}, url |-> {"n"},
             extrude |-> {"T", "F"}, tessellate |-> {"T"}, altitude_mode |-> {"absolute", "clampToGround"},
             width |-> {"0.0", "-0.0", "1.0"}, visibility |-> {"T", "F"}, coords |-> CoordsChanges]
RECURSIVE Edits(_)
Edits(o) ==
  LET fs == FieldsOf(o.cls)
      put(a, v) == [o EXCEPT !.f = With(@, a, v)]
      edit(fd) ==
        LET a == fd.attr IN
        CASE fd.kind = "xml" -> IF Has(o, a) THEN {put(a, x) : x \in Edits(o.f[a])} \cup {[o EXCEPT !.f = Without(@, {a})]} ELSE {}
          [] fd.kind = "xmls" ->
               IF ~Has(o, a) THEN {}
               ELSE UNION {{put(a, [o.f[a] EXCEPT ![i] = x]) : x \in Edits(o.f[a][i])} : i \in DOMAIN o.f[a]}
                    \cup {put(a, [i \in DOMAIN o.f[a] |-> o.f[a][Len(o.f[a]) + 1 - i]])}
                    \cup {put(a, o.f[a] \o <<o.f[a][1]>>)}
          [] OTHER -> IF a \in DOMAIN ScalarOf /\ o.cls # "Track"
                      THEN {put(a, v) : v \in ScalarOf[a]} \cup (IF Has(o, a) /\ a # "coords" THEN {[o EXCEPT !.f = Without(@, {a})]} ELSE {})
                      ELSE {} IN
  UNION {edit(fs[i]) : i \in DOMAIN fs}
  \cup (IF o.cls = "Link" THEN {K("Icon", o.f)} ELSE {})
  \cup (IF o.cls = "Icon" THEN {K("Link", o.f)} ELSE {})
  \cup (IF o.cls = "LineString" THEN {K("LinearRing", o.f)} ELSE {})
  \cup (IF o.cls = "Track"
        THEN {[o EXCEPT !.f = With(@, "whens", <<"Y:2002", "Y:2001">>)], [o EXCEPT !.f = With(@, "coords", <<P1, P3>>)],
              [o EXCEPT !.f = With(@, "angles", <<Z1, <<"0.0", "1.0", "1.0">>>>)], [o EXCEPT !.f = With(@, "id", "a")],
              [o EXCEPT !.f = With(@, "coords", <<P1m, P2>>)]} ELSE {})

Init == steps = 0 /\ orig \in Starts /\ copy = orig
Change == \E x \in Edits(copy) : copy' = x /\ UNCHANGED orig
Restore == copy # orig /\ copy' = orig /\ UNCHANGED orig
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Change \/ Restore)
View == <<orig, copy>>

Reflexive == Equal(orig, orig) /\ Equal(copy, copy)
Symmetric == Equal(orig, copy) = Equal(copy, orig)
Identical == orig = copy => Equal(orig, copy)
\* What is equal has the same geometry; and outside geometries and zeros only equals are equal.
SameView == Equal(orig, copy) => GeometryOf(Zeroed(orig)) = GeometryOf(Zeroed(copy))
Strip2(o) == Zeroed(o)
RECURSIVE HasGeo(_)
HasGeo(o) == o.cls \in ByGeometry \/ \E a \in DOMAIN o.f :
                LET k == FieldOf(o.cls, a).kind IN
                \/ k = "xml" /\ HasGeo(o.f[a])
                \/ k = "xmls" /\ \E i \in DOMAIN o.f[a] : HasGeo(o.f[a][i])
                \/ k \in {"float", "fattr"}
Exact == ~HasGeo(orig) /\ ~HasGeo(copy) => (Equal(orig, copy) <=> Zeroed(orig) = Zeroed(copy))
\* One step further: equality carries over.
Transitive == steps < MaxSteps => \A x \in Edits(copy) : Equal(orig, copy) /\ Equal(copy, x) => Equal(orig, x)
Emit == "EMIT" \in DOMAIN IOEnv => PrintT("PAIR " \o ToJson([a |-> orig, b |-> copy]))
=============================================================================
