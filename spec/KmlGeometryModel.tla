-------------------------- MODULE KmlGeometryModel --------------------------
(***************************************************************************)
(* Geometries growing: points become lines, lines become rings, rings      *)
(* become polygons, polygons get holes, everything can be put into         *)
(* collections, which take more members and nest.  On every geometry the   *)
(* conversion to KML and back has to give the same geometry.               *)
(***************************************************************************)
EXTENDS KmlGeometry, Json, IOUtils
CONSTANTS MaxSteps

VARIABLES geom, steps
vars == <<geom, steps>>

Dims == {2, 3}
P(k, dim) == (CASE k = 1 -> <<"0.0", "0.0">> [] k = 2 -> <<"1.5", "-2.25">>
                [] k = 3 -> <<"180.0", "0.1">> [] OTHER -> <<"-45.125", "90.0">>)
             \o (IF dim = 3 THEN <<"8.5">> ELSE <<>>)
Hole(dim) == Geom("LinearRing", <<P(2, dim), P(3, dim), P(4, dim), P(2, dim)>>, <<>>)
Shell(dim) == Geom("LinearRing", <<P(1, dim), P(2, dim), P(3, dim), P(1, dim)>>, <<>>)
Extra == {Geom("Point", <<P(2, 3)>>, <<>>), Geom("LineString", <<P(1, 2), P(4, 2)>>, <<>>),
          Geom("Polygon", <<>>, <<Shell(3), Hole(3)>>), Shell(2), Geom("MultiPoint", <<>>, <<Geom("Point", <<P(1, 2)>>, <<>>)>>)}
Multis == {"MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"}

Init == steps = 0 /\ \E k \in 1..2, dim \in Dims : geom = Geom("Point", <<P(k, dim)>>, <<>>)

AddPoint(k) == /\ geom.t \in {"Point", "LineString", "LinearRing"}
               /\ Len(geom.c) < 4
               /\ geom' = Norm(Geom(IF geom.t = "LinearRing" THEN "LineString" ELSE "LineString",
                                    geom.c \o <<P(k, Len(geom.c[1]))>>, <<>>))
               /\ geom' # geom
CloseUp == geom.t = "LineString" /\ Len(geom.c) >= 2 /\ geom' = Norm(Geom("LinearRing", geom.c, <<>>))
Fill == geom.t = "LinearRing" /\ geom' = Geom("Polygon", <<>>, <<geom>>)
AddHole == geom.t = "Polygon" /\ Len(geom.g) < 4 /\ geom' = Geom("Polygon", <<>>, Append(geom.g, Hole(Len(geom.g[1].c[1]))))
Wrap == geom' = Geom("GeometryCollection", <<>>, <<geom>>)
MakeMulti == geom.t \in DOMAIN MultiOf /\ geom' = Geom(MultiOf[geom.t], <<>>, <<geom, geom>>)
AddMember(e) == /\ geom.t \in Multis /\ Len(geom.g) < 4
                /\ (geom.t # "GeometryCollection" => MultiOf[geom.g[1].t] = geom.t /\ e.t = geom.g[1].t)
                /\ geom' = Geom(geom.t, <<>>, Append(geom.g, e))
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E k \in 1..4 : AddPoint(k)
           \/ CloseUp \/ Fill \/ AddHole \/ Wrap \/ MakeMulti
           \/ \E e \in Extra : AddMember(e)
View == geom

Options == {<<>>, [id |-> "g1", altitude_mode |-> "absolute"],
            [id |-> "g2", target_id |-> "t", extrude |-> "T", tessellate |-> "F", altitude_mode |-> "relativeToSeaFloor"]}
Trip == \A opt \in Options : GeometryOf(ToKml(geom, opt, "kml")) = <<Norm(geom)>>
\* Through a document too.
Tab == TLCEval([fl |-> TLCEval([t \in {"0.0", "1.5", "-2.25", "180.0", "0.1", "-45.125", "90.0", "8.5"} |-> t]), il |-> <<>>, dx |-> <<>>])
DocTrip == LET o == ToKml(geom, [id |-> "g1", extrude |-> "T"], "kml")
               r == Read(o.cls, Concrete(Write(o, "normal")), "kml", TRUE, Tab) IN
           \* members of different kinds are grouped by kind in a document
           Complete(o) => r.ok /\ r.o = o /\ GeometryOf(r.o) = <<Norm(geom)>>
\* Every option arrives where it belongs and nowhere else.
Placed == \A opt \in Options :
   LET o == ToKml(geom, opt, "kml") ls == KmlLeaves(o) IN
   /\ Len(ls) = Len(Leaves(geom))
   /\ \A a \in Ids \cap DOMAIN opt : Has(o, a) /\ (o.cls = "MultiGeometry" => \A i \in DOMAIN ls : ~Has(ls[i], a))
   /\ \A i \in DOMAIN ls : \A a \in DOMAIN opt \ Ids :
        Has(ls[i], a) <=> a \in OptionsOf(ls[i].cls)
Emit == "EMIT" \in DOMAIN IOEnv => PrintT("GEO " \o ToJson(geom))
=============================================================================
