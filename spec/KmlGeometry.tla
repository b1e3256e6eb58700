---------------------------- MODULE KmlGeometry ----------------------------
(***************************************************************************)
(* Geometries and their KML form.  A geometry is [t, c, g]: its type, its  *)
(* coordinates (points, lines, rings) or its parts (the rings of a         *)
(* polygon, outer first; the members of a multi-geometry or collection).   *)
(***************************************************************************)
EXTENDS KmlCodec

Geom(t, c, g) == [t |-> t, c |-> c, g |-> g]
Simple == {"Point", "LineString", "LinearRing"}
MultiOf == [Point |-> "MultiPoint", LineString |-> "MultiLineString", Polygon |-> "MultiPolygon"]

\* Repeated positions count once, rings are closed.
RECURSIVE Dedupe(_)
Dedupe(q) == IF Len(q) < 2 THEN q
             ELSE IF q[1] = q[2] THEN Dedupe(Tail(q)) ELSE <<q[1]>> \o Dedupe(Tail(q))
Close(q) == IF q = <<>> \/ q[1] = q[Len(q)] THEN q ELSE q \o <<q[1]>>

\* Members that are all points, lines or polygons are the corresponding multi-geometry.
Collect(gs) ==
  IF gs # <<>> /\ gs[1].t \in DOMAIN MultiOf /\ \A i \in DOMAIN gs : gs[i].t = gs[1].t
  THEN Geom(MultiOf[gs[1].t], <<>>, gs) ELSE Geom("GeometryCollection", <<>>, gs)
RECURSIVE Norm(_)
Norm(g) ==
  CASE g.t = "LineString" -> Geom(g.t, Dedupe(g.c), <<>>)
    [] g.t = "LinearRing" -> Geom(g.t, Close(Dedupe(g.c)), <<>>)
    [] g.t = "GeometryCollection" -> Collect(TLCEval([i \in DOMAIN g.g |-> Norm(g.g[i])]))
    [] g.t = "Point" -> g
    [] OTHER -> Geom(g.t, <<>>, TLCEval([i \in DOMAIN g.g |-> Norm(g.g[i])]))

---------------------------------------------------------------------------
(* To KML.  opt: the options given, a function like the properties of an   *)
(* object.  An identifier belongs to the element made, the other options   *)
(* to every element with coordinates that is no ring of a polygon.         *)
Ids == {"id", "target_id"}
OptionsOf(cls) == IF cls = "Point" THEN Ids \cup {"extrude", "altitude_mode"}
                  ELSE Ids \cup {"extrude", "tessellate", "altitude_mode"}
Positions(cs, ns) == Obj("Coordinates", ns, [coords |-> cs])
RingElement(cls, r, ns) ==
  Obj(cls, ns, [kml_geometry |-> Obj("LinearRing", ns, [kml_coordinates |-> Positions(r.c, ns)])])
RECURSIVE ToKml(_, _, _)
ToKml(g, opt, ns) ==
  CASE g.t \in Simple ->
         Obj(g.t, ns, TLCEval(With(Restrict(opt, OptionsOf(g.t)), "kml_coordinates", Positions(g.c, ns))))
    [] g.t = "Polygon" ->
         LET f == With(Restrict(opt, OptionsOf("Polygon")), "outer_boundary", RingElement("OuterBoundaryIs", g.g[1], ns))
             holes == TLCEval([i \in 1..(Len(g.g) - 1) |-> RingElement("InnerBoundaryIs", g.g[i + 1], ns)]) IN
         Obj("Polygon", ns, TLCEval(IF holes = <<>> THEN f ELSE With(f, "inner_boundaries", holes)))
    [] OTHER ->
         Obj("MultiGeometry", ns, TLCEval(With(Restrict(opt, Ids), "kml_geometries",
            [i \in DOMAIN g.g |-> ToKml(g.g[i], Without(opt, Ids), ns)])))

---------------------------------------------------------------------------
(* And back: <<geometry>>, or <<>> if there is none.                       *)
Line(cs) == IF IsPath(cs) THEN <<Geom("LineString", Dedupe(cs), <<>>)>> ELSE Nothing
Ring(cs) == IF IsPath(cs) THEN <<Geom("LinearRing", Close(Dedupe(cs)), <<>>)>> ELSE Nothing
RECURSIVE GeometryOf(_), GeometriesOf(_)
GeometriesOf(q) == IF q = <<>> THEN <<>> ELSE GeometryOf(q[1]) \o GeometriesOf(Tail(q))
Part(o, a) == IF Has(o, a) THEN GeometryOf(o.f[a]) ELSE Nothing
Parts2(o, a) == IF Has(o, a) THEN GeometriesOf(o.f[a]) ELSE Nothing
GeometryOf(o) ==
  LET c == o.cls IN
  CASE c = "Point"      -> IF IsPosition(CoordsOf(o)) THEN <<Geom("Point", <<CoordsOf(o)[1]>>, <<>>)>> ELSE Nothing
    [] c = "LineString" -> Line(CoordsOf(o))
    [] c = "LinearRing" -> Ring(CoordsOf(o))
    [] c \in {"OuterBoundaryIs", "InnerBoundaryIs"} -> Part(o, "kml_geometry")
    [] c = "Polygon"    -> IF Part(o, "outer_boundary") = Nothing THEN Nothing
                           ELSE <<Geom("Polygon", <<>>, Part(o, "outer_boundary") \o Parts2(o, "inner_boundaries"))>>
    [] c = "MultiGeometry" -> LET gs == Parts2(o, "kml_geometries") IN IF gs = <<>> THEN Nothing ELSE <<Collect(gs)>>
    [] c = "Track"      -> IF Has(o, "coords") THEN Line(o.f["coords"]) ELSE Nothing
    [] c = "MultiTrack" -> LET gs == Parts2(o, "tracks") IN
                           IF gs = <<>> THEN Nothing ELSE <<Geom("MultiLineString", <<>>, gs)>>
    [] c = "Location"   -> IF AllSet(o, {"longitude", "latitude"})
                           THEN <<Geom("Point", <<<<o.f["longitude"], o.f["latitude"]>>
                                   \o (IF Has(o, "altitude") THEN <<o.f["altitude"]>> ELSE <<>>)>>, <<>>)>>
                           ELSE Nothing
    [] c = "Model"      -> Part(o, "location")
    [] c = "Placemark"  -> Part(o, "kml_geometry")
    [] OTHER -> Nothing

RECURSIVE Leaves(_)
Leaves(g) == IF g.t \in Simple \cup {"Polygon"} THEN <<g>> ELSE Flat([i \in DOMAIN g.g |-> Leaves(g.g[i])])
RECURSIVE KmlLeaves(_)
KmlLeaves(o) == IF o.cls = "MultiGeometry" THEN Flat([i \in DOMAIN o.f["kml_geometries"] |-> KmlLeaves(o.f["kml_geometries"][i])])
                ELSE <<o>>
=============================================================================
