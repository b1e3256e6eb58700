----------------------------- MODULE KmlObjects -----------------------------
(***************************************************************************)
(* Objects under construction: an object starts with what it cannot do     *)
(* without and its properties are set one after the other.  Every state is *)
(* an object; what KmlCodec says about writing and reading must fit        *)
(* together on all of them.  The states are also the cases that are        *)
(* replayed in the real library (Emit).                                    *)
(***************************************************************************)
EXTENDS KmlCodec, Json, IOUtils

CONSTANTS MaxSet      \* how many properties are set on top of the minimum

\* Note: TLC stops caching constant definitions that use a parameter with the name
\* of a variable, so no variable may be called like one (n, x, s, ...).
VARIABLES obj, steps
vars == <<obj, steps>>

---------------------------------------------------------------------------
(* The smallest object of a kind that counts as present.                   *)
P2 == <<"1.5", "-2.25">>
P3 == <<"100.0", "0.0", "8.125">>
RingCoords == <<<<"0.0", "0.0">>, <<"1.5", "0.0">>, <<"1.5", "-2.25">>, <<"0.0", "0.0">>>>
PathCoords == <<P2, <<"0.0", "0.1">>>>
Time1 == "T:2024-02-29T23:59:59+00:00"
Time2 == "D:1999-12-31"

RECURSIVE Minimal(_)
M(cls, f) == Obj(cls, Schema[cls].nsid, f)
Minimal(c) ==
  M(c,
  CASE c = "AtomLink"                 -> [href |-> "http://a.b/?c=d&e"]
    [] c \in {"Author", "Contributor"} -> [name |-> "Ann"]
    [] c = "SimpleField"              -> [name |-> "nf", type_ |-> "uint"]
    [] c = "Schema"                   -> [id |-> "schema1"]
    [] c \in {"Data", "SimpleData"}   -> [name |-> "key", value |-> "val"]
    [] c = "SchemaData"               -> [schema_url |-> "#schema1", data |-> <<Minimal("SimpleData")>>]
    [] c = "ExtendedData"             -> [elements |-> <<Minimal("Data")>>]
    [] c = "Coordinates"              -> [coords |-> <<P3>>]
    [] c = "Point"                    -> [kml_coordinates |-> M("Coordinates", [coords |-> <<P2>>])]
    [] c = "LineString"               -> [kml_coordinates |-> M("Coordinates", [coords |-> PathCoords])]
    [] c = "LinearRing"               -> [kml_coordinates |-> M("Coordinates", [coords |-> RingCoords])]
    [] c \in {"OuterBoundaryIs", "InnerBoundaryIs"} -> [kml_geometry |-> Minimal("LinearRing")]
    [] c = "Polygon"                  -> [outer_boundary |-> Minimal("OuterBoundaryIs")]
    [] c = "MultiGeometry"            -> [kml_geometries |-> <<Minimal("Point")>>]
    [] c = "TimeStamp"                -> [timestamp |-> Time1]
    [] c = "TimeSpan"                 -> [begin |-> Time2]
    [] c = "Track"                    -> [whens |-> <<Time1, Time1>>, coords |-> <<P3, P2>>,
                                          angles |-> <<<<"0.0", "0.0", "0.0">>, <<"45.5", "0.1", "-1.0">>>>]
    [] c = "MultiTrack"               -> [tracks |-> <<Minimal("Track")>>]
    [] c \in {"Link", "Icon"}         -> [href |-> "files/icon.png"]
    [] c = "Location"                 -> [latitude |-> "1.5", longitude |-> "-2.25"]
    [] c = "Orientation"              -> [tilt |-> "0.1"]
    [] c = "Scale"                    -> [y |-> "1.5"]
    [] c = "Alias"                    -> [target_href |-> "a/b"]
    [] c = "ResourceMap"              -> [aliases |-> <<Minimal("Alias")>>]
    [] c = "Model"                    -> [link |-> Minimal("Link"), location |-> Minimal("Location")]
    [] c = "StyleUrl"                 -> [url |-> "#st"]
    [] c = "IconStyle"                -> [icon |-> Minimal("Icon")]
    [] c = "LineStyle"                -> [width |-> "1.5"]
    [] c = "PolyStyle"                -> [fill |-> "F"]
    [] c = "LabelStyle"               -> [scale |-> "0.0"]
    [] c = "BalloonStyle"             -> [text |-> "$[name]"]
    [] c = "Style"                    -> [styles |-> <<Minimal("LineStyle")>>]
    [] c = "Pair"                     -> [key |-> "highlight", style |-> Minimal("StyleUrl")]
    [] c = "StyleMap"                 -> [pairs |-> <<Minimal("Pair")>>]
    [] c \in {"LatLonAltBox", "LatLonBox"} -> [north |-> "8.125", south |-> "0.0", east |-> "1.5", west |-> "-2.25"]
    [] c = "Lod"                      -> [min_lod_pixels |-> "0"]
    [] c = "Region"                   -> [lat_lon_alt_box |-> Minimal("LatLonAltBox")]
    [] c = "Snippet"                  -> [text |-> "short"]
    [] c = "NetworkLink"              -> [link |-> Minimal("Link")]
    [] c = "ViewVolume"               -> [left_fov |-> "-1.0", right_fov |-> "1.5", bottom_fov |-> "0.1",
                                          top_fov |-> "45.5", near |-> "8.125"]
    [] c = "ImagePyramid"             -> [max_width |-> "7", max_height |-> "-1"]
    [] c \in {"OverlayXY", "ScreenXY", "RotationXY", "Size"} -> [x |-> "1.5", y |-> "0.0"]
    [] OTHER                          -> <<>>)

---------------------------------------------------------------------------
(* Values to try for a property.                                           *)
FloatTokens == {"0.0", "1.0", "4.0", "1.5", "-2.25", "-1.0", "0.1", "0.5", "45.5", "100.0", "8.125"}
IntTokens == {"0", "1", "2", "7", "-1", "256"}
DateTokens == {"Y:0033", "M:2023-11", "D:1999-12-31", "T:2024-02-29T23:59:59+00:00",
               "T:2010-05-06T01:02:03.000004-05:30"}
Values(fd) ==
  CASE fd.kind = "bool"  -> {"T", "F"}
    [] fd.kind \in {"int", "iattr"} -> {"0", "7", "-1", "256", "2"}
    [] fd.kind \in {"float", "fattr"} -> {"0.0", "1.0", "-2.25", "4.0", "0.5", "-1.0"}
    [] fd.kind \in {"enum", "eattr"} -> {Enums[fd.types[1]][i] : i \in DOMAIN Enums[fd.types[1]]}
    [] fd.kind = "date"  -> DateTokens
    [] fd.kind \in {"self", "text", "tattr"} -> {"some text", "0"} \cup (IF fd.dflt # "" THEN {fd.dflt} ELSE {})
    [] fd.kind = "coordinates" -> {<<P2>>, <<P3>>, PathCoords, RingCoords}
    [] fd.kind = "xml"   -> {Minimal(fd.types[i]) : i \in DOMAIN fd.types}
    [] fd.kind = "xmls"  -> {<<Minimal(fd.types[i])>> : i \in DOMAIN fd.types}
                            \cup {<<Minimal(fd.types[i]), Minimal(fd.types[i]), Minimal(fd.types[Len(fd.types)])>> : i \in DOMAIN fd.types}
    [] OTHER -> {}

FieldIndexes == [c \in ClassNames |-> DOMAIN FieldsOf(c)]

Init == \E c \in ClassNames : obj = Minimal(c) /\ steps = 0
Set(i, v) == LET fd == FieldsOf(obj.cls)[i] IN
             /\ ~(Has(obj, fd.attr) /\ obj.f[fd.attr] = v)
             /\ obj' = [obj EXCEPT !.f = With(obj.f, fd.attr, v)]
             /\ steps' = steps + 1
Unset(i) == LET fd == FieldsOf(obj.cls)[i] IN
            /\ Has(obj, fd.attr) /\ fd.kind \notin {"dates", "nums"}
            /\ ~(obj.cls = "Schema" /\ fd.attr = "id")
            /\ obj' = [obj EXCEPT !.f = Without(obj.f, {fd.attr})]
            /\ steps' = steps + 1
Next == steps < MaxSet /\ \E i \in FieldIndexes[obj.cls] :
           Unset(i) \/ \E v \in Values(FieldsOf(obj.cls)[i]) : Set(i, v)
View == obj       \* the same object, however it came about

---------------------------------------------------------------------------
(* What must fit together.                                                 *)
Tab == TLCEval([fl |-> TLCEval([t \in FloatTokens \cup IntTokens |-> IF t \in IntTokens THEN t \o ".0" ELSE t]),
        il |-> TLCEval([t \in IntTokens |-> t]), dx |-> <<>>])
Doc(o, v) == Concrete(Write(o, v))
ReadBack(o, v, strict) == Read(o.cls, Doc(o, v), o.ns, strict, Tab)

RoundTrip == Complete(obj) => \A strict \in BOOLEAN :
               LET r == ReadBack(obj, "normal", strict) IN r.ok /\ r.o = obj
SameMeaning == Complete(obj) => \A v \in {"terse", "verbose"} :
               LET r == ReadBack(obj, v, TRUE) IN r.ok /\ Spelled(r.o) = Spelled(obj)
\* What the writer says is what the comparison with a document wants.
SaysItself == \A v \in {"terse", "normal", "verbose"} : Diff(Doc(obj, v), Write(obj, v), -1, Tab) = ""

RECURSIVE Nodes(_)
Nodes(w) == Cardinality(DOMAIN w.x) + 1 + Sum([i \in DOMAIN w.c |-> Nodes(w.c[i])])
MoreWords == LET t == Nodes(Write(obj, "terse")) m == Nodes(Write(obj, "normal")) b == Nodes(Write(obj, "verbose")) IN
             t <= m /\ m <= b
\* An absent part leaves no trace: a document never has an element without content
\* for it, and normal writing never invents a value.
NothingInvented == \A i \in FieldIndexes[obj.cls] :
   LET fd == FieldsOf(obj.cls)[i] IN ~Has(obj, fd.attr) => WriteField(obj, fd, "normal") = <<>>
TypeOK == obj.cls \in ClassNames /\ steps \in 0..MaxSet

\* Every state is a case for the library.
Emit == "EMIT" \in DOMAIN IOEnv => PrintT("CASE " \o ToJson(obj))
=============================================================================
