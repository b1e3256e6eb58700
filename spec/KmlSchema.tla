------------------------------ MODULE KmlSchema ------------------------------
(***************************************************************************)
(* What a KML document is made of, as fastkml promises it: for every kind  *)
(* of object its element name, the namespace it lives in, and in writing   *)
(* order its properties - attribute name in Python, node name in XML, the  *)
(* namespaces in which the property is looked for, its type, and the value *)
(* the KML reference gives it when it is absent.                           *)
(*                                                                         *)
(* This is data of the specification: it is not derived from the code at   *)
(* check time.  All values are strings ("tokens"), see KmlCodec.           *)
(***************************************************************************)
EXTENDS Sequences

\* Constructors of property descriptions.  `ns' is the list of namespace ids
\* in which the property is looked for when reading, first hit wins.
Fld(k, a, n, ns, ty, d) ==
  [kind |-> k, attr |-> a, node |-> n, ns |-> ns, types |-> ty, dflt |-> d]

Self(a, ns)            == Fld("self", a, "", ns, <<>>, "")   \* text of the element itself
Text(a, n, ns, d)      == Fld("text", a, n, ns, <<>>, d)
TAttr(a, n, ns, d)     == Fld("tattr", a, n, ns, <<>>, d)
Bool(a, n, ns, d)      == Fld("bool", a, n, ns, <<>>, d)
Num(a, n, ns, d)       == Fld("int", a, n, ns, <<>>, d)
IAttr(a, n, ns, d)     == Fld("iattr", a, n, ns, <<>>, d)
Float(a, n, ns, d)     == Fld("float", a, n, ns, <<>>, d)
FAttr(a, n, ns, d)     == Fld("fattr", a, n, ns, <<>>, d)
Enum(a, n, ns, e, d)   == Fld("enum", a, n, ns, <<e>>, d)
EAttr(a, n, ns, e, d)  == Fld("eattr", a, n, ns, <<e>>, d)
Date(a, n, ns)         == Fld("date", a, n, ns, <<>>, "")
Dates(a, n, ns)        == Fld("dates", a, n, ns, <<>>, "")
Nums(a, n, ns)         == Fld("nums", a, n, ns, <<>>, "")    \* gx:coord, gx:angles
Coords(a, ns)          == Fld("coordinates", a, "", ns, <<>>, "")
Child(a, ns, c)        == Fld("xml", a, "", ns, c, "")
Children(a, ns, c)     == Fld("xmls", a, "", ns, c, "")

ScalarKinds == {"self", "text", "tattr", "bool", "int", "iattr", "float", "fattr",
                "enum", "eattr", "date"}
ListKinds   == {"dates", "nums", "coordinates", "xmls"}

Enums == [
  DataType |-> <<"string", "int", "uint", "short", "ushort", "float", "double", "bool">>,
  AltitudeMode |-> <<"clampToGround", "relativeToGround", "absolute", "clampToSeaFloor", "relativeToSeaFloor">>,
  RefreshMode |-> <<"onChange", "onInterval", "onExpire">>,
  ViewRefreshMode |-> <<"never", "onStop", "onRequest", "onRegion">>,
  Units |-> <<"fraction", "pixels", "insetPixels">>,
  ColorMode |-> <<"normal", "random">>,
  DisplayMode |-> <<"default", "hide">>,
  PairKey |-> <<"normal", "highlight">>,
  GridOrigin |-> <<"lowerLeft", "upperLeft">>,
  Shape |-> <<"rectangle", "cylinder", "sphere">>]

\* Values of an enumeration that live in the gx extension namespace.
GxValues == {"clampToSeaFloor", "relativeToSeaFloor"}

BaseFields == <<
      TAttr("id", "id", <<"", "kml">>, ""),
      TAttr("target_id", "targetId", <<"", "kml">>, "")>>

FeatureFields == <<
      Text("name", "name", <<"kml", "">>, ""),
      Bool("visibility", "visibility", <<"kml", "">>, "T"),
      Bool("isopen", "open", <<"kml", "">>, "F"),
      Child("atom_author", <<"atom">>, <<"Author">>),
      Child("atom_link", <<"atom">>, <<"AtomLink">>),
      Text("address", "address", <<"kml", "">>, ""),
      Text("phone_number", "phoneNumber", <<"kml", "">>, ""),
      Child("snippet", <<"kml", "">>, <<"Snippet">>),
      Text("description", "description", <<"kml", "">>, ""),
      Child("view", <<"kml", "">>, <<"Camera", "LookAt">>),
      Child("times", <<"kml", "">>, <<"TimeSpan", "TimeStamp">>),
      Child("style_url", <<"kml", "">>, <<"StyleUrl">>),
      Children("styles", <<"kml", "">>, <<"Style", "StyleMap">>),
      Child("region", <<"kml", "">>, <<"Region">>),
      Child("extended_data", <<"kml", "">>, <<"ExtendedData">>)>>

ColorFields == <<
      Text("color", "color", <<"kml", "">>, "ffffffff"),
      Enum("color_mode", "colorMode", <<"kml", "">>, "ColorMode", "normal")>>

ViewFields == <<
      Float("longitude", "longitude", <<"kml", "">>, "0.0"),
      Float("latitude", "latitude", <<"kml", "">>, "0.0"),
      Float("altitude", "altitude", <<"kml", "">>, "0.0"),
      Float("heading", "heading", <<"kml", "">>, "0.0"),
      Float("tilt", "tilt", <<"kml", "">>, "0.0")>>

LinkFields == <<
      Text("href", "href", <<"kml", "">>, ""),
      Enum("refresh_mode", "refreshMode", <<"kml", "">>, "RefreshMode", "onChange"),
      Float("refresh_interval", "refreshInterval", <<"kml", "">>, "4.0"),
      Enum("view_refresh_mode", "viewRefreshMode", <<"kml", "">>, "ViewRefreshMode", "never"),
      Float("view_refresh_time", "viewRefreshTime", <<"kml", "">>, "4.0"),
      Float("view_bound_scale", "viewBoundScale", <<"kml", "">>, "1.0"),
      Text("view_format", "viewFormat", <<"kml", "">>, "BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]"),
      Text("http_query", "httpQuery", <<"kml", "">>, "")>>

OverlayFields == <<
      Text("color", "color", <<"kml", "">>, "ffffffff"),
      Num("draw_order", "drawOrder", <<"kml", "">>, "0"),
      Child("icon", <<"kml", "">>, <<"Icon">>)>>

XYFields == <<
      FAttr("x", "x", <<"", "kml">>, ""),
      FAttr("y", "y", <<"", "kml">>, ""),
      EAttr("x_units", "xunits", <<"", "kml">>, "Units", "fraction"),
      EAttr("y_units", "yunits", <<"", "kml">>, "Units", "fraction")>>

PersonFields == <<
      Text("name", "name", <<"atom">>, ""),
      Text("uri", "uri", <<"atom">>, ""),
      Text("email", "email", <<"atom">>, "")>>

LineFields == <<
      Bool("extrude", "extrude", <<"kml", "">>, "F"),
      Bool("tessellate", "tessellate", <<"kml", "">>, "F"),
      Enum("altitude_mode", "altitudeMode", <<"kml", "gx", "">>, "AltitudeMode", "clampToGround"),
      Child("kml_coordinates", <<"kml", "">>, <<"Coordinates">>)>>

ContainerFields == <<
      Children("features", <<"kml", "">>, <<"Document", "Folder", "Placemark", "GroundOverlay", "PhotoOverlay", "ScreenOverlay", "NetworkLink">>)>>

Schema == [
  AtomLink |-> [tag |-> "link", nsid |-> "atom", fields |-> <<
      TAttr("href", "href", <<"", "atom">>, ""),
      TAttr("rel", "rel", <<"", "atom">>, ""),
      TAttr("type", "type", <<"", "atom">>, ""),
      TAttr("hreflang", "hreflang", <<"", "atom">>, ""),
      TAttr("title", "title", <<"", "atom">>, ""),
      IAttr("length", "length", <<"", "atom">>, "")>>],
  Author |-> [tag |-> "author", nsid |-> "atom", fields |-> PersonFields],
  Contributor |-> [tag |-> "contributor", nsid |-> "atom", fields |-> PersonFields],
  SimpleField |-> [tag |-> "SimpleField", nsid |-> "kml", fields |-> <<
      Text("display_name", "displayName", <<"kml", "">>, ""),
      TAttr("name", "name", <<"", "kml">>, ""),
      EAttr("type_", "type", <<"", "kml">>, "DataType", "")>>],
  Schema |-> [tag |-> "Schema", nsid |-> "kml", fields |-> <<
      TAttr("id", "id", <<"kml", "">>, ""),
      TAttr("name", "name", <<"", "kml">>, ""),
      Children("fields", <<"kml", "">>, <<"SimpleField">>)>>],
  Data |-> [tag |-> "Data", nsid |-> "kml", fields |-> BaseFields \o <<
      Text("display_name", "displayName", <<"kml", "">>, ""),
      Text("value", "value", <<"kml", "">>, ""),
      TAttr("name", "name", <<"", "kml">>, "")>>],
  SimpleData |-> [tag |-> "SimpleData", nsid |-> "kml", fields |-> <<
      Self("value", <<"kml", "">>),
      TAttr("name", "name", <<"", "kml">>, "")>>],
  SchemaData |-> [tag |-> "SchemaData", nsid |-> "kml", fields |-> BaseFields \o <<
      TAttr("schema_url", "schemaUrl", <<"", "kml">>, ""),
      Children("data", <<"kml", "">>, <<"SimpleData">>)>>],
  ExtendedData |-> [tag |-> "ExtendedData", nsid |-> "kml", fields |-> <<
      Children("elements", <<"kml", "">>, <<"Data", "SchemaData">>)>>],
  Coordinates |-> [tag |-> "coordinates", nsid |-> "kml", fields |-> <<
      Coords("coords", <<"kml", "">>)>>],
  Point |-> [tag |-> "Point", nsid |-> "kml", fields |-> BaseFields \o <<
      Bool("extrude", "extrude", <<"kml", "">>, "F"),
      Enum("altitude_mode", "altitudeMode", <<"kml", "gx", "">>, "AltitudeMode", "clampToGround"),
      Child("kml_coordinates", <<"kml", "">>, <<"Coordinates">>)>>],
  LineString |-> [tag |-> "LineString", nsid |-> "kml", fields |-> BaseFields \o LineFields],
  LinearRing |-> [tag |-> "LinearRing", nsid |-> "kml", fields |-> BaseFields \o LineFields],
  OuterBoundaryIs |-> [tag |-> "outerBoundaryIs", nsid |-> "kml", fields |-> <<
      Child("kml_geometry", <<"kml", "">>, <<"LinearRing">>)>>],
  InnerBoundaryIs |-> [tag |-> "innerBoundaryIs", nsid |-> "kml", fields |-> <<
      Child("kml_geometry", <<"kml", "">>, <<"LinearRing">>)>>],
  Polygon |-> [tag |-> "Polygon", nsid |-> "kml", fields |-> BaseFields \o <<
      Bool("extrude", "extrude", <<"kml", "">>, "F"),
      Bool("tessellate", "tessellate", <<"kml", "">>, "F"),
      Enum("altitude_mode", "altitudeMode", <<"kml", "gx", "">>, "AltitudeMode", "clampToGround"),
      Child("outer_boundary", <<"kml", "">>, <<"OuterBoundaryIs">>),
      Children("inner_boundaries", <<"kml", "">>, <<"InnerBoundaryIs">>)>>],
  MultiGeometry |-> [tag |-> "MultiGeometry", nsid |-> "kml", fields |-> BaseFields \o <<
      Children("kml_geometries", <<"kml", "">>, <<"Point", "LineString", "Polygon", "LinearRing", "MultiGeometry">>)>>],
  TimeStamp |-> [tag |-> "TimeStamp", nsid |-> "kml", fields |-> BaseFields \o <<
      Date("timestamp", "when", <<"kml", "gx", "">>)>>],
  TimeSpan |-> [tag |-> "TimeSpan", nsid |-> "kml", fields |-> BaseFields \o <<
      Date("begin", "begin", <<"kml", "gx", "">>),
      Date("end", "end", <<"kml", "gx", "">>)>>],
  Track |-> [tag |-> "Track", nsid |-> "gx", fields |-> BaseFields \o <<
      Enum("altitude_mode", "altitudeMode", <<"gx", "kml", "">>, "AltitudeMode", "clampToGround"),
      Dates("whens", "when", <<"kml", "gx", "">>),
      Nums("coords", "coord", <<"gx", "">>),
      Nums("angles", "angles", <<"gx", "">>),
      Child("extended_data", <<"kml", "">>, <<"ExtendedData">>)>>],
  MultiTrack |-> [tag |-> "MultiTrack", nsid |-> "gx", fields |-> BaseFields \o <<
      Enum("altitude_mode", "altitudeMode", <<"gx", "kml">>, "AltitudeMode", "clampToGround"),
      Bool("interpolate", "interpolate", <<"gx">>, ""),
      Children("tracks", <<"gx">>, <<"Track">>)>>],
  Link |-> [tag |-> "Link", nsid |-> "kml", fields |-> BaseFields \o LinkFields],
  Icon |-> [tag |-> "Icon", nsid |-> "kml", fields |-> BaseFields \o LinkFields],
  Location |-> [tag |-> "Location", nsid |-> "kml", fields |-> <<
      Float("longitude", "longitude", <<"kml", "">>, ""),
      Float("latitude", "latitude", <<"kml", "">>, ""),
      Float("altitude", "altitude", <<"kml", "">>, "0.0")>>],
  Orientation |-> [tag |-> "Orientation", nsid |-> "kml", fields |-> <<
      Float("heading", "heading", <<"kml", "">>, "0.0"),
      Float("tilt", "tilt", <<"kml", "">>, "0.0"),
      Float("roll", "roll", <<"kml", "">>, "0.0")>>],
  Scale |-> [tag |-> "Scale", nsid |-> "kml", fields |-> <<
      Float("x", "x", <<"kml", "">>, "1.0"),
      Float("y", "y", <<"kml", "">>, "1.0"),
      Float("z", "z", <<"kml", "">>, "1.0")>>],
  Alias |-> [tag |-> "Alias", nsid |-> "kml", fields |-> <<
      Text("target_href", "targetHref", <<"kml", "">>, ""),
      Text("source_href", "sourceHref", <<"kml", "">>, "")>>],
  ResourceMap |-> [tag |-> "ResourceMap", nsid |-> "kml", fields |-> <<
      Children("aliases", <<"kml", "">>, <<"Alias">>)>>],
  Model |-> [tag |-> "Model", nsid |-> "kml", fields |-> BaseFields \o <<
      Enum("altitude_mode", "altitudeMode", <<"kml", "gx", "">>, "AltitudeMode", "clampToGround"),
      Child("location", <<"kml", "">>, <<"Location">>),
      Child("orientation", <<"kml", "">>, <<"Orientation">>),
      Child("scale", <<"kml", "">>, <<"Scale">>),
      Child("link", <<"kml", "">>, <<"Link">>),
      Child("resource_map", <<"kml", "">>, <<"ResourceMap">>)>>],
  StyleUrl |-> [tag |-> "styleUrl", nsid |-> "kml", fields |-> <<
      Self("url", <<"kml", "">>)>>],
  HotSpot |-> [tag |-> "hotSpot", nsid |-> "kml", fields |-> <<
      FAttr("x", "x", <<"", "kml">>, "0.5"),
      FAttr("y", "y", <<"", "kml">>, "0.5"),
      EAttr("xunits", "xunits", <<"", "kml">>, "Units", "fraction"),
      EAttr("yunits", "yunits", <<"", "kml">>, "Units", "fraction")>>],
  IconStyle |-> [tag |-> "IconStyle", nsid |-> "kml", fields |-> BaseFields \o ColorFields \o <<
      Float("scale", "scale", <<"kml", "">>, "1.0"),
      Float("heading", "heading", <<"kml", "">>, "0.0"),
      Child("icon", <<"kml", "">>, <<"Icon">>),
      Child("hot_spot", <<"kml", "">>, <<"HotSpot">>)>>],
  LabelStyle |-> [tag |-> "LabelStyle", nsid |-> "kml", fields |-> BaseFields \o ColorFields \o <<
      Float("scale", "scale", <<"kml", "">>, "1.0")>>],
  LineStyle |-> [tag |-> "LineStyle", nsid |-> "kml", fields |-> BaseFields \o ColorFields \o <<
      Float("width", "width", <<"kml", "">>, "1.0")>>],
  PolyStyle |-> [tag |-> "PolyStyle", nsid |-> "kml", fields |-> BaseFields \o ColorFields \o <<
      Bool("fill", "fill", <<"kml", "">>, "T"),
      Bool("outline", "outline", <<"kml", "">>, "T")>>],
  BalloonStyle |-> [tag |-> "BalloonStyle", nsid |-> "kml", fields |-> BaseFields \o <<
      Text("bg_color", "bgColor", <<"kml", "">>, "ffffffff"),
      Text("text_color", "textColor", <<"kml", "">>, "ff000000"),
      Text("text", "text", <<"kml", "">>, ""),
      Enum("display_mode", "displayMode", <<"kml", "">>, "DisplayMode", "default")>>],
  Style |-> [tag |-> "Style", nsid |-> "kml", fields |-> BaseFields \o <<
      Children("styles", <<"kml", "">>, <<"IconStyle", "LabelStyle", "LineStyle", "PolyStyle", "BalloonStyle">>)>>],
  Pair |-> [tag |-> "Pair", nsid |-> "kml", fields |-> BaseFields \o <<
      Enum("key", "key", <<"kml", "">>, "PairKey", ""),
      Child("style", <<"kml", "">>, <<"StyleUrl", "Style">>)>>],
  StyleMap |-> [tag |-> "StyleMap", nsid |-> "kml", fields |-> BaseFields \o <<
      Children("pairs", <<"kml", "">>, <<"Pair">>)>>],
  Camera |-> [tag |-> "Camera", nsid |-> "kml", fields |-> BaseFields \o ViewFields \o <<
      Float("roll", "roll", <<"kml", "">>, "0.0"),
      Enum("altitude_mode", "altitudeMode", <<"kml", "gx", "">>, "AltitudeMode", "clampToGround")>>],
  LookAt |-> [tag |-> "LookAt", nsid |-> "kml", fields |-> BaseFields \o ViewFields \o <<
      Float("range", "range", <<"kml", "">>, ""),
      Enum("altitude_mode", "altitudeMode", <<"kml", "gx", "">>, "AltitudeMode", "clampToGround")>>],
  LatLonAltBox |-> [tag |-> "LatLonAltBox", nsid |-> "kml", fields |-> <<
      Float("north", "north", <<"kml", "">>, ""),
      Float("south", "south", <<"kml", "">>, ""),
      Float("east", "east", <<"kml", "">>, ""),
      Float("west", "west", <<"kml", "">>, ""),
      Float("min_altitude", "minAltitude", <<"kml", "">>, "0.0"),
      Float("max_altitude", "maxAltitude", <<"kml", "">>, "0.0"),
      Enum("altitude_mode", "altitudeMode", <<"kml", "gx", "">>, "AltitudeMode", "clampToGround")>>],
  Lod |-> [tag |-> "Lod", nsid |-> "kml", fields |-> <<
      Num("min_lod_pixels", "minLodPixels", <<"kml", "">>, "256"),
      Num("max_lod_pixels", "maxLodPixels", <<"kml", "">>, "-1"),
      Num("min_fade_extent", "minFadeExtent", <<"kml", "">>, "0"),
      Num("max_fade_extent", "maxFadeExtent", <<"kml", "">>, "0")>>],
  Region |-> [tag |-> "Region", nsid |-> "kml", fields |-> BaseFields \o <<
      Child("lat_lon_alt_box", <<"kml", "">>, <<"LatLonAltBox">>),
      Child("lod", <<"kml", "">>, <<"Lod">>)>>],
  Snippet |-> [tag |-> "Snippet", nsid |-> "kml", fields |-> <<
      Self("text", <<"kml", "">>),
      IAttr("max_lines", "maxLines", <<"", "kml">>, "2")>>],
  Placemark |-> [tag |-> "Placemark", nsid |-> "kml", fields |-> BaseFields \o FeatureFields \o <<
      Child("kml_geometry", <<"kml", "gx", "">>, <<"Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model", "MultiTrack", "Track">>)>>],
  NetworkLink |-> [tag |-> "NetworkLink", nsid |-> "kml", fields |-> BaseFields \o FeatureFields \o <<
      Bool("refresh_visibility", "refreshVisibility", <<"kml", "">>, "F"),
      Bool("fly_to_view", "flyToView", <<"kml", "">>, "F"),
      Child("link", <<"kml", "">>, <<"Link">>)>>],
  ViewVolume |-> [tag |-> "ViewVolume", nsid |-> "kml", fields |-> <<
      Float("left_fov", "leftFov", <<"kml", "">>, "0.0"),
      Float("right_fov", "rightFov", <<"kml", "">>, "0.0"),
      Float("bottom_fov", "bottomFov", <<"kml", "">>, "0.0"),
      Float("top_fov", "topFov", <<"kml", "">>, "0.0"),
      Float("near", "near", <<"kml", "">>, "0.0")>>],
  ImagePyramid |-> [tag |-> "ImagePyramid", nsid |-> "kml", fields |-> <<
      Num("tile_size", "tileSize", <<"kml", "">>, "256"),
      Num("max_width", "maxWidth", <<"kml", "">>, ""),
      Num("max_height", "maxHeight", <<"kml", "">>, ""),
      Enum("grid_origin", "gridOrigin", <<"kml", "">>, "GridOrigin", "lowerLeft")>>],
  PhotoOverlay |-> [tag |-> "PhotoOverlay", nsid |-> "kml", fields |-> BaseFields \o FeatureFields \o OverlayFields \o <<
      Float("rotation", "rotation", <<"kml", "">>, "0.0"),
      Child("view_volume", <<"kml", "">>, <<"ViewVolume">>),
      Child("image_pyramid", <<"kml", "">>, <<"ImagePyramid">>),
      Child("point", <<"kml", "">>, <<"Point">>),
      Enum("shape", "shape", <<"kml", "">>, "Shape", "rectangle")>>],
  LatLonBox |-> [tag |-> "LatLonBox", nsid |-> "kml", fields |-> <<
      Float("north", "north", <<"kml", "">>, ""),
      Float("south", "south", <<"kml", "">>, ""),
      Float("east", "east", <<"kml", "">>, ""),
      Float("west", "west", <<"kml", "">>, ""),
      Float("rotation", "rotation", <<"kml", "">>, "0.0")>>],
  GroundOverlay |-> [tag |-> "GroundOverlay", nsid |-> "kml", fields |-> BaseFields \o FeatureFields \o OverlayFields \o <<
      Float("altitude", "altitude", <<"kml", "">>, "0.0"),
      Enum("altitude_mode", "altitudeMode", <<"kml", "gx", "">>, "AltitudeMode", "clampToGround"),
      Child("lat_lon_box", <<"kml", "">>, <<"LatLonBox">>)>>],
  OverlayXY |-> [tag |-> "overlayXY", nsid |-> "kml", fields |-> XYFields],
  ScreenXY |-> [tag |-> "screenXY", nsid |-> "kml", fields |-> XYFields],
  RotationXY |-> [tag |-> "rotationXY", nsid |-> "kml", fields |-> XYFields],
  Size |-> [tag |-> "size", nsid |-> "kml", fields |-> XYFields],
  ScreenOverlay |-> [tag |-> "ScreenOverlay", nsid |-> "kml", fields |-> BaseFields \o FeatureFields \o OverlayFields \o <<
      Child("overlay_xy", <<"kml", "">>, <<"OverlayXY">>),
      Child("screen_xy", <<"kml", "">>, <<"ScreenXY">>),
      Child("rotation_xy", <<"kml", "">>, <<"RotationXY">>),
      Child("size", <<"kml", "">>, <<"Size">>),
      Float("rotation", "rotation", <<"kml", "">>, "0.0")>>],
  Folder |-> [tag |-> "Folder", nsid |-> "kml", fields |-> BaseFields \o FeatureFields \o ContainerFields],
  Document |-> [tag |-> "Document", nsid |-> "kml", fields |-> BaseFields \o FeatureFields \o <<
      Children("schemata", <<"kml", "">>, <<"Schema">>)>> \o ContainerFields],
  NetworkLinkControl |-> [tag |-> "NetworkLinkControl", nsid |-> "kml", fields |-> <<
      Float("min_refresh_period", "minRefreshPeriod", <<"kml", "">>, "0.0"),
      Float("max_session_length", "maxSessionLength", <<"kml", "">>, "-1.0"),
      Text("cookie", "cookie", <<"kml", "">>, ""),
      Text("message", "message", <<"kml", "">>, ""),
      Text("link_name", "linkName", <<"kml", "">>, ""),
      Text("link_description", "linkDescription", <<"kml", "">>, ""),
      Text("link_snippet", "linkSnippet", <<"kml", "">>, ""),
      Date("expires", "expires", <<"kml", "">>),
      Child("view", <<"kml", "">>, <<"Camera", "LookAt">>)>>],
  KML |-> [tag |-> "kml", nsid |-> "kml", fields |-> <<
      Children("features", <<"kml">>, <<"NetworkLinkControl", "Document", "Folder", "Placemark", "GroundOverlay", "PhotoOverlay", "ScreenOverlay", "NetworkLink">>)>>]]

ClassNames == DOMAIN Schema
FieldsOf(cls) == Schema[cls].fields
TagOf(cls) == Schema[cls].tag

\* The description of one property of a class.
FieldOf(cls, attr) ==
  LET fs == FieldsOf(cls) IN
  fs[CHOOSE i \in DOMAIN fs : fs[i].attr = attr]

=============================================================================
