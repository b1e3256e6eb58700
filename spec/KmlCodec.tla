------------------------------ MODULE KmlCodec ------------------------------
(***************************************************************************)
(* Objects, documents, and the two directions between them.                *)
(*                                                                         *)
(* An object is [cls, ns, f]: its kind, the id of the namespace it lives   *)
(* in and a function from the attributes that are set to their values.     *)
(* Values are strings: numbers in canonical form ("1.5", "3"), booleans    *)
(* "T" and "F", enumeration values, date tokens (KmlLex), texts as they    *)
(* are; sequences of those; objects; sequences of objects.                 *)
(*                                                                         *)
(* A document node is [n, x, t, c]: qualified name "kml:Point", attributes *)
(* (function from qualified name to text), text, children.                 *)
(* A node that is to be written has typed texts [k, v] instead: k says how *)
(* to compare it with what was really written.                             *)
(***************************************************************************)
EXTENDS KmlSchema, KmlLex, TLC

Q(ns, node) == IF ns = "" THEN node ELSE ns \o ":" \o node

Has(o, a) == a \in DOMAIN o.f
Obj(cls, ns, f) == [cls |-> cls, ns |-> ns, f |-> f]

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Filter(q, T(_)) == SelectSeq(q, T)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

---------------------------------------------------------------------------
(* Which objects count as present.  An object without its essential part   *)
(* is empty and leaves no trace in the document it would be written to.    *)

TupleOk(t) == Len(t) \in {2, 3}
IsPosition(cs)  == Len(cs) > 0 /\ TupleOk(cs[1])
IsPath(cs)      == Len(cs) > 0 /\ TupleOk(cs[1]) /\ \A i \in DOMAIN cs : Len(cs[i]) = Len(cs[1])

RECURSIVE Truthy(_)
CoordsOf(o) == IF Has(o, "kml_coordinates") /\ Has(o.f["kml_coordinates"], "coords")
               THEN o.f["kml_coordinates"].f["coords"] ELSE <<>>
AllSet(o, S) == \A a \in S : Has(o, a)
AnySet(o, S) == \E a \in S : Has(o, a)
ChildTruthy(o, a) == Has(o, a) /\ Truthy(o.f[a])
AnyTruthy(o, a) == Has(o, a) /\ \E i \in DOMAIN o.f[a] : Truthy(o.f[a][i])

Truthy(o) ==
  LET c == o.cls IN
  CASE c = "AtomLink"                 -> Has(o, "href")
    [] c \in {"Author", "Contributor"} -> Has(o, "name")
    [] c = "SimpleField"              -> AllSet(o, {"name", "type_"})
    [] c \in {"Data", "SimpleData"}   -> AllSet(o, {"name", "value"})
    [] c = "SchemaData"               -> AllSet(o, {"data", "schema_url"})
    [] c = "ExtendedData"             -> Has(o, "elements")
    [] c = "Coordinates"              -> Has(o, "coords")
    [] c = "Point"                    -> IsPosition(CoordsOf(o))
    [] c \in {"LineString", "LinearRing"} -> IsPath(CoordsOf(o))
    [] c \in {"OuterBoundaryIs", "InnerBoundaryIs"} -> ChildTruthy(o, "kml_geometry")
    [] c = "Polygon"                  -> ChildTruthy(o, "outer_boundary")
    [] c = "MultiGeometry"            -> AnyTruthy(o, "kml_geometries")
    [] c = "TimeStamp"                -> Has(o, "timestamp")
    [] c = "TimeSpan"                 -> AnySet(o, {"begin", "end"})
    [] c = "Track"                    -> Has(o, "whens") \/ Has(o, "coords")
    [] c = "MultiTrack"               -> Has(o, "tracks")
    [] c \in {"Link", "Icon"}         -> Has(o, "href")
    [] c = "Location"                 -> AllSet(o, {"latitude", "longitude"})
    [] c = "Orientation"              -> AnySet(o, {"heading", "tilt", "roll"})
    [] c = "Scale"                    -> AnySet(o, {"x", "y", "z"})
    [] c = "Alias"                    -> AnySet(o, {"target_href", "source_href"})
    [] c = "ResourceMap"              -> Has(o, "aliases")
    [] c = "Model"                    -> ChildTruthy(o, "link") /\ ChildTruthy(o, "location")
    [] c = "StyleUrl"                 -> Has(o, "url")
    [] c = "IconStyle"                -> ChildTruthy(o, "icon")
    [] c = "LineStyle"                -> AnySet(o, {"width", "color", "color_mode"})
    [] c = "PolyStyle"                -> AnySet(o, {"fill", "outline", "color", "color_mode"})
    [] c = "LabelStyle"               -> AnySet(o, {"scale", "color", "color_mode"})
    [] c = "BalloonStyle"             -> AnySet(o, {"bg_color", "text_color", "text", "display_mode"})
    [] c = "Style"                    -> AnyTruthy(o, "styles")
    [] c = "Pair"                     -> AllSet(o, {"key", "style"})
    [] c = "StyleMap"                 -> Has(o, "pairs")
    [] c \in {"LatLonAltBox", "LatLonBox"} -> AllSet(o, {"north", "south", "east", "west"})
    [] c = "Lod"                      -> Has(o, "min_lod_pixels")
    [] c = "Region"                   -> ChildTruthy(o, "lat_lon_alt_box")
    [] c = "Snippet"                  -> Has(o, "text")
    [] c = "NetworkLink"              -> ChildTruthy(o, "link")
    [] c = "ViewVolume"               -> AllSet(o, {"left_fov", "right_fov", "bottom_fov", "top_fov", "near"})
    [] c = "ImagePyramid"             -> AllSet(o, {"max_width", "max_height"})
    [] c \in {"OverlayXY", "ScreenXY", "RotationXY", "Size"} -> AllSet(o, {"x", "y"})
    [] OTHER                          -> TRUE

---------------------------------------------------------------------------
(* Writing.  v is the verbosity ("terse" leaves out what has its default   *)
(* value, "verbose" spells out the defaults of what is not set).           *)

\* Negative zero is zero.
IsDefault(x, d) == x = d \/ (d = "0.0" /\ x \in ZeroTokens)
Effective(o, fd, v) ==
  IF Has(o, fd.attr)
  THEN IF v = "terse" /\ fd.kind \in ScalarKinds /\ fd.dflt # "" /\ IsDefault(o.f[fd.attr], fd.dflt)
       THEN Nothing ELSE <<o.f[fd.attr]>>
  ELSE IF v = "verbose" /\ fd.dflt # "" THEN <<fd.dflt>> ELSE Nothing

Typed(k, v) == [k |-> k, v |-> v]
NoText == Typed("none", "")
Leaf(n, k, v) == [n |-> n, x |-> <<>>, t |-> Typed(k, v), c |-> <<>>]

\* How a scalar is spelled.
Spell(fd, v) ==
  CASE fd.kind = "bool"                -> Typed("text", IF v = "T" THEN "1" ELSE "0")
    [] fd.kind \in {"int", "iattr"}     -> Typed("int", v)
    [] fd.kind \in {"float", "fattr"}   -> Typed("float", v)
    [] fd.kind = "date"                -> Typed("date", v)
    [] OTHER                           -> Typed("text", v)

\* In which namespace the node of a property is written.
\* (Objects with a mapping `m' use that, see KmlNames; the others keep ids.)
InMap(o, id) == IF "m" \in DOMAIN o THEN o.m[id] ELSE id
NodeNs(o, fd, v) ==
  CASE fd.kind = "enum" /\ fd.types[1] = "AltitudeMode" -> IF v \in GxValues THEN InMap(o, "gx") ELSE IF o.ns = "" THEN "" ELSE InMap(o, "kml")
    [] fd.kind \in {"date", "dates"} -> IF o.ns = "" THEN "" ELSE InMap(o, "kml")
    [] OTHER -> o.ns

AttrKinds == {"tattr", "iattr", "fattr", "eattr"}

RECURSIVE Write(_, _)
WriteField(o, fd, v) ==      \* the child nodes that come from one property
  LET val == Effective(o, fd, v) IN
  IF val = Nothing \/ fd.kind \in AttrKinds \cup {"self", "coordinates"} THEN <<>>
  ELSE CASE fd.kind = "xml"  -> IF Truthy(val[1]) THEN <<Write(val[1], v)>> ELSE <<>>
         [] fd.kind = "xmls" -> LET q == Filter(val[1], Truthy) IN
                                [i \in DOMAIN q |-> Write(q[i], v)]
         [] fd.kind = "dates" -> [i \in DOMAIN val[1] |->
                                  Leaf(Q(NodeNs(o, fd, ""), fd.node), "date", val[1][i])]
         [] fd.kind = "nums" -> [i \in DOMAIN val[1] |->
                                  Leaf(Q(o.ns, fd.node), "nums", val[1][i])]
         [] OTHER -> LET s == Spell(fd, val[1]) IN
                     <<Leaf(Q(NodeNs(o, fd, val[1]), fd.node), s.k, s.v)>>

\* fs: the properties of the kind of object, in order.
WriteAttrs(o, fs, v) ==
  LET I == {i \in DOMAIN fs : fs[i].kind \in AttrKinds /\ Effective(o, fs[i], v) # Nothing}
      N == {fs[i].node : i \in I} IN
  [n \in N |-> LET i == CHOOSE j \in I : fs[j].node = n IN Spell(fs[i], Effective(o, fs[i], v)[1])]

WriteText(o, fs, v) ==
  LET I == {i \in DOMAIN fs : fs[i].kind \in {"self", "coordinates"} /\ Has(o, fs[i].attr)} IN
  IF I = {} THEN NoText
  ELSE LET i == CHOOSE j \in I : TRUE IN
       Typed(IF fs[i].kind = "self" THEN "text" ELSE "coordinates", o.f[fs[i].attr])

WriteWith(o, tag, fs, v) ==
  [n |-> Q(o.ns, tag),
   x |-> TLCEval(WriteAttrs(o, fs, v)),
   t |-> WriteText(o, fs, v),
   c |-> TLCEval(Flat([i \in DOMAIN fs |-> WriteField(o, fs[i], v)]))]
Write(o, v) == WriteWith(o, TagOf(o.cls), FieldsOf(o.cls), v)

---------------------------------------------------------------------------
(* Does a node e of a real document say what the typed node w wants?       *)
(* tab.fl, tab.il: the texts of the document that are numbers, integers,   *)
(* with their canonical form.  tab.dx: exact decimal expansion of numbers, *)
(* p: the number of decimals asked for (-1: all).                          *)

NumSays(t, tok, p, tab) ==
  IF p < 0 THEN t \in DOMAIN tab.fl /\ tab.fl[t] = tok
  ELSE t = RoundTo(tab.dx[tok], p)
TupleSays(ts, tup, p, tab) ==
  Len(ts) = Len(tup) /\ \A i \in DOMAIN ts : NumSays(ts[i], tup[i], p, tab)

TextSays(t, w, p, tab) ==
  CASE w.k = "none"  -> Strip(t) = ""
    [] w.k = "text"  -> t = w.v
    [] w.k = "int"   -> t \in DOMAIN tab.il /\ tab.il[t] = w.v
    [] w.k = "float" -> t \in DOMAIN tab.fl /\ tab.fl[t] = w.v
    [] w.k = "date"  -> IsVal(ParseDate(t)) /\ ParseDate(t) = ParseDate(DateText(w.v))
    [] w.k = "nums"  -> TupleSays(Words(t, 1, White), w.v, p, tab)
    [] w.k = "coordinates" ->
         LET ws == Words(t, 1, White) IN
         Len(ws) = Len(w.v) /\ \A i \in DOMAIN ws : TupleSays(Parts(ws[i], 1, {","}), w.v[i], p, tab)

\* The result of comparing: "" or the path to the first difference.
RECURSIVE Diff(_, _, _, _)
Diff(e, w, p, tab) ==
  CASE e.n # w.n -> "name " \o e.n \o " for " \o w.n
    [] DOMAIN e.x # DOMAIN w.x -> "attributes of " \o w.n
    [] \E a \in DOMAIN w.x : ~TextSays(e.x[a], w.x[a], p, tab) -> "attribute value of " \o w.n
    [] ~TextSays(e.t, w.t, p, tab) -> "text of " \o w.n
    [] Len(e.c) # Len(w.c) -> "number of children of " \o w.n
    [] OTHER ->
       LET D == {i \in DOMAIN e.c : Diff(e.c[i], w.c[i], p, tab) # ""} IN
       IF D = {} THEN "" ELSE w.n \o "/" \o Diff(e.c[SeqMin(D)], w.c[SeqMin(D)], p, tab)

---------------------------------------------------------------------------
(* Reading.  ns: the id of the namespace the node was found in.            *)

ChildrenNamed(e, n) == SelectSeq(e.c, LAMBDA k : k.n = n)

LeafText(e, n) == LET k == ChildrenNamed(e, n) IN IF k = <<>> THEN "" ELSE Strip(k[1].t)
AttrText(e, n) == IF n \in DOMAIN e.x THEN e.x[n] ELSE ""

ReadScalar(fd, e, ns, strict, tab) ==
  LET t == IF fd.kind = "self" THEN Strip(e.t)
           ELSE IF fd.kind \in AttrKinds THEN AttrText(e, Q(ns, fd.node))
           ELSE LeafText(e, Q(ns, fd.node)) IN
  IF t = "" THEN Nothing
  ELSE CASE fd.kind = "bool"             -> ParseBool(t, strict, tab.fl)
         [] fd.kind \in {"int", "iattr"}   -> ParseNum(t, tab.il)
         [] fd.kind \in {"float", "fattr"} -> ParseNum(t, tab.fl)
         [] fd.kind \in {"enum", "eattr"}  -> ParseEnum(t, Enums[fd.types[1]], strict)
         [] fd.kind = "date"             -> ParseDate(t)
         [] OTHER                        -> <<t>>

\* The lists of a track: blank entries do not count, bad ones are an error.
ReadList(fd, e, ns, strict, tab) ==
  LET k == ChildrenNamed(e, Q(ns, fd.node))
      one(t) == IF fd.kind = "dates" THEN (IF Strip(t) = "" THEN Nothing ELSE ParseDate(Strip(t)))
                ELSE (IF t = "" THEN Nothing ELSE ParseNums(t, tab.fl))
      r == TLCEval([i \in DOMAIN k |-> one(k[i].t)])
      good == SelectSeq(r, IsVal) IN
  IF strict /\ \E i \in DOMAIN r : IsBad(r[i]) THEN Bad
  ELSE IF good = <<>> THEN Nothing ELSE <<[i \in DOMAIN good |-> good[i][1]]>>

RECURSIVE Read(_, _, _, _, _), ReadField(_, _, _, _, _)

ReadChild(fd, e, ns, strict, tab) ==
  LET C == {i \in DOMAIN fd.types : ChildrenNamed(e, Q(ns, TagOf(fd.types[i]))) # <<>>} IN
  IF C = {} THEN Nothing
  ELSE LET cls == fd.types[SeqMin(C)]
           r == Read(cls, ChildrenNamed(e, Q(ns, TagOf(cls)))[1], ns, strict, tab) IN
       IF r.ok THEN <<r.o>> ELSE Bad

ReadChildren(fd, e, ns, strict, tab) ==
  LET rs == TLCEval(Flat([i \in DOMAIN fd.types |->
              LET k == ChildrenNamed(e, Q(ns, TagOf(fd.types[i]))) IN
              [j \in DOMAIN k |-> Read(fd.types[i], k[j], ns, strict, tab)]])) IN
  IF \E i \in DOMAIN rs : ~rs[i].ok THEN Bad
  ELSE IF rs = <<>> THEN Nothing ELSE <<[i \in DOMAIN rs |-> rs[i].o]>>

ReadIn(fd, e, ns, strict, tab) ==
  CASE fd.kind = "xml"  -> ReadChild(fd, e, ns, strict, tab)
    [] fd.kind = "xmls" -> ReadChildren(fd, e, ns, strict, tab)
    [] fd.kind \in {"dates", "nums"} -> ReadList(fd, e, ns, strict, tab)
    [] fd.kind = "coordinates" -> ParseCoords(e.t, tab.fl)
    [] OTHER -> ReadScalar(fd, e, ns, strict, tab)

\* The namespaces of a property are tried in order.  A bad value is an error
\* when reading strictly (and inside children always), otherwise as if absent.
ReadField(fd, e, k, strict, tab) ==
  IF k > Len(fd.ns) THEN Nothing
  ELSE LET r == ReadIn(fd, e, fd.ns[k], strict, tab) IN
       IF IsVal(r) THEN r
       ELSE IF IsBad(r) /\ (strict \/ fd.kind \in {"xml", "xmls"}) THEN Bad
       ELSE ReadField(fd, e, k + 1, strict, tab)

Restrict(f, S) == [a \in (DOMAIN f) \cap S |-> f[a]]
Without(f, S) == [a \in (DOMAIN f) \ S |-> f[a]]
With(f, a, v) == [b \in (DOMAIN f) \cup {a} |-> IF b = a THEN v ELSE f[b]]

\* What an object keeps of the values it is made from.
OnlyTruthy(f, a) ==
  IF a \notin DOMAIN f THEN f
  ELSE LET q == Filter(f[a], Truthy) IN IF q = <<>> THEN Without(f, {a}) ELSE With(f, a, q)

TrackLists == {"whens", "coords", "angles"}
Pad3(t) == [i \in 1..3 |-> IF i <= Len(t) THEN t[i] ELSE "0.0"]
ListIn(f, a) == IF a \in DOMAIN f THEN f[a] ELSE <<>>
TrackMismatch(f) ==
  LET w == ListIn(f, "whens") c == ListIn(f, "coords") g == ListIn(f, "angles") IN
  w # <<>> /\ c # <<>> /\
  (Len(w) # Len(c) \/ Len(g) > Len(c) \/ (\E i \in DOMAIN c : ~TupleOk(c[i]))
   \/ \E i \in DOMAIN g : Len(g[i]) > 3)
TrackKeeps(f) ==
  IF ListIn(f, "whens") = <<>> \/ ListIn(f, "coords") = <<>> \/ TrackMismatch(f)
  THEN Without(f, TrackLists)
  ELSE With(f, "angles", [i \in DOMAIN f["coords"] |->
         Pad3(IF i <= Len(ListIn(f, "angles")) THEN f["angles"][i] ELSE <<>>)])

TextKinds == {"self", "text", "tattr"}
Trim(cls, f) ==    \* texts are kept without surrounding white space; ids as they are
  LET fs == FieldsOf(cls)
      T == {fs[i].attr : i \in {j \in DOMAIN fs : fs[j].kind \in TextKinds}} \ {"id", "target_id"}
      keep == {a \in DOMAIN f : a \in T => Strip(f[a]) # ""} IN
  [a \in keep |-> IF a \in T THEN Strip(f[a]) ELSE f[a]]

Keeps(cls, f) ==
  LET g == Trim(cls, f) IN
  CASE cls = "ExtendedData" -> OnlyTruthy(g, "elements")
    [] cls = "MultiTrack"   -> OnlyTruthy(g, "tracks")
    [] cls = "Track"        -> TrackKeeps(g)
    [] OTHER                -> g

\* The values that the properties fs have in the document, [ok, f].
ReadWith(fs, e, strict, tab) ==
  LET r == TLCEval([i \in DOMAIN fs |-> ReadField(fs[i], e, 1, strict, tab)])
      I == {i \in DOMAIN fs : IsVal(r[i])}
      A == {fs[i].attr : i \in I}
      f == TLCEval([a \in A |-> r[CHOOSE i \in I : fs[i].attr = a][1]]) IN
  IF \E i \in DOMAIN fs : IsBad(r[i]) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, f |-> f]

\* The object, given the values that are there.
Finish(cls, ns, strict, r) ==
  IF \/ ~r.ok
     \/ cls = "Schema" /\ "id" \notin DOMAIN r.f          \* a schema has to have an id
     \/ cls = "Track" /\ strict /\ TrackMismatch(r.f)
  THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, o |-> Obj(cls, ns, TLCEval(Keeps(cls, r.f)))]
Read(cls, e, ns, strict, tab) == Finish(cls, ns, strict, ReadWith(FieldsOf(cls), e, strict, tab))

---------------------------------------------------------------------------
(* Objects without anything that a document cannot express: those come     *)
(* back as they were.                                                      *)

Index(q, x) == IF \E i \in DOMAIN q : q[i] = x
               THEN CHOOSE i \in DOMAIN q : q[i] = x ELSE 0
RECURSIVE Complete(_)
Complete(o) ==
  LET fs == FieldsOf(o.cls) IN
  /\ o.cls \in {"SchemaData"} => TRUE
  /\ \A a \in DOMAIN o.f :
       LET fd == FieldOf(o.cls, a) v == o.f[a] IN
       CASE fd.kind = "xml"  -> /\ Truthy(v) /\ Complete(v)
                                /\ Index(fd.types, v.cls) > 0
         [] fd.kind = "xmls" -> /\ v # <<>>
                                /\ \A i \in DOMAIN v : Truthy(v[i]) /\ Complete(v[i])
                                /\ \A i \in DOMAIN v : Index(fd.types, v[i].cls) > 0
                                /\ \A i \in 1..(Len(v) - 1) :
                                     Index(fd.types, v[i].cls) <= Index(fd.types, v[i + 1].cls)
         [] fd.kind \in ListKinds -> v # <<>>
         [] fd.kind \in TextKinds -> v # "" /\ v = Strip(v)
         [] OTHER -> TRUE
  /\ o.cls = "Schema" => Has(o, "id")
  /\ o.cls = "Track" =>
       \/ DOMAIN o.f \cap TrackLists = {}
       \/ /\ AllSet(o, TrackLists) /\ ~TrackMismatch(o.f)
          /\ Len(o.f["angles"]) = Len(o.f["coords"])
          /\ \A i \in DOMAIN o.f["angles"] : Len(o.f["angles"][i]) = 3

---------------------------------------------------------------------------
(* Verbosity does not change meaning: objects that differ only in whether  *)
(* defaults are spelled out are equivalent.                                *)
RECURSIVE Spelled(_)
Spelled(o) ==
  LET fs == FieldsOf(o.cls)
      A == (DOMAIN o.f) \cup {fs[i].attr : i \in {j \in DOMAIN fs : fs[j].dflt # ""}} IN
  Obj(o.cls, o.ns, TLCEval([a \in A |->
     IF a \notin DOMAIN o.f THEN FieldOf(o.cls, a).dflt
     ELSE LET fd == FieldOf(o.cls, a) IN
          CASE fd.kind = "xml"  -> Spelled(o.f[a])
            [] fd.kind = "xmls" -> [i \in DOMAIN o.f[a] |-> Spelled(o.f[a][i])]
            [] fd.kind \in ScalarKinds /\ fd.dflt # "" /\ IsDefault(o.f[a], fd.dflt) -> fd.dflt
            [] OTHER -> o.f[a]]))

---------------------------------------------------------------------------
(* A concrete document for a typed node, used by the models: every number  *)
(* in canonical form.                                                      *)
TextOf(w) ==
  CASE w.k = "date" -> DateText(w.v)
    [] w.k = "nums" -> Join(w.v, " ")
    [] w.k = "coordinates" -> Join([i \in DOMAIN w.v |-> Join(w.v[i], ",")], " ")
    [] OTHER -> w.v
RECURSIVE Concrete(_)
Concrete(w) == [n |-> w.n, x |-> TLCEval([a \in DOMAIN w.x |-> TextOf(w.x[a])]), t |-> TextOf(w.t),
                c |-> TLCEval([i \in DOMAIN w.c |-> Concrete(w.c[i])])]
=============================================================================
