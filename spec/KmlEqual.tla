------------------------------ MODULE KmlEqual ------------------------------
(***************************************************************************)
(* When two objects are equal: same kind, same namespace, same value of    *)
(* every property of every part.  Points, lines, rings and polygons are    *)
(* compared by their own options and by the geometry they stand for.       *)
(***************************************************************************)
EXTENDS KmlFind

\* There is one zero.
SameNum(s, t) == s = t \/ (s \in {"0.0", "-0.0"} /\ t \in {"0.0", "-0.0"})
SameNums(q, r) == Len(q) = Len(r) /\ \A i \in DOMAIN q : SameNum(q[i], r[i])
SameRows(q, r) == Len(q) = Len(r) /\ \A i \in DOMAIN q : SameNums(q[i], r[i])

OneZero(q) == TLCEval([i \in DOMAIN q |-> TLCEval([j \in DOMAIN q[i] |-> IF q[i][j] = "-0.0" THEN "0.0" ELSE q[i][j]])])
RECURSIVE Zeroed(_)
Zeroed(o) ==
  Obj(o.cls, o.ns, TLCEval([a \in DOMAIN o.f |->
     LET k == FieldOf(o.cls, a).kind IN
     CASE k = "xml" -> Zeroed(o.f[a])
       [] k = "xmls" -> TLCEval([i \in DOMAIN o.f[a] |-> Zeroed(o.f[a][i])])
       [] k \in {"nums", "coordinates"} -> OneZero(o.f[a])
       [] OTHER -> o.f[a]]))

ByGeometry == {"Point", "LineString", "LinearRing", "Polygon"}
RECURSIVE Equal(_, _)
EqualIn(a, b, fd) ==
  LET k == fd.kind
      x == fd.attr IN
  /\ Has(a, x) = Has(b, x)
  /\ Has(a, x) =>
       CASE k = "xml" -> Equal(a.f[x], b.f[x])
         [] k = "xmls" -> Len(a.f[x]) = Len(b.f[x]) /\ \A i \in DOMAIN a.f[x] : Equal(a.f[x][i], b.f[x][i])
         [] k \in {"nums", "coordinates"} -> SameRows(a.f[x], b.f[x])
         [] k \in {"float", "fattr"} -> SameNum(a.f[x], b.f[x])
         [] OTHER -> a.f[x] = b.f[x]
Equal(a, b) ==
  /\ a.cls = b.cls /\ a.ns = b.ns
  /\ LET fs == FieldsOf(a.cls) IN
     IF a.cls \in ByGeometry
     THEN /\ \A i \in DOMAIN fs : fs[i].kind \notin {"xml", "xmls"} => EqualIn(a, b, fs[i])
          /\ GeometryOf(Zeroed(a)) = GeometryOf(Zeroed(b))
     ELSE \A i \in DOMAIN fs : EqualIn(a, b, fs[i])
=============================================================================
